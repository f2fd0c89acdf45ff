//! The process table: ourselves and the processes of the rig that nobody has waited for.
use std::collections::HashMap;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pid(usize);
pub trait PidExt: Copy {
    fn as_u32(self) -> u32;
    fn from_u32(v: u32) -> Self;
}
impl PidExt for Pid {
    fn as_u32(self) -> u32 {
        self.0 as u32
    }
    fn from_u32(v: u32) -> Self {
        Pid(v as usize)
    }
}
impl From<usize> for Pid {
    fn from(v: usize) -> Pid {
        Pid(v)
    }
}
impl From<Pid> for usize {
    fn from(v: Pid) -> usize {
        v.0
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct ProcessRefreshKind;
impl ProcessRefreshKind {
    pub fn new() -> Self {
        Self
    }
    pub fn everything() -> Self {
        Self
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct RefreshKind;
impl RefreshKind {
    pub fn new() -> Self {
        Self
    }
    pub fn with_processes(self, _: ProcessRefreshKind) -> Self {
        self
    }
    pub fn everything() -> Self {
        Self
    }
}
pub struct Process {
    pid: Pid,
    parent: Option<Pid>,
}
pub trait ProcessExt {
    fn parent(&self) -> Option<Pid>;
    fn pid(&self) -> Pid;
}
impl ProcessExt for Process {
    fn parent(&self) -> Option<Pid> {
        self.parent
    }
    fn pid(&self) -> Pid {
        self.pid
    }
}
#[derive(Default)]
pub struct System(HashMap<Pid, Process>);
pub trait SystemExt: Sized {
    fn new() -> Self {
        Self::new_with_specifics(RefreshKind)
    }
    fn new_all() -> Self {
        Self::new_with_specifics(RefreshKind)
    }
    fn new_with_specifics(k: RefreshKind) -> Self;
    fn processes(&self) -> &HashMap<Pid, Process>;
    fn refresh_processes(&mut self);
    fn refresh_process(&mut self, p: Pid) -> bool {
        self.refresh_processes();
        self.processes().contains_key(&p)
    }
    fn process(&self, p: Pid) -> Option<&Process> {
        self.processes().get(&p)
    }
}
impl SystemExt for System {
    fn new_with_specifics(_: RefreshKind) -> Self {
        let mut s = System::default();
        s.refresh_processes();
        s
    }
    fn processes(&self) -> &HashMap<Pid, Process> {
        &self.0
    }
    fn refresh_processes(&mut self) {
        let me = std::process::id() as usize;
        self.0.clear();
        self.0.insert(Pid(me), Process { pid: Pid(me), parent: Some(Pid(1)) });
        for (i, p) in tokio::process::procs().iter().enumerate() {
            if !p.reaped && tokio::process::is_ours(i) {
                let pid = Pid(tokio::process::PID0 as usize + i);
                self.0.insert(pid, Process { pid, parent: Some(Pid(me)) });
            }
        }
    }
}
pub fn get_current_pid() -> Result<Pid, &'static str> {
    Ok(Pid(std::process::id() as usize))
}
