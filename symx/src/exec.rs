//! The symbolic interpreter: one worker explores states depth first, forking on
//! symbolic branches whose both sides the solver finds satisfiable.
use crate::expr::{self, bin, cst, eval, extract, ite, mask, not, sext, sext_e, zext, Op, E};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Ans, Shared, Solver};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub base: u32,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub cur: Frame,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub vars: Vec<u32>,
    pub names: Vec<Arc<str>>,
    pub log: Vec<(u64, Val)>,
    pub steps: u64,
    pub covers: BTreeSet<Arc<str>>,
    pub tls: BTreeMap<u64, u64>,
    pub depth: u32,
}

#[derive(Clone)]
pub struct Viol {
    pub label: String,
    pub detail: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u32, u128)>,
    pub log: Vec<(u64, u128)>,
    pub steps: u64,
}

pub enum End {
    Done,
    Assume,
    Viol(String, String),
    Err(String),
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_ms: u64,
    pub known: Vec<String>,
    pub samples: usize,
    pub trace: bool,
    pub stop_on_violation: bool,
    /// labels tagged for other properties ("C01,C02: text") are not checked
    pub only: String,
}

fn skipped(only: &str, label: &str) -> bool {
    if only.is_empty() {
        return false;
    }
    match label.split_once(": ") {
        Some((t, _)) if t.split(',').all(|x| x.len() >= 3 && x.as_bytes()[0].is_ascii_uppercase() && x[1..].bytes().all(|c| c.is_ascii_digit())) => !t.split(',').any(|x| x == only),
        _ => false,
    }
}

#[derive(Default)]
pub struct Totals {
    pub paths: AtomicU64,
    pub done: AtomicU64,
    pub assumed: AtomicU64,
    pub viol: AtomicU64,
    pub errs: AtomicU64,
    pub steps: AtomicU64,
    pub blocks: AtomicU64,
    pub forks: AtomicU64,
    pub checks: AtomicU64,
    pub checks_solver: AtomicU64,
    pub maxdepth: AtomicU64,
}

pub struct Sample {
    pub inputs: Vec<(String, u32, u128)>,
    pub log: Vec<(u64, u128)>,
}

pub struct Global<'m> {
    pub m: &'m Module,
    pub sh: Shared,
    pub cfg: Cfg,
    pub q: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub active: AtomicUsize,
    pub stop: AtomicBool,
    pub incomplete: Mutex<Option<String>>,
    pub tot: Totals,
    pub viols: Mutex<BTreeMap<String, Viol>>,
    pub covers: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<Sample>>,
    pub check_labels: Mutex<BTreeMap<String, u64>>,
    pub t0: Instant,
    pub live: AtomicU64,
}

pub mod bi {
    pub const NONE: u32 = 0;
    pub const MALLOC: u32 = 1;
    pub const CALLOC: u32 = 2;
    pub const REALLOC: u32 = 3;
    pub const FREE: u32 = 4;
    pub const POSIX_MEMALIGN: u32 = 5;
    pub const MEMCMP: u32 = 6;
    pub const BCMP: u32 = 7;
    pub const STRLEN: u32 = 8;
    pub const ERRNO: u32 = 9;
    pub const ABORT: u32 = 10;
    pub const PANIC_FMT: u32 = 11;
    pub const BEGIN_UNWIND: u32 = 12;
    pub const PANIC_HOOK: u32 = 13;
    pub const ND_SYM: u32 = 20;
    pub const ND_ASSUME: u32 = 21;
    pub const ND_CHECK: u32 = 22;
    pub const ND_COVER: u32 = 23;
    pub const ND_LOG: u32 = 24;
    pub const ND_MODE: u32 = 25;
    pub const ND_CONC: u32 = 26;
    pub const ND_CHOOSE: u32 = 27;
    pub const ND_FAIL: u32 = 28;
    pub const ND_DBG: u32 = 29;
    pub const ND_ITE: u32 = 18;
    pub const RET0: u32 = 30;
    pub const PTHREAD_SELF: u32 = 31;
    pub const GETENV: u32 = 32;
    pub const KEY_CREATE: u32 = 33;
    pub const GETSPEC: u32 = 34;
    pub const SETSPEC: u32 = 35;
    pub const SYSCALL: u32 = 36;
    pub const WRITE: u32 = 37;
    pub const MEMCHR: u32 = 38;
    pub const MEMRCHR: u32 = 39;
    pub const MEMCPY: u32 = 40;
    pub const MEMSET: u32 = 41;
    pub const ALLOC_ERR: u32 = 42;
    pub const STACK_PROBE: u32 = 43;
    pub const EXIT: u32 = 44;
    pub const RETM1: u32 = 45;
    pub const FLOATFN: u32 = 46;
}

pub fn builtin_id(n: &str) -> u32 {
    use bi::*;
    match n {
        "malloc" => MALLOC,
        "calloc" => CALLOC,
        "realloc" => REALLOC,
        "free" => FREE,
        "posix_memalign" => POSIX_MEMALIGN,
        "memcmp" => MEMCMP,
        "bcmp" => BCMP,
        "memchr" => MEMCHR,
        "memrchr" => MEMRCHR,
        "memcpy" | "memmove" => MEMCPY,
        "memset" => MEMSET,
        "strlen" => STRLEN,
        "__errno_location" => ERRNO,
        "abort" => ABORT,
        "exit" | "_exit" => EXIT,
        "__nd_sym" => ND_SYM,
        "__nd_assume" => ND_ASSUME,
        "__nd_check" => ND_CHECK,
        "__nd_cover" => ND_COVER,
        "__nd_log" => ND_LOG,
        "__nd_mode" => ND_MODE,
        "__nd_conc" => ND_CONC,
        "__nd_choose" => ND_CHOOSE,
        "__nd_fail" => ND_FAIL,
        "__nd_dbg" => ND_DBG,
        "__nd_ite" => ND_ITE,
        "pthread_self" => PTHREAD_SELF,
        "getenv" => GETENV,
        "pthread_key_create" => KEY_CREATE,
        "pthread_getspecific" => GETSPEC,
        "pthread_setspecific" => SETSPEC,
        "__cxa_thread_atexit_impl" | "pthread_key_delete" | "sched_yield" | "sigaction" | "sigaltstack" | "signal" | "pthread_attr_destroy"
        | "pthread_atfork" | "pthread_mutex_lock" | "pthread_mutex_unlock" => RET0,
        "gettid" => PTHREAD_SELF,
        "syscall" => SYSCALL,
        "write" => NONE,
        "rust_begin_unwind" => BEGIN_UNWIND,
        "fmod" | "pow" | "exp" | "log" | "log2" | "log10" | "floor" | "ceil" | "round" | "sqrt" | "trunc" => FLOATFN,
        _ => {
            if n.starts_with("_ZN4core9panicking9panic_fmt17h") {
                PANIC_FMT
            } else if n.starts_with("_ZN3std9panicking20rust_panic_with_hook17h") {
                PANIC_HOOK
            } else if n.starts_with("_ZN5alloc5alloc18handle_alloc_error17h") || n.contains("17capacity_overflow17h") {
                ALLOC_ERR
            } else if n.contains("10std_detect6detect5cache21detect_and_initialize") {
                RET0
            } else {
                NONE
            }
        }
    }
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => cst(w, *x as u128),
        Val::W(x) => cst(w, **x),
        Val::S(e) => e.clone(),
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn of_e(e: E) -> Val {
    if e.is_const() {
        Val::of(e.w, e.k)
    } else {
        Val::S(e)
    }
}
fn conc(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x as u128),
        Val::W(x) => Some(**x),
        _ => None,
    }
}

#[inline]
fn bin_s(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = m64(w);
        return Val::I(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            op => expr::fold(op, w, x as u128, y as u128) as u64,
        });
    }
    if let (Some(x), Some(y)) = (conc(a), conc(b)) {
        return Val::of(w, expr::fold(op, w, x, y));
    }
    of_e(bin(op, &to_e(a, w), &to_e(b, w)))
}

fn icmp_s(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        return Val::I(match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            p => icmp_c(p, w, *x as u128, *y as u128),
        } as u64);
    }
    if let (Some(x), Some(y)) = (conc(a), conc(b)) {
        return Val::I(icmp_c(p, w, x, y) as u64);
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    of_e(match p {
        Pred::Eq => bin(Op::Eq, &x, &y),
        Pred::Ne => not(&bin(Op::Eq, &x, &y)),
        Pred::Ult => bin(Op::Ult, &x, &y),
        Pred::Ule => bin(Op::Ule, &x, &y),
        Pred::Ugt => bin(Op::Ult, &y, &x),
        Pred::Uge => bin(Op::Ule, &y, &x),
        Pred::Slt => bin(Op::Slt, &x, &y),
        Pred::Sle => bin(Op::Sle, &x, &y),
        Pred::Sgt => bin(Op::Slt, &y, &x),
        Pred::Sge => bin(Op::Sle, &y, &x),
    })
}

fn lanewise2(lanes: u32, a: &Val, b: &Val, f: &mut dyn FnMut(&Val, &Val) -> Val) -> Val {
    if lanes == 0 {
        return f(a, b);
    }
    match (a, b) {
        (Val::A(x), Val::A(y)) => Val::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
        _ => panic!("vector operands"),
    }
}
fn lanewise1(lanes: u32, a: &Val, f: &mut dyn FnMut(&Val) -> Val) -> Val {
    if lanes == 0 {
        return f(a);
    }
    match a {
        Val::A(x) => Val::A(Arc::new(x.iter().map(|p| f(p)).collect())),
        _ => panic!("vector operand"),
    }
}

enum Stop {
    End(End),
}
type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Err(s.into())))
}

pub struct Worker<'g, 'm> {
    pub g: &'g Global<'m>,
    pub s: Solver<'g>,
    pub local: Vec<State>,
}

impl<'g, 'm> Worker<'g, 'm> {
    pub fn run(&mut self) {
        loop {
            let st = match self.local.pop() {
                Some(s) => s,
                None => {
                    let mut q = self.g.q.lock().unwrap();
                    self.g.idle.fetch_add(1, Ordering::SeqCst);
                    let r = loop {
                        if self.g.stop.load(Ordering::SeqCst) {
                            break None;
                        }
                        if let Some(s) = q.pop() {
                            break Some(s);
                        }
                        if self.g.active.load(Ordering::SeqCst) == 0 {
                            self.g.cv.notify_all();
                            break None;
                        }
                        q = self.g.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                    };
                    self.g.idle.fetch_sub(1, Ordering::SeqCst);
                    match r {
                        Some(s) => s,
                        None => return,
                    }
                }
            };
            let mut st = st;
            if self.g.stop.load(Ordering::Relaxed) {
                self.g.active.fetch_sub(1, Ordering::SeqCst);
                continue;
            }
            let steps0 = st.steps;
            let e = match self.exec(&mut st) {
                Stop::End(e) => e,
            };
            self.g.tot.steps.fetch_add(st.steps - steps0, Ordering::Relaxed);
            self.finish(st, e);
            self.g.active.fetch_sub(1, Ordering::SeqCst);
        }
    }

    fn give_up(&self, why: &str) {
        let mut i = self.g.incomplete.lock().unwrap();
        if i.is_none() {
            *i = Some(why.to_string());
        }
        self.g.stop.store(true, Ordering::SeqCst);
    }

    fn inputs(&self, st: &State) -> Vec<(String, u32, u128)> {
        (0..st.vars.len())
            .map(|i| (st.names[i].to_string(), st.vars[i], st.model.get(i).copied().unwrap_or(0) & mask(st.vars[i])))
            .collect()
    }
    fn logv(&self, st: &State) -> Vec<(u64, u128)> {
        st.log
            .iter()
            .map(|(t, v)| {
                (
                    *t,
                    match v {
                        Val::I(x) => *x as u128,
                        Val::W(x) => **x,
                        Val::S(e) => eval(e, &st.model),
                        _ => 0,
                    },
                )
            })
            .collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.g.m.dem(st.cur.f.id).to_string()];
        for f in st.frames.iter().rev().take(40) {
            v.push(self.g.m.dem(f.f.id).to_string());
        }
        v
    }

    fn finish(&mut self, st: State, e: End) {
        let g = self.g;
        let n = g.tot.paths.fetch_add(1, Ordering::Relaxed) + 1;
        g.tot.maxdepth.fetch_max(st.depth as u64, Ordering::Relaxed);
        match e {
            End::Done => {
                let k = g.tot.done.fetch_add(1, Ordering::Relaxed);
                {
                    let mut c = g.covers.lock().unwrap();
                    for x in &st.covers {
                        *c.entry(x.to_string()).or_insert(0) += 1;
                    }
                }
                // samples: spread over the run (power-of-two thinning)
                let mut s = g.samples.lock().unwrap();
                if s.len() < g.cfg.samples {
                    s.push(Sample { inputs: self.inputs(&st), log: self.logv(&st) });
                } else if g.cfg.samples > 0 && (k.wrapping_mul(0x9E3779B97F4A7C15) >> 40) % (k + 1) < g.cfg.samples as u64 {
                    let i = (k as usize * 7919) % g.cfg.samples;
                    s[i] = Sample { inputs: self.inputs(&st), log: self.logv(&st) };
                }
            }
            End::Assume => {
                g.tot.assumed.fetch_add(1, Ordering::Relaxed);
            }
            End::Viol(label, detail) => self.violation(&st, label, detail),
            End::Err(why) => {
                g.tot.errs.fetch_add(1, Ordering::Relaxed);
                let stack = self.stack(&st).join(" < ");
                self.give_up(&format!("{why} in {stack}"));
            }
        }
        if n >= g.cfg.max_paths {
            self.give_up("path limit reached");
        }
        if g.t0.elapsed().as_millis() as u64 > g.cfg.time_ms {
            self.give_up("time limit reached");
        }
    }

    fn violation(&mut self, st: &State, label: String, detail: String) {
        let g = self.g;
        g.tot.viol.fetch_add(1, Ordering::Relaxed);
        let v = Viol {
            label: label.clone(),
            detail,
            stack: self.stack(st),
            inputs: self.inputs(st),
            log: self.logv(st),
            steps: st.steps,
        };
        let known = g.cfg.known.iter().any(|k| label.starts_with(k.as_str()));
        g.viols.lock().unwrap().entry(label).or_insert(v);
        if !known && g.cfg.stop_on_violation {
            g.stop.store(true, Ordering::SeqCst);
        }
    }

    fn push(&mut self, st: State) {
        let g = self.g;
        g.tot.forks.fetch_add(1, Ordering::Relaxed);
        g.active.fetch_add(1, Ordering::SeqCst);
        self.local.push(st);
        if g.idle.load(Ordering::Relaxed) > 0 && self.local.len() > 1 {
            let s = self.local.remove(0);
            g.q.lock().unwrap().push(s);
            g.cv.notify_one();
        }
    }

    fn apply(model: &mut Vec<u128>, m: &[(u32, u128)]) {
        for (i, v) in m {
            let i = *i as usize;
            if model.len() <= i {
                model.resize(i + 1, 0);
            }
            model[i] = *v;
        }
    }

    /// Decide a symbolic boolean. Returns the side this state takes and, if the other side is
    /// also satisfiable, the model for it. Adds nothing to pc.
    fn decide(&mut self, st: &State, c: &E) -> R<(bool, Option<Vec<(u32, u128)>>)> {
        let nc = not(c);
        for x in st.pc.iter().rev() {
            if x.h == c.h {
                return Ok((true, None));
            }
            if x.h == nc.h {
                return Ok((false, None));
            }
        }
        let v = eval(c, &st.model) == 1;
        let q = if v { &nc } else { c };
        match self.s.check(&st.pc, q) {
            Ans::Unsat => Ok((v, None)),
            Ans::Sat(m) => Ok((v, Some(m))),
            Ans::Unknown => err("solver gave no answer"),
        }
    }

    /// Branch: if both sides are possible, clone the state for the other side. The closure `other`
    /// adjusts the clone (e.g. jumps); by default it re-executes the current instruction.
    fn branch(&mut self, st: &mut State, c: &E, other: &mut dyn FnMut(&mut State)) -> R<bool> {
        let (v, m) = self.decide(st, c)?;
        if let Some(m) = m {
            let nc = not(c);
            let (mine, theirs) = if v { (c.clone(), nc) } else { (nc, c.clone()) };
            let mut o = st.clone();
            o.depth += 1;
            o.pc.push(theirs);
            Self::apply(&mut o.model, &m);
            other(&mut o);
            self.push(o);
            st.pc.push(mine);
            st.depth += 1;
        }
        Ok(v)
    }

    /// Make a value concrete, forking over every feasible value.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => {
                let k = eval(e, &st.model);
                let c = bin(Op::Eq, e, &cst(e.w, k));
                if c.is_const() {
                    return Ok(k as u64);
                }
                self.branch(st, &c, &mut |_| {})?;
                Ok(k as u64)
            }
            Val::A(_) => err(format!("aggregate as scalar (w{w})")),
        }
    }
    fn truth(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::S(e) => {
                let e = e.clone();
                self.branch(st, &e, &mut |_| {})
            }
            _ => err("bool"),
        }
    }

    fn fault<T>(&self, f: Fault) -> R<T> {
        Err(Stop::End(End::Viol("memory-fault".into(), format!("access to {:#x}", f.0))))
    }

    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) if *w <= 64 => {
                let n = ((*w + 7) / 8) as usize;
                match st.mem.read_u64(a, n) {
                    Ok(Some(v)) => Ok(Val::I(v & m64(*w))),
                    Ok(None) => match st.mem.read(a, n) {
                        Ok(crate::mem::R::C(v)) => Ok(Val::of(*w, v)),
                        Ok(crate::mem::R::S(e)) => Ok(of_e(extract(&e, 0, *w))),
                        Err(f) => self.fault(f),
                    },
                    Err(f) => self.fault(f),
                }
            }
            Ty::Ptr | Ty::F64 => self.load(st, a, &Ty::Int(64)),
            Ty::F32 => self.load(st, a, &Ty::Int(32)),
            Ty::Int(w) => match st.mem.read(a, ((*w + 7) / 8) as usize) {
                Ok(crate::mem::R::C(v)) => Ok(Val::of(*w, v)),
                Ok(crate::mem::R::S(e)) => Ok(of_e(extract(&e, 0, *w))),
                Err(f) => self.fault(f),
            },
            Ty::Vec(n, e) if **e == Ty::Int(1) => {
                let v = self.load(st, a, &Ty::Int(*n as u32))?;
                Ok(Val::A(Arc::new((0..*n as u32).map(|i| of_e(extract(&to_e(&v, *n as u32), i, 1))).collect())))
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let n = t.nelem();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let et = t.elem(i);
                    v.push(self.load(st, a + t.field_off(i), &et)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            t => err(format!("load of {t:?}")),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        let r = match (t, v) {
            (Ty::Int(w), Val::I(x)) => st.mem.write_u64(a, ((*w + 7) / 8) as usize, *x),
            (Ty::Ptr | Ty::F64, Val::I(x)) => st.mem.write_u64(a, 8, *x),
            (Ty::F32, Val::I(x)) => st.mem.write_u64(a, 4, *x),
            (Ty::Int(w), Val::W(x)) => {
                let n = ((*w + 7) / 8) as usize;
                st.mem
                    .write_u64(a, 8.min(n), **x as u64)
                    .and_then(|_| if n > 8 { st.mem.write_u64(a + 8, n - 8, (**x >> 64) as u64) } else { Ok(()) })
            }
            (_, Val::S(e)) => {
                let n = match t {
                    Ty::Int(w) => ((*w + 7) / 8) as usize,
                    Ty::F32 => 4,
                    _ => 8,
                };
                st.mem.write_sym(a, n, e)
            }
            (Ty::Vec(n, e), Val::A(x)) if **e == Ty::Int(1) => {
                let mut acc = to_e(&x[0], 1);
                for y in &x[1..] {
                    acc = expr::concat(&to_e(y, 1), &acc);
                }
                let v = of_e(acc);
                return self.store(st, a, &Ty::Int(*n as u32), &v);
            }
            (_, Val::A(x)) => {
                for i in 0..t.nelem() {
                    self.store(st, a + t.field_off(i), &t.elem(i), &x[i])?;
                }
                Ok(())
            }
            (t, _) => return err(format!("store of {t:?}")),
        };
        match r {
            Ok(()) => Ok(()),
            Err(f) => self.fault(f),
        }
    }

    #[inline]
    fn jump(st: &mut State, e: &Edge) {
        let base = st.cur.base as usize;
        match e.phis.len() {
            0 => {}
            1 => {
                let (d, o) = &e.phis[0];
                let v = get(st, o).clone();
                st.regs[base + *d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = e.phis.iter().map(|(_, o)| get(st, o).clone()).collect();
                for ((d, _), v) in e.phis.iter().zip(vals) {
                    st.regs[base + *d as usize] = v;
                }
            }
        }
        st.cur.bb = e.to;
        st.cur.ip = 0;
    }

    fn exec(&mut self, st: &mut State) -> Stop {
        match self.exec_(st) {
            Ok(()) => Stop::End(End::Done),
            Err(s) => s,
        }
    }

    fn exec_(&mut self, st: &mut State) -> R<()> {
        let mut tick = 0u32;
        let mut blocks = 0u64;
        loop {
            tick += 1;
            if tick & 0xffff == 0 {
                if self.g.stop.load(Ordering::Relaxed) {
                    return Err(Stop::End(End::Assume));
                }
                if st.steps > self.g.cfg.max_steps {
                    let steps = st.steps;
                    return Err(Stop::End(End::Viol(
                        "does not terminate".to_string(),
                        format!("no end after {steps} instructions on one path"),
                    )));
                }
                if self.g.t0.elapsed().as_millis() as u64 > self.g.cfg.time_ms {
                    return err("time limit reached");
                }
                self.g.tot.blocks.fetch_add(blocks, Ordering::Relaxed);
                blocks = 0;
            }
            st.steps += 1;
            let f: &'static Func = st.cur.f;
            let ins: &'static I = &f.blocks[st.cur.bb as usize][st.cur.ip as usize];
            match ins {
                I::Bin { op, w, lanes, d, a, b } => {
                    let v = if *lanes == 0 {
                        bin_s(*op, *w, get(st, a), get(st, b))
                    } else {
                        lanewise2(*lanes, get(st, a), get(st, b), &mut |x, y| bin_s(*op, *w, x, y))
                    };
                    set(st, *d, v);
                }
                I::ICmp { p, w, lanes, d, a, b } => {
                    let v = if *lanes == 0 {
                        icmp_s(*p, *w, get(st, a), get(st, b))
                    } else {
                        lanewise2(*lanes, get(st, a), get(st, b), &mut |x, y| icmp_s(*p, *w, x, y))
                    };
                    set(st, *d, v);
                }
                I::Gep { d, base, off, idx } => {
                    let mut acc = match get(st, base) {
                        Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                        v => bin_s(Op::Add, 64, v, &Val::I(*off as u64)),
                    };
                    for (o, w, scale) in idx.iter() {
                        acc = match (get(st, o), &acc) {
                            (Val::I(i), Val::I(x)) => {
                                let k = if *w == 64 { *i as i64 } else { sext(*i as u128, *w) as i64 };
                                Val::I(x.wrapping_add(k.wrapping_mul(*scale) as u64))
                            }
                            (i, x) => {
                                let ie = sext_e(&to_e(i, *w), 64);
                                let m = bin(Op::Mul, &ie, &cst(64, *scale as u64 as u128));
                                of_e(bin(Op::Add, &to_e(x, 64), &m))
                            }
                        };
                    }
                    set(st, *d, acc);
                }
                I::Load { d, p, ty } => {
                    let pv = get(st, p).clone();
                    let a = self.concretize(st, &pv, 64)?;
                    let v = self.load(st, a, ty)?;
                    set(st, *d, v);
                }
                I::Store { v, p, ty } => {
                    let pv = get(st, p).clone();
                    let a = self.concretize(st, &pv, 64)?;
                    let val = get(st, v).clone();
                    self.store(st, a, ty, &val)?;
                }
                I::Br(e) => {
                    blocks += 1;
                    Self::jump(st, e);
                    continue;
                }
                I::CondBr { c, t, f } => {
                    blocks += 1;
                    let cv = get(st, c).clone();
                    let b = match &cv {
                        Val::I(x) => *x & 1 == 1,
                        Val::S(e) => {
                            let v0 = eval(e, &st.model) == 1;
                            self.branch(st, e, &mut |o| Self::jump(o, if v0 { f } else { t }))?
                        }
                        _ => return err("br cond"),
                    };
                    Self::jump(st, if b { t } else { f });
                    continue;
                }
                I::Switch { v, w, cases, def } => {
                    blocks += 1;
                    let vv = get(st, v).clone();
                    match &vv {
                        Val::S(e) => {
                            let k = eval(e, &st.model);
                            let tgt = cases.iter().position(|(c, _)| *c == k);
                            let cond = match tgt {
                                Some(i) => {
                                    // all cases with the same target block and no phi differences collapse
                                    let to = cases[i].1.to;
                                    let mut c = cst(1, 0);
                                    if cases[i].1.phis.is_empty() {
                                        for (cv, ed) in cases.iter() {
                                            if ed.to == to {
                                                c = bin(Op::Or, &c, &bin(Op::Eq, e, &cst(*w, *cv)));
                                            }
                                        }
                                    } else {
                                        c = bin(Op::Eq, e, &cst(*w, k));
                                    }
                                    c
                                }
                                None => {
                                    let mut c = cst(1, 1);
                                    for (cv, _) in cases.iter() {
                                        c = bin(Op::And, &c, &not(&bin(Op::Eq, e, &cst(*w, *cv))));
                                    }
                                    c
                                }
                            };
                            if !cond.is_const() {
                                self.branch(st, &cond, &mut |_| {})?;
                            }
                            let ed = match tgt {
                                Some(i) => &cases[i].1,
                                None => def,
                            };
                            Self::jump(st, ed);
                        }
                        v => {
                            let k = conc(v).unwrap();
                            let mut ed = def;
                            for (c, e) in cases.iter() {
                                if *c == k {
                                    ed = e;
                                    break;
                                }
                            }
                            Self::jump(st, ed);
                        }
                    }
                    continue;
                }
                I::Cast { k, fw, tw, lanes, d, a } => {
                    let av = get(st, a).clone();
                    let mut bad = None;
                    let v = lanewise1(*lanes, &av, &mut |x| match cast(*k, *fw, *tw, x) {
                        Ok(v) => v,
                        Err(e) => {
                            bad = Some(e);
                            Val::I(0)
                        }
                    });
                    if bad.is_some() {
                        // symbolic float conversion: concretise the operand
                        let x = self.concretize(st, &av, *fw)?;
                        let v = cast(*k, *fw, *tw, &Val::of(*fw, x as u128)).map_err(|e| Stop::End(End::Err(e)))?;
                        set(st, *d, v);
                    } else {
                        set(st, *d, v);
                    }
                }
                I::Sel { d, c, a, b, ty, vc } => {
                    let v = if *vc {
                        let (Val::A(cs), Val::A(x), Val::A(y)) = (get(st, c), get(st, a), get(st, b)) else { return err("vselect") };
                        let w = ty.lanes().1;
                        Val::A(Arc::new(cs.iter().zip(x.iter().zip(y.iter())).map(|(c, (x, y))| sel_scalar(c, x, y, w)).collect()))
                    } else {
                        match get(st, c) {
                            Val::I(x) => {
                                if *x & 1 == 1 {
                                    get(st, a).clone()
                                } else {
                                    get(st, b).clone()
                                }
                            }
                            Val::S(e) => sel_ty(e, get(st, a), get(st, b), ty),
                            _ => return err("select cond"),
                        }
                    };
                    set(st, *d, v);
                }
                I::Copy { d, a } => {
                    let v = get(st, a).clone();
                    set(st, *d, v);
                }
                I::Alloca { d, size, align, n } => {
                    let nv = get(st, n).clone();
                    let k = self.concretize(st, &nv, 64)?;
                    let a = (st.sp + align - 1) / align * align;
                    st.sp = a + size * k;
                    if st.sp > SBASE + 0x7f0_0000 {
                        return Err(Stop::End(End::Viol("stack-overflow".into(), "stack exceeds 127 MB".into())));
                    }
                    set(st, *d, Val::I(a));
                }
                I::ExtractV { d, a, ix } => {
                    let mut v = get(st, a);
                    for i in ix.iter() {
                        match v {
                            Val::A(x) => v = &x[*i as usize],
                            _ => return err("extractvalue"),
                        }
                    }
                    let v = v.clone();
                    set(st, *d, v);
                }
                I::InsertV { d, a, v, ix } => {
                    let val = get(st, v).clone();
                    let mut agg = get(st, a).clone();
                    insert_path(&mut agg, ix, val);
                    set(st, *d, agg);
                }
                I::ExtractE { d, a, i } => {
                    let iv = get(st, i).clone();
                    let k = self.concretize(st, &iv, 64)?;
                    let v = match get(st, a) {
                        Val::A(x) => x[k as usize].clone(),
                        _ => return err("extractelement"),
                    };
                    set(st, *d, v);
                }
                I::InsertE { d, a, v, i } => {
                    let iv = get(st, i).clone();
                    let k = self.concretize(st, &iv, 64)?;
                    let val = get(st, v).clone();
                    let mut agg = get(st, a).clone();
                    insert_path(&mut agg, &[k as u32], val);
                    set(st, *d, agg);
                }
                I::Shuffle { d, a, b, mask, n } => {
                    let (Val::A(x), Val::A(y)) = (get(st, a), get(st, b)) else { return err("shuffle") };
                    let v: Vec<Val> = mask
                        .iter()
                        .map(|k| {
                            let k = (*k).max(0) as usize;
                            if k < *n as usize {
                                x[k].clone()
                            } else {
                                y[k - *n as usize].clone()
                            }
                        })
                        .collect();
                    set(st, *d, Val::A(Arc::new(v)));
                }
                I::BitCast { from, to, d, a } => {
                    let v = bitcast(get(st, a), from, to);
                    set(st, *d, v);
                }
                I::FBin { op, w, lanes, d, a, b } => {
                    let (x, y) = (get(st, a).clone(), get(st, b).clone());
                    if *lanes == 0 && (matches!(x, Val::S(_)) || matches!(y, Val::S(_))) {
                        let x = self.concretize(st, &x, *w)?;
                        let y = self.concretize(st, &y, *w)?;
                        set(st, *d, fbin(*op, *w, &Val::I(x), &Val::I(y)));
                    } else {
                        let v = lanewise2(*lanes, &x, &y, &mut |x, y| fbin(*op, *w, x, y));
                        set(st, *d, v);
                    }
                }
                I::FCmp { p, w, lanes, d, a, b } => {
                    let (x, y) = (get(st, a).clone(), get(st, b).clone());
                    if *lanes == 0 && (matches!(x, Val::S(_)) || matches!(y, Val::S(_))) {
                        let x = self.concretize(st, &x, *w)?;
                        let y = self.concretize(st, &y, *w)?;
                        set(st, *d, fcmp(*p, *w, &Val::I(x), &Val::I(y)));
                    } else {
                        let v = lanewise2(*lanes, &x, &y, &mut |x, y| fcmp(*p, *w, x, y));
                        set(st, *d, v);
                    }
                }
                I::FNeg { w, lanes, d, a } => {
                    let av = get(st, a).clone();
                    let v = lanewise1(*lanes, &av, &mut |x| bin_s(Op::Xor, *w, x, &Val::I(1u64 << (*w - 1))));
                    set(st, *d, v);
                }
                I::CmpXchg { d, p, c, n, ty } => {
                    let pv = get(st, p).clone();
                    let a = self.concretize(st, &pv, 64)?;
                    let old = self.load(st, a, ty)?;
                    let w = ty.width();
                    let eq = icmp_s(Pred::Eq, w, &old, get(st, c));
                    let ok = self.truth(st, &eq)?;
                    if ok {
                        let nv = get(st, n).clone();
                        self.store(st, a, ty, &nv)?;
                    }
                    set(st, *d, Val::A(Arc::new(vec![old, Val::I(ok as u64)])));
                }
                I::Rmw { op, d, p, v, ty } => {
                    let pv = get(st, p).clone();
                    let a = self.concretize(st, &pv, 64)?;
                    let old = self.load(st, a, ty)?;
                    let w = ty.width();
                    let x = get(st, v).clone();
                    let nv = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => bin_s(Op::Add, w, &old, &x),
                        RmwOp::Sub => bin_s(Op::Sub, w, &old, &x),
                        RmwOp::And => bin_s(Op::And, w, &old, &x),
                        RmwOp::Or => bin_s(Op::Or, w, &old, &x),
                        RmwOp::Xor => bin_s(Op::Xor, w, &old, &x),
                        RmwOp::Nand => bin_s(Op::Xor, w, &bin_s(Op::And, w, &old, &x), &Val::of(w, mask(w))),
                        RmwOp::Max => sel_scalar(&icmp_s(Pred::Sgt, w, &old, &x), &old, &x, w),
                        RmwOp::Min => sel_scalar(&icmp_s(Pred::Slt, w, &old, &x), &old, &x, w),
                        RmwOp::UMax => sel_scalar(&icmp_s(Pred::Ugt, w, &old, &x), &old, &x, w),
                        RmwOp::UMin => sel_scalar(&icmp_s(Pred::Ult, w, &old, &x), &old, &x, w),
                    };
                    self.store(st, a, ty, &nv)?;
                    set(st, *d, old);
                }
                I::Call(c) => {
                    if self.call(st, c)? {
                        continue;
                    }
                    // builtin completed
                    if let Some(e) = &c.normal {
                        Self::jump(st, e);
                        continue;
                    }
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| get(st, o).clone());
                    st.sp = st.cur.sp;
                    st.regs.truncate(st.cur.base as usize);
                    match st.frames.pop() {
                        None => {
                            self.g.tot.blocks.fetch_add(blocks, Ordering::Relaxed);
                            return Ok(());
                        }
                        Some(fr) => {
                            st.cur = fr;
                            let I::Call(c) = &fr.f.blocks[fr.bb as usize][fr.ip as usize] else { return err("ret to non-call") };
                            if let (Some(d), Some(v)) = (c.d, v) {
                                set(st, d, v);
                            }
                            if let Some(e) = &c.normal {
                                Self::jump(st, e);
                            } else {
                                st.cur.ip += 1;
                            }
                            continue;
                        }
                    }
                }
                I::Unreachable => {
                    return Err(Stop::End(End::Viol("unreachable-code".into(), "reached an instruction the compiler assumed unreachable".into())))
                }
                I::LandingPad => return err("landing pad"),
                I::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
                I::Nop => {}
            }
            st.cur.ip += 1;
        }
    }

    /// Ok(true): a frame was pushed. Ok(false): builtin/intrinsic completed.
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<bool> {
        let id = match &c.f {
            Callee::Fn(id) => *id,
            Callee::Intr(n, tys) => {
                self.intrinsic(st, n, tys, c)?;
                return Ok(false);
            }
            Callee::Ind(o) => {
                let v = get(st, o).clone();
                let a = self.concretize(st, &v, 64)?;
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.g.m.funcs.len() as u64 {
                    return err(format!("indirect call to {a:#x}"));
                }
                ((a - FBASE) / 16) as u32
            }
            Callee::Asm(s) => {
                if s.contains("cpuid") {
                    if let Some(d) = c.d {
                        set(st, d, Val::zero(&c.rty));
                    }
                    return Ok(false);
                }
                if c.d.is_none() {
                    return Ok(false);
                }
                return err(format!("inline asm {s}"));
            }
        };
        let m = self.g.m;
        let fi = &m.funcs[id as usize];
        if fi.builtin != 0 {
            let args: Vec<Val> = c.args.iter().map(|o| get(st, o).clone()).collect();
            let v = self.builtin(st, id, fi.builtin, args, c)?;
            if let Some(d) = c.d {
                set(st, d, v.unwrap_or_else(|| Val::zero(&c.rty)));
            }
            return Ok(false);
        }
        let Some(f) = m.func(id) else {
            if fi.name == "write" || fi.name == "writev" {
                if let Some(d) = c.d {
                    let v = get(st, &c.args[2]).clone();
                    set(st, d, v);
                }
                return Ok(false);
            }
            return err(format!("call to external function {}", fi.name));
        };
        fi.hit.store(true, Ordering::Relaxed);
        if st.frames.len() > 20000 {
            return Err(Stop::End(End::Viol("stack-overflow".into(), "call depth exceeds 20000".into())));
        }
        let nb = st.regs.len();
        let fr = Frame { f, bb: 0, ip: 0, base: nb as u32, sp: st.sp };
        st.regs.reserve(f.nregs as usize);
        for i in 0..f.nparams as usize {
            let v = match c.args.get(i) {
                Some(o) => get(st, o).clone(),
                None => Val::I(0),
            };
            st.regs.push(v);
        }
        st.regs.resize(nb + f.nregs as usize, Val::I(0));
        if self.g.cfg.trace {
            eprintln!("{}{}", " ".repeat(st.frames.len().min(100)), m.dem(id));
        }
        let cur = st.cur;
        st.frames.push(cur);
        st.cur = fr;
        Ok(true)
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        match st.mem.read_conc(p, n.min(400)) {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(_) => "?".into(),
        }
    }
    fn rd(&self, st: &State, a: u64) -> u64 {
        match st.mem.read_u64(a, 8) {
            Ok(Some(v)) => v,
            _ => 0,
        }
    }
    fn panic_at(&self, st: &State, args: u64, loc: u64) -> End {
        let mut msg = String::new();
        if args != 0 {
            let (pp, pn) = (self.rd(st, args), self.rd(st, args + 8));
            if pn > 0 && pn < 64 {
                for i in 0..pn {
                    let (sp, sl) = (self.rd(st, pp + 16 * i), self.rd(st, pp + 16 * i + 8));
                    if i > 0 {
                        msg.push_str("{}");
                    }
                    msg.push_str(&self.cstr(st, sp, sl));
                }
            }
        }
        let (fp, fl) = (self.rd(st, loc), self.rd(st, loc + 8));
        let file = self.cstr(st, fp, fl);
        let line = match st.mem.read_u64(loc + 16, 4) {
            Ok(Some(l)) => l,
            _ => 0,
        };
        let file = match file.find("/src/") {
            Some(i) if !file.contains("/rustc/") => file[i + 5..].to_string(),
            _ => file,
        };
        End::Viol(format!("panic: {msg} @ {file}"), format!("line {line}"))
    }

    fn new_var(&mut self, st: &mut State, w: u32, name: String) -> E {
        let i = st.vars.len() as u32;
        st.vars.push(w);
        st.names.push(name.into());
        st.model.resize(st.vars.len().max(st.model.len()), 0);
        st.model[i as usize] = 0;
        expr::var(w, i)
    }

    fn builtin(&mut self, st: &mut State, id: u32, b: u32, a: Vec<Val>, c: &CallI) -> R<Option<Val>> {
        use bi::*;
        macro_rules! n {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v, 64)?
            }};
        }
        macro_rules! mm {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(f) => return self.fault(f),
                }
            };
        }
        Ok(match b {
            MALLOC => {
                let k = n!(0);
                Some(Val::I(st.mem.alloc(k, 16)))
            }
            CALLOC => {
                let (x, y) = (n!(0), n!(1));
                let p = st.mem.alloc(x * y, 16);
                mm!(st.mem.fill(p, 0, x * y));
                Some(Val::I(p))
            }
            REALLOC => {
                let (p, k) = (n!(0), n!(1));
                if p == 0 {
                    return Ok(Some(Val::I(st.mem.alloc(k, 16))));
                }
                let q = st.mem.alloc(k, 16);
                let old = st.mem.usable(p);
                mm!(st.mem.copy(q, p, old.min(k)));
                st.mem.dealloc(p);
                Some(Val::I(q))
            }
            FREE => {
                let p = n!(0);
                if p != 0 {
                    st.mem.dealloc(p);
                }
                None
            }
            POSIX_MEMALIGN => {
                let (pp, al, k) = (n!(0), n!(1), n!(2));
                let p = st.mem.alloc(k, al);
                mm!(st.mem.write_u64(pp, 8, p));
                Some(Val::I(0))
            }
            MEMCMP | BCMP => {
                let (x, y, k) = (n!(0), n!(1), n!(2));
                let mut acc: Option<E> = None;
                let mut diffs: Vec<(E, E)> = vec![];
                let mut early = None;
                for i in 0..k {
                    let p = mm!(st.mem.byte(x + i));
                    let q = mm!(st.mem.byte(y + i));
                    match (p, q) {
                        (B::C(p), B::C(q)) => {
                            if p != q {
                                early = Some((p as i32 - q as i32) as u32);
                                break;
                            }
                        }
                        (p, q) => {
                            let pe = match p {
                                B::C(v) => cst(8, v as u128),
                                B::S(e, i) => byte_of(&e, i),
                            };
                            let qe = match q {
                                B::C(v) => cst(8, v as u128),
                                B::S(e, i) => byte_of(&e, i),
                            };
                            diffs.push((pe, qe));
                        }
                    }
                }
                let mut r = cst(32, early.unwrap_or(0) as u128);
                for (p, q) in diffs.into_iter().rev() {
                    let eq = bin(Op::Eq, &p, &q);
                    let d = if b == BCMP {
                        cst(32, 1)
                    } else {
                        bin(Op::Sub, &zext(&p, 32), &zext(&q, 32))
                    };
                    r = ite(&eq, &r, &d);
                }
                let _ = &mut acc;
                Some(of_e(r))
            }
            MEMCHR => {
                let (p, ch, k) = (n!(0), n!(1) as u8, n!(2));
                for i in 0..k {
                    let v = self.load(st, p + i, &Ty::Int(8))?;
                    let e = icmp_s(Pred::Eq, 8, &v, &Val::I(ch as u64));
                    if self.truth(st, &e)? {
                        return Ok(Some(Val::I(p + i)));
                    }
                }
                Some(Val::I(0))
            }
            MEMRCHR => {
                let (p, ch, k) = (n!(0), n!(1) as u8, n!(2));
                for i in (0..k).rev() {
                    let v = self.load(st, p + i, &Ty::Int(8))?;
                    let e = icmp_s(Pred::Eq, 8, &v, &Val::I(ch as u64));
                    if self.truth(st, &e)? {
                        return Ok(Some(Val::I(p + i)));
                    }
                }
                Some(Val::I(0))
            }
            MEMCPY => {
                let (d, s, k) = (n!(0), n!(1), n!(2));
                mm!(st.mem.copy(d, s, k));
                Some(Val::I(d))
            }
            MEMSET => {
                let (d, v, k) = (n!(0), n!(1), n!(2));
                mm!(st.mem.fill(d, v as u8, k));
                Some(Val::I(d))
            }
            STRLEN => {
                let p = n!(0);
                let mut i = 0;
                loop {
                    let v = self.load(st, p + i, &Ty::Int(8))?;
                    let e = icmp_s(Pred::Eq, 8, &v, &Val::I(0));
                    if self.truth(st, &e)? {
                        break;
                    }
                    i += 1;
                }
                Some(Val::I(i))
            }
            ERRNO => Some(Val::I(GBASE + 0x100)),
            ABORT => return Err(Stop::End(End::Viol("abort".into(), "abort() called".into()))),
            EXIT => return Err(Stop::End(End::Viol("exit".into(), "exit() called".into()))),
            ALLOC_ERR => return Err(Stop::End(End::Viol("alloc-error".into(), "allocation failure".into()))),
            PANIC_FMT => {
                let (x, l) = (n!(0), n!(1));
                return Err(Stop::End(self.panic_at(st, x, l)));
            }
            BEGIN_UNWIND => {
                // PanicInfo: find the Location: try each pointer-sized field
                let p = n!(0);
                let mut e = End::Viol("panic: ?".into(), "rust_begin_unwind".into());
                for off in [0u64, 8, 16, 24, 32] {
                    let loc = self.rd(st, p + off);
                    let (fp, fl) = (self.rd(st, loc), self.rd(st, loc + 8));
                    if fl > 3 && fl < 300 {
                        let s = self.cstr(st, fp, fl);
                        if s.ends_with(".rs") {
                            e = self.panic_at(st, 0, loc);
                            break;
                        }
                    }
                }
                return Err(Stop::End(e));
            }
            PANIC_HOOK => {
                let mut e = End::Viol("panic: ?".into(), "rust_panic_with_hook".into());
                let (pl, _) = (n!(0), 0);
                for v in &a {
                    if let Val::I(loc) = v {
                        let (fp, fl) = (self.rd(st, *loc), self.rd(st, *loc + 8));
                        if fl > 3 && fl < 300 {
                            let s = self.cstr(st, fp, fl);
                            if s.ends_with(".rs") {
                                e = self.panic_at(st, 0, *loc);
                                if let End::Viol(l, _) = &mut e {
                                    let (mp, ml) = (self.rd(st, pl), self.rd(st, pl + 8));
                                    if ml > 0 && ml < 300 {
                                        let t = self.cstr(st, mp, ml);
                                        if t != "?" {
                                            *l = l.replacen("panic: ", &format!("panic: {t}"), 1);
                                        }
                                    }
                                }
                                break;
                            }
                        }
                    }
                }
                return Err(Stop::End(e));
            }
            ND_SYM => {
                let (bits, p, l) = (n!(0), n!(1), n!(2));
                let name = self.cstr(st, p, l);
                let e = self.new_var(st, bits as u32, name);
                Some(of_e(zext(&e, 64)))
            }
            ND_CHOOSE => {
                let (k, p, l) = (n!(0), n!(1), n!(2));
                let name = self.cstr(st, p, l);
                let w = 8;
                if k <= 1 {
                    return Ok(Some(Val::I(0)));
                }
                let e = self.new_var(st, w, name);
                if k < 256 {
                    st.pc.push(bin(Op::Ult, &e, &cst(w, k as u128)));
                }
                Some(of_e(zext(&e, 32)))
            }
            ND_ASSUME => {
                let e = bool_of(&a[0]);
                if e.is_const() {
                    if e.k == 0 {
                        return Err(Stop::End(End::Assume));
                    }
                    return Ok(None);
                }
                if eval(&e, &st.model) == 0 {
                    match self.s.check(&st.pc, &e) {
                        Ans::Unsat => return Err(Stop::End(End::Assume)),
                        Ans::Sat(m) => Self::apply(&mut st.model, &m),
                        Ans::Unknown => return err("solver gave no answer"),
                    }
                }
                st.pc.push(e);
                None
            }
            ND_CHECK => {
                let (p, l) = (n!(1), n!(2));
                let label = self.cstr(st, p, l);
                if skipped(&self.g.cfg.only, &label) {
                    return Ok(None);
                }
                self.g.tot.checks.fetch_add(1, Ordering::Relaxed);
                *self.g.check_labels.lock().unwrap().entry(label.clone()).or_insert(0) += 1;
                let e = bool_of(&a[0]);
                if e.is_const() {
                    if e.k == 0 {
                        return Err(Stop::End(End::Viol(label, "assertion".into())));
                    }
                    return Ok(None);
                }
                self.g.tot.checks_solver.fetch_add(1, Ordering::Relaxed);
                let (v, other) = self.decide(st, &e)?;
                match (v, other) {
                    (true, None) => {}
                    (false, None) => return Err(Stop::End(End::Viol(label, "assertion".into()))),
                    (true, Some(m)) => {
                        let mut o = st.clone();
                        o.pc.push(not(&e));
                        Self::apply(&mut o.model, &m);
                        self.violation(&o, label, "assertion".into());
                        st.pc.push(e);
                    }
                    (false, Some(m)) => {
                        self.violation(st, label, "assertion".into());
                        st.pc.push(e);
                        Self::apply(&mut st.model, &m);
                    }
                }
                None
            }
            ND_FAIL => {
                let (p, l) = (n!(0), n!(1));
                let label = self.cstr(st, p, l);
                if skipped(&self.g.cfg.only, &label) {
                    return Ok(None);
                }
                *self.g.check_labels.lock().unwrap().entry(label.clone()).or_insert(0) += 1;
                return Err(Stop::End(End::Viol(label, "assertion".into())));
            }
            ND_COVER => {
                let (p, l) = (n!(0), n!(1));
                let label: Arc<str> = self.cstr(st, p, l).into();
                st.covers.insert(label);
                None
            }
            ND_LOG => {
                let t = n!(0);
                st.log.push((t, a[1].clone()));
                None
            }
            ND_DBG => {
                if std::env::var("SYMX_DBG").is_ok() {
                    let (p, l) = (n!(0), n!(1));
                    let s = self.cstr(st, p, l);
                    let v = match &a[2] {
                        Val::I(x) => format!("{x}"),
                        Val::S(e) => format!("{} (model {})", expr::show(e, 6), eval(e, &st.model)),
                        _ => "?".into(),
                    };
                    eprintln!("[dbg] {s} = {v}");
                }
                None
            }
            ND_MODE => Some(Val::I(1)),
            ND_CONC => Some(Val::I(n!(0))),
            ND_ITE => {
                let e = bool_of(&a[0]);
                Some(of_e(ite(&e, &to_e(&a[1], 64), &to_e(&a[2], 64))))
            }
            RET0 => Some(Val::zero(&c.rty)),
            RETM1 => Some(Val::of(c.rty.width(), u128::MAX)),
            PTHREAD_SELF => Some(Val::I(1)),
            GETENV => Some(Val::I(0)),
            KEY_CREATE => {
                let p = n!(0);
                let k = st.tls.len() as u64 + 1;
                st.tls.insert(k, 0);
                mm!(st.mem.write_u64(p, 4, k));
                Some(Val::I(0))
            }
            GETSPEC => {
                let k = n!(0);
                Some(Val::I(*st.tls.get(&k).unwrap_or(&0)))
            }
            SETSPEC => {
                let (k, v) = (n!(0), n!(1));
                st.tls.insert(k, v);
                Some(Val::I(0))
            }
            SYSCALL => {
                let k = n!(0);
                match k {
                    202 => {
                        // futex: wake is a no-op, wait means a single-threaded deadlock
                        let op = n!(2) & 0x7f;
                        if op == 1 || op == 10 {
                            Some(Val::I(0))
                        } else {
                            return Err(Stop::End(End::Viol("deadlock".into(), "blocking on a lock with no other thread".into())));
                        }
                    }
                    186 => Some(Val::I(1)),
                    _ => return err(format!("syscall {k}")),
                }
            }
            FLOATFN => {
                let name = self.g.m.funcs[id as usize].name;
                let x = f64::from_bits(n!(0));
                let y = if a.len() > 1 { f64::from_bits(n!(1)) } else { 0.0 };
                let r = match name {
                    "fmod" => x % y,
                    "pow" => x.powf(y),
                    "exp" => x.exp(),
                    "log" => x.ln(),
                    "log2" => x.log2(),
                    "log10" => x.log10(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "round" => x.round(),
                    "sqrt" => x.sqrt(),
                    _ => x.trunc(),
                };
                Some(Val::I(r.to_bits()))
            }
            _ => return err(format!("builtin {b}")),
        })
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, tys: &[Ty], c: &'static CallI) -> R<()> {
        let a: Vec<Val> = c.args.iter().map(|o| get(st, o).clone()).collect();
        macro_rules! num {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v, 64)?
            }};
        }
        let body = &n[5..];
        let key = {
            // strip type suffixes
            let mut k = body;
            while let Some(i) = k.rfind('.') {
                let s = &k[i + 1..];
                let b = s.as_bytes();
                if !b.is_empty()
                    && ((b[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1)
                        || (b[0] == b'p' && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1)
                        || (b[0] == b'v' && s[1..].bytes().next().map(|c| c.is_ascii_digit()).unwrap_or(false))
                        || (b[0] == b'f' && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1))
                {
                    k = &k[..i];
                } else {
                    break;
                }
            }
            k
        };
        let r: Option<Val> = match key {
            "memcpy" | "memmove" | "memcpy.inline" => {
                let (d, s, k) = (num!(0), num!(1), num!(2));
                if let Err(f) = st.mem.copy(d, s, k) {
                    return self.fault(f);
                }
                None
            }
            "memset" => {
                let (d, k) = (num!(0), num!(2));
                match &a[1] {
                    Val::I(v) => {
                        if let Err(f) = st.mem.fill(d, *v as u8, k) {
                            return self.fault(f);
                        }
                    }
                    Val::S(e) => {
                        for i in 0..k {
                            if let Err(f) = st.mem.set_byte(d + i, B::S(e.clone(), 0)) {
                                return self.fault(f);
                            }
                        }
                    }
                    _ => return err("memset"),
                }
                None
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow"
            | "smul.with.overflow" => {
                let w = tys[0].width();
                Some(ovf(key, w, &a[0], &a[1]))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let (l, w) = tys[0].lanes();
                let p = match key {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(lanewise2(l, &a[0], &a[1], &mut |x, y| sel_scalar(&icmp_s(p, w, x, y), x, y, w)))
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let (l, w) = tys[0].lanes();
                Some(lanewise2(l, &a[0], &a[1], &mut |x, y| {
                    let o = ovf(&key.replace(".sat", ".with.overflow"), w, x, y);
                    let Val::A(o) = o else { unreachable!() };
                    let sat = match key {
                        "uadd.sat" => Val::of(w, mask(w)),
                        "usub.sat" => Val::of(w, 0),
                        _ => {
                            // sign of x decides
                            let neg = icmp_s(Pred::Slt, w, x, &Val::of(w, 0));
                            sel_scalar(&neg, &Val::of(w, 1u128 << (w - 1)), &Val::of(w, mask(w - 1)), w)
                        }
                    };
                    sel_scalar(&o[1], &sat, &o[0], w)
                }))
            }
            "fshl" | "fshr" => {
                let (l, w) = tys[0].lanes();
                if l != 0 {
                    let (Val::A(x), Val::A(y), Val::A(z)) = (&a[0], &a[1], &a[2]) else { return err("fsh") };
                    let v: Vec<Val> = (0..l as usize).map(|i| fsh(key == "fshl", w, &x[i], &y[i], &z[i])).collect();
                    Some(Val::A(Arc::new(v)))
                } else {
                    Some(fsh(key == "fshl", w, &a[0], &a[1], &a[2]))
                }
            }
            "cttz" | "ctlz" | "ctpop" | "bswap" | "bitreverse" | "abs" => {
                let (l, w) = tys[0].lanes();
                Some(lanewise1(l, &a[0], &mut |x| bits1(key, w, x)))
            }
            "expect" | "expect.with.probability" | "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy"
            | "annotation" => Some(a[0].clone()),
            "ptrmask" => Some(bin_s(Op::And, 64, &a[0], &a[1])),
            "is.constant" => Some(Val::I(0)),
            "objectsize" => Some(Val::I(u64::MAX)),
            "trap" | "debugtrap" => return Err(Stop::End(End::Viol("abort".into(), "llvm.trap".into()))),
            "stacksave" => Some(Val::I(st.sp)),
            "stackrestore" => {
                st.sp = num!(0);
                None
            }
            "x86.sse2.pause" | "sideeffect" | "va_start" | "va_end" => None,
            "load.relative" => {
                let (p, o) = (num!(0), num!(1));
                let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
                let Val::I(v) = v else { return err("load.relative") };
                Some(Val::I(p.wrapping_add(v as u32 as i32 as i64 as u64)))
            }
            "vector.reduce.add" | "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.xor" | "vector.reduce.mul" | "vector.reduce.umax"
            | "vector.reduce.umin" | "vector.reduce.smax" | "vector.reduce.smin" => {
                let (_, w) = tys[0].lanes();
                let Val::A(x) = &a[0] else { return err("reduce") };
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    acc = match &key[14..] {
                        "add" => bin_s(Op::Add, w, &acc, y),
                        "or" => bin_s(Op::Or, w, &acc, y),
                        "and" => bin_s(Op::And, w, &acc, y),
                        "xor" => bin_s(Op::Xor, w, &acc, y),
                        "mul" => bin_s(Op::Mul, w, &acc, y),
                        k => {
                            let p = match k {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "smax" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            sel_scalar(&icmp_s(p, w, &acc, y), &acc, y, w)
                        }
                    };
                }
                Some(acc)
            }
            "x86.sse2.pmovmskb.128" => {
                let Val::A(x) = &a[0] else { return err("pmovmskb") };
                let mut acc: Option<E> = None;
                for y in x.iter() {
                    let b = extract(&to_e(y, 8), 7, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => expr::concat(&b, &l),
                    });
                }
                Some(of_e(zext(&acc.unwrap(), 32)))
            }
            "floor" | "ceil" | "sqrt" | "fabs" | "round" | "trunc" | "rint" | "nearbyint" | "log" | "exp" | "log2" | "log10" | "roundeven" | "sin" | "cos"
            | "exp2" => {
                let w = tys[0].width();
                let x = num!(0);
                let f = |x: f64| match key {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "sqrt" => x.sqrt(),
                    "fabs" => x.abs(),
                    "round" => x.round(),
                    "trunc" => x.trunc(),
                    "log" => x.ln(),
                    "exp" => x.exp(),
                    "exp2" => x.exp2(),
                    "log2" => x.log2(),
                    "log10" => x.log10(),
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    _ => {
                        let r = x.round();
                        if (r - x).abs() == 0.5 {
                            2.0 * (x / 2.0).round()
                        } else {
                            r
                        }
                    }
                };
                if w == 64 {
                    Some(Val::I(f(f64::from_bits(x)).to_bits()))
                } else {
                    Some(Val::I((f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64))
                }
            }
            "pow" | "powi" | "copysign" | "minnum" | "maxnum" | "fma" | "fmuladd" => {
                let w = tys[0].width();
                let x = num!(0);
                let y = num!(1);
                let (fx, fy) = if w == 64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let r = match key {
                    "pow" => fx.powf(fy),
                    "powi" => fx.powi(y as u32 as i32),
                    "copysign" => fx.copysign(fy),
                    "minnum" => fx.min(fy),
                    "maxnum" => fx.max(fy),
                    _ => {
                        let z = num!(2);
                        let fz = if w == 64 { f64::from_bits(z) } else { f32::from_bits(z as u32) as f64 };
                        fx.mul_add(fy, fz)
                    }
                };
                Some(if w == 64 { Val::I(r.to_bits()) } else { Val::I((r as f32).to_bits() as u64) })
            }
            "fptoui.sat" | "fptosi.sat" => {
                let x = num!(0);
                let fw = tys[0].width();
                let tw = c.rty.width();
                let f = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                Some(Val::of(
                    tw,
                    if key == "fptoui.sat" {
                        (f as u128).min(mask(tw))
                    } else {
                        let lo = -(1i128 << (tw - 1));
                        let hi = (1i128 << (tw - 1)) - 1;
                        (f as i128).clamp(lo, hi) as u128
                    },
                ))
            }
            _ => return err(format!("intrinsic {n}")),
        };
        if let (Some(d), Some(v)) = (c.d, r) {
            set(st, d, v);
        }
        Ok(())
    }
}

fn bool_of(v: &Val) -> E {
    match v {
        Val::I(x) => cst(1, (*x & 1) as u128),
        Val::S(e) => {
            if e.w == 1 {
                e.clone()
            } else {
                extract(e, 0, 1)
            }
        }
        _ => panic!("bool"),
    }
}

fn fsh(left: bool, w: u32, a: &Val, b: &Val, c: &Val) -> Val {
    if let (Some(x), Some(y), Some(s)) = (conc(a), conc(b), conc(c)) {
        let s = (s % w as u128) as u32;
        if w <= 64 {
            let cat = (x << w) | y;
            let r = if left { (cat << s) >> w } else { cat >> s };
            return Val::of(w, r);
        }
        let r = if s == 0 {
            if left {
                x
            } else {
                y
            }
        } else if left {
            (x << s) | (y >> (w - s))
        } else {
            (x << (w - s)) | (y >> s)
        };
        return Val::of(w, r);
    }
    let we = cst(w, w as u128);
    let s = bin(Op::URem, &to_e(c, w), &we);
    let (x, y) = (to_e(a, w), to_e(b, w));
    let inv = bin(Op::Sub, &we, &s);
    let z = bin(Op::Eq, &s, &cst(w, 0));
    let r = if left {
        ite(&z, &x, &bin(Op::Or, &bin(Op::Shl, &x, &s), &bin(Op::LShr, &y, &inv)))
    } else {
        ite(&z, &y, &bin(Op::Or, &bin(Op::Shl, &x, &inv), &bin(Op::LShr, &y, &s)))
    };
    of_e(r)
}

fn bits1(key: &str, w: u32, x: &Val) -> Val {
    if let Some(v) = conc(x) {
        let r = match key {
            "cttz" => {
                if v == 0 {
                    w as u128
                } else {
                    v.trailing_zeros() as u128
                }
            }
            "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
            "ctpop" => v.count_ones() as u128,
            "bswap" => v.swap_bytes() >> (128 - w),
            "bitreverse" => v.reverse_bits() >> (128 - w),
            _ => sext(v, w).wrapping_abs() as u128,
        };
        return Val::of(w, r);
    }
    let e = to_e(x, w);
    of_e(match key {
        "cttz" => {
            let mut r = cst(w, w as u128);
            for i in (0..w).rev() {
                r = ite(&extract(&e, i, 1), &cst(w, i as u128), &r);
            }
            r
        }
        "ctlz" => {
            let mut r = cst(w, w as u128);
            for i in 0..w {
                r = ite(&extract(&e, i, 1), &cst(w, (w - 1 - i) as u128), &r);
            }
            r
        }
        "ctpop" => {
            let mut r = cst(w, 0);
            for i in 0..w {
                r = bin(Op::Add, &r, &zext(&extract(&e, i, 1), w));
            }
            r
        }
        "bswap" => {
            let mut r = extract(&e, 0, 8);
            for i in 1..w / 8 {
                r = expr::concat(&r, &extract(&e, 8 * i, 8));
            }
            r
        }
        "bitreverse" => {
            let mut r = extract(&e, 0, 1);
            for i in 1..w {
                r = expr::concat(&r, &extract(&e, i, 1));
            }
            r
        }
        _ => {
            let neg = bin(Op::Slt, &e, &cst(w, 0));
            ite(&neg, &bin(Op::Sub, &cst(w, 0), &e), &e)
        }
    })
}

fn ovf(key: &str, w: u32, a: &Val, b: &Val) -> Val {
    let op = match &key[1..4] {
        "add" => Op::Add,
        "sub" => Op::Sub,
        _ => Op::Mul,
    };
    let signed = key.starts_with('s');
    if let (Some(x), Some(y)) = (conc(a), conc(b)) {
        let r = expr::fold(op, w, x, y);
        let o = if signed {
            let (x, y) = (sext(x, w), sext(y, w));
            let full = match op {
                Op::Add => x.checked_add(y),
                Op::Sub => x.checked_sub(y),
                _ => x.checked_mul(y),
            };
            match full {
                None => true,
                Some(f) => f != sext(r, w),
            }
        } else {
            match op {
                Op::Add => x.checked_add(y).map(|s| s > mask(w)).unwrap_or(true),
                Op::Sub => y > x,
                _ => x.checked_mul(y).map(|s| s > mask(w)).unwrap_or(true),
            }
        };
        return Val::A(Arc::new(vec![Val::of(w, r), Val::I(o as u64)]));
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    let r = bin(op, &x, &y);
    let o = if signed {
        match op {
            Op::Mul => {
                let w2 = (2 * w).min(128);
                let p = bin(Op::Mul, &sext_e(&x, w2), &sext_e(&y, w2));
                not(&bin(Op::Eq, &p, &sext_e(&r, w2)))
            }
            _ => {
                let w2 = w + 1;
                let p = bin(op, &sext_e(&x, w2), &sext_e(&y, w2));
                not(&bin(Op::Eq, &p, &sext_e(&r, w2)))
            }
        }
    } else {
        match op {
            Op::Add => bin(Op::Ult, &r, &x),
            Op::Sub => bin(Op::Ult, &x, &y),
            _ => {
                let w2 = (2 * w).min(128);
                let p = bin(Op::Mul, &zext(&x, w2), &zext(&y, w2));
                not(&bin(Op::Eq, &extract(&p, w, w2 - w), &cst(w2 - w, 0)))
            }
        }
    };
    Val::A(Arc::new(vec![of_e(r), of_e(o)]))
}

fn sel_scalar(c: &Val, a: &Val, b: &Val, w: u32) -> Val {
    match c {
        Val::I(x) => {
            if *x & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        Val::S(e) => of_e(ite(e, &to_e(a, w), &to_e(b, w))),
        _ => panic!("select"),
    }
}
fn sel_ty(e: &E, a: &Val, b: &Val, t: &Ty) -> Val {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            let (Val::A(x), Val::A(y)) = (a, b) else { panic!("select agg") };
            Val::A(Arc::new((0..t.nelem()).map(|i| sel_ty(e, &x[i], &y[i], &t.elem(i))).collect()))
        }
        t => of_e(ite(e, &to_e(a, t.width()), &to_e(b, t.width()))),
    }
}

fn insert_path(agg: &mut Val, ix: &[u32], v: Val) {
    if ix.is_empty() {
        *agg = v;
        return;
    }
    if let Val::A(x) = agg {
        let x = Arc::make_mut(x);
        insert_path(&mut x[ix[0] as usize], &ix[1..], v);
    } else {
        panic!("insertvalue");
    }
}

fn fl(w: u32, v: &Val) -> f64 {
    let Val::I(x) = v else { panic!("float operand") };
    if w == 64 {
        f64::from_bits(*x)
    } else {
        f32::from_bits(*x as u32) as f64
    }
}
fn fbin(op: FOp, w: u32, a: &Val, b: &Val) -> Val {
    if w == 64 {
        let (x, y) = (fl(w, a), fl(w, b));
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        };
        Val::I(r.to_bits())
    } else {
        let (x, y) = (fl(w, a) as f32, fl(w, b) as f32);
        let r = match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        };
        Val::I(r.to_bits() as u64)
    }
}
fn fcmp(p: FPred, w: u32, a: &Val, b: &Val) -> Val {
    let (x, y) = (fl(w, a), fl(w, b));
    let u = x.is_nan() || y.is_nan();
    let r = match p {
        FPred::False => false,
        FPred::True => true,
        FPred::Ord => !u,
        FPred::Uno => u,
        FPred::Oeq => x == y,
        FPred::Ogt => x > y,
        FPred::Oge => x >= y,
        FPred::Olt => x < y,
        FPred::Ole => x <= y,
        FPred::One => !u && x != y,
        FPred::Ueq => u || x == y,
        FPred::Ugt => u || x > y,
        FPred::Uge => u || x >= y,
        FPred::Ult => u || x < y,
        FPred::Ule => u || x <= y,
        FPred::Une => u || x != y,
    };
    Val::I(r as u64)
}

fn cast(k: CastK, fw: u32, tw: u32, a: &Val) -> Result<Val, String> {
    Ok(match (k, a) {
        (CastK::Nop, v) => v.clone(),
        (CastK::Trunc, Val::I(x)) => Val::I(x & m64(tw)),
        (CastK::Trunc, Val::W(x)) => Val::of(tw, **x),
        (CastK::Trunc, Val::S(e)) => of_e(extract(e, 0, tw)),
        (CastK::ZExt, Val::I(x)) => Val::of(tw, *x as u128),
        (CastK::ZExt, Val::W(x)) => Val::of(tw, **x),
        (CastK::ZExt, Val::S(e)) => of_e(zext(e, tw)),
        (CastK::SExt, Val::I(x)) => Val::of(tw, sext(*x as u128, fw) as u128),
        (CastK::SExt, Val::W(x)) => Val::of(tw, sext(**x, fw) as u128),
        (CastK::SExt, Val::S(e)) => of_e(sext_e(e, tw)),
        (_, Val::S(_)) => return Err("symbolic float".into()),
        (CastK::UiToFp, v) => {
            let x = conc(v).unwrap();
            if tw == 64 {
                Val::I((x as f64).to_bits())
            } else {
                Val::I((x as f32).to_bits() as u64)
            }
        }
        (CastK::SiToFp, v) => {
            let x = sext(conc(v).unwrap(), fw);
            if tw == 64 {
                Val::I((x as f64).to_bits())
            } else {
                Val::I((x as f32).to_bits() as u64)
            }
        }
        (CastK::FpToUi, v) => Val::of(tw, fl(fw, v) as u128),
        (CastK::FpToSi, v) => Val::of(tw, fl(fw, v) as i128 as u128),
        (CastK::FpTrunc, v) => Val::I((fl(fw, v) as f32).to_bits() as u64),
        (CastK::FpExt, v) => Val::I(fl(fw, v).to_bits()),
        _ => return Err("cast".into()),
    })
}

fn flat_bits(v: &Val, t: &Ty) -> E {
    match t {
        Ty::Vec(n, e) => {
            let Val::A(x) = v else { panic!("vec") };
            let mut acc = to_e(&x[0], e.width());
            for i in 1..*n as usize {
                acc = expr::concat(&to_e(&x[i], e.width()), &acc);
            }
            acc
        }
        t => to_e(v, t.width()),
    }
}
fn bitcast(v: &Val, from: &Ty, to: &Ty) -> Val {
    if from.is_scalar() && to.is_scalar() {
        return v.clone();
    }
    // fast concrete path
    fn tot(t: &Ty) -> u32 {
        match t {
            Ty::Vec(n, e) => *n as u32 * e.width(),
            t => t.width(),
        }
    }
    if tot(from) <= 128 {
        let all = match v {
            Val::A(x) => x.iter().all(|y| !matches!(y, Val::S(_))),
            Val::S(_) => false,
            _ => true,
        };
        if all {
            let mut acc = 0u128;
            match (v, from) {
                (Val::A(x), Ty::Vec(_, e)) => {
                    let w = e.width();
                    for (i, y) in x.iter().enumerate() {
                        acc |= conc(y).unwrap() << (w * i as u32);
                    }
                }
                (v, _) => acc = conc(v).unwrap(),
            }
            return match to {
                Ty::Vec(n, e) => {
                    let w = e.width();
                    Val::A(Arc::new((0..*n as u32).map(|i| Val::of(w, acc >> (w * i))).collect()))
                }
                t => Val::of(t.width(), acc),
            };
        }
        let e = flat_bits(v, from);
        return match to {
            Ty::Vec(n, et) => {
                let w = et.width();
                Val::A(Arc::new((0..*n as u32).map(|i| of_e(extract(&e, w * i, w))).collect()))
            }
            _ => of_e(e),
        };
    }
    // wide vectors: go through bytes, lane by lane (concrete or symbolic)
    let (Val::A(x), Ty::Vec(_, fe), Ty::Vec(n, te)) = (v, from, to) else { panic!("wide bitcast") };
    let (fw, tw) = (fe.width(), te.width());
    let mut out = vec![];
    for i in 0..*n as u32 {
        let lo = i * tw;
        if fw >= tw {
            out.push(of_e(extract(&to_e(&x[(lo / fw) as usize], fw), lo % fw, tw)));
        } else {
            let mut acc: Option<E> = None;
            for j in 0..tw / fw {
                let y = to_e(&x[((lo + j * fw) / fw) as usize], fw);
                acc = Some(match acc {
                    None => y,
                    Some(l) => expr::concat(&y, &l),
                });
            }
            out.push(of_e(acc.unwrap()));
        }
    }
    Val::A(Arc::new(out))
}

#[inline]
fn get<'a>(st: &'a State, o: &'a Opd) -> &'a Val {
    match o {
        Opd::R(r) => &st.regs[st.cur.base as usize + *r as usize],
        Opd::C(v) => v,
    }
}
#[inline]
fn set(st: &mut State, d: u32, v: Val) {
    let i = st.cur.base as usize + d as usize;
    st.regs[i] = v;
}
