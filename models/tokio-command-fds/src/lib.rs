use tokio::process::Command;
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct FdMapping {
    pub parent_fd: i32,
    pub child_fd: i32,
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct FdMappingCollision;
impl std::fmt::Display for FdMappingCollision {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Two or more mappings for the same child FD")
    }
}
impl std::error::Error for FdMappingCollision {}
pub trait CommandFdExt {
    fn fd_mappings(&mut self, mappings: Vec<FdMapping>) -> Result<&mut Self, FdMappingCollision>;
}
impl CommandFdExt for Command {
    fn fd_mappings(&mut self, m: Vec<FdMapping>) -> Result<&mut Self, FdMappingCollision> {
        let mut c: Vec<i32> = m.iter().map(|x| x.child_fd).collect();
        c.sort_unstable();
        c.dedup();
        if c.len() != m.len() {
            return Err(FdMappingCollision);
        }
        self.fds = m.iter().map(|x| (x.parent_fd, x.child_fd)).collect();
        Ok(self)
    }
}
