//! File watching: the rig says when a watched file was modified.
use nd::env::Cell0;
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("notify error")
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(_: std::io::Error) -> Error {
        Error
    }
}
pub type Result<T> = std::result::Result<T, Error>;
pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ModifyKind {
        Any,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EventKind {
        Any,
        Access(()),
        Create(()),
        Modify(ModifyKind),
        Remove(()),
        Other,
    }
}
pub use event::EventKind;
#[derive(Debug, Clone)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
type H = Box<dyn FnMut(Result<Event>)>;
struct W {
    h: Option<H>,
    path: Option<PathBuf>,
}
static WATCHERS: Cell0<Vec<W>> = Cell0::new(Vec::new());
pub struct RecommendedWatcher(usize);
pub type INotifyWatcher = RecommendedWatcher;
pub trait EventHandler: 'static {
    fn handle_event(&mut self, e: Result<Event>);
}
impl<F: FnMut(Result<Event>) + 'static> EventHandler for F {
    fn handle_event(&mut self, e: Result<Event>) {
        self(e)
    }
}
pub fn recommended_watcher<F: EventHandler>(mut f: F) -> Result<RecommendedWatcher> {
    WATCHERS.get().push(W { h: Some(Box::new(move |e| f.handle_event(e))), path: None });
    Ok(RecommendedWatcher(WATCHERS.get().len() - 1))
}
pub trait Watcher {
    fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, p: &Path) -> Result<()>;
}
impl Watcher for RecommendedWatcher {
    fn watch(&mut self, p: &Path, _: RecursiveMode) -> Result<()> {
        WATCHERS.get()[self.0].path = Some(p.into());
        Ok(())
    }
    fn unwatch(&mut self, _: &Path) -> Result<()> {
        WATCHERS.get()[self.0].path = None;
        Ok(())
    }
}
impl Drop for RecommendedWatcher {
    fn drop(&mut self) {
        WATCHERS.get()[self.0].h = None;
    }
}
/// something happened to the file
pub fn emit(p: &str, kind: EventKind) {
    for w in WATCHERS.get().iter_mut() {
        if w.path.as_deref() == Some(Path::new(p)) {
            if let Some(h) = &mut w.h {
                h(Ok(Event { kind, paths: vec![p.into()] }))
            }
        }
    }
}
