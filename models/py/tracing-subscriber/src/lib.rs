//! Stand-in for the parts src/logging.rs uses: events are not recorded, configuration is kept.
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
pub struct Registry;
pub struct EnvFilter;
impl EnvFilter {
    pub const DEFAULT_ENV: &'static str = "RUST_LOG";
    pub fn new<S: AsRef<str>>(_: S) -> EnvFilter {
        EnvFilter
    }
    pub fn try_from_env<S: AsRef<str>>(_: S) -> Result<EnvFilter, String> {
        Err("not set".into())
    }
    pub fn try_from_default_env() -> Result<EnvFilter, String> {
        Err("not set".into())
    }
    pub fn from_default_env() -> EnvFilter {
        EnvFilter
    }
}
pub mod filter {
    use std::marker::PhantomData;
    pub struct Filtered<L, F, S> {
        pub(crate) l: L,
        pub(crate) _f: F,
        pub(crate) s: PhantomData<fn() -> S>,
    }
    impl<L, F, S> Filtered<L, F, S> {
        pub fn inner(&self) -> &L {
            &self.l
        }
        pub fn inner_mut(&mut self) -> &mut L {
            &mut self.l
        }
    }
}
pub mod fmt {
    use super::*;
    pub mod format {
        pub struct DefaultFields;
        pub struct Format;
    }
    pub mod writer {
        pub trait MakeWriter<'a> {
            type Writer: std::io::Write;
            fn make_writer(&'a self) -> Self::Writer;
        }
        impl<'a, M: MakeWriter<'a>> MakeWriter<'a> for std::sync::Arc<M> {
            type Writer = M::Writer;
            fn make_writer(&'a self) -> M::Writer {
                (**self).make_writer()
            }
        }
    }
    pub use writer::MakeWriter;
    pub struct Layer<S, N = format::DefaultFields, E = format::Format, W = fn() -> std::io::Stdout> {
        pub(crate) w: W,
        pub(crate) p: PhantomData<fn() -> (S, N, E)>,
    }
    pub fn layer<S>() -> Layer<S> {
        Layer { w: std::io::stdout, p: PhantomData }
    }
    impl<S, N, E, W> Layer<S, N, E, W> {
        pub fn with_writer<W2>(self, w: W2) -> Layer<S, N, E, W2> {
            Layer { w, p: PhantomData }
        }
        pub fn writer(&self) -> &W {
            &self.w
        }
        pub fn with_filter<F>(self, f: F) -> filter::Filtered<Self, F, S> {
            filter::Filtered { l: self, _f: f, s: PhantomData }
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
    }
}
pub mod reload {
    use super::*;
    pub struct Layer<L, S>(Arc<Mutex<L>>, PhantomData<fn() -> S>);
    pub struct Handle<L, S>(Arc<Mutex<L>>, PhantomData<fn() -> S>);
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("reload")
        }
    }
    impl std::error::Error for Error {}
    impl<L, S> Layer<L, S> {
        pub fn new(l: L) -> (Layer<L, S>, Handle<L, S>) {
            let a = Arc::new(Mutex::new(l));
            (Layer(a.clone(), PhantomData), Handle(a, PhantomData))
        }
    }
    impl<L, S> Handle<L, S> {
        pub fn with_current<T>(&self, f: impl FnOnce(&L) -> T) -> Result<T, Error> {
            Ok(f(&self.0.lock().unwrap()))
        }
        pub fn modify(&self, f: impl FnOnce(&mut L)) -> Result<(), Error> {
            f(&mut self.0.lock().unwrap());
            Ok(())
        }
    }
}
pub fn registry() -> Registry {
    Registry
}
pub mod prelude {
    pub trait Stack: Sized {
        fn with<L>(self, _: L) -> Self {
            self
        }
        fn init(self) {}
        fn try_init(self) -> Result<(), String> {
            Ok(())
        }
    }
    impl Stack for super::Registry {}
}
