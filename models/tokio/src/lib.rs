//! Stand-in for tokio's runtime in the symbolic rigs. Synchronisation primitives and IO traits are
//! the real ones (re-exported); executor, timers, signals, processes and pipes are small models in
//! which every scheduling decision is a nondeterministic choice (bounded by budgets set by the rig).
pub use rtokio::{io, pin};
pub use rtokio::{join, try_join};
pub mod rt;
pub mod sched;
pub mod pipe;
pub mod process;
pub mod signal;
pub mod sync;
pub mod task;
pub mod time;
pub mod net {
    pub use rtokio::net::UnixStream;
    pub struct UnixListener;
    impl UnixListener {
        pub fn bind<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<UnixListener> {
            std::fs::write(p, b"")?;
            Ok(UnixListener)
        }
    }
}
pub mod runtime {
    pub struct Runtime;
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
            crate::rt::block_on(f)
        }
    }
    pub struct Builder;
    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder
        }
        pub fn new_multi_thread() -> Builder {
            Builder
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
    }
}
pub use task::spawn;
pub use tokio_macros::{main_rt as main, test_rt as test};
#[doc(hidden)]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use std::future::poll_fn;
        pub use std::future::Future;
        pub use std::pin::Pin;
        pub use std::task::Poll;
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::sched::select_start(n)
        }
    }
}
include!("select.rs");
