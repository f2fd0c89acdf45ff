pub use hyper::Server;
pub use raxum::*;
