pub use tokio::pipe::{PipeRead, PipeWrite};
pub fn pipe() -> std::io::Result<(PipeRead, PipeWrite)> {
    Ok(tokio::pipe::nonblocking_pipe())
}
