pub mod wrappers {
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub struct UnixListenerStream(tokio::net::UnixListener);
    impl UnixListenerStream {
        pub fn new(l: tokio::net::UnixListener) -> Self {
            UnixListenerStream(l)
        }
    }
    impl futures::Stream for UnixListenerStream {
        type Item = std::io::Result<tokio::net::UnixStream>;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Poll::Pending
        }
    }
}
