pub use rtokio::sync::{broadcast, mpsc, oneshot, Barrier, Mutex, Notify, OnceCell, RwLock, Semaphore};
/// tokio::sync::watch with a preemption point around every operation
pub mod watch {
    use crate::sched::{nopoint, point};
    use rtokio::sync::watch as w;
    pub use w::error;
    /// a held borrow is a held lock: nothing else runs meanwhile
    #[derive(Debug)]
    pub struct Ref<'a, T> {
        r: std::mem::ManuallyDrop<w::Ref<'a, T>>,
    }
    fn wrap<T>(r: w::Ref<'_, T>) -> Ref<'_, T> {
        std::mem::forget(nopoint());
        Ref { r: std::mem::ManuallyDrop::new(r) }
    }
    impl<T> Drop for Ref<'_, T> {
        fn drop(&mut self) {
            unsafe { std::mem::ManuallyDrop::drop(&mut self.r) };
            drop(crate::sched::NoPoint);
            point();
        }
    }
    impl<T> std::ops::Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.r
        }
    }
    impl<T> Ref<'_, T> {
        pub fn has_changed(&self) -> bool {
            self.r.has_changed()
        }
    }
    #[derive(Debug)]
    pub struct Sender<T>(w::Sender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(w::Receiver<T>);
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            Receiver(self.0.clone())
        }
    }
    pub fn channel<T>(t: T) -> (Sender<T>, Receiver<T>) {
        let (s, r) = w::channel(t);
        (Sender(s), Receiver(r))
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
            point();
            let r = {
                let _g = nopoint();
                self.0.send(t)
            };
            point();
            r
        }
        pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) {
            point();
            {
                let _g = nopoint();
                self.0.send_modify(f)
            }
            point();
        }
        pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool {
            point();
            let r = {
                let _g = nopoint();
                self.0.send_if_modified(f)
            };
            point();
            r
        }
        pub fn send_replace(&self, t: T) -> T {
            point();
            let _g = nopoint();
            self.0.send_replace(t)
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            point();
            wrap(self.0.borrow())
        }
        pub fn subscribe(&self) -> Receiver<T> {
            Receiver(self.0.subscribe())
        }
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
        pub fn receiver_count(&self) -> usize {
            self.0.receiver_count()
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            point();
            wrap(self.0.borrow())
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            point();
            wrap(self.0.borrow_and_update())
        }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> {
            point();
            self.0.has_changed()
        }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
            point();
            let r = self.0.changed().await;
            point();
            r
        }
        pub async fn wait_for(&mut self, f: impl FnMut(&T) -> bool) -> Result<Ref<'_, T>, error::RecvError> {
            point();
            self.0.wait_for(f).await.map(wrap)
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
    }
}
