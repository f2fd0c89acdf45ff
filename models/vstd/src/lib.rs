//! std with preemption points at atomics and locks.
pub use std::*;
pub mod process {
    pub use std::process::*;
    pub use tokio::process::Stdio;
}
pub mod thread {
    pub use std::thread::*;
    pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
        Ok(std::num::NonZeroUsize::new(3).unwrap())
    }
    pub fn sleep(d: std::time::Duration) {
        tokio::rt::sleep_thread(nd::env::now_ns() + d.as_nanos() as u64)
    }
}
pub mod env {
    pub use std::env::*;
    use std::ffi::{OsStr, OsString};
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        let k = k.as_ref().to_str()?;
        nd::env::vars().iter().find(|v| v.0 == k).map(|v| v.1.clone().into())
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        var_os(k).ok_or(VarError::NotPresent)?.into_string().map_err(VarError::NotUnicode)
    }
    pub fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(k: K, v: V) {
        remove_var(&k);
        nd::env::vars().push((k.as_ref().to_str().unwrap().into(), v.as_ref().to_str().unwrap().into()));
    }
    pub fn remove_var<K: AsRef<OsStr>>(k: K) {
        let k = k.as_ref().to_str().unwrap().to_string();
        nd::env::vars().retain(|v| v.0 != k);
    }
}
pub mod sync {
    pub use std::sync::*;
    use tokio::sched::{nopoint, point, NoPoint};
    pub mod atomic {
        pub use std::sync::atomic::*;
        use tokio::sched::{after, point};
        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[derive(Debug, Default)]
                #[repr(transparent)]
                pub struct $n(std::sync::atomic::$n);
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        after(self.0.load(o))
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point();
                        self.0.store(v, o);
                        point();
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point();
                        after(self.0.swap(v, o))
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        point();
                        after(self.0.compare_exchange(a, b, o, p))
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        point();
                        after(self.0.compare_exchange(a, b, o, p))
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut cur = self.load(p);
                        while let Some(n) = f(cur) {
                            match self.compare_exchange_weak(cur, n, o, p) {
                                Ok(x) => return Ok(x),
                                Err(x) => cur = x,
                            }
                        }
                        Err(cur)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
            };
        }
        macro_rules! ops {
            ($n:ident, $t:ty, $($f:ident)*) => { impl $n { $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                point();
                let r = self.0.$f(v, o);
                point();
                r
            })* } };
        }
        common!(AtomicBool, bool);
        ops!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
        macro_rules! int {($($n:ident $t:ty,)*) => {$(
            common!($n, $t);
            ops!($n, $t, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        )*}}
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64,);
    }
    macro_rules! guard {
        ($n:ident) => {
            pub struct $n<'a, T: ?Sized> {
                g: mem::ManuallyDrop<std::sync::$n<'a, T>>,
                _n: mem::ManuallyDrop<NoPoint>,
            }
            impl<'a, T: ?Sized> Drop for $n<'a, T> {
                fn drop(&mut self) {
                    unsafe {
                        mem::ManuallyDrop::drop(&mut self.g);
                        mem::ManuallyDrop::drop(&mut self._n);
                    }
                    point();
                }
            }
            impl<'a, T: ?Sized> ops::Deref for $n<'a, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
        };
    }
    use std::{mem, ops};
    guard!(MutexGuard);
    guard!(RwLockReadGuard);
    guard!(RwLockWriteGuard);
    impl<'a, T: ?Sized> ops::DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<'a, T: ?Sized> ops::DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    fn wrap<G, H>(r: Result<G, PoisonError<G>>, f: impl Fn(G) -> H) -> LockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point();
            wrap(self.0.lock(), |g| MutexGuard { g: mem::ManuallyDrop::new(g), _n: mem::ManuallyDrop::new(nopoint()) })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point();
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard { g: mem::ManuallyDrop::new(g), _n: mem::ManuallyDrop::new(nopoint()) }),
                Err(_) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(std::sync::RwLock::new(t))
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point();
            wrap(self.0.read(), |g| RwLockReadGuard { g: mem::ManuallyDrop::new(g), _n: mem::ManuallyDrop::new(nopoint()) })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point();
            wrap(self.0.write(), |g| RwLockWriteGuard { g: mem::ManuallyDrop::new(g), _n: mem::ManuallyDrop::new(nopoint()) })
        }
    }
}
