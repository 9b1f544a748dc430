//! Stands in for `std` when the crate is built for exhaustive thread exploration: everything is the real `std`, except
//! that the synchronisation primitives are scheduled by shuttle and statics are fresh in every execution.
#![no_std]
extern crate std as real;
pub use real::*;
pub use shuttle::thread_local;

/// number of the current execution
pub static EXECUTION: real::sync::atomic::AtomicUsize = real::sync::atomic::AtomicUsize::new(0);

pub mod thread {
    pub use real::thread::*;
    pub use shuttle::thread::*;
}

pub mod sync {
    pub use real::sync::*;
    pub use shuttle::sync::{
        Barrier, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard, mpsc,
    };
    pub mod atomic {
        pub use real::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicPtr, AtomicU8, AtomicU16, AtomicU32,
            AtomicU64, AtomicUsize, fence,
        };
    }

    use core::cell::UnsafeCell;

    /// set once per execution
    pub struct OnceLock<T>(UnsafeCell<(usize, bool, Option<T>)>);
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    unsafe impl<T: Send> Send for OnceLock<T> {}

    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(UnsafeCell::new((0, false, None)))
        }
        #[allow(clippy::mut_from_ref)]
        fn cell(&self) -> &mut (usize, bool, Option<T>) {
            let c = unsafe { &mut *self.0.get() };
            let e = crate::EXECUTION.load(real::sync::atomic::Ordering::SeqCst);
            if c.0 != e {
                *c = (e, false, None);
            }
            c
        }
        pub fn get(&self) -> Option<&T> {
            self.cell().2.as_ref()
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            while self.cell().1 && self.cell().2.is_none() {
                shuttle::thread::yield_now();
            }
            if self.cell().2.is_none() {
                self.cell().1 = true;
                let v = f();
                self.cell().2 = Some(v);
            }
            unsafe { (*self.0.get()).2.as_ref().unwrap() }
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            if self.cell().1 {
                return Err(v);
            }
            self.cell().1 = true;
            self.cell().2 = Some(v);
            Ok(())
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }

    pub struct LazyLock<T, F = fn() -> T>(OnceLock<T>, F);
    impl<T, F: Fn() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock(OnceLock::new(), f)
        }
        pub fn force(this: &Self) -> &T {
            this.0.get_or_init(&this.1)
        }
    }
    impl<T, F: Fn() -> T> core::ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
}
