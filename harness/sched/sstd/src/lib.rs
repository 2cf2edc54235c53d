//! `std` with the synchronisation primitives replaced by ones whose thread schedule the check chooses.
pub use std::*;

pub mod sync {
    pub use shuttle::sync::{
        Barrier, Condvar, LockResult, Mutex, MutexGuard, Once, PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard,
        TryLockError, TryLockResult,
    };
    pub use std::sync::*;
    pub mod atomic {
        pub use shuttle::sync::atomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32,
            AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
    pub use once_lock::OnceLock;
    mod once_lock {
        use shuttle::sync::atomic::{AtomicBool, Ordering};
        use shuttle::sync::Mutex;
        use std::cell::UnsafeCell;

        /// `std::sync::OnceLock` over a scheduled flag.
        pub struct OnceLock<T> {
            full: AtomicBool,
            write: Mutex<()>,
            value: UnsafeCell<Option<T>>,
        }
        // SAFETY: as the one of std; the value is written once, under the mutex, before the flag is set.
        unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
        impl<T> std::panic::UnwindSafe for OnceLock<T> {}
        impl<T> std::panic::RefUnwindSafe for OnceLock<T> {}
        impl<T> OnceLock<T> {
            pub fn new() -> Self {
                OnceLock { full: AtomicBool::new(false), write: Mutex::new(()), value: UnsafeCell::new(None) }
            }
            pub fn get(&self) -> Option<&T> {
                if self.full.load(Ordering::SeqCst) {
                    // SAFETY: never written again
                    unsafe { (*self.value.get()).as_ref() }
                } else {
                    None
                }
            }
            pub fn set(&self, v: T) -> Result<(), T> {
                let _g = self.write.lock().unwrap();
                if self.full.load(Ordering::SeqCst) {
                    return Err(v);
                }
                // SAFETY: nobody reads before the flag is set
                unsafe { *self.value.get() = Some(v) };
                self.full.store(true, Ordering::SeqCst);
                Ok(())
            }
            pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
                if self.get().is_none() {
                    let _ = self.set(f());
                }
                self.get().unwrap()
            }
            pub fn get_mut(&mut self) -> Option<&mut T> {
                self.value.get_mut().as_mut()
            }
            pub fn take(&mut self) -> Option<T> {
                let v = self.value.get_mut().take();
                self.full = AtomicBool::new(false);
                v
            }
            pub fn into_inner(self) -> Option<T> {
                self.value.into_inner()
            }
        }
        impl<T> Default for OnceLock<T> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<T: std::fmt::Debug> std::fmt::Debug for OnceLock<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_tuple("OnceLock").field(&self.get()).finish()
            }
        }
    }
}
pub mod thread {
    pub use shuttle::thread::*;
}
pub mod hint {
    pub use shuttle::hint::spin_loop;
    pub use std::hint::*;
}
