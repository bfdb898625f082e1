//! Counts the heap requests of the code under test.  The symbolic number type
//! keeps its expression graph on the heap as well; its operations run inside
//! `quiet`, so that only requests made by the library itself are counted.
#[cfg(feature = "c30")]
mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static REQUESTS: Cell<u64> = const { Cell::new(0) };
    }
    struct Counting;
    fn note() {
        let _ = ON.try_with(|on| {
            if on.get() {
                let _ = REQUESTS.try_with(|r| r.set(r.get() + 1));
            }
        });
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note();
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note();
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note();
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;

    /// restores the switch on every way out, panics included
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            let _ = ON.try_with(|on| on.set(self.0));
        }
    }
    fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
        let _r = Restore(ON.with(|o| o.replace(on)));
        f()
    }
    pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
        with(false, f)
    }
    /// the result of `f` and the number of heap requests it made
    pub fn watch<R>(f: impl FnOnce() -> R) -> (R, u64) {
        REQUESTS.with(|r| r.set(0));
        let v = with(true, f);
        (v, REQUESTS.with(|r| r.get()))
    }
}
#[cfg(feature = "c30")]
pub use counting::*;
#[cfg(not(feature = "c30"))]
#[inline(always)]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    f()
}
