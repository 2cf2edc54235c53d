//! A checking global allocator: red zones, layout checks, poisoning and per-thread accounting.
//! Nothing panics in here; faults are recorded and picked up after the case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const MAGIC: u64 = 0x5afe_b10c_a110_c8ed;
const FREED: u64 = 0xdead_beef_dead_beef;
const TAIL: usize = 32;
const TAIL_BYTE: u8 = 0xC7;
const HEAD_BYTE: u8 = 0xB9;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    ZeroSize,
    Overflow,
    Underflow,
    WrongLayout,
    BadFree,
}

thread_local! {
    static FAULT: Cell<Option<Fault>> = const { Cell::new(None) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Counters {
    pub allocs: u64,
    pub live: i64,
    pub live_bytes: i64,
}

/// Counters of the current thread (zero unless the binary installs `Guard`).
pub fn counters() -> Counters {
    Counters { allocs: ALLOCS.get(), live: LIVE.get(), live_bytes: LIVE_BYTES.get() }
}

fn fault(f: Fault) {
    let _ = FAULT.try_with(|c| {
        if c.get().is_none() {
            c.set(Some(f))
        }
    });
}

pub fn take_fault() -> Option<String> {
    FAULT.with(|c| c.take()).map(|f| match f {
        Fault::ZeroSize => "zero-size allocation request (undefined behaviour)".to_string(),
        Fault::Overflow => "write past the end of a heap allocation".into(),
        Fault::Underflow => "write before the start of a heap allocation".into(),
        Fault::WrongLayout => "allocation freed or resized with a different layout".into(),
        Fault::BadFree => "free of memory that is not a live allocation".into(),
    })
}

pub struct Guard;

#[repr(C)]
#[derive(Clone, Copy)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    guard: [u8; 8],
}
const HEAD: usize = std::mem::size_of::<Head>();

fn lead(align: usize) -> usize {
    // header sits directly before the user pointer
    let a = align.max(16);
    HEAD.div_ceil(a) * a
}
fn outer(l: Layout) -> Option<Layout> {
    let a = l.align().max(16);
    Layout::from_size_align(lead(l.align()).checked_add(l.size())?.checked_add(TAIL)?, a).ok()
}

unsafe fn check(ptr: *mut u8, layout: Layout) -> bool {
    let h = (ptr.sub(HEAD) as *const Head).read_unaligned();
    if h.magic != MAGIC {
        fault(if h.magic == FREED { Fault::BadFree } else { Fault::Underflow });
        return false;
    }
    if h.guard != [HEAD_BYTE; 8] {
        fault(Fault::Underflow);
    }
    if h.size != layout.size() || h.align != layout.align() {
        fault(Fault::WrongLayout);
        return false;
    }
    for i in 0..TAIL {
        if ptr.add(h.size + i).read() != TAIL_BYTE {
            fault(Fault::Overflow);
            break;
        }
    }
    true
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() == 0 {
            fault(Fault::ZeroSize);
        }
        let Some(o) = outer(layout) else { return std::ptr::null_mut() };
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let p = base.add(lead(layout.align()));
        (p.sub(HEAD) as *mut Head).write_unaligned(Head {
            magic: MAGIC,
            size: layout.size(),
            align: layout.align(),
            guard: [HEAD_BYTE; 8],
        });
        if layout.size() <= 1 << 16 {
            p.write_bytes(0xA5, layout.size());
        }
        p.add(layout.size()).write_bytes(TAIL_BYTE, TAIL);
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + layout.size() as i64));
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !check(ptr, layout) {
            return; // leak: safer than handing a bad block to the system
        }
        (ptr.sub(HEAD) as *mut u64).write_unaligned(FREED);
        if layout.size() <= 1 << 16 {
            ptr.write_bytes(0xDD, layout.size());
        }
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - layout.size() as i64));
        System.dealloc(ptr.sub(lead(layout.align())), outer(layout).unwrap());
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let Ok(nl) = Layout::from_size_align(new_size, layout.align()) else {
            return std::ptr::null_mut();
        };
        if layout.size() == 0 {
            fault(Fault::ZeroSize);
        }
        let ok = check(ptr, layout);
        let n = self.alloc(nl);
        if !n.is_null() && ok {
            std::ptr::copy_nonoverlapping(ptr, n, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        n
    }
}
