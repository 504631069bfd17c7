//! Global allocator: poisons fresh and released memory, always moves on realloc, optionally records.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::*};

pub struct Watch;

#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: u8, // 0 alloc 1 dealloc 2 realloc
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub ptr2: usize,
    pub size2: usize,
    /// made while the code under test was running
    pub api: bool,
}

pub static REC: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
const MAX: usize = 1 << 20;
static mut LOG: [Ev; MAX] = [Ev { kind: 0, ptr: 0, size: 0, align: 0, ptr2: 0, size2: 0, api: false }; MAX];

fn rec(mut e: Ev) {
    if REC.load(Relaxed) {
        e.api = API.load(Relaxed);
        let n = N.fetch_add(1, Relaxed);
        if n < MAX {
            unsafe { *(&raw mut LOG as *mut Ev).add(n) = e };
        }
    }
}

/// Whether the code under test is running (single threaded use only)
pub static API: AtomicBool = AtomicBool::new(false);

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        API.store(self.0, Relaxed);
    }
}

/// Blocks obtained while `f` runs belong to the code under test
pub fn api<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(API.swap(true, Relaxed));
    f()
}

/// Blocks obtained while `f` runs belong to the driver (callbacks, destructors of component values)
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(API.swap(false, Relaxed));
    f()
}

/// From here on every allocator call is recorded, and nothing is really released, until `take_log`
pub fn record() {
    N.store(0, SeqCst);
    REC.store(true, SeqCst);
}

/// Stops recording and returns what was recorded, and whether it all fitted. Kept back blocks are released now.
pub fn take_log() -> Option<Vec<Ev>> {
    REC.store(false, SeqCst);
    let n = N.swap(0, SeqCst);
    if n > MAX {
        return None;
    }
    Some((0..n).map(|i| unsafe { *(&raw const LOG as *const Ev).add(i) }).collect())
}

// Every block has a strip on both sides that nobody may write to. Just before the block: offset from the start, size, mark.
const HEAD: usize = 64;
const TAIL: usize = 192;
const MARK: usize = 0xB10C_0F_5AFE_57A7;

unsafe fn obtain(l: Layout) -> *mut u8 {
    let off = HEAD.max(l.align());
    let Ok(big) = Layout::from_size_align(off + l.size() + TAIL, l.align().max(16)) else { return std::ptr::null_mut() };
    let b = System.alloc(big);
    if b.is_null() {
        return b;
    }
    std::ptr::write_bytes(b, 0xC3, off);
    let p = b.add(off);
    std::ptr::write_bytes(p, 0xA5, l.size());
    std::ptr::write_bytes(p.add(l.size()), 0xC3, TAIL);
    let h = p.sub(32) as *mut usize;
    h.write_unaligned(off);
    h.add(1).write_unaligned(l.size());
    h.add(2).write_unaligned(l.align());
    h.add(3).write_unaligned(MARK);
    p
}

fn broken(what: &str) -> ! {
    let say = |s: &str| unsafe { libc_write(2, s.as_ptr(), s.len()) };
    say("memory check: ");
    say(what);
    say("\n");
    std::process::abort()
}
extern "C" {
    #[link_name = "write"]
    fn libc_write(fd: i32, p: *const u8, n: usize) -> isize;
}

/// Gives the block back, after a look at what is around it. What the caller says about its size is not used.
unsafe fn release(p: *mut u8) {
    let h = p.sub(32) as *mut usize;
    match h.add(3).read_unaligned() {
        MARK => (),
        m if m == !MARK => broken("a block was released twice"),
        _ => broken("a released pointer is no block, or something was written before its start"),
    }
    let (off, size, align) = (h.read_unaligned(), h.add(1).read_unaligned(), h.add(2).read_unaligned());
    let b = p.sub(off);
    if (0..off - 32).any(|i| *b.add(i) != 0xC3) {
        broken("something was written before the start of a block");
    }
    if (0..TAIL).any(|i| *p.add(size + i) != 0xC3) {
        broken("something was written past the end of a block");
    }
    std::ptr::write_bytes(p, 0xDD, size);
    h.add(3).write_unaligned(!MARK);
    System.dealloc(b, Layout::from_size_align_unchecked(off + size + TAIL, align.max(16)))
}

/// Releases a block that was kept back while calls were recorded
pub fn give_back(p: usize) {
    unsafe { release(p as *mut u8) }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = obtain(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as isize, Relaxed);
            rec(Ev { kind: 0, ptr: p as usize, size: l.size(), align: l.align(), ptr2: 0, size2: 0, api: false });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rec(Ev { kind: 1, ptr: p as usize, size: l.size(), align: l.align(), ptr2: 0, size2: 0, api: false });
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        if REC.load(Relaxed) {
            // the call may be wrong: it is only written down, so that it does no harm
            return;
        }
        release(p)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = obtain(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            rec(Ev { kind: 2, ptr: p as usize, size: l.size(), align: l.align(), ptr2: q as usize, size2: new, api: false });
            LIVE.fetch_add(new as isize - l.size() as isize, Relaxed);
            if !REC.load(Relaxed) {
                release(p);
            }
        }
        q
    }
}
