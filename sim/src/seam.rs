//! The seams: everything through which the code under test could meet nondeterminism or a
//! fault, owned by the simulator.
//!
//!  * control-flow edges of the instrumented crate -> `tick` (simulated steps, preemption points)
//!  * the allocator                                -> arena at a fixed address, layout from the
//!                                                    seed, failures injected by ordinal
//!  * libc entry points std uses (clock, randomness, environment, files, streams, sleeping,
//!    futexes, threads)                            -> simulated or recorded, only inside a parse
//!
//! A thread is "inside a parse" while `CUR` is non-null; everywhere else every seam passes
//! straight through, so the harness itself uses the real system.

use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::ptr::null_mut;

/// What the current operation of a simulated thread is doing.
#[repr(C)]
pub struct TCtl {
    pub left: i64,       // steps until the next scheduling decision / limit
    pub granted: i64,    // what `left` was last set to
    pub op_steps: u64,   // steps of the current operation, up to the last `settle`
    pub tid: usize,
    pub op_limit: u64,
    pub stall_at: u64,   // op step at which to suspend (0 = never)
    pub quantum: i64,    // steps left in the current slice
    pub slice_run: u64,  // steps executed in the current slice
    pub slice_run_since: u64, // steps not yet added to the run's totals
    pub op_index: usize,
    pub bytes: u64,      // bytes allocated by the current operation
    pub sys_next: bool,  // the next allocation is the unwinder's own
    pub oom: [u32; 4],   // allocation ordinals (1-based) that fail
    pub oom_fired: u32,
    pub allocs: u32,
    pub retain_peak: bool,
    pub live: i64,
    pub peak: i64,
    pub stack_base: usize,
    pub stack_low: usize,
    pub sched: bool, // scheduling active (false: run alone)
    pub watch: bool, // inside a scheduled parse: accesses to shared memory are scheduling points
    pub n_shared: usize,
    pub shared_at: [u32; 24], // op steps of the first 16 and the last 8 shared accesses
    pub panic_len: usize,
    pub panic_msg: [u8; 240],
}

impl TCtl {
    pub const fn new(tid: usize) -> TCtl {
        TCtl {
            left: i64::MAX,
            granted: i64::MAX,
            op_steps: 0,
            tid,
            op_limit: u64::MAX,
            stall_at: 0,
            quantum: i64::MAX,
            slice_run: 0,
            slice_run_since: 0,
            op_index: 0,
            bytes: 0,
            sys_next: false,
            oom: [0; 4],
            oom_fired: 0,
            allocs: 0,
            retain_peak: false,
            live: 0,
            peak: 0,
            stack_base: 0,
            stack_low: usize::MAX,
            sched: false,
            watch: false,
            n_shared: 0,
            shared_at: [0; 24],
            panic_len: 0,
            panic_msg: [0; 240],
        }
    }
    /// moves the steps executed since the last settle into the counters
    #[inline]
    pub fn settle(&mut self) {
        let ran = self.granted - self.left;
        if ran > 0 {
            self.op_steps += ran as u64;
            self.slice_run += ran as u64;
            self.slice_run_since += ran as u64;
            if self.quantum != i64::MAX {
                self.quantum -= ran;
            }
        }
        self.granted = self.left;
    }
    /// sets `left` from quantum, stall point and limit
    pub fn arm(&mut self) {
        let mut n = self.quantum;
        if self.stall_at > 0 {
            n = n.min((self.stall_at.saturating_sub(self.op_steps)).max(1) as i64);
        }
        if self.op_limit != u64::MAX {
            n = n.min((self.op_limit.saturating_sub(self.op_steps)).max(1) as i64);
        }
        self.left = n;
        self.granted = n;
    }
}

#[thread_local]
pub static CUR: Cell<*mut TCtl> = Cell::new(null_mut());

/// Bitmap of control-flow edges reached, shared with forked children.
pub static mut COV: *mut u8 = null_mut();
pub const COV_LEN: usize = 1 << 17;
pub static mut N_GUARDS: u32 = 0;

/// Site-based preemption: edges whose hash falls in the class are preemption points.
pub static mut SITE_MOD: u64 = 0;
pub static mut SITE_SALT: u64 = 0;
/// Preempt at every allocation instead of by step count.
pub static mut ALLOC_YIELD: bool = false;
/// Preempt at this percentage of the accesses to memory other threads can reach.
pub static mut SHARED_PCT: u64 = 0;
pub static mut SHARED_SALT: u64 = 0;
pub static mut SHARED_HITS: u64 = 0;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// One byte per 16 bytes of the arena: 1 + the thread that allocated it, 0 for the harness.
const OWNER_AT: usize = 0x3000_0000_0000;
static mut OWNER: *mut u8 = null_mut();

/// A load or a store of the code under test (fast profile).  Only accesses to the writable
/// statics and to heap blocks another thread allocated count.
#[inline(always)]
fn access(addr: usize) {
    let t = CUR.get();
    if t.is_null() || unsafe { !(*t).watch } {
        return;
    }
    unsafe {
        let shared = if addr.wrapping_sub(ARENA_AT) < ARENA_LEN {
            let o = *OWNER.add((addr - ARENA_AT) >> 4);
            o != 0 && o as usize != (*t).tid + 1
        } else {
            addr >= std::ptr::addr_of!(__data_start) as usize && addr < std::ptr::addr_of!(_end) as usize
        };
        if shared {
            shared_access(&mut *t)
        }
    }
}
#[inline(never)]
fn shared_access(t: &mut TCtl) {
    unsafe {
        SHARED_HITS += 1;
        t.left -= 1;
        let k = if t.n_shared < 16 { t.n_shared } else { 16 + t.n_shared % 8 };
        t.shared_at[k] = (t.op_steps + (t.granted - t.left).max(0) as u64) as u32;
        t.n_shared += 1;
        if t.left <= 0 {
            slow(t, 0);
        } else if SHARED_PCT != 0 && crate::rng::mix(SHARED_SALT, SHARED_HITS) % 100 < SHARED_PCT {
            slow(t, 4);
        }
    }
}
macro_rules! accesses {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(addr: usize) {
            access(addr)
        }
    )*};
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Atomic operations of the code under test (fast profile; the tsan pass makes each a call).
/// All are done with the strongest ordering: the simulator runs one thread at a time anyway.
macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $cas:ident, $($f:ident $m:ident)*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _o: i32) -> $t {
            access(p as usize);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _o: i32) {
            access(p as usize);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _o: i32, _f: i32) -> $t {
            access(p as usize);
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) { Ok(v) | Err(v) => v }
        }
        $(#[no_mangle]
        pub unsafe extern "C" fn $f(p: *const $a, v: $t, _o: i32) -> $t {
            access(p as usize);
            (*p).$m(v, SeqCst)
        })*
    };
}
atomics! { u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_compare_exchange_val,
__tsan_atomic8_exchange swap __tsan_atomic8_fetch_add fetch_add __tsan_atomic8_fetch_sub fetch_sub __tsan_atomic8_fetch_and fetch_and
__tsan_atomic8_fetch_or fetch_or __tsan_atomic8_fetch_xor fetch_xor __tsan_atomic8_fetch_nand fetch_nand }
atomics! { u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_compare_exchange_val,
__tsan_atomic16_exchange swap __tsan_atomic16_fetch_add fetch_add __tsan_atomic16_fetch_sub fetch_sub __tsan_atomic16_fetch_and fetch_and
__tsan_atomic16_fetch_or fetch_or __tsan_atomic16_fetch_xor fetch_xor __tsan_atomic16_fetch_nand fetch_nand }
atomics! { u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_compare_exchange_val,
__tsan_atomic32_exchange swap __tsan_atomic32_fetch_add fetch_add __tsan_atomic32_fetch_sub fetch_sub __tsan_atomic32_fetch_and fetch_and
__tsan_atomic32_fetch_or fetch_or __tsan_atomic32_fetch_xor fetch_xor __tsan_atomic32_fetch_nand fetch_nand }
atomics! { u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_compare_exchange_val,
__tsan_atomic64_exchange swap __tsan_atomic64_fetch_add fetch_add __tsan_atomic64_fetch_sub fetch_sub __tsan_atomic64_fetch_and fetch_and
__tsan_atomic64_fetch_or fetch_or __tsan_atomic64_fetch_xor fetch_xor __tsan_atomic64_fetch_nand fetch_nand }
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            N_GUARDS += 1;
            *p = N_GUARDS;
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = CUR.get();
    if t.is_null() {
        return;
    }
    unsafe {
        let id = *g;
        if !COV.is_null() {
            *COV.add(id as usize & (COV_LEN - 1)) = 1;
        }
        let here = &t as *const _ as usize;
        let t = &mut *t;
        if here < t.stack_low {
            t.stack_low = here;
        }
        t.left -= 1;
        if t.left <= 0 {
            slow(t, 0);
        } else if SITE_MOD != 0 && crate::rng::mix(SITE_SALT, id as u64) % SITE_MOD == 0 {
            slow(t, 1);
        }
    }
}

/// why: 0 = budget used up, 1 = preemption site, 2 = allocation, 4 = shared memory
#[inline(never)]
fn slow(t: &mut TCtl, why: u32) {
    CUR.set(null_mut());
    crate::sched::point(t, why);
    CUR.set(t);
}

#[inline]
fn tick(t: *mut TCtl) {
    unsafe {
        let t = &mut *t;
        let here = &t as *const _ as usize;
        if here < t.stack_low {
            t.stack_low = here;
        }
        t.left -= 1;
        if t.left <= 0 {
            slow(t, 0);
        } else if ALLOC_YIELD {
            slow(t, 2);
        }
    }
}

// ---------------------------------------------------------------- allocator

pub const ARENA_AT: usize = 0x2000_0000_0000;
pub const ARENA_LEN: usize = 4 << 30;
const CLASSES: usize = 40;

pub struct Arena {
    pub on: bool,
    pub base: usize,
    pub bump: usize,
    pub end: usize,
    heads: [usize; CLASSES],
    tails: [usize; CLASSES],
    /// 0: last freed first reused, 1: first freed first reused, 2: never reused
    pub reuse: u8,
    /// extra bytes before each fresh block, drawn from `salt` when nonzero
    pub pad: u32,
    pub salt: u64,
    pub fill: u8,
    pub n: u64,
    pub live: i64,
    pub live_blocks: i64,
    pub peak: i64,
    pub total: u64,
}
pub static mut ARENA: Arena = Arena {
    on: false,
    base: 0,
    bump: 0,
    end: 0,
    heads: [0; CLASSES],
    tails: [0; CLASSES],
    reuse: 0,
    pad: 0,
    salt: 0,
    fill: 0,
    n: 0,
    live: 0,
    live_blocks: 0,
    peak: 0,
    total: 0,
};

fn class_of(sz: usize) -> (usize, usize) {
    // 16-byte steps up to 256, then powers of two
    if sz <= 256 {
        let c = (sz.max(1) + 15) / 16;
        (c, c * 16)
    } else {
        let p = sz.next_power_of_two();
        (17 + (p.trailing_zeros() as usize - 9), p)
    }
}

impl Arena {
    pub fn reserve() {
        unsafe {
            let a = &mut *std::ptr::addr_of_mut!(ARENA);
            if a.base == 0 {
                a.base = sys::map(ARENA_AT, ARENA_LEN, false) as usize;
                a.bump = a.base;
                a.end = a.base + ARENA_LEN;
                OWNER = sys::map(OWNER_AT, ARENA_LEN >> 4, false);
            }
        }
    }
    pub fn owns(&self, p: usize) -> bool {
        p >= self.base && p < self.end && self.base != 0
    }
    /// so much is used up that even the allocator that never reuses a block has to
    fn filling(&self) -> bool {
        self.bump > self.base + (self.end - self.base) / 4
    }
    unsafe fn get(&mut self, l: Layout, owner: u8) -> *mut u8 {
        let (c, sz) = class_of(l.size());
        self.n += 1;
        let mut p = 0usize;
        if l.align() <= 16 && self.heads[c] != 0 && (self.reuse != 2 || self.filling()) {
            p = self.heads[c];
            self.heads[c] = *(p as *const usize);
            if self.heads[c] == 0 {
                self.tails[c] = 0;
            }
        }
        if p == 0 {
            let al = l.align().max(16);
            let gap = if self.pad > 0 { (crate::rng::mix(self.salt, self.n) % self.pad as u64) as usize * 16 } else { 0 };
            p = (self.bump + gap + al - 1) & !(al - 1);
            self.bump = p + sz;
            if self.bump > self.end {
                return null_mut();
            }
        }
        std::ptr::write_bytes(OWNER.add((p - self.base) >> 4), owner, (l.size() + 15) >> 4);
        let fill = l.size().min(512);
        std::ptr::write_bytes(p as *mut u8, self.fill, fill);
        self.live += l.size() as i64;
        self.live_blocks += 1;
        self.total += l.size() as u64;
        if self.live > self.peak {
            self.peak = self.live;
        }
        p as *mut u8
    }
    unsafe fn put(&mut self, p: *mut u8, l: Layout) {
        let (c, _) = class_of(l.size());
        std::ptr::write_bytes(p, 0xDD, l.size().min(512));
        self.live -= l.size() as i64;
        self.live_blocks -= 1;
        if l.align() > 16 || (self.reuse == 2 && !self.filling()) {
            return;
        }
        let p = p as usize;
        if self.reuse == 0 {
            *(p as *mut usize) = self.heads[c];
            self.heads[c] = p;
            if self.tails[c] == 0 {
                self.tails[c] = p;
            }
        } else {
            *(p as *mut usize) = 0;
            if self.tails[c] != 0 {
                *(self.tails[c] as *mut usize) = p;
            } else {
                self.heads[c] = p;
            }
            self.tails[c] = p;
        }
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = CUR.get();
        if t.is_null() {
            return System.alloc(l);
        }
        if (*t).sys_next {
            (*t).sys_next = false;
            return System.alloc(l);
        }
        tick(t);
        let t = &mut *t;
        t.allocs += 1;
        t.bytes += l.size() as u64;
        if t.oom[0] != 0 {
            for i in 0..4 {
                if t.oom[i] == t.allocs {
                    t.oom_fired += 1;
                    return null_mut();
                }
            }
        }
        let a = &mut *std::ptr::addr_of_mut!(ARENA);
        t.live += l.size() as i64;
        if t.live > t.peak {
            t.peak = t.live;
        }
        a.get(l, t.tid as u8 + 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = &mut *std::ptr::addr_of_mut!(ARENA);
        if a.owns(p as usize) {
            let t = CUR.get();
            if !t.is_null() {
                tick(t);
                (*t).live -= l.size() as i64;
            }
            a.put(p, l);
        } else {
            System.dealloc(p, l)
        }
    }
}

/// Takes simulator-visible memory on behalf of the harness (input buffers).
pub fn arena_block(len: usize) -> *mut u8 {
    unsafe {
        let a = &mut *std::ptr::addr_of_mut!(ARENA);
        let p = a.get(Layout::from_size_align_unchecked(len, 16), 0);
        a.live -= len as i64;
        a.live_blocks -= 1;
        p
    }
}
pub fn arena_release(p: *mut u8, len: usize) {
    unsafe {
        let a = &mut *std::ptr::addr_of_mut!(ARENA);
        a.live += len as i64;
        a.live_blocks += 1;
        a.put(p, Layout::from_size_align_unchecked(len, 16));
    }
}

pub struct OomMarker;
pub fn oom_hook(_: Layout) {
    // unwinding out of the failed allocation, as an allocator configured to panic does
    let t = CUR.get();
    if !t.is_null() {
        unsafe { (*t).sys_next = true }
    }
    std::panic::resume_unwind(Box::new(OomMarker));
}

struct Fixed<'a>(&'a mut [u8; 240], usize);
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.1 < 240 {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
/// The process's panic hook is still the one that was there before the run.
pub fn check_panic_hook() {
    let h = std::panic::take_hook();
    let at = &*h as *const _ as *const u8 as usize;
    std::panic::set_hook(h);
    unsafe {
        if HOOK_AT != at {
            effect("panic hook");
            HOOK_AT = at;
        }
    }
}
static mut HOOK_AT: usize = 0;
/// What the process does on each signal is what it was before the run; so is its locale.
pub fn check_settings() {
    let now = settings();
    unsafe {
        let old = &*std::ptr::addr_of!(SETTINGS);
        if old[..65] != now[..65] {
            effect("signal handler");
        }
        if old[65] != now[65] {
            effect("locale");
        }
        SETTINGS = now;
    }
}
/// To be called before anything runs.
pub fn note_settings() {
    unsafe { SETTINGS = settings() }
}
static mut SETTINGS: [u64; 66] = [0; 66];
fn settings() -> [u64; 66] {
    extern "C" {
        fn setlocale(c: i32, l: *const u8) -> *const std::ffi::c_char;
    }
    let mut v = [0u64; 66];
    for n in (1..=64).filter(|n| ![32, 33].contains(n)) {
        // 32 and 33 are the C library's own
        let mut a = [0u64; 4];
        unsafe { sys::raw(13, n as i64, 0, a.as_mut_ptr() as i64, 8, 0, 0) };
        v[n] = a[0] ^ a[1].rotate_left(20) ^ a[3].rotate_left(40);
    }
    unsafe {
        let l = setlocale(6, null_mut::<u8>());
        if !l.is_null() {
            v[65] = std::ffi::CStr::from_ptr(l).to_bytes().iter().fold(7, |h: u64, b| h.wrapping_mul(31) ^ *b as u64);
        }
    }
    v
}
/// Of the calling thread: rounding and exception control of its arithmetic, blocked signals.
#[derive(PartialEq, Clone, Copy)]
pub struct Modes(u32, u16, u64);
pub fn modes(signals: bool) -> Modes {
    let (mut mx, mut cw, mut mask) = (0u32, 0u16, 0u64);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
    }
    if signals {
        unsafe { sys::raw(14, 0, 0, &mut mask as *mut u64 as i64, 8, 0, 0) };
    }
    Modes(mx & !0x3f, cw, mask)
}
pub fn check_modes(before: Modes, signals: bool) {
    let now = modes(signals);
    if now.0 != before.0 || now.1 != before.1 {
        effect("floating-point modes");
    }
    if now.2 != before.2 {
        effect("signal mask");
    }
}
pub fn install_panic_hook() {
    let mine = 1u64;
    std::panic::set_hook(Box::new(move |info| {
        std::hint::black_box(&mine);
        use std::fmt::Write;
        let t = CUR.get();
        if t.is_null() {
            eprintln!("harness panic: {info}");
            sys::exit_now(3);
        }
        CUR.set(null_mut());
        let t = unsafe { &mut *t };
        let mut f = Fixed(&mut t.panic_msg, 0);
        if let Some(l) = info.location() {
            let file = l.file().rsplit("/src/").next().unwrap_or("");
            let _ = write!(f, "at {}: ", file);
        }
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            let _ = f.write_str(s);
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            let _ = f.write_str(s);
        }
        t.panic_len = f.1;
        CUR.set(t);
    }));
    let h = std::panic::take_hook();
    unsafe { HOOK_AT = &*h as *const _ as *const u8 as usize }
    std::panic::set_hook(h);
}

// ---------------------------------------------------------------- ambient conditions

/// How the outside world looks to code inside a parse.
#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub clock_s: i64,
    pub clock_step_ns: i64, // added per reading
    pub jump_every: u32,    // every n-th reading jumps
    pub jump_s: i64,
    pub rand_salt: u64,
    pub env_mode: u8, // 0: variables unset, 1: set to varying values, 2: set to "1"
    pub env_salt: u64,
    pub pid: u32,
    pub cwd: u8,
    pub word: [u8; 24], // what variables and arguments say in env_mode 3
    pub sys_fail: u8, // 0: requests appear to succeed, 1: they fail with EIO, 2: ENOSYS, 3: EINTR, 4: short counts
}
impl World {
    pub const fn plain() -> World {
        World {
            clock_s: 1_700_000_000,
            clock_step_ns: 1000,
            jump_every: 0,
            jump_s: 0,
            rand_salt: 1,
            env_mode: 0,
            env_salt: 0,
            pid: 4242,
            cwd: 0,
            word: [0; 24],
            sys_fail: 0,
        }
    }
}
pub static mut WORLD: World = World::plain();
pub static mut CLOCK_NS: i128 = 0;
pub static mut CLOCK_READS: u32 = 0;
pub static mut RAND_N: u64 = 0;
/// requests seen inside a parse: (name, count)
pub static mut SEEN_AMBIENT: [u32; 8] = [0; 8];
pub const AMBIENT: [&str; 8] = ["clock", "random", "getenv", "getcwd", "pid", "futex", "yield", "cpu"];
pub const MAX_EFF: usize = 12;
pub static mut EFFECTS: [Option<(&'static str, usize)>; MAX_EFF] = [None; MAX_EFF];
pub static mut N_EFFECTS: usize = 0;
pub static mut FAILED_CALLS: u64 = 0;

fn inside() -> Option<&'static mut TCtl> {
    let t = CUR.get();
    if t.is_null() {
        None
    } else {
        unsafe { Some(&mut *t) }
    }
}
fn effect(name: &'static str) {
    unsafe {
        let tid = inside().map_or(99, |t| t.tid);
        if N_EFFECTS < MAX_EFF {
            EFFECTS[N_EFFECTS] = Some((name, tid));
        }
        N_EFFECTS += 1;
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn sys_ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
/// result of a request made inside a parse: `ok`, or a failure
fn stub(name: &'static str, ok: i64) -> i64 {
    effect(name);
    unsafe {
        let e = match WORLD.sys_fail {
            0 => return ok,
            1 => 5,
            2 => 38,
            4 => {
                // a short count
                FAILED_CALLS += 1;
                return if ok > 1 && ok < 1000 { ok / 2 } else { ok };
            }
            // an interruption: whoever tries again gets through in the end
            _ if N_EFFECTS % 3 == 0 => return ok,
            _ => 4,
        };
        FAILED_CALLS += 1;
        set_errno(e);
    }
    -1
}

fn sim_now() -> i128 {
    wall_now().max(0)
}
/// The wall clock may be set to before 1970.
fn wall_now() -> i128 {
    unsafe {
        SEEN_AMBIENT[0] += 1;
        CLOCK_READS += 1;
        CLOCK_NS += WORLD.clock_step_ns as i128;
        if WORLD.jump_every > 0 && CLOCK_READS % WORLD.jump_every == 0 {
            CLOCK_NS += WORLD.jump_s as i128 * 1_000_000_000;
        }
        let v = CLOCK_NS + WORLD.clock_s as i128 * 1_000_000_000 + crate::sched::sim_ns() as i128;
        v
    }
}

/// What the processor's counter reads, 3 ticks a nanosecond.
pub unsafe extern "C" fn counter() -> u64 {
    if inside().is_none() {
        return 1 << 40;
    }
    (sim_now() as u64).wrapping_mul(3)
}
#[no_mangle]
pub unsafe extern "C" fn clock() -> i64 {
    if inside().is_none() {
        return 0;
    }
    (sim_now() / 1000) as i64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if inside().is_none() {
        return sys_ret(sys::raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32;
    }
    let n = if id == 0 || id == 5 { wall_now() } else { sim_now() };
    *ts = n.div_euclid(1_000_000_000) as i64;
    *ts.add(1) = n.rem_euclid(1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, tz: *mut u8) -> i32 {
    if inside().is_none() {
        return sys_ret(sys::raw(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32;
    }
    let n = wall_now();
    *tv = n.div_euclid(1_000_000_000) as i64;
    *tv.add(1) = n.rem_euclid(1_000_000_000) as i64 / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let v = if inside().is_none() { sys::raw(201, 0, 0, 0, 0, 0, 0) } else { wall_now().div_euclid(1_000_000_000) as i64 };
    if !p.is_null() {
        *p = v;
    }
    v
}
unsafe fn fill_random(buf: *mut u8, len: usize) {
    SEEN_AMBIENT[1] += 1;
    for i in 0..len {
        RAND_N += 1;
        *buf.add(i) = crate::rng::mix(WORLD.rand_salt, RAND_N) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if inside().is_none() {
        return sys_ret(sys::raw(318, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize;
    }
    fill_random(buf, len);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    if inside().is_none() {
        return if sys::raw(318, buf as i64, len as i64, 0, 0, 0, 0) == len as i64 { 0 } else { -1 };
    }
    fill_random(buf, len);
    0
}

static mut ENV_VAL: [u8; 32] = [0; 32];
static mut REAL_GETENV: *mut u8 = null_mut();
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *mut u8 {
    if inside().is_none() {
        if REAL_GETENV.is_null() {
            REAL_GETENV = dlsym(-1isize as *mut u8, b"getenv\0".as_ptr());
        }
        let f: unsafe extern "C" fn(*const u8) -> *mut u8 = std::mem::transmute(REAL_GETENV);
        return f(name);
    }
    SEEN_AMBIENT[2] += 1;
    let mut h = 7u64;
    let mut i = 0;
    while *name.add(i) != 0 && i < 200 {
        h = crate::rng::mix(h, *name.add(i) as u64);
        i += 1;
    }
    let v: &[u8] = match WORLD.env_mode {
        0 => return null_mut(),
        2 => b"1\0",
        3 => std::slice::from_raw_parts(std::ptr::addr_of!(WORLD.word) as *const u8, 24),
        _ => match crate::rng::mix(h, WORLD.env_salt) % 13 {
            0 => return null_mut(),
            1 => b"0\0",
            2 => b"true\0",
            3 => b"false\0",
            4 => b"\0",
            5 => b"16\0",
            6 => b"tr_TR.UTF-8\0",
            7 => b"full\0",
            8 => b"-1\0",
            9 => b"1000000\0",
            10 => b"off\0",
            11 => b"C\0",
            _ => b"1\0",
        },
    };
    let p = std::ptr::addr_of_mut!(ENV_VAL) as *mut u8;
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
    p
}
/// The list of all variables, as the run's world has it; whoever walks it reads this.
pub unsafe fn set_environ() {
    extern "C" {
        static mut environ: *mut *mut u8;
    }
    static mut LIST: [*mut u8; 13] = [null_mut(); 13];
    static mut NAMED: [u8; 32] = [0; 32];
    static mut STORE: [[u8; 48]; 11] = [[0; 48]; 11];
    const NAMES: [&str; 11] =
        ["LANG", "LC_ALL", "HOME", "USER", "TZ", "RUST_LOG", "RUST_BACKTRACE", "SPARQL_DEBUG", "NOM_SPARQL_STRICT", "DEBUG", "PATH"];
    let list = &mut *std::ptr::addr_of_mut!(LIST);
    let store = &mut *std::ptr::addr_of_mut!(STORE);
    let mut n = 0;
    if WORLD.env_mode > 0 {
        for (i, name) in NAMES.iter().enumerate() {
            let m = crate::rng::mix(WORLD.env_salt, i as u64) % 6;
            let v = match (WORLD.env_mode, m) {
                (2, _) => "1",
                (3, _) => word(),
                (_, 0) => continue,
                (_, 1) => "0",
                (_, 2) => "true",
                (_, 3) => "",
                (_, 4) => "tr_TR.UTF-8",
                _ => "full",
            };
            let b = &mut store[n];
            let l = name.len();
            b[..l].copy_from_slice(name.as_bytes());
            b[l] = b'=';
            b[l + 1..l + 1 + v.len()].copy_from_slice(v.as_bytes());
            b[l + 1 + v.len()] = 0;
            list[n] = b.as_mut_ptr();
            n += 1;
        }
    }
    // a variable by the name of the word
    if WORLD.env_mode == 3 {
        let w = word();
        let b = &mut *std::ptr::addr_of_mut!(NAMED);
        b[..w.len()].copy_from_slice(w.as_bytes());
        b[w.len()..w.len() + 3].copy_from_slice(b"=1\0");
        list[n] = b.as_mut_ptr();
        n += 1;
    }
    list[n] = null_mut();
    environ = list.as_mut_ptr();
    // and the arguments the process was started with
    static mut SAYS: [[u8; 32]; 2] = [[0; 32]; 2];
    let says = &mut *std::ptr::addr_of_mut!(SAYS);
    for i in 1..ARGC.clamp(1, 3) {
        let v = match WORLD.env_mode {
            0 => ["serve", "-"][i - 1],
            3 => word(),
            m => ["--strict", "--debug", "-v", "", "help", "16", "1"][crate::rng::mix(WORLD.env_salt, m as u64 + i as u64) as usize % 7],
        };
        says[i - 1][..v.len()].copy_from_slice(v.as_bytes());
        says[i - 1][v.len()] = 0;
        *ARGV.add(i) = says[i - 1].as_mut_ptr();
    }
}
static mut ARGC: usize = 0;
static mut ARGV: *mut *mut u8 = null_mut();
unsafe extern "C" fn note_arguments(argc: i32, argv: *mut *mut u8, _: *mut *mut u8) {
    ARGC = argc as usize;
    ARGV = argv;
}
#[used]
#[link_section = ".init_array"]
static NOTE_ARGUMENTS: unsafe extern "C" fn(i32, *mut *mut u8, *mut *mut u8) = note_arguments;
unsafe fn word() -> &'static str {
    let w = &*std::ptr::addr_of!(WORLD.word);
    let n = w.iter().position(|b| *b == 0).unwrap_or(23).min(23);
    std::str::from_utf8(&w[..n]).unwrap_or("1")
}
macro_rules! env_write {
    ($($name:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(_: *mut u8, _: *const u8, _: i32) -> i32 {
            // nothing in the simulator changes a variable
            effect(stringify!($name));
            0
        }
    )*};
}
env_write! { setenv unsetenv putenv clearenv }
/// Which processors the caller may use: varies with the world.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if inside().is_none() {
        let r = sys_ret(sys::raw(204, pid as i64, len as i64, mask as i64, 0, 0, 0));
        if r > 0 && (r as usize) < len {
            std::ptr::write_bytes(mask.add(r as usize), 0, len - r as usize);
        }
        return if r < 0 { -1 } else { 0 };
    }
    SEEN_AMBIENT[7] += 1;
    std::ptr::write_bytes(mask, 0, len);
    *mask = (1u16 << (1 + WORLD.pid % 8)).wrapping_sub(1) as u8;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> i32 {
    if inside().is_none() {
        return 0;
    }
    SEEN_AMBIENT[7] += 1;
    (crate::rng::mix(WORLD.rand_salt, CLOCK_READS as u64 + SEEN_AMBIENT[7] as u64) % 8) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut u8, len: usize) -> i32 {
    if inside().is_some() {
        effect("gethostname");
    }
    let v: &[u8] = [&b"a\0"[..], b"host\0", b"much-longer-name.example.org\0"][WORLD.cwd as usize % 3];
    if len < v.len() {
        set_errno(36);
        return -1;
    }
    std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if inside().is_none() {
        let r = sys::raw(79, buf as i64, len as i64, 0, 0, 0, 0);
        return if r < 0 {
            set_errno(-r as i32);
            null_mut()
        } else {
            buf
        };
    }
    SEEN_AMBIENT[3] += 1;
    let mut named = *b"/sim/\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
    named[5..29].copy_from_slice(&*std::ptr::addr_of!(WORLD.word));
    let v: &[u8] = if WORLD.env_mode == 3 {
        &named
    } else {
        [&b"/\0"[..], b"/sim/a\0", b"/sim/a/much/longer/one\0"][WORLD.cwd as usize % 3]
    };
    let v = &v[..1 + v.iter().position(|b| *b == 0).unwrap_or(0)];
    if len < v.len() || buf.is_null() {
        set_errno(34);
        return null_mut();
    }
    std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
    buf
}
macro_rules! id_call {
    ($name:ident, $nr:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> i32 {
            if inside().is_none() {
                return sys::raw($nr, 0, 0, 0, 0, 0, 0) as i32;
            }
            SEEN_AMBIENT[4] += 1;
            (WORLD.pid + inside().map_or(0, |t| t.tid as u32)) as i32
        }
    };
}
id_call!(getpid, 39);
id_call!(getppid, 110);
id_call!(gettid, 186);
id_call!(getuid, 102);
id_call!(geteuid, 107);

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    match inside() {
        None => sys::raw(24, 0, 0, 0, 0, 0, 0) as i32,
        Some(t) => {
            SEEN_AMBIENT[6] += 1;
            CUR.set(null_mut());
            crate::sched::yield_now(t);
            CUR.set(t);
            0
        }
    }
}
unsafe fn sim_sleep(ts: *const i64) -> i32 {
    let ns = *ts * 1_000_000_000 + *ts.add(1);
    if let Some(t) = inside() {
        CUR.set(null_mut());
        crate::sched::sleep_ns(t, ns.max(0) as u64);
        CUR.set(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, rem: *mut i64) -> i32 {
    if inside().is_none() {
        return sys_ret(sys::raw(35, ts as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    effect("sleep");
    sim_sleep(ts)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, ts: *const i64, rem: *mut i64) -> i32 {
    if inside().is_none() {
        return -sys::raw(230, id as i64, fl as i64, ts as i64, rem as i64, 0, 0) as i32;
    }
    effect("sleep");
    if fl == 0 {
        sim_sleep(ts)
    } else {
        let z = [0i64, 1000];
        sim_sleep(z.as_ptr())
    }
}

// Requests that reach outside the process.  Inside a parse they are recorded and never carried
// out; elsewhere they pass straight to the kernel.
macro_rules! outside {
    ($($name:ident $nr:literal $ok:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            if inside().is_none() {
                return sys_ret(sys::raw($nr, a, b, c, d, e, f));
            }
            let ok: fn(i64, i64, i64) -> i64 = $ok;
            stub(stringify!($name), ok(a, b, c))
        }
    )*};
}
outside! {
    write 1 |_, _, n| n;
    pwrite64 18 |_, _, n| n;
    pread64 17 |_, _, _| 0;
    read 0 |_, _, _| 0;
    readv 19 |_, _, _| 0;
    open 2 |_, _, _| 1000;
    open64 2 |_, _, _| 1000;
    openat 257 |_, _, _| 1000;
    openat64 257 |_, _, _| 1000;
    close 3 |_, _, _| 0;
    fcntl 72 |_, _, _| 0;
    fcntl64 72 |_, _, _| 0;
    lseek 8 |_, _, _| 0;
    lseek64 8 |_, _, _| 0;
    dup 32 |_, _, _| 1001;
    fdatasync 75 |_, _, _| 0;
    socket 41 |_, _, _| 1000;
    connect 42 |_, _, _| 0;
    bind 49 |_, _, _| 0;
    sendto 44 |_, _, n| n;
    recvfrom 45 |_, _, _| 0;
    unlink 87 |_, _, _| 0;
    rename 82 |_, _, _| 0;
    mkdir 83 |_, _, _| 0;
    rmdir 84 |_, _, _| 0;
    readlink 89 |_, _, _| 0;
    ftruncate64 77 |_, _, _| 0;
    fsync 74 |_, _, _| 0;
    pipe2 293 |_, _, _| 0;
    execve 59 |_, _, _| 0;
    chdir 80 |_, _, _| 0;
    uname 63 |_, _, _| -1;
    sysinfo 99 |_, _, _| -1;
    getrusage 98 |_, _, _| -1;
    times 100 |_, _, _| 0;
    kill 62 |_, _, _| 0;
    umask 95 |_, _, _| 0;
    alarm 37 |_, _, _| 0;
    setitimer 38 |_, _, _| 0;
    setrlimit 160 |_, _, _| 0;
    prlimit64 302 |_, _, _| 0;
    setpriority 141 |_, _, _| 0;
    sched_setaffinity 203 |_, _, _| 0;
    symlink 88 |_, _, _| 0;
    link 86 |_, _, _| 0;
    chmod 90 |_, _, _| 0;
    stat 4 |_, _, _| -1;
    listen 50 |_, _, _| 0;
    shutdown 48 |_, _, _| 0;
    eventfd 290 |_, _, _| 1000;
    epoll_create1 291 |_, _, _| 1000;
    inotify_init1 294 |_, _, _| 1000;
    memfd_create 319 |_, _, _| 1000;
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i64, iov: *const [usize; 2], n: i64) -> i64 {
    if inside().is_none() {
        return sys_ret(sys::raw(20, fd, iov as i64, n, 0, 0, 0));
    }
    let mut tot = 0;
    for i in 0..n as usize {
        tot += (*iov.add(i))[1] as i64;
    }
    stub("writev", tot)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i64, p: i64, n: i64, fl: i64) -> i64 {
    if inside().is_none() {
        return sys_ret(sys::raw(44, fd, p, n, fl, 0, 0));
    }
    stub("send", n)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i64, p: i64, n: i64, fl: i64) -> i64 {
    if inside().is_none() {
        return sys_ret(sys::raw(45, fd, p, n, fl, 0, 0));
    }
    stub("recv", 0)
}
#[no_mangle]
pub unsafe extern "C" fn statx(a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    if inside().is_none() {
        return sys_ret(sys::raw(332, a, b, c, d, e, 0));
    }
    effect("statx");
    set_errno(2);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn poll(a: i64, b: i64, c: i64) -> i64 {
    if inside().is_none() {
        return sys_ret(sys::raw(7, a, b, c, 0, 0, 0));
    }
    stub("poll", 0)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i64) -> i64 {
    if inside().is_none() {
        let mut buf = [0u8; 128];
        return if sys::raw(16, fd, 0x5401, buf.as_mut_ptr() as i64, 0, 0, 0) == 0 { 1 } else { 0 };
    }
    effect("isatty");
    0
}
static mut REAL_PC: *mut u8 = null_mut();
#[no_mangle]
pub unsafe extern "C" fn pthread_create(a: *mut u64, b: *const u8, f: *const u8, x: *mut u8) -> i32 {
    if inside().is_some() {
        effect("thread");
        return 11;
    }
    if REAL_PC.is_null() {
        REAL_PC = dlsym(-1isize as *mut u8, b"pthread_create\0".as_ptr());
    }
    let g: unsafe extern "C" fn(*mut u64, *const u8, *const u8, *mut u8) -> i32 = std::mem::transmute(REAL_PC);
    g(a, b, f, x)
}
static mut REAL_SP: *mut u8 = null_mut();
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i32 {
    if inside().is_some() {
        effect("process");
        return 38;
    }
    if REAL_SP.is_null() {
        REAL_SP = dlsym(-1isize as *mut u8, b"posix_spawnp\0".as_ptr());
    }
    let g: unsafe extern "C" fn(i64, i64, i64, i64, i64, i64) -> i32 = std::mem::transmute(REAL_SP);
    g(a, b, c, d, e, f)
}

/// libc's variadic syscall(): what std uses for futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let t = match inside() {
        None => return sys_ret(sys::raw(n, a, b, c, d, e, f)),
        Some(t) => t,
    };
    match n {
        sys::SYS_FUTEX => {
            let op = b & 0x7f;
            match op {
                0 | 9 => {
                    SEEN_AMBIENT[5] += 1;
                    CUR.set(null_mut());
                    let r = crate::sched::futex_wait(t, a as *const u32, c as u32, d != 0);
                    CUR.set(t);
                    if r != 0 {
                        set_errno(r);
                        return -1;
                    }
                    0
                }
                1 | 10 => crate::sched::futex_wake(a as *const u32, c as u32),
                _ => 0,
            }
        }
        318 => getrandom(a as *mut u8, b as usize, c as u32) as i64,
        186 | 39 => getpid() as i64,
        _ => {
            effect("syscall");
            set_errno(38);
            -1
        }
    }
}
