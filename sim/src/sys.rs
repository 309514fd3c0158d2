//! Raw system calls (never routed through the interposed libc symbols) and shared memory.
use std::arch::asm;

pub const SYS_WRITE: i64 = 1;
pub const SYS_MMAP: i64 = 9;
pub const SYS_GETPID: i64 = 39;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_FUTEX: i64 = 202;

#[inline(never)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0); // FUTEX_WAIT|PRIVATE
}
pub unsafe fn futex_wake(addr: *const u32) {
    raw(SYS_FUTEX, addr as i64, 129, i32::MAX as i64, 0, 0, 0);
}

/// Anonymous mapping; `shared` mappings survive fork as shared memory.
pub fn map(addr: usize, len: usize, shared: bool) -> *mut u8 {
    let flags = if shared { 0x01 } else { 0x02 } | 0x20 | 0x4000 | if addr != 0 { 0x100000 } else { 0 };
    let r = unsafe { raw(SYS_MMAP, addr as i64, len as i64, 3, flags, -1, 0) };
    if r < 0 && r > -4096 {
        eprintln!("harness: mmap of {len} bytes at {addr:#x} failed: {r}");
        exit_now(3);
    }
    r as *mut u8
}

/// Makes pages unreadable, or readable again.
pub fn no_access(at: *mut u8, len: usize, on: bool) {
    let r = unsafe { raw(10, at as i64, len as i64, if on { 0 } else { 3 }, 0, 0, 0) };
    if r != 0 {
        eprintln!("harness: mprotect failed: {r}");
        exit_now(3);
    }
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Re-executes this program without address-space randomisation, once.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("NSIM_NOASLR").is_none() {
            personality(cur as u64 | 0x0040000);
            std::env::set_var("NSIM_NOASLR", "1");
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            eprintln!("note: re-exec failed ({e}); continuing with randomised addresses");
        }
    }
}

/// The same program at another place in memory: loaded by the dynamic loader instead of the
/// kernel, below a stack of another size.  None: not possible here.
pub fn elsewhere(pages: u32, file: &std::path::Path, plainly: bool) -> Option<String> {
    use std::os::unix::process::CommandExt;
    let mut exe = std::fs::read_link("/proc/self/exe").ok()?;
    if plainly {
        // the build without optimisation lies beside this one
        exe = exe.parent()?.parent()?.join("debug/nsim");
    }
    let mut c = std::process::Command::new("/lib64/ld-linux-x86-64.so.2");
    c.arg(exe).arg("answers").arg(file);
    let soft = (128u64 << 20) + pages as u64 * 4096;
    unsafe {
        c.pre_exec(move || {
            extern "C" {
                fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
            }
            let mut l = [0u64; 2];
            if getrlimit(3, &mut l) == 0 && l[1] >= soft {
                setrlimit(3, &[soft, l[1]]);
            }
            Ok(())
        });
    }
    let o = c.stderr(std::process::Stdio::null()).output().ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).into_owned())
}

/// Pins to the k-th CPU this process may use.
pub fn pin(k: usize) {
    unsafe {
        let mut m = [0u64; 16];
        extern "C" {
            fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
        }
        if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut s = [0u64; 16];
        s[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, 128, s.as_ptr());
    }
}

pub fn no_core() {
    unsafe {
        setrlimit(4, &[0, 0]);
    }
}
/// A forked child ends when its parent does.
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

pub enum Exit {
    Code(i32),
    Signal(i32),
    TimedOut,
}

extern "C" {
    fn alarm(s: u32) -> u32;
}
/// In a forked child: a real-time backstop only; every loop in the code under test is cut by
/// the simulated step limit long before.
pub fn backstop(secs: u32) {
    unsafe {
        alarm(secs);
    }
}

pub fn wait_child(pid: i32) -> Exit {
    let mut st = 0i32;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    if st & 0x7f == 0 {
        Exit::Code((st >> 8) & 0xff)
    } else if st & 0x7f == 14 {
        Exit::TimedOut
    } else {
        Exit::Signal(st & 0x7f)
    }
}

extern "C" {
    fn signal(n: i32, h: usize) -> usize;
}
/// A stack overflow in the child ends it with SIGSEGV, not with the runtime's message.
pub fn default_signals() {
    unsafe {
        signal(11, 0);
        signal(7, 0);
    }
}

/// Reading the processor's own counter faults, in this thread and those it starts, and `h` says
/// what was read.  Any other fault, or one on an exhausted stack, ends the process as before.
pub fn own_counter(h: unsafe extern "C" fn() -> u64) -> bool {
    static mut NOW: Option<unsafe extern "C" fn() -> u64> = None;
    // the layout of x86-64 Linux's ucontext: the general registers begin at byte 40
    unsafe extern "C" fn on_fault(_: i32, _: *mut u8, ctx: *mut u8) {
        let regs = ctx.add(40) as *mut u64;
        let ip = *regs.add(16) as *const u8;
        let (is, len, p) = match (*ip, *ip.add(1), *ip.add(2)) {
            (0x0f, 0x31, _) => (true, 2, false),
            (0x0f, 0x01, 0xf9) => (true, 3, true),
            _ => (false, 0, false),
        };
        if !is {
            signal(11, 0);
            return;
        }
        let v = NOW.map_or(0, |f| f());
        *regs.add(13) = v & 0xffff_ffff;
        *regs.add(12) = v >> 32;
        if p {
            *regs.add(14) = v % 7;
        }
        *regs.add(16) += len;
    }
    #[repr(C)]
    struct Act(usize, [u64; 16], i32, usize);
    extern "C" {
        fn sigaction(n: i32, new: *const Act, old: *mut Act) -> i32;
    }
    unsafe {
        NOW = Some(h);
        let a = Act(on_fault as *const () as usize, [0; 16], 4 | 0x4000_0000, 0);
        sigaction(11, &a, std::ptr::null_mut()) == 0 && prctl(26, 2, 0, 0, 0) == 0
    }
}

/// From here on this thread may only manage memory, wait for its turn and end; any other real
/// system call kills the process.  Says whether the filter could be installed.
pub fn seccomp_quiet() -> bool {
    #[repr(C)]
    struct F(u16, u8, u8, u32);
    #[repr(C)]
    struct P(u16, *const F);
    // futex, memory, signals masks, thread and process end, scheduler and robust list bookkeeping
    let allowed: [u32; 19] = [202, 9, 10, 11, 12, 25, 28, 13, 14, 15, 131, 60, 231, 273, 334, 37, 61, 186, 39];
    let mut f = vec![F(0x20, 0, 0, 0)];
    let n = allowed.len();
    for (i, a) in allowed.iter().enumerate() {
        f.push(F(0x15, (n - i) as u8, 0, *a));
    }
    f.push(F(0x06, 0, 0, 0x8000_0000)); // kill process
    f.push(F(0x06, 0, 0, 0x7fff_0000)); // allow
    let p = P(f.len() as u16, f.as_ptr());
    unsafe {
        if prctl(38, 1, 0, 0, 0) != 0 {
            return false;
        }
        prctl(22, 2, &p as *const P as u64, 0, 0) == 0
    }
}

/// The harness's own heap is one region that never shrinks: no thread arenas, whose trimming
/// reads /proc, and no heap-size dependent system calls while a filter is in place.
pub fn one_heap() {
    extern "C" {
        fn mallopt(p: i32, v: i32) -> i32;
    }
    unsafe {
        mallopt(-8, 1); // M_ARENA_MAX
        mallopt(-1, i32::MAX); // M_TRIM_THRESHOLD
    }
}
