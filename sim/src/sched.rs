//! The scheduler: caller threads are real threads, but only the holder of the baton runs, and
//! who gets it next, and for how many steps, is decided here from the seed (or a recorded list).
use crate::rng::{mix, Rng};
use crate::seam::{self, TCtl, CUR};
use crate::sys;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAX_T: usize = 96;
/// A slice nobody limits still ends after this many steps, so that a thread spinning on
/// something another thread must do cannot keep it from being done.
pub const FAIR: i64 = 3_000_000;
pub const MAX_SLICES: usize = 6000;
pub const NS_PER_STEP: u64 = 10;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Absent,
    Ready,
    Sleeping(u64),
    Futex { addr: usize, until: u64 },
    Stalled,
    Done,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// run each thread until it gives up by itself
    None,
    /// random slices of a..=b steps
    Slices(u64, u64),
    /// a few preemptions, at these total step counts
    Points(Vec<u64>),
    /// preempt where the control-flow edge's hash is 0 modulo n
    Sites(u64, u64),
    /// preempt at every allocation
    Allocs,
    /// preempt at this percentage of the accesses to shared memory
    Shared(u64, u64),
    /// switch between operations only
    Ops,
    /// replay: (thread, steps), 0 steps = until it gives up by itself
    Fixed(Vec<(u8, u32)>),
}

pub struct Sched {
    pub on: bool,
    pub n: usize,
    pub st: [St; MAX_T],
    pub policy: Policy,
    pub rng: Rng,
    pub now_ns: u64,
    pub slices: Vec<(u8, u32)>,
    pub cur: usize,
    pub fixed_at: usize,
    pub point_at: usize,
    pub steps: u64,
    pub preemptions: u64,
    pub stalls_fired: u64,
    pub blocks: u64,
    pub sleeps: u64,
    pub fail: Option<String>,
    pub inter_hash: u64,
    pub blocked_on_stalled: bool,
    pub stall_release: u8,
    pub ctl: [*mut TCtl; MAX_T],
    pub futex_hit: [bool; MAX_T],
    pub max_in_parse: u32,
}

pub static mut S: Sched = Sched {
    on: false,
    n: 0,
    st: [St::Absent; MAX_T],
    policy: Policy::None,
    rng: Rng(0),
    now_ns: 0,
    slices: Vec::new(),
    cur: 0,
    fixed_at: 0,
    point_at: 0,
    steps: 0,
    preemptions: 0,
    stalls_fired: 0,
    blocks: 0,
    sleeps: 0,
    fail: None,
    inter_hash: 0,
    blocked_on_stalled: false,
    stall_release: 0,
    ctl: [std::ptr::null_mut(); MAX_T],
    futex_hit: [false; MAX_T],
    max_in_parse: 0,
};

/// gate[k] = 1: thread k may run.  The last one is the conductor's (the child's main thread).
static GATE: [AtomicU32; MAX_T + 1] = {
    const Z: AtomicU32 = AtomicU32::new(0);
    [Z; MAX_T + 1]
};
pub const MAIN: usize = MAX_T;

pub fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

pub fn gate_open(k: usize) {
    GATE[k].store(1, SeqCst);
    unsafe { sys::futex_wake(GATE[k].as_ptr()) }
}
pub fn gate_wait(k: usize) {
    loop {
        if GATE[k].swap(0, SeqCst) == 1 {
            return;
        }
        unsafe { sys::futex_wait(GATE[k].as_ptr(), 0) }
    }
}

pub fn sim_ns() -> u64 {
    let t = CUR.get();
    let run = if t.is_null() { 0 } else { unsafe { ((*t).granted - (*t).left).max(0) as u64 } };
    s().now_ns + run * NS_PER_STEP
}

fn account(t: &mut TCtl) {
    t.settle();
    let q = s();
    q.now_ns += t.slice_run_since * NS_PER_STEP;
    q.steps += t.slice_run_since;
    t.slice_run_since = 0;
}

/// Ends the child on the spot; the parent reads the reason from the report.
fn give_up(why: String) -> ! {
    s().fail = Some(why);
    crate::exec::bail()
}

/// Called with CUR null when a budget is used up (0), at a site (1), an allocation (2) or
/// between operations (3).
pub fn point(t: &mut TCtl, why: u32) {
    account(t);
    if t.op_limit != u64::MAX && t.op_steps >= t.op_limit && why != 3 {
        let m = format!("steplimit thread={} op={} steps={}", t.tid, t.op_index, t.op_steps);
        give_up(m);
    }
    if !t.sched {
        t.arm();
        return;
    }
    let q = s();
    if t.stall_at > 0 && t.op_steps >= t.stall_at && why != 3 {
        t.stall_at = 0;
        q.stalls_fired += 1;
        q.st[t.tid] = St::Stalled;
        leave(t, false);
        return;
    }
    if t.quantum <= 0 || why != 0 {
        q.st[t.tid] = St::Ready;
        q.preemptions += 1;
        leave(t, true);
        return;
    }
    t.arm();
}

pub fn yield_now(t: &mut TCtl) {
    account(t);
    if t.sched {
        s().st[t.tid] = St::Ready;
        leave(t, true);
    }
}
pub fn sleep_ns(t: &mut TCtl, ns: u64) {
    account(t);
    let q = s();
    q.sleeps += 1;
    if !t.sched {
        q.now_ns += ns;
        t.arm();
        return;
    }
    q.st[t.tid] = St::Sleeping(q.now_ns.saturating_add(ns));
    leave(t, false);
}
/// errno, or 0
pub fn futex_wait(t: &mut TCtl, addr: *const u32, val: u32, until: bool) -> i32 {
    account(t);
    let q = s();
    if unsafe { std::ptr::read_volatile(addr) } != val {
        t.arm();
        return 11;
    }
    q.blocks += 1;
    if !t.sched {
        if until {
            q.now_ns += 1_000_000_000;
            t.arm();
            return 110;
        }
        let m = format!("deadlock: thread {} waits alone inside a parse (op {})", t.tid, t.op_index);
        give_up(m);
    }
    q.st[t.tid] = St::Futex { addr: addr as usize, until: if until { q.now_ns + 1_000_000_000 } else { u64::MAX } };
    q.futex_hit[t.tid] = false;
    leave(t, false);
    if s().futex_hit[t.tid] {
        0
    } else {
        110
    }
}
pub fn futex_wake(addr: *const u32, n: u32) -> i64 {
    let q = s();
    let mut k = 0;
    // wake in an order drawn from the run's seed
    let start = if q.n > 0 { (mix(q.inter_hash, 77) % q.n as u64) as usize } else { 0 };
    for d in 0..q.n {
        let i = (start + d) % q.n;
        if let St::Futex { addr: a, .. } = q.st[i] {
            if a == addr as usize && k < n {
                q.st[i] = St::Ready;
                q.futex_hit[i] = true;
                k += 1;
            }
        }
    }
    k as i64
}

/// Between two operations of a client: one step, and a switch point for the `Ops` policy.
pub fn boundary(t: &mut TCtl) {
    if !t.sched {
        return;
    }
    t.left -= 1;
    if t.left <= 0 {
        point(t, 3)
    } else if s().policy == Policy::Ops {
        point(t, 3)
    }
}
/// A pause of the client itself (between operations).
pub fn pause(t: &mut TCtl, ns: u64) {
    if t.sched && ns > 0 {
        account(t);
        let q = s();
        q.st[t.tid] = St::Sleeping(q.now_ns.saturating_add(ns));
        leave(t, false);
    }
}

/// Gives up the baton (status already set) and returns when it comes back.
fn leave(t: &mut TCtl, preempted: bool) {
    let _ = s();
    record(t, preempted);
    let me = t.tid;
    let next = choose();
    if next != me {
        gate_open(next);
        gate_wait(me);
    }
    enter(t);
}

fn record(t: &mut TCtl, preempted: bool) {
    let q = s();
    let n = if preempted { t.slice_run.min(u32::MAX as u64) as u32 } else { 0 };
    q.inter_hash = mix(q.inter_hash, (t.tid as u64) << 40 | t.slice_run);
    if q.slices.len() < 200_000 {
        q.slices.push((t.tid as u8, n));
    }
    t.slice_run = 0;
}

fn enter(t: &mut TCtl) {
    let q = s();
    q.cur = t.tid;
    q.st[t.tid] = St::Ready;
    t.quantum = next_quantum(t.tid);
    t.slice_run = 0;
    t.arm();
}

pub fn start(t: &mut TCtl) {
    gate_wait(t.tid);
    enter(t);
}

/// The thread is finished: passes the baton on for good.
pub fn finish(t: &mut TCtl) {
    account(t);
    let q = s();
    q.st[t.tid] = St::Done;
    record(t, false);
    let next = choose();
    gate_open(next);
}

fn next_quantum(tid: usize) -> i64 {
    let q = s();
    let many = q.slices.len() >= MAX_SLICES;
    unsafe {
        seam::SITE_MOD = 0;
        seam::ALLOC_YIELD = false;
        seam::SHARED_PCT = 0;
    }
    if many && !matches!(q.policy, Policy::Fixed(_)) {
        return FAIR;
    }
    match &q.policy {
        Policy::None | Policy::Ops => FAIR,
        Policy::Slices(a, b) => {
            // log-uniform between a and b
            let (la, lb) = ((*a as f64).ln(), (*b as f64).ln());
            let f = q.rng.below(1 << 20) as f64 / (1u64 << 20) as f64;
            ((la + (lb - la) * f).exp() as i64).clamp(*a as i64, *b as i64)
        }
        Policy::Points(v) => {
            while q.point_at < v.len() && v[q.point_at] <= q.steps {
                q.point_at += 1;
            }
            if q.point_at < v.len() {
                ((v[q.point_at] - q.steps) as i64).max(1)
            } else {
                FAIR
            }
        }
        Policy::Sites(m, salt) => {
            unsafe {
                seam::SITE_MOD = *m;
                seam::SITE_SALT = *salt;
            }
            FAIR
        }
        Policy::Shared(pct, salt) => {
            unsafe {
                seam::SHARED_PCT = *pct;
                seam::SHARED_SALT = *salt;
            }
            FAIR
        }
        Policy::Allocs => {
            unsafe { seam::ALLOC_YIELD = true }
            FAIR
        }
        Policy::Fixed(v) => {
            // choose() left fixed_at just past the entry that named us, if one did
            if q.fixed_at > 0 && q.fixed_at <= v.len() && v[q.fixed_at - 1].0 as usize == tid {
                let n = v[q.fixed_at - 1].1;
                if n == 0 {
                    FAIR
                } else {
                    n as i64
                }
            } else {
                FAIR
            }
        }
    }
}

/// Who runs next; jumps the clock when everybody waits for it.
pub fn choose() -> usize {
    let q = s();
    loop {
        for i in 0..q.n {
            match q.st[i] {
                St::Sleeping(u) if u <= q.now_ns => q.st[i] = St::Ready,
                St::Futex { until, .. } if until <= q.now_ns => q.st[i] = St::Ready,
                _ => {}
            }
        }
        let mut ready = [0u8; MAX_T];
        let mut nr = 0;
        for i in 0..q.n {
            if q.st[i] == St::Ready {
                ready[nr] = i as u8;
                nr += 1;
            }
        }
        if nr > 0 {
            if let Policy::Fixed(v) = &q.policy {
                while q.fixed_at < v.len() {
                    let (t, _) = v[q.fixed_at];
                    q.fixed_at += 1;
                    if ready[..nr].contains(&t) {
                        return t as usize;
                    }
                }
                q.fixed_at = v.len() + 1;
                // after the list: the lowest-numbered thread, but turn about if it was just cut
                if nr > 1 {
                    if let Some(p) = ready[..nr].iter().position(|&t| t as usize == q.cur) {
                        return ready[(p + 1) % nr] as usize;
                    }
                }
                return ready[0] as usize;
            }
            let mut k = q.rng.idx(nr);
            if ready[k] as usize == q.cur && nr > 1 && q.rng.pct(75) {
                k = (k + 1 + q.rng.idx(nr - 1)) % nr;
            }
            return ready[k] as usize;
        }
        // nobody ready: let simulated time pass
        let mut soonest = u64::MAX;
        let (mut stalled, mut blocked, mut live) = (0, 0, 0);
        for i in 0..q.n {
            match q.st[i] {
                St::Sleeping(u) => {
                    soonest = soonest.min(u);
                    live += 1
                }
                St::Futex { until, .. } => {
                    soonest = soonest.min(until);
                    blocked += 1;
                    live += 1
                }
                St::Stalled => {
                    stalled += 1;
                    live += 1
                }
                _ => {}
            }
        }
        if live == 0 {
            return MAIN;
        }
        if soonest != u64::MAX {
            // threads that only wait with a timeout for a stalled one are still held up
            q.now_ns = soonest;
            continue;
        }
        if stalled > 0 {
            if blocked > 0 {
                let who: Vec<usize> = (0..q.n).filter(|&i| matches!(q.st[i], St::Futex { .. })).collect();
                give_up(format!("blocked: thread(s) {who:?} wait for a suspended thread"));
            }
            // everybody else has finished: the suspended ones go on
            for i in 0..q.n {
                if q.st[i] == St::Stalled {
                    q.st[i] = St::Ready;
                }
            }
            q.now_ns = q.now_ns.saturating_add(3_600_000_000_000);
            continue;
        }
        let who: Vec<usize> = (0..q.n).filter(|&i| matches!(q.st[i], St::Futex { .. })).collect();
        give_up(format!("deadlock: thread(s) {who:?} wait for each other"));
    }
}
