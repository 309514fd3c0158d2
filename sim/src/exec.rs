//! Runs one plan in a forked child of a process that has never called the parser, so every run
//! starts from fresh statics, and reports through shared memory.
use crate::plan::{Buf, Keep, Plan};
use crate::rng::{mix, Rng};
use crate::sched::{self, Policy, St};
use crate::seam::{self, OomMarker, TCtl, CUR};
use crate::sys;
use std::any::Any;
use std::fmt::Write;
use trees::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

/// What a call answered.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Ans {
    pub kind: u8, // O accepted, E error, F failure, I wants more, P panicked, M out of memory
    pub off: u32, // where the remainder or the error lies; u32::MAX: outside the text
    pub len: u32, // its length
    pub code: u32,
    pub tree: u64,
}
impl Ans {
    pub fn show(&self) -> String {
        let pos = if self.off == u32::MAX { "OUTSIDE THE TEXT".to_string() } else { format!("{}+{}", self.off, self.len) };
        match self.kind {
            b'O' => format!("accepted, rest at {pos}, tree #{:016x}", self.tree),
            b'E' => format!("error {} at {pos}", self.code),
            b'F' => format!("failure {} at {pos}", self.code),
            b'I' => "asks for more input".into(),
            b'P' => "panic".into(),
            b'M' => "out of memory".into(),
            _ => "none".into(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct OpRes {
    pub client: u32,
    pub op: u32,
    pub ans: Ans,
    pub steps: u64,
    pub allocs: u32,
    pub bytes: u64,
    pub peak: i64,
    pub stack: u32,
    pub oom_fired: u32,
    pub shared: Vec<u32>, // steps at which it touched memory others can reach
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub died: Option<(i32, u32, u32)>, // signal, client, op
    pub timed_out: bool,
    pub fail: Option<String>,
    pub res: Vec<OpRes>,
    pub bad: Vec<(u32, u32, u32, Ans, String)>, // client, op, repetition, answer, what (mismatch / tree changed)
    pub lives: Vec<i64>,
    pub slices: Vec<(u8, u32)>,
    pub steps: u64,
    pub sim_ns: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub blocks: u64,
    pub inter: u64,
    pub effects: Vec<(String, u32)>,
    pub n_effects: u64,
    pub ambient: [u32; 8],
    pub failed_calls: u64,
    pub ooms: u64,
    pub overwritten: u64,
    pub late: u64,
    pub jumps: u64,
    pub ops_done: u64,
    pub arena_peak: i64,
    pub shown: String,
    pub seccomp: bool,
    pub shared: u64,
    pub acts: u64,
}

impl Outcome {
    /// Everything the run reported, in one number.
    pub fn digest(&self) -> u64 {
        let s = format!(
            "{:?}{:?}{:?}{:?}{:?}{:?}{}{}{}{}{}{}",
            self.died, self.fail, self.res, self.bad, self.lives, self.slices, self.steps, self.sim_ns, self.inter,
            self.arena_peak, self.ops_done, self.n_effects
        );
        crate::rng::hash_bytes(s.as_bytes())
    }
}

pub type Expect = Vec<Vec<Option<Ans>>>;

// ---------------------------------------------------------------- trees
pub trait Tree {
    fn hash(&self) -> u64;
    fn text(&self, cap: usize) -> String;
    fn dup(&self) -> Box<dyn Tree>;
    fn same(&self, other: &dyn Tree) -> bool;
    fn print(&self) -> String;
    fn any(&self) -> &dyn Any;
    fn free(self: Box<Self>);
}
struct HashW(u64, u64, u32);
/// This round's name, which counts as the mark it stands for.
static mut FRESH: Option<String> = None;
impl Write for HashW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if let Some(m) = unsafe { &*std::ptr::addr_of!(FRESH) } {
            if s.contains(m.as_str()) {
                self.put(&s.replace(m.as_str(), crate::plan::MARK));
                return Ok(());
            }
        }
        self.put(s);
        Ok(())
    }
}
impl HashW {
    fn put(&mut self, s: &str) {
        for &b in s.as_bytes() {
            self.1 = self.1 << 8 | b as u64;
            self.2 += 1;
            if self.2 & 7 == 0 {
                self.0 = mix(self.0, self.1);
                self.1 = 0;
            }
        }
    }
}
struct CapW(String, usize);
impl Write for CapW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() < self.1 {
            self.0.push_str(s);
        }
        Ok(())
    }
}
impl<T: Value> Tree for T {
    fn hash(&self) -> u64 {
        let mut h = HashW(1, 0, 0);
        let _ = write!(h, "{:?}", self);
        mix(mix(h.0, h.1), h.2 as u64)
    }
    fn text(&self, cap: usize) -> String {
        let mut c = CapW(String::new(), cap);
        let _ = write!(c, "{:?}", self);
        c.0
    }
    fn dup(&self) -> Box<dyn Tree> {
        Box::new(self.copy())
    }
    fn same(&self, other: &dyn Tree) -> bool {
        other.any().downcast_ref::<T>().map_or(false, |o| Value::same(self, o))
    }
    fn print(&self) -> String {
        Value::print(self)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn free(self: Box<Self>) {
        Value::free(*self)
    }
}

fn pos(text: &str, p: &str) -> (u32, u32) {
    let (a, b) = (text.as_ptr() as usize, p.as_ptr() as usize);
    if b >= a && b + p.len() == a + text.len() {
        ((b - a) as u32, p.len() as u32)
    } else {
        (u32::MAX, p.len() as u32)
    }
}

type Got = (Ans, Option<Box<dyn Tree>>);

fn classify<T: Value>(
    t: &TCtl,
    text: &str,
    r: Result<nom::IResult<&str, T>, Box<dyn Any + Send>>,
) -> Got {
    let mut a = Ans::default();
    match r {
        Ok(Ok((rest, tree))) => {
            a.kind = b'O';
            let (o, l) = pos(text, rest);
            a.off = o;
            a.len = l;
            a.tree = tree.hash();
            (a, Some(Box::new(tree)))
        }
        Ok(Err(e)) => {
            match e {
                nom::Err::Incomplete(_) => a.kind = b'I',
                nom::Err::Error((p, k)) => {
                    a.kind = b'E';
                    let (o, l) = pos(text, p);
                    a.off = o;
                    a.len = l;
                    a.code = kind_code(k);
                }
                nom::Err::Failure((p, k)) => {
                    a.kind = b'F';
                    let (o, l) = pos(text, p);
                    a.off = o;
                    a.len = l;
                    a.code = kind_code(k);
                }
            }
            (a, None)
        }
        Err(p) => {
            if p.downcast_ref::<OomMarker>().is_some() {
                a.kind = b'M';
            } else {
                a.kind = b'P';
                a.tree = crate::rng::hash_bytes(&t.panic_msg[..t.panic_len]);
            }
            drop(p);
            (a, None)
        }
    }
}
fn kind_code(k: nom::error::ErrorKind) -> u32 {
    k as u32
}

/// One call of the code under test.  Everything between the two `CUR` settings is inside.
pub fn call(t: &mut TCtl, entry: u8, text: &'static str) -> Got {
    use nom_sparql::{parser, query, sim};
    t.panic_len = 0;
    let tp: *mut TCtl = t;
    macro_rules! go {
        ($f:expr) => {{
            let f = $f;
            unsafe { (*tp).watch = (*tp).sched };
            CUR.set(tp);
            let modes = seam::modes(false);
            let r = catch_unwind(AssertUnwindSafe(|| f(text)));
            CUR.set(null_mut());
            seam::check_modes(modes, false);
            unsafe { (*tp).watch = false };
            unsafe { (*tp).settle() };
            classify(unsafe { &*tp }, text, r)
        }};
    }
    match entry {
        0 => go!(parser::sparql_query_stmt),
        1 => go!(parser::sparql_query),
        2 => go!(query::ask::ask_query),
        3 => go!(query::construct::construct_query),
        4 => go!(query::describe::describe_query),
        5 => go!(query::construct::sub_construct),
        6 => go!(query::construct::sub_triples),
        7 => go!(sim::update),
        8 => go!(sim::add_stmt),
        _ => go!(sim::move_stmt),
    }
}

/// The call made from below `kb` KiB of the caller's own frames.
#[inline(never)]
fn deeper(kb: u32, t: &mut TCtl, entry: u8, text: &'static str) -> Got {
    if kb == 0 {
        return call(t, entry, text);
    }
    let pad = [0u8; 1024];
    std::hint::black_box(&pad);
    let g = deeper(kb - 1, t, entry, text);
    std::hint::black_box(&pad);
    g
}

/// The call made by a destructor while the caller unwinds from a panic of its own.
fn while_unwinding(f: impl FnOnce() -> Got) -> Got {
    struct OnDrop<'a, F: FnOnce() -> Got>(Option<F>, &'a mut Option<Got>);
    impl<F: FnOnce() -> Got> Drop for OnDrop<'_, F> {
        fn drop(&mut self) {
            *self.1 = Some((self.0.take().unwrap())());
        }
    }
    let mut got = None;
    let out = &mut got;
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _call = OnDrop(Some(f), out);
        std::panic::resume_unwind(Box::new(0u8));
    }));
    got.unwrap()
}

/// Calls a thread makes after its thread-local values are gone: this one, registered before
/// the first parse, is destroyed last.
struct Late(Option<Box<dyn FnOnce()>>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! {
    static LATE: std::cell::RefCell<Late> = const { std::cell::RefCell::new(Late(None)) };
}
fn late_calls(p: &Plan, me: usize, exp: &Expect, limits: &[Vec<u64>], o: Opts, phase: u32) {
    let mut t = TCtl::new(me);
    for (k, op) in p.clients[me].ops.iter().enumerate() {
        if op.moment != 2 {
            continue;
        }
        let s = op.delivered();
        let b = seam::arena_block(s.len().max(1));
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len()) };
        let text: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(b, s.len())) };
        t.op_index = k;
        t.op_steps = 0;
        t.allocs = 0;
        t.live = 0;
        t.oom = op.oom;
        t.oom_fired = 0;
        t.op_limit = limits.get(me).and_then(|v| v.get(k)).copied().unwrap_or(o.limit);
        unsafe {
            *hdr(2) = me as u64;
            *hdr(3) = k as u64;
        }
        t.arm();
        let (ans, tree) = call(&mut t, op.entry, text);
        t.oom = [0; 4];
        t.op_limit = u64::MAX;
        t.op_steps = 0;
        t.arm();
        let r = run();
        r.out.ops_done += 1;
        r.out.ooms += t.oom_fired as u64;
        if let Some(Some(e)) = exp.get(me).and_then(|v| v.get(k)) {
            if *e != ans && !(ans.kind == b'M' && t.oom_fired > 0) && r.out.bad.len() < 12 {
                let what = tree.as_ref().map_or_else(
                    || String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned(),
                    |x| x.text(600),
                );
                r.out.bad.push((me as u32, k as u32, phase, ans, what));
            }
        }
        if let Some(tree) = tree {
            inside(&mut t, move || tree.free());
        }
        seam::arena_release(b, s.len().max(1));
    }
}

/// Runs a piece of the code under test that is not a parse (clone, drop).
fn inside<R>(t: &mut TCtl, f: impl FnOnce() -> R) -> R {
    let tp: *mut TCtl = t;
    CUR.set(tp);
    let r = f();
    CUR.set(null_mut());
    unsafe { (*tp).settle() };
    r
}

// ---------------------------------------------------------------- report
pub struct Shm {
    pub at: *mut u8,
    pub cap: usize,
}
/// header: [0] length, [1] done flag, [2] current client, [3] current op
pub const HDR: usize = 64;
static mut REPORT: Shm = Shm { at: null_mut(), cap: 0 };

pub fn report_map(cap: usize) {
    unsafe {
        REPORT = Shm { at: sys::map(0, cap, true), cap };
    }
}
fn hdr(i: usize) -> *mut u64 {
    unsafe { (REPORT.at as *mut u64).add(i) }
}
pub struct W(Vec<u8>);
impl W {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
    }
}
struct R<'a>(&'a [u8], usize);
impl R<'_> {
    fn u(&mut self) -> u64 {
        if self.1 + 8 > self.0.len() {
            return 0;
        }
        let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        v
    }
    fn s(&mut self) -> String {
        let n = (self.u() as usize).min(self.0.len() - self.1);
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + n]).into_owned();
        self.1 += n;
        s
    }
}
fn put_ans(w: &mut W, a: &Ans) {
    w.u(a.kind as u64);
    w.u(a.off as u64);
    w.u(a.len as u64);
    w.u(a.code as u64);
    w.u(a.tree);
}
fn get_ans(r: &mut R) -> Ans {
    Ans { kind: r.u() as u8, off: r.u() as u32, len: r.u() as u32, code: r.u() as u32, tree: r.u() }
}

/// State of the run, in the child; touched only by the baton holder.
struct Run {
    out: Outcome,
    want_res: bool,
    shared: Vec<(String, *mut u8)>,
    elsewhere: Vec<(Option<Box<dyn Tree>>, u64, u32, u32)>,
    want_shown: bool,
    shelf: Vec<Shelved>,
}
/// An answer anyone may use.
struct Shelved {
    tree: Box<dyn Tree>,
    hash: u64,
    text: u64,
    uses: u32, // clients in the middle of using it
    client: u32,
    op: u32,
}
pub const SHELF: usize = 10;
static mut RUN: Option<Run> = None;
fn run() -> &'static mut Run {
    unsafe { (*std::ptr::addr_of_mut!(RUN)).as_mut().unwrap() }
}

/// Writes what is known and ends the child.
pub fn bail() -> ! {
    CUR.set(null_mut());
    let o = &mut run().out;
    let q = sched::s();
    o.fail = q.fail.clone();
    o.slices = std::mem::take(&mut q.slices);
    o.steps = q.steps;
    o.sim_ns = q.now_ns;
    o.preemptions = q.preemptions;
    o.stalls = q.stalls_fired;
    o.blocks = q.blocks;
    o.inter = q.inter_hash;
    let mut w = W(Vec::with_capacity(4096));
    unsafe {
        o.n_effects = seam::N_EFFECTS as u64;
        for i in 0..seam::N_EFFECTS.min(seam::MAX_EFF) {
            if let Some((n, t)) = seam::EFFECTS[i] {
                o.effects.push((n.to_string(), t as u32));
            }
        }
        o.ambient = seam::SEEN_AMBIENT;
        o.failed_calls = seam::FAILED_CALLS;
        o.shared = seam::SHARED_HITS;
        o.arena_peak = seam::ARENA.peak;
        if seam::WORLD.jump_every > 0 {
            o.jumps = (seam::CLOCK_READS / seam::WORLD.jump_every) as u64;
        }
    }
    w.s(o.fail.as_deref().unwrap_or(""));
    w.u(o.res.len() as u64);
    for r in &o.res {
        w.u((r.client as u64) << 32 | r.op as u64);
        put_ans(&mut w, &r.ans);
        w.u(r.steps);
        w.u((r.allocs as u64) << 32 | r.stack as u64);
        w.u(r.bytes);
        w.u(r.peak as u64);
        w.u((r.shared.len() as u64) << 32 | r.oom_fired as u64);
        for x in &r.shared {
            w.u(*x as u64);
        }
    }
    w.u(o.bad.len() as u64);
    for (a, b, c, d, e) in &o.bad {
        w.u(*a as u64);
        w.u(*b as u64);
        w.u(*c as u64);
        put_ans(&mut w, d);
        w.s(e);
    }
    w.u(o.lives.len() as u64);
    for l in &o.lives {
        w.u(*l as u64);
    }
    w.u(o.slices.len() as u64);
    for (a, b) in &o.slices {
        w.u((*a as u64) << 32 | *b as u64);
    }
    for v in [o.steps, o.sim_ns, o.preemptions, o.stalls, o.blocks, o.inter, o.n_effects] {
        w.u(v);
    }
    w.u(o.effects.len() as u64);
    for (n, t) in &o.effects {
        w.s(n);
        w.u(*t as u64);
    }
    for a in o.ambient {
        w.u(a as u64);
    }
    for v in [o.failed_calls, o.ooms, o.overwritten, o.late, o.jumps, o.ops_done, o.arena_peak as u64, o.seccomp as u64, o.shared, o.acts] {
        w.u(v);
    }
    w.s(&o.shown);
    unsafe {
        let n = w.0.len();
        if n + HDR > REPORT.cap {
            sys::exit_now(4);
        }
        std::ptr::copy_nonoverlapping(w.0.as_ptr(), REPORT.at.add(HDR), n);
        *hdr(0) = n as u64;
        *hdr(1) = 1;
    }
    sys::exit_now(0);
}

fn parse_report() -> Outcome {
    let mut o = Outcome::default();
    let n = unsafe { *hdr(0) } as usize;
    let bytes = unsafe { std::slice::from_raw_parts(REPORT.at.add(HDR), n) };
    let mut r = R(bytes, 0);
    let f = r.s();
    if !f.is_empty() {
        o.fail = Some(f);
    }
    for _ in 0..r.u() {
        let co = r.u();
        let ans = get_ans(&mut r);
        let steps = r.u();
        let al = r.u();
        o.res.push(OpRes {
            client: (co >> 32) as u32,
            op: co as u32,
            ans,
            steps,
            allocs: (al >> 32) as u32,
            stack: al as u32,
            bytes: r.u(),
            peak: r.u() as i64,
            ..Default::default()
        });
        let x = o.res.last_mut().unwrap();
        let f = r.u();
        x.oom_fired = f as u32;
        for _ in 0..f >> 32 {
            x.shared.push(r.u() as u32);
        }
    }
    for _ in 0..r.u() {
        let (a, b, c) = (r.u() as u32, r.u() as u32, r.u() as u32);
        let d = get_ans(&mut r);
        let e = r.s();
        o.bad.push((a, b, c, d, e));
    }
    for _ in 0..r.u() {
        let v = r.u() as i64;
        o.lives.push(v);
    }
    for _ in 0..r.u() {
        let v = r.u();
        o.slices.push(((v >> 32) as u8, v as u32));
    }
    o.steps = r.u();
    o.sim_ns = r.u();
    o.preemptions = r.u();
    o.stalls = r.u();
    o.blocks = r.u();
    o.inter = r.u();
    o.n_effects = r.u();
    for _ in 0..r.u() {
        let n = r.s();
        let t = r.u() as u32;
        o.effects.push((n, t));
    }
    for i in 0..8 {
        o.ambient[i] = r.u() as u32;
    }
    o.failed_calls = r.u();
    o.ooms = r.u();
    o.overwritten = r.u();
    o.late = r.u();
    o.jumps = r.u();
    o.ops_done = r.u();
    o.arena_peak = r.u() as i64;
    o.seccomp = r.u() == 1;
    o.shared = r.u();
    o.acts = r.u();
    o.shown = r.s();
    o
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// step limit of an operation whose alone-steps are unknown
    pub limit: u64,
    pub want_res: bool,
    pub want_shown: bool,
    /// kill the child on any real system call a parse has no business making
    pub seccomp: bool,
    pub mem_cap: usize,
}
impl Opts {
    pub const fn plain() -> Opts {
        Opts { limit: 60_000_000, want_res: true, want_shown: false, seccomp: false, mem_cap: 1 << 30 }
    }
}

/// Runs the plan in a forked child and returns what it reported.
pub fn run_plan(p: &Plan, exp: &Expect, limits: &[Vec<u64>], o: Opts) -> Outcome {
    unsafe {
        *hdr(0) = 0;
        *hdr(1) = 0;
        *hdr(2) = 0;
        *hdr(3) = 0;
        let pid = sys::fork();
        if pid < 0 {
            eprintln!("harness: fork failed");
            sys::exit_now(3);
        }
        if pid == 0 {
            sys::die_with_parent();
            sys::backstop(120);
            child(p, exp, limits, o);
        }
        match sys::wait_child(pid) {
            sys::Exit::Code(0) if *hdr(1) == 1 => parse_report(),
            sys::Exit::Code(4) => {
                eprintln!("harness: report too long");
                sys::exit_now(3);
            }
            sys::Exit::Code(3) => sys::exit_now(3),
            sys::Exit::Code(c) => Outcome { died: Some((1000 + c, *hdr(2) as u32, *hdr(3) as u32)), ..Default::default() },
            sys::Exit::Signal(s) => Outcome { died: Some((s, *hdr(2) as u32, *hdr(3) as u32)), ..Default::default() },
            sys::Exit::TimedOut => Outcome { timed_out: true, ..Default::default() },
        }
    }
}

fn child(p: &Plan, exp: &Expect, limits: &[Vec<u64>], o: Opts) -> ! {
    sys::no_core();
    sys::default_signals();
    unsafe {
        // ambient conditions
        seam::WORLD = p.world.clone();
        seam::set_environ();
        sys::own_counter(seam::counter);
        let a = &mut *std::ptr::addr_of_mut!(seam::ARENA);
        a.reuse = p.reuse;
        a.pad = p.pad;
        a.salt = p.salt;
        a.fill = p.fill;
        a.bump = a.base + (p.base_off as usize) * 16;
        a.end = a.base + o.mem_cap;
        RUN = Some(Run {
            out: Outcome::default(),
            want_res: o.want_res,
            shared: vec![],
            elsewhere: vec![],
            want_shown: o.want_shown,
            shelf: vec![],
        });
    }
    for _ in 0..p.spare_threads {
        let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).map(|h| h.join());
    }
    // one copy of every text that clients share
    for c in &p.clients {
        for op in &c.ops {
            if op.buf == Buf::Shared {
                let s = op.delivered();
                if !run().shared.iter().any(|x| x.0 == s) {
                    let b = seam::arena_block(s.len().max(1));
                    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len()) };
                    run().shared.push((s, b));
                }
            }
        }
    }
    let q = sched::s();
    q.rng = Rng::new(mix(p.seed, 0xC0FFEE));
    q.policy = p.policy.clone();
    q.n = p.clients.len();
    q.on = true;
    if let Policy::Fixed(_) = q.policy {
        q.fixed_at = 0;
    }
    seam::note_settings();
    let base_live = unsafe { seam::ARENA.live };
    for phase in 0..p.phases.max(1) {
        let t0 = q.now_ns;
        for (i, c) in p.clients.iter().enumerate() {
            q.st[i] = if c.start_ns == 0 { St::Ready } else { St::Sleeping(t0 + c.start_ns) };
        }
        let mut hs = vec![];
        let pp = p as *const Plan as usize;
        let ee = exp as *const Expect as usize;
        let ll = limits.as_ptr() as usize;
        let ln = limits.len();
        for (i, c) in p.clients.iter().enumerate() {
            let mut b = std::thread::Builder::new().stack_size((c.stack_kb as usize) << 10);
            if let Some(n) = &c.name {
                b = b.name(n.replace('\0', ""));
            }
            let h = b.spawn(move || {
                let p = unsafe { &*(pp as *const Plan) };
                let e = unsafe { &*(ee as *const Expect) };
                let l = unsafe { std::slice::from_raw_parts(ll as *const Vec<u64>, ln) };
                if p.clients[i].ops.iter().any(|x| x.moment == 2) {
                    LATE.with(|x| x.borrow_mut().0 = Some(Box::new(move || late_calls(p, i, e, l, o, phase))));
                }
                client(p, i, e, l, o, phase);
            });
            match h {
                Ok(h) => hs.push(h),
                Err(e) => {
                    eprintln!("harness: thread: {e}");
                    sys::exit_now(3);
                }
            }
        }
        let first = sched::choose();
        sched::gate_open(first);
        sched::gate_wait(sched::MAIN);
        // threads end one at a time: their thread-local destructors are part of the run
        for (i, h) in hs.into_iter().enumerate() {
            sched::gate_open(i);
            if h.join().is_err() {
                eprintln!("harness: client thread panicked");
                sys::exit_now(3);
            }
        }
        // answers handed to another thread: looked at and dropped here
        let mut t = TCtl::new(90);
        let list = std::mem::take(&mut run().elsewhere);
        for (tree, h, c, op) in list {
            if let Some(tree) = tree {
                if tree.hash() != h {
                    let a = Ans { kind: b'O', tree: tree.hash(), ..Default::default() };
                    run().out.bad.push((c, op, 0, a, "a kept tree changed".into()));
                }
                run().out.late += 1;
                inside(&mut t, move || tree.free());
            }
        }
        for h in run().shelf.drain(..) {
            let old = Held { hash: h.hash, tree: h.tree, op: h.op as usize };
            check_held(&old, h.client as usize);
            inside(&mut t, move || old.tree.free());
        }
        // anything the parser left in a standard stream's buffer comes out now
        inside(&mut t, || {
            use std::io::Write as _;
            let _ = std::io::stdout().flush();
        });
        seam::check_panic_hook();
        seam::check_settings();
        unsafe {
            let l = seam::ARENA.live - base_live;
            // a repeating client's rounds are weighed while its thread still has what is its own
            if p.clients.len() != 1 || p.reps < 2 {
                run().out.lives.push(l);
            }
        }
    }
    bail()
}

struct Held {
    tree: Box<dyn Tree>,
    hash: u64,
    op: usize,
}

fn client(p: &Plan, me: usize, exp: &Expect, limits: &[Vec<u64>], o: Opts, phase: u32) {
    let mut t = TCtl::new(me);
    t.sched = true;
    sched::start(&mut t);
    let modes = seam::modes(true);
    if o.seccomp {
        run().out.seccomp = sys::seccomp_quiet();
    }
    let c = &p.clients[me];
    let texts: Vec<Option<String>> =
        if c.ops.len() * (p.reps as usize) <= 64 || p.reps == 1 { vec![] } else { c.ops.iter().map(|x| Some(x.delivered())).collect() };
    let mut slot: *mut u8 = null_mut();
    let mut slot_cap = 0usize;
    let mut later: Option<Held> = None;
    let mut held: Vec<Held> = vec![];
    let n_reps = p.reps.max(1);
    for rep in 0..n_reps {
        for (k, op) in c.ops.iter().enumerate() {
            if op.moment == 2 {
                continue;
            }
            t.op_index = k;
            if op.gap_ns > 0 {
                sched::pause(&mut t, op.gap_ns);
            }
            sched::boundary(&mut t);
            // the text arrives
            let owned;
            let s: &str = match texts.get(k) {
                _ if p.fresh => {
                    let round = rep + phase * n_reps;
                    owned = crate::plan::freshen(&op.delivered(), round);
                    unsafe { FRESH = Some(crate::plan::mark(round)) };
                    &owned
                }
                Some(Some(s)) => s,
                _ => {
                    owned = op.delivered();
                    &owned
                }
            };
            let mut block: *mut u8 = null_mut();
            let mut guard: *mut u8 = null_mut();
            let (ptr, fresh) = match op.buf {
                Buf::Shared => (run().shared.iter().find(|x| x.0 == s).map_or(null_mut(), |x| x.1), 0usize),
                Buf::Slot => {
                    if slot_cap < s.len() || slot_cap == 0 {
                        if slot_cap > 0 {
                            seam::arena_release(slot, slot_cap);
                        }
                        slot_cap = (s.len() + 64).next_power_of_two().max(512);
                        slot = seam::arena_block(slot_cap);
                    }
                    (slot, 0)
                }
                Buf::Fresh(al) => {
                    let n = s.len() + al as usize;
                    block = seam::arena_block(n.max(1));
                    (unsafe { block.add(al as usize) }, n.max(1))
                }
                Buf::Page(off, shift) => {
                    // byte `off` of the text is the first of a page
                    let page = 1usize << shift.clamp(3, 16);
                    let off = (off as usize).min(s.len());
                    let n = s.len() + 2 * page;
                    block = seam::arena_block(n);
                    let at = block as usize + off;
                    let up = at.div_ceil(page) * page - at;
                    (unsafe { block.add(up) }, n)
                }
                Buf::Edge => {
                    // what follows the text cannot be read
                    let page = 4096usize;
                    let n = s.len() + 3 * page;
                    block = seam::arena_block(n);
                    let end = (block as usize + s.len()).div_ceil(page) * page;
                    if !o.seccomp {
                        guard = end as *mut u8;
                        sys::no_access(guard, page, true);
                    }
                    ((end - s.len()) as *mut u8, n)
                }
            };
            let shared_ok = op.buf == Buf::Shared && !ptr.is_null();
            if !shared_ok {
                unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), ptr, s.len()) };
            }
            let text: &'static str =
                unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(ptr, s.len())) };
            // the call
            t.op_steps = 0;
            t.allocs = 0;
            t.bytes = 0;
            t.live = 0;
            t.peak = 0;
            t.oom = op.oom;
            t.oom_fired = 0;
            t.n_shared = 0;
            t.stall_at = op.stall_at;
            t.op_limit = limits.get(me).and_then(|v| v.get(k)).copied().unwrap_or(o.limit);
            let here = 0u8;
            t.stack_base = &here as *const u8 as usize;
            t.stack_low = t.stack_base;
            unsafe {
                *hdr(2) = me as u64;
                *hdr(3) = k as u64;
            }
            t.arm();
            let (ans, tree) = if op.moment == 1 {
                while_unwinding(|| deeper(op.depth, &mut t, op.entry, text))
            } else {
                deeper(op.depth, &mut t, op.entry, text)
            };
            let oom_fired = t.oom_fired;
            t.oom = [0; 4];
            t.stall_at = 0;
            let r = run();
            r.out.ops_done += 1;
            r.out.ooms += oom_fired as u64;
            let (steps, allocs, bytes, peak) = (t.op_steps, t.allocs, t.bytes, t.peak);
            // compare
            if let Some(Some(e)) = exp.get(me).and_then(|v| v.get(k)) {
                if *e != ans && !(ans.kind == b'M' && oom_fired > 0) && r.out.bad.len() < 12 {
                    let what = tree.as_ref().map_or_else(
                        || String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned(),
                        |x| x.text(600),
                    );
                    r.out.bad.push((me as u32, k as u32, rep + phase * n_reps, ans, what));
                }
            }
            if r.want_shown && r.out.shown.is_empty() {
                r.out.shown = tree.as_ref().map_or_else(
                    || String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned(),
                    |x| x.text(600),
                );
            }
            // the buffer goes away or is about to be overwritten
            if fresh > 0 {
                if !guard.is_null() {
                    sys::no_access(guard, 4096, false);
                }
                seam::arena_release(block, fresh);
                r.out.overwritten += 1;
            } else if op.buf == Buf::Slot {
                unsafe { std::ptr::write_bytes(slot, b'~', s.len()) };
                r.out.overwritten += 1;
            }
            t.op_limit = u64::MAX;
            t.op_steps = 0;
            t.arm();
            // the answer
            if let Some(tree) = tree {
                let h = Held { hash: ans.tree, tree, op: k };
                match op.keep {
                    Keep::Drop => inside(&mut t, move || h.tree.free()),
                    Keep::Later => {
                        r.out.late += 1;
                        if let Some(old) = later.replace(h) {
                            check_held(&old, me);
                            inside(&mut t, move || old.tree.free());
                        }
                    }
                    Keep::End => held.push(h),
                    Keep::Forever => {
                        if held.len() < 64 {
                            held.push(h)
                        } else {
                            inside(&mut t, move || h.tree.free())
                        }
                    }
                    Keep::Elsewhere => run().elsewhere.push((Some(h.tree), h.hash, me as u32, k as u32)),
                    Keep::Shelf => {
                        let text = mix(crate::rng::hash_bytes(s.as_bytes()), op.entry as u64);
                        let sh = Shelved { tree: h.tree, hash: h.hash, text, uses: 0, client: me as u32, op: k as u32 };
                        let shelf = &mut run().shelf;
                        if shelf.len() < SHELF {
                            shelf.push(sh);
                        } else {
                            let at = (me * 7 + k * 3) % SHELF;
                            if let Some(at) = (0..SHELF).map(|i| (at + i) % SHELF).find(|&i| shelf[i].uses == 0) {
                                let old = std::mem::replace(&mut shelf[at], sh);
                                let from = old.client as usize;
                                let old = Held { hash: old.hash, tree: old.tree, op: old.op as usize };
                                check_held(&old, from);
                                inside(&mut t, move || old.tree.free());
                            } else {
                                held.push(Held { hash: sh.hash, tree: sh.tree, op: k });
                            }
                        }
                    }
                    Keep::Clone => {
                        let d = inside(&mut t, || h.tree.dup());
                        let hd = Held { hash: h.hash, tree: d, op: k };
                        inside(&mut t, move || h.tree.free());
                        held.push(hd);
                    }
                }
            }
            for a in &op.acts {
                if let Some(h) = use_answer(&mut t, me, k, a) {
                    held.push(h);
                }
            }
            let r = run();
            if r.want_res && rep == 0 && phase == 0 {
                let stack = t.stack_base.saturating_sub(t.stack_low) as u32;
                r.out.res.push(OpRes {
                    client: me as u32,
                    op: k as u32,
                    ans,
                    steps,
                    allocs,
                    bytes,
                    peak,
                    stack,
                    oom_fired,
                    shared: t.shared_at[..t.n_shared.min(24)].to_vec(),
                });
            }
        }
        // end of a repetition
        if n_reps > 1 {
            if let Some(old) = later.take() {
                check_held(&old, me);
                inside(&mut t, move || old.tree.free());
            }
            for h in held.drain(..) {
                check_held(&h, me);
                inside(&mut t, move || h.tree.free());
            }
            if p.clients.len() == 1 {
                let list = std::mem::take(&mut run().elsewhere);
                for (tree, h, c, op) in list {
                    if let Some(tree) = tree {
                        check_held(&Held { hash: h, tree, op: op as usize }, c as usize);
                    }
                }
            }
            if p.clients.len() == 1 && (n_reps <= 64 || rep < 4 || rep % (n_reps / 32).max(1) == 0 || rep == n_reps - 1) {
                let l = unsafe { seam::ARENA.live };
                run().out.lives.push(l);
            }
        }
    }
    if let Some(old) = later.take() {
        check_held(&old, me);
        inside(&mut t, move || old.tree.free());
    }
    for h in held.drain(..) {
        check_held(&h, me);
        run().out.late += 1;
        inside(&mut t, move || h.tree.free());
    }
    seam::check_modes(modes, true);
    if slot_cap > 0 {
        seam::arena_release(slot, slot_cap);
    }
    sched::finish(&mut t);
    // wait for the turn to run thread-local destructors
    sched::gate_wait(me);
}

/// A piece of the code under test, run where other threads may interrupt it.
fn guarded<R>(t: &mut TCtl, oom: u32, f: impl FnOnce() -> R) -> Result<R, (u8, String, i64)> {
    t.op_steps = 0;
    t.op_limit = 20_000_000;
    t.allocs = 0;
    t.live = 0;
    t.oom = [oom, 0, 0, 0];
    t.oom_fired = 0;
    t.panic_len = 0;
    t.arm();
    let tp: *mut TCtl = t;
    unsafe { (*tp).watch = (*tp).sched };
    CUR.set(tp);
    let r = catch_unwind(AssertUnwindSafe(f));
    CUR.set(null_mut());
    unsafe { (*tp).watch = false };
    unsafe { (*tp).settle() };
    let fired = t.oom_fired;
    t.oom = [0; 4];
    t.op_limit = u64::MAX;
    t.op_steps = 0;
    t.arm();
    run().out.ooms += fired as u64;
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let kind = if fired > 0 && p.downcast_ref::<OomMarker>().is_some() { b'M' } else { b'P' };
            drop(p);
            let live = t.live;
            Err((kind, String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned(), live))
        }
    }
}

/// One use of an answer on the shelf; gives back a copy the client keeps.
fn use_answer(t: &mut TCtl, me: usize, k: usize, act: &crate::plan::Act) -> Option<Held> {
    use crate::plan::What;
    let n = run().shelf.len();
    if n == 0 {
        return None;
    }
    // which one it is stays fixed while it is in use: nothing in use is replaced or removed
    let find = |tree: &dyn Tree| {
        let at = tree as *const dyn Tree;
        run().shelf.iter().position(|x| std::ptr::addr_eq(&*x.tree as *const dyn Tree, at))
    };
    let (a, b) = (act.a as usize % n, act.b as usize % n);
    let x: &'static Shelved = unsafe { &*(&run().shelf[a] as *const Shelved) };
    let y: &'static Shelved = unsafe { &*(&run().shelf[b] as *const Shelved) };
    let (tx, ty): (&'static dyn Tree, &'static dyn Tree) = unsafe { (&*(&*x.tree as *const dyn Tree), &*(&*y.tree as *const dyn Tree)) };
    let (hx, hy, texts, types) = (x.hash, y.hash, x.text == y.text, tx.any().type_id() == ty.any().type_id());
    let (ox, cx) = (x.op, x.client);
    let r = run();
    r.out.acts += 1;
    let complain = |what: String, hash: u64, show: &dyn Tree| {
        let r = run();
        if r.out.bad.len() < 12 {
            let a = Ans { kind: b'O', tree: hash, ..Default::default() };
            r.out.bad.push((cx, ox, 0, a, format!("value: {what} (client {me} after its operation {k}): {}", show.text(300))));
        }
    };
    let failed = |what: &str, e: (u8, String, i64)| {
        if e.0 == b'P' {
            complain(format!("{what} panicked: {}", e.1), 0, tx);
        } else if e.2 != 0 {
            complain(format!("{what} that ran out of memory kept {} bytes", e.2), 0, tx);
        }
        if tx.hash() != hx {
            complain(format!("{what} that failed changed the answer"), tx.hash(), tx);
        }
    };
    r.shelf[a].uses += 1;
    r.shelf[b].uses += 1;
    let done = |tree: &'static dyn Tree| {
        if let Some(i) = find(tree) {
            run().shelf[i].uses -= 1;
        }
    };
    let mut keep = None;
    let mut remove = false;
    let mut swap: Option<Box<dyn Tree>> = None;
    match act.what {
        What::Copy | What::Swap | What::Nest => match guarded(t, act.oom, || {
            let d = tx.dup();
            if act.what == What::Nest {
                d.dup()
            } else {
                d
            }
        }) {
            Ok(d) => {
                let h = d.hash();
                if h != hx {
                    complain(format!("a copy says something else: {}", d.text(200)), h, tx);
                }
                if act.what == What::Swap {
                    swap = Some(d);
                } else {
                    keep = Some(Held { hash: hx, tree: d, op: k });
                }
            }
            Err(e) => failed("a copy", e),
        },
        What::Compare => match guarded(t, act.oom, || (tx.same(ty), ty.same(tx))) {
            Ok((p, q)) => {
                if p != q {
                    complain("one way two answers are equal, the other way they are not".into(), hy, tx);
                } else if p && types && hx != hy && tx.text(1 << 20).replace("-0", "0") != ty.text(1 << 20).replace("-0", "0") {
                    complain(format!("two different answers count as equal: {}", ty.text(200)), hy, tx);
                } else if !p && types && hx == hy {
                    complain(format!("two {}answers count as different: {}", if texts { "such " } else { "equal " }, ty.text(200)), hy, tx);
                }
            }
            Err(e) => failed("a comparison", e),
        },
        What::Print => match guarded(t, act.oom, || {
            let s = tx.print();
            let mut h = HashW(1, 0, 0);
            let _ = h.write_str(&s);
            mix(mix(h.0, h.1), h.2 as u64)
        }) {
            Ok(h) => {
                if h != hx {
                    complain("it prints as something else than before".into(), h, tx);
                }
            }
            Err(e) => failed("a print", e),
        },
        What::Drop => remove = true,
    }
    done(tx);
    done(ty);
    if remove || swap.is_some() {
        if let Some(i) = find(tx) {
            if run().shelf[i].uses == 0 {
                let old = match swap.take() {
                    Some(d) => {
                        let h = run().shelf[i].hash;
                        let old = std::mem::replace(&mut run().shelf[i].tree, d);
                        Held { hash: h, tree: old, op: ox as usize }
                    }
                    None => {
                        let old = run().shelf.swap_remove(i);
                        Held { hash: old.hash, tree: old.tree, op: ox as usize }
                    }
                };
                run().out.late += 1;
                check_held(&old, cx as usize);
                if let Err(e) = guarded(t, 0, move || old.tree.free()) {
                    let a = Ans { kind: b'P', ..Default::default() };
                    run().out.bad.push((cx, ox, 0, a, format!("value: dropping an answer panicked: {}", e.1)));
                }
            }
        }
    }
    if let Some(d) = swap {
        keep = Some(Held { hash: hx, tree: d, op: k });
    }
    keep
}
fn check_held(h: &Held, me: usize) {
    let now = h.tree.hash();
    if now != h.hash {
        let a = Ans { kind: b'O', tree: now, ..Default::default() };
        let r = run();
        if r.out.bad.len() < 12 {
            let s = format!("a kept tree changed: {}", h.tree.text(300));
            r.out.bad.push((me as u32, h.op as u32, 0, a, s));
        }
    }
}
