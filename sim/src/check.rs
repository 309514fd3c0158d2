//! The properties: what each simulated run looks like, and when one is violated.
use crate::dict;
use crate::exec::{self, Ans, Expect, Opts, Outcome};
use crate::gen::{self, Text};
use crate::plan::{self, Buf, Client, Fault, Keep, Op, Plan, STACK_KB};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sched::Policy;
use crate::sweep;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Ref {
    pub ans: Ans,
    pub steps: u64,
    pub allocs: u32,
    pub bytes: u64,
    pub peak: i64,
    pub stack: u32,
    pub bad: Option<String>, // why it cannot serve as a reference
    pub limit_hit: bool,
    pub signal: i32,
    pub shown: String,
    pub shared: Vec<u32>,
}

pub const N_CNT: usize = 64;
macro_rules! counters {
    ($($name:ident $label:literal;)*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        pub enum K { $($name),* }
        pub const LABELS: &[&str] = &[$($label),*];
    };
}
counters! {
    runs "simulated runs";
    refs "reference executions (one text alone in a fresh process)";
    ops "calls simulated";
    steps "steps executed";
    sim_us "simulated microseconds";
    preempt "preemptions";
    blocks "waits on a lock";
    accepted "calls accepted";
    rejected "calls rejected";
    failed "calls rejected without backtracking";
    skipped "texts without usable reference";
    reruns "runs executed twice";
    images "runs in a relocated image";
    diverged "runs that differed when executed twice";
    f_cut "fault cut";
    f_lose "fault lost piece";
    f_dup "fault duplicated piece";
    f_swap "fault reordered pieces";
    f_over "fault corrupted bytes";
    f_ins "fault stray bytes";
    f_oom "fault out of memory";
    f_stall "fault suspended thread";
    f_over_buf "fault buffer overwritten after return";
    f_late "fault late or foreign drop";
    f_jump "fault clock jumped between readings";
    f_sys "fault system request failed";
    ambient "readings of clock, randomness, environment or process state";
    effects "outside requests recorded";
    unwound "calls abandoned by memory exhaustion";
    checks "oracle evaluations";
    max_steps_pb "largest steps per byte";
    max_stack "deepest stack of one call (bytes)";
    max_peak_pb "largest peak memory per byte";
    seccomp "runs under a system-call filter";
    frames_lost "optimised-build stack measurements that failed";
    nontrivial "non-trivial runs";
    slices "schedule slices";
    panics "calls that panicked";
    incomplete "calls that asked for more";
    blockno "work blocks";
    shared "accesses to memory other threads can reach";
    acts "copies, comparisons, prints and drops of shared answers";
    unwinding "calls made while the caller was unwinding";
    teardown "calls made while the thread was torn down";
}

pub struct Stats {
    pub c: [u64; N_CNT],
    pub hashes: Vec<u64>,     // distinct non-trivial runs
    pub texts: Vec<u64>,      // distinct delivered texts
    pub inter: Vec<u64>,      // distinct interleavings
    pub samples: Vec<String>,
}
impl Stats {
    pub fn new() -> Stats {
        Stats { c: [0; N_CNT], hashes: vec![], texts: vec![], inter: vec![], samples: vec![] }
    }
    pub fn add(&mut self, k: K, n: u64) {
        self.c[k as usize] += n;
    }
    pub fn max(&mut self, k: K, n: u64) {
        let x = &mut self.c[k as usize];
        *x = (*x).max(n);
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub stats: Stats,
    pub refs: HashMap<(u8, String), Rc<Ref>>,
    pub deadline: Instant,
    pub known: Vec<String>,
    pub found: Option<(Plan, Viol)>,
    pub rerun_every: u64,
    pub digest: u64,
    /// the code under test touched writable statics or another thread's heap in this block
    pub shared_seen: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
fn viol(class: &str, msg: String) -> Option<Viol> {
    Some(Viol { class: class.to_string(), msg })
}

/// An answer as one line, as the same program loaded elsewhere prints it.
pub fn line(r: &Ref) -> String {
    if r.bad.is_some() {
        return "-".into();
    }
    let a = &r.ans;
    format!("{} {} {} {} {:016x}", a.kind as char, a.off, a.len, a.code, a.tree)
}

pub fn show(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    format!("{:?}{}", t, if t.len() < s.len() { "..." } else { "" })
}

/// Steps a call may take for a text of n bytes (C11).  Memory traffic counts too.
pub fn step_budget(n: usize) -> u64 {
    let n = n as u64 + 16;
    60_000 + 4_000 * n + 4 * n * n
}
/// Three members of one family, each of twice as many items as the one before.
pub fn growth_plan(prop: &str, kind: &str, n: usize, variant: usize, seed: u64) -> Plan {
    let mut p = Plan::new(prop, seed);
    let ops = (0..3).map(|k| gen::growing(kind, n << k, variant)).map(|(e, s)| Op::new(e, &s)).collect();
    let mut c = client(ops);
    c.stack_kb = 512 << 10;
    p.clients.push(c);
    p.note = format!("growth {kind} {n} {variant}");
    p
}
pub fn growth_plan_half(p: &Plan) -> Option<Plan> {
    let w: Vec<&str> = p.note.split(' ').collect();
    match w[..] {
        ["growth", kind, n, v] => {
            let n = n.parse::<usize>().ok()? / 2;
            (n >= 8).then(|| growth_plan(&p.prop, kind, n, v.parse().unwrap_or(0), p.seed))
        }
        _ => None,
    }
}
pub fn cost(steps: u64, bytes: u64) -> u64 {
    steps + bytes / 16
}
/// Bytes of memory a call may hold at once for a text of n bytes (C07).
pub fn mem_budget(n: usize) -> i64 {
    16_384 + 1_200 * n as i64
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, deadline: Instant) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            stats: Stats::new(),
            refs: HashMap::new(),
            deadline,
            known: vec![],
            found: None,
            rerun_every: 61,
            digest: 0,
            shared_seen: false,
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }

    /// The answer to a text alone in a fresh process.
    pub fn reference(&mut self, entry: u8, text: &str) -> Rc<Ref> {
        if let Some(r) = self.refs.get(&(entry, text.to_string())) {
            return r.clone();
        }
        let r = Rc::new(self.reference_uncached(entry, text));
        if self.refs.len() > 20_000 {
            self.refs.clear();
        }
        self.refs.insert((entry, text.to_string()), r.clone());
        r
    }
    fn reference_uncached(&mut self, entry: u8, text: &str) -> Ref {
        self.reference_in(entry, text, Buf::Fresh(0))
    }
    /// One text's line for `elsewhere`: its answer, which is the same where the text ends at the
    /// end of readable memory.
    pub fn line_elsewhere(&mut self, entry: u8, text: &str) -> String {
        let plain = line(&self.reference(entry, text));
        let edge = line(&self.reference_in(entry, text, Buf::Edge));
        match &plain[..] {
            "-" => plain,
            _ if plain == edge => plain,
            _ => format!("{plain}, but where what follows the text cannot be read: {edge}"),
        }
    }
    fn reference_in(&mut self, entry: u8, text: &str, buf: Buf) -> Ref {
        self.stats.add(K::refs, 1);
        let mut p = Plan::single("ref", Op::new(entry, text));
        p.clients[0].ops[0].buf = buf;
        let mut o = Opts::plain();
        o.limit = step_budget(text.len()) * 2;
        o.want_shown = true;
        let out = exec::run_plan(&p, &vec![], &[], o);
        let mut r = Ref {
            ans: Ans::default(),
            steps: 0,
            allocs: 0,
            bytes: 0,
            peak: 0,
            stack: 0,
            bad: None,
            limit_hit: false,
            signal: 0,
            shown: out.shown.clone(),
            shared: vec![],
        };
        if let Some(x) = out.res.first() {
            r.ans = x.ans;
            r.steps = x.steps;
            r.allocs = x.allocs;
            r.bytes = x.bytes;
            r.peak = x.peak;
            r.stack = x.stack;
            r.shared = x.shared.clone();
        }
        if !r.shared.is_empty() {
            self.shared_seen = true;
        }
        if let Some((s, _, _)) = out.died {
            r.signal = s;
            r.bad = Some(format!("process ended by {}", sig(s)));
        } else if let Some(f) = out.fail {
            r.limit_hit = f.starts_with("steplimit");
            r.bad = Some(f);
        } else if out.timed_out {
            r.bad = Some("no answer in 120 s".into());
            r.limit_hit = true;
        }
        if r.bad.is_some() {
            self.stats.add(K::skipped, 1);
        }
        r
    }

    pub fn tally(&mut self, p: &Plan, o: &Outcome) {
        self.digest = mix(self.digest, o.digest());
        let s = &mut self.stats;
        s.add(K::runs, 1);
        s.add(K::ops, o.ops_done);
        s.add(K::steps, o.steps);
        s.add(K::sim_us, o.sim_ns / 1000);
        s.add(K::preempt, o.preemptions);
        s.add(K::blocks, o.blocks);
        s.add(K::slices, o.slices.len() as u64);
        s.add(K::f_oom, o.ooms);
        s.add(K::f_stall, o.stalls);
        s.add(K::f_over_buf, o.overwritten);
        s.add(K::f_late, o.late);
        s.add(K::f_jump, o.jumps);
        s.add(K::f_sys, o.failed_calls);
        s.add(K::shared, o.shared);
        s.add(K::acts, o.acts);
        if o.shared > 0 {
            self.shared_seen = true;
        }
        s.add(K::ambient, o.ambient.iter().map(|x| *x as u64).sum());
        s.add(K::effects, o.n_effects);
        if o.seccomp {
            s.add(K::seccomp, 1);
        }
        let mut h = 0u64;
        for c in &p.clients {
            h = mix(h, 0xC1);
            for op in &c.ops {
                for f in &op.faults {
                    s.c[K::f_cut as usize + f.kind()] += 1;
                }
                let t = mix(hash_bytes(op.delivered().as_bytes()), op.entry as u64);
                if s.texts.len() < 400_000 {
                    s.texts.push(t);
                }
                h = mix(h, t);
                h = mix(h, op.oom[0] as u64 ^ op.stall_at << 20 ^ (op.moment as u64) << 18);
                s.c[K::unwinding as usize] += (op.moment == 1) as u64;
                s.c[K::teardown as usize] += (op.moment == 2) as u64;
            }
        }
        if s.inter.len() < 400_000 {
            s.inter.push(mix(o.inter, h));
        }
        for r in &o.res {
            match r.ans.kind {
                b'O' => s.add(K::accepted, 1),
                b'E' => s.add(K::rejected, 1),
                b'F' => s.add(K::failed, 1),
                b'M' => s.add(K::unwound, 1),
                b'P' => s.add(K::panics, 1),
                b'I' => s.add(K::incomplete, 1),
                _ => {}
            }
            s.max(K::max_stack, r.stack as u64);
        }
        let w = &p.world;
        h = mix(h, w.rand_salt ^ w.env_salt ^ p.salt);
        if s.hashes.len() < 400_000 {
            s.hashes.push(mix(h, o.inter));
        }
    }

    /// Expected answers and step limits of a plan, or None when some text has no usable reference.
    fn expect(&mut self, p: &Plan) -> Option<(Expect, Vec<Vec<u64>>)> {
        let mut e = vec![];
        let mut l = vec![];
        for c in &p.clients {
            let (mut ev, mut lv) = (vec![], vec![]);
            let n = c.ops.len();
            for (k, op) in c.ops.iter().enumerate() {
                if p.sample > 1 && k as u32 % p.sample != 0 && k + 20 < n {
                    ev.push(None);
                    lv.push(60_000_000);
                    continue;
                }
                let r = self.reference(op.entry, &op.delivered());
                if r.bad.is_some() {
                    return None;
                }
                ev.push(Some(r.ans));
                lv.push(r.steps * 20 + 300_000);
            }
            e.push(ev);
            l.push(lv);
        }
        Some((e, l))
    }

    pub fn text_of(&self, p: &Plan, c: u32, op: u32) -> (u8, String) {
        p.clients
            .get(c as usize)
            .and_then(|c| c.ops.get(op as usize))
            .map_or((0, String::new()), |o| (o.entry, o.delivered()))
    }

    /// Whatever a run shows that no caller should ever see: shared by C01 to C05.
    fn same_as_alone(&mut self, p: &Plan, o: &Outcome) -> Option<Viol> {
        if let Some((s, c, op)) = o.died {
            let (e, t) = self.text_of(p, c, op);
            return viol("died", format!("process ended by {} during op {op} of client {c}: {} on {}", sig(s), gen::ENTRIES[e as usize], show(&t)));
        }
        if o.timed_out {
            return viol("hang", "no progress for 120 s of real time".into());
        }
        if let Some(f) = &o.fail {
            let class = f.split([':', ' ']).next().unwrap_or("stuck").to_string();
            return viol(&class, f.clone());
        }
        if let Some((c, op, rep, got, what)) = o.bad.first() {
            let (e, t) = self.text_of(p, *c, *op);
            let r = self.reference(e, &t);
            if what.starts_with("value: ") {
                return viol("value", format!("the answer of {} to {} (client {c} op {op}): {}", gen::ENTRIES[e as usize], show(&t), what));
            }
            let class = if what.starts_with("a kept tree") {
                "kept-tree"
            } else {
                match got.kind {
                    b'P' => "panic",
                    b'M' => "refused",
                    _ => "answer",
                }
            };
            return viol(
                class,
                format!(
                    "client {c} op {op} round {rep}: {} on {} answered [{}] {}, alone it answers [{}] {}",
                    gen::ENTRIES[e as usize],
                    show(&t),
                    got.show(),
                    show(what),
                    r.ans.show(),
                    show(&r.shown)
                ),
            );
        }
        None
    }

    /// The plan's texts asked of the same program loaded at another address.
    fn elsewhere(&mut self, p: &Plan, pages: u32, plainly: bool) -> Option<Viol> {
        let file = std::env::temp_dir().join(format!("nsim-{}.plan", std::process::id()));
        std::fs::write(&file, plan::write(p)).ok()?;
        let out = crate::sys::elsewhere(pages, &file, plainly);
        let _ = std::fs::remove_file(&file);
        let out = out?;
        self.stats.add(K::images, 1);
        for (op, there) in p.clients.iter().flat_map(|c| &c.ops).zip(out.lines()) {
            let t = op.delivered();
            let here = self.reference(op.entry, &t);
            self.stats.add(K::checks, 1);
            if there != "-" && here.bad.is_none() && line(&here) != there {
                return viol(
                    "answer",
                    format!(
                        "{} on {}: the program loaded elsewhere{} answers [{there}], here [{}] {}",
                        gen::ENTRIES[op.entry as usize],
                        show(&t),
                        if plainly { " (built without optimisation)" } else { "" },
                        line(&here),
                        show(&here.shown)
                    ),
                );
            }
        }
        None
    }

    /// Executes a plan under its property's oracle.
    pub fn judge(&mut self, p: &Plan) -> (Option<Viol>, Option<Outcome>) {
        let prop = p.prop.clone();
        if let Some(pages) = p.note.strip_prefix("image ") {
            let plainly = pages.ends_with(" debug");
            return (self.elsewhere(p, pages.trim_end_matches(" debug").parse().unwrap_or(0), plainly), None);
        }
        match prop.as_str() {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C14" => {
                let (e, l) = match self.expect(p) {
                    Some(x) => x,
                    None => return (None, None),
                };
                let mut o = Opts::plain();
                o.want_res = p.n_ops() <= 4000;
                let out = exec::run_plan(p, &e, &l, o);
                self.tally(p, &out);
                self.stats.add(K::checks, out.ops_done);
                let mut v = self.same_as_alone(p, &out);
                if v.is_none() && prop == "C03" && out.lives.len() >= 3 {
                    v = growth(&out.lives, "after calls abandoned by memory exhaustion");
                }
                if v.is_none() && prop == "C14" {
                    self.stats.add(K::checks, out.acts);
                    v = growth(&out.lives, "after using and dropping answers");
                }
                if v.is_none() && prop == "C05" {
                    // the same plan again: everything the run depends on is in the plan
                    let again = exec::run_plan(p, &e, &l, o);
                    self.stats.add(K::reruns, 1);
                    if again.bad.len() != out.bad.len() || again.died.is_some() || again.fail.is_some() {
                        self.stats.add(K::diverged, 1);
                        v = self.same_as_alone(p, &again);
                    }
                }
                (v, Some(out))
            }
            "C06" => {
                // a text no fresh process answers still shows what it reaches for
                let (e, l) = self.expect(p).unwrap_or_default();
                let answerable = !e.is_empty();
                let l = if answerable {
                    l
                } else {
                    p.clients.iter().map(|c| c.ops.iter().map(|o| step_budget(o.delivered().len()) * 2).collect()).collect()
                };
                let mut o = Opts::plain();
                o.seccomp = true;
                let out = exec::run_plan(p, &e, &l, o);
                self.tally(p, &out);
                self.stats.add(K::checks, out.ops_done);
                let mut v = None;
                if out.n_effects > 0 {
                    let l: Vec<String> = out.effects.iter().map(|(n, _)| n.clone()).collect();
                    v = viol("effect", format!("a parse reached outside its memory: {}", l.join(", ")));
                } else if let Some((31, c, op)) = out.died {
                    let (e, t) = self.text_of(p, c, op);
                    v = viol("effect", format!("a parse made a system call: {} on {}", gen::ENTRIES[e as usize], show(&t)));
                } else if out.blocks > 0 {
                    v = viol("waits", format!("a parse waited ({} times)", out.blocks));
                } else if out.ambient[6] > 0 {
                    v = viol("waits", format!("a parse gave up the processor ({} times)", out.ambient[6]));
                }
                if v.is_none() && answerable {
                    v = self.same_as_alone(p, &out);
                }
                (v, Some(out))
            }
            "C07" => {
                let (e, l) = match self.expect(p) {
                    Some(x) => x,
                    None => return (None, None),
                };
                let _ = e;
                let out = exec::run_plan(p, &vec![], &l, Opts::plain());
                self.tally(p, &out);
                let mut v = growth(&out.lives, "after repeating the same traffic");
                for r in &out.res {
                    let (e, t) = self.text_of(p, r.client, r.op);
                    self.stats.add(K::checks, 1);
                    self.stats.max(K::max_peak_pb, (r.peak.max(0) as u64 * 100) / (t.len() as u64 + 16));
                    if r.peak > mem_budget(t.len()) && v.is_none() {
                        v = viol(
                            "peak",
                            format!("{} held {} bytes for a text of {} bytes: {}", gen::ENTRIES[e as usize], r.peak, t.len(), show(&t)),
                        );
                    }
                }
                if v.is_none() {
                    v = self.growth(p, &out);
                }
                (v, Some(out))
            }
            "C08" | "C09" => {
                let mut o = Opts::plain();
                if p.note == "giant" {
                    o.limit = 4_000_000_000;
                }
                let out = exec::run_plan(p, &vec![], &[], o);
                self.tally(p, &out);
                self.stats.add(K::checks, out.ops_done);
                let mut v = None;
                if prop == "C08" {
                    if let Some((s, c, op)) = out.died {
                        let (e, t) = self.text_of(p, c, op);
                        // a stack overflow on a deep nest is C12's business
                        let opens = t.bytes().filter(|b| b"([{".contains(b)).count();
                        if s != 11 || opens < 60 {
                            v = viol("abort", format!("process ended by {}: {} on {}", sig(s), gen::ENTRIES[e as usize], show(&t)));
                        }
                    }
                }
                let want = if prop == "C08" { b'P' } else { b'I' };
                for r in &out.res {
                    if r.ans.kind == want && v.is_none() {
                        let (e, t) = self.text_of(p, r.client, r.op);
                        let rf = self.reference(e, &t);
                        v = viol(
                            if want == b'P' { "panic" } else { "incomplete" },
                            format!("{} on {}: {} {}", gen::ENTRIES[e as usize], show(&t), r.ans.show(), if want == b'P' { rf.shown.clone() } else { String::new() }),
                        );
                    }
                }
                (v, Some(out))
            }
            "C10" => {
                let out = exec::run_plan(p, &vec![], &[], Opts::plain());
                self.tally(p, &out);
                let mut v = None;
                for r in &out.res {
                    if v.is_some() {
                        break;
                    }
                    let (e, t) = self.text_of(p, r.client, r.op);
                    self.stats.add(K::checks, 1);
                    if r.ans.off == u32::MAX && r.ans.kind != b'P' {
                        let what = if r.ans.kind == b'O' { "remainder" } else { "error position" };
                        v = viol("place", format!("{}: the {what} is not the tail of the text {}", gen::ENTRIES[e as usize], show(&t)));
                        break;
                    }
                    if r.ans.kind == b'O' {
                        let cut = &t[..r.ans.off as usize];
                        let a = self.reference(e, cut);
                        if a.bad.is_some() {
                            continue;
                        }
                        if a.ans.kind != b'O' || a.ans.len != 0 || a.ans.tree != r.ans.tree {
                            let full = self.reference(e, &t);
                            v = viol(
                                "lookahead",
                                format!(
                                    "{}: of {} it consumed {} bytes ({}); of those bytes alone it answers [{}] {}",
                                    gen::ENTRIES[e as usize],
                                    show(&t),
                                    cut.len(),
                                    show(&full.shown),
                                    a.ans.show(),
                                    show(&a.shown)
                                ),
                            );
                        }
                    }
                }
                (v, Some(out))
            }
            "C11" => {
                let mut limits = vec![];
                for c in &p.clients {
                    limits.push(c.ops.iter().map(|o| step_budget(o.delivered().len())).collect::<Vec<u64>>());
                }
                let out = exec::run_plan(p, &vec![], &limits, Opts::plain());
                self.tally(p, &out);
                let mut v = None;
                if let Some(f) = &out.fail {
                    let at: Vec<u64> = f.split(['=', ' ']).filter_map(|x| x.parse().ok()).collect();
                    if f.starts_with("steplimit") && at.len() == 3 {
                        let (e, t) = self.text_of(p, at[0] as u32, at[1] as u32);
                        v = viol(
                            "steps",
                            format!("{}: more than {} steps for a text of {} bytes: {}", gen::ENTRIES[e as usize], at[2], t.len(), show(&t)),
                        );
                    } else {
                        v = viol("steps", f.clone());
                    }
                } else if out.timed_out {
                    v = viol("hang", "no progress for 120 s of real time".into());
                }
                for r in &out.res {
                    let (e, t) = self.text_of(p, r.client, r.op);
                    self.stats.add(K::checks, 1);
                    self.stats.max(K::max_steps_pb, cost(r.steps, r.bytes) / (t.len() as u64 + 16));
                    if v.is_none() && cost(r.steps, r.bytes) > step_budget(t.len()) {
                        v = viol(
                            "steps",
                            format!(
                                "{}: {} steps and {} bytes allocated for a text of {} bytes: {}",
                                gen::ENTRIES[e as usize],
                                r.steps,
                                r.bytes,
                                t.len(),
                                show(&t)
                            ),
                        );
                    }
                }
                if v.is_none() {
                    v = self.growth(p, &out);
                }
                (v, Some(out))
            }
            "C12" => crate::stack::judge(self, p),
            "C13" => {
                let out = exec::run_plan(p, &vec![], &[], Opts::plain());
                self.tally(p, &out);
                let mut v = None;
                for r in &out.res {
                    let op = &p.clients[r.client as usize].ops[r.op as usize];
                    self.stats.add(K::checks, 1);
                    if v.is_some() || r.ans.kind != b'O' {
                        continue;
                    }
                    // how much was consumed, wherever the remainder points
                    let at = (op.delivered().len() as u32).saturating_sub(r.ans.len);
                    if let Some((a, b)) = op.open.iter().find(|(a, b)| *a < at && at < *b) {
                        // only a statement that is itself accepted in full counts as well-formed
                        let whole = self.reference(op.entry, &op.base);
                        if whole.bad.is_some() || whole.ans.kind != b'O' || whole.ans.off < *b {
                            continue;
                        }
                        v = viol(
                            "open",
                            format!(
                                "{}: {} accepted up to byte {at}, inside what byte {a} opens",
                                gen::ENTRIES[op.entry as usize],
                                show(&op.delivered())
                            ),
                        );
                    }
                }
                (v, Some(out))
            }
            _ => (None, None),
        }
    }

    /// Judges a plan; true = go on, false = a violation was kept.
    pub fn try_plan(&mut self, p: Plan) -> bool {
        let t0 = Instant::now();
        let (v, out) = self.judge(&p);
        if std::env::var_os("NSIM_TIMES").is_some() {
            let n: usize = p.clients.iter().flat_map(|c| &c.ops).map(|o| o.base.len()).sum();
            eprintln!("TIME {} {:.4} ops {} reps {} phases {} bytes {n} {}", p.prop, t0.elapsed().as_secs_f64(), p.n_ops(), p.reps, p.phases, p.note);
        }
        if self.stats.samples.len() < 3 && out.is_some() && self.stats.c[K::runs as usize] % 37 == 5 {
            let s = plan::write(&p);
            let mut s: String = s.chars().take(1500).collect();
            if let Some(o) = &out {
                let sl: Vec<String> = o.slices.iter().take(40).map(|(t, n)| format!("{t}:{n}")).collect();
                s.push_str(&format!("[schedule as run: {} ...]", sl.join(" ")));
            }
            self.stats.samples.push(s);
        }
        if let Some(v) = v {
            let mut p = p;
            if let Some(o) = out {
                if !o.slices.is_empty() && p.clients.len() > 1 {
                    let mut f = p.clone();
                    f.policy = Policy::Fixed(o.slices.clone());
                    if let (Some(v2), _) = self.judge(&f) {
                        if v2.class == v.class {
                            p = f;
                        }
                    }
                }
            }
            self.found = Some((p, v));
            return false;
        }
        // now and then the same run again: it has to be exactly the same
        if let Some(o) = out {
            if (self.rerun_every == 1 || self.stats.c[K::runs as usize] % self.rerun_every == 7) && self.prop != "C05" {
                let (c, d) = (self.stats.c, self.digest);
                let (_, o2) = self.judge(&p);
                self.stats.c = c;
                self.digest = d;
                self.stats.add(K::reruns, 1);
                if let Some(o2) = o2 {
                    if o2.digest() != o.digest() {
                        self.stats.add(K::diverged, 1);
                    }
                }
            }
        }
        true
    }
}

pub fn sig(s: i32) -> String {
    match s {
        6 => "abort (SIGABRT)".into(),
        11 => "stack overflow (SIGSEGV)".into(),
        4 => "SIGILL".into(),
        31 => "a forbidden system call (SIGSYS)".into(),
        s if s >= 1000 => format!("exit({})", s - 1000),
        s => format!("signal {s}"),
    }
}

/// Memory still held at the end of each round of the same traffic.
fn growth(l: &[i64], when: &str) -> Option<Viol> {
    if l.len() < 4 {
        if l.len() == 3 && l[2] > l[1] && l[1] > l[0] {
            return viol("leak", format!("{} bytes more each round {when} ({:?})", l[2] - l[1], l));
        }
        return None;
    }
    // first-use set-up may be kept; after the first half nothing may be added (by then half as many
    // rounds have passed as at the end, so that a list that grows by doubling shows, too)
    let h = (l.len() - 1) / 2;
    if l[l.len() - 1] > l[h] {
        return viol("leak", format!("{} bytes kept {when} (held after each round: {:?})", l[l.len() - 1] - l[h], l));
    }
    None
}

// ---------------------------------------------------------------- drawing plans
pub fn draw_policy(r: &mut Rng, total_steps: u64, shared: bool) -> Policy {
    if total_steps > 3_000_000 {
        // long texts: few switches, or none but at chosen places
        return match r.below(4) {
            0 => Policy::Ops,
            1 => Policy::Points((0..r.range(1, 8)).map(|_| r.below(total_steps)).collect::<std::collections::BTreeSet<u64>>().into_iter().collect()),
            _ => Policy::Slices(total_steps / 2000, total_steps / 100),
        };
    }
    if r.pct(if shared { 60 } else { 2 }) {
        return Policy::Shared(*r.pick(&[3u64, 15, 40, 80]), r.next());
    }
    match r.below(12) {
        0 => Policy::None,
        1 => Policy::Ops,
        2 | 3 => Policy::Slices(50, 20_000),
        4 | 5 => Policy::Slices(1, 60),
        6 => Policy::Slices(20, 400),
        7 | 8 => {
            let k = r.range(1, 5);
            let mut v: Vec<u64> = (0..k).map(|_| r.below(total_steps.max(1))).collect();
            v.sort();
            Policy::Points(v)
        }
        9 | 10 => Policy::Sites(*r.pick(&[20u64, 80, 300, 1500]), r.next()),
        _ => Policy::Allocs,
    }
}
fn draw_memory(r: &mut Rng, p: &mut Plan) {
    p.reuse = r.below(3) as u8;
    p.pad = *r.pick(&[0u32, 0, 1, 4, 64]);
    p.salt = r.next();
    p.fill = *r.pick(&[0xA5u8, 0, 0xFF, b'a', b'}']);
}
fn op_of(t: &Text) -> Op {
    Op::new(t.entry, &t.s)
}
/// A text and the variants of it a pool holds.
pub struct Pool {
    pub t: Vec<Text>,
}
impl Pool {
    pub fn draw(r: &mut Rng, n: usize) -> Pool {
        let mut t = vec![];
        while t.len() < n {
            let x = if r.pct(60) { gen::small_text(r) } else { gen::text(r) };
            if x.s.len() > if dict::d().ints.is_empty() { 20_000 } else { 90_000 } {
                continue;
            }
            if r.pct(25) {
                t.push(gen::near(r, &x));
            }
            if r.pct(12) {
                // the same text through another entry point
                let mut y = x.clone();
                y.entry = gen::draw_entry(r);
                t.push(y);
            }
            if r.pct(6) {
                let k = gen::NEST[r.idx(gen::NEST.len())].0;
                let d = r.range(2, 14) as usize;
                let (e, cut, whole) = gen::nest(k, d);
                t.push(Text { s: if r.pct(50) { cut } else { whole }, entry: e, open: vec![], family: "nest" });
            }
            if r.pct(6) {
                let k = gen::FLAT[r.idx(gen::FLAT.len())].0;
                let d = r.range(2, 60) as usize;
                let (e, s) = gen::flat(k, d);
                t.push(Text { s, entry: e, open: vec![], family: "flat" });
            }
            t.push(x);
        }
        Pool { t }
    }
    fn pick<'a>(&'a self, r: &mut Rng) -> &'a Text {
        &self.t[r.idx(self.t.len())]
    }
    fn op(&self, r: &mut Rng, damage: u64) -> Op {
        let t = self.pick(r);
        let mut op = op_of(t);
        if r.pct(damage) {
            let n = if r.pct(70) { 1 } else { r.range(2, 3) };
            for _ in 0..n {
                op.faults.push(plan::draw_fault(r, t.s.as_bytes()));
            }
        }
        op
    }
}
/// How deep in its own frames the caller is, in KiB.
/// When in its thread's life a call is made.
fn draw_moment(r: &mut Rng, pct: u64) -> u8 {
    if r.pct(pct) {
        r.range(1, 2) as u8
    } else {
        0
    }
}

fn draw_depth(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.range(1, 16) as u32,
        1 => r.range(16, 128) as u32,
        2 => r.range(128, 1024) as u32,
        _ => r.range(1024, 8192) as u32,
    }
}
fn draw_long(r: &mut Rng, max: u64) -> Text {
    let len = gen::long_len(r, max);
    loop {
        let t = gen::long_text(r, len);
        if t.s.len() < 4 * len + 2000 {
            return t;
        }
    }
}
/// Texts that differ in one token only, and the token in little: one character, two exchanged,
/// one more or less, another case.
fn token_texts(r: &mut Rng, n: usize) -> Vec<(u8, String)> {
    let kind = r.idx(sweep::STRETCH.len());
    let (_, e, sort, head, tail) = sweep::STRETCH[kind];
    let len = dict::size(r, 1, 400, 30).unwrap_or_else(|| if r.pct(80) { r.range(2, 40) } else { r.range(40, 300) }) as usize;
    let token: Vec<char> = if sort == 'i' && r.pct(50) {
        r.pick(&gen::IRIS).chars().collect()
    } else {
        let f = r.below(sweep::FLAVOURS);
        let (_, s, a, b) = sweep::stretch(kind, len, f);
        s[a..b].chars().collect()
    };
    let other = |r: &mut Rng, c: char| match c {
        '0'..='9' => (b'0' + r.below(10) as u8) as char,
        'a'..='z' if r.pct(80) => (b'a' + r.below(26) as u8) as char,
        'A'..='Z' if r.pct(80) => (b'A' + r.below(26) as u8) as char,
        'a'..='z' => c.to_ascii_uppercase(),
        'A'..='Z' => c.to_ascii_lowercase(),
        c => c,
    };
    let mut all = vec![token.clone()];
    while all.len() < n {
        // mostly of the token itself, sometimes of a variant
        let mut v = if r.pct(70) { token.clone() } else { all[r.idx(all.len())].clone() };
        if v.is_empty() {
            v = token.clone();
        }
        let k = if v.len() > 8 && r.pct(50) { r.range(3, v.len() as u64 - 4) as usize } else { r.idx(v.len()) };
        match r.below(10) {
            0 if k + 1 < v.len() => v.swap(k, k + 1),
            1 => {
                v.remove(k);
            }
            2 => {
                let c = v[k];
                v.insert(k, c);
            }
            3 => v = v.iter().map(|&c| if c.is_ascii_alphabetic() { (c as u8 ^ 32) as char } else { c }).collect(),
            4 => {
                // all but the beginning, or the end, exchanged
                let back = r.pct(50);
                for j in 0..v.len() {
                    if (j < k) == back {
                        v[j] = other(r, v[j]);
                    }
                }
            }
            _ => v[k] = other(r, v[k]),
        }
        all.push(v);
    }
    all.into_iter().map(|v| (e, format!("{head}{}{tail}", v.into_iter().collect::<String>()))).collect()
}
/// The text with one of its characters another one, often a bracket, at the same length.
fn spoilt(r: &mut Rng, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    let marks: Vec<usize> = (0..b.len()).filter(|&k| b"{}()[]<>\"'.;,|/?$@^=*+-".contains(&b[k])).collect();
    let plain: Vec<usize> = (0..b.len()).filter(|&k| b[k].is_ascii()).collect();
    if plain.is_empty() {
        return s.to_string();
    }
    let k = if !marks.is_empty() && r.pct(75) { marks[r.idx(marks.len())] } else { plain[r.idx(plain.len())] };
    b[k] = *r.pick(&[b')', b'}', b'(', b'{', b' ', b'x', b'.', b'"', b'>', b'!']);
    String::from_utf8(b).unwrap_or_else(|_| s.to_string())
}
/// Two letters of one name changed so that a sum or a fold of its words stays what it was.
fn balanced(r: &mut Rng, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    let name = |c: u8| c.is_ascii_alphanumeric() || b":/.-_".contains(&c);
    let w = *r.pick(&[8usize, 8, 8, 16, 4, 2, 1, 32]);
    let at: Vec<usize> = (0..b.len().saturating_sub(w)).filter(|&k| b[k..=k + w].iter().all(|&c| name(c))).collect();
    if at.is_empty() {
        return s.to_string();
    }
    let k = at[r.idx(at.len())];
    if r.pct(70) {
        let x = 1 << r.below(6);
        b[k] ^= x;
        b[k + w] ^= x;
        if b[k] == b[k + w] && r.pct(50) {
            // to a sign no name has
            let c = *r.pick(&[b'{', b' ', b'|', b'"', b'<']);
            b[k] = c;
            b[k + w] = c;
        }
    } else {
        b[k] = b[k].wrapping_add(1);
        b[k + w] = b[k + w].wrapping_sub(1);
    }
    String::from_utf8(b).unwrap_or_else(|_| s.to_string())
}
/// The text with one of its IRIs, or a name, made long.
fn lengthened(r: &mut Rng, s: &str) -> String {
    let b = s.as_bytes();
    let letter = |k: usize| b[k].is_ascii_lowercase();
    let mut at: Vec<usize> = (1..b.len()).filter(|&k| letter(k) && letter(k - 1)).collect();
    let iri: Vec<usize> = (1..b.len()).filter(|&k| b[k - 1] == b'<' && letter(k)).collect();
    if !iri.is_empty() && r.pct(70) {
        at = iri;
    }
    if at.is_empty() {
        return s.to_string();
    }
    let k = at[r.idx(at.len())];
    let unit: String = (0..8).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    format!("{}{}{}", &s[..k], unit.repeat(r.range(2, 5) as usize), &s[k..])
}
fn draw_buf(r: &mut Rng) -> Buf {
    match r.below(14) {
        0..=3 => Buf::Slot,
        4 | 5 => Buf::Shared,
        6 => Buf::Page(r.below(300) as u32, *r.pick(&[12u8, 12, 12, 16, 8])),
        7 => Buf::Edge,
        _ => Buf::Fresh(r.below(24) as u8),
    }
}
/// Anywhere in memory, often across or at the end of a page.
fn place(r: &mut Rng, len: usize) -> Buf {
    match r.below(20) {
        0..=8 => Buf::Fresh(r.below(64) as u8),
        9..=16 => Buf::Page(r.below(len as u64 + 1) as u32, *r.pick(&[12u8, 12, 12, 16, 13, 10, 8])),
        _ => Buf::Edge,
    }
}
fn r_deep(b: u64) -> usize {
    12 + (b as usize * 7) % 150
}
fn draw_keep(r: &mut Rng) -> Keep {
    *r.pick(&[Keep::Drop, Keep::Drop, Keep::Later, Keep::End, Keep::Elsewhere, Keep::Clone])
}
fn client(ops: Vec<Op>) -> Client {
    Client { stack_kb: STACK_KB, start_ns: 0, name: None, ops }
}
const ODD: [char; 24] = [
    '^', '`', '\\', '|', '{', '}', '"', '<', '>', ' ', '\n', '\0', '\u{7f}', '\u{80}', '\u{a0}', '\'', '#', '%', '.', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{1f980}', '@',
];
/// Threads go by all sorts of names, that of the main thread among them.
fn draw_name(r: &mut Rng, pct: u64) -> Option<String> {
    if !r.pct(pct) {
        return None;
    }
    if let Some(w) = dict::word(r, 40) {
        return Some(w);
    }
    Some(match r.below(8) {
        0 | 1 | 2 => "main".into(),
        3 => String::new(),
        4 => "tokio-runtime-worker".into(),
        5 => "n\u{e9}e \u{1f980}".into(),
        6 => "x".repeat(r.range(1, 300) as usize),
        _ => format!("client-{}", r.below(1000)),
    })
}
/// How many calls or items a marathon has: past 2^16, or past a larger number of the sources.
fn far_count(r: &mut Rng) -> (u64, bool) {
    let far = dict::d().ints.iter().filter(|n| **n >= 60_000 && **n <= 1_100_000).max();
    match far {
        Some(n) if r.pct(70) => (n + n / 8, true),
        _ => (70_000, false),
    }
}
/// No receive buffer of its own, whose growth would count as memory kept.
fn fixed_bufs(p: &mut Plan) {
    for o in p.clients.iter_mut().flat_map(|c| &mut c.ops) {
        if o.buf == Buf::Slot {
            o.buf = Buf::Fresh(0);
        }
    }
    if p.reuse == 2 {
        p.reuse = 0;
    }
}
fn stagger(r: &mut Rng, p: &mut Plan) {
    for c in &mut p.clients {
        if r.pct(40) {
            c.start_ns = r.below(400_000);
        }
        c.name = draw_name(r, 30);
        for op in &mut c.ops {
            if r.pct(10) {
                op.gap_ns = r.below(1_000_000);
            }
        }
    }
}

impl Ctx {
    fn est_steps(&mut self, p: &Plan) -> u64 {
        let mut n = 0;
        for c in &p.clients {
            for o in &c.ops {
                n += self.reference(o.entry, &o.delivered()).steps;
            }
        }
        n
    }

    /// One block of work: a pool of texts and the runs made from it.  Returns false when a
    /// violation was found.
    pub fn block(&mut self, b: u64) -> bool {
        self.stats.add(K::blockno, 1);
        let seed = mix(mix(self.seed, hash_bytes(self.prop.as_bytes())), b);
        let mut r = Rng::new(seed);
        self.refs.clear();
        self.shared_seen = false;
        let first = match self.prop.clone().as_str() {
            "C01" => self.block_c01(&mut r, b),
            "C02" => self.block_c02(&mut r, b),
            "C03" => self.block_c03(&mut r),
            "C04" => self.block_c04(&mut r),
            "C05" => self.block_c05(&mut r, b),
            "C06" => self.block_c06(&mut r),
            "C07" => self.block_c07(&mut r, b),
            "C08" => self.block_damage(&mut r, b),
            "C09" | "C13" => self.block_cuts(&mut r),
            "C10" => self.block_c10(&mut r),
            "C11" => self.block_c11(&mut r, b),
            "C12" => crate::stack::block(self, &mut r, b),
            "C14" => self.block_c14(&mut r, b),
            _ => true,
        };
        first && self.block_sweeps(&mut r, b)
    }

    /// One plan of these operations on one client with plenty of stack.
    fn try_ops(&mut self, r: &mut Rng, ops: Vec<Op>, note: String, change: impl FnOnce(&mut Plan)) -> bool {
        if ops.is_empty() || !self.time_left() {
            return true;
        }
        let mut p = Plan::new(&self.prop, r.next());
        let mut c = client(ops);
        c.stack_kb = 512 << 10;
        p.clients.push(c);
        p.note = note;
        change(&mut p);
        self.try_plan(p)
    }

    /// A text of a few items of one kind, or a small random one.
    fn structured(&mut self, r: &mut Rng, k: usize) -> (u8, String) {
        let (nf, nn) = (gen::FLAT.len(), gen::NEST.len());
        // a prime number of kinds, so that every stride comes to all of them
        let all = (nf + nn + gen::MONO + 20..).find(|n| (2..20).all(|d| n % d != 0)).unwrap_or(1);
        match k % all {
            k if k < nf => {
                let (e, mut s) = gen::flat(gen::FLAT[k].0, r.range(2, 6) as usize);
                if s.ends_with(" LIMIT 1") && r.pct(50) {
                    s.truncate(s.len() - 8);
                }
                (e, s)
            }
            k if k < nf + nn => {
                let (e, _, s) = gen::nest(gen::NEST[k - nf].0, r.range(1, 4) as usize);
                (e, s)
            }
            k if k < nf + nn + gen::MONO => {
                let len = r.range(30, 160) as usize;
                let t = gen::mono(r, k - nf - nn, len);
                (t.entry, t.s)
            }
            _ => loop {
                let t = gen::small_text(r);
                if t.s.len() < 500 {
                    break (t.entry, t.s);
                }
            },
        }
    }

    /// The sweeps of every property: see sweep.rs.
    fn block_sweeps(&mut self, r: &mut Rng, b: u64) -> bool {
        let prop = self.prop.clone();
        let (every, most, share) = match prop.as_str() {
            "C08" | "C09" | "C13" | "C11" => (1, 280, 100),
            "C10" => (1, 280, 60),
            "C06" | "C05" => (2, 280, 50),
            "C07" => (1, 280, 60),
            "C02" => (1, 140, 60),
            "C14" => (2, 60, 100),
            "C03" => (2, 40, 100),
            _ => return true,
        };
        // every sweep is made in the end, whichever blocks there are time for
        let (per, share) = if self.thorough { (1, 100) } else { (1, share) };
        if b % every == 0 {
            for j in 0..per {
                let x = b / every * per + j;
                let which = ((x + self.seed * 31) * 47 % sweep::KINDS as u64) as usize;
                let mut ops = vec![];
                for (e, s, end) in sweep::texts(r, which, most, share) {
                    let whole = Op::new(e, &s);
                    let mut cut = whole.clone();
                    cut.faults.push(Fault::Cut(end as u32));
                    match prop.as_str() {
                        "C08" => {
                            let mut o = match r.below(4) {
                                0 | 1 => whole,
                                2 => cut,
                                _ => {
                                    let mut o = whole;
                                    o.faults.push(plan::draw_fault(r, s.as_bytes()));
                                    o
                                }
                            };
                            if s.len() < 5000 {
                                o.buf = draw_buf(r);
                            }
                            ops.push(o);
                        }
                        "C09" | "C13" => {
                            let open = if prop == "C13" { sweep::spans(&s) } else { vec![] };
                            let near = [end.saturating_sub(1), end + 1, end + 2, end + 3];
                            for k in [end, near[r.idx(4)]] {
                                let mut o = whole.clone();
                                o.faults.push(Fault::Cut(k as u32));
                                o.open = open.clone();
                                ops.push(o);
                                if s.len() > 3000 {
                                    break;
                                }
                            }
                        }
                        "C10" => {
                            let tail = *r.pick(&["", "", " ", "x", " }", ".", "\u{e9}", "?x", "{ }"]);
                            let mut o = whole;
                            o.faults.push(Fault::Insert(s.len() as u32, tail.as_bytes().to_vec()));
                            o.buf = Buf::Fresh(r.below(16) as u8);
                            ops.push(o);
                            if r.pct(30) {
                                ops.push(cut);
                            }
                        }
                        "C05" => {
                            let mut o = if r.pct(80) { whole } else { cut };
                            o.buf = place(r, s.len());
                            ops.push(o);
                        }
                        "C03" => {
                            let o = if r.pct(80) { whole } else { cut };
                            let al = self.reference(e, &o.delivered()).allocs as u64;
                            if al > 0 && s.len() < 4000 {
                                let mut hit = o.clone();
                                hit.oom[0] = if r.pct(60) { r.range(al * 2 / 3, al) } else { r.range(1, al) }.max(1) as u32;
                                ops.push(hit);
                            }
                            ops.push(o);
                        }
                        "C14" => {
                            let mut o = whole;
                            if s.len() > 3000 || self.reference(o.entry, &s).ans.kind != b'O' {
                                continue;
                            }
                            o.keep = Keep::Shelf;
                            if !ops.is_empty() {
                                // against the one before, which then goes
                                o.acts.push(plan::Act { what: plan::What::Compare, a: 0, b: 1, oom: 0 });
                                o.acts.push(plan::Act { what: plan::What::Nest, a: 0, b: 1, oom: 0 });
                                o.acts.push(plan::Act { what: plan::What::Drop, a: 0, b: 1, oom: 0 });
                            }
                            ops.push(o);
                        }
                        _ => {
                            let long = s.len() > 5000;
                            let mut o = if r.pct(75) || long { whole } else { cut };
                            if prop == "C02" {
                                o.keep = draw_keep(r);
                                o.buf = draw_buf(r);
                            }
                            ops.push(o);
                        }
                    }
                }
                if prop == "C02" && r.pct(50) {
                    for k in (1..ops.len()).rev() {
                        ops.swap(k, r.idx(k + 1));
                    }
                }
                if !self.try_ops(r, ops, format!("sweep {which}"), |_| ()) {
                    return false;
                }
            }
        }
        // every token lost, doubled, swapped, or the last to arrive
        if matches!(prop.as_str(), "C02" | "C06" | "C07" | "C08" | "C10" | "C11") {
            let n = if prop == "C07" || prop == "C08" { 3 } else { 2 };
            for j in 0..n {
                let (e, s) = self.structured(r, (b * n + j + self.seed * 17) as usize);
                let ops = sweep::token_damage(e, &s);
                let reps = if prop == "C07" { 6 } else { 1 };
                if !self.try_ops(r, ops, String::new(), |p| p.reps = reps) {
                    return false;
                }
            }
        }
        // one token, or the space between two, that goes on and on
        if matches!(prop.as_str(), "C02" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C13") {
            let mut ops = vec![];
            let mut room = 250_000usize;
            for j in 0..12 {
                let (e, s) = self.structured(r, (b as usize * 12 + j) * 7 + self.seed as usize * 17);
                let n = dict::size(r, 60, 70_000, 40).unwrap_or_else(|| {
                    let k = r.range(6, 15);
                    r.range(1 << k, 2 << k)
                }) as usize;
                if n + s.len() > room {
                    continue;
                }
                room -= n + s.len();
                let (t, end) = sweep::inflate(r, &s, n);
                if prop == "C09" || prop == "C13" {
                    let open = if prop == "C13" { sweep::spans(&t) } else { vec![] };
                    for k in 0..3 {
                        let at = match k {
                            0 => r.range(end as u64, t.len() as u64) as usize,
                            1 => end,
                            _ => r.idx(t.len() + 1),
                        };
                        let mut o = Op::new(e, &t);
                        o.faults.push(Fault::Cut(at as u32));
                        o.open = open.clone();
                        ops.push(o);
                        if n > 5000 {
                            break;
                        }
                    }
                    continue;
                }
                let mut o = Op::new(e, &t);
                match r.below(6) {
                    0 => o.faults.push(Fault::Cut(r.range(end as u64, t.len() as u64) as u32)),
                    1 => o.faults.push(plan::draw_fault(r, t.as_bytes())),
                    2 => o.faults.push(Fault::Insert(end as u32, vec![*r.pick(&b"\0.;?%\\'\"^|<>{"[..])])),
                    _ => (),
                }
                if prop == "C05" {
                    o.buf = place(r, t.len());
                } else if n < 3000 {
                    o.buf = draw_buf(r);
                }
                ops.push(o);
            }
            let reps = if prop == "C07" { 6 } else { 1 };
            if !self.try_ops(r, ops, String::new(), |p| p.reps = reps) {
                return false;
            }
        }
        // IRIs, names, strings and numbers out of the ordinary, in every place
        let texts = match prop.as_str() {
            "C01" | "C04" | "C12" => 0,
            "C08" | "C09" | "C11" | "C13" => 5,
            _ => 2,
        };
        for j in 0..texts {
            let (e, s) = if j % 2 == 0 {
                self.structured(r, ((b * 5 + j) * 3 + self.seed * 17) as usize)
            } else {
                let t = gen::small_text(r);
                if t.s.len() > 600 {
                    continue;
                }
                (t.entry, t.s)
            };
            let mut ops = sweep::other_values(r, e, &s);
            if prop == "C14" {
                ops.truncate(24);
            }
            for k in 0..ops.len() {
                let o = &mut ops[k];
                let n = o.base.len() as u64;
                match prop.as_str() {
                    "C09" | "C13" => {
                        if prop == "C13" {
                            o.open = sweep::spans(&o.base);
                        }
                        o.faults.push(Fault::Cut(r.range(n / 3, n) as u32));
                    }
                    "C10" => {
                        let tail = *r.pick(&["", " ", "x", " }", ".", "?x", "{ }"]);
                        o.faults.push(Fault::Insert(n as u32, tail.as_bytes().to_vec()));
                    }
                    "C05" => o.buf = place(r, n as usize),
                    "C03" => {
                        let al = self.reference(e, &o.delivered()).allocs as u64;
                        o.oom[0] = if r.pct(50) { r.range(1, al.max(1)) as u32 } else { 0 };
                    }
                    "C14" => {
                        if self.reference(e, &o.delivered()).ans.kind != b'O' {
                            continue;
                        }
                        o.keep = Keep::Shelf;
                        if k > 0 {
                            o.acts.push(plan::Act { what: plan::What::Compare, a: 0, b: 1, oom: 0 });
                            o.acts.push(plan::Act { what: plan::What::Nest, a: 0, b: 1, oom: 0 });
                            o.acts.push(plan::Act { what: plan::What::Drop, a: 0, b: 1, oom: 0 });
                        }
                    }
                    _ => {
                        if r.pct(15) {
                            o.faults.push(plan::draw_fault(r, o.base.as_bytes()));
                        }
                        o.buf = draw_buf(r);
                    }
                }
            }
            if prop == "C14" {
                ops.retain(|o| o.keep == Keep::Shelf);
            }
            let reps = if prop == "C07" { 6 } else { 1 };
            if !ops.is_empty() && !self.try_ops(r, ops, String::new(), |p| p.reps = reps) {
                return false;
            }
        }
        if matches!(prop.as_str(), "C06" | "C08" | "C09" | "C10" | "C11" | "C13") {
            let (e, s) = self.structured(r, (b * 5 + self.seed * 17) as usize);
            let mut ops = sweep::stray_signs(r, e, &s);
            if prop == "C13" {
                for o in &mut ops {
                    // only cuts are judged, of texts as they were meant
                    o.base = Op { faults: o.faults[..1].to_vec(), ..o.clone() }.delivered();
                    o.faults.drain(..1);
                    o.open = sweep::spans(&o.base);
                }
                ops.retain(|o| !o.faults.is_empty());
            }
            if !self.try_ops(r, ops, String::new(), |_| ()) {
                return false;
            }
        }
        match prop.as_str() {
            "C05" => {
                // a sign that does not belong there, at every place within a machine word
                let mut ops = vec![];
                for j in 0..30 {
                    let (e, mut s, from, to) = sweep::stretch((b as usize * 30 + j) % sweep::STRETCH.len(), r.range(14, 44) as usize, r.below(sweep::FLAVOURS));
                    let at: Vec<usize> = (from..=to).filter(|&k| s.is_char_boundary(k)).collect();
                    if at.is_empty() {
                        continue;
                    }
                    let at = at[r.idx(at.len())];
                    let sign = if r.pct(70) { *r.pick(&ODD) } else { r.range(33, 126) as u8 as char };
                    s.insert(at, sign);
                    let first = r.below(16) as u8;
                    for k in 0..8 {
                        let mut o = Op::new(e, &s);
                        o.buf = Buf::Fresh(first + k);
                        ops.push(o);
                    }
                    let mut o = Op::new(e, &s);
                    o.buf = place(r, s.len());
                    ops.push(o);
                }
                if !self.try_ops(r, ops, String::new(), |_| ()) {
                    return false;
                }
                // one text at every place of a page, the page's end at each of its characters
                for j in 0..3 {
                    let (e, s) = match j {
                        0 => {
                            let (e, s, _, _) = sweep::stretch((b as usize * 5 + r.idx(5)) % sweep::STRETCH.len(), r.range(14, 90) as usize, r.below(sweep::FLAVOURS));
                            let mut s = s;
                            if r.pct(50) {
                                // one sign within it that does not belong there
                                let at = r.range(4, s.len() as u64 - 2) as usize;
                                if s.is_char_boundary(at) {
                                    s.insert(at, *r.pick(&ODD));
                                }
                            }
                            (e, s)
                        }
                        1 => self.structured(r, b as usize + self.seed as usize * 17),
                        _ => {
                            let mut t = gen::text(r);
                            while t.s.len() > 700 {
                                t = gen::text(r);
                            }
                            (t.entry, t.s)
                        }
                    };
                    let shift = *r.pick(&[12u8, 12, 12, 16, 13, 10]);
                    let step = 1 + s.len() / 350;
                    let mut ops: Vec<Op> = (0..=s.len())
                        .step_by(step)
                        .map(|k| {
                            let mut o = Op::new(e, &s);
                            o.buf = Buf::Page(k as u32, shift);
                            o
                        })
                        .collect();
                    let mut o = Op::new(e, &s);
                    o.buf = Buf::Edge;
                    ops.push(o);
                    if !self.try_ops(r, ops, String::new(), |_| ()) {
                        return false;
                    }
                }
            }
            "C08" => {
                // deep nests
                for j in 0..2 {
                    let k = gen::NEST[(2 * b as usize + j) % gen::NEST.len()].0;
                    let mut ops = vec![];
                    for _ in 0..4 {
                        let (e, cut, s) = gen::nest(k, sweep::deep(r));
                        ops.push(Op::new(e, &s));
                        let mut o = Op::new(e, &s);
                        o.faults.push(if r.pct(40) { Fault::Cut(cut.len() as u32) } else { plan::draw_fault(r, s.as_bytes()) });
                        ops.push(o);
                    }
                    if !self.try_ops(r, ops, format!("deep {k}"), |_| ()) {
                        return false;
                    }
                }
                let (e, _, s, note) = gen::cycle_nest(r, r_deep(b));
                let mut o = Op::new(e, &s);
                if r.pct(30) {
                    o.faults.push(plan::draw_fault(r, s.as_bytes()));
                }
                if !self.try_ops(r, vec![o], note, |_| ()) {
                    return false;
                }
                // more items than sixteen bits count
                if b % 8 == 3 {
                    let k = b as usize / 8;
                    let o = if k % 3 < 2 {
                        let (e, s) = gen::flat(gen::FLAT[k % gen::FLAT.len()].0, 65_600);
                        Op::new(e, &s)
                    } else {
                        op_of(&gen::mono(r, k % gen::MONO, 300_000))
                    };
                    if !self.try_ops(r, vec![o], "giant".into(), |_| ()) {
                        return false;
                    }
                }
            }
            "C02" => {
                // one thread reads seventy thousand of one thing, call after call
                let (nf, nn) = (gen::FLAT.len(), gen::NEST.len());
                let k = ((b + self.seed * 7) * 29 % (nf + nn + gen::MONO) as u64) as usize;
                let (e, s, n) = if k < nf {
                    let (e, s) = gen::flat(gen::FLAT[k].0, 900);
                    (e, s, 900)
                } else if k < nf + nn {
                    let (e, _, s) = gen::nest(gen::NEST[k - nf].0, 60);
                    (e, s, 60)
                } else {
                    let t = gen::mono(r, k - nf - nn, 9000);
                    (t.entry, t.s, 400)
                };
                let steps = self.reference(e, &s).steps.max(1);
                let (goal, far) = far_count(r);
                let most = if self.thorough || far { 700_000_000 } else { 130_000_000 };
                let mut ops = vec![Op::new(e, &s)];
                ops[0].buf = if r.pct(50) { Buf::Slot } else { Buf::Fresh(0) };
                let reps = (goal / n).min(most / steps).max(2) as u32;
                // now and then cut off, and something else
                let mut o = ops[0].clone();
                o.faults.push(Fault::Cut(r.range(1, s.len() as u64 - 1) as u32));
                if r.pct(30) {
                    ops.push(o);
                }
                let t = gen::small_text(r);
                if t.s.len() < 300 {
                    ops.push(op_of(&t));
                }
                if !self.try_ops(r, ops, format!("marathon {k}"), |p| p.reps = reps) {
                    return false;
                }
            }
            _ => {}
        }
        true
    }

    fn block_c01(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 24);
        // many names, all of them different
        for _ in 0..3 {
            let mut p = Plan::new("C01", r.next());
            let n = r.range(2, 4) as usize;
            let per = dict::size(r, 30, 2000, 50).unwrap_or_else(|| r.range(30, 300)) as usize * 3 / 2 / n;
            let kind = *r.pick(&["triples", "objects", "prefixes", "binds", "values-one", "path-alt", "from", "template", "describe-list", "local-names", "local-names"]);
            let mut from = 0;
            for c in 0..n {
                let mut ops = vec![];
                let mut k = 0;
                while k < per {
                    let m = r.range(1, 1 + per.min(40) as u64) as usize;
                    let (e, s) = if kind == "local-names" {
                        (0, format!("ASK {{ ex:aa :bb 1 {}}}", ". ex:aa :bb zz:cc ".repeat(m)))
                    } else {
                        gen::flat(kind, m)
                    };
                    // now and then the names another one brings as well
                    let first = if r.pct(80) { from } else { r.below(from as u64 + 1) as usize };
                    let mut o = Op::new(e, &gen::vary_from(&s, first));
                    o.keep = draw_keep(r);
                    ops.push(o);
                    k += m;
                    from += 3 * m;
                }
                p.clients.push(client(ops));
                if c > 0 && r.pct(20) {
                    p.clients[c].ops = p.clients[0].ops.clone();
                }
            }
            let total = self.est_steps(&p);
            p.policy = draw_policy(r, total, self.shared_seen);
            if !self.try_plan(p) {
                return false;
            }
        }
        // texts of one construct that touch shared memory most often, if any do
        let mut hot: Vec<(usize, Text)> = vec![];
        for k in 0..10 {
            let len = r.range(60, 900) as usize;
            let t = if k < 7 { gen::mono(r, (b as usize * 7 + k) % gen::MONO, len) } else { pool.pick(r).clone() };
            let n = self.reference(t.entry, &t.s).shared.len();
            if n > 0 {
                hot.push((n, t));
            }
        }
        hot.sort_by_key(|x| (24 - x.0.min(24), x.1.s.len()));
        hot.truncate(3);
        // the same construct over and over on every thread, a switch at every other access
        for _ in 0..if self.shared_seen { 14 } else { 3 } {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C01", r.next());
            let n = r.range(2, 6) as usize;
            let tokens = r.pct(if hot.is_empty() { 40 } else { 20 });
            let warm = if hot.is_empty() || r.pct(10) { None } else { Some(hot[r.idx(hot.len())].1.clone()) };
            let kind = r.idx(gen::MONO);
            let variants = token_texts(r, n * 6);
            for c in 0..n {
                let mut ops = vec![];
                for k in 0..if tokens { 6 } else { r.range(1, 2) as usize } {
                    let mut o = if tokens {
                        let (e, s) = &variants[c * 6 + k];
                        Op::new(*e, s)
                    } else if let Some(t) = &warm {
                        let mut t = t.clone();
                        for _ in 0..r.below(4) {
                            t = gen::near(r, &t);
                        }
                        op_of(&t)
                    } else {
                        let len = r.range(60, 900) as usize;
                        op_of(&gen::mono(r, kind, len))
                    };
                    o.buf = draw_buf(r);
                    o.keep = draw_keep(r);
                    ops.push(o);
                }
                p.clients.push(client(ops));
            }
            let total = self.est_steps(&p);
            p.policy = match r.below(8) {
                0..=4 if self.shared_seen => Policy::Shared(*r.pick(&[15u64, 30, 50, 70, 90]), r.next()),
                0..=2 => Policy::Slices(1, 60),
                3 => Policy::Slices(20, 400),
                _ => draw_policy(r, total, self.shared_seen),
            };
            if !self.try_plan(p) {
                return false;
            }
        }
        for i in 0..40 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C01", r.next());
            let crowd = i == 39 && b % 4 == 0;
            let n = if crowd { r.range(40, 90) } else { r.range(2, 5) } as usize;
            let focus = r.below(4);
            let one = pool.op(r, 20);
            let few: Vec<Op> = (0..3).map(|_| pool.op(r, 20)).collect();
            for _ in 0..n {
                let k = if crowd { 1 } else { r.range(1, 4) } as usize;
                let mut ops = vec![];
                for _ in 0..k {
                    let mut op = match focus {
                        0 => one.clone(),
                        1 => few[r.idx(3)].clone(),
                        _ => pool.op(r, 25),
                    };
                    op.buf = if focus == 0 && r.pct(60) { Buf::Shared } else { draw_buf(r) };
                    op.keep = draw_keep(r);
                    op.moment = r.pct(3) as u8;
                    if r.pct(3) {
                        op.oom[0] = r.range(1, 60) as u32;
                    }
                    if r.pct(4) {
                        op.depth = draw_depth(r);
                    }
                    ops.push(op);
                }
                p.clients.push(client(ops));
            }
            if i == 19 {
                // long texts at the same time
                let t = draw_long(r, 40_000);
                for c in &mut p.clients {
                    let mut o = op_of(&t);
                    if r.pct(30) {
                        o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
                    }
                    o.buf = if r.pct(50) { Buf::Shared } else { draw_buf(r) };
                    o.keep = draw_keep(r);
                    let at = r.idx(c.ops.len() + 1);
                    c.ops.insert(at, o);
                }
            }
            stagger(r, &mut p);
            draw_memory(r, &mut p);
            let total = self.est_steps(&p);
            p.policy = draw_policy(r, total, self.shared_seen);
            if crowd {
                p.policy = Policy::Slices(20, 3000);
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c02(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 40);
        for i in 0..12 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C02", r.next());
            let long = i == 11;
            let n_clients = if r.pct(25) { r.range(2, 3) } else { 1 };
            let n = match i {
                0..=5 => r.range(2, 12),
                6..=9 => r.range(20, 80),
                _ => r.range(100, 300),
            } as usize;
            // histories revisit few texts and their near-repeats
            let m = r.range(1, 12) as usize;
            let some: Vec<Op> = (0..m)
                .map(|_| {
                    let mut o = pool.op(r, 30);
                    if r.pct(30) {
                        let t = Text { s: o.base.clone(), entry: o.entry, open: vec![], family: "" };
                        o.base = gen::near(r, &t).s;
                        o.faults.clear();
                    }
                    o
                })
                .collect();
            let slot = r.pct(60);
            for _ in 0..n_clients {
                let mut ops = vec![];
                for _ in 0..n {
                    let mut op = if r.pct(75) { some[r.idx(m)].clone() } else { pool.op(r, 30) };
                    if r.pct(15) {
                        let t = Text { s: op.base.clone(), entry: op.entry, open: vec![], family: "" };
                        op.base = gen::near(r, &t).s;
                    }
                    if r.pct(5) {
                        op.entry = gen::draw_entry(r);
                    }
                    op.buf = if slot { Buf::Slot } else { draw_buf(r) };
                    op.keep = draw_keep(r);
                    if op.keep == Keep::Elsewhere && r.pct(50) {
                        op.keep = Keep::End;
                    }
                    if r.pct(2) {
                        op.oom[0] = r.range(1, 60) as u32;
                    }
                    if r.pct(3) {
                        op.depth = draw_depth(r);
                    }
                    ops.push(op);
                }
                p.clients.push(client(ops));
            }
            if i == 5 || i == 8 {
                // a long text somewhere in the history, and again later
                let t = draw_long(r, 60_000);
                for _ in 0..2 {
                    let c = r.idx(p.clients.len());
                    let at = r.idx(p.clients[c].ops.len() + 1);
                    let mut o = op_of(&t);
                    o.buf = if slot { Buf::Slot } else { draw_buf(r) };
                    o.keep = draw_keep(r);
                    if r.pct(30) {
                        o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
                    }
                    p.clients[c].ops.insert(at, o);
                }
            }
            draw_memory(r, &mut p);
            if n_clients > 1 {
                p.policy = if r.pct(70) || i == 5 || i == 8 { Policy::Ops } else { Policy::Slices(1000, 60_000) };
            }
            if long && n_clients == 1 {
                p.reps = if self.thorough { 40 } else { 6 };
                for o in &mut p.clients[0].ops {
                    o.oom = [0; 4];
                }
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        // one token in many little variants
        for _ in 0..4 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C02", r.next());
            let n = r.range(2, 40) as usize;
            let texts = token_texts(r, n);
            let slot = r.pct(50);
            let mut ops = vec![];
            for _ in 0..n * 3 {
                let (e, s) = &texts[r.idx(n)];
                let mut o = Op::new(*e, s);
                o.buf = if slot { Buf::Slot } else { draw_buf(r) };
                o.keep = draw_keep(r);
                if o.keep == Keep::Elsewhere {
                    o.keep = Keep::End;
                }
                ops.push(o);
            }
            p.clients.push(client(ops));
            draw_memory(r, &mut p);
            if !self.try_plan(p) {
                return false;
            }
        }
        // pairs of texts of the same shape and length, their names different, all or one
        for j in 0..4 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C02", r.next());
            let mut ops = vec![];
            for i in 0..10 {
                let (e, s) = self.structured(r, ((b * 4 + j) * 10 + i) as usize + self.seed as usize * 17);
                let ten = 10usize.pow(r.range(1, 4) as u32);
                let mut four = vec![];
                for _ in 0..3 {
                    let first = r.range(ten as u64, 2 * ten as u64) as usize;
                    four.push(gen::vary_from(&s, first));
                }
                let digits: Vec<usize> = (0..four[0].len()).filter(|&k| four[0].as_bytes()[k].is_ascii_digit()).collect();
                if !digits.is_empty() {
                    let mut t = four[0].clone().into_bytes();
                    t[digits[r.idx(digits.len())]] = b'0' + r.below(10) as u8;
                    four.push(String::from_utf8(t).unwrap_or_default());
                }
                let slot = r.pct(50);
                for k in 0..r.range(4, 8) {
                    let mut o = Op::new(e, &four[if k < 2 { 3 * k as usize % four.len() } else { r.idx(four.len()) }]);
                    o.buf = if slot { Buf::Slot } else { draw_buf(r) };
                    o.keep = if r.pct(70) { Keep::Drop } else { Keep::End };
                    ops.push(o);
                }
            }
            p.clients.push(client(ops));
            draw_memory(r, &mut p);
            if !self.try_plan(p) {
                return false;
            }
        }
        // a text, the same spoilt, each several times running, to and fro
        for _ in 0..4 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C02", r.next());
            let mut good = pool.op(r, 0);
            let level = good.faults.is_empty() && r.pct(30);
            if level {
                good.base = lengthened(r, &good.base);
                good.open.clear();
            }
            let mut texts = vec![good.base.clone()];
            for _ in 0..r.range(1, 5) {
                if level {
                    texts.push(balanced(r, &good.base));
                    continue;
                }
                let t = Text { s: good.base.clone(), entry: good.entry, open: vec![], family: "" };
                texts.push(if r.pct(75) { spoilt(r, &good.base) } else { gen::near(r, &t).s });
            }
            let slot = r.pct(50);
            let mut ops = vec![];
            let most = if good.base.len() < 2000 && r.pct(30) { 300 } else { 17 };
            for k in 0..r.range(3, 9) as usize {
                let s = if k % 2 == 0 && r.pct(60) { &texts[0] } else { &texts[r.idx(texts.len())] };
                let times = if r.pct(20) { r.range(1, most) } else { r.range(1, 6) };
                for _ in 0..times {
                    let mut o = Op::new(good.entry, s);
                    o.buf = if slot { Buf::Slot } else { draw_buf(r) };
                    o.keep = if r.pct(80) { Keep::Drop } else { Keep::End };
                    ops.push(o);
                }
            }
            p.clients.push(client(ops));
            draw_memory(r, &mut p);
            if !self.try_plan(p) {
                return false;
            }
        }
        // marathons: tens of thousands of calls in one process
        let every = if self.thorough { 8 } else { 32 };
        if b % every < 8 && b / every < 64 && self.time_left() {
            let mut p = Plan::new("C02", r.next());
            let mut ops = vec![];
            let short = ["ASK { }", "SELECT * { }", "SELECT ?x { ?x <p> 1 }", "ASK {", "DESCRIBE <a> ", "PREFIX e: <u> ASK { }", "x", ""];
            for _ in 0..r.range(2, 9) {
                let s = *r.pick(&short);
                let mut op = Op::new(if r.pct(80) { 0 } else { gen::draw_entry(r) }, s);
                op.buf = draw_buf(r);
                op.keep = if r.pct(80) { Keep::Drop } else { Keep::Forever };
                ops.push(op);
            }
            let k = ops.len() as u32;
            p.clients.push(client(ops));
            p.reps = far_count(r).0 as u32 / k;
            if !self.try_plan(p) {
                return false;
            }
        }
        // the same few texts with other names in every round
        if self.time_left() {
            let mut p = Plan::new("C02", r.next());
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                let mut o = pool.op(r, 5);
                o.faults.clear();
                let n = r.range(1, 9) as usize;
                o.base = plan::put_marks(r, &o.base, n, false);
                o.buf = if r.pct(50) { Buf::Slot } else { Buf::Fresh(r.below(8) as u8) };
                o.keep = if r.pct(70) { Keep::Drop } else { Keep::End };
                ops.push(o);
            }
            p.clients.push(client(ops));
            p.fresh = true;
            let steps = self.est_steps(&p).max(1);
            let most = if self.thorough { 400_000_000 } else { 25_000_000 };
            p.reps = (dict::size(r, 50, 20_000, 40).unwrap_or_else(|| *r.pick(&[100, 300, 1100, 4500])) as u64)
                .min(most / steps)
                .max(2) as u32;
            if !self.try_plan(p) {
                return false;
            }
        }
        // thousands of different texts, each name and value its own; a sample of them judged
        if b % 4 == 1 && self.time_left() {
            let mut p = Plan::new("C02", r.next());
            let n = dict::size(r, 100, 20_000, 50).unwrap_or_else(|| *r.pick(&[300, 1100, 2200, 4500])) as u32;
            let kind = r.below(6);
            let base = r.below(1_000_000);
            let mut ops = vec![];
            for k in 0..n as u64 + 40 {
                let x = base + k;
                let s = match kind {
                    0 => format!("ASK {{ ?v{x} <p{x}> 's{x}' }}"),
                    1 => format!("PREFIX n{x}: <http://e/{x}#> ASK {{ ?v n{x}:l{x} $o }}"),
                    2 => format!("CONSTRUCT {{ _:b{x} <p> {x} }} WHERE {{ }} "),
                    3 => format!("SELECT ?a{x} {{ VALUES ?a{x} {{ <i{x}> {x}.5 'q'@en }} }} LIMIT {x}"),
                    4 => format!("DESCRIBE <d{x}> n:a{x} {{ FILTER (?x{x} = {x} ) }}"),
                    _ => format!("INSERT DATA {{ <s{x}> <p{x}> 'o{x}'^^t:y{x} }}"),
                };
                let mut o = Op::new(match kind { 5 => 7, 4 => 4, 2 => 3, _ => 0 }, &s);
                o.buf = if r.pct(50) { Buf::Slot } else { Buf::Fresh(r.below(8) as u8) };
                o.keep = if r.pct(5) { Keep::End } else { Keep::Drop };
                ops.push(o);
            }
            // and the first of them once more
            for k in 0..30.min(ops.len()) {
                let o = ops[k].clone();
                ops.push(o);
            }
            p.sample = (ops.len() as u32 / 60).max(1);
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c03(&mut self, r: &mut Rng) -> bool {
        let pool = Pool::draw(r, 16);
        for _ in 0..40 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C03", r.next());
            let n = if r.pct(50) { 1 } else { r.range(2, 4) } as usize;
            for _ in 0..n {
                let mut ops = vec![];
                let k = r.range(1, 3);
                for _ in 0..k {
                    let mut op = pool.op(r, 20);
                    op.buf = draw_buf(r);
                    let al = self.reference(op.entry, &op.delivered()).allocs.max(1) as u64;
                    let mut hit = op.clone();
                    hit.oom[0] = r.range(1, al) as u32;
                    if r.pct(20) {
                        hit.oom[1] = r.range(1, al + 3) as u32;
                    }
                    hit.moment = r.pct(8) as u8;
                    ops.push(hit);
                    if r.pct(60) {
                        // the same text again, now with memory
                        let mut again = op.clone();
                        again.keep = draw_keep(r);
                        ops.push(again);
                    }
                    if r.pct(50) {
                        let mut other = pool.op(r, 20);
                        other.buf = draw_buf(r);
                        other.keep = draw_keep(r);
                        ops.push(other);
                    }
                }
                // at least one call nothing happens to
                let mut last = pool.op(r, 10);
                last.keep = Keep::Drop;
                ops.push(last);
                p.clients.push(client(ops));
            }
            draw_memory(r, &mut p);
            if n > 1 {
                stagger(r, &mut p);
                let total = self.est_steps(&p);
                p.policy = draw_policy(r, total, self.shared_seen);
                p.phases = 1;
            }
            if r.pct(50) {
                p.phases = 6;
                p.policy = Policy::None;
                if n == 1 && r.pct(40) {
                    // the rounds on one thread, which may keep things for itself
                    (p.phases, p.reps) = (1, 8);
                    fixed_bufs(&mut p);
                }
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        // a storm: one thread runs out of memory hundreds or thousands of times, then works on
        if self.time_left() {
            let mut p = Plan::new("C03", r.next());
            let mut kinds = vec![];
            for _ in 0..r.range(1, 4) {
                let mut o = if r.pct(50) {
                    let k = gen::NEST[r.idx(gen::NEST.len())].0;
                    let d = r.range(2, 9) as usize;
                    let (e, cut, whole) = gen::nest(k, d);
                    Op::new(e, if r.pct(30) { &cut } else { &whole })
                } else {
                    op_of(pool.pick(r))
                };
                let f = self.reference(o.entry, &o.base);
                if f.bad.is_some() || f.allocs == 0 || f.steps > 400_000 {
                    continue;
                }
                o.buf = draw_buf(r);
                kinds.push((o, f.allocs as u64, f.steps));
            }
            if !kinds.is_empty() {
                let steps: u64 = kinds.iter().map(|k| k.2).sum::<u64>() / kinds.len() as u64;
                let n = dict::size(r, 10, 5000, 60).unwrap_or_else(|| r.range(100, 1500)).min(60_000_000 / steps.max(1000));
                let last = r.pct(50);
                let mut ops = vec![];
                for _ in 0..n {
                    let (o, al, _) = r.pick(&kinds);
                    let mut o = o.clone();
                    // late in the parse, where most is open, or anywhere
                    let lo = if last { *al * 2 / 3 } else { 0 };
                    o.oom[0] = r.range(lo.max(1), *al) as u32;
                    ops.push(o);
                }
                for (o, _, _) in &kinds {
                    ops.push(o.clone());
                }
                for _ in 0..4 {
                    ops.push(pool.op(r, 10));
                }
                p.clients.push(client(ops));
                draw_memory(r, &mut p);
                if r.pct(30) {
                    // the others see it too
                    let ops: Vec<Op> = (0..4).map(|_| pool.op(r, 10)).collect();
                    p.clients.push(Client { start_ns: 1_000_000_000_000, ..client(ops) });
                }
                if !self.try_plan(p) {
                    return false;
                }
            }
        }
        // every allocation of one text, one after the other
        let t = pool.pick(r).clone();
        let rf = self.reference(t.entry, &t.s);
        if rf.bad.is_none() && rf.allocs > 0 && self.time_left() {
            let mut p = Plan::new("C03", r.next());
            let mut ops = vec![];
            let most = rf.allocs.min(400);
            for k in 1..=most {
                let mut op = op_of(&t);
                op.oom[0] = if rf.allocs <= 400 { k } else { r.range(1, rf.allocs as u64) as u32 };
                op.buf = Buf::Slot;
                ops.push(op);
                if k % 7 == 0 {
                    ops.push(op_of(&t));
                }
            }
            ops.push(op_of(&t));
            p.clients.push(client(ops));
            if r.pct(50) {
                p.reps = 4;
                fixed_bufs(&mut p);
            } else {
                p.phases = 4;
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    /// A step at which to suspend a caller: where it touches shared memory, if it does.
    fn draw_stall(&mut self, r: &mut Rng, op: &Op) -> u64 {
        let f = self.reference(op.entry, &op.delivered());
        let steps = f.steps.max(2);
        if !f.shared.is_empty() && r.pct(60) {
            return (*r.pick(&f.shared) as u64 + r.below(3)).clamp(1, steps - 1);
        }
        r.range(1, steps - 1)
    }

    fn block_c04(&mut self, r: &mut Rng) -> bool {
        let pool = Pool::draw(r, 16);
        for i in 0..60 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C04", r.next());
            // one (sometimes two) callers suspended at an arbitrary step, others working through
            let mut op = pool.op(r, 10);
            op.stall_at = self.draw_stall(r, &op);
            op.buf = draw_buf(r);
            let mut first = vec![];
            if r.pct(25) {
                first.push(pool.op(r, 10));
            }
            let same = op.clone();
            first.push(op);
            p.clients.push(client(first));
            if r.pct(20) {
                let mut o2 = pool.op(r, 10);
                o2.stall_at = self.draw_stall(r, &o2);
                p.clients.push(client(vec![o2]));
            }
            for _ in 0..r.range(1, 3) {
                let mut ops = vec![];
                if r.pct(70) {
                    let mut o = same.clone();
                    o.stall_at = 0;
                    ops.push(o);
                }
                for _ in 0..r.range(1, 4) {
                    let mut o = pool.op(r, 15);
                    o.keep = draw_keep(r);
                    o.buf = draw_buf(r);
                    ops.push(o);
                }
                p.clients.push(Client { start_ns: if r.pct(70) { 1_000_000_000 } else { 0 }, ..client(ops) });
            }
            if i == 30 {
                let t = draw_long(r, 30_000);
                for c in &mut p.clients {
                    let mut o = op_of(&t);
                    if c.ops.iter().any(|o| o.stall_at > 0) && r.pct(50) {
                        o.stall_at = self.draw_stall(r, &o);
                    }
                    c.ops.push(o);
                }
            }
            if i % 4 == 3 {
                // several suspended at the same place, one after the other
                let (at, s) = {
                    let o = p.clients[0].ops.iter().find(|o| o.stall_at > 0).unwrap();
                    (o.stall_at, o.clone())
                };
                let more = dict::size(r, 1, 16, 30).unwrap_or_else(|| r.range(1, 8)) as usize;
                for k in 0..more {
                    let mut o = s.clone();
                    o.stall_at = at + if r.pct(30) { r.below(4 + k as u64 * 3) } else { 0 };
                    o.buf = draw_buf(r);
                    p.clients.insert(1, client(vec![o]));
                }
            }
            draw_memory(r, &mut p);
            p.policy = if r.pct(60) || i == 30 { Policy::None } else { Policy::Slices(50, 5000) };
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c05(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 24);
        let mut p = Plan::new("C05", r.next());
        // every other time as compiled without optimisation
        p.note = format!("image {}{}", r.below(1 << 14), if b % 2 == 0 { " debug" } else { "" });
        p.clients.push(client((0..60).map(|_| pool.op(r, 15)).collect()));
        if !self.try_plan(p) {
            return false;
        }
        for i in 0..40 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C05", r.next());
            p.world = plan::draw_world(r);
            draw_memory(r, &mut p);
            p.base_off = r.below(1 << 20) as u32;
            p.spare_threads = *r.pick(&[0u32, 0, 1, 2, 7, 40]);
            let n = r.range(1, 3);
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..r.range(1, 6) {
                    let mut op = pool.op(r, 15);
                    op.buf = place(r, op.base.len());
                    op.keep = draw_keep(r);
                    if r.pct(40) {
                        op.gap_ns = r.below(5_000_000_000);
                    }
                    if r.pct(25) {
                        op.depth = draw_depth(r);
                    }
                    op.moment = draw_moment(r, 25);
                    ops.push(op);
                }
                if i % 20 == 11 {
                    let mut o = op_of(&draw_long(r, 60_000));
                    o.buf = place(r, o.base.len());
                    if r.pct(30) {
                        o.depth = draw_depth(r);
                    }
                    ops.push(o);
                }
                let mut c = client(ops);
                c.name = draw_name(r, 60);
                c.stack_kb = *r.pick(&[STACK_KB, STACK_KB + 4, STACK_KB * 2, 24 << 10]);
                c.start_ns = r.below(1_000_000);
                p.clients.push(c);
            }
            p.policy = if r.pct(60) || i % 20 == 11 { Policy::Ops } else { Policy::Slices(500, 50_000) };
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c06(&mut self, r: &mut Rng) -> bool {
        let pool = Pool::draw(r, 40);
        for i in 0..40 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C06", r.next());
            p.world = plan::draw_world(r);
            let n = if r.pct(70) { 1 } else { 2 };
            for _ in 0..n {
                let ops: Vec<Op> = (0..r.range(2, 12))
                    .map(|_| {
                        let mut o = pool.op(r, 35);
                        o.keep = draw_keep(r);
                        o.buf = draw_buf(r);
                        if r.pct(3) {
                            o.oom[0] = r.range(1, 50) as u32;
                        }
                        o
                    })
                    .collect();
                p.clients.push(client(ops));
            }
            if i % 20 == 9 {
                let t = draw_long(r, 70_000);
                let mut o = op_of(&t);
                if r.pct(40) {
                    o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
                }
                p.clients[0].ops.push(o);
            }
            if i == 15 {
                let k = gen::NEST[r.idx(gen::NEST.len())].0;
                let d = dict::size(r, 4, 150, 50).unwrap_or_else(|| r.range(15, 100)) as usize;
                let (e, cut, whole) = gen::nest(k, d);
                p.clients[0].ops.push(Op::new(e, if r.pct(30) { &cut } else { &whole }));
            }
            if n > 1 {
                p.policy = if i % 20 == 9 { Policy::Ops } else { Policy::Slices(50, 20_000) };
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c07(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 40);
        for i in 0..24 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C07", r.next());
            let n = if r.pct(60) { 1 } else { r.range(2, 3) } as usize;
            for _ in 0..n {
                let ops: Vec<Op> = (0..r.range(3, 20))
                    .map(|_| {
                        let mut o = pool.op(r, 35);
                        o.buf = draw_buf(r);
                        o.keep = draw_keep(r);
                        if r.pct(4) {
                            o.oom[0] = r.range(1, 80) as u32;
                        }
                        o
                    })
                    .collect();
                p.clients.push(client(ops));
            }
            if n == 1 && r.pct(60) {
                p.reps = 8;
                if i == 23 {
                    p.reps = 200;
                }
                for o in &mut p.clients[0].ops {
                    if o.buf == Buf::Slot {
                        o.buf = Buf::Fresh(0);
                    }
                }
            } else {
                p.phases = 6;
                p.policy = if n > 1 && r.pct(50) { Policy::Ops } else { Policy::None };
            }
            draw_memory(r, &mut p);
            if p.reuse == 2 {
                p.reuse = 0;
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        // new names in every round: nothing of them may stay
        for _ in 0..3 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C07", r.next());
            let mut ops = vec![];
            for _ in 0..r.range(1, 5) {
                let mut o = pool.op(r, 10);
                let n = r.range(1, 8) as usize;
                o.base = plan::put_marks(r, &o.base, n, true);
                o.buf = Buf::Fresh(r.below(8) as u8);
                o.keep = if r.pct(80) { Keep::Drop } else { Keep::Later };
                o.faults.retain(|f| matches!(f, Fault::Cut(_)));
                ops.push(o);
            }
            p.clients.push(client(ops));
            p.fresh = true;
            p.reps = 300;
            if r.pct(30) {
                p.reps = 1;
                p.phases = 24;
            }
            draw_memory(r, &mut p);
            if p.reuse == 2 {
                p.reuse = 0;
            }
            if !self.try_plan(p) {
                return false;
            }
        }
        // growth of every nested and flat family, whole, cut at the innermost point, and damaged
        let (nn, nf) = (gen::NEST.len(), gen::FLAT.len());
        for j in 0..4 {
            let k = (b as usize * 4 + j) % (nn + nf);
            let (kind, n) = if k < nn { (gen::NEST[k].0, 50) } else { (gen::FLAT[k - nn].0, if self.thorough { 800 } else { 200 }) };
            for variant in 0..4 {
                if variant == 3 && k >= nn || !self.time_left() {
                    continue;
                }
                let p = growth_plan("C07", kind, n, variant, r.next());
                if !self.try_plan(p) {
                    return false;
                }
            }
        }
        // memory in proportion, for long flat texts
        let (k, _) = gen::FLAT[(b as usize) % gen::FLAT.len()];
        let (e, s) = gen::flat(k, if self.thorough { 3000 } else { 600 });
        let mut p = Plan::new("C07", r.next());
        p.clients.push(client(vec![Op::new(e, &s)]));
        p.phases = 4;
        if !self.try_plan(p) {
            return false;
        }
        // and for long texts of many kinds of items, long tokens, deep nests
        for i in 0..7 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C07", r.next());
            let mut o = if i == 4 {
                let k = gen::NEST[r.idx(gen::NEST.len())].0;
                let d = dict::size(r, 4, 200, 50).unwrap_or_else(|| r.range(15, 120)) as usize;
                let (e, cut, whole) = gen::nest(k, d);
                Op::new(e, if r.pct(30) { &cut } else { &whole })
            } else if i > 4 {
                let n = if self.thorough { 120_000 } else { 45_000 };
                let k = (2 * b as usize + i) % gen::MONO;
                let len = r.range(n / 8, n) as usize;
                op_of(&gen::mono(r, k, len))
            } else {
                op_of(&draw_long(r, if self.thorough { 60_000 } else { 25_000 }))
            };
            if r.pct(30) {
                o.faults.push(plan::draw_fault(r, o.base.as_bytes()));
            }
            p.clients.push(client(vec![o]));
            p.phases = 4;
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c14(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 16);
        for i in 0..40 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C14", r.next());
            let n = if r.pct(25) { 1 } else { r.range(2, 4) } as usize;
            let few: Vec<Op> = (0..2).map(|_| pool.op(r, 8)).collect();
            let focus = r.below(3);
            let mut most = 1;
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..r.range(2, 6) {
                    let mut op = if focus == 0 { few[r.idx(2)].clone() } else { pool.op(r, 8) };
                    if i == 39 {
                        op = op_of(&draw_long(r, 12_000));
                    }
                    op.buf = draw_buf(r);
                    op.keep = if r.pct(75) { Keep::Shelf } else { draw_keep(r) };
                    most = most.max(self.reference(op.entry, &op.delivered()).allocs as u64);
                    for _ in 0..r.below(5) {
                        let what = *r.pick(&plan::WHATS);
                        let what = if what == plan::What::Drop && r.pct(60) { plan::What::Compare } else { what };
                        let oom = if r.pct(35) { r.range(1, most + 4) as u32 } else { 0 };
                        op.acts.push(plan::Act { what, a: r.below(12) as u32, b: r.below(12) as u32, oom });
                    }
                    ops.push(op);
                }
                p.clients.push(client(ops));
            }
            p.phases = if r.pct(50) { 4 } else { 1 };
            stagger(r, &mut p);
            draw_memory(r, &mut p);
            if p.phases > 1 && p.reuse == 2 {
                p.reuse = 0;
            }
            let total = self.est_steps(&p) * 2;
            let shared = self.shared_seen || r.pct(30);
            p.policy = draw_policy(r, total, shared);
            let _ = b;
            if !self.try_plan(p) {
                return false;
            }
        }
        // one text, and texts that differ from it in one character, each compared with it
        for _ in 0..8 {
            if !self.time_left() {
                return true;
            }
            let t = pool.pick(r).clone();
            if t.s.len() > 600 || self.reference(t.entry, &t.s).ans.kind != b'O' {
                continue;
            }
            let mut p = Plan::new("C14", r.next());
            let mut first = op_of(&t);
            first.keep = Keep::Shelf;
            let mut ops = vec![first];
            let cs: Vec<char> = t.s.chars().collect();
            let step = 1 + cs.len() / 90;
            for at in (r.idx(step)..cs.len()).step_by(step) {
                let mut v = cs.clone();
                let c = v[at];
                let flip = c.is_ascii_alphabetic() && r.pct(60);
                v[at] = match c {
                    _ if flip => (c as u8 ^ 32) as char,
                    '0'..='9' => (b'0' + (c as u8 - b'0' + r.range(1, 9) as u8) % 10) as char,
                    'a'..='z' | 'A'..='Z' => (b'a' + r.below(26) as u8) as char,
                    '+' => '-',
                    '-' => '+',
                    '<' => '>',
                    '>' => '<',
                    '*' => '+',
                    '$' => '?',
                    '?' => '$',
                    '.' => ';',
                    ';' => ',',
                    ' ' | '\n' | '\t' | '\r' => *r.pick(&[' ', '\n', '\t']),
                    _ if c.is_ascii() => continue,
                    _ => r.pick(&gen::EDGE).chars().next().unwrap_or('x'),
                };
                let mut op = op_of(&Text { s: v.into_iter().collect(), entry: t.entry, open: vec![], family: "near-repeat" });
                op.keep = Keep::Shelf;
                if self.reference(op.entry, &op.delivered()).ans.kind != b'O' {
                    continue;
                }
                // the second answer there is, compared both ways, and then put away
                op.acts.push(plan::Act { what: plan::What::Compare, a: 0, b: 1, oom: 0 });
                op.acts.push(plan::Act { what: plan::What::Drop, a: 1, b: 1, oom: 0 });
                ops.push(op);
            }
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
        }
        // every allocation of a copy and of a print fails once
        for _ in 0..3 {
            if !self.time_left() {
                return true;
            }
            let mut op = pool.op(r, 0);
            let f = self.reference(op.entry, &op.delivered());
            if f.bad.is_some() || f.ans.kind != b'O' || f.allocs > 400 {
                continue;
            }
            op.keep = Keep::Shelf;
            for k in 1..=f.allocs as u32 + 1 {
                op.acts.push(plan::Act { what: plan::What::Copy, a: 0, b: 0, oom: k });
                if k < 16 {
                    op.acts.push(plan::Act { what: plan::What::Print, a: 0, b: 0, oom: k });
                }
            }
            let mut p = Plan::new("C14", r.next());
            p.clients.push(client(vec![op]));
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_damage(&mut self, r: &mut Rng, b: u64) -> bool {
        let pool = Pool::draw(r, 48);
        for i in 0..24 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new(&self.prop, r.next());
            let ops: Vec<Op> = (0..60)
                .map(|_| {
                    let mut o = pool.op(r, 97);
                    if r.pct(10) {
                        // two texts spliced by a confused connection
                        let t = pool.pick(r);
                        let cut = r.below(t.s.len() as u64 + 1) as u32;
                        let at = r.below(o.base.len() as u64 + 1) as u32;
                        let tail = &t.s.as_bytes()[cut as usize..];
                        o.faults.push(Fault::Insert(at, tail.to_vec()));
                    }
                    if r.pct(4) {
                        o.entry = gen::draw_entry(r);
                    }
                    o.keep = draw_keep(r);
                    o
                })
                .collect();
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
            if i == 4 {
                let t = draw_long(r, 40_000);
                let mut p = Plan::new(&self.prop, r.next());
                let ops: Vec<Op> = (0..6)
                    .map(|_| {
                        let mut o = op_of(&t);
                        for _ in 0..r.range(0, 2) {
                            o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
                        }
                        o
                    })
                    .collect();
                p.clients.push(client(ops));
                if !self.try_plan(p) {
                    return false;
                }
            }
            if i == 0 {
                // one multi-byte or structural character at every position of one text
                let t = pool.pick(r);
                if t.s.len() < 600 {
                    let c = if r.pct(50) {
                        *r.pick(&["\u{e9}", "\u{4e2d}", "\u{1F600}", "\"", "{", "<", "\\", "("])
                    } else {
                        *r.pick(&gen::EDGE)
                    };
                    let over = r.pct(50);
                    let mut p = Plan::new(&self.prop, b);
                    let ops: Vec<Op> = (0..=t.s.len() as u32)
                        .map(|k| {
                            let mut o = op_of(t);
                            let c = c.as_bytes().to_vec();
                            o.faults.push(if over { Fault::Over(k, c) } else { Fault::Insert(k, c) });
                            o
                        })
                        .collect();
                    p.clients.push(client(ops));
                    if !self.try_plan(p) {
                        return false;
                    }
                }
            }
        }
        true
    }

    fn block_cuts(&mut self, r: &mut Rng) -> bool {
        for i in 0..40 {
            if !self.time_left() {
                return true;
            }
            let t = match r.below(20) {
                0..=9 => gen::small_text(r),
                10 => draw_long(r, 6000),
                _ => gen::text(r),
            };
            if t.s.len() > 20_000 || t.s.is_empty() {
                continue;
            }
            let mut p = Plan::new(&self.prop, r.next());
            let open: Vec<(u32, u32)> = t.open.iter().map(|(a, b)| (*a as u32, *b as u32)).collect();
            // every character boundary of a short text, a sample of a long one
            let all: Vec<usize> = t.s.char_indices().map(|x| x.0).chain([t.s.len()]).collect();
            let mut at: Vec<usize> = if all.len() <= 300 {
                all
            } else {
                let n = if t.s.len() > 3000 { 60 } else { 200 };
                let mut v: Vec<usize> = (0..n).map(|_| *r.pick(&all)).collect();
                v.sort();
                v.dedup();
                v
            };
            if r.pct(30) {
                at.reverse();
            }
            let mut ops = vec![];
            let damaged = self.prop == "C09" && i % 3 == 2;
            let early = if damaged { Some(plan::draw_fault(r, t.s.as_bytes())) } else { None };
            for k in at {
                let mut o = op_of(&t);
                if let Some(f) = &early {
                    o.faults.push(f.clone());
                }
                o.faults.push(Fault::Cut(k as u32));
                if self.prop == "C13" {
                    o.open = open.clone();
                }
                ops.push(o);
            }
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
        }
        true
    }

    fn block_c10(&mut self, r: &mut Rng) -> bool {
        let pool = Pool::draw(r, 48);
        for i in 0..8 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C10", r.next());
            let ops: Vec<Op> = (0..24)
                .map(|_| {
                    let t = pool.pick(r);
                    let mut o = op_of(t);
                    match r.below(4) {
                        0 => {}
                        1 => {
                            // what follows the statement on the wire
                            let tail = ["\u{e9}", " ", "\n", ";", " }", "?x", " ?x", ")", "(", ",", "|", " UNION", " LIMIT", ".", "5", "e", "#", " VALUES", "'", ":", "a", "*", " *"];
                            let x = *r.pick(&tail);
                            o.faults.push(Fault::Insert(t.s.len() as u32, x.as_bytes().to_vec()));
                        }
                        2 => {
                            let u = pool.pick(r);
                            let b = u.s.as_bytes();
                            o.faults.push(Fault::Insert(t.s.len() as u32, b[..b.len().min(120)].to_vec()));
                        }
                        _ => o.faults.push(plan::draw_fault(r, t.s.as_bytes())),
                    }
                    o.buf = Buf::Fresh(r.below(16) as u8);
                    o
                })
                .collect();
            let _ = i;
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
        }
        // long texts
        if self.time_left() {
            let mut p = Plan::new("C10", r.next());
            let t = draw_long(r, 30_000);
            let ops: Vec<Op> = (0..3)
                .map(|k| {
                    let mut o = op_of(&t);
                    if k > 0 {
                        o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
                    }
                    o
                })
                .collect();
            p.clients.push(client(ops));
            if !self.try_plan(p) {
                return false;
            }
        }
        // one statement cut at every character: each accepted part is judged
        let t = gen::small_text(r);
        if t.s.len() < 120 {
            let mut p = Plan::new("C10", r.next());
            let ops: Vec<Op> = t
                .s
                .char_indices()
                .map(|(k, _)| {
                    let mut o = op_of(&t);
                    o.faults.push(Fault::Cut(k as u32));
                    o
                })
                .collect();
            p.clients.push(client(ops));
            return self.try_plan(p);
        }
        true
    }

    /// Three members of one family, each twice the one before: at most quadratic growth of the
    /// steps, linear growth of the memory held.
    fn growth(&mut self, p: &Plan, out: &Outcome) -> Option<Viol> {
        let mut w = p.note.split(' ');
        if w.next() != Some("growth") {
            return None;
        }
        let (kind, n, variant) = (w.next()?, w.next()?.parse::<usize>().ok()?, w.next()?.parse::<usize>().ok()?);
        let mut at: Vec<(f64, f64)> = vec![];
        for k in 0..3 {
            let (e, s) = gen::growing(kind, n << k, variant);
            let r = out.res.iter().find(|r| r.client == 0 && r.op == k as u32)?;
            if p.clients[0].ops.get(k)?.entry != e || p.clients[0].ops[k].delivered() != s {
                return None;
            }
            at.push((s.len() as f64, if p.prop == "C07" { r.peak as f64 } else { cost(r.steps, r.bytes) as f64 }));
        }
        let (most, least, what) = if p.prop == "C07" { (1.5, 60.0, "hold up to") } else { (2.35, 100.0, "take") };
        let unit = if p.prop == "C07" { "bytes" } else { "steps" };
        self.stats.add(K::checks, 1);
        let e = |k: usize| (at[k + 1].1 / at[k].1).ln() / (at[k + 1].0 / at[k].0).ln();
        if at[2].1 > least * at[2].0 && e(0) > most && e(1) > most {
            let what = format!(
                "{kind} ({n}, {} and {} items): texts of {}, {} and {} bytes {what} {}, {} and {} {unit}",
                n * 2, n * 4, at[0].0, at[1].0, at[2].0, at[0].1, at[1].1, at[2].1
            );
            return viol("growth", what);
        }
        None
    }

    fn block_c11(&mut self, r: &mut Rng, b: u64) -> bool {
        // growth of every nested and flat family, whole, cut at the innermost point, and damaged
        let nn = gen::NEST.len();
        let nf = gen::FLAT.len();
        for j in 0..4 {
            let k = (b as usize * 4 + j) % (nn + nf);
            let (kind, n) = if k < nn { (gen::NEST[k].0, 32) } else { (gen::FLAT[k - nn].0, if self.thorough { 800 } else { 200 }) };
            for variant in 0..4 {
                if variant == 3 && k >= nn || !self.time_left() {
                    continue;
                }
                let p = growth_plan("C11", kind, n, variant, r.next());
                if !self.try_plan(p) {
                    return false;
                }
            }
        }
        let fam = b as usize % (nn + nf + 8);
        if fam < nn {
            let k = gen::NEST[fam].0;
            for d in [3usize, 8, 16, 30, if self.thorough { 120 } else { 60 }] {
                for v in 0..4 {
                    if !self.time_left() {
                        return true;
                    }
                    let (e, cut, whole) = gen::nest(k, d);
                    let mut o = Op::new(e, &whole);
                    match v {
                        0 => {}
                        1 => o.faults.push(Fault::Cut(cut.len() as u32)),
                        2 => o.faults.push(Fault::Lose(whole.len() as u32 - 1, whole.len() as u32)),
                        _ => o.faults.push(plan::draw_fault(r, whole.as_bytes())),
                    }
                    let mut p = Plan::single("C11", o);
                    p.clients[0].stack_kb = 512 << 10;
                    p.note = format!("nest {k} {d}");
                    if !self.try_plan(p) {
                        return false;
                    }
                }
            }
        } else if fam < nn + nf {
            let k = gen::FLAT[fam - nn].0;
            for n in [20usize, 200, if self.thorough { 6000 } else { 1500 }] {
                for v in 0..3 {
                    if !self.time_left() {
                        return true;
                    }
                    let (e, s) = gen::flat(k, n);
                    let mut o = Op::new(e, &s);
                    match v {
                        0 => {}
                        1 => o.faults.push(Fault::Cut(s.len() as u32 - 1)),
                        _ => o.faults.push(plan::draw_fault(r, s.as_bytes())),
                    }
                    let mut p = Plan::single("C11", o);
                    p.note = format!("flat {k} {n}");
                    if !self.try_plan(p) {
                        return false;
                    }
                }
            }
        }
        // cycles of different wrappers, whole, cut at the innermost point, and damaged
        for _ in 0..10 {
            if !self.time_left() {
                return true;
            }
            let d = *r.pick(&[3usize, 6, 10, 16, 24, if self.thorough { 60 } else { 30 }]);
            let (e, cut, s, note) = gen::cycle_nest(r, d);
            let mut p = Plan::new("C11", r.next());
            let mut ops = vec![Op::new(e, &s)];
            let mut o = Op::new(e, &s);
            o.faults.push(Fault::Cut(cut as u32));
            ops.push(o);
            let mut o = Op::new(e, &s);
            o.faults.push(plan::draw_fault(r, s.as_bytes()));
            ops.push(o);
            let mut o = Op::new(e, &s);
            o.faults.push(Fault::Cut(s.len() as u32 - 1));
            ops.push(o);
            let mut c = client(ops);
            c.stack_kb = 512 << 10;
            p.clients.push(c);
            p.note = format!("cycle {note} {d}");
            if !self.try_plan(p) {
                return false;
            }
        }
        // random texts, damaged by repetition of their own pieces
        let pool = Pool::draw(r, 24);
        for _ in 0..12 {
            if !self.time_left() {
                return true;
            }
            let mut p = Plan::new("C11", r.next());
            let mut ops = vec![];
            for _ in 0..12 {
                let mut o = pool.op(r, 50);
                if r.pct(60) {
                    // a retransmitting link: one piece again and again
                    let n = o.base.len() as u64;
                    if n > 2 {
                        let a = r.below(n - 1);
                        let len = r.range(1, 30);
                        let b = (a + len).min(n);
                        for _ in 0..r.range(1, 5) {
                            let e = b + (b - a);
                            let _ = e;
                            o.faults.push(Fault::Dup(a as u32, b as u32));
                        }
                        if r.pct(40) {
                            o.faults.push(Fault::Cut((n + r.below(n)) as u32));
                        }
                    }
                }
                ops.push(o);
            }
            let mut c = client(ops);
            c.stack_kb = 512 << 10;
            p.clients.push(c);
            if !self.try_plan(p) {
                return false;
            }
        }
        // long texts of many kinds of items
        for _ in 0..2 {
            if !self.time_left() {
                return true;
            }
            let t = if r.pct(50) {
                let k = r.idx(gen::MONO);
                let len = r.range(200, if self.thorough { 40_000 } else { 12_000 }) as usize;
                gen::mono(r, k, len)
            } else {
                draw_long(r, if self.thorough { 40_000 } else { 12_000 })
            };
            let mut o = op_of(&t);
            if r.pct(50) {
                o.faults.push(plan::draw_fault(r, t.s.as_bytes()));
            }
            let mut p = Plan::single("C11", o);
            p.clients[0].stack_kb = 512 << 10;
            p.note = "long".into();
            if !self.try_plan(p) {
                return false;
            }
        }
        // recursive splicing: a fragment inside itself, many levels deep, then cut
        for _ in 0..12 {
            if !self.time_left() {
                return true;
            }
            let t = pool.pick(r).clone();
            if let Some((e, s, cut)) = self_nest(r, &t) {
                let mut o = Op::new(e, &s);
                match r.below(3) {
                    0 => {}
                    1 => o.faults.push(Fault::Cut(cut as u32)),
                    _ => o.faults.push(plan::draw_fault(r, s.as_bytes())),
                }
                let mut p = Plan::single("C11", o);
                p.clients[0].stack_kb = 1 << 20;
                p.note = "self-nested".into();
                if !self.try_plan(p) {
                    return false;
                }
            }
        }
        true
    }
}

/// Takes a text with two nested groups of the same bracket kind and repeats what lies between
/// the outer and the inner opening: head (wrap)^n core (unwrap)^n tail.
pub fn self_nest(r: &mut Rng, t: &Text) -> Option<(u8, String, usize)> {
    let s = &t.s;
    let mut pairs = vec![];
    for &(a, b) in &t.open {
        for &(c, d) in &t.open {
            if a < c && d < b && s.as_bytes()[a] == s.as_bytes()[c] {
                pairs.push((a, b, c, d));
            }
        }
    }
    if pairs.is_empty() {
        return None;
    }
    let (a, b, c, d) = *r.pick(&pairs);
    let n = r.range(4, 24) as usize;
    let (wrap, unwrap) = (&s[a..c], &s[d..b]);
    if (wrap.len() + unwrap.len()) * n > 6000 {
        return None;
    }
    let mut o = String::from(&s[..a]);
    for _ in 0..n {
        o.push_str(wrap);
    }
    let cut = o.len();
    o.push_str(&s[c..d]);
    for _ in 0..n {
        o.push_str(unwrap);
    }
    o.push_str(&s[b..]);
    Some((t.entry, o, cut))
}
