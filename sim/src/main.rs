//! nsim: deterministic simulation of processes that parse SPARQL with nom-sparql.
//!
//!   nsim check PROP            search for violations (VERIF_SEED, VERIF_TIER)
//!   nsim replay FILE           run a recorded plan again
//!   nsim determinism N         N plans of every property, each executed three times
//!   nsim gen-stats N           what the workload generator produces
#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code)]

mod check;
mod dict;
mod exec;
mod gen;
mod mini;
mod plan;
mod rng;
mod sweep;
mod sched;
mod seam;
mod stack;
mod sys;
mod tools;

use check::{Ctx, Stats, Viol, K, LABELS, N_CNT};
use plan::Plan;
use std::collections::HashSet;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: seam::SimAlloc = seam::SimAlloc;

pub const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

fn main() {
    sys::no_aslr();
    sys::one_heap();
    std::alloc::set_alloc_error_hook(seam::oom_hook);
    seam::install_panic_hook();
    seam::Arena::reserve();
    {
        // the standard streams' own buffers exist before anything is measured
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
    }
    dict::mine("/repo/src");
    unsafe { seam::COV = sys::map(0, seam::COV_LEN, true) };
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) if PROPS.contains(&p.as_str()) => check_cmd(p),
        (Some("replay"), Some(f)) => replay_cmd(f),
        (Some("answers"), Some(f)) => {
            exec::report_map(96 << 20);
            let mut c = check::Ctx::new("C05", 1, false, Instant::now() + Duration::from_secs(600));
            match std::fs::read_to_string(f).ok().and_then(|s| plan::read(&s).ok()) {
                Some(p) => {
                    for op in p.clients.iter().flat_map(|c| &c.ops) {
                        println!("{}", c.line_elsewhere(op.entry, &op.delivered()));
                    }
                    0
                }
                None => 2,
            }
        }
        (Some("determinism"), n) => tools::determinism(n.and_then(|x| x.parse().ok()).unwrap_or(20)),
        (Some("gen-stats"), n) => tools::gen_stats(n.and_then(|x| x.parse().ok()).unwrap_or(500)),
        (Some("gen-dump"), n) => tools::gen_dump(n.and_then(|x| x.parse().ok()).unwrap_or(500)),
        (Some("sweeps"), _) => {
            exec::report_map(96 << 20);
            let mut c = check::Ctx::new("C08", 1, false, Instant::now() + std::time::Duration::from_secs(600));
            for k in 0..sweep::STRETCH.len() {
                for n in [3usize, 40] {
                    let (e, s, _, _) = sweep::stretch(k, n, n as u64 % 8);
                    println!("{:18} {n:3} {} {}", sweep::STRETCH[k].0, c.reference(e, &s).ans.show(), check::show(&s));
                }
            }
            0
        }
        (Some("parse"), Some(e)) => {
            let k = gen::ENTRIES.iter().position(|x| x == e).map(|k| k as u8).or(e.parse().ok());
            match k {
                Some(k) => tools::parse(k, a.get(3).map_or("", |s| s)),
                None => 2,
            }
        }
        (Some("frames"), Some(kind)) => {
            stack::print_frames(kind, a.get(3).map_or("", |s| s), a.get(4).map_or("", |s| s));
            0
        }
        (Some("literals"), _) => {
            print!("{}", dict::dump("/repo/src"));
            0
        }
        (Some("dict"), _) => {
            let d = dict::d();
            println!("words {:?}\nchars {:?}\nints {:?}", d.words, d.chars, d.ints);
            0
        }
        _ => {
            eprintln!("usage: nsim check {}|replay FILE|determinism N|gen-stats N|parse ENTRY TEXT", PROPS.join("|"));
            2
        }
    };
    std::process::exit(code);
}

pub fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok())
}
fn home() -> std::path::PathBuf {
    std::env::var_os("NSIM_HOME").map_or_else(|| "/verif".into(), |h| h.into())
}

/// Findings recorded in KNOWN_FINDINGS.txt: lines "known: property=<id> key=<key> ...".
fn known(prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == prop)
        .filter_map(|(_, rest)| rest.strip_prefix("key="))
        .map(|r| {
            let (k, w) = r.split_once(' ').unwrap_or((r, ""));
            (k.to_string(), w.to_string())
        })
        .collect()
}

// ---------------------------------------------------------------- workers
const REGION: usize = 96 << 20;
struct Region(*mut u8);
impl Region {
    fn new() -> Region {
        Region(sys::map(0, REGION, true))
    }
    fn put(&self, bytes: &[u8]) {
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.0.add(16), bytes.len().min(REGION - 16));
            *(self.0 as *mut u64) = bytes.len() as u64;
            *(self.0 as *mut u64).add(1) = 1;
        }
    }
    fn get(&self) -> Option<&[u8]> {
        unsafe {
            if *(self.0 as *const u64).add(1) != 1 {
                return None;
            }
            Some(std::slice::from_raw_parts(self.0.add(16), *(self.0 as *const u64) as usize))
        }
    }
}

fn pack(s: &Stats, v: &Option<(Plan, Viol)>) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let u = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&x.to_le_bytes());
    for c in s.c {
        u(&mut o, c);
    }
    for l in [&s.hashes, &s.texts, &s.inter] {
        let mut l: Vec<u64> = l.clone();
        l.sort_unstable();
        l.dedup();
        u(&mut o, l.len() as u64);
        for x in l {
            u(&mut o, x);
        }
    }
    let st = |o: &mut Vec<u8>, s: &str| {
        o.extend_from_slice(&(s.len() as u64).to_le_bytes());
        o.extend_from_slice(s.as_bytes());
    };
    u(&mut o, s.samples.len() as u64);
    for x in &s.samples {
        st(&mut o, x);
    }
    match v {
        None => u(&mut o, 0),
        Some((p, v)) => {
            u(&mut o, 1);
            st(&mut o, &plan::write(p));
            st(&mut o, &v.class);
            st(&mut o, &v.msg);
        }
    }
    o
}
struct Unpack<'a>(&'a [u8], usize);
impl Unpack<'_> {
    fn u(&mut self) -> u64 {
        let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        v
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + n]).into_owned();
        self.1 += n;
        s
    }
}

#[derive(Default)]
struct Total {
    c: Vec<u64>,
    hashes: HashSet<u64>,
    texts: HashSet<u64>,
    inter: HashSet<u64>,
    samples: Vec<String>,
    found: Vec<(Plan, Viol)>,
}
fn unpack(b: &[u8], t: &mut Total) {
    let mut r = Unpack(b, 0);
    if t.c.is_empty() {
        t.c = vec![0; N_CNT];
    }
    for i in 0..N_CNT {
        let v = r.u();
        if i < LABELS.len() && LABELS[i].starts_with("largest") || i == K::max_stack as usize {
            t.c[i] = t.c[i].max(v);
        } else {
            t.c[i] += v;
        }
    }
    for k in 0..3 {
        let n = r.u();
        for _ in 0..n {
            let x = r.u();
            match k {
                0 => t.hashes.insert(x),
                1 => t.texts.insert(x),
                _ => t.inter.insert(x),
            };
        }
    }
    for _ in 0..r.u() {
        let s = r.s();
        if t.samples.len() < 6 {
            t.samples.push(s);
        }
    }
    if r.u() == 1 {
        let p = r.s();
        let (class, msg) = (r.s(), r.s());
        if let Ok(p) = plan::read(&p) {
            t.found.push((p, Viol { class, msg }));
        }
    }
}

fn check_cmd(prop: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let secs = env_u64("NSIM_SECS").unwrap_or(match (thorough, prop) {
        (true, _) => 600,
        (_, "C02") => 120, // its histories are the longest
        _ => 50,
    });
    let deadline = t0 + Duration::from_secs(secs);
    let ncpu = std::thread::available_parallelism().map_or(4, |n| n.get());
    let nw = env_u64("NSIM_WORKERS").map_or(ncpu.min(8), |n| n as usize).max(1);
    let out_dir = home().join("out/replay");
    let _ = std::fs::create_dir_all(&out_dir);
    let _ = std::fs::create_dir_all(home().join("evidence"));

    // findings on record: shown to be still there, each by its own history
    let known = known(prop);
    let mut known_hit = vec![];
    let mut known_runs = 0u64;
    let mut total = Total { c: vec![0; N_CNT], ..Default::default() };
    if prop == "C12" {
        exec::report_map(96 << 20);
        let mut cx = Ctx::new(prop, seed, thorough, deadline);
        for k in 0..gen::NEST.len() {
            let p = stack::deep_plan(k);
            known_runs += 1;
            let (v, _) = cx.judge(&p);
            if let Some(v) = v {
                if let Some((key, what)) = known.iter().find(|(key, _)| *key == v.class) {
                    println!("KNOWN-FINDING: property={prop} {key} {what}");
                    known_hit.push(format!("{key} {what}"));
                } else {
                    total.found.push((p, v));
                    break;
                }
            }
        }
        unpack(&pack(&cx.stats, &None), &mut total);
    }

    let stop = sys::map(0, 4096, true) as *mut u64;
    let regions: Vec<Region> = (0..nw).map(|_| Region::new()).collect();
    let mut pids = vec![];
    if total.found.is_empty() {
        for w in 0..nw {
            let pid = unsafe { sys::fork() };
            if pid < 0 {
                eprintln!("harness: fork failed");
                return 3;
            }
            if pid == 0 {
                sys::die_with_parent();
                sys::pin(w);
                exec::report_map(96 << 20);
                let mut cx = Ctx::new(prop, seed, thorough, deadline);
                let mut b = w as u64;
                while cx.time_left() && unsafe { std::ptr::read_volatile(stop) } == 0 {
                    if !cx.block(b) {
                        unsafe { std::ptr::write_volatile(stop, 1) };
                        break;
                    }
                    b += nw as u64;
                }
                regions[w].put(&pack(&cx.stats, &cx.found));
                sys::exit_now(0);
            }
            pids.push(pid);
        }
    }
    let mut broken = 0;
    for (w, pid) in pids.iter().enumerate() {
        match sys::wait_child(*pid) {
            sys::Exit::Code(0) => match regions[w].get() {
                Some(b) => unpack(b, &mut total),
                None => broken += 1,
            },
            e => {
                let what = match e {
                    sys::Exit::Code(c) => format!("exit {c}"),
                    sys::Exit::Signal(s) => format!("signal {s}"),
                    sys::Exit::TimedOut => "timeout".into(),
                };
                eprintln!("harness: worker {w} ended with {what}");
                broken += 1;
            }
        }
    }
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut shown = vec![];
    if !total.found.is_empty() {
        // the one with the smallest plan goes through the minimiser
        total.found.sort_by_key(|(p, _)| plan::write(p).len());
        exec::report_map(96 << 20);
        sys::pin(0);
        code = 4;
        for (p, v) in total.found.iter().take(3).cloned() {
            let secs = if thorough { 120 } else { 40 };
            let mut cx = Ctx::new(prop, seed, thorough, Instant::now() + Duration::from_secs(secs));
            let (p0, v0) = (p.clone(), v.clone());
            let small = mini::minimise(&mut cx, p, v);
            // the small one, or the run as it was found
            for (p, v) in [small, (p0, v0)] {
                let path = out_dir.join(format!("{prop}-{:016x}.plan", rng::hash_bytes(plan::write(&p).as_bytes())));
                let mut p = p;
                // some plans are run as their note says
                let kept = ["growth", "image ", "giant"].iter().any(|x| p.note.starts_with(x));
                if prop != "C12" && !kept {
                    p.note = format!("{}: {}", v.class, v.msg);
                }
                if std::fs::write(&path, plan::write(&p)).is_err() {
                    eprintln!("harness: cannot write {}", path.display());
                    return 3;
                }
                // a fresh process has to see the same thing
                let again =
                    std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).env("NSIM_QUIET", "1").status();
                let ok = again.map_or(false, |s| s.code() == Some(1));
                println!("{}: {}", v.class, v.msg);
                println!("replayed in a fresh process: {}", if ok { "the same" } else { "NOT REPRODUCED" });
                if ok {
                    println!("VIOLATION property={prop} replay={}", path.display());
                    code = 1;
                    shown.push(format!("{}: {}", v.class, v.msg));
                    break;
                }
            }
            if code == 1 {
                break;
            }
        }
        if code == 4 {
            eprintln!("harness: no violation found reproduced on replay");
        }
    } else if broken > 0 {
        code = 3;
    }
    let cov = unsafe { (0..seam::COV_LEN).filter(|i| *seam::COV.add(*i) != 0).count() };
    tools::evidence(&tools::Ev {
        home: home(),
        prop,
        thorough,
        seed,
        c: &total.c,
        distinct: total.hashes.len(),
        texts: total.texts.len(),
        inter: total.inter.len(),
        samples: &total.samples,
        secs: explored,
        wall: t0.elapsed().as_secs_f64(),
        cov,
        guards: unsafe { seam::N_GUARDS } as usize,
        workers: nw,
        violations: shown,
        known: known_hit,
        known_runs,
    });
    let g = |k: K| total.c[k as usize];
    println!(
        "{prop}: {} runs, {} calls, {} distinct, {} interleavings, {} edges, {} reference runs, {:.1}s, rerun/diverged {}/{}",
        g(K::runs), g(K::ops), total.hashes.len(), total.inter.len(), cov, g(K::refs), explored, g(K::reruns), g(K::diverged)
    );
    if code == 0 && g(K::diverged) > 0 {
        eprintln!("harness: {} run(s) were not repeatable", g(K::diverged));
        return 5;
    }
    code
}

fn replay_cmd(f: &str) -> i32 {
    let s = match std::fs::read_to_string(f) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    let p = match plan::read(&s) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    exec::report_map(96 << 20);
    sys::pin(0);
    let mut cx = Ctx::new(&p.prop.clone(), p.seed, false, Instant::now() + Duration::from_secs(600));
    let (v, out) = cx.judge(&p);
    match v {
        Some(v) => {
            if std::env::var_os("NSIM_QUIET").is_none() {
                println!("{}: {}", v.class, v.msg);
                println!("VIOLATION property={} replay={f}", p.prop);
            }
            1
        }
        None => {
            if std::env::var_os("NSIM_QUIET").is_none() {
                println!("no violation");
                if let Some(o) = out {
                    for r in o.res.iter().take(20) {
                        println!("  client {} op {}: {} ({} steps)", r.client, r.op, r.ans.show(), r.steps);
                    }
                }
            }
            0
        }
    }
}
