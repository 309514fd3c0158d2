//! Evidence files and the simulator's own health checks.
use crate::check::{cost, Ctx, K, LABELS};
use crate::{exec, gen, rng::Rng, seam, sys};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

pub struct Ev<'a> {
    pub home: std::path::PathBuf,
    pub prop: &'a str,
    pub thorough: bool,
    pub seed: u64,
    pub c: &'a [u64],
    pub distinct: usize,
    pub texts: usize,
    pub inter: usize,
    pub samples: &'a [String],
    pub secs: f64,
    pub wall: f64,
    pub cov: usize,
    pub guards: usize,
    pub workers: usize,
    pub violations: Vec<String>,
    pub known: Vec<String>,
    pub known_runs: u64,
}

fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "A case is one simulated run: 2 to 90 caller threads with 1 to 4 parses each, texts from a grammar (20-25% damaged in delivery), under a seeded schedule that preempts by step count, at chosen points, at accesses to shared memory and atomic operations, at hashed control-flow sites, at allocations or between calls. Non-trivial and distinct: counted once per combination of texts, faults, memory layout and executed interleaving.",
        "C02" => "A case is one simulated run: histories of 2 to 300 parses (marathons of 70000) by 1 to 3 callers over few texts and their near-repeats, with buffers reused, overwritten and freed. Distinct by texts, faults, memory layout and interleaving.",
        "C03" => "A case is one simulated run in which chosen allocations fail and unwind out of the call, followed by or concurrent with unharmed calls. Distinct by texts, allocation ordinals, memory layout and interleaving.",
        "C04" => "A case is one simulated run in which one to nine callers are suspended at drawn steps of a parse (also several at the same place) while others work. Distinct by texts, suspension steps, memory layout and interleaving.",
        "C05" => "A case is one simulated run under drawn clock, random source, environment, process id, directory, thread names and numbers, processors, stack sizes, place of the code and memory layout. Distinct by texts, ambient conditions and interleaving.",
        "C06" => "A case is one simulated run under failing system requests and a system-call filter; every outside request a parse makes is recorded. Distinct by texts, conditions and interleaving.",
        "C07" => "A case is one simulated run that repeats the same traffic 4 to 200 rounds, on one or several threads, and samples the memory held after each round. Distinct by texts, order and interleaving.",
        "C08" | "C09" => "A case is one simulated run of up to 400 calls on texts cut, lost, duplicated, reordered, corrupted or spliced in delivery. Distinct by delivered texts.",
        "C10" => "A case is one simulated run of up to 120 calls; each accepted text is parsed again, in a fresh process, cut at the end of what it consumed. Distinct by delivered texts.",
        "C11" => "A case is one simulated run of calls whose steps are counted at control-flow edges and compared with a quadratic budget in the text's length; texts nested, repeated, self-nested, damaged. Distinct by delivered texts.",
        "C12" => "A case is one simulated run measuring the stack of parses (and clone and drop of their trees) of flat, nested, repeated and damaged texts. Distinct by delivered texts.",
        "C14" => "A case is one simulated run in which 1 to 4 threads put answers on a common shelf and copy, compare, print, exchange and drop each other's while more are made, one in three of these uses running out of memory, and the texts' buffers are overwritten meanwhile. Distinct by texts, uses, allocation ordinals, memory layout and interleaving.",
        _ => "A case is one simulated run of one statement cut at every character (or a sample of 400), judged against where the generator had a group, string or IRI open. Distinct by delivered texts.",
    }
}

pub fn evidence(e: &Ev) {
    let g = |k: K| e.c[k as usize];
    let mut o = String::from("{\n");
    o.push_str(&format!(
        "  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n  \"wall_s\": {:.2}, \"violations\": {},\n",
        js(e.prop),
        js(if e.thorough { "thorough" } else { "quick" }),
        e.seed,
        e.wall,
        e.violations.len()
    ));
    o.push_str("  \"coverage\": {\n");
    o.push_str(&format!("    \"evaluations\": {}, \"distinct_nontrivial\": {},\n", g(K::runs), e.distinct.min(g(K::runs) as usize)));
    o.push_str(&format!("    \"rule\": {},\n", js(rule(e.prop))));
    o.push_str(&format!("    \"samples\": {},\n", list(e.samples)));
    let h = 3600.0 / e.secs.max(0.001);
    o.push_str(&format!("    \"simulated_runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0},\n", g(K::runs) as f64 * h, g(K::runs) as f64 * h));
    o.push_str(&format!(
        "    \"simulated_time_s\": {:.3}, \"workers\": {}, \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash of the executed slice sequence (thread, steps) together with the texts\",\n",
        g(K::sim_us) as f64 / 1e6,
        e.workers,
        e.inter
    ));
    o.push_str(&format!(
        "    \"distinct_delivered_texts\": {}, \"control_flow_edges_reached\": {}, \"control_flow_edges_in_the_crate\": {},\n",
        e.texts, e.cov, e.guards
    ));
    let mut f = vec![];
    let mut c = vec![];
    for (i, l) in LABELS.iter().enumerate() {
        if let Some(x) = l.strip_prefix("fault ") {
            f.push(format!("{}: {}", js(x), e.c[i]));
        } else {
            c.push(format!("{}: {}", js(l), e.c[i]));
        }
    }
    o.push_str(&format!("    \"faults_injected\": {{{}}},\n", f.join(", ")));
    o.push_str(&format!("    \"counters\": {{{}}},\n", c.join(", ")));
    o.push_str(&format!("    \"violations_reported\": {},\n", list(&e.violations)));
    o.push_str(&format!("    \"known_findings_seen\": {}, \"known_finding_runs\": {},\n", list(&e.known), e.known_runs));
    o.push_str("    \"real_code\": [\"nom-sparql (all parsers, compiled from /repo's working tree, instrumented at control-flow edges)\", \"the clone, comparison, Debug and drop code of its trees (instantiated in sim/trees, instrumented alike)\", \"nom 5.1.3\", \"Rust std collections, strings, unwinding, thread-locals, futex-based locks\"],\n");
    o.push_str("    \"stubs\": [\"allocator inside a parse: seeded arena, failures by ordinal\", \"thread scheduling: one baton, seeded\", \"clock, random source, environment, working directory, process ids, sleeping, futexes inside a parse: simulated\", \"files, streams, sockets, process and thread creation inside a parse: recorded, never carried out\", \"the network that delivers texts: simulated cuts, losses, repeats, swaps and corruptions\"]\n");
    o.push_str("  },\n");
    o.push_str("  \"assumptions\": [\"preemption and step counting happen at control-flow edges and allocations; the code between two of them runs undivided\", \"threads see each other's memory in program order (no weak-memory reordering)\", \"search is seeded sampling, not exhaustive\"]\n}\n");
    let p = e.home.join("evidence").join(format!("{}.json", e.prop));
    if std::fs::write(&p, o).is_err() {
        eprintln!("harness: cannot write {}", p.display());
    }
}

pub fn parse(entry: u8, text: &str) -> i32 {
    exec::report_map(96 << 20);
    let mut cx = Ctx::new("C08", 1, false, Instant::now() + Duration::from_secs(100));
    let r = cx.reference(entry, text);
    println!("{} [{}] {:?}\nsteps {} allocs {} bytes {} peak {} stack {}", r.ans.show(), r.shown, r.bad, r.steps, r.allocs, r.bytes, r.peak, r.stack);
    0
}

/// Executes the same blocks twice in different processes on different processors and compares
/// digests of everything every run reported.
pub fn determinism(n: u64) -> i32 {
    let shm = sys::map(0, 4096, true) as *mut u64;
    let mut bad = 0;
    for p in crate::PROPS {
        let t0 = Instant::now();
        for k in 0..3usize {
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                sys::pin(k * 3 + 1);
                exec::report_map(96 << 20);
                let mut cx = Ctx::new(p, 7, false, Instant::now() + Duration::from_secs(3000));
                if k == 2 {
                    cx.rerun_every = 1;
                }
                for b in 0..n {
                    if !cx.block(b) {
                        break;
                    }
                }
                unsafe {
                    *shm.add(k) = cx.digest;
                    *shm.add(4) = cx.stats.c[K::runs as usize];
                    *shm.add(5) = cx.stats.c[K::diverged as usize];
                    *shm.add(6) = cx.stats.c[K::reruns as usize];
                    *shm.add(7) = cx.found.is_some() as u64;
                }
                if let Some((_, v)) = &cx.found {
                    println!("   {p} {}: {}", v.class, v.msg);
                }
                sys::exit_now(0);
            }
            sys::wait_child(pid);
        }
        unsafe {
            let same = *shm == *shm.add(1) && *shm == *shm.add(2) && *shm.add(5) == 0;
            println!(
                "{p}: {} runs, digests {:016x} {:016x} {:016x}, {} immediate reruns, {} diverged, found {}: {} ({:.1}s)",
                *shm.add(4), *shm, *shm.add(1), *shm.add(2), *shm.add(6), *shm.add(5), *shm.add(7),
                if same { "identical" } else { "DIFFERENT" }, t0.elapsed().as_secs_f64()
            );
            if !same {
                bad += 1;
            }
        }
    }
    bad
}

pub fn gen_stats(n: u64) -> i32 {
    exec::report_map(96 << 20);
    sys::pin(0);
    let mut cx = Ctx::new("C08", 1, false, Instant::now() + Duration::from_secs(1000));
    let mut per: BTreeMap<String, [u64; 5]> = BTreeMap::new();
    let (mut ms, mut mp, mut mst, mut mb) = ((0, String::new()), (0, String::new()), (0, String::new()), (0u64, String::new()));
    let show = std::env::var_os("NSIM_SHOW").is_some();
    let t0 = Instant::now();
    for k in 0..n {
        let mut r = Rng::new(k * 77 + 5);
        let t = if k % 2 == 0 { gen::small_text(&mut r) } else { gen::text(&mut r) };
        let x = cx.reference(t.entry, &t.s);
        let e = per.entry(gen::ENTRIES[t.entry as usize].into()).or_default();
        e[0] += 1;
        e[4] += t.s.len() as u64;
        if let Some(b) = &x.bad {
            println!("BAD {b}: {}", crate::check::show(&t.s));
            continue;
        }
        match x.ans.kind {
            b'O' if x.ans.len == 0 => e[1] += 1,
            b'O' => e[2] += 1,
            _ => e[3] += 1,
        }
        if show && (x.ans.kind != b'O' || x.ans.len > 0) {
            println!("{} {} {:?}", gen::ENTRIES[t.entry as usize], x.ans.show(), t.s);
        }
        let l = t.s.len() as u64 + 16;
        let pb = cost(x.steps, x.bytes) / l;
        if pb > ms.0 {
            ms = (pb, t.s.clone());
        }
        let pp = x.peak as u64 / l;
        if pp > mp.0 {
            mp = (pp, t.s.clone());
        }
        if x.stack as u64 > mst.0 {
            mst = (x.stack as u64, t.s.clone());
        }
        let q = cost(x.steps, x.bytes) * 1000 / crate::check::step_budget(t.s.len());
        if q > mb.0 {
            mb = (q, t.s.clone());
        }
    }
    for (k, e) in &per {
        println!("{k:18} {:5} texts, whole {:5}, part {:5}, rejected {:5}, mean length {}", e[0], e[1], e[2], e[3], e[4] / e[0]);
    }
    let cov = unsafe { (0..seam::COV_LEN).filter(|i| *seam::COV.add(*i) != 0).count() };
    println!("edges {cov} of {}; {:.1} refs/s", unsafe { seam::N_GUARDS }, n as f64 / t0.elapsed().as_secs_f64());
    println!("max cost/byte {} {}\nmax peak/byte {} {}\nmax stack {} {}\nbudget used (per mille) {} {}", ms.0, crate::check::show(&ms.1), mp.0, crate::check::show(&mp.1), mst.0, crate::check::show(&mst.1), mb.0, crate::check::show(&mb.1));
    for (k, _) in gen::FLAT {
        let (e, t) = gen::flat(k, 5);
        let x = cx.reference(e, &t);
        if x.ans.kind != b'O' || x.ans.len > 0 {
            println!("flat {k} is not accepted whole: {}", x.ans.show());
        }
    }
    for k in 0..gen::MONO {
        let (mut whole, mut peak, mut cst, mut ex) = (0, (0, 0), 0, String::new());
        for j in 0..20 {
            let mut r = Rng::new(k as u64 * 1000 + j);
            let t = gen::mono(&mut r, k, 4000);
            let x = cx.reference(t.entry, &t.s);
            if x.ans.kind == b'O' && x.ans.len == 0 {
                whole += 1;
            } else if ex.is_empty() {
                ex = format!("{} {}", x.ans.show(), crate::check::show(&t.s));
            }
            peak = peak.max((x.peak / t.s.len() as i64, t.s.len()));
            cst = cst.max(cost(x.steps, x.bytes) / t.s.len() as u64);
        }
        println!("mono {k}: whole {whole}/20, peak/byte {}, cost/byte {cst}  {ex}", peak.0);
    }
    for (k, _) in gen::NEST {
        let mut l = vec![];
        for d in [2usize, 4, 8, 16, 32] {
            let (e, cut, w) = gen::nest(k, d);
            let mut o = crate::plan::Op::new(e, &w);
            o.keep = crate::plan::Keep::Clone;
            let mut v = String::new();
            for s in [w, cut] {
                let mut o = o.clone();
                o.base = s.clone();
                let mut p = crate::plan::Plan::single("x", o);
                p.clients[0].stack_kb = 512 << 10;
                let mut op = exec::Opts::plain();
                op.limit = 3_000_000;
                let out = exec::run_plan(&p, &vec![], &[], op);
                match out.res.first() {
                    Some(r) => v.push_str(&format!("{}{}/{} ", r.ans.kind as char, r.ans.len, r.steps)),
                    None => v.push_str(&format!("{:?}{:?} ", out.fail.map(|f| f.chars().take(9).collect::<String>()), out.died)),
                }
            }
            l.push(v);
        }
        println!("nest {k:14} {}", l.join("| "));
    }
    for (k, _) in gen::FLAT {
        let mut l = vec![];
        for d in [10usize, 100, 1000] {
            let (e, w) = gen::flat(k, d);
            let r = cx.reference(e, &w);
            l.push(format!("{}{} s{} p{} st{} {:?}", r.ans.kind as char, r.ans.len, r.steps / w.len() as u64, r.peak / w.len() as i64, r.stack, r.bad));
        }
        println!("flat {k:18} {}", l.join(" | "));
    }
    0
}

/// Generated texts, damaged ones among them, as "entry hex" lines (for coverage tools outside).
pub fn gen_dump(n: usize) -> i32 {
    let mut r = crate::rng::Rng::new(crate::env_u64("VERIF_SEED").unwrap_or(1));
    for k in 0..n {
        let t = crate::gen::text(&mut r);
        let mut o = crate::plan::Op::new(t.entry, &t.s);
        if k % 3 == 2 {
            o.faults.push(crate::plan::draw_fault(&mut r, t.s.as_bytes()));
        }
        let d = o.delivered();
        let h: String = d.bytes().map(|b| format!("{b:02x}")).collect();
        println!("{} {}", t.entry, h);
    }
    0
}
