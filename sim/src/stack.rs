//! C12: what the call stack can take.  Runs on 2 MiB thread stacks (the default of Rust's
//! threads) and, to measure growth per level, on very large ones.
use crate::check::{sig, show, Ctx, Viol, K};
use crate::exec::{self, Opts, Outcome};
use crate::gen::{self, FLAT, NEST};
use crate::plan::{self, Client, Fault, Keep, Op, Plan};
use crate::rng::Rng;

pub const ORDINARY_KB: u32 = 2048;
pub const HUGE_KB: u32 = 512 << 10;
/// More stack than this between a short and a long flat text is growth.
pub const SLACK: u64 = 24 << 10;
/// Stack of a call: at most BASE + PER_OPEN for every opening bracket in the text.
pub const BASE: u64 = 256 << 10;
pub const PER_OPEN: u64 = 96 << 10;
/// Stack between two depths of a cycle of wrappers, for every opening bracket more.
pub const PER_LEVEL: u64 = 82 << 10;

fn v(class: &str, msg: String) -> Option<Viol> {
    Some(Viol { class: class.into(), msg })
}

/// Stack one more level of nesting may take, per kind.
pub fn level_cap(kind: &str) -> u64 {
    let m = SLOPES.iter().find(|x| x.0 == kind).map_or(64 << 10, |x| x.1);
    m + m / 2 + (6 << 10)
}
/// The same in the optimised build, whose frames are several times smaller.
pub fn optimised_cap(kind: &str) -> u64 {
    let m = OPTIMISED.iter().find(|x| x.0 == kind).map_or(16 << 10, |x| x.1);
    m + m / 2 + (3 << 10)
}
include!("slopes.in");

fn frames_plan(kind: &str, d1: &str, d2: &str) -> Plan {
    let mut p = Plan::new("C12", 0);
    let ops = [d1, d2].into_iter().map(|d| {
        let (e, _, whole) = gen::nest(kind, d.parse().unwrap_or(1));
        let mut o = Op::new(e, &whole);
        o.keep = Keep::Clone;
        o
    });
    p.clients.push(client(HUGE_KB, ops.collect()));
    p.note = format!("frames {kind} {d1} {d2}");
    p
}

/// Stack of two depths of one kind, in this build: printed for the other one.
pub fn print_frames(kind: &str, d1: &str, d2: &str) {
    let mut o = Opts::plain();
    o.mem_cap = 3 << 30;
    o.limit = 2_000_000_000;
    exec::report_map(8 << 20);
    let out = exec::run_plan(&frames_plan(kind, d1, d2), &vec![], &[], o);
    if out.died.is_none() && out.res.len() == 2 {
        println!("{} {}", out.res[0].stack, out.res[1].stack);
    }
}

/// The same asked of the optimised build, which lies beside this one.
fn frames(kind: &str, d1: &str, d2: &str) -> Option<(u64, u64)> {
    let me = std::fs::read_link("/proc/self/exe").ok()?;
    let other = me.parent()?.parent()?.join("fast/nsim");
    let o = std::process::Command::new(other).args(["frames", kind, d1, d2]).output().ok()?;
    let s = String::from_utf8(o.stdout).ok()?;
    let mut w = s.split_whitespace().map(|x| x.parse().ok());
    Some((w.next()??, w.next()??))
}

pub fn judge(cx: &mut Ctx, p: &Plan) -> (Option<Viol>, Option<Outcome>) {
    let mut o = Opts::plain();
    o.mem_cap = 3 << 30;
    o.limit = 2_000_000_000;
    let out = exec::run_plan(p, &vec![], &[], o);
    cx.tally(p, &out);
    let note: Vec<&str> = p.note.split(' ').collect();
    if let Some((s, c, op)) = out.died {
        let (e, t) = cx.text_of(p, c, op);
        let msg = format!(
            "process ended by {} during {} on a text of {} bytes ({}): {}",
            sig(s),
            gen::ENTRIES[e as usize],
            t.len(),
            p.note,
            show(&t)
        );
        let class = if note[0] == "deep" { format!("deep:{}", note[1]) } else { "overflow".to_string() };
        return (v(&class, msg), Some(out));
    }
    if out.fail.is_some() || out.timed_out {
        return (None, Some(out)); // C11's business
    }
    cx.stats.add(K::checks, out.res.len() as u64);
    let mut bad = None;
    match note[0] {
        "flat" | "repeat" if out.res.len() >= 2 => {
            let (a, b) = (&out.res[0], &out.res[out.res.len() - 1]);
            if b.stack as u64 > a.stack as u64 + SLACK {
                let (e, t) = cx.text_of(p, b.client, b.op);
                bad = v(
                    "grows",
                    format!(
                        "{} ({}): {} bytes of stack for a flat text of {} bytes, {} for a short one: {}",
                        gen::ENTRIES[e as usize],
                        p.note,
                        b.stack,
                        t.len(),
                        a.stack,
                        show(&t)
                    ),
                );
            }
        }
        "nest" if out.res.len() == 2 => {
            let (d1, d2): (u64, u64) = (note[2].parse().unwrap_or(1), note[3].parse().unwrap_or(2));
            let (a, b) = (out.res[0].stack as u64, out.res[1].stack as u64);
            let slope = b.saturating_sub(a) / (d2 - d1).max(1);
            if std::env::var_os("NSIM_SLOPES").is_some() {
                eprintln!("(\"{}\", {}), // base {}", note[1], slope, a.saturating_sub(slope * d1));
            }
            if slope > level_cap(note[1]) {
                bad = v(
                    "level",
                    format!("{} bytes of stack per level of {} (allowed: {})", slope, note[1], level_cap(note[1])),
                );
            }
        }
        "frames" if note.len() == 4 => match frames(note[1], note[2], note[3]) {
            Some((a, b)) => {
                let n = note[3].parse::<u64>().unwrap_or(1).saturating_sub(note[2].parse().unwrap_or(0)).max(1);
                let slope = b.saturating_sub(a) / n;
                cx.stats.add(K::checks, 1);
                if std::env::var_os("NSIM_SLOPES").is_some() {
                    eprintln!("(\"{}\", {}), // optimised", note[1], slope);
                }
                let cap = optimised_cap(note[1]);
                if slope > cap {
                    let msg = format!("{slope} bytes of stack per level of {} in the optimised build (allowed: {cap})", note[1]);
                    bad = v("level", msg);
                }
            }
            None => cx.stats.add(K::frames_lost, 1),
        },
        "cycle" if out.res.len() == 2 => {
            let opens = |op: u32| cx.text_of(p, 0, op).1.bytes().filter(|b| b"([{".contains(b)).count() as u64;
            let (n1, n2) = (opens(0), opens(1));
            let (a, b) = (out.res[0].stack as u64, out.res[1].stack as u64);
            if n2 > n1 && b.saturating_sub(a) > (n2 - n1) * PER_LEVEL {
                bad = v(
                    "level",
                    format!(
                        "{} bytes of stack for each opening bracket of {} (allowed: {})",
                        (b - a) / (n2 - n1),
                        p.note,
                        PER_LEVEL
                    ),
                );
            }
        }
        _ => {}
    }
    if bad.is_none() {
        for r in &out.res {
            let (e, t) = cx.text_of(p, r.client, r.op);
            let opens = t.bytes().filter(|b| b"([{".contains(b) || (e >= 7 && *b == b';')).count() as u64;
            if r.stack as u64 > BASE + PER_OPEN * opens {
                bad = v(
                    "big",
                    format!(
                        "{}: {} bytes of stack for a text with {} opening brackets: {}",
                        gen::ENTRIES[e as usize],
                        r.stack,
                        opens,
                        show(&t)
                    ),
                );
                break;
            }
        }
    }
    (bad, Some(out))
}

fn client(kb: u32, ops: Vec<Op>) -> Client {
    Client { stack_kb: kb, start_ns: 0, name: None, ops }
}

/// The deepest nesting of every kind, on an ordinary stack: known to overflow (see
/// KNOWN_FINDINGS.txt); anything not listed there is reported.
pub fn deep_plan(k: usize) -> Plan {
    let kind = NEST[k].0;
    let d = if kind == "update-seq" { 20_000 } else { 2_000 };
    let (e, _, whole) = gen::nest(kind, d);
    let mut p = Plan::new("C12", k as u64);
    p.clients.push(client(ORDINARY_KB, vec![Op::new(e, &whole)]));
    p.note = format!("deep {kind} {d}");
    p
}

fn damaged(r: &mut Rng, e: u8, s: &str) -> Op {
    let mut o = Op::new(e, s);
    match r.below(3) {
        0 => {}
        1 => o.faults.push(Fault::Cut(s.len() as u32 - 1 - r.below(4.min(s.len() as u64 - 1)) as u32)),
        _ => o.faults.push(plan::draw_fault(r, s.as_bytes())),
    }
    o.keep = Keep::Clone;
    o
}

pub fn block(cx: &mut Ctx, r: &mut Rng, b: u64) -> bool {
    let fam = b as usize % (NEST.len() + FLAT.len());
    if fam < NEST.len() {
        let k = NEST[fam].0;
        let mut p = Plan::new("C12", r.next());
        let (d1, d2) = (4, if cx.thorough { 60 } else { 24 });
        let mut a = Op::new(gen::nest(k, d1).0, &gen::nest(k, d1).2);
        let mut z = Op::new(a.entry, &gen::nest(k, d2).2);
        a.keep = Keep::Clone;
        z.keep = Keep::Clone;
        p.clients.push(client(HUGE_KB, vec![a, z]));
        p.note = format!("nest {k} {d1} {d2}");
        if !cx.try_plan(p) {
            return false;
        }
        if (b as usize) < NEST.len() + FLAT.len() && !cx.try_plan(frames_plan(k, "4", "24")) {
            return false;
        }
    } else {
        let k = FLAT[fam - NEST.len()].0;
        for n in [1500usize, if cx.thorough { 40_000 } else { 4_000 }] {
            let (e, s1) = gen::flat(k, 40);
            let (_, s2) = gen::flat(k, n);
            let mut p = Plan::new("C12", r.next());
            let mut a = Op::new(e, &s1);
            a.keep = Keep::Clone;
            let cut = |s: &str| {
                let mut o = Op::new(e, s);
                o.faults.push(Fault::Cut(s.len() as u32 - 1));
                o.keep = Keep::Clone;
                o
            };
            let mut z = Op::new(e, &s2);
            z.keep = Keep::Clone;
            p.clients.push(client(ORDINARY_KB, vec![a, cut(&s1), cut(&s2), z]));
            p.note = format!("flat {k} {n}");
            if !cx.time_left() {
                return true;
            }
            if !cx.try_plan(p) {
                return false;
            }
        }
    }
    // one random item again and again
    for _ in 0..3 {
        if !cx.time_left() {
            return true;
        }
        let (seed, kind) = (r.next(), r.idx(gen::MONO));
        let n = if cx.thorough { 100_000 } else { 12_000 };
        let short = gen::mono(&mut Rng::new(seed), kind, 300);
        let long = gen::mono(&mut Rng::new(seed), kind, n);
        let mut p = Plan::new("C12", r.next());
        let mut a = Op::new(short.entry, &short.s);
        let mut z = Op::new(long.entry, &long.s);
        a.keep = Keep::Clone;
        z.keep = Keep::Clone;
        p.clients.push(client(ORDINARY_KB * 8, vec![a, z]));
        p.note = format!("flat mono-{kind} {n}");
        if !cx.try_plan(p) {
            return false;
        }
    }
    // cycles of different wrappers
    for _ in 0..4 {
        if !cx.time_left() {
            return true;
        }
        let seed = r.next();
        let (d1, d2) = (10, if cx.thorough { 100 } else { 40 });
        let (e, _, s1, note) = gen::cycle_nest(&mut Rng::new(seed), d1);
        let (_, _, s2, _) = gen::cycle_nest(&mut Rng::new(seed), d2);
        let mut p = Plan::new("C12", r.next());
        let mut a = Op::new(e, &s1);
        let mut z = Op::new(e, &s2);
        a.keep = Keep::Clone;
        z.keep = Keep::Clone;
        p.clients.push(client(HUGE_KB, vec![a, z]));
        p.note = format!("cycle {note} {d1} {d2}");
        if !cx.try_plan(p) {
            return false;
        }
    }
    // random texts, damaged, on an ordinary stack where they nest only a little
    for _ in 0..6 {
        if !cx.time_left() {
            return true;
        }
        let mut p = Plan::new("C12", r.next());
        let mut ops = vec![];
        for _ in 0..20 {
            let t = if r.pct(50) { gen::small_text(r) } else { gen::text(r) };
            if t.s.len() > 2 {
                ops.push(damaged(r, t.entry, &t.s));
            }
        }
        p.clients.push(client(HUGE_KB, ops));
        p.note = "text".into();
        if !cx.try_plan(p) {
            return false;
        }
    }
    // a piece without brackets, again and again
    for _ in 0..10 {
        if !cx.time_left() {
            return true;
        }
        let t = if r.pct(70) { gen::small_text(r) } else { gen::text(r) };
        let s = &t.s;
        if s.len() < 4 {
            continue;
        }
        let a = r.idx(s.len() - 1);
        let l = r.range(1, 24) as usize;
        let e = (a + l).min(s.len());
        if !s.is_char_boundary(a) || !s.is_char_boundary(e) {
            continue;
        }
        let piece = &s[a..e];
        if piece.contains(|c| "([{".contains(c)) || (t.entry >= 7 && piece.contains(';')) {
            continue;
        }
        let n = if cx.thorough { 6000 } else { 1500 };
        let grown = |n: usize| format!("{}{}{}", &s[..e], piece.repeat(n), &s[e..]);
        let mut p = Plan::new("C12", r.next());
        let mut o1 = Op::new(t.entry, &grown(20));
        let mut o2 = Op::new(t.entry, &grown(n));
        o1.keep = Keep::Clone;
        o2.keep = Keep::Clone;
        p.clients.push(client(ORDINARY_KB * 8, vec![o1, o2]));
        p.note = format!("repeat {n}");
        if !cx.try_plan(p) {
            return false;
        }
    }
    true
}
