//! A plan is one simulated execution, written out in full: clients, operations, delivery faults,
//! ambient conditions, memory layout and schedule.  The replay file is this, as text.
use crate::dict;
use crate::gen::EDGE;
use crate::rng::Rng;
use crate::sched::Policy;
use crate::seam::World;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Cut(u32),                 // the connection drops after this byte
    Lose(u32, u32),           // bytes a..b never arrive
    Dup(u32, u32),            // bytes a..b arrive twice
    Swap(u32, u32, u32),      // pieces a..b and b..c arrive in the wrong order
    Over(u32, Vec<u8>),       // bytes overwritten
    Insert(u32, Vec<u8>),     // stray bytes
}
pub const FAULT_KINDS: [&str; 12] = [
    "cut", "lost piece", "duplicated piece", "reordered pieces", "corrupted bytes", "stray bytes", "out of memory",
    "suspended thread", "buffer overwritten after return", "late or foreign drop", "clock jump", "failing system requests",
];
impl Fault {
    pub fn kind(&self) -> usize {
        match self {
            Fault::Cut(_) => 0,
            Fault::Lose(..) => 1,
            Fault::Dup(..) => 2,
            Fault::Swap(..) => 3,
            Fault::Over(..) => 4,
            Fault::Insert(..) => 5,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Buf {
    Fresh(u8),  // a new block, at this misalignment, overwritten and freed after the call
    Page(u32, u8), // byte .0 of the text is the first byte of a page of 2^.1 bytes
    Edge,       // the text ends where readable memory ends
    Slot,       // the client's one receive buffer, overwritten by the next text
    Shared,     // the one copy of this text that every client parses
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Keep {
    Drop,      // dropped at once
    Later,     // dropped after the client's next operation
    End,       // kept, looked at again and dropped when the client ends
    Elsewhere, // kept, looked at again and dropped by another thread
    Clone,     // cloned; the clone outlives the original
    Forever,   // kept until the process ends (excluded from leak accounting plans)
    Shelf,     // handed to everyone: any client may copy, compare, print or drop it
}

/// What a client does with the answers on the shelf, after its own call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Act {
    pub what: What,
    pub a: u32,   // which answer (and, for a comparison, which other)
    pub b: u32,
    pub oom: u32, // allocation that fails, 0: none
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Copy,    // a private copy, looked at and dropped when the client ends
    Swap,    // a copy takes the original's place, the original is dropped
    Compare,
    Print,
    Drop,
    Nest,    // a copy of a copy, the first one dropped at once
}
pub const WHATS: [What; 6] = [What::Copy, What::Swap, What::Compare, What::Print, What::Drop, What::Nest];

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub entry: u8,
    pub base: String,
    pub faults: Vec<Fault>,
    pub buf: Buf,
    pub keep: Keep,
    pub gap_ns: u64,
    pub oom: [u32; 4],
    pub stall_at: u64,
    pub depth: u32, // KiB of the caller's own frames below the call
    pub moment: u8, // 1: while the caller unwinds from a panic of its own, 2: while its thread is torn down
    pub open: Vec<(u32, u32)>,
    pub acts: Vec<Act>,
}
impl Op {
    pub fn new(entry: u8, base: &str) -> Op {
        Op {
            entry,
            base: base.to_string(),
            faults: vec![],
            buf: Buf::Fresh(0),
            keep: Keep::Drop,
            gap_ns: 0,
            oom: [0; 4],
            stall_at: 0,
            depth: 0,
            moment: 0,
            open: vec![],
            acts: vec![],
        }
    }
    /// the text as it arrives: bytes after the faults, decoded the way a server decodes a body
    pub fn delivered(&self) -> String {
        if self.faults.is_empty() {
            return self.base.clone();
        }
        let mut v = self.base.as_bytes().to_vec();
        for f in &self.faults {
            let n = v.len();
            let at = |p: u32| (p as usize).min(n);
            match f {
                Fault::Cut(p) => v.truncate(*p as usize),
                Fault::Lose(a, b) => {
                    let (a, b) = (at(*a), at(*b));
                    if a < b {
                        v.drain(a..b);
                    }
                }
                Fault::Dup(a, b) => {
                    let (a, b) = (at(*a), at(*b));
                    if a < b {
                        let piece = v[a..b].to_vec();
                        v.splice(b..b, piece);
                    }
                }
                Fault::Swap(a, b, c) => {
                    let (a, b, c) = (at(*a), at(*b), at(*c));
                    if a <= b && b <= c {
                        v[a..c].rotate_left(b - a);
                    }
                }
                Fault::Over(p, bytes) => {
                    for (i, x) in bytes.iter().enumerate() {
                        if let Some(y) = v.get_mut(*p as usize + i) {
                            *y = *x;
                        }
                    }
                }
                Fault::Insert(p, bytes) => {
                    let p = at(*p);
                    v.splice(p..p, bytes.iter().copied());
                }
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Client {
    pub stack_kb: u32,
    pub start_ns: u64,
    pub name: Option<String>, // of its thread
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub clients: Vec<Client>,
    pub phases: u32,
    pub reps: u32,
    pub fresh: bool, // the marked names in the texts are new ones in every round
    pub sample: u32, // judge every so many calls only (0, 1: all)
    pub world: World,
    pub reuse: u8,
    pub pad: u32,
    pub salt: u64,
    pub fill: u8,
    pub base_off: u32,
    pub spare_threads: u32, // threads started and ended before, so that thread numbers differ
    pub policy: Policy,
    pub note: String,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.to_string(),
            seed,
            clients: vec![],
            phases: 1,
            reps: 1,
            fresh: false,
            sample: 0,
            world: World::plain(),
            reuse: 0,
            pad: 0,
            salt: 0,
            fill: 0xA5,
            base_off: 0,
            spare_threads: 0,
            policy: Policy::None,
            note: String::new(),
        }
    }
    pub fn single(prop: &str, op: Op) -> Plan {
        let mut p = Plan::new(prop, 0);
        p.clients.push(Client { stack_kb: STACK_KB, start_ns: 0, name: None, ops: vec![op] });
        p
    }
    pub fn n_ops(&self) -> usize {
        self.clients.iter().map(|c| c.ops.len()).sum()
    }
}
/// What stands in a text where a name of its own goes, and that name in a given round.
pub const MARK: &str = "qzaaaa";
pub const MARK_NUM: &str = "770000";
pub fn mark(round: u32) -> String {
    let l = |k: u32| (b'a' + (round >> (4 * k) & 15) as u8) as char;
    format!("qz{}{}{}{}", l(3), l(2), l(1), l(0))
}
pub fn freshen(s: &str, round: u32) -> String {
    s.replace(MARK, &mark(round)).replace(MARK_NUM, &format!("77{:04}", round % 10_000))
}
/// Marks up to `n` names (and, if asked, numbers) of a text.
pub fn put_marks(r: &mut Rng, s: &str, n: usize, numbers: bool) -> String {
    let mut s = s.to_string();
    for _ in 0..n {
        let b = s.as_bytes();
        let places: Vec<(usize, bool)> = (1..b.len())
            .filter_map(|i| {
                if b[i - 1].is_ascii_digit() && b[i].is_ascii_digit() && numbers {
                    return Some((i, true));
                }
                if !b[i - 1].is_ascii_alphabetic() || b[i] >= 0x80 {
                    return None;
                }
                let mut k = i - 1;
                while k > 0 && b[k - 1].is_ascii_alphanumeric() {
                    k -= 1;
                }
                (k > 0 && b"?$<:'\"@/#_".contains(&b[k - 1])).then_some((i, false))
            })
            .collect();
        if places.is_empty() {
            break;
        }
        let (at, number) = *r.pick(&places);
        s.insert_str(at, if number { MARK_NUM } else { MARK });
    }
    s
}
/// Ordinary callers in these simulations have plenty of stack; C12 uses 2 MiB.
pub const STACK_KB: u32 = 64 << 10;

pub fn draw_world(r: &mut Rng) -> World {
    let mut word = [0; 24];
    let mut env_mode = r.below(3) as u8;
    if let Some(w) = dict::word(r, 40).filter(|w| w.len() < 24 && !w.contains('\0')) {
        word[..w.len()].copy_from_slice(w.as_bytes());
        env_mode = 3;
    } else if let Some(n) = dict::size(r, 0, u64::MAX, 20) {
        let w = n.to_string();
        word[..w.len()].copy_from_slice(w.as_bytes());
        env_mode = 3;
    }
    let mut clock_s =
        *r.pick(&[0i64, 1, -1, -3_000_000_000, 1_700_000_000, 4_102_444_800, 253_402_300_799, 2_147_483_647, 1_000_000]);
    if r.pct(30) {
        clock_s = r.below(5_000_000_000) as i64;
    }
    World {
        clock_s: dict::size(r, 0, 1 << 40, 30).map_or(clock_s, |n| n as i64),
        clock_step_ns: *r.pick(&[0i64, 1, 1000, 1_000_000, 3_600_000_000_000, -1000]),
        jump_every: *r.pick(&[0u32, 0, 1, 2, 3, 7]),
        jump_s: *r.pick(&[-86400i64, 86400, 3600, -1, 315_360_000, -315_360_000]),
        rand_salt: r.next(),
        env_mode,
        env_salt: r.next(),
        pid: dict::size(r, 1, 1 << 22, 20).map_or(r.range(1, 1 << 22), |n| n) as u32,
        cwd: r.below(3) as u8,
        sys_fail: r.below(5) as u8,
        word,
    }
}

// ---------------------------------------------------------------- text form
fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() + 8);
    for &c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            b' '..=b'~' => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'x' && i + 3 < b.len() {
                v.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(b'?'));
                i += 4;
                continue;
            }
            v.push(b[i + 1]);
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub fn write(p: &Plan) -> String {
    let mut o = String::new();
    o.push_str("nsim-plan 1\n");
    o.push_str(&format!("property {}\nseed {}\n", p.prop, p.seed));
    if !p.note.is_empty() {
        o.push_str(&format!("note {}\n", esc(p.note.as_bytes())));
    }
    let w = &p.world;
    o.push_str(&format!(
        "world {} {} {} {} {} {} {} {} {} {} ={}\n",
        w.clock_s, w.clock_step_ns, w.jump_every, w.jump_s, w.rand_salt, w.env_mode, w.env_salt, w.pid, w.cwd, w.sys_fail,
        esc(&w.word[..w.word.iter().position(|b| *b == 0).unwrap_or(23)]).replace(' ', "\\x20")
    ));
    o.push_str(&format!("memory {} {} {} {} {} {}\n", p.reuse, p.pad, p.salt, p.fill, p.base_off, p.spare_threads));
    o.push_str(&format!("repeat {} {} {} {}\n", p.phases, p.reps, p.sample, p.fresh as u8));
    match &p.policy {
        Policy::None => o.push_str("schedule none\n"),
        Policy::Slices(a, b) => o.push_str(&format!("schedule slices {a} {b}\n")),
        Policy::Points(v) => {
            let l: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            o.push_str(&format!("schedule points {}\n", l.join(" ")));
        }
        Policy::Sites(m, s) => o.push_str(&format!("schedule sites {m} {s}\n")),
        Policy::Shared(m, s) => o.push_str(&format!("schedule shared {m} {s}\n")),
        Policy::Allocs => o.push_str("schedule allocs\n"),
        Policy::Ops => o.push_str("schedule ops\n"),
        Policy::Fixed(v) => {
            let l: Vec<String> = v.iter().map(|(t, n)| format!("{t}:{n}")).collect();
            o.push_str(&format!("schedule fixed {}\n", l.join(" ")));
        }
    }
    for c in &p.clients {
        o.push_str(&format!("client {} {} {}\n", c.stack_kb, c.start_ns, c.name.as_ref().map_or("-".into(), |n| format!("={}", esc(n.as_bytes())))));
        for op in &c.ops {
            let buf = match op.buf {
                Buf::Fresh(a) => format!("fresh{a}"),
                Buf::Page(a, s) => format!("page{a}/{s}"),
                Buf::Edge => "edge".into(),
                Buf::Slot => "slot".into(),
                Buf::Shared => "shared".into(),
            };
            o.push_str(&format!(
                "op {} {} {:?} gap={} oom={},{},{},{} stall={} depth={} moment={}\n",
                op.entry, buf, op.keep, op.gap_ns, op.oom[0], op.oom[1], op.oom[2], op.oom[3], op.stall_at, op.depth, op.moment
            ));
            o.push_str(&format!("text {}\n", esc(op.base.as_bytes())));
            if !op.open.is_empty() {
                let l: Vec<String> = op.open.iter().map(|(a, b)| format!("{a}-{b}")).collect();
                o.push_str(&format!("open {}\n", l.join(" ")));
            }
            for a in &op.acts {
                o.push_str(&format!("act {:?} {} {} oom={}\n", a.what, a.a, a.b, a.oom));
            }
            for f in &op.faults {
                match f {
                    Fault::Cut(p) => o.push_str(&format!("fault cut {p}\n")),
                    Fault::Lose(a, b) => o.push_str(&format!("fault lose {a} {b}\n")),
                    Fault::Dup(a, b) => o.push_str(&format!("fault dup {a} {b}\n")),
                    Fault::Swap(a, b, c) => o.push_str(&format!("fault swap {a} {b} {c}\n")),
                    Fault::Over(p, v) => o.push_str(&format!("fault over {p} {}\n", esc(v))),
                    Fault::Insert(p, v) => o.push_str(&format!("fault insert {p} {}\n", esc(v))),
                }
            }
        }
    }
    o.push_str("end\n");
    o
}

pub fn read(s: &str) -> Result<Plan, String> {
    let mut p = Plan::new("", 0);
    let mut lines = s.lines();
    if lines.next() != Some("nsim-plan 1") {
        return Err("not a plan file".into());
    }
    let num = |s: &str| s.parse::<i64>().or_else(|_| s.parse::<u64>().map(|x| x as i64)).unwrap_or(0);
    for l in lines {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let f: Vec<&str> = rest.split(' ').collect();
        match k {
            "property" => p.prop = rest.into(),
            "seed" => p.seed = num(rest) as u64,
            "note" => p.note = String::from_utf8_lossy(&unesc(rest)).into_owned(),
            "world" if f.len() == 11 => {
                p.world = World {
                    clock_s: num(f[0]),
                    clock_step_ns: num(f[1]),
                    jump_every: num(f[2]) as u32,
                    jump_s: num(f[3]),
                    rand_salt: num(f[4]) as u64,
                    env_mode: num(f[5]) as u8,
                    env_salt: num(f[6]) as u64,
                    pid: num(f[7]) as u32,
                    cwd: num(f[8]) as u8,
                    sys_fail: num(f[9]) as u8,
                    word: {
                        let mut w = [0; 24];
                        let l = unesc(f[10].strip_prefix('=').unwrap_or(""));
                        let n = l.len().min(23);
                        w[..n].copy_from_slice(&l[..n]);
                        w
                    },
                }
            }
            "memory" if f.len() == 6 => {
                p.reuse = num(f[0]) as u8;
                p.pad = num(f[1]) as u32;
                p.salt = num(f[2]) as u64;
                p.fill = num(f[3]) as u8;
                p.base_off = num(f[4]) as u32;
                p.spare_threads = num(f[5]) as u32;
            }
            "repeat" if f.len() >= 2 => {
                p.phases = num(f[0]) as u32;
                p.reps = num(f[1]) as u32;
                p.sample = f.get(2).map_or(0, |x| num(x) as u32);
                p.fresh = f.get(3) == Some(&"1");
            }
            "schedule" => {
                let n: Vec<u64> = f[1..].iter().map(|x| num(x) as u64).collect();
                p.policy = match f[0] {
                    "none" => Policy::None,
                    "slices" => Policy::Slices(n[0], n[1]),
                    "points" => Policy::Points(n),
                    "sites" => Policy::Sites(n[0], n[1]),
                    "shared" => Policy::Shared(n[0], n[1]),
                    "allocs" => Policy::Allocs,
                    "ops" => Policy::Ops,
                    _ => Policy::Fixed(
                        f[1..]
                            .iter()
                            .filter_map(|x| x.split_once(':'))
                            .map(|(a, b)| (num(a) as u8, num(b) as u32))
                            .collect(),
                    ),
                }
            }
            "client" if f.len() >= 3 => p.clients.push(Client {
                stack_kb: num(f[0]) as u32,
                start_ns: num(f[1]) as u64,
                name: f[2..].join(" ").strip_prefix('=').map(|n| String::from_utf8_lossy(&unesc(n)).into_owned()),
                ops: vec![],
            }),
            "op" if f.len() >= 6 => {
                let mut op = Op::new(num(f[0]) as u8, "");
                op.buf = match f[1] {
                    "slot" => Buf::Slot,
                    "shared" => Buf::Shared,
                    "edge" => Buf::Edge,
                    x if x.starts_with("page") => {
                        let (a, s) = x[4..].split_once('/').unwrap_or(("0", "12"));
                        Buf::Page(num(a) as u32, num(s) as u8)
                    }
                    x => Buf::Fresh(num(&x[5..]) as u8),
                };
                op.keep = match f[2] {
                    "Drop" => Keep::Drop,
                    "Later" => Keep::Later,
                    "End" => Keep::End,
                    "Elsewhere" => Keep::Elsewhere,
                    "Clone" => Keep::Clone,
                    "Shelf" => Keep::Shelf,
                    _ => Keep::Forever,
                };
                op.gap_ns = num(&f[3][4..]) as u64;
                for (i, x) in f[4][4..].split(',').enumerate().take(4) {
                    op.oom[i] = num(x) as u32;
                }
                op.stall_at = num(&f[5][6..]) as u64;
                op.depth = f.get(6).map_or(0, |x| num(&x[6..]) as u32);
                op.moment = f.get(7).map_or(0, |x| num(&x[7..]) as u8);
                p.clients.last_mut().ok_or("op before client")?.ops.push(op);
            }
            "act" if f.len() == 4 => {
                let op = p.clients.last_mut().and_then(|c| c.ops.last_mut()).ok_or("act before op")?;
                let what = WHATS.iter().copied().find(|w| format!("{w:?}") == f[0]).ok_or("unknown act")?;
                op.acts.push(Act { what, a: num(f[1]) as u32, b: num(f[2]) as u32, oom: num(&f[3][4..]) as u32 });
            }
            "text" | "open" | "fault" => {
                let op = p.clients.last_mut().and_then(|c| c.ops.last_mut()).ok_or("text before op")?;
                match k {
                    "text" => op.base = String::from_utf8_lossy(&unesc(rest)).into_owned(),
                    "open" => {
                        op.open = f
                            .iter()
                            .filter_map(|x| x.split_once('-'))
                            .map(|(a, b)| (num(a) as u32, num(b) as u32))
                            .collect()
                    }
                    _ => {
                        let n = |i: usize| f.get(i).map_or(0, |x| num(x) as u32);
                        op.faults.push(match f[0] {
                            "cut" => Fault::Cut(n(1)),
                            "lose" => Fault::Lose(n(1), n(2)),
                            "dup" => Fault::Dup(n(1), n(2)),
                            "swap" => Fault::Swap(n(1), n(2), n(3)),
                            k => {
                                let bytes = unesc(rest.splitn(3, ' ').nth(2).unwrap_or(""));
                                if k == "over" {
                                    Fault::Over(n(1), bytes)
                                } else {
                                    Fault::Insert(n(1), bytes)
                                }
                            }
                        })
                    }
                }
            }
            _ => {}
        }
    }
    Ok(p)
}

// ---------------------------------------------------------------- drawing faults
const NASTY: [&str; 34] = [
    "\u{e9}", "\u{4e2d}", "\u{1F600}", "\u{0}", "\u{fffd}", "\u{feff}", "{", "}", "(", ")", "[", "]", "<", ">", "\"", "'",
    "\\", "?", "$", ":", ";", ".", ",", "|", "^", "!", "*", "#", "\n", "\r", "\u{301}", "%", "@", "_:",
];
/// How a piece of text gets damaged on its way in.
pub fn draw_fault(r: &mut Rng, text: &[u8]) -> Fault {
    let n = text.len() as u64;
    let pos = |r: &mut Rng| r.below(n + 1) as u32;
    let span = |r: &mut Rng| {
        let a = r.below(n + 1);
        let len = if r.pct(60) { r.range(1, 6) } else { r.range(1, 40) };
        (a as u32, (a + len).min(n) as u32)
    };
    // a packet boundary: biased to where tokens start or end
    let boundary = |r: &mut Rng| {
        if n == 0 {
            return 0;
        }
        let mut p = r.below(n) as usize;
        if r.pct(50) {
            for _ in 0..12 {
                if p < text.len() && !text[p].is_ascii_alphanumeric() {
                    break;
                }
                p = (p + 1).min(text.len());
            }
        }
        p as u32
    };
    if let Some(w) = dict::word(r, 25) {
        let p = boundary(r);
        return if r.pct(60) { Fault::Insert(p, w.into_bytes()) } else { Fault::Over(p, w.into_bytes()) };
    }
    match r.below(13) {
        12 => {
            let c = *r.pick(&EDGE);
            let p = boundary(r);
            if r.pct(60) {
                Fault::Insert(p, c.as_bytes().to_vec())
            } else {
                // in place of one character: the text must stay valid UTF-8 to keep it
                Fault::Over(p, c.as_bytes().to_vec())
            }
        }
        0 | 1 => Fault::Cut(boundary(r)),
        2 | 3 => {
            let (a, b) = span(r);
            Fault::Lose(a, b)
        }
        4 | 5 => {
            let (a, b) = span(r);
            Fault::Dup(a, b)
        }
        6 => {
            let (a, b) = span(r);
            let c = (b as u64 + r.range(1, 20)).min(n) as u32;
            Fault::Swap(a, b, c)
        }
        7 => {
            let k = r.range(1, 3);
            Fault::Over(pos(r), (0..k).map(|_| r.next() as u8).collect())
        }
        8 | 9 => {
            let c = *r.pick(&NASTY);
            Fault::Over(boundary(r), c.as_bytes().to_vec())
        }
        _ => {
            let k = r.range(1, 3);
            let mut v = vec![];
            for _ in 0..k {
                v.extend_from_slice(r.pick(&NASTY).as_bytes());
            }
            let p = if r.pct(70) { boundary(r) } else { pos(r) };
            Fault::Insert(p, v)
        }
    }
}
