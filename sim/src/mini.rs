//! Makes a violating plan small: fewer clients, operations, faults, switches and bytes, as long
//! as the same kind of violation stays.
use crate::check::{Ctx, Viol};
use crate::plan::{Buf, Fault, Keep, Plan};
use crate::sched::Policy;
use crate::seam::World;

struct M<'a> {
    cx: &'a mut Ctx,
    class: String,
    best: Plan,
    v: Viol,
    tries: u32,
}
impl M<'_> {
    fn time(&self) -> bool {
        self.cx.time_left() && self.tries < 6000
    }
    fn attempt(&mut self, p: &Plan) -> bool {
        if !self.time() || *p == self.best {
            return false;
        }
        self.tries += 1;
        let (v, _) = self.cx.judge(p);
        if let Some(v) = v {
            if v.class == self.class {
                self.best = p.clone();
                self.v = v;
                return true;
            }
        }
        false
    }
    fn edit(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.attempt(&p)
    }
    /// the edit under the current schedule, or under one of the simple ones
    fn edit_any_schedule(&mut self, f: impl Fn(&mut Plan), orig: &Policy) -> bool {
        if self.edit(|p| f(p)) {
            return true;
        }
        for pol in [Policy::None, Policy::Ops, orig.clone()] {
            if self.best.policy != pol && self.edit(|p| {
                f(p);
                p.policy = pol.clone();
            }) {
                return true;
            }
        }
        false
    }
}

fn shift(x: u32, a: u32, b: u32) -> u32 {
    if x <= a {
        x
    } else if x >= b {
        x - (b - a)
    } else {
        a
    }
}

/// Removes bytes a..b of every text equal to `base`.
fn remove(p: &mut Plan, base: &str, a: usize, b: usize) {
    for c in &mut p.clients {
        for op in &mut c.ops {
            if op.base != base {
                continue;
            }
            op.base.replace_range(a..b, "");
            let (x, y) = (a as u32, b as u32);
            for f in &mut op.faults {
                match f {
                    Fault::Cut(p) | Fault::Over(p, _) | Fault::Insert(p, _) => *p = shift(*p, x, y),
                    Fault::Lose(p, q) | Fault::Dup(p, q) => {
                        *p = shift(*p, x, y);
                        *q = shift(*q, x, y);
                    }
                    Fault::Swap(p, q, r) => {
                        *p = shift(*p, x, y);
                        *q = shift(*q, x, y);
                        *r = shift(*r, x, y);
                    }
                }
            }
            op.open = op
                .open
                .iter()
                .filter(|(p, q)| (*p >= y || *p < x) && (*q > y || *q <= x))
                .map(|(p, q)| (shift(*p, x, y), shift(*q, x, y)))
                .collect();
        }
    }
}

pub fn minimise(cx: &mut Ctx, p: Plan, v: Viol) -> (Plan, Viol) {
    let class = v.class.clone();
    let structured = p.prop == "C12";
    let mut m = M { cx, class, best: p, v, tries: 0 };
    let orig = m.best.policy.clone();
    if structured {
        // the text families are already as plain as they get
        return (m.best, m.v);
    }
    // a family of texts: the smallest members that still show it
    while let Some(p) = crate::check::growth_plan_half(&m.best) {
        if !m.edit(|q| *q = p.clone()) {
            break;
        }
    }
    if m.best.note.starts_with("growth") {
        return (m.best, m.v);
    }
    // big things first
    m.edit(|p| p.world = World::plain());
    m.edit(|p| {
        p.reuse = 0;
        p.pad = 0;
        p.salt = 0;
        p.fill = 0xA5;
        p.base_off = 0;
    });
    m.edit(|p| p.spare_threads = 0);
    for n in [1u32, 2, 3] {
        if m.best.phases > n && m.edit(|p| p.phases = n) {
            break;
        }
    }
    let mut reps = 1;
    while reps < m.best.reps && m.time() {
        if m.edit(|p| p.reps = reps) {
            break;
        }
        reps = (reps * 2).max(reps + 1);
    }
    // clients
    let mut i = 0;
    while i < m.best.clients.len() && m.best.clients.len() > 1 && m.time() {
        if !m.edit_any_schedule(
            |p| {
                p.clients.remove(i);
                if let Policy::Fixed(v) = &mut p.policy {
                    v.retain(|x| x.0 as usize != i);
                    for x in v.iter_mut() {
                        if x.0 as usize > i {
                            x.0 -= 1;
                        }
                    }
                }
            },
            &orig,
        ) {
            i += 1;
        }
    }
    // operations, in halves and then one by one
    for c in 0..m.best.clients.len() {
        let mut size = (m.best.clients[c].ops.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < m.best.clients[c].ops.len() && m.time() {
                let n = m.best.clients[c].ops.len();
                let e = (at + size).min(n);
                if (e - at < n || m.best.clients.len() > 1)
                    && m.edit_any_schedule(|p| drop(p.clients[c].ops.drain(at..e)), &orig)
                {
                    continue;
                }
                at += size;
            }
            if size == 1 || !m.time() {
                break;
            }
            size = (size / 2).max(1);
        }
    }
    if m.best.n_ops() < 200 {
        m.edit(|p| p.sample = 0);
        m.edit(|p| p.fresh = false);
    }
    // what happens to each operation
    for c in 0..m.best.clients.len() {
        m.edit(|p| p.clients[c].start_ns = 0);
        m.edit(|p| p.clients[c].name = None);
        for k in 0..m.best.clients[c].ops.len() {
            if !m.time() {
                break;
            }
            m.edit(|p| p.clients[c].ops[k].gap_ns = 0);
            m.edit(|p| p.clients[c].ops[k].oom = [0; 4]);
            m.edit(|p| p.clients[c].ops[k].oom[1] = 0);
            m.edit(|p| p.clients[c].ops[k].stall_at = 0);
            m.edit(|p| p.clients[c].ops[k].depth = 0);
            m.edit(|p| p.clients[c].ops[k].moment = 0);
            m.edit(|p| p.clients[c].ops[k].keep = Keep::Drop);
            let mut f = 0;
            while f < m.best.clients[c].ops[k].acts.len() {
                if !m.edit(|p| {
                    p.clients[c].ops[k].acts.remove(f);
                }) {
                    m.edit(|p| p.clients[c].ops[k].acts[f].oom = 0);
                    f += 1;
                }
            }
            m.edit(|p| p.clients[c].ops[k].buf = Buf::Fresh(0));
            let mut f = 0;
            while f < m.best.clients[c].ops[k].faults.len() {
                if !m.edit(|p| drop(p.clients[c].ops[k].faults.remove(f))) {
                    f += 1;
                }
            }
        }
    }
    // the texts
    let mut seen: Vec<String> = vec![];
    loop {
        let next = m
            .best
            .clients
            .iter()
            .flat_map(|c| c.ops.iter())
            .map(|o| o.base.clone())
            .find(|b| !seen.contains(b));
        let Some(mut base) = next else { break };
        if !m.time() {
            break;
        }
        let mut size = (base.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < base.len() && m.time() {
                let mut e = (at + size).min(base.len());
                while !base.is_char_boundary(e) {
                    e += 1;
                }
                let mut a = at;
                while !base.is_char_boundary(a) {
                    a += 1;
                }
                if a < e {
                    let b2 = base.clone();
                    if m.edit(|p| remove(p, &b2, a, e)) {
                        base.replace_range(a..e, "");
                        continue;
                    }
                }
                at += size;
            }
            if size == 1 || !m.time() {
                break;
            }
            size = (size / 2).max(1);
        }
        seen.push(base);
    }
    // the schedule
    if m.best.clients.len() > 1 {
        m.edit(|p| p.policy = Policy::None);
        m.edit(|p| p.policy = Policy::Ops);
        if !matches!(m.best.policy, Policy::Fixed(_)) {
            // write the schedule out
            let p = m.best.clone();
            let (_, o) = m.cx.judge(&p);
            if let Some(o) = o {
                m.edit(|p| p.policy = Policy::Fixed(o.slices.clone()));
            }
        }
        if let Policy::Fixed(v) = m.best.policy.clone() {
            let mut size = (v.len() / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let n = if let Policy::Fixed(v) = &m.best.policy { v.len() } else { 0 };
                    if at >= n || !m.time() {
                        break;
                    }
                    let e = (at + size).min(n);
                    if !m.edit(|p| {
                        if let Policy::Fixed(v) = &mut p.policy {
                            v.drain(at..e);
                        }
                    }) {
                        at += size;
                    }
                }
                if size == 1 || !m.time() {
                    break;
                }
                size = (size / 2).max(1);
            }
        }
    }
    (m.best, m.v)
}
