//! Making a failing run small: same property, same class of violation, less of everything else.
use crate::driver::{run_after, run_alone};
use crate::gen;
use crate::plan::*;
use std::time::{Duration, Instant};

struct Shrinker {
    class: String,
    best: Plan,
    out: Outcome,
    end: Instant,
    tries: u32,
}

impl Shrinker {
    fn try_plan(&mut self, p: Plan) -> bool {
        if Instant::now() >= self.end || p == self.best {
            return false;
        }
        self.tries += 1;
        let left = self.end.saturating_duration_since(Instant::now()) + Duration::from_secs(5);
        let o = run_alone(&p, left.min(Duration::from_secs(40)));
        if matches!(&o.violation, Some((c, _)) if *c == self.class) {
            self.best = p;
            self.out = o;
            true
        } else {
            false
        }
    }
    /// Remove elements of a list, larger pieces first.
    fn list<T: Clone + PartialEq>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>), min: usize) {
        let mut size = get(&self.best).len() / 2;
        while size > 0 {
            let mut i = 0;
            loop {
                let cur = get(&self.best);
                if i >= cur.len() {
                    break;
                }
                if cur.len().saturating_sub(size) < min || Instant::now() >= self.end {
                    break;
                }
                let mut v = cur.clone();
                v.drain(i..(i + size).min(v.len()));
                let mut p = self.best.clone();
                set(&mut p, v);
                if !self.try_plan(p) {
                    i += size;
                }
            }
            size /= 2;
        }
        // and the single ones
        let mut i = 0;
        while i < get(&self.best).len() && get(&self.best).len() > min && Instant::now() < self.end {
            let mut v = get(&self.best);
            v.remove(i);
            let mut p = self.best.clone();
            set(&mut p, v);
            if !self.try_plan(p) {
                i += 1;
            }
        }
    }
    fn with(&mut self, f: impl Fn(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.try_plan(p)
    }
}

fn sched_of(p: &mut Plan) -> &mut Sch {
    if p.prop == "C05" && !p.body.alts.is_empty() {
        &mut p.body.alts[0].0
    } else {
        &mut p.sch
    }
}

/// A run that fails only after other runs in the same process: as few of them as possible.
fn with_past(before: Vec<Plan>, p: Plan, o: Outcome, end: Instant) -> (Vec<Plan>, Plan, Outcome, String) {
    let class = o.violation.as_ref().unwrap().0.clone();
    let mut tries = 0;
    let mut fails = |b: &[Plan]| -> Option<Outcome> {
        tries += 1;
        let o = run_after(b, &p, Duration::from_secs(100));
        matches!(&o.violation, Some((c, _)) if *c == class).then_some(o)
    };
    let mut best: Option<(Vec<Plan>, Outcome)> = None;
    let mut k = 1;
    while best.is_none() && !before.is_empty() && Instant::now() < end {
        let n = k.min(before.len());
        let b = before[before.len() - n..].to_vec();
        if let Some(o) = fails(&b) {
            best = Some((b, o));
        } else if n == before.len() {
            break;
        }
        k *= 4;
    }
    let Some((mut b, mut out)) = best else {
        return (vec![], p, o, "not minimised: neither alone nor after the earlier runs of its process does the run fail the same way".into());
    };
    let mut size = b.len() / 2;
    while size > 0 {
        let mut i = 0;
        while i < b.len() && b.len() > 1 && Instant::now() < end {
            let mut c = b.clone();
            c.drain(i..(i + size).min(c.len()));
            match fails(&c) {
                Some(o) => (b, out) = (c, o),
                None => i += size,
            }
        }
        size /= 2;
    }
    let note = format!("needs {} earlier runs in the same process; minimised in {tries} runs", b.len());
    (b, p, out, note)
}

pub fn minimise(before: Vec<Plan>, p: Plan, o: Outcome, room: Duration) -> (Vec<Plan>, Plan, Outcome, String) {
    let class = o.violation.as_ref().unwrap().0.clone();
    let mut s = Shrinker { class, best: p.clone(), out: o.clone(), end: Instant::now() + room, tries: 0 };
    // does it fail in a process of its own?
    let alone = run_alone(&p, Duration::from_secs(150));
    match &alone.violation {
        Some((c, _)) if *c == s.class => s.out = alone,
        _ => {
            let end = s.end;
            return with_past(before, p, o, end);
        }
    }
    // one alternative schedule
    if p.prop == "C05" {
        for k in 0..p.body.alts.len() {
            let a = p.body.alts[k].clone();
            if s.with(|q| q.body.alts = vec![a.clone()]) {
                break;
            }
        }
    }
    s.with(|q| {
        q.clock.jumps.clear();
        q.clock.set.clear();
        q.clock.mono_frozen = false;
    });
    s.list(|q| q.faults.clone(), |q, v| q.faults = v, 0);
    s.with(|q| sched_of(q).spurious = 0);
    // a simpler schedule
    let simple = s.with(|q| {
        let c = sched_of(q);
        c.policy = Pol::Sequential;
        c.stalls.clear();
    });
    for n in [1usize, 2, 3] {
        if sched_of(&mut s.best.clone()).threads <= n || s.with(|q| sched_of(q).threads = n) {
            break;
        }
    }
    if s.best.prop != "C05" {
        s.with(|q| q.site = Site::Outside);
    }
    // fewer requests, systems, messages
    s.list(|q| q.body.tenants.clone(), |q, v| q.body.tenants = v, if p.prop == "C16" { 1 } else { 0 });
    s.list(|q| q.body.groves.clone(), |q, v| q.body.groves = v, 0);
    if p.prop == "C08" {
        let n = s.best.body.ops.len();
        for k in (0..n).rev() {
            s.with(|q| {
                if q.body.ops.len() > 1 && k < q.body.ops.len() {
                    q.body.ops.remove(k);
                    q.body.other.remove(k);
                }
            });
        }
    } else {
        s.list(|q| q.body.ops.clone(), |q, v| q.body.ops = v, 0);
    }
    for k in 0..s.best.body.tenants.len() {
        s.list(|q| q.body.tenants[k].2.clone(), |q, v| q.body.tenants[k].2 = v, 0);
    }
    if s.best.body.net.is_some() {
        s.list(|q| q.body.net.clone().unwrap().reqs, |q, v| q.body.net.as_mut().unwrap().reqs = v, 1);
        s.list(|q| q.body.net.clone().unwrap().crashes, |q, v| q.body.net.as_mut().unwrap().crashes = v, 0);
        s.list(|q| q.body.net.clone().unwrap().partitions, |q, v| q.body.net.as_mut().unwrap().partitions = v, 0);
        s.with(|q| q.body.net.as_mut().unwrap().drop = 0);
        s.with(|q| q.body.net.as_mut().unwrap().dup = 0);
        s.with(|q| q.body.net.as_mut().unwrap().delay_max = 1000);
    }
    if s.best.body.trees.is_some() && p.prop != "C08" {
        s.list(|q| q.body.trees.clone().unwrap().features, |q, v| q.body.trees.as_mut().unwrap().features = v, 0);
    }
    if s.best.body.csv.is_some() {
        s.list(|q| q.body.csv.clone().unwrap().odd, |q, v| q.body.csv.as_mut().unwrap().odd = v, 0);
        s.with(|q| q.body.csv.as_mut().unwrap().ragged.clear());
        s.with(|q| q.body.csv.as_mut().unwrap().blank.clear());
        s.with(|q| q.body.csv.as_mut().unwrap().no_end = false);
        s.list(|q| q.body.csv.clone().unwrap().rows, |q, v| q.body.csv.as_mut().unwrap().rows = v, 1);
    }
    if s.best.body.alg.is_some() {
        s.with(|q| q.body.alg.as_mut().unwrap().other = None);
        s.list(|q| q.body.alg.clone().unwrap().progs, |q, v| q.body.alg.as_mut().unwrap().progs = v, 1);
        for k in 0..s.best.body.alg.as_ref().unwrap().progs.len() {
            s.list(|q| q.body.alg.clone().unwrap().progs[k].1.clone(), |q, v| q.body.alg.as_mut().unwrap().progs[k].1 = v, 0);
            s.with(|q| q.body.alg.as_mut().unwrap().progs[k].0 = Site::Outside);
        }
    }
    s.list(|q| q.body.tables.clone(), |q, v| q.body.tables = v, (p.prop == "C22") as usize);
    for k in 0..s.best.body.tables.len() {
        s.with(|q| q.body.tables[k].2 = Site::Outside);
        s.with(|q| q.body.tables[k].3 = false);
    }
    if s.best.body.seeds.is_some() {
        s.list(|q| q.body.seeds.clone().unwrap().contexts, |q, v| q.body.seeds.as_mut().unwrap().contexts = v, 1);
    }
    // smaller requests
    for k in 0..s.best.body.ops.len() {
        let n = match &s.best.body.ops[k] {
            Op::Multi(v) => v.len(),
            Op::Batch(_, v, _) => v.len(),
            _ => 0,
        };
        for j in (0..n).rev() {
            s.with(|q| match &mut q.body.ops[k] {
                Op::Multi(v) if v.len() > 1 && j < v.len() => {
                    v.remove(j);
                }
                Op::Batch(_, v, _) if j < v.len() => {
                    v.remove(j);
                }
                _ => {}
            });
        }
    }
    if !["C14", "C13", "C15", "C12", "C19", "C20"].contains(&p.prop.as_str()) && s.best.body.trees.is_none() {
        s.with(|q| q.tfhe = gen::tf(16, 8, 4, 8, 4, 2, true));
    }
    s.with(|q| q.body.fresh = false);
    for n in [4, 8, 16] {
        if p.body.rounds <= n || s.with(|q| q.body.rounds = n) {
            break;
        }
    }
    s.with(|q| sched_of(q).stalls.clear());
    // the schedule as an explicit list of departures from the default, as short as possible
    if !simple && !matches!(sched_of(&mut s.best.clone()).policy, Pol::Sequential) {
        let d = s.out.decisions.clone();
        let first = s.with(|q| {
            let c = sched_of(q);
            c.policy = Pol::Script(d.clone());
            c.stalls.clear();
        });
        if first {
            let get = |q: &Plan| match &sched_of(&mut q.clone()).policy {
                Pol::Script(v) => v.clone(),
                _ => vec![],
            };
            s.list(get, |q, v| sched_of(q).policy = Pol::Script(v), 0);
        }
    }
    let note = format!("minimised in {} runs{}", s.tries, if Instant::now() >= s.end { " (time limit reached)" } else { "" });
    (vec![], s.best, s.out, note)
}
