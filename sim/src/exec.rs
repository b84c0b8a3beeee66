//! Executing plans: one function per property (family), each with its own oracle.
use crate::core::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::sys;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{Client, ClientQuery, Server};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::RLWECiphertext;
use panacea_simstd::sched;
use std::collections::{BTreeMap, BinaryHeap};

pub fn execute(p: &Plan) -> Outcome {
    match p.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C10" | "C11" => register(p),
        "C05" => schedules(p),
        "C06" => progress(p),
        "C07" => network(p),
        "C08" => oblivious(p),
        "C09" => crate::queries::run(p),
        "C12" => crate::seeding::run(p),
        "C13" | "C15" => crate::toolp::run(p),
        "C14" => crate::treep::run(p),
        "C16" => tenants(p),
        "C17" => crate::csvp::run(p),
        "C19" | "C20" => crate::algp::run(p),
        "C22" => crate::algp::run_tables(p),
        "C23" => upkeep(p),
        _ => panic!("unknown property"),
    }
}

pub fn finish<R>(out: &mut Outcome, r: &RunOut<R>) {
    out.absorb(&r.rep);
    out.decisions = r.rep.decisions.clone();
    for (k, n) in &r.world.fired {
        out.count(&format!("fault.{k}"), *n);
    }
}

pub fn panic_violation(e: &str) -> (String, String) {
    (format!("panic: {}", panic_class(e)), format!("the call panicked: {e}"))
}

// ------------------------------------------------------------------------------------------------
// C01-C04, C10, C11: a history of requests against a model array

fn register(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let r = sim(&p.sch, false, world(p), || {
        let mut o = Oram::new(&p.tfhe, p.geo, p.site);
        let mut hit: Result<(), V> = Ok(());
        for (k, op) in p.body.ops.iter().enumerate() {
            if let Err((c, d)) = o.apply(op) {
                hit = Err((c, format!("request {k} ({}): {d}", brief(op))));
                break;
            }
        }
        if hit.is_ok() {
            let lim = match p.prop.as_str() {
                // the whole database was compared
                _ if p.geo.rows * p.geo.cols > 1 << 16 => 0,
                "C01" => 16,
                "C04" | "C10" => 0,
                "C02" => 8,
                _ => 6,
            };
            if lim > 0 {
                if let Err((c, d)) = o.sweep(lim) {
                    hit = Err((c, format!("reading back: {d}")));
                }
            } else if p.prop == "C10" {
                if let Err((c, d)) = o.sweep(4) {
                    hit = Err((c, format!("after rejected requests: {d}")));
                }
            }
        }
        let mut growth = f64::NEG_INFINITY;
        if hit.is_ok() && p.prop == "C11" {
            // the threshold is 2^(63 - log2 t); stay 4 bits away from it
            let limit = 63.0 - (p.tfhe.t as f64).log2() - 4.0;
            let k;
            (growth, k) = noise_growth(&o.noises);
            if o.worst_noise > limit {
                hit = v("noise", format!("after {} requests the noise of a response is 2^{:.1}; decoding fails at 2^{:.0}", p.body.ops.len(), o.worst_noise, limit + 4.0));
            } else if growth > GROWTH {
                hit = v("noise-growth", format!("the noise of response {k} of {} is 2^{:.1}, {growth:.1} bits more than independent contributions of the requests before it would give",
                    o.noises.len(), o.noises[k]));
            }
        }
        (hit, o.checked, o.worst_noise, o.refused, growth)
    });
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok((hit, checked, noise, refused, growth)) => {
            out.checks = checked;
            out.count("refused-requests", refused);
            if noise.is_finite() {
                out.gauge("noise-bits-below-threshold-min (negated)", noise - (63.0 - (p.tfhe.t as f64).log2()));
            }
            if noise.is_finite() {
                out.gauge("noise-bits-above-estimate", noise - crate::gen::noise_estimate(&p.tfhe, p.geo.cols));
            }
            if growth.is_finite() {
                out.gauge("noise-growth-bits", growth);
            }
            if let Err(x) = hit {
                out.violation = Some(x);
            }
        }
    }
    out.nontrivial = out.checks > 0 && p.body.ops.iter().any(|o| !matches!(o, Op::Db | Op::Restart(_)));
    out
}

/// Noise of independent contributions grows with the square root of their number.  How far, in
/// bits, the noise of any response is above that law, taken from the first sixteen responses.
fn noise_growth(n: &[f32]) -> (f64, usize) {
    const EARLY: usize = 16;
    if n.len() < 2 * EARLY {
        return (f64::NEG_INFINITY, 0);
    }
    let first = n[..EARLY].iter().fold(30f64, |a, b| a.max(*b as f64));
    let mut worst = (f64::NEG_INFINITY, 0);
    for (k, x) in n.iter().enumerate().skip(EARLY) {
        let g = *x as f64 - first - 0.5 * (k as f64 / EARLY as f64).log2();
        if g > worst.0 {
            worst = (g, k);
        }
    }
    worst
}
/// Allowance for responses that are maxima of different numbers of coefficients and requests.
const GROWTH: f64 = 3.0;

pub fn brief(op: &Op) -> String {
    match op {
        Op::One((w, i, _)) => format!("{} item {i}", if *w { "write" } else { "read" }),
        Op::Multi(a) => format!(
            "parallel queries [{}]",
            a.iter().map(|x| format!("{}{}", if x.0 { "w" } else { "r" }, x.1)).collect::<Vec<_>>().join(" ")
        ),
        Op::Batch(w, i, _) => format!("{} batch {i:?}", if *w { "write" } else { "read" }),
        Op::Db => "database check".into(),
        Op::Bad(b) => format!("malformed request {b:?}"),
        Op::Restart(_) => "client restart".into(),
    }
}

// ------------------------------------------------------------------------------------------------
// prepared requests: made once, then processed by several servers

pub enum Q {
    One(ClientQuery),
    Multi(Vec<ClientQuery>),
    Batch(Vec<ClientQuery>),
}
impl Clone for Q {
    fn clone(&self) -> Q {
        match self {
            Q::One(q) => Q::One(q.clone()),
            Q::Multi(q) => Q::Multi(q.clone()),
            Q::Batch(q) => Q::Batch(q.clone()),
        }
    }
}

pub struct Prep {
    pub db: Vec<Vec<RLWECiphertext>>,
    pub neg: RGSWCiphertext,
    pub hash: NaiveHash,
    pub lists: Vec<Vec<Q>>,
}

/// Keys, database and encrypted requests, made by a client without concurrency.
pub fn prepare(p: &Plan, lists: &[&[Op]], out: &mut Outcome, sweep: bool) -> Result<Prep, (String, String)> {
    let s = Sch::sequential();
    let r = sim(&s, false, world(p), || -> Result<Prep, V> {
        let hash = NaiveHash::new(p.geo.h, p.geo.items());
        let mut client = Client::new(p.geo.rows, p.geo.cols, p.tfhe.params());
        let neg = client.gen_neg_sk();
        let (_, db) = client.gen_dummy_database(&hash);
        let mut all = vec![];
        for l in lists {
            let mut qs = vec![];
            for op in l.iter() {
                let one = |client: &mut Client, a: &Acc| {
                    if a.0 {
                        let d = data_pt(p.tfhe.n, p.tfhe.t, a.2);
                        client.gen_write_query_one(a.1, &d, &hash)
                    } else {
                        client.gen_read_query_one(a.1, &hash)
                    }
                };
                match op {
                    Op::One(a) => qs.push(Q::One(one(&mut client, a))),
                    Op::Multi(v) => qs.push(Q::Multi(v.iter().map(|a| one(&mut client, a)).collect())),
                    Op::Batch(w, idx, d) => {
                        let idx: Vec<usize> = if Oram::placeable(&hash, &p.geo, idx) { idx.clone() } else { idx[..1].to_vec() };
                        let q = if *w {
                            client.gen_write_query_batch(&idx, &data_pt(p.tfhe.n, p.tfhe.t, *d), &hash)
                        } else {
                            client.gen_read_query_batch(&idx, &hash)
                        };
                        qs.push(Q::Batch(q));
                    }
                    _ => {}
                }
            }
            if sweep {
                for i in 0..p.geo.items().min(6) {
                    qs.push(if p.geo.rows == 1 && p.geo.h == 1 {
                        Q::One(client.gen_read_query_one(i, &hash))
                    } else {
                        Q::Batch(client.gen_read_query_batch(&[i], &hash))
                    });
                }
            }
            all.push(qs);
        }
        Ok(Prep { db, neg, hash, lists: all })
    });
    out.absorb(&r.rep);
    for (k, n) in &r.world.fired {
        out.count(&format!("fault.{k}"), *n);
    }
    match r.res {
        Ok(x) => x,
        Err(e) => Err(panic_violation(&e)),
    }
}

fn serve(srv: &mut Server, qs: &[Q], hash: &NaiveHash, site: Site, words: &mut Vec<Vec<u64>>) {
    for q in qs {
        let ys = match q.clone() {
            Q::One(q) => vec![at(site, || srv.process_one(q)).0],
            Q::Multi(q) => at(site, || srv.process_multi(q)).0,
            Q::Batch(q) => at(site, || srv.process_batch(q, hash)).0,
        };
        for y in &ys {
            words.push(ct_words(y));
        }
    }
}

// C05: the same requests under several schedules and pool sizes

fn schedules(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    if p.body.trees.is_some() {
        crate::treep::schedules(p, &mut out);
        return out;
    }
    let prep = match prepare(p, &[&p.body.ops], &mut out, true) {
        Ok(x) => x,
        Err(e) => {
            out.violation = Some(e);
            return out;
        }
    };
    let mut reference: Option<Vec<Vec<u64>>> = None;
    let all = std::iter::once((p.sch.clone(), p.site)).chain(p.body.alts.iter().cloned());
    for (k, (s, site)) in all.enumerate() {
        let r = sim(&s, false, world(p), || {
            let mut srv = Server::new(prep.db.clone(), prep.neg.clone(), p.tfhe.params());
            let mut words = vec![];
            serve(&mut srv, &prep.lists[0], &prep.hash, site, &mut words);
            words
        });
        finish(&mut out, &r);
        match r.res {
            Err(e) => {
                out.violation = Some(panic_violation(&e));
                out.count("failing-schedule", k as u64);
                return out;
            }
            Ok(w) => match &reference {
                None => reference = Some(w),
                Some(x) => {
                    out.checks += w.len() as u64;
                    if *x != w {
                        let k2 = x.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(0);
                        out.violation = Some((
                            "schedule-dependent".into(),
                            format!("response ciphertext {k2} of {} differs between 1 thread run in order and schedule {k} ({} threads, call site {site:?})",
                                x.len(), s.threads),
                        ));
                        return out;
                    }
                }
            },
        }
    }
    out.nontrivial = out.checks > 0 && out.switches > 2;
    out
}

// ------------------------------------------------------------------------------------------------
// C06 and C16: several systems at once

fn run_tenant(tf: &Tf, geo: Geo, ops: &[Op], site: Site, values: bool) -> Result<u64, V> {
    let mut o = Oram::new(tf, geo, site);
    for (k, op) in ops.iter().enumerate() {
        if let Err((c, d)) = o.apply(op) {
            if values {
                return Err((c, format!("request {k} ({}): {d}", brief(op))));
            }
        }
    }
    if values {
        o.sweep(3)?;
    }
    Ok(o.checked)
}

fn run_grove(tf: &Tf, t: &Trees, site: Site, values: bool) -> Result<u64, V> {
    match crate::treep::Grove::new(tf, t).check(site) {
        Err(e) if values => Err(e),
        _ => Ok(t.features.len() as u64),
    }
}

fn several(p: &Plan, list: &[(Tf, Geo, Vec<Op>, Site)], values: bool, out: &mut Outcome) {
    let groves = &p.body.groves;
    let r = sim(&p.sch, false, world(p), || {
        if list.len() == 1 && groves.is_empty() {
            let (t, g, o, s) = &list[0];
            return vec![run_tenant(t, *g, o, *s, values)];
        }
        panacea_simstd::thread::scope(|sc| {
            let mut hs: Vec<_> = list
                .iter()
                .map(|(t, g, o, s)| sc.spawn(move || run_tenant(t, *g, o, *s, values)))
                .collect();
            hs.extend(groves.iter().map(|(t, f, s)| sc.spawn(move || run_grove(t, f, *s, values))));
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(e) => std::panic::resume_unwind(e),
                })
                .collect()
        })
    });
    finish(out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok(v) => {
            for (k, x) in v.into_iter().enumerate() {
                match x {
                    Ok(n) => out.checks += n,
                    Err((c, d)) => {
                        if values {
                            out.violation = Some((c, format!("system {k} of {}: {d}", list.len() + groves.len())));
                            break;
                        }
                    }
                }
            }
        }
    }
}

fn progress(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let mut list = vec![(p.tfhe.clone(), p.geo, p.body.ops.clone(), p.site)];
    list.extend(p.body.tenants.iter().cloned());
    several(p, &list, false, &mut out);
    out.checks = list.iter().map(|x| x.2.len() as u64).sum();
    out.nontrivial = out.checks > 0;
    out
}

fn tenants(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    several(p, &p.body.tenants, true, &mut out);
    out.nontrivial = out.checks > 0 && p.body.tenants.len() + p.body.groves.len() > 1;
    out
}

// ------------------------------------------------------------------------------------------------
// C23: the same requests again and again

fn upkeep(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let rounds = p.body.rounds.max(4);
    let r = sim(&p.sch, false, world(p), || {
        // the pool, and what a thread allocates once, come first
        rayon::join(|| 0, || 0);
        sys::account_on();
        let mut seen = Vec::with_capacity(rounds);
        let (mut n, mut wrong) = (0, 0);
        let mut o = Oram::new(&p.tfhe, p.geo, p.site);
        o.noises = Vec::with_capacity(256);
        let groves: Vec<_> = p.body.groves.iter().map(|(t, f, s)| (crate::treep::Grove::new(t, f), *s)).collect();
        for _ in 0..rounds {
            let mut round = || {
                for op in &p.body.ops {
                    o.noises.clear();
                    // (whether answers are right is for other properties to say)
                    wrong += o.apply(op).is_err() as u64;
                    n += 1;
                }
                for (g, s) in &groves {
                    wrong += g.check(*s).is_err() as u64;
                    n += 1;
                }
                for (t, g, ops, site) in &p.body.tenants {
                    // systems that come and go
                    n += run_tenant(t, *g, ops, *site, false).unwrap_or(0);
                }
            };
            if p.body.fresh {
                panacea_simstd::thread::scope(|sc| sc.spawn(round).join()).unwrap();
            } else {
                round();
            }
            clear_panics();
            // threads that were just finishing something get to finish it
            panacea_simstd::thread::sleep(std::time::Duration::from_millis(20));
            seen.push(sys::account());
        }
        (seen, n, wrong)
    });
    sys::account_off();
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok((seen, n, wrong)) => {
            out.checks = n;
            out.count("wrong-answers (judged elsewhere)", wrong);
            let (a, b, c) = (seen[rounds / 4], seen[rounds / 2], seen[rounds - 1]);
            let up = |x: (usize, usize), y: (usize, usize)| y.0 as i64 - x.0 as i64;
            out.gauge("bytes-held-more-at-the-end-than-half-way", up(b, c) as f64);
            out.gauge("bytes-held-at-the-end", c.0 as f64);
            if up(b, c) > SLACK && up(a, b) > SLACK / 4 {
                out.violation = Some(("memory-accumulates".into(), format!(
                    "{} bytes in {} blocks are held after {rounds} rounds of the same requests, {} bytes in {} blocks were held after {} rounds, {} in {} after {}",
                    c.0, c.1, b.0, b.1, rounds / 2 + 1, a.0, a.1, rounds / 4 + 1)));
            }
        }
    }
    out.nontrivial = out.checks > 0;
    out
}
/// Bytes: less than the smallest ciphertext for each of the rounds between.
const SLACK: i64 = 2048;

// ------------------------------------------------------------------------------------------------
// C07: clients and server on a simulated network

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
enum Ev {
    Start(usize),
    Deliver(usize),
    Reply(usize),
    Timeout(usize, u32),
    Crash(usize, u64),
    Up(usize),
}

fn network(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let net = p.body.net.clone().unwrap();
    let r = sim(&p.sch, false, world(p), || {
        let mut o = Oram::new(&p.tfhe, p.geo, p.site);
        let mut r = Rng::new(net.seed);
        let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
        let mut add = |k: &str| *cnt.entry(k.to_string()).or_insert(0) += 1;
        let mut q: BinaryHeap<std::cmp::Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
        let mut seq = 0u64;
        let mut now;
        let fresh = |sk: &panacea::rlwe::RLWESecretKey| client(sk, p.geo.rows, p.geo.cols, &p.tfhe);
        let sk = o.client.sk.clone();
        let mut clients: Vec<Option<Client>> = (0..net.clients).map(|_| Some(fresh(&sk))).collect();
        struct Req {
            done: bool,
            refused: bool,
            tries: u32,
        }
        let mut reqs: Vec<Req> = net.reqs.iter().map(|_| Req { done: false, refused: false, tries: 0 }).collect();
        // messages in flight: (request, queries) and (request, [(item, response, expected value)])
        let mut msgs: Vec<(usize, Vec<ClientQuery>)> = vec![];
        let mut reps: Vec<(usize, Vec<(usize, RLWECiphertext, Pt)>)> = vec![];
        let mut last_delivered = 0usize;
        let mut checked = 0u64;
        macro_rules! push {
            ($t:expr, $e:expr) => {{
                seq += 1;
                q.push(std::cmp::Reverse(($t, seq, $e)));
            }};
        }
        for (k, x) in net.reqs.iter().enumerate() {
            push!(x.1, Ev::Start(k));
        }
        for c in &net.crashes {
            push!(c.1, Ev::Crash(c.0, c.2));
        }
        let bound = net.calm_at + 40 * (net.timeout + 2 * net.delay_max) + 2_000_000;
        while let Some(std::cmp::Reverse((t, _, ev))) = q.pop() {
            now = t;
            if now > bound {
                break;
            }
            sched::mark(seq as u32);
            sched::advance_ns(1000);
            // one copy of a message towards or from a client: lost, or the delays of its copies
            let copies = |c: usize, r: &mut Rng, add: &mut dyn FnMut(&str)| -> Vec<u64> {
                if now >= net.calm_at {
                    return vec![1 + r.n(net.delay_max.min(5_000) as usize) as u64];
                }
                if net.partitions.iter().any(|x| x.0 == c && now >= x.1 && now < x.2) {
                    add("fault.net-partitioned-message");
                    return vec![];
                }
                if r.pct(net.drop) {
                    add("fault.net-lost-message");
                    return vec![];
                }
                let mut v = vec![1 + r.n(net.delay_max as usize) as u64];
                if r.pct(net.dup) {
                    add("fault.net-duplicated-message");
                    v.push(1 + r.n(2 * net.delay_max as usize) as u64);
                }
                v
            };
            match ev {
                Ev::Start(k) | Ev::Timeout(k, _) => {
                    if let Ev::Timeout(_, n) = ev {
                        if n != reqs[k].tries {
                            continue;
                        }
                    }
                    if reqs[k].done || reqs[k].refused {
                        continue;
                    }
                    let c = net.reqs[k].0;
                    if clients[c].is_none() {
                        // the client is down; it will take its outstanding requests up again
                        continue;
                    }
                    if reqs[k].tries > 0 {
                        add("client-retries");
                    }
                    reqs[k].tries += 1;
                    let mut cl = clients[c].take().unwrap();
                    std::mem::swap(&mut o.client, &mut cl);
                    let qs = match &net.reqs[k].2 {
                        Op::One(a) => Ok(Some(vec![o.query(*a)])),
                        Op::Multi(v) => Ok(Some(v.iter().map(|a| o.query(*a)).collect())),
                        Op::Batch(w, idx, d) => o.batch_queries(*w, idx, *d),
                        _ => Ok(None),
                    };
                    std::mem::swap(&mut o.client, &mut cl);
                    clients[c] = Some(cl);
                    let Some(qs) = qs? else {
                        reqs[k].refused = true;
                        continue;
                    };
                    for d in copies(c, &mut r, &mut add) {
                        msgs.push((k, qs.clone()));
                        push!(now + d, Ev::Deliver(msgs.len() - 1));
                    }
                    let n = reqs[k].tries;
                    push!(now + net.timeout, Ev::Timeout(k, n));
                }
                Ev::Deliver(m) => {
                    let (k, qs) = (msgs[m].0, std::mem::take(&mut msgs[m].1));
                    if m < last_delivered {
                        add("fault.net-reordered-message");
                    }
                    last_delivered = last_delivered.max(m);
                    let (c, _, op) = &net.reqs[k];
                    let site = o.site;
                    let srv = &mut o.server;
                    let mut got: Vec<(usize, RLWECiphertext)> = vec![];
                    match op {
                        Op::One(a) => {
                            let q1 = qs.into_iter().next().unwrap();
                            let y = at(site, || srv.process_one(q1)).0;
                            got.push((a.1, y));
                        }
                        Op::Multi(v) => {
                            let ys = at(site, || srv.process_multi(qs)).0;
                            got.extend(v.iter().map(|a| a.1).zip(ys));
                        }
                        Op::Batch(_, idx, _) => {
                            let hash = &o.hash;
                            let ys = at(site, || srv.process_batch(qs, hash)).0;
                            for (rr, _, i) in o.mapping(idx) {
                                got.push((i, ys[rr].clone()));
                            }
                        }
                        _ => {}
                    }
                    let got: Vec<_> = got.into_iter().map(|(i, y)| (i, y, o.model[i].clone())).collect();
                    add("requests-processed");
                    match op {
                        Op::One(a) => {
                            if a.0 {
                                o.model[a.1] = o.pt(a.2);
                            }
                        }
                        Op::Multi(v) => {
                            for a in v {
                                if a.0 {
                                    o.model[a.1] = o.pt(a.2);
                                }
                            }
                        }
                        Op::Batch(true, idx, d) => {
                            for &i in idx {
                                o.model[i] = o.pt(*d);
                            }
                        }
                        _ => {}
                    }
                    for d in copies(*c, &mut r, &mut add) {
                        reps.push((k, got.clone()));
                        push!(now + d, Ev::Reply(reps.len() - 1));
                    }
                }
                Ev::Reply(m) => {
                    let k = reps[m].0;
                    let c = net.reqs[k].0;
                    let Some(cl) = &clients[c] else {
                        add("fault.net-reply-to-crashed-client");
                        continue;
                    };
                    for (i, y, want) in &reps[m].1 {
                        let mut pt = cl.ctx.gen_zero_pt();
                        cl.sk.decrypt_decode_rlwe(&mut pt, y, &cl.ctx);
                        checked += 1;
                        if pt != *want {
                            return v("wrong-value", format!("client {c}, {}: the response for item {i} is not the value the item had when the server processed it", brief(&net.reqs[k].2)));
                        }
                    }
                    reqs[k].done = true;
                }
                Ev::Crash(c, down) => {
                    if clients[c].take().is_some() {
                        add("fault.client-crash");
                        push!(now + down, Ev::Up(c));
                    }
                }
                Ev::Up(c) => {
                    sys::reseed(r.u64());
                    clients[c] = Some(fresh(&sk));
                    add("fault.client-restart");
                    for k in 0..reqs.len() {
                        if net.reqs[k].0 == c && net.reqs[k].1 <= now && !reqs[k].done {
                            reqs[k].tries += 1;
                            push!(now, Ev::Start(k));
                        }
                    }
                }
            }
        }
        if let Some(k) = reqs.iter().position(|x| !x.done && !x.refused) {
            return v("no-progress", format!("request {k} ({}) is still unanswered after the network calmed down", brief(&net.reqs[k].2)));
        }
        o.check_db()?;
        o.sweep(6)?;
        Ok((checked + o.checked, cnt))
    });
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok(Err(x)) => out.violation = Some(x),
        Ok(Ok((n, cnt))) => {
            out.checks = n;
            for (k, x) in cnt {
                out.count(&k, x);
            }
        }
    }
    out.nontrivial = out.counts.keys().any(|k| k.starts_with("fault.net") || k.starts_with("fault.client"));
    out
}

// ------------------------------------------------------------------------------------------------
// C08: nothing but the encrypted contents may depend on what is accessed

fn oblivious(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    if p.body.trees.is_some() {
        crate::treep::oblivious(p, &mut out);
        return out;
    }
    let prep = match prepare(p, &[&p.body.ops, &p.body.other], &mut out, false) {
        Ok(x) => x,
        Err(e) => {
            out.violation = Some(e);
            return out;
        }
    };
    watch_both(p, &mut out, |k, regions| {
        // queries are given to the server as they are: no copying inside the observed section
        let list = sched::quiet(|| prep.lists[k].clone());
        let mut srv = Server::new(prep.db.clone(), prep.neg.clone(), p.tfhe.params());
        watch_on();
        let mut n = 0;
        for q in list {
            let ys = regions.of(|| match q {
                Q::One(q) => vec![at(p.site, || srv.process_one(q)).0],
                Q::Multi(q) => at(p.site, || srv.process_multi(q)).0,
                Q::Batch(q) => at(p.site, || srv.process_batch(q, &prep.hash)).0,
            });
            n += ys.len();
        }
        n
    });
    out.nontrivial = p.body.ops != p.body.other;
    out
}

/// How often each part of the library's code ran, per request.
#[derive(Default)]
pub struct Regions(Vec<Vec<u64>>);
impl Regions {
    pub fn of<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let before = sched::quiet(sys::regions);
        let r = f();
        let now = sched::quiet(sys::regions);
        let d = sched::quiet(|| now.iter().zip(&before).map(|(a, b)| a.wrapping_sub(*b)).collect());
        self.0.push(d);
        r
    }
}

/// From here on the memory requests are recorded.
pub fn watch_on() {
    // bring the thread pool up before watching
    rayon::join(|| 0, || 0);
    sys::trace_on();
}

/// Run the server's side of two request lists under the same schedule and compare what can be observed.
pub fn watch_both(p: &Plan, out: &mut Outcome, serve: impl Fn(usize, &mut Regions) -> usize + Sync) {
    type Seen = (Vec<u64>, Vec<u64>, usize, Vec<Vec<u64>>);
    let mut seen: Option<Seen> = None;
    for k in 0..2 {
        let r = sim(&p.sch, true, world(p), || {
            let mut regions = Regions(Vec::with_capacity(64));
            let n = serve(k, &mut regions);
            (n, sys::trace_off(), regions.0)
        });
        sys::TRACING.store(false, std::sync::atomic::Ordering::SeqCst);
        finish(out, &r);
        let ev: Vec<u64> = r.rep.events.clone();
        match r.res {
            Err(e) => {
                out.violation = Some(panic_violation(&e));
                return;
            }
            Ok((n, al, rg)) => match &seen {
                None => seen = Some((ev, al, n, rg)),
                Some((ev0, al0, n0, rg0)) => {
                    out.checks = (ev.len() + al.len()) as u64;
                    out.count("trace.scheduling-events-compared", ev.len() as u64);
                    out.count("trace.allocations-compared", al.len() as u64);
                    out.count("trace.code-regions-compared", rg.iter().map(|r| r.iter().filter(|x| **x > 0).count() as u64).sum());
                    if *ev0 != ev {
                        let i = ev0.iter().zip(&ev).position(|(a, b)| a != b).unwrap_or(ev0.len().min(ev.len()));
                        out.violation = Some(("trace-differs".into(), format!(
                            "under one schedule, the server's synchronisation trace differs between two request lists of the same shape: event {i} of {}/{} ({} vs {})",
                            ev0.len(), ev.len(), ev_name(ev0.get(i)), ev_name(ev.get(i)))));
                    } else if *al0 != al {
                        let i = al0.iter().zip(&al).position(|(a, b)| a != b).unwrap_or(al0.len().min(al.len()));
                        out.violation = Some(("memory-differs".into(), format!(
                            "under one schedule, the server's memory requests differ between two request lists of the same shape: allocation {i} of {}/{} ({:?} vs {:?} bytes)",
                            al0.len(), al.len(), al0.get(i).map(|x| x & 0xffff_ffff_ffff), al.get(i).map(|x| x & 0xffff_ffff_ffff))));
                    } else if *rg0 != rg {
                        let (k, i) = (0..rg.len())
                            .find_map(|k| rg0[k].iter().zip(&rg[k]).position(|(a, b)| a != b).map(|i| (k, i)))
                            .unwrap_or((0, 0));
                        out.violation = Some(("control-flow-differs".into(), format!(
                            "under one schedule, the paths the server's code takes differ between two requests of the same shape: request {k}, code region {i} is executed {} times for one and {} times for the other",
                            rg0[k][i], rg[k][i])));
                    } else if *n0 != n {
                        out.violation = Some(("response-count".into(), "the number of responses depends on what is accessed".into()));
                    }
                }
            },
        }
    }
}

fn ev_name(e: Option<&u64>) -> String {
    match e {
        None => "end".into(),
        Some(e) => format!("thread {} {} #{}", e >> 40, sched::kind::name((e >> 32) as u8), *e as u32),
    }
}

