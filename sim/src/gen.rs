//! Plans from seeds.
use crate::plan::*;
use crate::rng::Rng;
use crate::sys::{ClockPlan, IoFault, IoKind};

pub fn tf(n: usize, bl: usize, l: usize, nbl: usize, nl: usize, t: u64, secure: bool) -> Tf {
    Tf { std: -55.0, n, bl, l, kbl: 5, kl: 11, nbl, nl, t, secure }
}

pub fn standard_sets() -> Vec<Tf> {
    [(16, 8, 4, 8, 4, 2), (32, 8, 4, 8, 4, 2), (64, 5, 9, 5, 11, 2), (64, 10, 4, 10, 5, 2), (64, 4, 12, 4, 12, 256), (64, 5, 9, 5, 11, 256),
        (32, 5, 9, 5, 11, 4), (64, 14, 3, 10, 5, 2), (16, 8, 4, 8, 4, 16), (128, 5, 9, 5, 11, 16), (16, 7, 6, 9, 5, 2), (32, 14, 3, 14, 3, 2),
        (512, 5, 9, 5, 11, 256), (2048, 5, 9, 5, 11, 256), (16, 20, 1, 8, 4, 2), (16, 8, 4, 20, 1, 2), (32, 12, 2, 8, 4, 2)]
        .iter()
        .map(|x| tf(x.0, x.1, x.2, x.3, x.4, x.5, true))
        .collect()
}

/// Parameter sets with ample noise margin.
pub fn gen_tf(r: &mut Rng) -> Tf {
    let secure = r.pct(70);
    if r.pct(35) {
        let n = *r.pick(&[16, 16, 32, 32, 64, 64, 128]);
        return random_tf(r, n, 16);
    }
    let mut x = match r.n(24) {
        0..=5 => tf(16, 8, 4, 8, 4, 2, secure),
        6..=9 => tf(32, 8, 4, 8, 4, 2, secure),
        10..=12 => tf(64, 5, 9, 5, 11, 2, secure),
        13 | 14 => tf(64, 10, 4, 10, 5, 2, secure),
        15 => tf(64, 4, 12, 4, 12, 256, secure),
        16 => tf(64, 5, 9, 5, 11, 256, secure),
        17 => tf(32, 5, 9, 5, 11, 4, secure),
        18 => tf(64, 14, 3, 10, 5, 2, secure),
        19 => tf(16, 8, 4, 8, 4, 16, secure),
        20 => tf(128, 5, 9, 5, 11, 16, secure),
        21 => tf(16, 7, 6, 9, 5, 2, secure),
        22 => tf(32, 14, 3, 14, 3, 2, secure),
        _ => tf(*r.pick(&[256, 512]), 5, 9, 5, 11, *r.pick(&[2, 256]), secure),
    };
    if r.one_in(8) {
        x.kbl = r.r(3, 8);
        x.kl = r.r(3, 6);
    }
    if r.one_in(6) {
        x.std = *r.pick(&[-58.0, -52.0, -60.0]);
    }
    x
}

/// Estimated log2 of the noise of a response (largest coefficient) after some history, from the
/// textbook formulas for gadget products: used only to choose parameter sets with room to spare.
pub fn noise_estimate(t: &Tf, cols: usize) -> f64 {
    let n = t.n as f64;
    let sigma = 2f64.powf(64.0 + t.std);
    let gadget = |bl: usize, l: usize, s: f64| (2.0 * n * l as f64).sqrt() * 2f64.powi(bl as i32) / 3.46 * s;
    let round = |bl: usize, l: usize| 2f64.powi(64 - ((bl * l).min(64)) as i32) / 3.46 * (1.0 + n / 2.0).sqrt();
    let fft = |bl: usize, l: usize| 2f64.powi(12 + bl as i32) * (n * l as f64).sqrt();
    let hyp = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let depth = (cols.max(2) as f64).log2().ceil();
    let demux = (2.0 * depth).sqrt() * hyp(&[gadget(t.bl, t.l, sigma), round(t.bl, t.l), fft(t.bl, t.l)]);
    let sel = hyp(&[(n / 2.0).sqrt() * demux, gadget(t.nbl, t.nl, sigma), round(t.nbl, t.nl), fft(t.nbl, t.nl)]);
    let resp = (cols as f64).sqrt() * hyp(&[gadget(t.bl, t.l, hyp(&[sel, demux])), round(t.bl, t.l), fft(t.bl, t.l)]);
    (resp * 4.0 * 8.0).log2()
}

pub fn noise_room(t: &Tf, cols: usize) -> f64 {
    63.0 - (t.t as f64).log2() - noise_estimate(t, cols)
}

/// Any parameter set with enough room for `cols` columns.
pub fn random_tf(r: &mut Rng, n: usize, cols: usize) -> Tf {
    loop {
        let bl = r.r(2, 16);
        let l = r.r(1, (44 / bl).max(1).min(16));
        let nbl = if r.one_in(3) { bl } else { r.r(2, 20) };
        let nl = if nbl == bl && r.pct(50) { l } else { r.r(1, (48 / nbl).max(1).min(16)) };
        let t = 1u64 << *r.pick(&[1, 1, 1, 2, 3, 4, 5, 8, 10]);
        let mut x = tf(n, bl, l, nbl, nl, t, r.pct(70));
        if r.one_in(4) {
            x.std = -(r.r(50, 62) as f64);
        }
        if noise_room(&x, cols) >= 8.0 {
            return x;
        }
    }
}

pub fn gen_data(r: &mut Rng) -> u64 {
    // now and then one of a few values, so that items come to hold the same one
    if r.one_in(8) {
        return 1000 + r.n(4) as u64;
    }
    r.u64() >> 16
}

fn pow2(r: &mut Rng, a: usize, b: usize) -> usize {
    1 << r.r(a, b)
}

/// One row, one hash: single and multi-query databases.
pub fn gen_geo1(r: &mut Rng) -> Geo {
    let cols = match r.n(20) {
        0..=14 => pow2(r, 1, 3),
        15..=17 => pow2(r, 4, 5),
        _ => pow2(r, 6, 7),
    };
    Geo { rows: 1, cols, h: 1 }
}

/// Batch databases: rows, columns and hashes with rows*cols divisible by h.
pub fn gen_geo_batch(r: &mut Rng) -> Geo {
    loop {
        let h = *r.pick(&[1, 2, 2, 3, 3, 3, 4, 5, 6]);
        let rows = match r.n(30) {
            0..=2 => 1,
            3..=5 => 2,
            6..=17 => r.r(3, 6),
            18..=28 => r.r(4, 12),
            _ => r.r(13, 40),
        };
        let cols = match (rows, r.n(20)) {
            (13.., _) => 2,
            (..=3, 0) => pow2(r, 4, 6),
            (7.., _) => pow2(r, 1, 2),
            _ => pow2(r, 1, 3),
        };
        if (rows * cols) % h == 0 && rows * cols / h >= 1 {
            return Geo { rows, cols, h };
        }
    }
}

/// Many rows, or many items.
pub fn gen_geo_large(r: &mut Rng) -> Geo {
    loop {
        let h = *r.pick(&[1, 2, 3, 3, 4, 4]);
        let (rows, cols) = if r.pct(50) { (r.r(41, 150), 2) } else { (r.r(2, 8), pow2(r, 5, 7)) };
        if (rows * cols) % h == 0 && rows * cols <= 600 {
            return Geo { rows, cols, h };
        }
    }
}

pub fn distinct(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v.truncate(k.min(n));
    v
}

/// biased to the ends of the range
pub fn gen_idx(r: &mut Rng, n: usize) -> usize {
    match r.n(6) {
        0 => 0,
        1 => n - 1,
        _ => r.n(n),
    }
}

pub fn gen_one(r: &mut Rng, g: &Geo, hot: &[usize]) -> Op {
    let i = if r.pct(60) { *r.pick(hot) } else { gen_idx(r, g.items()) };
    Op::One((r.pct(50), i, gen_data(r)))
}

pub fn gen_multi(r: &mut Rng, g: &Geo) -> Op {
    let n = g.items();
    let k = match r.n(6) {
        0 => 1,
        1 => n.min(8),
        _ => r.r(1, n.min(5)),
    };
    let wp = *r.pick(&[0, 30, 60, 100]);
    let mut accs: Vec<Acc> = distinct(r, n, k).into_iter().map(|i| (r.pct(wp), i, gen_data(r))).collect();
    if r.one_in(3) {
        // some items named again, by reads
        for _ in 0..r.r(1, 3) {
            let i = r.pick(&accs).1;
            let at = r.n(accs.len() + 1);
            accs.insert(at, (false, i, 0));
        }
    }
    Op::Multi(accs)
}

/// Many queries in one call.
pub fn long_multi(r: &mut Rng, cols: usize, k: usize) -> Op {
    let wp = *r.pick(&[0, 50, 100]);
    let mut accs: Vec<Acc> = distinct(r, cols, k).into_iter().map(|i| (r.pct(wp), i, gen_data(r))).collect();
    if r.pct(50) {
        // many items named again
        for _ in 0..r.r(1, 20) {
            let i = r.pick(&accs).1;
            let at = r.n(accs.len() + 1);
            accs.insert(at, (false, i, 0));
        }
    }
    if r.one_in(6) {
        // one item named by most of the queries
        let i = r.pick(&accs).1;
        for _ in 0..r.r(20, 90) {
            let at = r.n(accs.len() + 1);
            accs.insert(at, (false, i, 0));
        }
    }
    Op::Multi(accs)
}

/// At most one write to any item.
pub fn one_writer(v: &mut [Acc]) {
    let mut seen = std::collections::BTreeSet::new();
    for a in v.iter_mut() {
        if a.0 && !seen.insert(a.1) {
            a.0 = false;
        }
    }
}

/// Several writes of one item in a parallel call.
pub fn rivals(r: &mut Rng, o: &mut Op) {
    if let Op::Multi(v) = o {
        for _ in 0..r.r(1, 4) {
            let (i, at) = (r.pick(v).1, r.n(v.len() + 1));
            v.insert(at, (true, i, gen_data(r)));
        }
    }
}

pub fn gen_batch(r: &mut Rng, g: &Geo) -> Op {
    let n = g.items();
    let k = match r.n(8) {
        0 => 0,
        1 | 2 => 1,
        3 => g.rows.min(n),
        _ => r.r(1, g.rows.min(n).max(1)),
    };
    Op::Batch(r.pct(55), distinct(r, n, k), gen_data(r))
}

pub fn base(prop: &str, seed: u64, index: u64, r: &mut Rng) -> Plan {
    let tfhe = gen_tf(r);
    Plan {
        prop: prop.into(),
        seed,
        index,
        entropy: r.u64(),
        clock: ClockPlan { base: 1_600_000_000_000_000_000 + (r.u64() >> 6), frozen: false, mono_frozen: false, jumps: vec![], set: vec![] },
        faults: vec![],
        tfhe,
        geo: Geo { rows: 1, cols: 4, h: 1 },
        sch: Sch::gen(r),
        site: Site::gen(r),
        body: Body::default(),
    }
}

/// Clock disturbances and interrupted or partial entropy reads: none of them may matter.
pub fn gen_env(r: &mut Rng, p: &mut Plan) {
    if r.one_in(4) {
        for _ in 0..r.r(1, 3) {
            p.clock.jumps.push((r.r(1, 60) as u64, (r.u64() >> 20) | 1));
        }
    }
    if r.one_in(6) {
        // the wall clock is set, forwards or backwards
        for _ in 0..r.r(1, 4) {
            let d = (r.u64() >> r.r(7, 40)) as i64;
            p.clock.set.push((r.r(1, 40) as u64, if r.pct(70) { -d } else { d }));
        }
    }
    if r.one_in(10) {
        p.clock.mono_frozen = true;
    }
    if r.one_in(6) {
        for _ in 0..r.r(1, 2) {
            let t = *r.pick(&["getrandom", "devrandom"]);
            let kind = match r.n(3) {
                0 => IoKind::Err(libc::EINTR),
                1 => IoKind::Short(r.r(1, 9)),
                _ => IoKind::ShortAll(r.r(1, 9)),
            };
            p.faults.push(IoFault { target: t.into(), call: "io".into(), at: r.n(6) as u64, kind });
        }
    }
}

fn big(r: &mut Rng, p: &mut Plan) {
    // now and then the shipped default parameters, or a wide row
    if r.one_in(50) {
        p.tfhe = tf(2048, 5, 9, 5, 11, 256, true);
        if p.geo.rows == 1 {
            p.geo.cols = pow2(r, 1, 2);
        } else {
            p.geo = Geo { rows: 3, cols: 2, h: *r.pick(&[1, 2, 3]) };
        }
    } else if p.geo.cols > 32 && p.tfhe.n > 32 {
        p.tfhe = tf(16, 8, 4, 8, 4, 2, p.tfhe.secure);
    } else if p.tfhe.n > 128 && p.geo.rows * p.geo.cols > 16 {
        p.tfhe.n = 64;
    }
}

/// Wide rows need more room for noise.
fn fit(t: &mut Tf, cols: usize) {
    if noise_room(t, cols) < 4.0 {
        *t = tf(16, 7, 6, 9, 5, 2, t.secure);
    }
}

/// More cells than 16 bits can count.
fn huge(r: &mut Rng, p: &mut Plan, g: Geo) {
    p.tfhe = tf(16, 10, 4, 10, 5, 2, true);
    p.geo = g;
    p.sch.threads = r.r(1, 4);
    p.sch.stalls = vec![];
    p.sch.spurious = 0;
    p.sch.max_steps = 400_000_000;
}

fn op_budget(p: &Plan, want: usize) -> usize {
    let cost = p.geo.rows * p.geo.cols * p.tfhe.n * p.tfhe.l;
    let cap = (6_000_000 / cost.max(1)).clamp(2, 60);
    want.min(cap)
}

/// Now and then a decision-tree service works at the same time.
fn gen_grove(r: &mut Rng, p: &mut Plan, one_in: usize) {
    if r.one_in(one_in) {
        let others = if r.pct(40) { r.r(1, 2) } else { 0 };
        for _ in 0..1 + others {
            let k = r.r(1, 4);
            let (t, f) = crate::treep::gen_small(r, k);
            let s = Site::gen(r);
            p.body.groves.push((t, f, s));
        }
    }
}

pub fn plan(prop: &str, seed: u64, index: u64) -> Plan {
    let mut rr = Rng::of(seed, prop, index);
    let r = &mut rr;
    let mut p = base(prop, seed, index, r);
    match prop {
        "C01" => {
            p.geo = gen_geo1(r);
            if r.one_in(30) {
                p.geo.cols = *r.pick(&[256, 256, 512, 512, 1024, 2048]);
            }
            big(r, &mut p);
            if index % 1000 == 7 {
                huge(r, &mut p, Geo { rows: 1, cols: 1 << 17, h: 1 });
                let i = r.r(65_536, (1 << 17) - 1);
                p.body.ops = vec![Op::One((true, i, gen_data(r))), Op::One((false, i, 0)), Op::Db];
                return p;
            }
            gen_env(r, &mut p);
            let want = if r.one_in(10) { 40 } else { r.r(2, 12) };
            let mut k = op_budget(&p, want);
            if r.one_in(40) {
                // a long life
                k = r.r(100, 500);
                p.geo.cols = pow2(r, 1, 3);
                let n = *r.pick(&[16, 16, 32]);
                p.tfhe = random_tf(r, n, 16);
                p.tfhe.l = p.tfhe.l.min(8);
                p.sch.threads = p.sch.threads.min(3);
            }
            let hot = distinct(r, p.geo.items(), 2);
            for _ in 0..k {
                if r.one_in(15) {
                    p.body.ops.push(Op::Restart(r.u64()));
                }
                let o = gen_one(r, &p.geo, &hot);
                p.body.ops.push(o);
            }
            p.body.ops.push(Op::Db);
        }
        "C02" => {
            p.geo = gen_geo1(r);
            big(r, &mut p);
            gen_env(r, &mut p);
            if r.one_in(15) {
                // a long list of queries
                p.geo.cols = *r.pick(&[16, 32, 64]);
                p.tfhe = random_tf(r, 16, 64);
                p.tfhe.l = p.tfhe.l.min(8);
                let k = r.r(9, p.geo.cols.min(40));
                let mut o = long_multi(r, p.geo.cols, k);
                if r.one_in(8) {
                    // more queries than a byte can count
                    p.geo.cols = *r.pick(&[2, 4, 8]);
                    p.tfhe = tf(16, 7, 6, 9, 5, 2, p.tfhe.secure);
                    let g = p.geo;
                    let k = r.r(257, 400);
                    let mut v: Vec<Acc> = (0..k).map(|_| (r.pct(10), r.n(g.cols), gen_data(r))).collect();
                    o = Op::Multi(v);
                }
                p.body.ops.push(o);
            }
            let want = r.r(1, 6);
            let k = op_budget(&p, want).max(1);
            for _ in 0..k {
                let mut o = gen_multi(r, &p.geo);
                if r.one_in(3) {
                    rivals(r, &mut o);
                }
                p.body.ops.push(o);
                if r.one_in(5) {
                    let hot = [0];
                    let o = gen_one(r, &p.geo, &hot);
                    p.body.ops.push(o);
                }
            }
            p.body.ops.push(Op::Db);
        }
        "C03" | "C04" => {
            p.geo = gen_geo_batch(r);
            big(r, &mut p);
            gen_env(r, &mut p);
            if r.one_in(16) {
                p.geo = gen_geo_large(r);
                p.tfhe = random_tf(r, 16, p.geo.cols);
                p.tfhe.l = p.tfhe.l.min(8);
                p.sch.threads = p.sch.threads.min(4);
            }
            if index % if prop == "C03" { 2000 } else { 10_000 } == 13 {
                let rows = *r.pick(&[72, 96, 288]);
                huge(r, &mut p, Geo { rows, cols: 1 << (17 - (rows as f64).log2() as usize), h: 3 });
                let n = p.geo.items();
                let k = r.r(1, 12);
                let v = distinct(r, n, k);
                p.body.ops = vec![Op::Batch(true, v.clone(), gen_data(r)), Op::Batch(false, v, 0), Op::Db];
                return p;
            }
            let want = r.r(1, 5);
            let k = op_budget(&p, want).max(1);
            for _ in 0..k {
                let mut o = gen_batch(r, &p.geo);
                if prop == "C04" {
                    if let Op::Batch(w, _, _) = &mut o {
                        *w = *w || r.pct(50);
                    }
                    p.tfhe.t = 2;
                    p.tfhe.n = p.tfhe.n.min(64);
                }
                p.body.ops.push(o);
                if prop == "C04" || r.one_in(3) {
                    p.body.ops.push(Op::Db);
                }
            }
            p.body.ops.push(Op::Db);
        }
        "C05" => {
            let trees = r.one_in(6);
            if trees {
                let k = r.r(1, 8);
                let (t, f) = crate::treep::gen_small(r, k);
                p.tfhe = t;
                p.body.trees = Some(f);
            }
            let batch = r.pct(45);
            p.geo = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
            if !trees {
                big(r, &mut p);
            }
            let large = !trees && r.one_in(25);
            if large {
                p.tfhe = random_tf(r, 16, 64);
                p.tfhe.l = p.tfhe.l.min(6);
                p.geo = if batch { gen_geo_large(r) } else { Geo { rows: 1, cols: *r.pick(&[32, 64]), h: 1 } };
                if !batch {
                    let k = r.r(9, 32);
                    let o = long_multi(r, p.geo.cols, k);
                    p.body.ops.push(o);
                }
            }
            p.sch = Sch::sequential();
            p.site = Site::Outside;
            let want = r.r(1, 3);
            let k = op_budget(&p, want).max(1);
            for _ in 0..k {
                let o = if batch {
                    gen_batch(r, &p.geo)
                } else if r.pct(50) {
                    gen_multi(r, &p.geo)
                } else {
                    gen_one(r, &p.geo, &[0])
                };
                let mut o = o;
                if r.one_in(4) {
                    rivals(r, &mut o);
                }
                p.body.ops.push(o);
            }
            for _ in 0..r.r(2, 4) {
                p.body.alts.push((Sch::gen(r), Site::gen(r)));
            }
        }
        "C06" => {
            p.tfhe = match r.n(6) {
                0 => tf(16, 20, 1, 8, 4, 2, true),
                1 => tf(16, 8, 4, 20, 1, 2, true),
                2 => tf(32, 12, 2, 8, 4, 2, false),
                3 => gen_tf(r),
                _ => tf(16, 8, r.r(1, 5), 8, r.r(1, 4), 2, r.pct(50)),
            };
            let mk = |r: &mut Rng, p: &Plan| -> (Geo, Vec<Op>) {
                let batch = r.pct(50);
                let g = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
                let k = r.r(1, 3).min(op_budget(p, 3));
                let ops = (0..k)
                    .map(|_| {
                        let mut o = if batch { gen_batch(r, &g) } else if r.pct(50) { gen_multi(r, &g) } else { gen_one(r, &g, &[0]) };
                        if r.one_in(4) {
                            rivals(r, &mut o);
                        }
                        o
                    })
                    .collect();
                (g, ops)
            };
            let (g, ops) = mk(r, &p);
            p.geo = g;
            if p.geo.cols > 16 {
                p.tfhe.n = 16;
            }
            p.body.ops = ops;
            gen_env(r, &mut p);
            if r.one_in(20) {
                // a long list of queries, or a large database
                p.tfhe = tf(16, 8, 4, 8, 4, 2, true);
                if r.pct(50) {
                    p.geo = Geo { rows: 1, cols: 64, h: 1 };
                    let k = r.r(9, 40);
                    p.body.ops = vec![long_multi(r, 64, k)];
                } else {
                    p.geo = gen_geo_large(r);
                    let g = p.geo;
                    p.body.ops = vec![gen_batch(r, &g)];
                }
            }
            if r.pct(40) {
                let others = if r.one_in(6) { r.r(4, 8) } else { r.r(1, 3) };
                for _ in 0..others {
                    let (g, ops) = mk(r, &p);
                    let mut t = p.tfhe.clone();
                    if r.one_in(3) {
                        t.n = *r.pick(&[16, 32, 64]);
                    }
                    if g.cols > 16 {
                        t.n = 16;
                    }
                    let s = Site::gen(r);
                    p.body.tenants.push((t, g, ops, s));
                }
            }
            gen_grove(r, &mut p, 6);
        }
        "C07" => {
            let batch = r.pct(35);
            p.geo = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
            if p.geo.cols > 16 {
                p.geo.cols = 8;
            }
            p.tfhe.n = p.tfhe.n.min(64);
            gen_env(r, &mut p);
            let clients = if r.one_in(15) { r.r(5, 12) } else { r.r(1, 4) };
            let mut k = op_budget(&p, r.clone().r(3, 16)).max(2);
            if r.one_in(12) {
                k = r.r(30, 90);
                p.tfhe = tf(16, 8, 4, 8, 4, *r.pick(&[2, 16]), p.tfhe.secure);
                p.sch.threads = p.sch.threads.min(3);
                if !batch {
                    p.geo.cols = p.geo.cols.min(8);
                }
            }
            let span = 2_000_000u64;
            let mut reqs = vec![];
            let hot = distinct(r, p.geo.items(), 2);
            for _ in 0..k {
                let o = if batch {
                    gen_batch(r, &p.geo)
                } else if r.one_in(5) {
                    gen_multi(r, &p.geo)
                } else {
                    gen_one(r, &p.geo, &hot)
                };
                reqs.push((r.n(clients), r.n(span as usize) as u64, o));
            }
            let faulty = r.pct(85);
            let (mut crashes, mut partitions) = (vec![], vec![]);
            if faulty && r.pct(60) {
                for _ in 0..r.r(1, 3) {
                    crashes.push((r.n(clients), r.n(span as usize) as u64, r.r(1_000, 900_000) as u64));
                }
            }
            if faulty && r.pct(40) {
                for _ in 0..r.r(1, 2) {
                    let a = r.n(span as usize) as u64;
                    partitions.push((r.n(clients), a, a + r.r(10_000, 1_500_000) as u64));
                }
            }
            p.body.net = Some(Net {
                clients,
                reqs,
                seed: r.u64(),
                drop: if faulty { *r.pick(&[0, 5, 15, 35]) } else { 0 },
                dup: if faulty { *r.pick(&[0, 5, 20, 40]) } else { 0 },
                delay_max: *r.pick(&[1_000, 50_000, 600_000]),
                timeout: *r.pick(&[100_000, 400_000]),
                crashes,
                partitions,
                calm_at: 4_000_000,
            });
        }
        "C08" => {
            let kind = r.n(7) / 2;
            if kind == 3 {
                crate::treep::gen_oblivious(r, &mut p);
                return p;
            }
            p.geo = if kind == 2 { gen_geo_batch(r) } else { gen_geo1(r) };
            if p.geo.cols > 16 {
                p.geo.cols = 16;
            }
            p.tfhe = match r.n(4) {
                0 => tf(16, 20, 1, 8, 4, 2, true),
                1 => tf(32, 8, 4, 8, 4, 2, true),
                2 => tf(64, 5, 9, 5, 11, 2, true),
                _ => tf(16, 8, 4, 8, 4, 2, true),
            };
            for _ in 0..r.r(1, 2) {
                let (a, b) = match kind {
                    0 => (gen_one(r, &p.geo, &[0]), gen_one(r, &p.geo, &[0])),
                    1 => {
                        let n = p.geo.items();
                        let k = r.r(1, n.min(4));
                        let f = |r: &mut Rng| -> Vec<Acc> { distinct(r, n, k).into_iter().map(|i| (r.pct(50), i, gen_data(r))).collect() };
                        let (mut a, mut b) = (f(r), f(r));
                        if r.one_in(4) {
                            // one of the two lists names an item several times
                            let v = if r.pct(50) { &mut a } else { &mut b };
                            for _ in 0..r.r(1, v.len()) {
                                let (x, y) = (r.n(v.len()), r.n(v.len()));
                                v[x].1 = v[y].1;
                            }
                        }
                        (Op::Multi(a), Op::Multi(b))
                    }
                    _ => {
                        let n = p.geo.items();
                        let f = |r: &mut Rng, g: &Geo| {
                            let k = r.r(0, g.rows.min(n).min(4));
                            Op::Batch(r.pct(50), distinct(r, n, k), gen_data(r))
                        };
                        (f(r, &p.geo.clone()), f(r, &p.geo.clone()))
                    }
                };
                p.body.ops.push(a);
                p.body.other.push(b);
            }
        }
        "C09" => {
            let batch = r.pct(50);
            p.geo = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
            if p.geo.cols > 32 {
                p.geo.cols = 32;
            }
            p.tfhe.n = p.tfhe.n.min(64);
            gen_env(r, &mut p);
            let mut k = r.r(2, 6);
            let long = r.one_in(40);
            if long {
                // one client for a long time
                k = r.r(60, 280);
                p.tfhe.n = *r.pick(&[16, 32]);
                p.tfhe.l = p.tfhe.l.min(5);
                p.geo = if batch { Geo { rows: r.r(2, 4), cols: 2, h: 1 } } else { Geo { rows: 1, cols: *r.pick(&[2, 4]), h: 1 } };
            }
            for _ in 0..k {
                if r.one_in(if long { 100 } else { 4 }) {
                    p.body.ops.push(Op::Restart(r.u64()));
                }
                let o = if batch { gen_batch(r, &p.geo) } else { gen_one(r, &p.geo, &[0]) };
                p.body.ops.push(o);
            }
            if r.one_in(3) {
                // feature vectors and evaluation keys for decision trees as well
                let (n, k, w) = (p.tfhe.n, r.r(1, 3), r.r(1, 4));
                let features = (0..k).map(|_| (0..w).map(|_| r.n(n)).collect()).collect();
                p.body.trees = Some(Trees { model: String::new(), features, parallel: false, form: 0 });
            }
        }
        "C10" => {
            let batch = r.pct(50);
            p.geo = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
            if p.geo.cols > 16 {
                p.geo.cols = 16;
            }
            p.tfhe.t = 2;
            p.tfhe.n = p.tfhe.n.min(64);
            let want = r.r(1, 4);
            for _ in 0..want {
                let g = p.geo;
                let mut wrong = pow2(r, 1, 5);
                while wrong == g.cols {
                    wrong = pow2(r, 1, 5);
                }
                let b = if batch {
                    let Op::Batch(w, idx, _) = gen_batch(r, &g) else { unreachable!() };
                    if r.pct(50) {
                        let mut n = r.r(0, g.rows + 3);
                        if n == g.rows {
                            n += 1;
                        }
                        Bad::BatchCount(idx, w, n)
                    } else {
                        let row = if r.one_in(4) { usize::MAX } else { r.n(g.rows) };
                        Bad::BatchCols(idx, w, row, wrong)
                    }
                } else {
                    match r.n(4) {
                        0 => Bad::OneCols(wrong),
                        1 => Bad::MultiEmpty,
                        _ => {
                            let Op::Multi(a) = gen_multi(r, &g) else { unreachable!() };
                            let k = if r.one_in(4) { usize::MAX } else { r.n(a.len()) };
                            Bad::MultiCols(a, k, wrong)
                        }
                    }
                };
                if r.pct(50) {
                    let o = if batch { gen_batch(r, &g) } else { gen_multi(r, &g) };
                    p.body.ops.push(o);
                }
                p.body.ops.push(Op::Bad(b));
                p.body.ops.push(Op::Db);
                let o = if batch { gen_batch(r, &g) } else { gen_one(r, &g, &[0]) };
                p.body.ops.push(o);
                p.body.ops.push(Op::Db);
            }
        }
        "C11" => {
            let batch = r.pct(40);
            p.geo = if batch { Geo { rows: r.r(3, 5), cols: 2, h: *r.pick(&[1, 2]) } } else { Geo { rows: 1, cols: pow2(r, 1, 2), h: 1 } };
            if (p.geo.rows * p.geo.cols) % p.geo.h != 0 {
                p.geo.h = 1;
            }
            p.tfhe = match r.n(4) {
                0 => tf(64, 5, 9, 5, 11, 2, true),
                1 => tf(64, 4, 12, 4, 12, 256, true),
                2 => tf(32, 8, 4, 8, 4, 2, true),
                _ => tf(16, 8, 4, 8, 4, 2, true),
            };
            if r.one_in(3) {
                let n = *r.pick(&[16, 16, 32, 64]);
                p.tfhe = random_tf(r, n, 16);
            }
            let mut k = if r.one_in(4) { r.r(60, 120) } else { r.r(20, 50) };
            if r.one_in(5) {
                // a long life
                k = r.r(300, 1200);
                p.tfhe.l = p.tfhe.l.min(9);
                p.sch.threads = p.sch.threads.min(2);
                p.geo.rows = p.geo.rows.min(3);
                if (p.geo.rows * p.geo.cols) % p.geo.h != 0 {
                    p.geo.h = 1;
                }
            }
            gen_env(r, &mut p);
            let hot = distinct(r, p.geo.items(), 1);
            let wp = *r.pick(&[0, 50, 90]);
            for _ in 0..k {
                let mut o = if batch {
                    gen_batch(r, &p.geo)
                } else if r.pct(40) {
                    gen_multi(r, &p.geo)
                } else {
                    gen_one(r, &p.geo, &hot)
                };
                match &mut o {
                    Op::One(a) => a.0 = r.pct(wp),
                    Op::Multi(v) => {
                        v.iter_mut().for_each(|a| a.0 = r.pct(wp));
                        one_writer(v);
                    }
                    Op::Batch(w, _, _) => *w = r.pct(wp),
                    _ => {}
                }
                p.body.ops.push(o);
            }
        }
        "C12" => crate::seeding::gen(r, &mut p),
        "C19" | "C20" => crate::algp::gen(r, &mut p),
        "C22" => crate::algp::gen_tables(r, &mut p),
        "C23" => {
            let batch = r.pct(50);
            p.geo = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
            if p.geo.cols > 8 {
                p.geo.cols = 8;
            }
            p.tfhe = if r.pct(50) { tf(16, 8, 4, 8, 4, 2, r.pct(70)) } else { tf(*r.pick(&[16, 32]), 7, 6, 9, 5, 2, r.pct(70)) };
            p.sch.threads = p.sch.threads.min(4);
            p.body.rounds = *r.pick(&[20, 24, 32, 48]);
            p.body.fresh = r.pct(40);
            gen_env(r, &mut p);
            // (thread pools that come and go leave garbage that is collected late)
            let lasting = |s: Site| if matches!(s, Site::Pool(_)) { Site::Global } else { s };
            p.site = lasting(p.site);
            for _ in 0..r.r(1, 3) {
                let g = p.geo;
                let o = match (batch, r.n(8)) {
                    (_, 0) => Op::Restart(r.u64()),
                    (true, 1) => {
                        let Op::Batch(w, idx, _) = gen_batch(r, &g) else { unreachable!() };
                        Bad::BatchCount(idx, w, r.n(g.rows)).into()
                    }
                    (false, 1) => Bad::MultiCols(vec![(false, 0, 0), (true, 0, 1)], r.n(2), g.cols * 2).into(),
                    (true, _) => gen_batch(r, &g),
                    (false, 2..=4) => gen_multi(r, &g),
                    _ => gen_one(r, &g, &[0]),
                };
                p.body.ops.push(o);
            }
            if r.one_in(4) {
                let (t, f) = crate::treep::gen_small(r, 2);
                p.body.groves.push((t, f, p.site));
            }
            if r.one_in(4) {
                let g = gen_geo1(r);
                if g.cols <= 8 {
                    let o = gen_one(r, &g, &[0]);
                    p.body.tenants.push((p.tfhe.clone(), g, vec![o], lasting(Site::gen(r))));
                }
            }
        }
        "C13" | "C15" => crate::toolp::gen(r, &mut p),
        "C14" => crate::treep::gen(r, &mut p),
        "C16" => {
            p.body.ops.clear();
            let crowd = r.one_in(15);
            let k = if crowd { r.r(6, 10) } else { r.r(2, 3) };
            let like = r.pct(50);
            for j in 0..k {
                let batch = r.pct(50);
                let g = if batch { gen_geo_batch(r) } else { gen_geo1(r) };
                let mut t = gen_tf(r);
                t.n = t.n.min(64);
                if crowd {
                    t.n = t.n.min(32);
                    t.l = t.l.min(6);
                }
                if j > 0 && like {
                    // a neighbour that differs in one respect only
                    let first: Tf = p.body.tenants[0].0.clone();
                    t = first.clone();
                    for _ in 0..20 {
                        let mut x = first.clone();
                        match r.n(6) {
                            0 => x.bl = r.r(2, 14),
                            1 => x.l = r.r(1, 12),
                            2 => x.nbl = r.r(2, 14),
                            3 => x.nl = r.r(1, 12),
                            4 => x.t = *r.pick(&[2, 4, 16, 64, 256]),
                            _ => x.n = *r.pick(&[16, 32, 64]),
                        }
                        if x.bl * x.l <= 56 && x.nbl * x.nl <= 56 && x != first && noise_room(&x, 16) >= 7.0 {
                            t = x;
                            break;
                        }
                    }
                }
                if g.cols > 16 {
                    t = tf(16, 8, 4, 8, 4, 2, t.secure);
                }
                let ops = (0..r.r(2, 4))
                    .map(|_| if batch { gen_batch(r, &g) } else if r.pct(50) { gen_multi(r, &g) } else { gen_one(r, &g, &[0]) })
                    .chain([Op::Db])
                    .collect();
                let s = Site::gen(r);
                p.body.tenants.push((t, g, ops, s));
            }
            gen_grove(r, &mut p, 4);
            gen_env(r, &mut p);
        }
        "C17" => {
            let n = if r.one_in(10) { r.r(13, 90) } else { r.r(0, 12) };
            let w = if r.one_in(12) { r.r(7, 40) } else { r.r(1, 6) };
            let big = r.one_in(4);
            let n = if big { r.r(500, 4000) } else { n };
            // now and then more rows than 16 bits can count
            let n = if r.one_in(150) { 66_000 + r.n(5_000) } else { n };
            let w = if n > 60_000 { 1 } else { w };
            let rows = (0..=n).map(|_| (0..w).map(|_| (r.u64() >> r.r(10, 60)) as usize).collect()).collect();
            let mut c = Csv { rows, crlf: r.one_in(4), odd: vec![], ragged: vec![], blank: vec![], no_end: r.one_in(5) };
            if r.pct(70) {
                // names of columns
                for k in 0..w {
                    let t = *r.pick(&["x", "feature 1", "\"a,b\"", "-", "", "\"two\nlines\"", "7", "é"]);
                    c.odd.push((0, k, t.into()));
                }
            }
            if r.one_in(3) {
                for _ in 0..r.r(1, 3) {
                    let t = *r.pick(&["", "x", "-3", "1.5", "1e3", "0x10", " 4", "5 ", "+6", "007", "\"12\"", "\"\"", "18446744073709551615", "18446744073709551616",
                        "99999999999999999999999", "\u{1}", "4;5", "#1", "NaN", "true", "1_000", "\"1,2\"", "٣"]);
                    c.odd.push((r.n(n + 1), r.n(w), t.into()));
                }
            }
            if r.one_in(8) {
                c.ragged.push((r.n(n + 1), *r.pick(&[-1, 1, 2])));
            }
            if r.one_in(8) {
                c.blank.push(r.n(n + 2));
            }
            p.body.csv = Some(c);
            for _ in 0..r.r(0, 2) {
                let kind = match r.n(5) {
                    0 => IoKind::Err(libc::EINTR),
                    1 => IoKind::Err(libc::EIO),
                    2 => IoKind::ErrAll(libc::EIO),
                    3 => IoKind::Short(r.r(1, 200)),
                    _ => IoKind::ShortAll(r.r(1, 200)),
                };
                p.faults.push(IoFault { target: "file".into(), call: if r.one_in(8) { "open" } else { "io" }.into(), at: r.n(6) as u64, kind });
            }
        }
        _ => panic!("unknown property {prop}"),
    }
    if p.prop != "C06" && p.prop != "C08" && p.prop != "C14" && p.body.trees.is_none() && p.body.alg.is_none() {
        fit(&mut p.tfhe, p.geo.cols);
        for t in p.body.tenants.iter_mut() {
            fit(&mut t.0, t.1.cols);
        }
    }
    p
}

