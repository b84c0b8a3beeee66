//! C14: decision-tree evaluation over encrypted features, in parallel.
use crate::core::*;
use crate::exec::*;
use crate::gen::tf;
use crate::plan::*;
use crate::rng::Rng;
use concrete_core::commons::crypto::encoding::PlaintextList;
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::{compare_expand, encrypt_feature_vector, simulate, trunc_tree, EncNode, Internal, Node};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::{compute_noise_encoded, gen_all_subs_ksk_fourier, FourierRLWEKeyswitchKey, RLWECiphertext, RLWESecretKey};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

fn tree(r: &mut Rng, depth: usize, feats: usize, nmax: usize, leafmax: usize, root: bool) -> Value {
    if !root && (depth == 0 || r.one_in(4)) {
        return json!({ "leaf": match r.n(8) {
            0 | 1 => 0,
            2 => leafmax,
            3 => leafmax / 2 + 1,
            _ => r.n(leafmax.saturating_add(1)),
        } });
    }
    let child = |r: &mut Rng| -> Value {
        if r.one_in(8) {
            Value::Null
        } else {
            tree(r, depth.saturating_sub(1), feats, nmax, leafmax, false)
        }
    };
    let threshold = match r.n(6) {
        0 => 0,
        1 => nmax - 1,
        2 => *r.pick(&[1, 2, 3, 7, 8]),
        _ => r.n(nmax),
    };
    let left = child(r);
    let right = child(r);
    json!({ "internal": { "threshold": threshold, "feature": r.n(feats), "index": 0, "op": "leq", "left": left, "right": right } })
}

/// A tree that is deep in one place only.
fn chain(r: &mut Rng, depth: usize, feats: usize, nmax: usize, leafmax: usize) -> Value {
    let mut t = json!({ "leaf": r.n(leafmax.saturating_add(1)) });
    for _ in 0..depth {
        let side = match r.n(3) {
            0 => Value::Null,
            _ => json!({ "leaf": r.n(leafmax.saturating_add(1)) }),
        };
        // thresholds that let most feature values go on
        let (l, x) = if r.pct(50) { (true, nmax - 1 - r.n(nmax / 8)) } else { (false, r.n(nmax / 8)) };
        let (left, right) = if l { (t, side) } else { (side, t) };
        t = json!({ "internal": { "threshold": x, "feature": r.n(feats), "index": 0, "op": "leq", "left": left, "right": right } });
    }
    t
}

/// A full tree, with a leaf here and there on the way.
fn bushy(r: &mut Rng, depth: usize, feats: usize, nmax: usize, leafmax: usize) -> Value {
    if depth == 0 || r.one_in(25) {
        return json!({ "leaf": r.n(leafmax.saturating_add(1)) });
    }
    let left = bushy(r, depth - 1, feats, nmax, leafmax);
    let right = bushy(r, depth - 1, feats, nmax, leafmax);
    json!({ "internal": { "threshold": r.n(nmax), "feature": r.n(feats), "index": 0, "op": "leq", "left": left, "right": right } })
}

/// Estimated log2 of the largest noise of an evaluated leaf bit, from the textbook formulas for
/// key switching and gadget products: used only to choose parameters with room to spare.
pub fn estimate(t: &Tf, depth: usize) -> f64 {
    let n = t.n as f64;
    let sigma = 2f64.powf(64.0 + t.std);
    let hyp = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let gadget = |bl: usize, l: usize, s: f64| (2.0 * n * l as f64).sqrt() * 2f64.powi(bl as i32) / 3.46 * s;
    let round = |bl: usize, l: usize| 2f64.powi(64 - ((bl * l).min(64)) as i32) / 3.46 * (1.0 + n / 2.0).sqrt();
    let fft = |bl: usize, l: usize| 2f64.powi(12 + bl as i32) * (n * l as f64).sqrt();
    // tracing: every stage doubles what is there and adds a key switch; the comparison adds up to n coefficients
    let switch = hyp(&[gadget(t.kbl, t.kl, sigma), round(t.kbl, t.kl), fft(t.kbl, t.kl)]);
    let traced = n * hyp(&[switch, n.sqrt() * sigma]);
    let bit = hyp(&[(n / 2.0).sqrt() * traced, gadget(t.nbl, t.nl, sigma), round(t.nbl, t.nl), fft(t.nbl, t.nl)]);
    let step = hyp(&[gadget(t.bl, t.l, hyp(&[bit, traced])), round(t.bl, t.l), fft(t.bl, t.l)]);
    (step * (depth.max(1) as f64).sqrt() * 8.0).log2()
}

fn room(t: &Tf, depth: usize) -> f64 {
    63.0 - (t.t as f64).log2() - estimate(t, depth)
}

fn gen_tf(r: &mut Rng, depth: usize) -> Tf {
    let n = *r.pick(&[16, 32, 64, 64, 128, 256]);
    for _ in 0..400 {
        let bl = r.r(2, 12);
        let l = r.r(1, (45 / bl).max(1).min(14));
        let nbl = r.r(2, 12);
        let nl = r.r(1, (52 / nbl).max(1).min(14));
        let t = 1u64 << *r.pick(&[1, 1, 2, 3, 5, 8]);
        let mut x = tf(n, bl, l, nbl, nl, t, r.pct(70));
        x.kbl = r.r(2, 12);
        x.kl = r.r(1, (56 / x.kbl).max(1).min(16));
        if r.one_in(4) {
            x.std = -(r.r(52, 60) as f64);
        }
        if room(&x, depth) >= 9.0 && bl * l + (n as f64).log2() as usize <= 60 {
            return x;
        }
    }
    tf(64, 5, 9, 5, 11, 2, true)
}

fn depth_of(t: &Value) -> usize {
    match t.get("internal") {
        Some(i) => 1 + depth_of(&i["left"]).max(depth_of(&i["right"])),
        None => 0,
    }
}

/// Feature vectors at, next to and away from the thresholds.
fn features(r: &mut Rng, model: &Value, feats: usize, n: usize, count: usize) -> Vec<Vec<usize>> {
    let mut thr = vec![];
    fn walk(t: &Value, v: &mut Vec<usize>) {
        if let Some(i) = t.get("internal") {
            v.push(i["threshold"].as_u64().unwrap() as usize);
            walk(&i["left"], v);
            walk(&i["right"], v);
        }
    }
    walk(model, &mut thr);
    let mut out: Vec<Vec<usize>> = vec![];
    for _ in 0..count {
        // some are close to one already there: equal, in another order, equal in the low bits, changed in one place
        let near = if out.is_empty() || r.pct(if n > 1000 { 30 } else { 65 }) { None } else { Some(r.pick(&out).clone()) };
        out.push(match near {
            Some(mut f) => {
                let (a, b) = (r.n(feats), r.n(feats));
                match r.n(7) {
                    0 => {}
                    1 => f.reverse(),
                    2 => f.swap(a, b),
                    3..=5 => f[a] = (f[a] + (1 << if n > 1000 { r.r(6, 10) } else { r.n(11) })) % n,
                    _ => f[a] = r.n(n),
                }
                f
            }
            None => (0..feats)
                .map(|_| {
                    let t = *r.pick(&thr);
                    match r.n(6) {
                        0 => t,
                        1 => (t + 1).min(n - 1),
                        2 => t.saturating_sub(1),
                        3 => *r.pick(&[0, n - 1]),
                        _ => r.n(n),
                    }
                })
                .collect(),
        });
    }
    out
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let full = r.one_in(12);
    let depth = if full { r.r(1, 2) } else if r.one_in(8) { r.r(5, 6) } else { r.r(1, 4) };
    p.tfhe = if full {
        tf(2048, 5, 9, 5, 11, 256, true)
    } else if r.pct(50) {
        gen_tf(r, depth)
    } else {
        match r.n(4) {
            0 => tf(64, 5, 9, 5, 11, 256, true),
            1 => tf(128, 5, 9, 5, 11, 2, true),
            2 => tf(64, 5, 9, 5, 11, 2, false),
            _ => tf(256, 5, 9, 5, 11, 256, true),
        }
    };
    let n = p.tfhe.n;
    let feats = if r.one_in(10) { r.r(7, 40) } else { r.r(1, 6) };
    let leafmax = if r.one_in(8) {
        *r.pick(&[65_535, 65_536, 1 << 31, (1 << 32) + 1, 1 << 47, 1 << 52, (1 << 53) + 1, 1 << 63, usize::MAX - 1, usize::MAX])
    } else {
        *r.pick(&[0, 1, 1, 2, 3, 4, 7, 10, 16, 255, 1000])
    };
    let mut model = tree(r, depth, feats, n, leafmax, true);
    if !full && r.one_in(12) {
        let d = r.r(7, 24);
        p.tfhe = gen_tf(r, d);
        model = chain(r, d, feats, p.tfhe.n, leafmax);
    }
    let mut many = false;
    if !full && r.one_in(40) {
        // more nodes than a byte can count
        let n = *r.pick(&[16, 32]);
        p.tfhe = tf(n, 5, 9, 5, 11, 2, true);
        let d = 9 + r.n(2);
        model = bushy(r, d, feats, n, leafmax);
        while model.get("internal").is_none() {
            model = bushy(r, d, feats, n, leafmax);
        }
        many = true;
    }
    let n = p.tfhe.n;
    let count = if many { r.r(1, 4) } else if full { if r.one_in(3) { r.r(4, 7) } else { r.r(1, 3) } } else if r.one_in(20) { r.r(7, 24) } else { r.r(0, 6) };
    let features = features(r, &model, feats, n, count);
    p.body.trees = Some(Trees { model: model.to_string(), features, parallel: r.pct(90), form: if r.pct(50) { 0 } else { r.r(1, 3) as u8 } });
    crate::gen::gen_env(r, p);
}

/// A small forest workload: parameters and a tree with `count` feature vectors.
pub fn gen_small(r: &mut Rng, count: usize) -> (Tf, Trees) {
    let depth = r.r(1, 3);
    let mut t = gen_tf(r, depth);
    if t.n > 64 {
        t = tf(64, 5, 9, 5, 11, 2, t.secure);
    }
    let feats = r.r(1, 3);
    let leafmax = *r.pick(&[0, 1, 1, 2, 3, 7, 16]);
    let model = tree(r, depth, feats, t.n, leafmax, true);
    let features = features(r, &model, feats, t.n, count);
    (t, Trees { model: model.to_string(), features, parallel: r.pct(90), form: 0 })
}

pub fn gen_oblivious(r: &mut Rng, p: &mut Plan) {
    let k = r.r(1, 4);
    let (t, mut trees) = gen_small(r, 2 * k);
    trees.parallel = r.pct(70);
    p.tfhe = t;
    p.body.trees = Some(trees);
}

/// The reference: plain evaluation, written from the documentation of the tree format.
fn eval(t: &Value, f: &[usize]) -> u64 {
    if t.is_null() {
        return 0;
    }
    if let Some(l) = t.get("leaf") {
        return l.as_u64().unwrap();
    }
    let i = &t["internal"];
    let go_left = f[i["feature"].as_u64().unwrap() as usize] as u64 <= i["threshold"].as_u64().unwrap();
    eval(if go_left { &i["left"] } else { &i["right"] }, f)
}

/// The library's tree. Renumbering and cutting away worthless branches do not change what it says.
fn shaped(t: &Trees) -> Node {
    let mut model: Node = serde_json::from_str(&t.model).unwrap();
    if t.form & 2 != 0 {
        // a tree of which nothing is left is kept as it is
        let one: Node = serde_json::from_str(&t.model).unwrap();
        if let Some(cut) = trunc_tree(&Some(one)) {
            model = cut;
        }
    }
    if t.form & 1 != 0 {
        model.fix_index();
    }
    model
}

/// Keys and encrypted features of one client, and the tree of the server.
pub struct Grove {
    ctx: Context,
    sk: RLWESecretKey,
    neg: RGSWCiphertext,
    ksk: HashMap<usize, FourierRLWEKeyswitchKey>,
    cts: Vec<Vec<Vec<RLWECiphertext>>>,
    model: Node,
    flat: Vec<Internal>,
    parallel: bool,
    want: Vec<u64>,
    features: Vec<Vec<usize>>,
}

impl Grove {
    pub fn new(tf: &Tf, t: &Trees) -> Grove {
        let mut ctx = Context::new(tf.params());
        let sk = ctx.gen_rlwe_sk();
        let neg = sk.neg_gsw(&mut ctx);
        let ksk = gen_all_subs_ksk_fourier(&sk, &mut ctx);
        let cts = t.features.iter().map(|f| encrypt_feature_vector(&sk, f, &mut ctx)).collect();
        let model = shaped(t);
        let val: Value = serde_json::from_str(&t.model).unwrap();
        let want = t.features.iter().map(|f| eval(&val, f)).collect();
        let flat = model.flatten();
        Grove { ctx, sk, neg, ksk, cts, model, flat, parallel: t.parallel, want, features: t.features.clone() }
    }

    /// The server's part, for these feature vectors: the same steps as `simulate`.
    pub fn evaluate(&self, which: std::ops::Range<usize>, site: Site) -> Vec<Vec<RLWECiphertext>> {
        let one = |ct: &Vec<Vec<RLWECiphertext>>| {
            let enc = {
                let mut g = compare_expand(&self.flat, ct, &self.neg, &self.ksk, &self.ctx);
                EncNode::new(&self.model, &mut g)
            };
            let mut buf = FftBuffer::new(self.ctx.poly_size);
            enc.eval(&self.ctx, &mut buf)
        };
        let mine = &self.cts[which];
        at(site, || if self.parallel { mine.par_iter().map(one).collect() } else { mine.iter().map(one).collect() })
    }

    /// Predictions, and the largest noise (log2).
    pub fn decode(&self, outs: &[Vec<RLWECiphertext>]) -> (Vec<u128>, f64) {
        let mut worst = f64::NEG_INFINITY;
        let got = outs
            .iter()
            .map(|bits| {
                bits.iter().enumerate().fold(0u128, |acc, (k, ct)| {
                    let mut pt = PlaintextList::allocate(0u64, self.ctx.plaintext_count());
                    self.sk.decrypt_decode_rlwe(&mut pt, ct, &self.ctx);
                    worst = worst.max(compute_noise_encoded(&self.sk, ct, &pt, &self.ctx.codec));
                    let c = coeffs(&pt);
                    acc | (if c[0] > 1 || c[1..].iter().any(|x| *x != 0) { 1 << 100 } else { (c[0] as u128) << k })
                })
            })
            .collect();
        (got, worst)
    }

    /// Evaluate everything and compare with plain evaluation.
    pub fn check(&self, site: Site) -> Result<f64, V> {
        let outs = self.evaluate(0..self.cts.len(), site);
        let (got, noise) = self.decode(&outs);
        if got.iter().zip(&self.want).any(|(a, b)| *a != *b as u128) || got.len() != self.want.len() {
            return v("prediction", format!("predictions {got:?}, plain evaluation {:?}", self.want));
        }
        for (f, w) in self.features.iter().zip(&self.want) {
            let e = self.model.eval(f) as u64;
            if e != *w {
                return v("plain", format!("plain evaluation of {f:?} gives {e}, the tree says {w}"));
            }
        }
        Ok(noise)
    }
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let t = p.body.trees.clone().unwrap();
    let val: Value = serde_json::from_str(&t.model).unwrap();
    let r = sim(&p.sch, false, world(p), || -> Result<f64, V> {
        if p.tfhe.n == 2048 {
            let model = shaped(&t);
            let before = panacea_simstd::time::Instant::now();
            let res = at(p.site, || simulate(&model, &t.features, t.parallel));
            let passed = before.elapsed();
            let want: Vec<u64> = t.features.iter().map(|f| eval(&val, f)).collect();
            if res.input_count != want.len() {
                return v("count", format!("{} inputs reported, {} given", res.input_count, want.len()));
            }
            if res.predictions != want {
                return v("prediction", format!("predictions {:?}, plain evaluation {want:?}", res.predictions));
            }
            if res.setup_duration + res.server_duration > passed {
                return v("duration", format!("{:?} of setup and {:?} of evaluation are reported, {passed:?} passed", res.setup_duration, res.server_duration));
            }
            return Ok(f64::NEG_INFINITY);
        }
        // the same steps with a smaller ring: shared keys, one item per task
        Grove::new(&p.tfhe, &t).check(p.site)
    });
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok(Err(x)) => out.violation = Some(x),
        Ok(Ok(noise)) => {
            if noise.is_finite() {
                out.gauge("noise-bits-above-estimate", noise - estimate(&p.tfhe, depth_of(&val)));
                out.gauge("noise-bits-below-threshold-min (negated)", noise - (63.0 - (p.tfhe.t as f64).log2()));
            }
        }
    }
    out.checks = t.features.len() as u64;
    out.nontrivial = out.checks > 0;
    out
}

/// C08: one tree, two lists of encrypted feature vectors (the first and the second half).
pub fn oblivious(p: &Plan, out: &mut Outcome) {
    let t = p.body.trees.clone().unwrap();
    let half = t.features.len() / 2;
    let Some(g) = prepared(p, &t, out) else { return };
    watch_both(p, out, |k, regions| {
        watch_on();
        let outs = regions.of(|| g.evaluate(k * half..(k + 1) * half, p.site));
        outs.iter().map(|x| x.len()).sum()
    });
    out.nontrivial = half > 0 && t.features[..half] != t.features[half..2 * half];
}

fn prepared(p: &Plan, t: &Trees, out: &mut Outcome) -> Option<Grove> {
    let made = sim(&Sch::sequential(), false, world(p), || Grove::new(&p.tfhe, t));
    finish(out, &made);
    match made.res {
        Ok(g) => Some(g),
        Err(e) => {
            out.violation = Some(panic_violation(&e));
            None
        }
    }
}

/// C05: the same encrypted features under several schedules, pools and call sites.
pub fn schedules(p: &Plan, out: &mut Outcome) {
    let t = p.body.trees.clone().unwrap();
    let Some(g) = prepared(p, &t, out) else { return };
    let mut reference: Option<Vec<Vec<u64>>> = None;
    for (k, (s, site)) in std::iter::once((p.sch.clone(), p.site)).chain(p.body.alts.iter().cloned()).enumerate() {
        let r = sim(&s, false, world(p), || -> Vec<Vec<u64>> { g.evaluate(0..t.features.len(), site).iter().flatten().map(ct_words).collect() });
        finish(out, &r);
        match r.res {
            Err(e) => {
                out.violation = Some(panic_violation(&e));
                return;
            }
            Ok(w) => match &reference {
                None => reference = Some(w),
                Some(x) => {
                    out.checks += w.len() as u64;
                    if *x != w {
                        out.violation = Some((
                            "schedule-dependent".into(),
                            format!("the encrypted predictions differ between 1 thread run in order and schedule {k} ({} threads, call site {site:?})", s.threads),
                        ));
                        return;
                    }
                }
            },
        }
    }
    out.nontrivial = out.checks > 0 && out.switches > 2;
}
