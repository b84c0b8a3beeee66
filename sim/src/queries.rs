//! C09: what a query looks like from outside: same shape for every request, fresh ciphertexts.
use crate::core::*;
use crate::exec::*;
use crate::plan::*;
use crate::sys;
use panacea::decision_tree::encrypt_feature_vector;
use panacea::lwe::LWEtoRLWEKeyswitchKey;
use panacea::naive_hash::NaiveHash;
use panacea::oram::Client;
use panacea::rlwe::{gen_all_subs_ksk, gen_all_subs_ksk_fourier};
use std::collections::BTreeMap;

/// Split a Debug rendering into its skeleton and its long lists of numbers.
pub fn dissect(text: &str, n: usize) -> (String, Vec<Vec<u64>>) {
    let b = text.as_bytes();
    let mut skel = String::new();
    let mut lists = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b',' || b[j].is_ascii_whitespace()) {
                j += 1;
            }
            if j < b.len() && b[j] == b']' {
                let v: Vec<u64> = text[i + 1..j].split(',').filter_map(|x| x.trim().parse().ok()).collect();
                if v.len() >= n {
                    skel.push_str(&format!("[{} words]", v.len()));
                    lists.push(v);
                    i = j + 1;
                    continue;
                }
            }
        }
        skel.push(b[i] as char);
        i += 1;
    }
    (skel, lists)
}

pub fn sk_bits(sk: &panacea::rlwe::RLWESecretKey, n: usize) -> Vec<u64> {
    let (_, l) = dissect(&format!("{sk:?}"), n.min(8));
    l.into_iter().next().unwrap_or_default()
}

/// body - mask * s in Z_{2^64}[X]/(X^n + 1)
pub fn phase(mask: &[u64], body: &[u64], s: &[u64]) -> Vec<u64> {
    let n = body.len();
    let mut out = body.to_vec();
    for (i, &a) in mask.iter().enumerate() {
        for (j, &b) in s.iter().enumerate() {
            if b == 0 {
                continue;
            }
            let k = i + j;
            let m = a.wrapping_mul(b);
            if k < n {
                out[k] = out[k].wrapping_sub(m);
            } else {
                out[k - n] = out[k - n].wrapping_add(m);
            }
        }
    }
    out
}

pub fn centred(x: u64, unit_log: u32) -> i64 {
    let m = x & ((1u64 << unit_log) - 1);
    if m >= 1u64 << (unit_log - 1) {
        m as i64 - (1i64 << unit_log)
    } else {
        m as i64
    }
}

/// Something a client sends out.
struct Sent {
    /// "query" or the piece of setup material this is
    kind: &'static str,
    name: String,
    proc_no: u32,
    /// rendering of a query or a key
    text: String,
    /// or ciphertexts as words
    cts: Vec<Vec<u64>>,
}

fn sent(kind: &'static str, text: String, cts: Vec<Vec<u64>>) -> Sent {
    Sent { kind, name: kind.to_string(), proc_no: 0, text, cts }
}

/// Noise of all ciphertexts of one kind.
#[derive(Default)]
struct Pool {
    n: f64,
    sum: f64,
    sq: f64,
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let n = p.tfhe.n;
    let r = sim(&p.sch, false, world(p), || {
        let hash = NaiveHash::new(p.geo.h, p.geo.items());
        let mut c0 = Client::new(p.geo.rows, p.geo.cols, p.tfhe.params());
        let sk = c0.sk.clone();
        let mut gens: Vec<Sent> = vec![];
        // what is sent once, before any request
        let neg = c0.gen_neg_sk();
        gens.push(sent("negation key", format!("{neg:?}"), vec![]));
        let (_, db) = c0.gen_dummy_database(&hash);
        let cells: Vec<Vec<u64>> = (0..p.geo.items().min(128))
            .map(|i| hash.hash_to_tuple(0, i, p.geo.cols))
            .map(|(r, c)| ct_words(&db[r][c]))
            .collect();
        gens.push(sent("database", String::new(), cells));
        if let Some(t) = &p.body.trees {
            for f in &t.features {
                let cts = encrypt_feature_vector(&sk, f, &mut c0.ctx);
                gens.push(sent("features", String::new(), cts.iter().flatten().map(ct_words).collect()));
            }
            let ksk = gen_all_subs_ksk(&sk, &mut c0.ctx);
            let mut k: Vec<_> = ksk.iter().collect();
            k.sort_by_key(|x| *x.0);
            gens.push(sent("substitution keys", String::new(), k.iter().flat_map(|x| x.1.get_keyswitch_key().iter().map(ct_words)).collect()));
            let fourier = gen_all_subs_ksk_fourier(&sk, &mut c0.ctx);
            gens.push(sent("fourier", format!("{fourier:?}"), vec![]));
            if n <= 32 {
                let lwe = c0.ctx.gen_lwe_sk();
                let mut conv = LWEtoRLWEKeyswitchKey::allocate(&c0.ctx);
                conv.fill_with_keyswitching_key(&lwe, &mut c0.ctx);
                gens.push(sent("conversion key", format!("{conv:?}"), vec![]));
            }
        }
        let half = p.body.ops.len() / 2;
        let gen = |c: &mut Client, ops: &[Op], mut proc_no: u32, gens: &mut Vec<Sent>| {
            for op in ops {
                let t = match op {
                    Op::Restart(e) => {
                        sys::reseed(*e);
                        proc_no += 100;
                        *c = client(&sk, p.geo.rows, p.geo.cols, &p.tfhe);
                        continue;
                    }
                    Op::One(a) => {
                        let q = if a.0 {
                            c.gen_write_query_one(a.1, &data_pt(n, p.tfhe.t, a.2), &hash)
                        } else {
                            c.gen_read_query_one(a.1, &hash)
                        };
                        format!("{q:?}")
                    }
                    Op::Batch(w, idx, d) => {
                        if !Oram::placeable(&hash, &p.geo, idx) {
                            continue;
                        }
                        let q = if *w {
                            c.gen_write_query_batch(idx, &data_pt(n, p.tfhe.t, *d), &hash)
                        } else {
                            c.gen_read_query_batch(idx, &hash)
                        };
                        format!("{q:?}")
                    }
                    _ => continue,
                };
                gens.push(Sent { kind: "query", name: brief(op), proc_no, text: t, cts: vec![] });
            }
        };
        gen(&mut c0, &p.body.ops[..half], 0, &mut gens);
        let more = panacea_simstd::thread::scope(|sc| {
            sc.spawn(|| {
                let mut c1 = client(&sk, p.geo.rows, p.geo.cols, &p.tfhe);
                let mut g = vec![];
                gen(&mut c1, &p.body.ops[half..], 1, &mut g);
                g
            })
            .join()
        });
        match more {
            Ok(g) => gens.extend(g),
            Err(e) => std::panic::resume_unwind(e),
        }
        (gens, sk_bits(&sk, n))
    });
    finish(&mut out, &r);
    let (gens, s) = match r.res {
        Err(e) => {
            out.violation = Some(panic_violation(&e));
            return out;
        }
        Ok(x) => x,
    };
    if s.len() != n {
        out.violation = Some(("key-shape".into(), format!("secret key of {} words for polynomial size {n}", s.len())));
        return out;
    }
    let lt = (p.tfhe.t as f64).log2() as u32;
    let unit_of = |kind: &str| -> u32 {
        let bits = match kind {
            "query" => (p.tfhe.bl * p.tfhe.l) as u32,
            "negation key" => (p.tfhe.nbl * p.tfhe.nl) as u32,
            "database" => lt + 1,
            "features" => (p.tfhe.bl * p.tfhe.l) as u32 + (n as f64).log2() as u32,
            "substitution keys" | "conversion key" => (p.tfhe.kbl * p.tfhe.kl) as u32,
            _ => 64,
        };
        64 - bits.max(lt + 1).min(64)
    };
    let sigma = 2f64.powf(64.0 + p.tfhe.std);
    let mut shape: Option<(String, String)> = None;
    let mut masks: BTreeMap<Vec<u64>, String> = BTreeMap::new();
    let mut noises: BTreeMap<Vec<i64>, String> = BTreeMap::new();
    let mut pools: BTreeMap<String, Pool> = BTreeMap::new();
    let mut ones = [0u64; 64];
    let mut words = 0u64;
    let mut epoch = u32::MAX;
    let mut cts = 0u64;
    for Sent { kind, name, proc_no, text, cts: given } in &gens {
        if *kind == "fourier" {
            // in another representation: only look for the same mask twice
            let parts: Vec<&str> = text.split("mask:").skip(1).map(|x| x.split("body:").next().unwrap_or("")).collect();
            let distinct: std::collections::BTreeSet<&&str> = parts.iter().collect();
            out.checks += parts.len() as u64;
            if distinct.len() < parts.len() {
                out.violation = Some(("mask-reuse".into(), "two ciphertexts of the substitution keys (in the Fourier domain) have the same mask".into()));
                return out;
            }
            continue;
        }
        let lists: Vec<Vec<u64>> = if given.is_empty() {
            let (skel, lists) = dissect(text, n);
            if *kind == "query" {
                match &shape {
                    None => shape = Some((name.clone(), skel)),
                    Some((n0, s0)) => {
                        if *s0 != skel {
                            let i = s0.bytes().zip(skel.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                            let cut = |t: &str| t[i.saturating_sub(30).min(t.len())..(i + 30).min(t.len())].to_string();
                            out.violation = Some(("query-shape".into(), format!("the query for '{name}' is laid out differently from that for '{n0}': ...{}... vs ...{}...", cut(&skel), cut(s0))));
                            return out;
                        }
                    }
                }
            }
            lists
        } else {
            given.clone()
        };
        if !p.tfhe.secure && *proc_no != epoch {
            // with the fixed seed, a new process repeats its random numbers by design
            masks.clear();
            noises.clear();
        }
        epoch = *proc_no;
        let unit = unit_of(kind);
        let what = if *kind == "query" { format!("query for '{name}'") } else { name.clone() };
        for (at, l) in lists.iter().enumerate() {
            if l.len() % (2 * n) != 0 {
                out.violation = Some(("query-shape".into(), format!("the {what} holds {} words, not a multiple of a ciphertext's {}", l.len(), 2 * n)));
                return out;
            }
            for ct in l.chunks(2 * n) {
                cts += 1;
                let (mask, body) = ct.split_at(n);
                if mask.iter().filter(|x| **x == mask[0]).count() > 1 + n / 2 {
                    out.violation = Some(("trivial-ciphertext".into(), format!("a ciphertext in the {what} has a constant mask")));
                    return out;
                }
                if let Some(prev) = masks.insert(mask.to_vec(), what.clone()) {
                    out.violation = Some(("mask-reuse".into(), format!("the {what} reuses the randomness of a ciphertext of the {prev}")));
                    return out;
                }
                words += n as u64;
                for w in mask {
                    for (b, c) in ones.iter_mut().enumerate() {
                        *c += (w >> b) & 1;
                    }
                }
                if unit < 14 || *kind == "conversion key" {
                    continue;
                }
                let e: Vec<i64> = phase(mask, body, &s).iter().map(|x| centred(*x, unit)).collect();
                let sq: f64 = e.iter().map(|x| *x as f64 * *x as f64).sum();
                let rms = (sq / n as f64).sqrt();
                if rms < 0.2 * sigma || rms > 3.2 * sigma {
                    out.violation = Some(("noise-level".into(), format!("a ciphertext in the {what} has noise of standard deviation {rms:.1}, configured {sigma:.1}")));
                    return out;
                }
                out.gauge("noise-rms-over-sigma", rms / sigma);
                if sigma * 8.0 < 2f64.powi(unit as i32 - 1) && sigma >= 4.0 {
                    // the parts of a query by position; each kind of material on its own
                    let part = if *kind == "query" { format!("part {at} of the queries") } else { kind.to_string() };
                    let pool = pools.entry(part).or_default();
                    pool.n += n as f64;
                    pool.sum += e.iter().map(|x| *x as f64).sum::<f64>();
                    pool.sq += sq;
                    if let Some(prev) = noises.insert(e, what.clone()) {
                        out.violation = Some(("noise-reuse".into(), format!("the {what} has the noise of a ciphertext of the {prev}")));
                        return out;
                    }
                }
            }
        }
    }
    for (part, q) in &pools {
        if q.n < 200.0 {
            continue;
        }
        let dev = (q.sq / q.n).sqrt() / sigma - 1.0;
        let mean = q.sum / q.n / sigma;
        out.gauge("pooled-noise-deviation", dev.abs() * (2.0 * q.n).sqrt());
        if dev.abs() > 0.02 + 7.0 / (2.0 * q.n).sqrt() || mean.abs() > 0.02 + 7.0 / q.n.sqrt() {
            out.violation = Some(("noise-level".into(), format!("over {} coefficients, {part}: noise has standard deviation {:.3} and mean {mean:.3} times the configured one", q.n, 1.0 + dev)));
            return out;
        }
    }
    if words >= 400 {
        for (b, c) in ones.iter().enumerate() {
            let z = (*c as f64 - words as f64 / 2.0) / (words as f64).sqrt() * 2.0;
            out.gauge("mask-bit-imbalance", z.abs());
            if z.abs() > 8.0 {
                out.violation = Some(("mask-bias".into(), format!("bit {b} of the mask words is set in {c} of {words}")));
                return out;
            }
        }
    }
    out.checks += cts;
    out.count("ciphertexts-examined", cts);
    out.count("queries-compared", gens.iter().filter(|g| g.kind == "query").count() as u64);
    out.nontrivial = gens.len() > 1;
    out
}
