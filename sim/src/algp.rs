//! C19, C20: several server threads compute on ciphertexts with shared keys, reused transform
//! buffers and outputs that held something else before, against exact arithmetic on plaintexts.
#![allow(deprecated)]
use crate::core::*;
use crate::exec::*;
use crate::gen::tf;
use crate::plan::*;
use crate::queries::{phase, sk_bits};
use crate::rng::Rng;
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
use concrete_core::commons::math::polynomial::{MonomialDegree, Polynomial};
use concrete_core::commons::math::tensor::AsRefTensor;
use panacea::context::{Context, FftBuffer};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::rgsw::{compute_noise_rgsw1, RGSWCiphertext};
use concrete_core::commons::math::tensor::Tensor;
use panacea::rlwe::*;
use panacea_simstd::sync::Mutex;
use std::collections::HashMap;

/// How far from the expected plaintext a ciphertext may be, in standard deviations of the noise
/// that the textbook formulas give.
const WIDE: f64 = 32.0;
/// Operations whose result would be noisier than this are left out.
const MOST: f64 = 1152921504606846976.0; // 2^60

// ---------------------------------------------------------------------------- exact arithmetic

fn mulmod(a: &[u64], b: &[i64]) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (j, &y) in b.iter().enumerate() {
        if y == 0 {
            continue;
        }
        for (i, &x) in a.iter().enumerate() {
            let m = x.wrapping_mul(y as u64);
            let k = i + j;
            if k < n {
                out[k] = out[k].wrapping_add(m);
            } else {
                out[k - n] = out[k - n].wrapping_sub(m);
            }
        }
    }
    out
}
/// X -> X^k
fn automorphism(a: &[u64], k: usize) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        let e = i * k % (2 * n);
        if e < n {
            out[e] = out[e].wrapping_add(x);
        } else {
            out[e - n] = out[e - n].wrapping_sub(x);
        }
    }
    out
}
/// How much larger a product with this polynomial can be. (Not the 2-norm: the errors of earlier
/// results are not independent of the key, and neither is the polynomial where it is the key.)
fn one(p: &[i64]) -> f64 {
    p.iter().map(|x| x.unsigned_abs() as f64).sum()
}
fn largest(e: impl Iterator<Item = (u64, u64)>) -> f64 {
    e.map(|(a, b)| (a.wrapping_sub(b) as i64).unsigned_abs()).max().unwrap_or(0) as f64
}
/// Message polynomials: small coefficients.
fn poly(n: usize, seed: u64) -> Vec<i64> {
    let mut r = Rng::new(seed);
    match r.n(8) {
        6 | 7 => {
            let (k, s) = (r.n(n), 1i64 << r.n(40));
            (0..n).map(|i| if i == k { s } else { 0 }).collect()
        }
        0 => vec![0; n],
        1 | 2 => (0..n).map(|i| (i == 0) as i64).collect(),
        3 => {
            let k = r.n(n);
            let s = if r.pct(50) { 1 } else { -1 };
            (0..n).map(|i| if i == k { s } else { 0 }).collect()
        }
        4 => (0..n).map(|_| r.n(3) as i64 - 1).collect(),
        _ => {
            let (a, b, x) = (r.n(n), r.n(n), r.n(7) as i64 - 3);
            (0..n).map(|i| (i == a) as i64 + if i == b { x } else { 0 }).collect()
        }
    }
}

// ---------------------------------------------------------------------------- noise

struct Formulas {
    n: f64,
    fresh: f64,
    g: (usize, usize),
    k: (usize, usize),
    s: (usize, usize),
}
fn hyp(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
impl Formulas {
    fn new(t: &Tf) -> Formulas {
        Formulas { n: t.n as f64, fresh: 2f64.powf(64.0 + t.std).max(1.0), g: (t.bl, t.l), k: (t.kbl, t.kl), s: (t.nbl, t.nl) }
    }
    fn round(&self, g: (usize, usize)) -> f64 {
        2f64.powi(64 - ((g.0 * g.1).min(64)) as i32) / 3.46 * (1.0 + self.n / 2.0).sqrt()
    }
    fn fft(&self, g: (usize, usize)) -> f64 {
        2f64.powi(11 + g.0 as i32) * (self.n * g.1 as f64).sqrt() * (self.n / 2.0).sqrt() + 4096.0
    }
    fn digits(&self, g: (usize, usize), s: f64) -> f64 {
        (self.n * g.1 as f64).sqrt() * 2f64.powi(g.0 as i32) / 3.46 * s
    }
    /// external product with a ciphertext of `m` whose rows have this noise
    fn ext(&self, g: (usize, usize), m: &[i64], rows: f64, d: f64) -> f64 {
        let m = one(m);
        hyp(&[2f64.sqrt() * self.digits(g, rows), m * d, m * self.round(g), self.fft(g)])
    }
    fn switch(&self, d: f64) -> f64 {
        d + hyp(&[self.digits(self.k, self.fresh), self.round(self.k), self.fft(self.k)])
    }
    fn trace(&self, d: f64) -> f64 {
        self.n * self.switch(d)
    }
    fn plain_product(&self, m: &[i64], d: f64, fourier: bool) -> f64 {
        hyp(&[one(m) * d, if fourier { 4096.0 * self.n * (1.0 + one(m)) } else { 0.0 }])
    }
    fn pack(&self, d: f64) -> f64 {
        d + hyp(&[self.digits(self.k, self.fresh), self.round(self.k)])
    }
    /// expanded gadget ciphertext: noise of its rows
    fn expanded(&self, traced: f64) -> f64 {
        hyp(&[hyp(&[2f64.sqrt() * self.digits(self.s, self.fresh), self.n / 2.0 * (traced + self.round(self.s)), self.fft(self.s)]), traced])
    }
}

// ---------------------------------------------------------------------------- keys and registers

struct Key {
    bits: Vec<u64>,
    lwe: LWESecretKey,
    sk: RLWESecretKey,
    neg: RGSWCiphertext,
    subs: HashMap<usize, RLWEKeyswitchKey>,
    fsubs: HashMap<usize, FourierRLWEKeyswitchKey>,
    odd: Vec<(usize, RLWEKeyswitchKey, FourierRLWEKeyswitchKey)>,
    pack: Option<LWEtoRLWEKeyswitchKey>,
    /// decomposed encryptions of the bits 0 and 1, for `expand` and for `expand_slow`
    dec: Vec<(Vec<RLWECiphertext>, Vec<RLWECiphertext>)>,
}
struct Env {
    t: Tf,
    f: Formulas,
    ctx: Context,
    keys: Vec<Key>,
    /// from key 0 to key 1 and back
    switch: Vec<(RLWEKeyswitchKey, FourierRLWEKeyswitchKey, RGSWCiphertext)>,
    regs: Vec<Reg>,
    gs: Vec<G>,
    lregs: Vec<L>,
    /// encryptions of X^m
    expo: Vec<(usize, usize, Reg)>,
    buffers: Mutex<Vec<FftBuffer>>,
}
#[derive(Clone)]
struct Reg {
    ct: RLWECiphertext,
    ideal: Vec<u64>,
    key: usize,
    sig: f64,
}
#[derive(Clone)]
struct L {
    ct: LWECiphertext,
    ideal: u64,
    key: usize,
    sig: f64,
}
#[derive(Clone)]
struct G {
    ct: RGSWCiphertext,
    m: Vec<i64>,
    key: usize,
    sig: f64,
}

fn list(v: Vec<u64>) -> Pt {
    PlaintextList::from_container(v)
}
fn lwe_words(c: &LWECiphertext) -> Vec<u64> {
    let mut v: Vec<u64> = c.get_mask().as_tensor().iter().cloned().collect();
    v.push(c.get_body().0);
    v
}
fn phases(key: &Key, c: &RLWECiphertext) -> Vec<u64> {
    let w = ct_words(c);
    let n = w.len() / 2;
    phase(&w[..n], &w[n..], &key.bits)
}
fn err(key: &Key, r: &Reg) -> f64 {
    largest(phases(key, &r.ct).into_iter().zip(r.ideal.iter().cloned()))
}
fn lwe_phase(key: &Key, c: &LWECiphertext) -> u64 {
    let w = lwe_words(c);
    let n = w.len() - 1;
    w[..n].iter().zip(&key.bits).fold(w[n], |p, (a, s)| p.wrapping_sub(a.wrapping_mul(*s)))
}
fn lwe_err(key: &Key, r: &L) -> f64 {
    largest(std::iter::once((lwe_phase(key, &r.ct), r.ideal)))
}
/// What a phase is decoded to with modulus t: the nearest value. None half-way between two.
fn nearest(p: u64, t: u64) -> Option<u64> {
    let delta = 1u64 << (64 - t.trailing_zeros());
    let rest = p % delta;
    (rest.abs_diff(delta / 2) > 1).then(|| p.wrapping_add(delta / 2) / delta)
}
/// The same for the encoding of -1, 0, 1 in thirds of the range.
fn nearest_third(p: u64) -> Option<u64> {
    let k = (p as u128 * 6) >> 64;
    let edge = [1u128, 3, 5].iter().any(|e| (p as u128).abs_diff((e << 64) / 6) < 1 << 14);
    (!edge).then_some(match k {
        1 | 2 => 1,
        3 | 4 => u64::MAX,
        _ => 0,
    })
}

impl Env {
    fn new(a: &AlgPlan, t: &Tf) -> Result<Env, V> {
        let t = t.clone();
        let f = Formulas::new(&t);
        let n = t.n;
        let mut ctx = Context::new(t.params());
        let mut r = Rng::new(a.seed);
        let uses = |g: &dyn Fn(&Alg) -> bool| a.progs.iter().any(|x| x.1.iter().any(g));
        let packs = uses(&|o| matches!(o, Alg::Pack(..) | Alg::Expand(3, ..)));
        let slow = uses(&|o| matches!(o, Alg::Trace(0, ..) | Alg::Cmp(_, _, _, 0, _) | Alg::Expand(0, ..)));
        let fast = uses(&|o| matches!(o, Alg::Trace(1, ..) | Alg::Cmp(_, _, _, 1, _) | Alg::Expand(1, ..)));
        let expands = uses(&|o| matches!(o, Alg::Expand(..)));
        let mut keys = vec![];
        for _ in 0..2 {
            let lwe = ctx.gen_lwe_sk();
            let sk = lwe.to_rlwe_sk();
            let bits = sk_bits(&sk, n);
            let neg = sk.neg_gsw(&mut ctx);
            let subs = if slow { gen_all_subs_ksk(&sk, &mut ctx) } else { HashMap::new() };
            let fsubs = if !fast {
                HashMap::new()
            } else if a.convert && slow {
                subs.iter().map(|(k, x)| (*k, x.clone().into_fourier())).collect()
            } else {
                gen_all_subs_ksk_fourier(&sk, &mut ctx)
            };
            let mut odd = vec![];
            for _ in 0..2 {
                let k = 2 * r.n(n) + 1;
                let mut x = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
                let mut before = RLWESecretKey::zero(ctx.poly_size);
                if a.reused {
                    x.fill_with_subs_keyswitch_key(&mut before, &sk, 2 * r.n(n) + 1, ctx.std, &mut ctx.encryption_generator);
                    // and used
                    let y = RLWECiphertext::allocate(ctx.poly_size);
                    x.subs(&mut y.clone(), &y);
                    let mut b = FourierRLWECiphertext::new(n);
                    x.clone().into_fourier().subs(&mut b, &y);
                }
                x.fill_with_subs_keyswitch_key(&mut before, &sk, k, ctx.std, &mut ctx.encryption_generator);
                let fx = x.clone().into_fourier();
                odd.push((k, x, fx));
            }
            let pack = packs.then(|| {
                let mut x = LWEtoRLWEKeyswitchKey::allocate(&ctx);
                if a.reused {
                    let old = ctx.gen_lwe_sk();
                    x.fill_with_keyswitching_key(&old, &mut ctx);
                    let _ = conv_lwe_to_rlwe(&x, &LWECiphertext::allocate(ctx.lwe_size()), &ctx);
                }
                x.fill_with_keyswitching_key(&lwe, &mut ctx);
                x
            });
            let dec = if expands {
                (0..2u64).map(|b| (make_decomposed_rlwe_ct(&sk, b, &mut ctx), make_decomposed_rlwe_ct2(&sk, b, &mut ctx))).collect()
            } else {
                vec![]
            };
            keys.push(Key { bits, lwe, sk, neg, subs, fsubs, odd, pack, dec });
        }
        let mut switch = vec![];
        for k in 0..2 {
            let mut x = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
            if a.reused {
                x.fill_with_keyswitch_key(&keys[1 - k].sk, &keys[k].sk, ctx.std, &mut ctx.encryption_generator);
                let y = RLWECiphertext::allocate(ctx.poly_size);
                x.keyswitch_ciphertext(&mut y.clone(), &y);
            }
            x.fill_with_keyswitch_key(&keys[k].sk, &keys[1 - k].sk, ctx.std, &mut ctx.encryption_generator);
            let fx = x.clone().into_fourier();
            let g = RGSWCiphertext::from_keyswitch_key(&x);
            switch.push((x, fx, g));
        }
        let delta = 1u64 << (64 - t.t.trailing_zeros());
        // what the client encrypts, and whether it gets it back
        let mut regs = vec![];
        for k in 0..6usize {
            let key = if k == 5 { 1 } else { r.n(2) };
            let sk = &keys[key].sk;
            let mut ct = RLWECiphertext::allocate(ctx.poly_size);
            let mut back = ctx.gen_zero_pt();
            if a.reused {
                let old = data_pt(n, t.t, r.u64());
                let k = &keys[r.n(2)].sk;
                k.encode_encrypt_rlwe(&mut ct, &old, &mut ctx);
                k.decrypt_decode_rlwe(&mut back, &ct, &ctx);
            }
            let ideal = match k {
                0 | 1 | 5 => {
                    let pt = data_pt(n, t.t, r.u64());
                    sk.encode_encrypt_rlwe(&mut ct, &pt, &mut ctx);
                    sk.decrypt_decode_rlwe(&mut back, &ct, &ctx);
                    if coeffs(&back) != coeffs(&pt) {
                        return v("round-trip", format!("{:?} is decrypted as {:?}", coeffs(&pt), coeffs(&back)));
                    }
                    coeffs(&pt).iter().map(|x| x.wrapping_mul(delta)).collect()
                }
                2 => {
                    let m: Vec<u64> = (0..n).map(|_| (r.n(3) as i64 - 1) as u64).collect();
                    let pt = list(m.clone());
                    sk.ternary_encrypt_rlwe(&mut ct, &pt, &mut ctx);
                    sk.ternary_decrypt_rlwe(&mut back, &ct);
                    if coeffs(&back) != m {
                        return v("ternary-round-trip", format!("{m:?} is decrypted as {:?}", coeffs(&back)));
                    }
                    let third = u64::MAX / 3;
                    let ideal: Vec<u64> = m.iter().map(|x| third.wrapping_mul(*x)).collect();
                    // the encoding is a third of the range, up to rounding
                    let e = err(&keys[key], &Reg { ct: ct.clone(), ideal: ideal.clone(), key, sig: f.fresh });
                    let told = compute_noise_ternary(sk, &ct, &pt);
                    if (told - e.log2()).abs() > 0.5 && told.max(e.log2()) > 14.0 {
                        return v("noise-ternary", format!("a fresh encryption of {m:?} has noise 2^{:.2}, compute_noise_ternary says 2^{told:.2}", e.log2()));
                    }
                    ideal
                }
                3 => {
                    let x = r.u64();
                    sk.encrypt_constant_rlwe(&mut ct, &Plaintext(x), &mut ctx);
                    (0..n).map(|i| if i == 0 { x } else { 0 }).collect()
                }
                _ => {
                    let m: Vec<u64> = (0..n).map(|_| r.u64()).collect();
                    sk.encrypt_rlwe(&mut ct, &list(m.clone()), ctx.std, &mut ctx.encryption_generator);
                    m
                }
            };
            // (the ternary encoding is exact to a few thousand)
            regs.push(Reg { ct, ideal, key, sig: f.fresh + 400.0 });
        }
        let mut gs = vec![];
        let g_key = r.n(2);
        for k in 0..4usize {
            let key = if k < 2 { k } else { r.n(2) };
            let sk = &keys[key].sk;
            let (bl, l) = (ctx.base_log, ctx.level_count);
            let mut ct = RGSWCiphertext::allocate(ctx.poly_size, bl, l);
            if a.reused {
                keys[1 - key].sk.encrypt_constant_rgsw(&mut ct, &Plaintext(3), &mut ctx);
                let y = RLWECiphertext::allocate(ctx.poly_size);
                ct.external_product(&mut y.clone(), &y);
            }
            let m = match k {
                0 | 1 => {
                    let b = r.n(2);
                    sk.encrypt_constant_rgsw(&mut ct, &Plaintext(b as u64), &mut ctx);
                    if b == 1 {
                        let told = compute_noise_rgsw1(sk, &ct, &ctx);
                        let mut sum = 0.0;
                        for level in 0..t.l {
                            let shift = 64 - t.bl * (level + 1);
                            let ideal = (0..n).map(|i| if i == 0 { 1u64 << shift } else { 0 }).collect();
                            sum += err(&keys[key], &Reg { ct: ct.get_nth_row(2 * level + 1), ideal, key, sig: f.fresh }).log2();
                        }
                        if (told - sum / t.l as f64).abs() > 0.01 {
                            return v("noise-rgsw", format!("the rows have noise 2^{:.2} on average, compute_noise_rgsw1 says 2^{told:.2}", sum / t.l as f64));
                        }
                    }
                    (0..n).map(|i| if i == 0 { b as i64 } else { 0 }).collect::<Vec<i64>>()
                }
                2 => {
                    let x = r.n(9) as i64 - 4;
                    let mut v = sk.encrypt_constant_rgsw_vec(&[Plaintext(1), Plaintext(x as u64)], &mut ctx);
                    ct = v.pop().unwrap();
                    (0..n).map(|i| if i == 0 { x } else { 0 }).collect()
                }
                _ => {
                    let m = poly(n, r.u64());
                    sk.encrypt_rgsw(&mut ct, &list(m.iter().map(|x| *x as u64).collect()), &mut ctx);
                    m
                }
            };
            gs.push(G { ct, m, key, sig: f.fresh });
        }
        // (the gadget of the encrypted keys is another one)
        gs.push(G { ct: keys[g_key].neg.clone(), m: keys[g_key].bits.iter().map(|b| -(*b as i64)).collect(), key: g_key, sig: f.fresh });
        let mut lregs = vec![];
        for k in 0..3usize {
            let key = r.n(2);
            let lwe = &keys[key].lwe;
            let mut ct = LWECiphertext::allocate(ctx.lwe_size());
            if a.reused {
                keys[1 - key].lwe.encode_encrypt_lwe(&mut ct, &Plaintext(t.t - 1), &mut ctx);
            }
            let ideal = if k < 2 {
                let m = Plaintext(r.u64() % t.t);
                lwe.encode_encrypt_lwe(&mut ct, &m, &mut ctx);
                let mut back = Plaintext(77);
                lwe.decode_decrypt_lwe(&mut back, &ct, &ctx);
                if back.0 != m.0 {
                    return v("lwe-round-trip", format!("{} is decrypted as {}", m.0, back.0));
                }
                m.0.wrapping_mul(delta)
            } else {
                let x = r.u64();
                lwe.encrypt_lwe(&mut ct, &Plaintext(x), ctx.std, &mut ctx.encryption_generator);
                x
            };
            lregs.push(L { ct, ideal, key, sig: f.fresh });
        }
        let mut expo = vec![];
        for _ in 0..3 {
            let (m, key) = (*r.pick(&[0, 1, n - 1, r.0 as usize % n]), r.n(2));
            // a power of two that leaves room for the factor n of a trace
            let scale = 1u64 << (63 - log2(n));
            let ideal: Vec<u64> = (0..n).map(|i| if i == m { scale } else { 0 }).collect();
            let mut ct = RLWECiphertext::allocate(ctx.poly_size);
            keys[key].sk.encrypt_rlwe(&mut ct, &list(ideal.clone()), ctx.std, &mut ctx.encryption_generator);
            expo.push((m, key, Reg { ct, ideal, key, sig: f.fresh }));
        }
        let e = Env { t, f, ctx, keys, switch, regs, gs, lregs, expo, buffers: Mutex::new(vec![]) };
        for r in &e.regs {
            e.check("encrypt", r, &mut 0.0)?;
        }
        for (_, _, r) in &e.expo {
            e.check("encrypt", r, &mut 0.0)?;
        }
        for g in &e.gs {
            e.check_g("encrypt-gadget", g, &mut 0.0)?;
        }
        for l in &e.lregs {
            e.check_l("encrypt-lwe", l, &mut 0.0)?;
        }
        Ok(e)
    }

    fn check(&self, what: &str, r: &Reg, worst: &mut f64) -> Result<(), V> {
        let e = err(&self.keys[r.key], r);
        *worst = worst.max(e / r.sig);
        if e > WIDE * r.sig {
            let w = ct_words(&r.ct);
            let n = r.ideal.len();
            let p = phase(&w[..n], &w[n..], &self.keys[r.key].bits);
            let k = (0..n).max_by_key(|k| (p[*k].wrapping_sub(r.ideal[*k]) as i64).unsigned_abs()).unwrap();
            return v(what, format!("coefficient {k} of the result decrypts to {:#x}, it should be {:#x}: 2^{:.1} away, noise should be about 2^{:.1}", p[k], r.ideal[k], e.log2(), r.sig.log2()));
        }
        Ok(())
    }
    fn check_l(&self, what: &str, r: &L, worst: &mut f64) -> Result<(), V> {
        let e = lwe_err(&self.keys[r.key], r);
        *worst = worst.max(e / r.sig);
        if e > WIDE * r.sig {
            return v(what, format!("the result should decrypt to {:#x}: it is 2^{:.1} away, noise should be about 2^{:.1}", r.ideal, e.log2(), r.sig.log2()));
        }
        Ok(())
    }
    fn check_g(&self, what: &str, g: &G, worst: &mut f64) -> Result<(), V> {
        let (bl, l) = (g.ct.decomposition_base_log().0, g.ct.decomposition_level_count().0);
        let key = &self.keys[g.key];
        let negs: Vec<i64> = key.bits.iter().map(|b| -(*b as i64)).collect();
        if g.ct.ciphertext_count().0 != 2 * l {
            return v(what, format!("{} rows for {l} levels", g.ct.ciphertext_count().0));
        }
        if ct_words(&g.ct.get_last_row()) != ct_words(&g.ct.get_nth_row(2 * l - 1)) {
            return v(what, "the last row is not the last one");
        }
        for row in 0..2 * l {
            let shift = 64 - bl * (row / 2 + 1);
            let m: Vec<u64> = g.m.iter().map(|x| (*x as u64) << shift).collect();
            let ideal = if row % 2 == 1 { m } else { mulmod(&m, &negs) };
            self.check(what, &Reg { ct: g.ct.get_nth_row(row), ideal, key: g.key, sig: g.sig }, worst)?;
        }
        Ok(())
    }
    fn with_buffer<R>(&self, shared: bool, own: &mut Option<FftBuffer>, f: impl FnOnce(&mut FftBuffer) -> R) -> R {
        if shared {
            // buffers go from thread to thread
            let b = self.buffers.lock().unwrap().pop();
            let mut b = b.unwrap_or_else(|| self.ctx.gen_fft_ctx());
            let r = f(&mut b);
            self.buffers.lock().unwrap().push(b);
            r
        } else {
            f(own.get_or_insert_with(|| FftBuffer::new(self.ctx.poly_size)))
        }
    }
}

struct Done {
    /// the ciphertexts after each operation
    words: Vec<Vec<u64>>,
    worst: f64,
    kinds: HashMap<&'static str, u64>,
    left_out: u64,
}

/// Run a program. With `alone` every operation gets new buffers and clean outputs.
fn program(e: &Env, ops: &[Alg], alone: bool) -> Result<Done, V> {
    let (f, t, n) = (&e.f, &e.t, e.t.n);
    let mut regs = e.regs.clone();
    let mut gs = e.gs.clone();
    let mut ls = e.lregs.clone();
    let mut own: Option<FftBuffer> = None;
    let mut d = Done { words: vec![], worst: 0.0, kinds: HashMap::new(), left_out: 0 };
    // the first register from `i` on that is encrypted with this key
    let of_key = |v: &[Reg], i: usize, key: usize| (0..v.len()).map(|k| (i + k) % v.len()).find(|k| v[*k].key == key);
    let clean = |c: &RLWECiphertext| if alone { RLWECiphertext::allocate(c.polynomial_size()) } else { c.clone() };
    for (at, op) in ops.iter().enumerate() {
        if alone {
            own = None;
        }
        let nr = regs.len();
        let mut done: Option<(&'static str, usize)> = None;
        let mut done_l: Option<(&'static str, usize)> = None;
        let fits = |s: f64| s * WIDE < MOST;
        match *op {
            Alg::Add(i, j, sub) => {
                let i = i % nr;
                let Some(j) = of_key(&regs, j, regs[i].key) else { continue };
                let o = regs[j].clone();
                if !fits(regs[i].sig + o.sig) {
                    d.left_out += 1;
                    continue;
                }
                let r = &mut regs[i];
                if sub {
                    r.ct.update_with_sub(&o.ct);
                } else {
                    r.ct.update_with_add(&o.ct);
                }
                for (x, y) in r.ideal.iter_mut().zip(&o.ideal) {
                    *x = if sub { x.wrapping_sub(*y) } else { x.wrapping_add(*y) };
                }
                r.sig += o.sig;
                done = Some((if sub { "subtract" } else { "add" }, i));
            }
            Alg::Div(i, m) => {
                let (i, m) = (i % nr, m % n);
                regs[i].ct.update_with_monomial_div(MonomialDegree(m));
                // 1/X^m = -X^(n-m)
                let p: Vec<i64> = (0..n).map(|k| if m == 0 { (k == 0) as i64 } else { -((k == n - m) as i64) }).collect();
                regs[i].ideal = mulmod(&regs[i].ideal, &p);
                done = Some(("monomial", i));
            }
            Alg::Mul(i, seed, fourier) => {
                let i = i % nr;
                let p = poly(n, seed);
                let s = f.plain_product(&p, regs[i].sig, fourier);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let mut words: Vec<u64> = p.iter().map(|x| *x as u64).collect();
                let r = &mut regs[i];
                if fourier {
                    let p = Polynomial::from_container(words.as_slice());
                    r.ct.update_mask_with_mul_with_buf(&p);
                    r.ct.update_body_with_mul_with_buf(&p);
                } else {
                    let p = Polynomial::from_container(words.as_mut_slice());
                    r.ct.update_mask_with_mul(&p);
                    r.ct.update_body_with_mul(&p);
                }
                r.ideal = mulmod(&r.ideal, &p);
                r.sig = s;
                done = Some((if fourier { "plain-product-fourier" } else { "plain-product" }, i));
            }
            Alg::Not(i, in_place) => {
                let i = i % nr;
                let r = &mut regs[i];
                if in_place {
                    r.ct.not_in_place();
                } else {
                    r.ct = r.ct.not();
                }
                for x in r.ideal.iter_mut() {
                    *x = x.wrapping_neg();
                }
                r.ideal[0] = r.ideal[0].wrapping_add(1 << 63);
                done = Some(("not", i));
            }
            Alg::Ext(g, i, j, how) => {
                let g = &gs[g % gs.len()];
                let Some(i) = of_key(&regs, i, g.key) else { continue };
                let j = j % nr;
                let s = f.ext((g.ct.decomposition_base_log().0, g.ct.decomposition_level_count().0), &g.m, g.sig, regs[i].sig);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let a = regs[i].clone();
                let mut out = clean(&regs[j].ct);
                out.clear();
                if how == 0 {
                    g.ct.external_product(&mut out, &a.ct);
                } else {
                    e.with_buffer(how == 2 && !alone, &mut own, |b| g.ct.external_product_with_buf(&mut out, &a.ct, b));
                }
                regs[j] = Reg { ct: out, ideal: mulmod(&a.ideal, &g.m), key: g.key, sig: s };
                done = Some(("external-product", j));
            }
            Alg::Cmux(g, i, k, j, how) => {
                let g = &gs[g % gs.len()];
                let Some(i) = of_key(&regs, i, g.key) else { continue };
                let Some(k) = of_key(&regs, k, g.key) else { continue };
                let j = j % nr;
                let (a, b) = (regs[i].clone(), regs[k].clone());
                let s = a.sig + f.ext((g.ct.decomposition_base_log().0, g.ct.decomposition_level_count().0), &g.m, g.sig, a.sig + b.sig);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let mut out = clean(&regs[j].ct);
                if how == 0 {
                    g.ct.cmux(&mut out, &a.ct, &b.ct);
                } else {
                    e.with_buffer(how == 2 && !alone, &mut own, |x| g.ct.cmux_with_buf(&mut out, &a.ct, &b.ct, x));
                }
                let diff: Vec<u64> = b.ideal.iter().zip(&a.ideal).map(|(x, y)| x.wrapping_sub(*y)).collect();
                let ideal = mulmod(&diff, &g.m).iter().zip(&a.ideal).map(|(x, y)| x.wrapping_add(*y)).collect();
                regs[j] = Reg { ct: out, ideal, key: g.key, sig: s };
                done = Some(("select", j));
            }
            Alg::Switch(form, i, j) => {
                let (i, j) = (i % nr, j % nr);
                let a = regs[i].clone();
                let s = f.switch(a.sig) + f.round(f.k);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let (x, fx, gx) = &e.switch[a.key];
                let mut out = clean(&regs[j].ct);
                match form {
                    0 => x.keyswitch_ciphertext(&mut out, &a.ct),
                    1 => {
                        let mut b = FourierRLWECiphertext::new(n);
                        if !alone {
                            // with something else in it
                            fx.keyswitch_ciphertext(&mut b, &out);
                        }
                        fx.keyswitch_ciphertext(&mut b, &a.ct);
                        out = b.backward_as_torus();
                    }
                    2 => {
                        out.clear();
                        gx.keyswitch_ciphertext(&mut out, &a.ct);
                    }
                    _ => {
                        out.clear();
                        e.with_buffer(!alone, &mut own, |b| gx.keyswitch_ciphertext_with_buf(&mut out, &a.ct, b));
                    }
                }
                regs[j] = Reg { ct: out, ideal: a.ideal, key: 1 - a.key, sig: s };
                done = Some((["key-switch", "key-switch-fourier", "key-switch-gadget", "key-switch-gadget"][form.min(3) as usize], j));
            }
            Alg::Subs(form, which, i, j) => {
                let (i, j) = (i % nr, j % nr);
                let a = regs[i].clone();
                let s = f.switch(a.sig);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let (k, x, fx) = &e.keys[a.key].odd[which % 2];
                let mut out = clean(&regs[j].ct);
                if form == 0 {
                    x.subs(&mut out, &a.ct);
                } else {
                    let mut b = FourierRLWECiphertext::new(n);
                    fx.subs(&mut b, &a.ct);
                    out = b.backward_as_torus();
                }
                regs[j] = Reg { ct: out, ideal: automorphism(&a.ideal, *k), key: a.key, sig: s };
                done = Some((if form == 0 { "automorphism" } else { "automorphism-fourier" }, j));
            }
            Alg::Trace(form, i, j) => {
                let (i, j) = (i % nr, j % nr);
                let a = regs[i].clone();
                let s = f.trace(a.sig);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let mut out = clean(&regs[j].ct);
                if form == 0 {
                    out = a.ct.trace1(&e.keys[a.key].subs);
                } else {
                    a.ct.trace1_fourier(&mut out, &e.keys[a.key].fsubs);
                }
                let ideal = (0..n).map(|k| if k == 0 { a.ideal[0].wrapping_mul(n as u64) } else { 0 }).collect();
                regs[j] = Reg { ct: out, ideal, key: a.key, sig: s };
                done = Some((if form == 0 { "trace" } else { "trace-fourier" }, j));
            }
            Alg::Cmp(x, v, eq, form, j) => {
                let (m, key, a) = &e.expo[x % e.expo.len()];
                let j = j % nr;
                let v = match v % 4 {
                    0 => *m,
                    1 => (m + 1) % n,
                    2 => m.saturating_sub(1),
                    _ => v % n,
                };
                let mut c = a.ct.clone();
                if eq {
                    c.eq_to(v);
                } else {
                    c.less_eq_than(v);
                }
                let yes = if eq { *m == v } else { *m <= v };
                let many = vec![1i64; if eq { 1 } else { v + 1 }];
                let s = f.trace(f.plain_product(&many, a.sig, true));
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let mut out = clean(&regs[j].ct);
                if form == 0 {
                    out = c.trace1(&e.keys[*key].subs);
                } else {
                    c.trace1_fourier(&mut out, &e.keys[*key].fsubs);
                }
                let ideal = (0..n).map(|k| if k == 0 && yes { a.ideal[*m].wrapping_mul(n as u64) } else { 0 }).collect();
                regs[j] = Reg { ct: out, ideal, key: *key, sig: s };
                done = Some((if eq { "compare-equal" } else { "compare" }, j));
            }
            Alg::Expand(form, key, bit, j) => {
                let key = key % 2;
                let k = &e.keys[key];
                let (fast, slow) = &k.dec[bit % 2];
                let traced = if form == 3 { f.pack(f.fresh) } else { f.trace(f.fresh) };
                let s = f.expanded(traced);
                // (the smallest gadget row must stand out)
                if !fits(s) || s * WIDE > 2f64.powi(64 - (t.bl * t.l) as i32 + 20).max(2f64.powi(58)) {
                    d.left_out += 1;
                    continue;
                }
                let ct = match form {
                    0 => expand(fast, &k.subs, &k.neg, &e.ctx),
                    1 => expand_fourier(fast, &k.fsubs, &k.neg, &e.ctx),
                    2 => {
                        // gadget rows that are encrypted as they are
                        let mut rows = vec![];
                        for level in 0..t.l {
                            rows.push(e.gs[key].ct.get_nth_row(2 * level + 1));
                        }
                        e.with_buffer(!alone, &mut own, |b| decomposed_rlwe_to_rgsw(&rows, &k.neg, &e.ctx, b))
                    }
                    _ => expand_slow(slow, k.pack.as_ref().unwrap(), &k.neg, &e.ctx),
                };
                let m = if form == 2 { e.gs[key].m.clone() } else { (0..n).map(|i| if i == 0 { (bit % 2) as i64 } else { 0 }).collect() };
                let g = G { ct, m, key, sig: s };
                let name = ["expand", "expand-fourier", "gadget-from-rows", "expand-slow"][form.min(3) as usize];
                e.check_g(name, &g, &mut d.worst).map_err(|(c, x)| (c, format!("operation {at} ({op:?}): {x}")))?;
                d.words.push((0..2 * t.l).flat_map(|r| ct_words(&g.ct.get_nth_row(r))).collect());
                *d.kinds.entry(name).or_insert(0) += 1;
                let j = j % gs.len();
                gs[j] = g;
            }
            Alg::AddG(i, j) => {
                let i = i % gs.len();
                let j = j % gs.len();
                let same = gs[i].key == gs[j].key
                    && gs[i].ct.decomposition_base_log() == gs[j].ct.decomposition_base_log()
                    && gs[i].ct.decomposition_level_count() == gs[j].ct.decomposition_level_count();
                if !same || i == j {
                    continue;
                }
                let o = gs[j].clone();
                let g = &mut gs[i];
                g.ct.update_with_add(&o.ct);
                for (x, y) in g.m.iter_mut().zip(&o.m) {
                    *x += y;
                }
                g.sig += o.sig;
                e.check_g("add-gadget", &gs[i], &mut d.worst).map_err(|(c, x)| (c, format!("operation {at} ({op:?}): {x}")))?;
                *d.kinds.entry("add-gadget").or_insert(0) += 1;
            }
            Alg::Extract(pos, i, j) => {
                let (pos, i, j) = (pos % n, i % nr, j % ls.len());
                let a = &regs[i];
                let mut ct = if alone { LWECiphertext::allocate(e.ctx.lwe_size()) } else { ls[j].ct.clone() };
                if pos == 0 && i % 2 == 0 {
                    ct.fill_with_const_sample_extract(&a.ct);
                } else {
                    ct.fill_with_sample_extract(&a.ct, MonomialDegree(pos));
                }
                ls[j] = L { ct, ideal: a.ideal[pos], key: a.key, sig: a.sig };
                done_l = Some(("extract", j));
            }
            Alg::Pack(i, j) => {
                let (i, j) = (i % ls.len(), j % nr);
                let a = &ls[i];
                let s = f.pack(a.sig);
                if !fits(s) {
                    d.left_out += 1;
                    continue;
                }
                let ct = conv_lwe_to_rlwe(e.keys[a.key].pack.as_ref().unwrap(), &a.ct, &e.ctx);
                let ideal = (0..n).map(|k| if k == 0 { a.ideal } else { 0 }).collect();
                regs[j] = Reg { ct, ideal, key: a.key, sig: s };
                done = Some(("pack", j));
            }
            Alg::Copy(form, i, j) => {
                if form % 4 < 2 {
                    let (i, j) = (i % nr, j % nr);
                    let a = regs[i].clone();
                    let mut ct = clean(&regs[j].ct);
                    if form % 4 == 0 {
                        ct.fill_with_copy(&a.ct);
                    } else {
                        ct.fill_with_tensor(&Tensor::from_container(ct_words(&a.ct)));
                    }
                    regs[j] = Reg { ct, ..a };
                    done = Some(("copy", j));
                } else {
                    let (i, j) = (i % ls.len(), j % ls.len());
                    let a = ls[i].clone();
                    let mut ct = if alone { LWECiphertext::allocate(e.ctx.lwe_size()) } else { ls[j].ct.clone() };
                    if form % 4 == 2 {
                        ct.fill_with_tensor(a.ct.as_tensor());
                        ls[j] = L { ct, ..a };
                    } else {
                        ct.clear();
                        // (encrypts nothing, without noise, under any key)
                        ls[j] = L { ct, ideal: 0, key: i % 2, sig: 1.0 };
                    }
                    done_l = Some(("copy", j));
                }
            }
        }
        let place = |(c, x): V| -> V { (c, format!("operation {at} ({op:?}): {x}")) };
        if let Some((name, j)) = done {
            let r = &regs[j];
            *d.kinds.entry(name).or_insert(0) += 1;
            d.words.push(ct_words(&r.ct));
            e.check(name, r, &mut d.worst).map_err(place)?;
            // what the key holder makes of it
            let key = &e.keys[r.key];
            let real = err(key, r);
            let told = compute_noise(&key.sk, &r.ct, &list(r.ideal.clone()));
            if real > 0.0 && (told - real.log2()).abs() > 0.01 {
                return v("noise", format!("operation {at} ({op:?}): the result has noise 2^{:.2}, compute_noise says 2^{told:.2}", real.log2())).map_err(place);
            }
            let delta = 1u64 << (64 - t.t.trailing_zeros());
            // (a plaintext that held something else)
            let mut back = list(vec![0x55; n]);
            key.sk.decrypt_decode_rlwe(&mut back, &r.ct, &e.ctx);
            let p = phases(key, &r.ct);
            for (got, p) in coeffs(&back).iter().zip(&p) {
                if nearest(*p, t.t).is_some_and(|w| w != *got) {
                    return v("decode", format!("operation {at} ({op:?}): the value {p:#x} is decoded as {got}, in steps of 2^{} and counting modulo {}", delta.trailing_zeros(), t.t));
                }
            }
            key.sk.ternary_decrypt_rlwe(&mut back, &r.ct);
            for (got, p) in coeffs(&back).iter().zip(&p) {
                if nearest_third(*p).is_some_and(|w| w != *got) {
                    return v("ternary-decode", format!("operation {at} ({op:?}): the value {p:#x} is decoded as {got:#x} of -1, 0, 1"));
                }
            }
            if r.ideal.iter().all(|x| x % delta == 0) && real < e.ctx.codec.largest_error() as f64 * 0.98 {
                let want: Vec<u64> = r.ideal.iter().map(|x| x / delta).collect();
                key.sk.decrypt_decode_rlwe(&mut back, &r.ct, &e.ctx);
                if coeffs(&back) != want {
                    return v("decode", format!("operation {at} ({op:?}): the result encrypts {want:?} with noise 2^{:.1}, less than the largest error allowed, and is decrypted as {:?}", real.log2(), coeffs(&back)));
                }
                let told = compute_noise_encoded(&key.sk, &r.ct, &list(want), &e.ctx.codec);
                if real > 0.0 && (told - real.log2()).abs() > 0.01 {
                    return v("noise-encoded", format!("operation {at} ({op:?}): the result has noise 2^{:.2}, compute_noise_encoded says 2^{told:.2}", real.log2()));
                }
            }
        }
        if let Some((name, j)) = done_l {
            let l = &ls[j];
            *d.kinds.entry(name).or_insert(0) += 1;
            d.words.push(lwe_words(&l.ct));
            e.check_l(name, l, &mut d.worst).map_err(place)?;
            let mut back = Plaintext(77);
            let p = lwe_phase(&e.keys[l.key], &l.ct);
            e.keys[l.key].lwe.decode_decrypt_lwe(&mut back, &l.ct, &e.ctx);
            if nearest(p, t.t).is_some_and(|w| w != back.0) {
                return v("lwe-decode", format!("operation {at} ({op:?}): the value {p:#x} is decoded as {}, modulo {}", back.0, t.t));
            }
        }
        panacea_simstd::thread::yield_now();
    }
    Ok(d)
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let a = p.body.alg.clone().unwrap();
    let r = sim(&p.sch, false, world(p), || -> Result<(f64, u64, u64, HashMap<&'static str, u64>), V> {
        let a = &a;
        let ts: Vec<&Tf> = std::iter::once(&p.tfhe).chain(&a.other).collect();
        let envs: Vec<Env> = if ts.len() == 1 {
            vec![Env::new(a, ts[0])?]
        } else {
            let all: Vec<_> = panacea_simstd::thread::scope(|sc| {
                let hs: Vec<_> = ts.iter().map(|t| sc.spawn(move || Env::new(a, t))).collect();
                hs.into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(x) => std::panic::resume_unwind(x),
                    })
                    .collect()
            });
            all.into_iter().collect::<Result<_, V>>()?
        };
        let envs = &envs;
        let env = |k: usize| &envs[k % envs.len()];
        let all: Vec<Result<Done, V>> = panacea_simstd::thread::scope(|sc| {
            let hs: Vec<_> = a.progs.iter().enumerate().map(|(k, (site, ops))| sc.spawn(move || at(*site, || program(env(k), ops, false)))).collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(x) => std::panic::resume_unwind(x),
                })
                .collect()
        });
        let (mut worst, mut n, mut left, mut kinds) = (0f64, 0, 0, HashMap::new());
        for (k, (r, (_, ops))) in all.into_iter().zip(&a.progs).enumerate() {
            let d = r.map_err(|(c, x)| (c, format!("thread {k}, {x}")))?;
            worst = worst.max(d.worst);
            n += d.words.len() as u64;
            left += d.left_out;
            for (x, y) in &d.kinds {
                *kinds.entry(*x).or_insert(0) += y;
            }
            // the same, alone and with new buffers and outputs
            let s = program(env(k), ops, true).map_err(|(c, x)| (c, format!("thread {k} alone, {x}")))?;
            if let Some(at) = (0..d.words.len()).find(|i| s.words.get(*i) != d.words.get(*i)) {
                return v("history-dependent", format!("thread {k}: result {at} of the {} differs from what the same operations on the same inputs give alone, with new buffers and outputs", d.words.len()));
            }
        }
        Ok((worst, n, left, kinds))
    });
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok(Err(x)) => out.violation = Some(x),
        Ok(Ok((worst, n, left, kinds))) => {
            out.checks = n;
            out.count("operations-left-out (too noisy)", left);
            for (k, x) in kinds {
                out.count(&format!("operation.{k}"), x);
            }
            out.gauge("largest-error-in-expected-deviations", worst);
        }
    }
    out.nontrivial = out.checks > 1;
    out
}

fn log2(n: usize) -> usize {
    n.trailing_zeros() as usize
}

fn tfhe(r: &mut Rng, n: usize) -> Tf {
    let gadget = |r: &mut Rng, most: usize| {
        let bl = if r.one_in(6) { r.r(1, 22) } else { r.r(3, 14) };
        (bl, r.r(1, (most / bl).max(1).min(12)))
    };
    let room = 60 - log2(n);
    let (bl, l) = gadget(r, room.min(50));
    let (kbl, kl) = if r.one_in(3) { gadget(r, 55) } else { (*r.pick(&[4, 5, 6, 8]), 6 + r.n(3)) };
    let (nbl, nl) = if r.one_in(3) { gadget(r, 55) } else { (*r.pick(&[4, 5, 7]), 7 + r.n(2)) };
    let t = 1u64 << *r.pick(&[1, 1, 2, 3, 5, 8, 12, 16, 20, 30]);
    let mut x = tf(n, bl, l, nbl, nl, t, r.pct(75));
    x.kbl = kbl;
    x.kl = kl;
    x.std = -(r.r(44, 60) as f64);
    x
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let scalar = p.prop == "C20";
    let size = |r: &mut Rng| {
        if scalar {
            *r.pick(&[16, 16, 32, 32, 64])
        } else {
            *r.pick(&[16, 16, 32, 32, 64, 64, 128, 256])
        }
    };
    let n = match scalar {
        true if r.one_in(40) => *r.pick(&[128, 128, 256]),
        false if r.one_in(60) => *r.pick(&[512, 1024, 2048]),
        _ => size(r),
    };
    p.tfhe = tfhe(r, n);
    let big = n > if scalar { 64 } else { 256 };
    // a second client with other parameters, often alike
    let other = (!big && r.one_in(3)).then(|| {
        let m = size(r);
        let m = if r.pct(40) { n } else { m };
        let mut x = tfhe(r, m);
        if r.pct(40) {
            (x.bl, x.l, x.kbl, x.kl, x.nbl, x.nl) = (p.tfhe.bl, p.tfhe.l, p.tfhe.kbl, p.tfhe.kl, p.tfhe.nbl, p.tfhe.nl);
        }
        x
    });
    let threads = if big { 2 } else { *r.pick(if other.is_some() { &[2, 2, 3, 4, 4] } else { &[1, 2, 2, 3, 4] }) };
    let progs = (0..threads)
        .map(|_| {
            let k = if big { r.r(1, 3) } else { r.r(3, 14) };
            // half of the operations continue with the last result
            let (mut last, mut last_l) = (r.n(60), r.n(60));
            let ops = (0..k)
                .map(|_| {
                    let (a, b, c) = (r.n(60), r.n(60), r.n(60));
                    let f2 = r.n(2) as u8;
                    let src = if r.pct(50) { last } else { r.n(60) };
                    let to = r.n(60);
                    if scalar && r.n(10) < 7 {
                        match r.n(9) {
                            0..=2 => {
                                last_l = to;
                                Alg::Extract(*r.pick(&[0, 1, n - 1, r.0 as usize % n]), src, to)
                            }
                            3..=5 => {
                                last = to;
                                Alg::Pack(if r.pct(60) { last_l } else { a }, to)
                            }
                            6 => Alg::Expand(3, a, b, c),
                            7 => Alg::Copy(2 + (r.one_in(4) as u8), last_l, to),
                            _ => Alg::Add(src, b, r.pct(50)),
                        }
                    } else {
                        let op = match r.n(29) {
                            0 | 1 => Alg::Add(src, b, false),
                            2 | 3 => Alg::Add(src, b, true),
                            4 | 5 => Alg::Div(src, *r.pick(&[0, 1, n - 1, b % n, b * 31 % n])),
                            6 | 7 => Alg::Mul(src, r.u64(), r.pct(50)),
                            8 => Alg::Not(src, r.pct(50)),
                            9 | 10 => Alg::Ext(a, src, to, r.n(3) as u8),
                            11..=13 => Alg::Cmux(a, src, b, to, r.n(3) as u8),
                            14..=16 => Alg::Switch(r.n(4) as u8, src, to),
                            17 | 18 => Alg::Subs(f2, a, src, to),
                            19..=21 => Alg::Trace(f2, src, to),
                            22 | 23 => Alg::Cmp(a, r.n(4 * n), r.one_in(3), f2, to),
                            24..=26 => Alg::Expand(r.n(3) as u8, a, b, c),
                            27 => Alg::Copy(f2 + 2 * (r.one_in(3) as u8), src, to),
                            _ => Alg::AddG(a, b),
                        };
                        last = match op {
                            Alg::Add(..) | Alg::Div(..) | Alg::Mul(..) | Alg::Not(..) => src,
                            Alg::Expand(..) | Alg::AddG(..) => last,
                            _ => to,
                        };
                        op
                    }
                })
                .collect();
            (Site::gen(r), ops)
        })
        .collect();
    p.body.alg = Some(AlgPlan { seed: r.u64(), convert: r.pct(50), reused: r.pct(50), other, progs });
    crate::gen::gen_env(r, p);
}

// ---------------------------------------------------------------------------- C22: hash tables

pub fn gen_tables(r: &mut Rng, p: &mut Plan) {
    let k = r.r(1, 6);
    let tables = (0..k)
        .map(|_| {
            let h = if r.one_in(8) { r.r(5, 40) } else { r.r(1, 4) };
            let n = match r.n(8) {
                0 => 1,
                1 => r.r(250, 260),
                2 if r.one_in(12) => 65_530 + r.n(12),
                3 => 1 << r.r(0, 10),
                _ => r.r(1, 60),
            };
            (h, n, Site::gen(r), r.n(2) == 0)
        })
        .collect();
    p.body.tables = tables;
    // by how many threads
    p.body.rounds = r.r(1, k);
    crate::gen::gen_env(r, p);
    if r.one_in(4) {
        let t = *r.pick(&["getrandom", "devrandom"]);
        p.faults.push(crate::sys::IoFault { target: t.into(), call: "io".into(), at: r.n(3) as u64, kind: crate::sys::IoKind::Stuck(r.n(256) as u8) });
    }
}

fn table(h: usize, n: usize, site: Site, elsewhere: bool) -> Result<Vec<usize>, V> {
    use panacea::naive_hash::NaiveHash;
    let t = at(site, || NaiveHash::new(h, n));
    let look = |t: &NaiveHash| -> Result<Vec<usize>, V> {
        if t.h_count() != h || t.input_domain() != n || t.output_domain() != h * n {
            return v("dimensions", format!("{h} functions of {n} items are described as {} of {}, {} cells", t.h_count(), t.input_domain(), t.output_domain()));
        }
        let mut seen = vec![usize::MAX; h * n];
        let mut all = vec![];
        for x in 0..n {
            for k in 0..h {
                let c = t.hash(k, x);
                if c >= h * n {
                    return v("cell-range", format!("copy {k} of item {x} goes to cell {c} of {}", h * n));
                }
                if seen[c] != usize::MAX {
                    return v("cell-twice", format!("cell {c} belongs to item {} and to item {x} (of {n}, {h} copies)", seen[c]));
                }
                seen[c] = x;
                all.push(c);
                if t.checked_hash(k, x) != Some(c) {
                    return v("lookup", format!("copy {k} of item {x} is in cell {c}, the checked lookup says {:?}", t.checked_hash(k, x)));
                }
                let q = [t.hash0(x), if h > 1 { t.hash1(x) } else { c }, if h > 2 { t.hash2(x) } else { c }];
                if k < 3 && q[k] != c {
                    return v("lookup", format!("copy {k} of item {x} is in cell {c}, the short form says {}", q[k]));
                }
                let d = 1 + (x + 3 * k) % (h * n);
                if t.hash_to_tuple(k, x, d) != (c / d, c % d) {
                    return v("lookup", format!("cell {c} with rows of {d} columns is {:?}", t.hash_to_tuple(k, x, d)));
                }
            }
            if x < 64 {
                let d = 1 + x % 5;
                let m = t.hash_to_mapping(&[x], d);
                let ok = m.len() == 1 && m.iter().all(|(r, (c, y))| *y == x && *c < d && (0..h).any(|k| t.hash(k, x) == r * d + c));
                if !ok {
                    return v("mapping", format!("item {x} in cells {:?} with rows of {d} columns is mapped to {m:?}", (0..h).map(|k| t.hash(k, x)).collect::<Vec<_>>()));
                }
            }
        }
        for (k, x) in [(h, 0), (0, n), (h, n), (h + 1, n - 1), (h - 1, n + 1), (usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (0, h * n), (h, n - 1)] {
            if (k >= h || x >= n) && t.checked_hash(k, x).is_some() {
                return v("out-of-range", format!("copy {k} of item {x} is looked up in a table of {n} items with {h} copies each: {:?}", t.checked_hash(k, x)));
            }
        }
        Ok(all)
    };
    let all = look(&t)?;
    if elsewhere {
        // another thread sees the same table, and so does whoever has a copy
        let c = t.clone();
        let other = panacea_simstd::thread::scope(|sc| sc.spawn(|| look(&c)).join()).unwrap()?;
        if other != all || look(&t)? != all {
            return v("lookup", "a copy of a table says something else than the table".to_string());
        }
    }
    Ok(all)
}

pub fn run_tables(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let tables = p.body.tables.clone();
    let makers = p.body.rounds.clamp(1, 8);
    let r = sim(&p.sch, false, world(p), || -> Result<u64, V> {
        let all: Vec<_> = panacea_simstd::thread::scope(|sc| {
            let hs: Vec<_> = (0..makers)
                .map(|k| {
                    let mine: Vec<_> = tables.iter().skip(k).step_by(makers).cloned().collect();
                    sc.spawn(move || -> Result<usize, V> {
                        let mut made = 0;
                        for (h, n, site, e) in mine {
                            made += table(h, n, site, e)?.len();
                        }
                        Ok(made)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(x) => std::panic::resume_unwind(x),
                })
                .collect()
        });
        let mut n = 0;
        for x in all {
            n += x? as u64;
        }
        Ok(n)
    });
    finish(&mut out, &r);
    match r.res {
        Err(e) => out.violation = Some(panic_violation(&e)),
        Ok(Err(x)) => out.violation = Some(x),
        Ok(Ok(n)) => out.checks = n,
    }
    out.nontrivial = out.checks > 1;
    out
}
