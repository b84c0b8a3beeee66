//! C12: key and mask randomness across contexts and restarts, with entropy sources failing.
use crate::core::*;
use crate::exec::*;
use crate::plan::*;
use crate::queries::{dissect, phase, sk_bits};
use crate::rng::Rng;
use crate::sys::{self, IoFault, IoKind};
use concrete_core::commons::crypto::encoding::PlaintextList;
use concrete_core::commons::math::tensor::{AsMutTensor, AsRefTensor};
use concrete_csprng::generators::{RandomGenerator, SoftwareRandomGenerator};
use concrete_csprng::seeders::Seed;
use panacea::context::Context;
use panacea::lwe::LWECiphertext;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, Client};
use panacea::rlwe::{gen_all_subs_ksk, RLWECiphertext};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let many = r.one_in(60);
    let k = if many { r.r(40, 150) + if r.one_in(3) { 180 } else { 0 } } else { r.r(2, 5) };
    let mixed = r.one_in(3);
    let all_secure = r.pct(75);
    let n = if many { 64 } else { *r.pick(&[64, 64, 128, 256]) };
    let contexts = (0..k)
        .map(|_| {
            let mut t = crate::gen::tf(n, 5, 9, 5, 11, 256, if mixed { r.pct(50) } else { all_secure });
            t.std = -55.0;
            (t, r.pct(60))
        })
        .collect();
    let mut note = "no entropy fault".to_string();
    let flip = (!many && r.one_in(6)).then(|| r.u64() >> 1);
    if !many && flip.is_none() && r.pct(80) {
        let src = *r.pick(&["getrandom", "devrandom"]);
        let (call, kind, at): (&str, IoKind, u64) = match r.n(9) {
            0 | 1 => ("io", IoKind::Stuck(r.n(256) as u8), 0),
            2 => ("io", IoKind::Stuck(r.n(256) as u8), r.n(6) as u64),
            3 => ("io", IoKind::ErrAll(*r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSYS])), r.n(8) as u64),
            4 => ("io", IoKind::Err(*r.pick(&[libc::EIO, libc::EINTR])), r.n(8) as u64),
            5 => ("io", IoKind::Short(r.r(1, 12)), r.n(8) as u64),
            6 => ("io", IoKind::ShortAll(r.r(1, 12)), r.n(3) as u64),
            7 => ("io", IoKind::Eof, r.n(8) as u64),
            _ => ("open", IoKind::ErrAll(*r.pick(&[libc::ENOENT, libc::EMFILE, libc::EACCES])), r.n(3) as u64),
        };
        let src = if call == "open" || kind == IoKind::Eof { "devrandom" } else { src };
        note = format!("{src} {call} {kind:?} from call {at}");
        p.faults.push(IoFault { target: src.into(), call: call.into(), at, kind });
    }
    match r.n(5) {
        0 | 1 => p.clock.frozen = true,
        3 => {
            // set back to where it was, again and again
            for _ in 0..r.r(1, 4) {
                p.clock.set.push((r.r(1, 8) as u64, -((r.u64() >> r.r(8, 54)) as i64)));
            }
        }
        2 => p.clock.jumps.push((r.r(1, 8) as u64, r.u64() >> 18)),
        _ => {}
    }
    let how = (0..k).map(|_| if many { 0 } else if flip.is_some() { r.n(2) as u8 } else { *r.pick(&[0, 0, 1, 2]) }).collect();
    p.body.seeds = Some(Seeds { contexts, note, flip, how });
}

#[derive(PartialEq)]
struct Ctx {
    sk: Vec<u64>,
    lwe_sk: Vec<u64>,
    masks: Vec<Vec<u64>>,
    noise: Vec<u64>,
    rand: Vec<u64>,
    pt: Vec<u64>,
    /// digest of the evaluation keys (with the fixed seed)
    keys: u64,
    /// whether the first encryption seen is the first the context made
    first: bool,
}

fn observe(t: &Tf, how: u8, tables: bool) -> Ctx {
    let n = t.n;
    let (mut ctx, sk) = match how {
        1 => {
            let c = Client::new(1, 4, t.params());
            (c.ctx, c.sk)
        }
        2 => {
            let (c, _, _) = setup_random_oram(1, 2, &NaiveHash::new(1, 2), t.params());
            (c.ctx, c.sk)
        }
        _ => {
            let mut ctx = Context::new(t.params());
            let sk = ctx.gen_rlwe_sk();
            (ctx, sk)
        }
    };
    let s = sk_bits(&sk, n);
    let mut masks = vec![];
    let mut noise = vec![];
    for k in 0..3 {
        let zero = PlaintextList::allocate(0u64, ctx.plaintext_count());
        let mut ct = RLWECiphertext::allocate(ctx.poly_size);
        sk.encode_encrypt_rlwe(&mut ct, &zero, &mut ctx);
        let w = ct_words(&ct);
        if k == 0 {
            noise = phase(&w[..n], &w[n..], &s);
        }
        masks.push(w[..n].to_vec());
    }
    let mut rand = vec![0u64; 2 * n];
    for x in rand.iter_mut() {
        *x = ctx.random_generator.random_uniform();
    }
    let lwe = ctx.gen_lwe_sk();
    let zero = ctx.gen_scalar_zero_pt();
    let mut ct = LWECiphertext::allocate(ctx.lwe_size());
    lwe.encode_encrypt_lwe(&mut ct, &zero, &mut ctx);
    masks.push(ct.get_mask().as_tensor().iter().cloned().collect());
    let mut p = ctx.gen_binary_pt();
    let pt = p.as_mut_tensor().iter().cloned().collect();
    let lwe_sk = dissect(&format!("{lwe:?}"), n.min(8)).1.into_iter().next().unwrap_or_default();
    let mut keys = 0;
    // (the key switching keys are in a hash table, which draws its own keys)
    if !t.secure && n == 64 && tables {
        let subs = gen_all_subs_ksk(&sk, &mut ctx);
        let mut subs: Vec<_> = subs.iter().collect();
        subs.sort_by_key(|x| x.0);
        let mut h = DefaultHasher::new();
        format!("{:?} {subs:?}", sk.neg_gsw(&mut ctx)).hash(&mut h);
        keys = h.finish();
    }
    Ctx { sk: s, lwe_sk, masks, noise, rand, pt, keys, first: how != 2 }
}

/// The noise an encryption takes from a generator whose output starts with these words.
fn noise_from(words: &[u64], std: f64, n: usize) -> Vec<u64> {
    let mut out = vec![];
    for w in words.chunks(2) {
        if w.len() < 2 || out.len() >= n {
            break;
        }
        let u = w[0] as i64 as f64 * 2f64.powi(-63);
        let v = w[1] as i64 as f64 * 2f64.powi(-63);
        let s = u * u + v * v;
        if s > 0.0 && s < 1.0 {
            let c = 2f64.powf(std) * (-2.0 * s.ln() / s).sqrt();
            for x in [u * c, v * c] {
                out.push((x * 2f64.powi(64)).round() as i64 as u64);
            }
        }
    }
    out.truncate(n);
    out
}

/// What a generator puts out that takes its seed from the start of this stream.
fn child_stream(words: &[u64]) -> Vec<u64> {
    let seed = words[0] as u128 | ((words[1] as u128) << 64);
    let mut g = SoftwareRandomGenerator::new(Seed(seed));
    (0..128).map(|_| u64::from_le_bytes(std::array::from_fn(|_| g.next_byte().unwrap()))).collect()
}

/// Whether the bits of `key` are the bits a generator gives that puts out these words.
fn key_from(key: &[u64], ws: &[u64]) -> bool {
    let n = key.len();
    let bytes: Vec<u8> = ws.iter().take(n).flat_map(|w| w.to_le_bytes()).collect();
    ws.iter().zip(key).all(|(w, k)| w & 1 == *k)
        || bytes.iter().zip(key).all(|(b, k)| (*b & 1) as u64 == *k)
        || bytes.iter().flat_map(|b| (0..8).map(move |i| ((b >> i) & 1) as u64)).zip(key).all(|(b, k)| b == *k)
}

/// Persistent failures of /dev/random met so far.
fn hard_failures() -> u64 {
    sys::with(|w| {
        w.fired.iter().filter(|(k, _)| k.starts_with("devrandom") && k.contains("errno") && !k.ends_with("errno4")).map(|(_, n)| *n).sum()
    })
    .unwrap_or(0)
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let seeds = p.body.seeds.clone().unwrap();
    let persistent = p.faults.iter().any(|f| f.target == "devrandom" && matches!(f.kind, IoKind::ErrAll(_)));
    let tables = !p.faults.iter().any(|f| f.target == "getrandom");
    let all = |w: crate::sys::World| {
        sim(&p.sch, false, w, || {
            let mut got: Vec<Option<Ctx>> = vec![];
            let mut ignored = None;
            for (k, (t, restart)) in seeds.contexts.iter().enumerate() {
                let how = seeds.how.get(k).copied().unwrap_or(0);
                let before = hard_failures();
                let c = if *restart {
                    panacea_simstd::thread::scope(|s| s.spawn(|| observe(t, how, tables)).join()).ok()
                } else {
                    catch_unwind(AssertUnwindSafe(|| observe(t, how, tables))).ok()
                };
                if c.is_some() && t.secure && persistent && hard_failures() > before && ignored.is_none() {
                    ignored = Some(k);
                }
                got.push(c);
            }
            (got, ignored)
        })
    };
    let r = all(world(p));
    finish(&mut out, &r);
    let (got, ignored) = match r.res {
        Err(e) => {
            out.violation = Some(panic_violation(&e));
            return out;
        }
        Ok(x) => x,
    };
    if let Some(k) = ignored {
        out.violation = Some(("entropy-failure-ignored".into(), format!("context {k} with secure seeding was created although /dev/random failed for good ({})", seeds.note)));
        return out;
    }
    let hard = r.world.fired.keys().any(|k| {
        (k.contains("errno") && !k.ends_with("errno4")) || k.ends_with("eof") || k.contains("open")
    });
    let mut failed = 0;
    let mut seen: BTreeMap<Vec<u64>, usize> = BTreeMap::new();
    let mut fixed: BTreeMap<u8, (usize, Vec<Vec<u64>>)> = BTreeMap::new();
    // every word of every public or plaintext stream -> where it was seen
    let mut words: BTreeMap<u64, (usize, &str)> = BTreeMap::new();
    for (k, (c, (t, restart))) in got.iter().zip(&seeds.contexts).enumerate() {
        let Some(c) = c else {
            failed += 1;
            // (a whole system also draws its hash tables)
            if !hard || (!t.secure && seeds.how.get(k).copied().unwrap_or(0) != 2) {
                out.violation = Some(("context-failed".into(), format!("creating context {k} (secure_seed={}) panicked although no entropy source reported a failure it needed: {}",
                    t.secure, panics_seen().last().cloned().unwrap_or_default())));
                return out;
            }
            continue;
        };
        out.checks += 1;
        if c.lwe_sk.len() != t.n || c.lwe_sk.iter().any(|b| *b > 1) || c.lwe_sk == c.sk || c.lwe_sk.iter().all(|b| *b == c.lwe_sk[0]) {
            out.violation = Some(("degenerate-key".into(), format!("context {k} made a scalar secret key that is not {} varied bits of its own", t.n)));
            return out;
        }
        if c.sk.len() != t.n || c.sk.iter().any(|b| *b > 1) || c.sk.iter().all(|b| *b == c.sk[0]) {
            out.violation = Some(("degenerate-key".into(), format!("context {k} made a secret key that is not {} varied bits", t.n)));
            return out;
        }
        if t.secure {
            for (what, x) in [("secret key", &c.sk), ("scalar secret key", &c.lwe_sk), ("first encryption's mask", &c.masks[0]), ("second encryption's mask", &c.masks[1]),
                ("third encryption's mask", &c.masks[2]), ("encryption noise", &c.noise), ("plaintext randomness", &c.rand)] {
                let mut key = vec![what.len() as u64];
                key.extend(x.iter());
                if let Some(prev) = seen.insert(key, k) {
                    out.violation = Some(("repeated-randomness".into(), format!("contexts {prev} and {k}{} have the same {what}, with {} (wall clock {})",
                        if *restart { " (after a restart)" } else { "" }, seeds.note, if p.clock.frozen { "frozen" } else { "running" })));
                    return out;
                }
            }
            let mut shared = 0;
            for (what, w) in c.masks.iter().flatten().map(|w| ("public masks", *w)).chain(c.rand.iter().map(|w| ("plaintext randomness", *w))) {
                if let Some((k0, what0)) = words.insert(w, (k, what)) {
                    shared += 1;
                    if shared > 2 {
                        out.violation = Some(("shared-stream".into(), format!("the {what} of context {k} and the {what0} of context {k0} come from one stream")));
                        return out;
                    }
                }
            }
            // no context's key or noise may be readable off another stream, of its own or of any other context
            if got.len() <= 8 {
                for (j, d) in got.iter().enumerate() {
                    let Some(d) = d else { continue };
                    if !seeds.contexts[j].0.secure {
                        continue;
                    }
                    let (m, r) = (d.masks.concat(), d.rand.clone());
                    let (m2, r2) = (child_stream(&m), child_stream(&r));
                    for (what, ws) in [("public masks", m), ("plaintext randomness", r), ("public masks taken as a seed", m2), ("plaintext randomness taken as a seed", r2)] {
                        if key_from(&c.sk, &ws) || key_from(&c.lwe_sk, &ws) {
                            out.violation = Some(("key-in-stream".into(), format!("a secret key of context {k} repeats bits of the {what} of context {j}")));
                            return out;
                        }
                        let would = noise_from(&ws, t.std, 16);
                        let near = would.iter().zip(&c.noise).filter(|(a, b)| (a.wrapping_sub(**b) as i64).unsigned_abs() <= 2).count();
                        if c.first && would.len() >= 8 && near == would.len() {
                            out.violation = Some(("noise-in-stream".into(), format!("the encryption noise of context {k} can be computed from the {what} of context {j}")));
                            return out;
                        }
                    }
                }
            }
            // different randomness for each encryption
            if c.masks[0] == c.masks[1] || c.masks[1] == c.masks[2] {
                out.violation = Some(("mask-reuse".into(), format!("context {k} encrypted twice with one mask")));
                return out;
            }
        } else {
            let all = vec![c.sk.clone(), c.lwe_sk.clone(), c.masks.concat(), c.noise.clone(), c.rand.clone(), c.pt.clone(), vec![c.keys]];
            let how = seeds.how.get(k).copied().unwrap_or(0);
            match fixed.get(&how) {
                None => {
                    fixed.insert(how, (k, all));
                }
                Some((k0, a0)) => {
                    if *a0 != all && seeds.contexts[*k0].0 == *t {
                        out.violation = Some(("not-reproducible".into(), format!("contexts {k0} and {k} with the fixed seed differ (with {})", seeds.note)));
                        return out;
                    }
                }
            }
        }
    }
    if let (Some(f), 1..) = (seeds.flip, r.world.drawn[1]) {
        // every bit of entropy drawn must matter: otherwise seeds are weaker than they look
        let f = f % (8 * r.world.drawn[1]);
        let mut w = world(p);
        w.flip = Some((f / 8, (f % 8) as u8));
        let r2 = all(w);
        finish(&mut out, &r2);
        match r2.res {
            Err(e) => out.violation = Some(panic_violation(&e)),
            Ok(got2) => {
                out.checks += 1;
                out.count("entropy-bits-shown-to-matter", 1);
                if got2.0 == got {
                    out.violation = Some(("entropy-discarded".into(), format!("inverting bit {} of byte {} of the {} bytes drawn from /dev/random changes no key, mask, noise or plaintext randomness of any of the {} contexts",
                        f % 8, f / 8, r.world.drawn[1], got.len())));
                    return out;
                }
            }
        }
    }
    out.count("contexts-refused-for-lack-of-entropy", failed);
    out.count("contexts-compared", out.checks);
    out.nontrivial = out.checks > 1;
    out
}
