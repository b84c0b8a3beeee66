//! Running a closure as a simulated execution, and the ORAM system the properties talk about.
use crate::plan::*;
use crate::sys::{self, World};
use concrete_core::commons::crypto::encoding::PlaintextList;
use concrete_core::commons::math::tensor::{AsRefSlice, AsRefTensor};
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::rlwe::{compute_noise_encoded, RLWECiphertext};
use panacea_simstd::sched::{self, Report};
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub type Pt = PlaintextList<Vec<u64>>;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if sched::me().is_none() {
            eprintln!("panic outside simulation: {msg} at {loc}");
        }
        sched::quiet(|| PANICS.lock().unwrap_or_else(|p| p.into_inner()).push(format!("{msg} at {loc}")));
    }));
}

pub fn panics_seen() -> Vec<String> {
    sched::quiet(|| PANICS.lock().unwrap_or_else(|p| p.into_inner()).clone())
}
pub fn clear_panics() {
    sched::quiet(|| PANICS.lock().unwrap_or_else(|p| p.into_inner()).clear());
}
/// Strip what differs between edits that change no behaviour (paths and line numbers).
pub fn panic_class(m: &str) -> String {
    let m = m.split(" at /").next().unwrap_or(m).split(" at src").next().unwrap_or(m);
    m.chars().filter(|c| !c.is_ascii_digit()).take(80).collect()
}

pub struct RunOut<R> {
    /// Err: the text of the first panic
    pub res: Result<R, String>,
    pub rep: Report,
    pub world: World,
}

/// One simulated execution.
pub fn sim<R: Send>(s: &Sch, keep: bool, w: World, f: impl FnOnce() -> R + Send) -> RunOut<R> {
    clear_panics();
    sys::install(w);
    let (res, rep) = sched::run(s.config(keep), || {
        let r = catch_unwind(AssertUnwindSafe(f));
        rayon_core::sim_shutdown();
        match r {
            Ok(v) => v,
            Err(e) => resume_unwind(e),
        }
    });
    rayon_core::sim_reset();
    let world = sys::uninstall().expect("world");
    let res = res.map_err(|e| {
        panics_seen().first().cloned().unwrap_or_else(|| {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        })
    });
    RunOut { res, rep, world }
}

pub fn world(p: &Plan) -> World {
    World::new(p.entropy, p.clock.clone(), p.faults.clone(), vec![], false)
}

/// Run `f` at the given kind of call site.
pub fn at<R: Send>(site: Site, f: impl FnOnce() -> R + Send) -> R {
    match site {
        Site::Outside => f(),
        Site::Global => {
            let mut out = None;
            rayon::scope(|_| out = Some(f()));
            out.unwrap()
        }
        Site::Pool(n) => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
            pool.install(f)
        }
        Site::Nested => {
            let slot = Mutex::new(Some(f));
            let out: Mutex<Option<R>> = Mutex::new(None);
            (0..3usize).into_par_iter().for_each(|i| {
                if i == 1 {
                    let f = slot.lock().unwrap().take().unwrap();
                    let r = f();
                    *out.lock().unwrap() = Some(r);
                }
            });
            out.into_inner().unwrap().unwrap()
        }
    }
}

/// A plaintext polynomial determined by a seed: several shapes, all coefficients below t.
pub fn data_pt(n: usize, t: u64, seed: u64) -> Pt {
    let mut r = crate::rng::Rng::new(seed);
    let shape = r.n(6);
    let v: Vec<u64> = (0..n)
        .map(|i| match shape {
            0 => 0,
            1 => t - 1,
            2 => {
                if i == (seed as usize) % n {
                    t - 1
                } else {
                    0
                }
            }
            _ => r.u64() % t,
        })
        .collect();
    PlaintextList::from_container(v)
}

pub fn coeffs(p: &Pt) -> Vec<u64> {
    p.as_tensor().iter().cloned().collect()
}

pub fn ct_words(c: &RLWECiphertext) -> Vec<u64> {
    let mut v: Vec<u64> = c.get_mask().as_tensor().as_slice().to_vec();
    v.extend_from_slice(c.get_body().as_tensor().as_slice());
    v
}

/// A violation: (class, detail).
pub type V = (String, String);
pub fn v<T>(class: &str, detail: impl Into<String>) -> Result<T, V> {
    Err((class.to_string(), detail.into()))
}

/// A client that knows nothing but the key and the layout.
pub fn client(sk: &panacea::rlwe::RLWESecretKey, rows: usize, cols: usize, tf: &Tf) -> Client {
    let mut c = Client::new(rows, cols, tf.params());
    c.sk = sk.clone();
    c
}

/// A client, a server and the reference model: an array of plaintexts.
pub struct Oram {
    pub client: Client,
    pub server: Server,
    pub hash: NaiveHash,
    pub model: Vec<Pt>,
    pub tf: Tf,
    pub geo: Geo,
    pub site: Site,
    pub worst_noise: f64,
    /// responses whose noise was measured
    pub noted: usize,
    /// noise of each of them, in order
    pub noises: Vec<f32>,
    pub responses: Vec<Vec<u64>>,
    pub keep: bool,
    pub checked: u64,
    pub refused: u64,
}

impl Oram {
    pub fn new(tf: &Tf, geo: Geo, site: Site) -> Oram {
        let hash = NaiveHash::new(geo.h, geo.items());
        let (client, server, model) = setup_random_oram(geo.rows, geo.cols, &hash, tf.params());
        Oram {
            client, server, hash, model, tf: tf.clone(), geo, site, worst_noise: f64::NEG_INFINITY, noted: 0, noises: vec![],
            responses: vec![], keep: false, checked: 0, refused: 0,
        }
    }

    pub fn pt(&self, d: u64) -> Pt {
        data_pt(self.tf.n, self.tf.t, d)
    }

    pub fn query(&mut self, a: Acc) -> ClientQuery {
        if a.0 {
            let p = self.pt(a.2);
            self.client.gen_write_query_one(a.1, &p, &self.hash)
        } else {
            self.client.gen_read_query_one(a.1, &self.hash)
        }
    }

    pub fn decrypt(&self, y: &RLWECiphertext) -> Pt {
        let mut pt = self.client.ctx.gen_zero_pt();
        self.client.sk.decrypt_decode_rlwe(&mut pt, y, &self.client.ctx);
        pt
    }

    fn expect(&mut self, what: &str, i: usize, y: &RLWECiphertext) -> Result<(), V> {
        self.checked += 1;
        let got = self.decrypt(y);
        if got != self.model[i] {
            let want = coeffs(&self.model[i]);
            let g = coeffs(&got);
            let bad = want.iter().zip(&g).filter(|(a, b)| a != b).count();
            let other = self.model.iter().position(|m| *m == got);
            return v(
                "wrong-value",
                format!("{what}: item {i}: {bad}/{} coefficients differ from the reference value{}", g.len(),
                    other.map(|o| format!(" (it is the value of item {o})")).unwrap_or_default()),
            );
        }
        let noise = compute_noise_encoded(&self.client.sk, y, &got, &self.client.ctx.codec);
        self.noted += 1;
        self.noises.push(noise as f32);
        if noise > self.worst_noise {
            self.worst_noise = noise;
        }
        Ok(())
    }

    fn note(&mut self, ys: &[RLWECiphertext]) {
        if self.keep {
            for y in ys {
                self.responses.push(ct_words(y));
            }
        }
    }

    /// Can the documented greedy placement (each item takes the row of its first hash whose row is
    /// still free) place all of these?
    pub fn placeable(hash: &NaiveHash, geo: &Geo, idx: &[usize]) -> bool {
        let mut taken = std::collections::BTreeSet::new();
        'i: for &i in idx {
            for h in 0..geo.h {
                let (r, _) = hash.hash_to_tuple(h, i, geo.cols);
                if taken.insert(r) {
                    continue 'i;
                }
            }
            return false;
        }
        true
    }

    /// Batch request; None if the client refused it.
    pub fn batch_queries(&mut self, w: bool, idx: &[usize], d: u64) -> Result<Option<Vec<ClientQuery>>, V> {
        let p = self.pt(d);
        let hash = self.hash.clone();
        let c = &mut self.client;
        let q = catch_unwind(AssertUnwindSafe(|| {
            if w {
                c.gen_write_query_batch(idx, &p, &hash)
            } else {
                c.gen_read_query_batch(idx, &hash)
            }
        }));
        match q {
            Ok(q) => Ok(Some(q)),
            Err(_) => {
                if Oram::placeable(&self.hash, &self.geo, idx) {
                    let m = panics_seen().last().cloned().unwrap_or_default();
                    v("refused-placeable", format!("batch {idx:?} was refused although every index can be given a row of its own: {m}"))
                } else {
                    self.refused += 1;
                    Ok(None)
                }
            }
        }
    }

    /// row -> (column, item), as the client computes it
    pub fn mapping(&self, idx: &[usize]) -> Vec<(usize, usize, usize)> {
        let mut m: Vec<(usize, usize, usize)> =
            self.hash.hash_to_mapping(idx, self.geo.cols).into_iter().map(|(r, (c, i))| (r, c, i)).collect();
        m.sort();
        m
    }

    pub fn check_batch(&mut self, idx: &[usize], ys: &[RLWECiphertext]) -> Result<(), V> {
        if ys.len() != self.geo.rows {
            return v("response-count", format!("batch of {} rows answered with {} ciphertexts", self.geo.rows, ys.len()));
        }
        let m = self.mapping(idx);
        for &i in idx {
            match m.iter().find(|x| x.2 == i) {
                None => {
                    return v("index-dropped", format!("batch {idx:?}: item {i} is not served by any row ({} rows, {} hashes) and the request was not refused",
                        self.geo.rows, self.geo.h))
                }
                Some(&(r, _, _)) => self.expect("batch", i, &ys[r])?,
            }
        }
        Ok(())
    }

    pub fn check_db(&mut self) -> Result<(), V> {
        if self.tf.t != 2 {
            return Ok(());
        }
        let db = self.server.decrypt_db(&self.client.sk);
        if db.len() != self.geo.rows || db.iter().any(|r| r.len() != self.geo.cols) {
            return v("db-shape", "the decrypted database has another shape than the one created");
        }
        for i in 0..self.geo.items() {
            let want = panacea::utils::pt_to_lossy_u64(&self.model[i]);
            for h in 0..self.geo.h {
                let (r, c) = self.hash.hash_to_tuple(h, i, self.geo.cols);
                self.checked += 1;
                if db[r][c] != want {
                    return v("stored-value", format!("stored copy {h} of item {i} (row {r}, column {c}) is not the reference value"));
                }
            }
        }
        Ok(())
    }

    pub fn apply(&mut self, op: &Op) -> Result<(), V> {
        let site = self.site;
        match op {
            Op::One(a) => {
                let q = self.query(*a);
                let srv = &mut self.server;
                let (y, _) = at(site, || srv.process_one(q));
                self.note(std::slice::from_ref(&y));
                self.expect(if a.0 { "write (value before it)" } else { "read" }, a.1, &y)?;
                if a.0 {
                    self.model[a.1] = self.pt(a.2);
                }
            }
            Op::Multi(accs) => {
                let qs: Vec<ClientQuery> = accs.iter().map(|a| self.query(*a)).collect();
                let srv = &mut self.server;
                let (ys, _) = at(site, || srv.process_multi(qs));
                self.note(&ys);
                if ys.len() != accs.len() {
                    return v("response-count", format!("{} queries answered with {} ciphertexts", accs.len(), ys.len()));
                }
                for (k, a) in accs.iter().enumerate() {
                    self.expect(&format!("query {k} of {}", accs.len()), a.1, &ys[k])?;
                }
                let mut rivals: BTreeMap<usize, Vec<Pt>> = BTreeMap::new();
                for a in accs {
                    if a.0 {
                        self.model[a.1] = self.pt(a.2);
                        rivals.entry(a.1).or_default().push(self.pt(a.2));
                    }
                }
                rivals.retain(|_, v| v.len() > 1);
                if !rivals.is_empty() {
                    return self.contended(rivals);
                }
            }
            Op::Batch(w, idx, d) => {
                let Some(qs) = self.batch_queries(*w, idx, *d)? else { return Ok(()) };
                if qs.len() != self.geo.rows {
                    return v("query-count", format!("a batch for {} rows has {} queries", self.geo.rows, qs.len()));
                }
                let srv = &mut self.server;
                let hash = &self.hash;
                let (ys, _) = at(site, || srv.process_batch(qs, hash));
                self.note(&ys);
                self.check_batch(idx, &ys)?;
                if *w {
                    for &i in idx {
                        self.model[i] = self.pt(*d);
                    }
                }
            }
            Op::Db => self.check_db()?,
            Op::Restart(e) => self.restart(*e),
            Op::Bad(b) => self.bad(b)?,
        }
        Ok(())
    }

    /// After several writes to one item in one request: that item holds one of the written values
    /// and every other item is as the reference says.
    fn contended(&mut self, rivals: BTreeMap<usize, Vec<Pt>>) -> Result<(), V> {
        let site = self.site;
        for i in (0..self.geo.items()).filter(|i| !rivals.contains_key(i)).take(6) {
            self.apply(&Op::One((false, i, 0)))?;
        }
        let mut bad = None;
        for (i, vals) in rivals {
            let q = self.query((false, i, 0));
            let srv = &mut self.server;
            let (y, _) = at(site, || srv.process_one(q));
            self.checked += 1;
            let got = self.decrypt(&y);
            if !vals.contains(&got) {
                bad = Some((i, vals.len()));
            }
            self.model[i] = got;
        }
        match bad {
            Some((i, n)) => v("conflicting-writes", format!("{n} queries of one request write item {i}; it then holds a value none of them wrote")),
            None => Ok(()),
        }
    }

    /// The client loses all state except its key (and the public hash tables).
    pub fn restart(&mut self, entropy: u64) {
        sys::reseed(entropy);
        self.client = client(&self.client.sk, self.geo.rows, self.geo.cols, &self.tf);
    }

    /// Send a malformed request; it must be rejected (by a panic) or at least change nothing.
    pub fn bad(&mut self, b: &Bad) -> Result<(), V> {
        let site = self.site;
        let other = |me: &mut Oram, cols: usize, i: usize, w: bool, d: u64| -> ClientQuery {
            // a client that believes the row has another width
            let mut c = client(&me.client.sk, me.geo.rows, cols, &me.tf);
            let p = me.pt(d);
            // any item whose first position has a column below `cols` gives a query of that width
            if w {
                c.gen_write_query_one(i, &p, &me.hash)
            } else {
                c.gen_read_query_one(i, &me.hash)
            }
        };
        let hash = self.hash.clone();
        let outcome = match b {
            Bad::OneCols(cols) => {
                let q = other(self, *cols, 0, true, 77);
                let srv = &mut self.server;
                catch_unwind(AssertUnwindSafe(|| at(site, || srv.process_one(q)))).is_ok()
            }
            Bad::MultiCols(accs, k, cols) => {
                let mut qs: Vec<ClientQuery> = accs.iter().map(|a| self.query(*a)).collect();
                // position usize::MAX: the whole list was made for the other width
                let ks = if *k == usize::MAX { 0..qs.len() } else { (*k).min(qs.len() - 1)..(*k).min(qs.len() - 1) + 1 };
                for k in ks {
                    let write = k % 2 == 0;
                    qs[k] = other(self, *cols, 0, write, 78);
                }
                let srv = &mut self.server;
                catch_unwind(AssertUnwindSafe(|| at(site, || srv.process_multi(qs)))).is_ok()
            }
            Bad::MultiEmpty => {
                let srv = &mut self.server;
                let _ = catch_unwind(AssertUnwindSafe(|| at(site, || srv.process_multi(vec![]))));
                false
            }
            Bad::BatchCount(idx, w, n) => {
                let Some(mut qs) = self.batch_queries(*w, idx, 79)? else { return Ok(()) };
                while qs.len() > *n {
                    qs.pop();
                }
                while qs.len() < *n {
                    let q = qs[0].clone();
                    qs.push(q);
                }
                let srv = &mut self.server;
                catch_unwind(AssertUnwindSafe(|| at(site, || srv.process_batch(qs, &hash)))).is_ok()
            }
            Bad::BatchCols(idx, w, row, cols) => {
                let Some(mut qs) = self.batch_queries(*w, idx, 80)? else { return Ok(()) };
                let rows = if *row == usize::MAX { 0..qs.len() } else { (*row).min(qs.len() - 1)..(*row).min(qs.len() - 1) + 1 };
                // a query of another width: take it from a one-row client over the same items
                let mut c = client(&self.client.sk, 1, *cols, &self.tf);
                let one = NaiveHash::new(1, *cols);
                let p = self.pt(81);
                for r in rows {
                    qs[r] = c.gen_write_query_one(0, &p, &one);
                }
                let srv = &mut self.server;
                catch_unwind(AssertUnwindSafe(|| at(site, || srv.process_batch(qs, &hash)))).is_ok()
            }
        };
        self.checked += 1;
        if outcome {
            return v("accepted-malformed", format!("a request that does not fit the database was processed: {b:?}"));
        }
        self.refused += 1;
        Ok(())
    }

    /// Read everything back through ordinary requests.
    pub fn sweep(&mut self, limit: usize) -> Result<(), V> {
        let n = self.geo.items();
        let step = n.div_ceil(limit.max(1)).max(1);
        for i in (0..n).step_by(step) {
            if self.geo.rows == 1 && self.geo.h == 1 {
                self.apply(&Op::One((false, i, 0)))?;
            } else {
                self.apply(&Op::Batch(false, vec![i], 0))?;
            }
        }
        Ok(())
    }
}
