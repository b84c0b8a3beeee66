//! A plan is everything one simulated execution depends on; it is what a replay file stores.
use crate::rng::Rng;
use crate::sys::{ClockPlan, IoFault};
use panacea::params::TFHEParameters;
use panacea_simstd::sched;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tf {
    pub std: f64,
    pub n: usize,
    pub bl: usize,
    pub l: usize,
    pub kbl: usize,
    pub kl: usize,
    pub nbl: usize,
    pub nl: usize,
    pub t: u64,
    pub secure: bool,
}
impl Tf {
    pub fn params(&self) -> TFHEParameters {
        TFHEParameters {
            standard_deviation: self.std,
            polynomial_size: self.n,
            base_log: self.bl,
            level_count: self.l,
            key_switch_base_log: self.kbl,
            key_switch_level_count: self.kl,
            negs_base_log: self.nbl,
            negs_level_count: self.nl,
            plaintext_modulus: self.t,
            secure_seed: self.secure,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pol {
    Sequential,
    Random(u32),
    Pct(u32, u64),
    Quantum(u32),
    Script(Vec<(u64, u32)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sch {
    pub policy: Pol,
    pub seed: u64,
    pub threads: usize,
    pub max_pool: usize,
    pub rounds: u32,
    pub spurious: u32,
    pub stalls: Vec<(u32, u64, u64)>,
    pub max_steps: u64,
}
impl Sch {
    pub fn sequential() -> Sch {
        Sch { policy: Pol::Sequential, seed: 1, threads: 1, max_pool: 8, rounds: 1, spurious: 0, stalls: vec![], max_steps: 4_000_000 }
    }
    pub fn config(&self, keep: bool) -> sched::Config {
        sched::Config {
            policy: match &self.policy {
                Pol::Sequential => sched::Policy::Sequential,
                Pol::Random(n) => sched::Policy::Random { num: *n },
                Pol::Pct(c, h) => sched::Policy::Pct { changes: *c, horizon: *h },
                Pol::Quantum(q) => sched::Policy::Quantum { q: *q },
                Pol::Script(v) => sched::Policy::Script(v.clone()),
            },
            seed: self.seed,
            max_steps: self.max_steps,
            stalls: self.stalls.clone(),
            spurious: self.spurious,
            cpus: self.threads,
            max_pool: self.max_pool,
            pool_rounds: self.rounds,
            tick_ns: 150,
            keep_events: keep,
        }
    }
    pub fn gen(r: &mut Rng) -> Sch {
        let mut threads = *r.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 8]);
        if r.one_in(30) {
            threads = *r.pick(&[10, 12, 16, 17, 24, 33]);
        }
        let policy = match r.n(10) {
            0 => Pol::Sequential,
            1 | 2 => Pol::Random(*r.pick(&[60, 400, 1500])),
            3 | 4 => Pol::Random(*r.pick(&[6000, 20000, 40000])),
            5 => Pol::Random(65535),
            6..=8 => Pol::Pct(r.r(1, 8) as u32, *r.pick(&[300, 1500, 6000, 30000])),
            _ => Pol::Quantum(r.r(0, 9) as u32),
        };
        let mut stalls = vec![];
        if r.one_in(5) {
            for _ in 0..r.r(1, 3) {
                let a = r.n(3000) as u64;
                stalls.push((r.n(threads + 1) as u32, a, a + r.r(50, 4000) as u64));
            }
        }
        Sch {
            policy,
            seed: r.u64(),
            threads,
            max_pool: threads.max(8) + r.n(4),
            rounds: r.r(1, 5) as u32,
            spurious: if r.one_in(6) { 6000 } else { 0 },
            stalls,
            max_steps: 4_000_000,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Site {
    /// an ordinary thread
    Outside,
    /// a worker of the global pool
    Global,
    /// a worker of a pool of its own with so many threads
    Pool(usize),
    /// an item of an outer parallel loop in the global pool
    Nested,
}
impl Site {
    pub fn gen(r: &mut Rng) -> Site {
        match r.n(8) {
            0..=3 => Site::Outside,
            4 => Site::Global,
            5 | 6 => Site::Pool(if r.one_in(15) { r.r(7, 20) } else { r.r(1, 6) }),
            _ => Site::Nested,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Geo {
    pub rows: usize,
    pub cols: usize,
    pub h: usize,
}
impl Geo {
    pub fn items(&self) -> usize {
        self.rows * self.cols / self.h
    }
}

/// (is a write, item, data seed)
pub type Acc = (bool, usize, u64);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    One(Acc),
    Multi(Vec<Acc>),
    /// (is a write, items, data seed)
    Batch(bool, Vec<usize>, u64),
    /// compare the whole decrypted database with the model
    Db,
    /// a malformed request; see `Bad`
    Bad(Bad),
    /// the client forgets everything but its key and comes back
    Restart(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Bad {
    /// single query built for this many columns
    OneCols(usize),
    /// several queries; the one at this position built for that many columns
    MultiCols(Vec<Acc>, usize, usize),
    /// no queries at all
    MultiEmpty,
    /// batch with so many row queries instead of one per row
    BatchCount(Vec<usize>, bool, usize),
    /// batch whose query for this row is built for that many columns
    BatchCols(Vec<usize>, bool, usize, usize),
}

impl From<Bad> for Op {
    fn from(b: Bad) -> Op {
        Op::Bad(b)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Body {
    #[serde(default)]
    pub ops: Vec<Op>,
    /// further independent systems running at the same time: (tfhe, geometry, ops, site)
    #[serde(default)]
    pub tenants: Vec<(Tf, Geo, Vec<Op>, Site)>,
    /// decision-tree evaluations running at the same time
    #[serde(default)]
    pub groves: Vec<(Tf, Trees, Site)>,
    /// alternative schedules to compare with the reference
    #[serde(default)]
    pub alts: Vec<(Sch, Site)>,
    /// the second of two request lists that must be indistinguishable
    #[serde(default)]
    pub other: Vec<Op>,
    #[serde(default)]
    pub net: Option<Net>,
    #[serde(default)]
    pub tool: Option<Tool>,
    #[serde(default)]
    pub trees: Option<Trees>,
    #[serde(default)]
    pub seeds: Option<Seeds>,
    #[serde(default)]
    pub csv: Option<Csv>,
    #[serde(default)]
    pub alg: Option<AlgPlan>,
    /// hash tables: (functions, items, where it is made, looked at from another thread too)
    #[serde(default)]
    pub tables: Vec<(usize, usize, Site, bool)>,
    /// how often everything is done
    #[serde(default)]
    pub rounds: usize,
    /// each time from a new thread
    #[serde(default)]
    pub fresh: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Net {
    pub clients: usize,
    /// (client, start time, access or batch)
    pub reqs: Vec<(usize, u64, Op)>,
    pub seed: u64,
    pub drop: usize,
    pub dup: usize,
    pub delay_max: u64,
    pub timeout: u64,
    /// (client, time): crash; it restarts `down` later with its key only
    pub crashes: Vec<(usize, u64, u64)>,
    /// (client, from, to): no messages pass
    pub partitions: Vec<(usize, u64, u64)>,
    /// no loss, duplication or partition from this time on
    pub calm_at: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tool {
    pub args: Vec<String>,
    /// content of the parameter file, if there is one
    pub file: Option<String>,
    /// keep only so many bytes of it
    pub torn: Option<usize>,
    pub dryrun: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Trees {
    /// JSON of the tree
    pub model: String,
    pub features: Vec<Vec<usize>>,
    pub parallel: bool,
    /// 0: the tree as it is; 1: renumbered by `fix_index`; 2: cut by `trunc_tree`; 3: both
    #[serde(default)]
    pub form: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Seeds {
    /// "secure" or "fixed"
    pub contexts: Vec<(Tf, bool)>,
    /// true: this context is created after a restart (new thread, as in a new process)
    pub note: String,
    /// do it again with this bit (modulo all bits drawn) of /dev/random inverted
    #[serde(default)]
    pub flip: Option<u64>,
    /// how each context comes about: 0 on its own, 1 inside a client, 2 inside a whole system
    #[serde(default)]
    pub how: Vec<u8>,
}

/// One operation on ciphertexts; numbers choose operands (modulo how many there are).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Alg {
    /// to, from, subtract
    Add(usize, usize, bool),
    /// of, degree
    Div(usize, usize),
    /// of, seed of the plaintext, by Fourier transform
    Mul(usize, u64, bool),
    /// of, in place
    Not(usize, bool),
    /// gadget ciphertext, of, to, buffer (0: none, 1: the thread's, 2: from others)
    Ext(usize, usize, usize, u8),
    /// gadget ciphertext, first, second, to, buffer
    Cmux(usize, usize, usize, usize, u8),
    /// form, of, to
    Switch(u8, usize, usize),
    /// form, exponent, of, to
    Subs(u8, usize, usize, usize),
    /// form, of, to
    Trace(u8, usize, usize),
    /// encrypted exponent, value, equality, form of the trace, to
    Cmp(usize, usize, bool, u8, usize),
    /// form, key, bit, to
    Expand(u8, usize, usize, usize),
    /// to, from
    AddG(usize, usize),
    /// position, of, to
    Extract(usize, usize, usize),
    /// of, to
    Pack(usize, usize),
    /// form, of, to
    Copy(u8, usize, usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct AlgPlan {
    pub seed: u64,
    /// derive the transformed keys from the others
    pub convert: bool,
    /// keys and ciphertexts are made in objects that held others before
    #[serde(default)]
    pub reused: bool,
    /// parameters of a second client, served by every other thread
    #[serde(default)]
    pub other: Option<Tf>,
    /// what each thread does, and where
    pub progs: Vec<(Site, Vec<Alg>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Csv {
    pub rows: Vec<Vec<usize>>,
    pub crlf: bool,
    /// (row, column, text) of cells written in another way than as a plain number
    #[serde(default)]
    pub odd: Vec<(usize, usize, String)>,
    /// (row, cells more or fewer)
    #[serde(default)]
    pub ragged: Vec<(usize, i64)>,
    /// blank lines before these rows
    #[serde(default)]
    pub blank: Vec<usize>,
    /// the last line does not end
    #[serde(default)]
    pub no_end: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub entropy: u64,
    pub clock: ClockPlan,
    pub faults: Vec<IoFault>,
    pub tfhe: Tf,
    pub geo: Geo,
    pub sch: Sch,
    pub site: Site,
    pub body: Body,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    /// (class, detail)
    pub violation: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub threads: u32,
    pub hash: u64,
    pub sim_ns: u64,
    pub runs: u64,
    pub checks: u64,
    pub nontrivial: bool,
    pub counts: std::collections::BTreeMap<String, u64>,
    pub decisions: Vec<(u64, u32)>,
    /// worst margin or similar, by name
    pub gauges: std::collections::BTreeMap<String, f64>,
}
impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn gauge(&mut self, k: &str, v: f64) {
        let e = self.gauges.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    pub fn absorb(&mut self, rep: &sched::Report) {
        self.runs += 1;
        self.steps += rep.steps;
        self.switches += rep.switches;
        self.threads = self.threads.max(rep.threads);
        self.hash = (self.hash ^ rep.hash).wrapping_mul(0x100_0000_01b3).rotate_left(11);
        self.sim_ns += rep.clock_ns;
        self.count("fault.thread-stall", rep.stalled);
        self.count("fault.spurious-wakeup", rep.spurious);
        self.count("sched.preemptions", rep.switches);
        for &(k, name) in sched::kind::NAMES {
            self.count(&format!("point.{name}"), rep.kinds[k as usize]);
        }
    }
}
