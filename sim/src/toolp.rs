//! C13 and C15: the command-line tool, as a process of its own, with a simulated parameter file,
//! standard output, clock, entropy and thread pool.
use crate::core::*;
use crate::exec::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::sys::{IoFault, IoKind, World};
use panacea_simstd::sched::{self, Report};
use serde::{Deserialize, Serialize};

use std::io::Write;

pub const ENV: &str = "PANACEA_SIM_TOOL";
pub const FILE: &str = "@FILE@";

// ------------------------------------------------------------------------------------------------
// what a parameter file may contain (the documented format, restated)

#[derive(Serialize, Deserialize, Clone, Debug)]
struct TfM {
    standard_deviation: f64,
    polynomial_size: usize,
    base_log: usize,
    level_count: usize,
    key_switch_base_log: usize,
    key_switch_level_count: usize,
    negs_base_log: usize,
    negs_level_count: usize,
    plaintext_modulus: u64,
    secure_seed: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum OrM {
    SingleQuery { item_count: usize, iterations: usize },
    MultiQuery { item_count: usize, query_count: usize, iterations: usize },
    Batched { rows: usize, cols: usize, iterations: usize },
}
type FileM = Vec<(Vec<OrM>, Vec<TfM>)>;

#[derive(Clone, Debug, PartialEq)]
struct Want {
    fields: Vec<(&'static str, String)>,
    iterations: usize,
    mode: usize,
}

fn log2(x: u64) -> u32 {
    63 - x.max(1).leading_zeros()
}

fn want(o: &OrM, t: &TfM) -> Want {
    let mut f = vec![
        ("standard_deviation", format!("{}", t.standard_deviation)),
        ("polynomial_size", t.polynomial_size.to_string()),
        ("base_log", t.base_log.to_string()),
        ("level_count", t.level_count.to_string()),
        ("key_switch_base_log", t.key_switch_base_log.to_string()),
        ("key_switch_level_count", t.key_switch_level_count.to_string()),
        ("negs_base_log", t.negs_base_log.to_string()),
        ("negs_level_count", t.negs_level_count.to_string()),
        ("plaintext_modulus", format!("2^{}", log2(t.plaintext_modulus))),
        ("secure_seed", t.secure_seed.to_string()),
    ];
    let (mode, items, q, r, c, it) = match o {
        OrM::SingleQuery { item_count, iterations } => (0, *item_count, "-".to_string(), "-".into(), "-".into(), *iterations),
        OrM::MultiQuery { item_count, query_count, iterations } => (1, *item_count, query_count.to_string(), "-".into(), "-".into(), *iterations),
        OrM::Batched { rows, cols, iterations } => (2, rows * cols / 3, "-".into(), rows.to_string(), cols.to_string(), *iterations),
    };
    f.push(("mode", mode.to_string()));
    f.push(("item_count", items.to_string()));
    f.push(("query_count", q));
    f.push(("rows", r));
    f.push(("cols", c));
    f.push(("n", format!("2^{}", log2(items as u64))));
    Want { fields: f, iterations: it, mode }
}

fn tf_default() -> TfM {
    TfM { standard_deviation: -55.0, polynomial_size: 2048, base_log: 5, level_count: 9, key_switch_base_log: 5,
        key_switch_level_count: 11, negs_base_log: 5, negs_level_count: 11, plaintext_modulus: 256, secure_seed: true }
}

fn from_flags(args: &[String]) -> Want {
    let mut t = tf_default();
    let (mut mode, mut items, mut q, mut rows, mut cols) = (2usize, 4096usize, 1usize, 96usize, 64usize);
    // "--name=value" is the same as "--name value"
    let args: Vec<String> = args.iter().flat_map(|a| a.splitn(2, '=').map(|x| x.to_string()).collect::<Vec<_>>()).collect();
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        let u = v.parse::<u64>().unwrap_or(0);
        match args[i].as_str() {
            "--mode" => mode = u as usize,
            "--item-count" => items = u as usize,
            "--query-count" => q = u as usize,
            "--rows" => rows = u as usize,
            "--cols" => cols = u as usize,
            "--standard-deviation" => t.standard_deviation = v.parse().unwrap(),
            "--polynomial-size" => t.polynomial_size = u as usize,
            "--base-log" => t.base_log = u as usize,
            "--level-count" => t.level_count = u as usize,
            "--key-switch-base-log" => t.key_switch_base_log = u as usize,
            "--key-switch-level-count" => t.key_switch_level_count = u as usize,
            "--negs-base-log" => t.negs_base_log = u as usize,
            "--negs-level-count" => t.negs_level_count = u as usize,
            "--plaintext-modulus" => t.plaintext_modulus = u,
            "--params" => {}
            _ => {
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let o = match mode {
        0 => OrM::SingleQuery { item_count: items, iterations: 1 },
        1 => OrM::MultiQuery { item_count: items, query_count: q, iterations: 1 },
        _ => OrM::Batched { rows, cols, iterations: 1 },
    };
    want(&o, &t)
}

fn from_list(l: &FileM) -> Vec<Want> {
    l.iter().flat_map(|(os, ts)| os.iter().flat_map(move |o| ts.iter().map(move |t| want(o, t)))).collect()
}

// ------------------------------------------------------------------------------------------------
// plans

fn gen_tfm(r: &mut Rng, real: bool) -> TfM {
    if real {
        let t = match r.n(4) {
            0 => crate::gen::tf(64, 5, 9, 5, 11, 2, r.pct(80)),
            1 => crate::gen::tf(32, 8, 4, 8, 4, 2, r.pct(80)),
            2 => crate::gen::tf(64, 4, 12, 4, 12, 256, r.pct(80)),
            _ => crate::gen::tf(128, 5, 9, 5, 11, 256, r.pct(80)),
        };
        return TfM { standard_deviation: t.std, polynomial_size: t.n, base_log: t.bl, level_count: t.l, key_switch_base_log: t.kbl,
            key_switch_level_count: t.kl, negs_base_log: t.nbl, negs_level_count: t.nl, plaintext_modulus: t.t, secure_seed: t.secure };
    }
    TfM {
        standard_deviation: *r.pick(&[-55.0, -40.0, -25.5, 0.0, -60.25]),
        polynomial_size: 1 << r.r(4, 12),
        base_log: r.r(1, 30),
        level_count: r.r(1, 30),
        key_switch_base_log: r.r(1, 30),
        key_switch_level_count: r.r(1, 30),
        negs_base_log: r.r(1, 30),
        negs_level_count: r.r(1, 30),
        plaintext_modulus: 1 << r.r(1, 20),
        secure_seed: r.pct(50),
    }
}

fn gen_orm(r: &mut Rng, real: bool) -> OrM {
    let iterations = match (real, r.one_in(12)) {
        (true, false) => r.r(1, 3),
        (true, true) => r.r(9, 14),
        _ => r.r(1, 9),
    };
    match r.n(3) {
        0 => OrM::SingleQuery { item_count: 1 << if real { r.r(1, 6) } else { r.r(1, 20) }, iterations },
        1 => {
            let lg = if real { r.r(1, 4) } else { r.r(1, 20) };
            // the tool asks for items 1..=query_count
            OrM::MultiQuery { item_count: 1 << lg, query_count: r.r(1, ((1 << lg) - 1usize).min(if real { 4 } else { 1000 })), iterations }
        }
        _ => {
            if real {
                // three hash functions divide the number of rows
                OrM::Batched { rows: *r.pick(&[3, 6, 9, 12]), cols: *r.pick(&[2, 2, 4, 8]), iterations }
            } else {
                OrM::Batched { rows: r.r(3, 500), cols: 1 << r.r(0, 12), iterations }
            }
        }
    }
}

fn flags(r: &mut Rng, o: &OrM, t: &TfM, all: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |k: &str, x: String| {
        v.push(k.to_string());
        v.push(x);
    };
    match o {
        OrM::SingleQuery { item_count, .. } => {
            add("--mode", "0".into());
            add("--item-count", item_count.to_string());
        }
        OrM::MultiQuery { item_count, query_count, .. } => {
            add("--mode", "1".into());
            add("--item-count", item_count.to_string());
            if *query_count != 1 || r.pct(50) {
                add("--query-count", query_count.to_string());
            }
        }
        OrM::Batched { rows, cols, .. } => {
            if r.pct(50) {
                add("--mode", (2 + r.n(3)).to_string());
            }
            add("--rows", rows.to_string());
            add("--cols", cols.to_string());
        }
    }
    let opts = [
        ("--standard-deviation", format!("{}", t.standard_deviation)),
        ("--polynomial-size", t.polynomial_size.to_string()),
        ("--base-log", t.base_log.to_string()),
        ("--level-count", t.level_count.to_string()),
        ("--key-switch-base-log", t.key_switch_base_log.to_string()),
        ("--key-switch-level-count", t.key_switch_level_count.to_string()),
        ("--negs-base-log", t.negs_base_log.to_string()),
        ("--negs-level-count", t.negs_level_count.to_string()),
        ("--plaintext-modulus", t.plaintext_modulus.to_string()),
    ];
    for (k, x) in opts {
        if all || r.pct(60) {
            add(k, x);
        }
    }
    v
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let c13 = p.prop == "C13";
    let real = !c13;
    let mut faults = vec![];
    let mut file = None;
    let mut torn = None;
    let use_file = if c13 { r.pct(85) } else { r.pct(50) };
    let (fo, ft) = (gen_orm(r, real), gen_tfm(r, real));
    let mut args = flags(r, &fo, &ft, real);
    if use_file {
        let groups = if real { r.r(1, 2) } else { r.r(0, 4) };
        let l: FileM = (0..groups)
            .map(|_| {
                let a = if real { r.r(1, 2) } else { r.r(0, 4) };
                let b = if real { 1 } else { r.r(0, 3) };
                ((0..a).map(|_| gen_orm(r, real)).collect(), (0..b).map(|_| gen_tfm(r, real)).collect())
            })
            .collect();
        let mut l = l;
        if r.one_in(4) {
            // the same configuration more than once
            for (a, b) in l.iter_mut() {
                if !a.is_empty() && r.pct(60) {
                    let x = a[r.n(a.len())].clone();
                    a.insert(r.n(a.len() + 1), x);
                }
                if !b.is_empty() && r.pct(40) {
                    let x = b[r.n(b.len())].clone();
                    b.insert(r.n(b.len() + 1), x);
                }
            }
            if !l.is_empty() && r.pct(30) {
                let x = l[r.n(l.len())].clone();
                l.insert(r.n(l.len() + 1), x);
            }
        }
        let mut text = if r.pct(50) { serde_json::to_string(&l).unwrap() } else { serde_json::to_string_pretty(&l).unwrap() };
        if c13 && r.one_in(60) && !l.is_empty() {
            // many configurations
            let x = l.clone();
            for _ in 0..r.r(50, 400) {
                l.push(x[r.n(x.len())].clone());
            }
            text = serde_json::to_string(&l).unwrap();
        }
        if c13 && r.one_in(6) {
            // a long file: several reads
            text = format!("{}{text}", " ".repeat(r.r(8_000, 20_000)));
        }
        if c13 {
            match r.n(12) {
                11 => {
                    // one field left out, or named twice
                    let b = text.as_bytes();
                    let starts: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'"' && text[i..].find([':', ',']).is_some_and(|e| b[i + e] == b':')).collect();
                    if !starts.is_empty() {
                        let a = *r.pick(&starts);
                        let e = a + text[a..].find([',', '}']).unwrap_or(0);
                        let drop = r.pct(75);
                        let field = text[a..e].to_string();
                        text = match (drop, b[e]) {
                            (true, b',') => format!("{}{}", &text[..a], &text[e + 1..]),
                            (true, _) => format!("{}{}", text[..a].trim_end().trim_end_matches(','), &text[e..]),
                            (false, _) => format!("{}{field},{}", &text[..a], &text[a..]),
                        };
                    }
                }
                9 | 10 => {
                    // one number written in another way, or no number at all
                    let b = text.as_bytes();
                    let digits: Vec<usize> = (1..b.len()).filter(|&i| b[i].is_ascii_digit() && matches!(b[i - 1], b':' | b' ')).collect();
                    if !digits.is_empty() {
                        let a = *r.pick(&digits);
                        let e = (a..b.len()).find(|&i| !b[i].is_ascii_digit()).unwrap_or(b.len());
                        let x = &text[a..e];
                        let y = match r.n(10) {
                            0 => format!("\"{x}\""),
                            1 => format!("{x}.0"),
                            2 => format!("{x}e1"),
                            3 => format!("-{x}"),
                            4 => "null".into(),
                            5 => "18446744073709551616".into(),
                            6 => format!("0{x}"),
                            7 => format!("[{x}]"),
                            8 => format!("+{x}"),
                            _ => format!(" {x} \n"),
                        };
                        text = format!("{}{y}{}", &text[..a], &text[e..]);
                    }
                }
                0 | 1 => torn = Some(r.n(text.len() + 1)),
                2 => {
                    // one field damaged
                    let pairs = [("item_count", "item_cont"), ("\"base_log\"", "\"base_lg\""), ("true", "1"), ("2048", "-1"), ("Batched", "Batch"), ("[", "{"), (":", " "), ("\"base_log\":", "\"extra\":1,\"base_log\":"),
                        ("\"iterations\":", "\"iterations\":1,\"iterations\":"), ("-55.0", "-55"), ("-40.0", "-4e1"), ("\"rows\"", "\"row\\u0073\""),
                        ("SingleQuery", "singleQuery"), ("Batched", "Batched\\u0020"), ("\"iterations\":", "\"iterations_\":"), ("true", "\"true\""), ("false", "null"), ("}", "},"), ("[", "[[]"), ("[[", "[null,[")];
                    let (a, b) = *r.pick(&pairs);
                    text = text.replacen(a, b, 1);
                }
                3 => text.push_str(*r.pick(&["]", "x", "[]", "\n\n", "\u{0}"])),
                _ => {}
            }
            for _ in 0..r.n(3) {
                let kind = match r.n(7) {
                    0 => IoKind::Err(libc::EINTR),
                    1 => IoKind::Err(libc::EIO),
                    2 => IoKind::ErrAll(libc::EIO),
                    3 => IoKind::Short(r.r(1, 100)),
                    4 | 5 => IoKind::ShortAll(r.r(1, 300)),
                    _ => IoKind::Eof,
                };
                faults.push(IoFault { target: "file".into(), call: "io".into(), at: r.n(8) as u64, kind });
            }
            if r.one_in(8) {
                faults.push(IoFault { target: "file".into(), call: "open".into(), at: 0, kind: IoKind::ErrAll(*r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EIO])) });
            }
        }
        file = Some(text);
        let at = r.n(args.len() / 2 + 1) * 2;
        args.insert(at, FILE.into());
        args.insert(at, "--params".into());
        if c13 && r.one_in(12) {
            file = None; // the path names nothing
        }
    }
    if r.one_in(4) {
        // the other way to write options
        let mut v: Vec<String> = vec![];
        let mut i = 0;
        while i < args.len() {
            if args[i + 1] != FILE && r.pct(60) {
                v.push(format!("{}={}", args[i], args[i + 1]));
            } else {
                v.extend([args[i].clone(), args[i + 1].clone()]);
            }
            i += 2;
        }
        args = v;
    }
    let mut lone: Vec<&str> = vec![];
    if r.one_in(5) {
        lone.push("--verbose");
    }
    if r.one_in(5) {
        lone.push("--secure-seed");
    }
    if c13 {
        lone.push("--dryrun");
    }
    for x in lone {
        if r.pct(50) {
            args.insert(0, x.into());
        } else {
            args.push(x.into());
        }
    }
    if r.one_in(4) {
        let k = match r.n(6) {
            0 => IoKind::Err(libc::EINTR),
            1 => IoKind::Short(r.r(1, 30)),
            2 => IoKind::ShortAll(r.r(1, 30)),
            3 => IoKind::ErrAll(libc::EPIPE),
            4 => IoKind::ErrAll(libc::ENOSPC),
            _ => IoKind::Err(libc::EIO),
        };
        faults.push(IoFault { target: "stdout".into(), call: "io".into(), at: r.n(5) as u64, kind: k });
    }
    if real {
        crate::gen::gen_env(r, p);
    }
    p.faults.extend(faults);
    p.body.tool = Some(Tool { args, file, torn, dryrun: c13 });
}

// ------------------------------------------------------------------------------------------------
// the child: the tool itself

#[derive(Serialize, Deserialize, Default)]
struct Res {
    success: bool,
    panic: Option<String>,
    fatal: Option<String>,
    stdout: String,
    fired: std::collections::BTreeMap<String, u64>,
    out: Outcome,
}

fn emit(r: &Res) -> ! {
    let mut text = serde_json::to_string(r).unwrap();
    text.push('\n');
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = crate::sys::raw_write(1, &b[i..]);
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
    unsafe { libc::_exit(0) }
}

fn child_fatal(f: sched::Fatal, rep: Report) {
    let mut r = Res { fatal: Some(format!("{f:?}")), ..Default::default() };
    r.out.absorb(&rep);
    emit(&r)
}

/// The tool ended the process itself; `code` is what a shell would see.
pub fn child_exit(code: i32) -> ! {
    let mut r = Res { success: code == 0, ..Default::default() };
    if let Some((s, f)) = crate::sys::with(|w| (w.stdout.clone(), w.fired.clone())) {
        r.stdout = String::from_utf8_lossy(&s).into_owned();
        r.fired = f;
    }
    if code != 0 {
        r.panic = Some(format!("exit with status {code}"));
    }
    emit(&r)
}

pub fn child(plan_path: &str) -> ! {
    let p: Plan = serde_json::from_str(&std::fs::read_to_string(plan_path).expect("plan")).expect("plan");
    let file = std::env::var("PANACEA_SIM_FILE").unwrap_or_default();
    crate::core::install_panic_hook();
    sched::on_fatal(child_fatal);
    crate::warm_up();
    let w = World::new(p.entropy, p.clock.clone(), p.faults.clone(), vec![file], true);
    let r = sim(&p.sch, false, w, || {
        let ok = panacea_tool::run();
        // what process exit does
        let _ = std::io::stdout().flush();
        ok
    });
    let mut res = Res { fired: r.world.fired.clone(), stdout: String::from_utf8_lossy(&r.world.stdout).into_owned(), ..Default::default() };
    res.out.absorb(&r.rep);
    res.out.decisions = r.rep.decisions.clone();
    match r.res {
        Ok(ok) => res.success = ok,
        Err(e) => res.panic = Some(e),
    }
    emit(&res)
}

// ------------------------------------------------------------------------------------------------
// the parent: run it and judge

fn launch(p: &Plan, t: &Tool) -> Result<Res, V> {
    let dir = crate::scratch();
    let file = dir.join("params.json");
    let _ = std::fs::remove_file(&file);
    if let Some(text) = &t.file {
        let b = text.as_bytes();
        std::fs::write(&file, &b[..t.torn.unwrap_or(b.len()).min(b.len())]).unwrap();
    }
    let plan = dir.join("plan.json");
    std::fs::write(&plan, serde_json::to_string(p).unwrap()).unwrap();
    let args: Vec<String> = t.args.iter().map(|a| if a == FILE { file.to_string_lossy().into_owned() } else { a.clone() }).collect();
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args)
        .env(ENV, &plan)
        .env("PANACEA_SIM_FILE", &file)
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    let text = String::from_utf8_lossy(&out.stdout);
    match text.lines().last().and_then(|l| serde_json::from_str::<Res>(l).ok()) {
        Some(r) => Ok(r),
        None => {
            use std::os::unix::process::ExitStatusExt;
            v(&format!("tool-died-{}", out.status.signal().map(|s| format!("signal{s}")).unwrap_or("exit".into())),
                format!("the tool ended with {} and no output: {}", out.status, String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")))
        }
    }
}

/// (header, rows as header->value, lines starting with ### after each row)
type Row = (std::collections::BTreeMap<String, String>, Vec<String>);
fn parse(text: &str) -> Result<Vec<Row>, String> {
    let mut lines = text.split('\n').collect::<Vec<_>>();
    if lines.pop() != Some("") {
        return Err("the output does not end with a complete line".into());
    }
    let mut it = lines.into_iter();
    let head: Vec<&str> = it.next().ok_or("no output")?.split(',').map(|x| x.trim()).collect();
    let mut rows: Vec<Row> = vec![];
    for l in it {
        if l.starts_with('#') {
            match rows.last_mut() {
                Some(r) => r.1.push(l.to_string()),
                None => return Err(format!("unexpected line '{l}'")),
            }
            continue;
        }
        let f: Vec<&str> = l.split(',').map(|x| x.trim()).collect();
        if f.len() != head.len() {
            return Err(format!("a row with {} fields under a header with {}: '{l}'", f.len(), head.len()));
        }
        rows.push((head.iter().map(|x| x.to_string()).zip(f.iter().map(|x| x.to_string())).collect(), vec![]));
    }
    Ok(rows)
}

fn matches(rows: &[Row], want: &[Want]) -> Result<(), String> {
    if rows.len() != want.len() {
        return Err(format!("{} rows instead of {}", rows.len(), want.len()));
    }
    for (k, (r, w)) in rows.iter().zip(want).enumerate() {
        for (name, val) in &w.fields {
            let got = r.0.get(*name).map(|s| s.as_str()).unwrap_or("(absent)");
            if got != val {
                return Err(format!("row {k}: {name} is {got}, the configuration says {val}"));
            }
        }
    }
    Ok(())
}

/// `clock` is the simulated time the whole run took, if the clock ran evenly.
fn judge_real(rows: &[Row], want: &[Want], clock: Option<f64>, out: &mut Outcome) -> Result<(), String> {
    let mut total = 0.0;
    for (k, (r, w)) in rows.iter().zip(want).enumerate() {
        let num = |n: &str| -> Result<f64, String> {
            r.0.get(n).and_then(|x| x.parse::<f64>().ok()).filter(|x| x.is_finite()).ok_or(format!("row {k}: {n} is {:?}, not a number", r.0.get(n)))
        };
        let (s, d, a) = (num("setup_duration")?, num("server_duration")?, num("response_duration")?);
        if s < 0.0 || a < 0.0 || a > d {
            return Err(format!("row {k}: the durations are not ordered: setup {s}, server {d}, of which response {a}"));
        }
        let bits: f64 = r.0.get("plaintext_modulus").and_then(|x| x.strip_prefix("2^")).and_then(|x| x.parse().ok()).unwrap_or(1.0);
        total += s + d;
        if let Some(c) = clock {
            if !(s > 0.0 && a > 0.0) || total > c {
                return Err(format!("row {k}: setup {s} s and server {d} s, of which response {a} s, are not the durations of a run of {c} s"));
            }
        }
        let int = |n: &str| r.0.get(n).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        let cols = if w.mode == 2 { int("cols") } else { int("item_count") };
        let expect = crate::gen::noise_estimate(&crate::gen::tf(int("polynomial_size"), int("base_log"), int("level_count"),
            int("negs_base_log"), int("negs_level_count"), 1 << bits as u32, true), cols);
        let sd = num("standard_deviation")?;
        let mut noisy = |x: f64| -> Result<(), String> {
            out.gauge("reported-noise-above-estimate", x - expect);
            out.gauge("reported-noise-below-estimate", expect - x);
            if x >= 63.0 - bits {
                return Err(format!("row {k}: the noise {x} is beyond what decodes"));
            }
            if x > expect + 4.0 || x < 64.0 + sd - 1.0 {
                return Err(format!("row {k}: the noise {x} is not that of a response with these parameters (about {expect:.1}, at least {})", 64.0 + sd));
            }
            Ok(())
        };
        noisy(num("final_noise")?)?;
        if r.1.len() + 1 != w.iterations {
            return Err(format!("row {k}: {} further iterations reported for {} requested in all", r.1.len(), w.iterations));
        }
        for (j, l) in r.1.iter().enumerate() {
            let x = l.split("noise=").nth(1).and_then(|x| x.trim().parse::<f64>().ok()).filter(|x| x.is_finite());
            let ok = l.contains(&format!("mode={}", w.mode)) && l.contains(&format!("iter={}", j + 1));
            if let (true, Some(x)) = (ok, x) {
                noisy(x)?;
            } else {
                return Err(format!("row {k}: iteration line {j} is '{l}'"));
            }
        }
    }
    Ok(())
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let t = p.body.tool.clone().unwrap();
    let mut p2 = p.clone();
    let mut tries = 0;
    loop {
        tries += 1;
        let res = match launch(&p2, &t) {
            Ok(r) => r,
            Err(e) => {
                out.violation = Some(e);
                return out;
            }
        };
        let runs = out.runs;
        let mut o = res.out.clone();
        o.runs += runs;
        o.counts = Default::default();
        for (k, n) in out.counts.iter().chain(res.out.counts.iter()) {
            o.count(k, *n);
        }
        out = o;
        for (k, n) in &res.fired {
            out.count(&format!("fault.{k}"), *n);
        }
        if let Some(f) = &res.fatal {
            out.violation = Some((fatal_class(f), f.clone()));
            return out;
        }
        // what the file amounts to
        let flags = vec![from_flags(&t.args)];
        let default = vec![want(&OrM::Batched { rows: 384, cols: 16, iterations: 1 }, &tf_default())];
        let fired = |s: &str| res.fired.iter().any(|(k, n)| k.contains(s) && *n > 0);
        let open_failed = !t.args.iter().any(|a| a == FILE) || t.file.is_none() || fired("file.open.errno");
        let seen = t.file.as_ref().map(|x| {
            let b = x.as_bytes();
            String::from_utf8_lossy(&b[..t.torn.unwrap_or(b.len()).min(b.len())]).into_owned()
        });
        let parsed: Option<FileM> = seen.as_ref().and_then(|s| serde_json::from_str(s).ok());
        let eio = res.fired.keys().any(|k| k.starts_with("file.io.errno") && !k.ends_with("errno4"));
        let eof = fired("file.io.eof");
        let allowed: Vec<Vec<Want>> = if open_failed {
            vec![flags]
        } else {
            match (&parsed, eio || eof) {
                (None, false) => vec![default],
                (Some(l), false) => vec![from_list(l)],
                (None, true) => vec![default],
                (Some(l), true) => vec![default, from_list(l)],
            }
        };
        let lost_stdout = res.fired.keys().any(|k| k.starts_with("stdout.io.errno") && !k.ends_with("errno4"));
        out.checks += 1;
        out.nontrivial = !res.fired.is_empty() || t.torn.is_some() || (parsed.is_none() && t.file.is_some()) || !t.dryrun;
        if lost_stdout {
            // the table cannot be delivered: the tool must not report success
            let complete = parse(&res.stdout).ok().is_some_and(|rows| allowed.iter().any(|w| matches(&rows, w).is_ok()));
            if res.success && !complete {
                out.violation = Some(("lost-output".into(), format!("standard output failed ({:?}), the table is incomplete, and the tool exits successfully", res.fired)));
            }
            return out;
        }
        if let Some(e) = &res.panic {
            // a batch whose items cannot all be placed is refused; other hash tables will do
            // (at most once in a while, and never while a row has fewer cells than an item has copies)
            let cells = |w: &Want| w.fields.iter().find(|f| f.0 == "cols").and_then(|f| f.1.parse::<usize>().ok()).unwrap_or(0);
            if t.args.iter().all(|a| a != "--dryrun") && tries < 2 && allowed.iter().flatten().any(|w| w.mode == 2 && cells(w) > 3) {
                p2.entropy = p2.entropy.wrapping_add(0x9E37_79B9_7F4A_7C15);
                out.count("retries-with-other-hash-tables", 1);
                continue;
            }
            out.violation = Some(panic_violation(e));
            return out;
        }
        if !res.success {
            out.violation = Some(("tool-failed".into(), "the tool reports failure on a run that meets no fault it could not handle".into()));
            return out;
        }
        let rows = match parse(&res.stdout) {
            Ok(r) => r,
            Err(e) => {
                out.violation = Some(("output-format".into(), e));
                return out;
            }
        };
        let Some(w) = allowed.iter().find(|w| matches(&rows, w).is_ok()) else {
            let e = matches(&rows, allowed.last().unwrap()).unwrap_err();
            out.violation = Some(("wrong-configurations".into(), format!("{e} (file {}, faults {:?})",
                if open_failed { "not openable" } else if parsed.is_some() { "valid" } else { "invalid" }, res.fired)));
            return out;
        };
        if !t.dryrun {
            let even = tries == 1 && !p.clock.frozen && !p.clock.mono_frozen && p.clock.jumps.is_empty();
            if let Err(e) = judge_real(&rows, w, even.then_some(out.sim_ns as f64 * 1e-9), &mut out) {
                out.violation = Some(("bad-report".into(), e));
            }
        } else if rows.iter().any(|r| !r.1.is_empty()) {
            out.violation = Some(("output-format".into(), "a dry run printed iteration lines".into()));
        }
        return out;
    }
}

pub fn fatal_class(f: &str) -> String {
    if f.starts_with("Deadlock") {
        "deadlock".into()
    } else {
        "step-limit".into()
    }
}
