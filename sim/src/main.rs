//! Deterministic simulation of Panacea.  See /verif/DESIGN.md.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod core;
mod csvp;
mod driver;
mod exec;
mod gen;
mod plan;
mod queries;
mod rng;
mod seeding;
mod shrink;
mod sys;
mod toolp;
mod algp;
mod treep;

use plan::*;
use std::io::{BufRead, Write};
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

#[global_allocator]
static ALLOC: sys::Tracer = sys::Tracer;

/// A directory of this process, under one the driver creates and removes.
pub fn scratch() -> PathBuf {
    let root = std::env::var("PANACEA_SIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| driver::scratch_root());
    let d = root.join(std::process::id().to_string());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Process-wide caches whose first use depends on timing or entropy are filled before any run.
pub fn warm_up() {
    sys::WARM.store(true, SeqCst);
    let mut n = 16;
    while n <= 4096 {
        let _ = panacea::context::FftBuffer::new(concrete_core::prelude::PolynomialSize(n));
        n *= 2;
    }
    let _: u64 = rand::random();
    let _ = std::collections::HashMap::<u8, u8>::new();
    sys::WARM.store(false, SeqCst);
}

static CURRENT: Mutex<Option<u64>> = Mutex::new(None);

fn say(index: u64, o: &Outcome) {
    let mut text = serde_json::to_string(&(index, o)).unwrap();
    text.push('\n');
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = sys::raw_write(1, &b[i..]);
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
}

fn fatal(f: panacea_simstd::sched::Fatal, rep: panacea_simstd::sched::Report) {
    let mut o = Outcome { decisions: rep.decisions.clone(), ..Default::default() };
    o.absorb(&rep);
    let d = format!("{f:?}");
    o.violation = Some((toolp::fatal_class(&d), d));
    say(CURRENT.lock().map(|c| c.unwrap_or(0)).unwrap_or(0), &o);
    unsafe { libc::_exit(77) }
}

fn start() {
    core::install_panic_hook();
    panacea_simstd::sched::on_fatal(fatal);
    warm_up();
}

/// Execute plans given as lines on standard input: either an index or a plan in JSON.
fn worker(prop: &str, seed: u64) {
    start();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let (index, p) = match line.trim().parse::<u64>() {
            Ok(i) => (i, gen::plan(prop, seed, i)),
            Err(_) => {
                let p: Plan = serde_json::from_str(&line).expect("plan");
                (p.index, p)
            }
        };
        *CURRENT.lock().unwrap() = Some(index);
        let o = exec::execute(&p);
        say(index, &o);
        let _ = std::io::stdout().flush();
    }
    let _ = std::fs::remove_dir_all(scratch());
}

fn main() {
    std::env::remove_var("RAYON_NUM_THREADS");
    std::env::remove_var("RAYON_RS_NUM_CPUS");
    if let Ok(p) = std::env::var(toolp::ENV) {
        toolp::child(&p);
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match arg(1) {
        "worker" => {
            worker(arg(2), arg(3).parse().expect("seed"));
            0
        }
        "plan" => {
            println!("{}", serde_json::to_string_pretty(&gen::plan(arg(2), seed, arg(3).parse().unwrap())).unwrap());
            0
        }
        "check" => driver::check(arg(2), seed, if arg(3).is_empty() { "quick" } else { arg(3) }),
        "replay" => driver::replay(arg(2)),
        "determinism" => driver::determinism(arg(2), seed, arg(3).parse().unwrap_or(40)),
        "est" => {
            for t in gen::standard_sets() {
                let v: Vec<String> = [2usize, 4, 16, 64, 256, 1024].iter().map(|c| format!("{:.1}", gen::noise_room(&t, *c))).collect();
                println!("{:?} room {}", (t.n, t.bl, t.l, t.nbl, t.nl, t.t), v.join(" "));
            }
            0
        }
        "run" => {
            // one plan, or a range of them, in this process (for looking into things)
            start();
            let from: u64 = arg(3).parse().unwrap();
            let to: u64 = arg(4).parse().unwrap_or(from + 1);
            for i in from..to {
                *CURRENT.lock().unwrap() = Some(i);
                let t0 = sys::real_ns();
                let p = gen::plan(arg(2), seed, i);
                let o = exec::execute(&p);
                let ms = (sys::real_ns() - t0) / 1_000_000;
                println!("{i}: {ms} ms hash {:016x} steps {} threads {} checks {} {:?} {:?} tf {:?} geo {:?}", o.hash, o.steps, o.threads, o.checks, o.violation, o.gauges, (p.tfhe.std, p.tfhe.n, p.tfhe.bl, p.tfhe.l, p.tfhe.nbl, p.tfhe.nl, p.tfhe.t), p.geo);
            }
            let _ = std::fs::remove_dir_all(scratch());
            0
        }
        _ => {
            eprintln!("usage: panacea-sim check <ID> [quick|thorough] | replay <file> | run <ID> <from> [to] | plan <ID> <index> | determinism <ID> [n]");
            2
        }
    };
    std::process::exit(code);
}
