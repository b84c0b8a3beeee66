//! C17: reading a feature file under I/O faults.
use crate::core::*;
use crate::exec::*;
use crate::plan::*;
use crate::sys::{IoKind, World};

/// The text of every cell.
fn cells(c: &Csv) -> Vec<Vec<String>> {
    let mut t: Vec<Vec<String>> = c.rows.iter().map(|r| r.iter().map(|x| x.to_string()).collect()).collect();
    for (r, k, text) in &c.odd {
        if let Some(x) = t.get_mut(*r).and_then(|x| x.get_mut(*k)) {
            *x = text.clone();
        }
    }
    for (r, d) in &c.ragged {
        if let Some(row) = t.get_mut(*r) {
            let n = (row.len() as i64 + d).max(1) as usize;
            row.resize(n, "1".into());
        }
    }
    t
}

/// The value of a cell: `None` if there is none, and whether it is written plainly.
fn value(text: &str) -> (Option<usize>, bool) {
    let bare = text.strip_prefix('"').and_then(|x| x.strip_suffix('"')).unwrap_or(text);
    let plain = !bare.is_empty() && bare.bytes().all(|b| b.is_ascii_digit());
    let t = bare.trim();
    let t = t.strip_prefix('+').unwrap_or(t);
    let v = if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) { t.parse().ok() } else { None };
    (v, plain && v.is_some())
}

pub fn run(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let c = p.body.csv.clone().unwrap();
    let dir = crate::scratch();
    let path = dir.join("features.csv");
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let t = cells(&c);
    let mut text = String::new();
    for (k, r) in t.iter().enumerate() {
        if c.blank.contains(&k) {
            text.push_str(nl);
        }
        text.push_str(&r.join(","));
        if k + 1 < t.len() || !c.no_end {
            text.push_str(nl);
        }
    }
    if c.blank.contains(&t.len()) && !c.no_end {
        text.push_str(nl);
    }
    std::fs::write(&path, &text).unwrap();
    // what the table says; the first line is the header
    let lines: Vec<&Vec<String>> = t.iter().collect();
    let data = lines.get(1..).unwrap_or(&[]);
    let mut want: Option<Vec<Vec<usize>>> = Some(vec![]);
    let mut tidy = lines.iter().all(|l| l.len() == lines[0].len());
    // a line of nothing but an empty cell is a blank line
    let void = |l: &Vec<String>| l.len() == 1 && l[0].is_empty();
    tidy &= !lines.iter().any(|l| void(l));
    for l in data {
        let mut row = vec![];
        for x in l.iter() {
            let (v, plain) = value(x);
            tidy &= plain;
            match v {
                Some(v) => row.push(v),
                None => want = None,
            }
        }
        if let Some(w) = &mut want {
            w.push(row);
        }
    }
    let w = World::new(p.entropy, p.clock.clone(), p.faults.clone(), vec![path.to_string_lossy().into_owned()], false);
    let pp = path.clone();
    let r = sim(&p.sch, false, w, move || panacea::utils::parse_csv(&pp));
    finish(&mut out, &r);
    out.checks = 1;
    let hard = p.faults.iter().any(|f| !matches!(f.kind, IoKind::Short(_) | IoKind::ShortAll(_)));
    let hard_fired = r.world.fired.keys().any(|k| !k.contains("short"));
    let open_fault = p.faults.iter().any(|f| f.call == "open");
    match r.res {
        Err(e) => {
            if !(hard && hard_fired) && !open_fault {
                if tidy {
                    out.violation = Some(panic_violation(&e));
                } else {
                    out.count("irregular-tables-refused", 1);
                }
            }
        }
        Ok(rows) => {
            // blank lines may stand for nothing
            let unclear = lines.iter().any(|l| void(l));
            match &want {
                Some(w) if rows == *w => {}
                _ if unclear => {}
                Some(w) => {
                    out.violation = Some(("partial".into(), format!("{} rows returned for a file of {} (after {:?}): not the rows of the file", rows.len(), w.len(), r.world.fired)));
                }
                None => {
                    out.violation = Some(("partial".into(), format!("{} rows returned for a file of {}, some of whose cells have no value", rows.len(), data.len())));
                }
            }
        }
    }
    out.nontrivial = r.world.fired.values().sum::<u64>() > 0 || !tidy;
    let _ = std::fs::remove_file(path);
    out
}
