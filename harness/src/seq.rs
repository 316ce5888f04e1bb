//! Exhaustive enumeration of operation sequences on the real code, in lockstep with a model.
use crate::par::{self, Lost, Worker};
use crate::report::{Finding, Report};
use std::collections::HashSet;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub trait Scenario: Sync {
    type Op: Debug + Sync + Send;
    type Sys;
    /// unique, replays refer to it
    fn name(&self) -> String;
    fn ops(&self) -> &[Self::Op];
    fn init(&self) -> Self::Sys;
    /// false if the sequence is outside of the explored space (the whole subtree is skipped).
    /// Only looks at the model
    fn enabled(&self, _sys: &Self::Sys, _op: &Self::Op) -> bool {
        true
    }
    /// applies the operation to implementation and model, compares their answers if check
    fn apply(&self, sys: &mut Self::Sys, op: &Self::Op, check: bool) -> Result<(), String>;
    /// fingerprint of the model state
    fn fingerprint(&self, sys: &Self::Sys) -> u64;
    /// extra check at the end of each maximal sequence
    fn at_end(&self, _sys: &mut Self::Sys) -> Result<(), String> {
        Ok(())
    }
}

enum Step {
    Ok,
    Pruned,
    Bad(String),
}

fn step<S: Scenario>(s: &S, sys: &mut S::Sys, op: &S::Op, check: bool) -> Step {
    if !s.enabled(sys, op) {
        return Step::Pruned;
    }
    let r = catch_unwind(AssertUnwindSafe(|| mcstd::mc::solo(|| s.apply(sys, op, check))));
    match r {
        Ok(Ok(())) => Step::Ok,
        Ok(Err(e)) => Step::Bad(e),
        Err(e) => Step::Bad(format!("panic: {}", mcstd::mc::panic_message(&*e))),
    }
}

fn end<S: Scenario>(s: &S, sys: &mut S::Sys) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| mcstd::mc::solo(|| s.at_end(sys)))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", mcstd::mc::panic_message(&*e))),
    }
}

/// runs one sequence with all checks; first failing position and message
pub fn run_sequence<S: Scenario>(s: &S, seq: &[usize]) -> Result<(), (usize, String)> {
    let mut sys = s.init();
    for (i, op) in seq.iter().enumerate() {
        match step(s, &mut sys, &s.ops()[*op], true) {
            Step::Ok => {}
            Step::Pruned => return Ok(()),
            Step::Bad(e) => return Err((i, e)),
        }
    }
    end(s, &mut sys).map_err(|e| (seq.len(), e))
}

fn minimise<S: Scenario>(s: &S, seq: &[usize]) -> (Vec<usize>, String) {
    let mut best = seq.to_vec();
    let mut msg = String::new();
    if let Err((i, e)) = run_sequence(s, &best) {
        best.truncate(i + 1);
        msg = e;
    }
    let mut i = 0;
    while i < best.len() {
        let mut shorter = best.clone();
        shorter.remove(i);
        if let Err((_, e)) = run_sequence(s, &shorter) {
            best = shorter;
            msg = e;
        } else {
            i += 1;
        }
    }
    (best, msg)
}

pub fn text<S: Scenario>(s: &S, seq: &[usize]) -> Vec<String> {
    seq.iter().map(|x| format!("{:?}", s.ops()[*x])).collect()
}

pub fn violation<S: Scenario>(s: &S, seq: &[usize]) -> Finding {
    let (seq, msg) = minimise(s, seq);
    finding(s, seq, msg)
}

fn finding<S: Scenario>(s: &S, seq: Vec<usize>, msg: String) -> Finding {
    let ops = text(s, &seq);
    let key = format!("{}:{}", s.name(), seq.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"));
    Finding {
        key,
        text: format!("scenario {}\n{}\n=> {}", s.name(), ops.join("\n"), msg),
        replay: serde_json::json!({
            "kind": "sequence", "scenario": s.name(), "indices": seq, "operations": ops, "message": msg,
        }),
    }
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    transitions: u64,
    leaves: u64,
    pruned: u64,
    states: HashSet<u64>,
    findings: Vec<Finding>,
}

/// All sequences of `depth` operations which begin with prefix.
fn explore_prefix<S: Scenario>(s: &S, prefix: &[usize], depth: usize, check_from: usize, w: &Worker, st: &mut Stats) {
    let n = s.ops().len();
    let mut seq = prefix.to_vec();
    seq.resize(depth, 0);
    // first position whose prefix has not been checked yet
    let mut fresh = check_from;
    'outer: loop {
        if w.stopped() {
            break;
        }
        w.doing(&seq);
        let mut sys = s.init();
        let mut failed_at = None;
        for i in 0..depth {
            match step(s, &mut sys, &s.ops()[seq[i]], i >= fresh) {
                Step::Ok => {
                    st.transitions += 1;
                    if i >= fresh && st.states.len() < 2_000_000 {
                        st.states.insert(s.fingerprint(&sys));
                    }
                }
                Step::Pruned => {
                    st.pruned += 1;
                    failed_at = Some(i);
                    break;
                }
                Step::Bad(_) => {
                    st.findings.push(violation(s, &seq[..=i]));
                    failed_at = Some(i);
                    break;
                }
            }
        }
        if failed_at.is_none() {
            st.leaves += 1;
            if end(s, &mut sys).is_err() {
                st.findings.push(violation(s, &seq));
            }
        }
        if st.findings.len() >= 3 {
            w.stop();
        }
        // next sequence
        let mut pos = failed_at.unwrap_or(depth - 1);
        loop {
            if pos < prefix.len() {
                break 'outer;
            }
            if seq[pos] + 1 < n {
                seq[pos] += 1;
                for x in seq.iter_mut().skip(pos + 1) {
                    *x = 0;
                }
                fresh = pos;
                break;
            }
            if pos == 0 {
                break 'outer;
            }
            pos -= 1;
        }
    }
}

/// Enumerates every sequence of up to `depth` operations.
pub fn explore<S: Scenario>(s: &S, depth: usize, report: &Report) {
    if report.stop_early() {
        return;
    }
    if std::env::var("MC_GROUP").map_or(false, |g| !s.name().contains(&g)) {
        return;
    }
    let start = std::time::Instant::now();
    let n = s.ops().len();
    let work_len = if depth >= 3 && n < 60 { 2 } else { 1 }.min(depth);
    let mut work: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..work_len {
        work = work
            .into_iter()
            .flat_map(|w| {
                (0..n).map(move |x| {
                    let mut w = w.clone();
                    w.push(x);
                    w
                })
            })
            .collect();
    }
    let (results, lost) = par::run(crate::workers(), Duration::from_secs(20), |w| {
        let mut st = Stats::default();
        loop {
            let i = w.next();
            if i >= work.len() || w.stopped() {
                break;
            }
            // the common first operations are checked by the first work unit which has them
            let p = &work[i];
            let mut check_from = p.len();
            while check_from > 0 && p[check_from..].iter().all(|x| *x == 0) {
                check_from -= 1;
            }
            explore_prefix(s, p, depth, check_from, w, &mut st);
        }
        st
    });
    let mut t = Stats::default();
    for r in results {
        t.transitions += r.transitions;
        t.leaves += r.leaves;
        t.pruned += r.pruned;
        t.states.extend(r.states);
        t.findings.extend(r.findings);
    }
    for (l, seq) in lost {
        let msg = match l {
            Lost::Died(st) => format!("the process died (wait status {st})"),
            Lost::Hung => "does not terminate".to_string(),
        };
        t.findings.push(finding(s, seq, msg));
    }
    if !t.findings.is_empty() {
        report.inner.lock().unwrap().exhaustive = false;
    }
    t.findings.sort_by_key(|f| f.key.len());
    for f in t.findings.drain(..) {
        report.find(f);
    }
    let states = t.states.len() as u64;
    report.add(
        &format!("sequences {}", s.name()),
        states,
        t.transitions,
        t.leaves,
        serde_json::json!({
            "operations": n, "depth": depth, "sequences": t.leaves, "skipped_subtrees": t.pruned,
            "transitions": t.transitions, "distinct_model_states": states,
            "seconds": start.elapsed().as_secs_f64(),
        }),
    );
    if n > 0 {
        let seq: Vec<usize> = (0..depth).map(|i| (i * 7 + 3) % n).collect();
        report.sample(serde_json::json!({"scenario": s.name(), "sequence": text(s, &seq)}));
    }
}

pub fn replay<S: Scenario>(s: &S, indices: &[usize]) -> Vec<String> {
    let mut out = text(s, indices);
    match run_sequence(s, indices) {
        Ok(()) => out.push("=> no violation".into()),
        Err((i, e)) => out.push(format!("=> after operation {}: {}", i + 1, e)),
    }
    out
}
