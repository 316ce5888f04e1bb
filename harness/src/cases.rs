//! Exhaustive enumeration of a finite set of inputs / configurations on the real code.
use crate::par::{self, Lost, Worker};
use crate::report::{Finding, Report};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub trait Cases: Sync {
    fn name(&self) -> String;
    fn len(&self) -> usize;
    fn describe(&self, i: usize) -> String;
    /// number of comparisons which were made with the reference
    fn check(&self, i: usize) -> Result<u64, String>;
    /// memory which a case may need at most (address space of the worker is limited)
    fn memory_limit(&self) -> u64 {
        0
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(20)
    }
    fn max_findings(&self) -> usize {
        3
    }
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

pub fn check_one<C: Cases + ?Sized>(c: &C, i: usize) -> Result<u64, String> {
    match catch_unwind(AssertUnwindSafe(|| mcstd::mc::solo(|| c.check(i)))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", mcstd::mc::panic_message(&*e))),
    }
}

fn finding<C: Cases + ?Sized>(c: &C, i: usize, msg: String) -> Finding {
    Finding {
        key: format!("{}:{}", c.name(), i),
        text: format!("case {} of {}\n{}\n=> {}", i, c.name(), c.describe(i), msg),
        replay: serde_json::json!({
            "kind": "case", "scenario": c.name(), "indices": [i], "case": c.describe(i), "message": msg,
        }),
    }
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    cases: u64,
    comparisons: u64,
    findings: Vec<Finding>,
}

pub fn explore<C: Cases + ?Sized>(c: &C, report: &Report) {
    if report.stop_early() {
        return;
    }
    if std::env::var("MC_GROUP").map_or(false, |g| !c.name().contains(&g)) {
        return;
    }
    let start = std::time::Instant::now();
    let n = c.len();
    let chunk = (n / 4096).clamp(1, 64);
    let (results, lost) = par::run(crate::workers(), c.patience(), |w: &Worker| {
        let limit = c.memory_limit();
        if limit > 0 {
            // RLIMIT_AS
            unsafe { setrlimit(9, &[limit, limit]) };
        }
        let mut st = Stats::default();
        loop {
            let first = w.next() * chunk;
            if first >= n || w.stopped() {
                break;
            }
            for i in first..(first + chunk).min(n) {
                w.doing(&[i]);
                st.cases += 1;
                match check_one(c, i) {
                    Ok(k) => st.comparisons += k,
                    Err(e) => st.findings.push(finding(c, i, e)),
                }
                if st.findings.iter().filter(|f| !report.is_known(f)).count() >= c.max_findings() {
                    w.stop();
                    break;
                }
            }
        }
        st
    });
    let mut t = Stats::default();
    for r in results {
        t.cases += r.cases;
        t.comparisons += r.comparisons;
        t.findings.extend(r.findings);
    }
    for (l, trace) in lost {
        let msg = match l {
            Lost::Died(st) => format!("the process died (wait status {st})"),
            Lost::Hung => "does not terminate".to_string(),
        };
        let i = trace.first().copied().unwrap_or(0);
        t.findings.push(finding(c, i, msg));
    }
    if t.findings.iter().any(|f| !report.is_known(f)) || t.cases < n as u64 {
        report.inner.lock().unwrap().exhaustive = false;
    }
    t.findings.sort_by_key(|f| f.replay["indices"][0].as_u64());
    for f in t.findings.drain(..) {
        report.find(f);
    }
    report.add(
        &format!("cases {}", c.name()),
        t.cases,
        t.comparisons,
        t.cases,
        serde_json::json!({
            "cases": t.cases, "comparisons_with_reference": t.comparisons,
            "seconds": start.elapsed().as_secs_f64(),
        }),
    );
    if n > 0 {
        report.sample(serde_json::json!({"cases": c.name(), "example": c.describe(n / 2)}));
    }
}

pub fn replay<C: Cases + ?Sized>(c: &C, i: usize) -> Vec<String> {
    let mut out = vec![c.describe(i)];
    out.push(match check_one(c, i) {
        Ok(_) => "=> no violation".into(),
        Err(e) => format!("=> {e}"),
    });
    out
}
