//! Exhaustive enumeration of the interleavings of a few threads on the real code, up to a number of
//! preemptions and faults (time outs while others can go on, spurious wake ups).
use crate::par::{self, Lost, Worker};
use crate::report::{Finding, Report};
use mcstd::mc::Outcome;
use std::collections::BTreeMap;
use std::time::Duration;

pub struct Run {
    pub outcome: Outcome,
    pub verdict: Result<(), String>,
    /// hash of what was observed, to count different behaviours
    pub observed: u64,
}

pub trait Program: Sync {
    fn name(&self) -> String;
    /// text of the threads
    fn describe(&self) -> Vec<String>;
    /// sets up the system, executes its threads with the schedule and checks the result.
    /// Called on a new thread
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run;
    /// an expected deadlock or time out is for the program to judge
    fn check_outcome(&self, o: &Outcome) -> Result<(), String> {
        if let Some(d) = &o.deadlock {
            return Err(d.clone());
        }
        if let Some((t, p)) = o.panics.first() {
            return Err(format!("thread {t} panicked: {p}"));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Bound {
    pub preemptions: u8,
    pub faults: u8,
}

pub fn run_fresh<P: Program + ?Sized>(p: &P, prefix: Vec<u8>, log: bool) -> Run {
    // a new thread has the same hash seeds each time
    std::thread::scope(|s| {
        s.spawn(|| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(prefix, log)));
            match r {
                Ok(mut r) => {
                    if let Err(e) = p.check_outcome(&r.outcome) {
                        r.verdict = Err(e);
                    }
                    r
                }
                Err(e) => Run {
                    outcome: Outcome::default(),
                    verdict: Err(format!("panic: {}", mcstd::mc::panic_message(&*e))),
                    observed: 0,
                },
            }
        })
        .join()
        .unwrap()
    })
}

pub fn hex(p: &[u8]) -> String {
    p.iter().map(|x| format!("{x:02x}")).collect()
}
/// the choices of a schedule, and the kinds of locks which are held for a step
fn schedule_key(prefix: &[u8]) -> String {
    let windows = mcstd::mc::windows();
    if windows.is_empty() {
        hex(prefix)
    } else {
        format!("{}|{}", hex(prefix), windows.join("|"))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn violation<P: Program + ?Sized>(p: &P, prefix: &[u8]) -> Result<Finding, String> {
    let r = run_fresh(p, prefix.to_vec(), true);
    let Err(msg) = &r.verdict else {
        return Err(format!("{}: violation is not reproducible", p.name()));
    };
    Ok(Finding {
        key: format!("{}:{}", p.name(), schedule_key(prefix)),
        text: format!(
            "program {}\n{}\nschedule:\n{}\n=> {}",
            p.name(),
            p.describe().join("\n"),
            r.outcome.log.iter().rev().take(25).rev().cloned().collect::<Vec<_>>().join("\n"),
            msg
        ),
        replay: serde_json::json!({
            "kind": "schedule", "scenario": p.name(), "prefix": schedule_key(prefix),
            "threads": p.describe(), "schedule": r.outcome.log, "message": msg,
        }),
    })
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub findings: Vec<Finding>,
    pub machinery: Vec<String>,
    pub programs: u64,
    pub schedules: u64,
    pub steps: u64,
    pub observed: std::collections::HashSet<u64>,
    pub diverged: u64,
    pub max_points: u64,
    pub truncated: u64,
    pub windows: u64,
}

/// all schedules of one program within the bound; single threaded
fn explore_one<P: Program + ?Sized>(p: &P, bound: Bound, max: u64, w: &Worker, st: &mut Stats) {
    let mut windows = vec![];
    mcstd::mc::set_windows(vec![]);
    st.programs += 1;
    while let Some(more) = explore_windows(p, bound, max, w, st) {
        // again, now with the time in which these locks are held
        windows.extend(more);
        mcstd::mc::set_windows(windows.clone());
        st.windows += 1;
    }
    mcstd::mc::set_windows(vec![]);
}

/// ... until locks are tried for which there are no windows yet
fn explore_windows<P: Program + ?Sized>(p: &P, bound: Bound, max: u64, w: &Worker, st: &mut Stats) -> Option<Vec<String>> {
    let windows = mcstd::mc::windows();
    // cheapest schedules first, so that a violation is reported with few preemptions
    let mut queue: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new();
    queue.entry(0).or_default().push(vec![]);
    let mut count = 0;
    while let Some(mut e) = queue.first_entry() {
        let Some(prefix) = e.get_mut().pop() else {
            e.remove();
            continue;
        };
        let plen = prefix.len();
        w.beat();
        let r = run_fresh(p, prefix.clone(), false);
        count += 1;
        st.schedules += 1;
        st.steps += r.outcome.steps;
        st.observed.insert(r.observed);
        st.max_points = st.max_points.max(r.outcome.points.len() as u64);
        if r.outcome.diverged {
            st.diverged += 1;
        }
        if r.verdict.is_err() {
            match violation(p, &prefix) {
                Ok(f) => st.findings.push(f),
                Err(e) => st.machinery.push(e),
            }
            return None;
        }
        let more: Vec<String> =
            r.outcome.tried.iter().filter(|k| !windows.iter().any(|x| x == *k)).map(|k| k.to_string()).collect();
        if !more.is_empty() {
            return Some(more);
        }
        if count >= max {
            st.truncated += 1;
            return None;
        }
        // alternatives after the prefix
        let pts = &r.outcome.points;
        let (mut pre, mut faults) = (0u32, 0u32);
        let mut chosen = Vec::with_capacity(pts.len());
        for (i, pt) in pts.iter().enumerate() {
            if i >= plen {
                for (o, c) in pt.options.iter().zip(&pt.costs) {
                    if *o == pt.chosen {
                        continue;
                    }
                    let (a, b) = (pre + c.0 as u32, faults + c.1 as u32);
                    if a <= bound.preemptions as u32 && b <= bound.faults as u32 {
                        let mut alt: Vec<u8> = chosen.clone();
                        alt.push(*o);
                        queue.entry(a + b).or_default().push(alt);
                    }
                }
            }
            let k = pt.options.iter().position(|o| *o == pt.chosen).unwrap_or(0);
            pre += pt.costs[k].0 as u32;
            faults += pt.costs[k].1 as u32;
            chosen.push(pt.chosen);
        }
    }
    None
}

/// explores a list of programs in parallel
pub fn explore<P: Program>(group: &str, programs: &[P], bound: Bound, max: u64, report: &Report) {
    if report.stop_early() || programs.is_empty() {
        return;
    }
    if std::env::var("MC_GROUP").map_or(false, |g| !group.contains(&g)) {
        return;
    }
    let start = std::time::Instant::now();
    let (results, lost) = par::run(crate::workers(), Duration::from_secs(60), |w| {
        let mut st = Stats::default();
        loop {
            let i = w.next();
            if i >= programs.len() || w.stopped() {
                break;
            }
            w.doing(&[i]);
            explore_one(&programs[i], bound, max, w, &mut st);
            if st.findings.len() >= 2 {
                w.stop();
            }
        }
        st
    });
    let mut t = Stats::default();
    for st in results {
        t.programs += st.programs;
        t.schedules += st.schedules;
        t.steps += st.steps;
        t.diverged += st.diverged;
        t.truncated += st.truncated;
        t.windows += st.windows;
        t.max_points = t.max_points.max(st.max_points);
        t.observed.extend(st.observed);
        t.findings.extend(st.findings);
        t.machinery.extend(st.machinery);
    }
    for (l, trace) in lost {
        let p = &programs[trace.first().copied().unwrap_or(0)];
        let msg = match l {
            Lost::Died(st) => format!("the process died (wait status {st})"),
            Lost::Hung => "does not terminate".to_string(),
        };
        t.findings.push(Finding {
            key: p.name(),
            text: format!("program {}\n{}\n=> {}", p.name(), p.describe().join("\n"), msg),
            replay: serde_json::json!({
                "kind": "schedule", "scenario": p.name(), "prefix": "", "threads": p.describe(), "message": msg,
            }),
        });
    }
    if !t.findings.is_empty() {
        report.inner.lock().unwrap().exhaustive = false;
    }
    t.findings.sort_by_key(|f| f.key.len());
    for f in t.findings.drain(..) {
        report.find(f);
    }
    for m in t.machinery.drain(..) {
        report.machinery(m);
    }
    if t.diverged > 0 {
        report.machinery(format!("{group}: {} schedules were not deterministic", t.diverged));
    }
    if t.truncated > 0 || t.programs < programs.len() as u64 {
        report.inner.lock().unwrap().exhaustive = false;
    }
    report.add(
        &format!("schedules {group}"),
        t.observed.len() as u64,
        t.steps,
        t.schedules,
        serde_json::json!({
            "programs": t.programs, "schedules": t.schedules, "scheduling_steps": t.steps,
            "distinct_behaviours": t.observed.len(), "preemption_bound": bound.preemptions,
            "fault_bound": bound.faults, "max_choice_points": t.max_points,
            "programs_cut_at_limit": t.truncated, "limit_per_program": max,
            "nondeterministic_replays": t.diverged, "programs_with_tried_locks": t.windows,
            "seconds": start.elapsed().as_secs_f64(),
        }),
    );
    report.sample(serde_json::json!({"program": programs[programs.len() / 2].describe()}));
}

pub fn replay<P: Program + ?Sized>(p: &P, prefix: &str) -> Vec<String> {
    let mut parts = prefix.split('|').map(String::from);
    let prefix = parts.next().unwrap_or_default();
    mcstd::mc::set_windows(parts.collect());
    let r = run_fresh(p, unhex(&prefix), true);
    let mut out = p.describe();
    out.extend(r.outcome.log);
    out.push(match r.verdict {
        Ok(()) => "=> no violation".into(),
        Err(e) => format!("=> {e}"),
    });
    out
}
