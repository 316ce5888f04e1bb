//! Filters which are added while the store is in use: C14.
use crate::main_model::{entry_real, seen_of, FilterEntry, Filters, Write, F};
use crate::main_seq::w;
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use mcstd::mc;
use std::collections::HashSet;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum FOp {
    /// one call with these entries
    Add(Vec<FilterEntry>),
    Accepts(Write),
    Listed(u8),
    Covers(u8, Vec<F>),
}

pub struct Adding {
    pub name: String,
    pub setup: Vec<FOp>,
    pub threads: Vec<Vec<FOp>>,
    pub oracle: OnceLock<HashSet<Vec<Vec<bool>>>>,
}

fn real(s: &MutableFilterStore, op: &FOp) -> bool {
    match op {
        FOp::Add(e) => {
            s.add_account_filters(&e.iter().map(entry_real).collect());
            true
        }
        FOp::Accepts(w) => {
            let data = account_data(&seen_of(w), CompressionMethod::None);
            let a = s.satisfies(&data);
            a
        }
        FOp::Listed(a) => s.contains_account(account_key(*a)),
        FOp::Covers(p, f) => {
            s.contains_filter(&entry_real(&FilterEntry { accounts: vec![], program: Some(*p), filters: f.clone() }))
        }
    }
}
fn model(m: &mut Filters, op: &FOp) -> bool {
    match op {
        FOp::Add(e) => {
            m.entries.extend(e.iter().cloned());
            true
        }
        FOp::Accepts(w) => m.accepts(w),
        FOp::Listed(a) => m.entries.iter().any(|e| e.accounts.contains(a)),
        FOp::Covers(p, f) => m
            .entries
            .iter()
            .any(|e| e.accounts.is_empty() && e.program == Some(*p) && e.filters.iter().all(|x| f.contains(x))),
    }
}

/// what is asked at the end
fn questions() -> Vec<FOp> {
    let mut q = vec![];
    for a in 0..3 {
        q.push(FOp::Listed(a));
    }
    for p in 0..2 {
        for data in 0..2 {
            q.push(FOp::Accepts(Write { data, ..w(3, 1, 0, p) }));
        }
        q.push(FOp::Covers(p, vec![]));
        q.push(FOp::Covers(p, vec![F::Size(3)]));
        q.push(FOp::Covers(p, vec![F::Byte(0, 9)]));
    }
    q.push(FOp::Accepts(w(0, 1, 0, 2)));
    q.push(FOp::Accepts(w(1, 1, 0, 2)));
    q
}

impl Adding {
    fn orders(&self) -> &HashSet<Vec<Vec<bool>>> {
        self.oracle.get_or_init(|| {
            let mut out = HashSet::new();
            let mut m = Filters::default();
            for op in &self.setup {
                model(&mut m, op);
            }
            let n = self.threads.len();
            self.rec(&m, &mut vec![0; n], &mut vec![vec![]; n], &mut out);
            out
        })
    }
    fn rec(&self, m: &Filters, next: &mut Vec<usize>, answers: &mut Vec<Vec<bool>>, out: &mut HashSet<Vec<Vec<bool>>>) {
        let mut end = true;
        for t in 0..self.threads.len() {
            if next[t] < self.threads[t].len() {
                end = false;
                let mut m = m.clone();
                answers[t].push(model(&mut m, &self.threads[t][next[t]]));
                next[t] += 1;
                self.rec(&m, next, answers, out);
                next[t] -= 1;
                answers[t].pop();
            }
        }
        if end {
            let mut m = m.clone();
            let mut all = answers.clone();
            all.push(questions().iter().map(|q| model(&mut m, q)).collect());
            out.insert(all);
        }
    }
}

impl Program for Adding {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn describe(&self) -> Vec<String> {
        let mut v = vec![format!("before: {:?}", self.setup)];
        for (i, t) in self.threads.iter().enumerate() {
            v.push(format!("thread {i}: {t:?}"));
        }
        v
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        let store = Arc::new(MutableFilterStore::default());
        mc::solo(|| {
            for op in &self.setup {
                real(&store, op);
            }
        });
        let answers: Arc<Mutex<Vec<Vec<bool>>>> = Arc::new(Mutex::new(vec![vec![]; self.threads.len()]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (store, answers, ops) = (store.clone(), answers.clone(), ops.clone());
            bodies.push(Box::new(move || {
                for op in &ops {
                    let a = real(&store, op);
                    answers.lock().unwrap()[t].push(a);
                }
            }));
        }
        let outcome = mc::execute(bodies, prefix, log, 20_000, std::time::Duration::from_secs(10));
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run { outcome, verdict: Ok(()), observed: 0 };
        }
        let mut all = answers.lock().unwrap().clone();
        all.push(mc::solo(|| questions().iter().map(|q| real(&store, q)).collect()));
        let observed = hash64(&(&self.name, &all));
        let verdict = if self.orders().contains(&all) {
            Ok(())
        } else {
            Err(format!(
                "the answers {:?}, and at the end {:?}, are the ones of none of the sequential orders; sequential orders answer {:?}; asked at the end: {:?}",
                &all[..all.len() - 1],
                all[all.len() - 1],
                self.orders(),
                questions()
            ))
        };
        Run { outcome, verdict, observed }
    }
}

pub fn programs(thorough: bool) -> Vec<(&'static str, Vec<Adding>, Bound)> {
    let e = |accounts: Vec<u8>, program: Option<u8>, filters: Vec<F>| FilterEntry { accounts, program, filters };
    let adds = vec![
        FOp::Add(vec![e(vec![0], None, vec![])]),
        FOp::Add(vec![e(vec![1, 2], None, vec![]), e(vec![], Some(0), vec![])]),
        FOp::Add(vec![e(vec![], Some(0), vec![F::Size(3)])]),
        FOp::Add(vec![e(vec![], Some(0), vec![F::Byte(0, 9)]), e(vec![], Some(1), vec![])]),
        FOp::Add(vec![e(vec![], Some(0), vec![])]),
    ];
    let asks = vec![
        FOp::Listed(0),
        FOp::Listed(2),
        FOp::Accepts(w(3, 1, 0, 0)),
        FOp::Accepts(Write { data: 1, ..w(3, 1, 0, 0) }),
        FOp::Accepts(w(0, 1, 0, 1)),
        FOp::Covers(0, vec![]),
        FOp::Covers(0, vec![F::Size(3)]),
        FOp::Covers(1, vec![F::Byte(0, 9)]),
    ];
    let mut out = vec![];
    let mut wide = vec![];
    for (i, a) in adds.iter().enumerate() {
        for (j, b) in adds.iter().enumerate().skip(i) {
            for (x, q) in asks.iter().enumerate() {
                for (y, r) in asks.iter().enumerate() {
                    for (s, setup) in [vec![], vec![adds[0].clone(), adds[2].clone()]].into_iter().enumerate() {
                        // an adder which looks at its own filter, another adder, and a reader
                        let mk = |name: String, threads: Vec<Vec<FOp>>| Adding {
                            name,
                            setup: setup.clone(),
                            threads,
                            oracle: OnceLock::new(),
                        };
                        out.push(mk(
                            format!("C14-two-{i}-{j}-{x}-{y}-{s}"),
                            vec![vec![a.clone(), q.clone(), r.clone()], vec![b.clone(), q.clone()]],
                        ));
                        if thorough || (x + y) % 3 == 0 {
                            wide.push(mk(
                                format!("C14-three-{i}-{j}-{x}-{y}-{s}"),
                                vec![vec![a.clone(), q.clone()], vec![b.clone()], vec![q.clone(), r.clone()]],
                            ));
                        }
                    }
                }
            }
        }
    }
    let b = |p| Bound { preemptions: p, faults: 0 };
    if thorough {
        vec![("two threads", out, b(6)), ("three threads", wide, b(5))]
    } else {
        vec![("two threads", out, b(4)), ("three threads", wide, b(3))]
    }
}

pub fn run(report: &Report) {
    for (group, programs, bound) in programs(report.thorough) {
        sched::explore(group, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
    }
    report.assume("interleavings at the granularity of lock and atomic operations, sequentially consistent");
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for (_, programs, _) in programs(true) {
        if let Some(p) = programs.iter().find(|p| p.name() == name) {
            return Some(sched::replay(p, prefix));
        }
    }
    None
}
