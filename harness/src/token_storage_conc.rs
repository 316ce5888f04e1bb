//! Interleavings of calls on the storage of the token accounts: T07. All of its calls are one step:
//! one sequential order has to explain all the answers and the final state together.
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::token_cases::stored;
use crate::token_model::tkey;
use crate::util::*;
use lite_token_account_storage::account_types::{Program as TokenProgram, TokenAccount};
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::token_account_storage_interface::TokenAccountStorageInterface;
use mcstd::mc;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum SOp {
    Save { addr: u8, p: u8, v: u8 },
    Delete(u8),
    Contains(u8),
    Get(u8),
    /// the accounts of the indexes which the setup has given
    Fetch,
    Snapshot(u8),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum SAnswer {
    Saved(u32, bool),
    Index(Option<u32>),
    Account(Option<Vec<u8>>),
    /// sorted
    Accounts(Vec<Vec<u8>>),
    None,
}

/// account, and the index it was given
#[derive(Clone, Default)]
struct Model {
    map: BTreeMap<u8, (u32, TokenAccount)>,
    next: u32,
}
impl Model {
    fn apply(&mut self, op: &SOp, given: &[u32]) -> SAnswer {
        match op {
            SOp::Save { addr, p, v } => {
                let t = stored(*addr, *p, *v, false);
                if let Some(x) = self.map.get_mut(addr) {
                    x.1 = t;
                    return SAnswer::Saved(x.0, false);
                }
                self.next += 1;
                self.map.insert(*addr, (self.next, t));
                SAnswer::Saved(self.next, true)
            }
            SOp::Delete(a) => {
                self.map.remove(a);
                SAnswer::None
            }
            SOp::Contains(a) => SAnswer::Index(self.map.get(a).map(|x| x.0)),
            SOp::Get(a) => SAnswer::Account(self.map.get(a).map(|x| x.1.to_bytes())),
            SOp::Fetch => sorted(self.map.values().filter(|x| given.contains(&x.0)).map(|x| x.1.to_bytes())),
            SOp::Snapshot(p) => {
                sorted(self.map.values().filter(|x| x.1.program == PROGRAMS[*p as usize]).map(|x| x.1.to_bytes()))
            }
        }
    }
}
const PROGRAMS: [TokenProgram; 2] = [TokenProgram::TokenProgram, TokenProgram::Token2022Program];

fn sorted(i: impl Iterator<Item = Vec<u8>>) -> SAnswer {
    let mut v: Vec<_> = i.collect();
    v.sort();
    SAnswer::Accounts(v)
}
fn real(s: &InmemoryTokenAccountStorage, op: &SOp, given: &[u32]) -> SAnswer {
    let fetch = |indexes: &[u32]| {
        let r = s.get_by_index(indexes.iter().copied().collect()).unwrap();
        sorted(r.iter().filter(|x| !x.is_deleted).map(|x| x.to_bytes()))
    };
    match op {
        SOp::Save { addr, p, v } => {
            let (i, added) = s.save_or_update(stored(*addr, *p, *v, false));
            SAnswer::Saved(i, added)
        }
        SOp::Delete(a) => {
            s.delete(&tkey(*a));
            SAnswer::None
        }
        SOp::Contains(a) => SAnswer::Index(s.contains(&tkey(*a))),
        SOp::Get(a) => SAnswer::Account(s.get_by_pubkey(&tkey(*a)).map(|x| x.to_bytes())),
        SOp::Fetch => fetch(given),
        SOp::Snapshot(p) => {
            let r = s.create_snapshot(PROGRAMS[*p as usize]).unwrap();
            sorted(r.iter().map(|b| TokenAccount::from_bytes(b).to_bytes()))
        }
    }
}

pub struct Storage {
    name: String,
    setup: Vec<SOp>,
    threads: Vec<Vec<SOp>>,
    addrs: Vec<u8>,
    shards: usize,
    /// answers of the threads, then of the final calls, of each sequential order
    orders: OnceLock<HashSet<(Vec<SAnswer>, Vec<SAnswer>)>>,
}

impl Storage {
    fn last(&self) -> Vec<SOp> {
        let mut v = vec![SOp::Fetch, SOp::Snapshot(0), SOp::Snapshot(1)];
        for a in &self.addrs {
            v.push(SOp::Contains(*a));
            v.push(SOp::Get(*a));
        }
        v
    }
    fn orders(&self) -> &HashSet<(Vec<SAnswer>, Vec<SAnswer>)> {
        self.orders.get_or_init(|| {
            let mut start = Model::default();
            for op in &self.setup {
                start.apply(op, &[]);
            }
            let given: Vec<u32> = start.map.values().map(|x| x.0).collect();
            let lens: Vec<usize> = self.threads.iter().map(|t| t.len()).collect();
            let mut out = HashSet::new();
            for order in crate::token_conc::orders(&lens) {
                let mut m = start.clone();
                let mut answers = vec![vec![]; lens.len()];
                for t in order {
                    let op = &self.threads[t][answers[t].len()];
                    answers[t].push(m.apply(op, &given));
                }
                let end = self.last().iter().map(|op| m.apply(op, &given)).collect();
                out.insert((answers.concat(), end));
            }
            out
        })
    }
}

/// equal up to the numbers which are chosen as indexes
fn explains(want: &[SAnswer], got: &[SAnswer], names: &mut BTreeMap<u32, u32>) -> bool {
    let mut same = |w: u32, g: u32| {
        if let Some(x) = names.get(&w) {
            return *x == g;
        }
        if names.values().any(|x| *x == g) {
            return false;
        }
        names.insert(w, g);
        true
    };
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match (w, g) {
            (SAnswer::Saved(w, x), SAnswer::Saved(g, y)) => x == y && same(*w, *g),
            (SAnswer::Index(Some(w)), SAnswer::Index(Some(g))) => same(*w, *g),
            _ => w == g,
        })
}

impl Program for Storage {
    fn name(&self) -> String {
        format!("{}-shards{}", self.name, self.shards)
    }
    fn describe(&self) -> Vec<String> {
        let mut v = vec![format!("setup: {:?}", self.setup)];
        for (i, t) in self.threads.iter().enumerate() {
            v.push(format!("thread {i}: {t:?}"));
        }
        v
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        crate::dashmap_shards(self.shards);
        let store = Arc::new(InmemoryTokenAccountStorage::default());
        for op in &self.setup {
            real(&store, op, &[]);
        }
        let given: Vec<u32> = self.addrs.iter().filter_map(|a| store.contains(&tkey(*a))).collect();
        let answers = Arc::new(Mutex::new(vec![vec![]; self.threads.len()]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (store, answers, ops, given) = (store.clone(), answers.clone(), ops.clone(), given.clone());
            bodies.push(Box::new(move || {
                for op in ops {
                    let a = real(&store, &op, &given);
                    answers.lock().unwrap()[t].push(a);
                }
            }));
        }
        let outcome = mc::execute(bodies, prefix, log, 50_000, std::time::Duration::from_secs(10));
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run { outcome, verdict: Ok(()), observed: 0 };
        }
        let answers = answers.lock().unwrap().concat();
        let end: Vec<SAnswer> = mc::solo(|| self.last().iter().map(|op| real(&store, op, &given)).collect());
        let ok = self.orders().iter().any(|(a, e)| {
            let mut names = BTreeMap::new();
            explains(a, &answers, &mut names) && explains(e, &end, &mut names)
        });
        let verdict = if ok {
            Ok(())
        } else {
            Err(format!("no sequential order explains the answers {answers:?} and the final state {end:?}"))
        };
        Run { outcome, verdict, observed: hash64(&(&self.name, &answers, &end)) }
    }
}

pub fn programs(thorough: bool, shards: usize) -> Vec<(&'static str, Vec<Storage>, Bound)> {
    // the first two have the same first bytes
    let (a, b, c) = (10, 11, 3);
    let save = |addr, v| SOp::Save { addr, p: v % 2, v };
    let setups = vec![
        ("empty", vec![]),
        ("one", vec![save(a, 0)]),
        ("two", vec![save(a, 0), save(b, 1)]),
        ("gone", vec![save(a, 0), save(b, 0), SOp::Delete(a)]),
        ("all", vec![save(b, 1), save(c, 1), save(a, 0)]),
    ];
    let changes =
        [save(a, 1), save(a, 2), save(b, 2), save(c, 0), SOp::Delete(a), SOp::Delete(b), SOp::Delete(c)];
    let looks = [
        SOp::Contains(a),
        SOp::Contains(b),
        SOp::Get(a),
        SOp::Get(c),
        SOp::Fetch,
        SOp::Snapshot(0),
        SOp::Snapshot(1),
    ];
    let new = |name: String, setup: &Vec<SOp>, threads: Vec<Vec<SOp>>| Storage {
        name,
        setup: setup.clone(),
        threads,
        addrs: vec![a, b, c],
        shards,
        orders: OnceLock::new(),
    };
    let (mut two, mut three) = (vec![], vec![]);
    for (sn, setup) in &setups {
        for (i, x) in changes.iter().enumerate() {
            for (j, y) in changes.iter().enumerate().skip(i) {
                for (k, z) in changes.iter().chain(&looks).enumerate() {
                    two.push(new(format!("T07-storage-{sn}-{i}-{j}-{k}"), setup, vec![vec![*x], vec![*y, *z]]));
                    if k >= j {
                        three.push(new(
                            format!("T07-storage3-{sn}-{i}-{j}-{k}"),
                            setup,
                            vec![vec![*x], vec![*y], vec![*z]],
                        ));
                    }
                }
            }
            for (j, y) in looks.iter().enumerate() {
                for (k, z) in looks.iter().enumerate() {
                    two.push(new(format!("T07-storage-look-{sn}-{i}-{j}-{k}"), setup, vec![vec![*x], vec![*y, *z]]));
                }
            }
        }
    }
    let n = if thorough { 4 } else { 2 };
    vec![
        ("storage of token accounts", two, Bound { preemptions: n, faults: 0 }),
        ("storage of token accounts, three threads", three, Bound { preemptions: n, faults: 0 }),
    ]
}

pub fn run(report: &Report) {
    for shards in [32, 1] {
        for (group, programs, bound) in programs(report.thorough, shards) {
            let name = format!(
                "{group}, {}",
                if shards == 1 { "all keys in one shard" } else { "keys in different shards" }
            );
            sched::explore(&name, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
        }
    }
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for shards in [32, 1] {
        for (_, programs, _) in programs(true, shards) {
            if let Some(p) = programs.iter().find(|p| p.name() == name) {
                return Some(sched::replay(p, prefix));
            }
        }
    }
    None
}
