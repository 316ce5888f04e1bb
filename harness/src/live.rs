//! Accounts on demand while the chain goes on: D04.
use crate::cases::{self, Cases};
use crate::main_model::{entry_real, f_matches, f_real, Filters, FilterEntry, Op, F};
use crate::main_seq::{self, note, up, w, MainScenario};
use crate::ondemand::{chain, Key};
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::seq;
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use mcstd::mc;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum LOp {
    Get(u8, u8),
    Gpa(u8, Vec<F>, u8),
    /// the account changes on the chain, who has subscribed is told at the commitment
    Write(u8, u8),
    Close(u8, u8),
    /// notification of the current slot of the chain
    Slot(u8),
}
impl std::fmt::Debug for LOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            LOp::Get(a, c) => write!(f, "get account {a} at {}", cname(*c)),
            LOp::Gpa(p, x, c) => write!(f, "get accounts of program {p} {x:?} at {}", cname(*c)),
            LOp::Write(a, c) => write!(f, "account {a} changes ({})", cname(*c)),
            LOp::Close(a, c) => write!(f, "account {a} is closed ({})", cname(*c)),
            LOp::Slot(c) => write!(f, "the slot is {}", cname(*c)),
        }
    }
}
impl LOp {
    fn key(&self) -> Option<Key> {
        match self {
            LOp::Get(a, _) => Some(Key::Account(*a)),
            LOp::Gpa(p, f, _) => Some(Key::Query(*p, f.clone())),
            _ => None,
        }
    }
}

/// the chain and what was subscribed of it
struct Chain {
    state: Mutex<ChainState>,
}
#[derive(Default)]
struct ChainState {
    /// newest state, closed accounts have no lamports
    accounts: BTreeMap<u8, Seen>,
    /// all states of the accounts
    past: BTreeMap<u8, Vec<Seen>>,
    slot: u64,
    /// slots and commitments which were notified
    notified: HashSet<(u64, u8)>,
    /// finalized deletions which were delivered
    deleted: BTreeMap<u8, u64>,
    /// states which a snapshot delivers after the finalized deletion of their account, which the store
    /// forgets: known finding, see Forgotten
    forgotten: HashSet<Seen>,
    subscriptions: Vec<Key>,
    errors: Vec<String>,
}

fn key_has(k: &Key, number: u8, s: &Seen) -> bool {
    match k {
        Key::Account(a) => *a == number,
        Key::Query(p, f) => s.owner == program_key(*p) && f.iter().all(|f| f_matches(f, &s.data)),
    }
}

impl Chain {
    fn new() -> Self {
        let mut st = ChainState { slot: 100, ..Default::default() };
        for (i, s) in chain().into_iter().enumerate() {
            st.accounts.insert(i as u8, s.clone());
            st.past.entry(i as u8).or_default().push(s);
        }
        Chain { state: Mutex::new(st) }
    }
    /// (new state, must it be delivered)
    fn write(&self, a: u8, close: bool) -> (Seen, bool) {
        mc::step(self as *const _ as usize);
        let mut st = self.state.lock().unwrap();
        st.slot += 1;
        let slot = st.slot;
        let mut s = st.accounts.get(&a).cloned().unwrap_or_else(|| crate::main_model::seen_of(&w(a, 1, 0, 0)));
        let subscribed_before = st.subscriptions.iter().any(|k| key_has(k, a, &s));
        s.slot = slot;
        s.lamports = if close { 0 } else { 10_000 + slot };
        let subscribed = subscribed_before || st.subscriptions.iter().any(|k| key_has(k, a, &s));
        st.accounts.insert(a, s.clone());
        st.past.entry(a).or_default().push(s.clone());
        (s, subscribed)
    }
}

fn number(s: &Seen) -> u8 {
    (0..8).find(|a| account_key(*a) == s.pubkey).unwrap_or(99)
}

fn filter_of(f: &AccountFilterType) -> F {
    for x in [F::Size(3), F::Size(4), F::Byte(0, 1), F::Byte(0, 9)] {
        if f_real(&x) == *f {
            return x;
        }
    }
    F::Size(9999)
}
fn program_of(k: &Pubkey) -> u8 {
    (0..4).find(|p| program_key(*p) == *k).unwrap_or(9)
}

impl AccountsSourceInterface for Chain {
    fn subscribe_accounts(&self, accounts: HashSet<Pubkey>) -> anyhow::Result<()> {
        mc::step(self as *const _ as usize);
        let mut st = self.state.lock().unwrap();
        for a in 0..8 {
            if accounts.contains(&account_key(a)) {
                st.subscriptions.push(Key::Account(a));
            }
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        mc::step(self as *const _ as usize);
        let f = filters.unwrap_or_default().iter().map(filter_of).collect();
        self.state.lock().unwrap().subscriptions.push(Key::Query(program_of(&program_id), f));
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        mc::step(self as *const _ as usize);
        // the state of the chain at this moment
        let now: Vec<(u8, Seen)> = self.state.lock().unwrap().accounts.iter().map(|(a, s)| (*a, s.clone())).collect();
        for (_, s) in now {
            let wanted = account_filters.iter().any(|f| {
                f.accounts.contains(&s.pubkey)
                    || (f.program_id == Some(s.owner) && f.filters.iter().flatten().all(|x| x.allows(&s.data)))
            });
            if wanted && s.lamports > 0 {
                mc::step(self as *const _ as usize);
                storage.initilize_or_update_account(account_data(&s, CompressionMethod::None));
                let mut st = self.state.lock().unwrap();
                if st.deleted.get(&number(&s)).map_or(false, |slot| *slot > s.slot) {
                    st.forgotten.insert(s.clone());
                }
            }
        }
        Ok(())
    }
}

/// a source which must not be used
pub struct NoSource;
impl AccountsSourceInterface for NoSource {
    fn subscribe_accounts(&self, a: HashSet<Pubkey>) -> anyhow::Result<()> {
        panic!("subscription of {a:?}, which is registered")
    }
    fn subscribe_program_accounts(&self, p: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        panic!("subscription of program {p}, which is registered")
    }
    fn save_snapshot(&self, _: Arc<dyn AccountStorageInterface>, f: AccountFilters) -> anyhow::Result<()> {
        panic!("{f:?} is loaded, but it is registered")
    }
}

pub struct Live {
    pub name: String,
    pub threads: Vec<Vec<LOp>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Got {
    One(Option<Seen>),
    List(Vec<Seen>),
    Error(String),
    Done,
}

fn apply(s: &dyn AccountStorageInterface, chain: &Chain, op: &LOp) -> Got {
    match op {
        LOp::Get(a, c) => match s.get_account(account_key(*a), COMMITMENTS[*c as usize]) {
            Ok(x) => Got::One(x.map(|x| seen(&x))),
            Err(e) => Got::Error(format!("{e:?}")),
        },
        LOp::Gpa(p, f, c) => {
            let f = (!f.is_empty()).then(|| f.iter().map(f_real).collect());
            match s.get_program_accounts(program_key(*p), f, COMMITMENTS[*c as usize]) {
                Ok(x) => Got::List(main_seq::list(&x)),
                Err(e) => Got::Error(format!("{e:?}")),
            }
        }
        LOp::Write(a, c) | LOp::Close(a, c) => {
            let (state, subscribed) = chain.write(*a, matches!(op, LOp::Close(..)));
            if subscribed {
                mc::step(chain as *const _ as usize);
                if *c == 2 && state.lamports == 0 {
                    chain.state.lock().unwrap().deleted.insert(*a, state.slot);
                }
                s.update_account(account_data(&state, CompressionMethod::None), COMMITMENTS[*c as usize]);
            }
            Got::Done
        }
        LOp::Slot(c) => {
            mc::step(chain as *const _ as usize);
            let mut st = chain.state.lock().unwrap();
            let slot = st.slot;
            st.notified.insert((slot, *c));
            if *c == 2 {
                let closed: Vec<_> = st.accounts.iter().filter(|(_, s)| s.lamports == 0).map(|(a, s)| (*a, s.slot)).collect();
                st.deleted.extend(closed);
            }
            drop(st);
            s.process_slot_data(main_seq::slot_info(slot, slot - 1), COMMITMENTS[*c as usize]);
            Got::Done
        }
    }
}

impl Live {
    fn judge(&self, answers: &[Vec<Got>], s: &dyn AccountStorageInterface, chain: &Chain) -> Result<(), String> {
        let st = chain.state.lock().unwrap();
        if let Some(e) = st.errors.first() {
            return Err(e.clone());
        }
        for (t, ops) in self.threads.iter().enumerate() {
            // newest slot of each account which was read, per commitment
            let mut floor: BTreeMap<(u8, u8), u64> = BTreeMap::new();
            for (i, op) in ops.iter().enumerate() {
                let say = |m: String| Err(format!("thread {t}: {op:?} {m}"));
                let c = match op {
                    LOp::Get(_, c) | LOp::Gpa(_, _, c) => *c,
                    _ => continue,
                };
                let mut found = vec![];
                match &answers[t][i] {
                    Got::Error(e) => return say(format!("answers {e}")),
                    Got::One(None) => {
                        let LOp::Get(a, _) = op else { continue };
                        let gone = st.past.get(a).map_or(true, |p| p[0].slot > 100 || p.iter().any(|s| s.lamports == 0));
                        if !gone {
                            return say("finds nothing".into());
                        }
                    }
                    Got::One(Some(x)) => found.push(x),
                    Got::List(l) => {
                        let key = op.key().unwrap();
                        for (a, past) in &st.past {
                            let always = past[0].slot < 100 && past.iter().all(|s| s.lamports > 0 && key_has(&key, *a, s));
                            if always && !l.iter().any(|s| s.pubkey == account_key(*a)) {
                                return say(format!("returns {} without account {a}", show_list(l)));
                            }
                        }
                        found.extend(l.iter());
                    }
                    Got::Done => {}
                }
                for x in found {
                    let a = number(x);
                    if !st.past.get(&a).map_or(false, |p| p.contains(x)) {
                        return say(format!("finds {} which never was on the chain", x.show()));
                    }
                    let f = floor.entry((a, c)).or_default();
                    if x.slot < *f && !st.forgotten.contains(x) {
                        return say(format!("finds {} after a state of slot {f}", x.show()));
                    }
                    *f = x.slot;
                }
            }
        }
        // everything which was loaded is up to date now
        let keys: Vec<Key> = self.threads.iter().flatten().filter_map(|op| op.key()).collect();
        let accounts = st.accounts.clone();
        let last = st.slot;
        let notified = st.notified.clone();
        let forgotten = st.forgotten.clone();
        drop(st);
        let compare = |c: u8| -> Result<(), String> {
            for (a, state) in &accounts {
                if !keys.iter().any(|k| key_has(k, *a, state)) {
                    continue;
                }
                let got = main_seq::real_read(s, *a, c).map_err(|e| format!("afterwards get of account {a}: {e:?}"))?;
                let want = (state.lamports > 0).then(|| state.clone());
                if got != want && !got.as_ref().map_or(false, |x| want.is_none() && forgotten.contains(x)) {
                    return Err(format!(
                        "afterwards account {a} at {} is {} but on the chain it is {}",
                        cname(c),
                        show_opt(&got),
                        show_opt(&want)
                    ));
                }
            }
            for k in &keys {
                let Key::Query(p, f) = k else { continue };
                let mut got = main_seq::real_query(s, *p, f, c).map_err(|e| format!("afterwards {k:?}: {e:?}"))?;
                got.retain(|x| !forgotten.contains(x) || accounts.get(&number(x)) == Some(x));
                let mut want: Vec<Seen> =
                    accounts.iter().filter(|(a, s)| s.lamports > 0 && key_has(k, **a, s)).map(|(_, s)| s.clone()).collect();
                want.sort();
                if got != want {
                    return Err(format!(
                        "afterwards {k:?} at {} returns {} instead of {}",
                        cname(c),
                        show_list(&got),
                        show_list(&want)
                    ));
                }
            }
            Ok(())
        };
        compare(0)?;
        // what was notified is not notified again
        for c in [1, 2] {
            for slot in 101..=last {
                if !notified.contains(&(slot, c)) {
                    s.process_slot_data(main_seq::slot_info(slot, slot - 1), COMMITMENTS[c as usize]);
                }
            }
            compare(c)?;
        }
        compare(1)
    }
}

impl Program for Live {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn describe(&self) -> Vec<String> {
        self.threads.iter().enumerate().map(|(i, t)| format!("thread {i}: {:?}", t)).collect()
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        crate::dashmap_shards(32);
        let filters = Arc::new(MutableFilterStore::default());
        let store: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(filters.clone()));
        let chain = Arc::new(Chain::new());
        let demand: Arc<dyn AccountStorageInterface> = Arc::new(AccountsOnDemand::new(chain.clone(), filters, store));
        let answers: Arc<Mutex<Vec<Vec<Got>>>> = Arc::new(Mutex::new(vec![vec![]; self.threads.len()]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (demand, answers, ops, chain) = (demand.clone(), answers.clone(), ops.clone(), chain.clone());
            bodies.push(Box::new(move || {
                for op in &ops {
                    let a = apply(&*demand, &chain, op);
                    answers.lock().unwrap()[t].push(a);
                }
            }));
        }
        let outcome = mc::execute(bodies, prefix, log, 50_000, std::time::Duration::from_secs(10));
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run { outcome, verdict: Ok(()), observed: 0 };
        }
        let answers = answers.lock().unwrap().clone();
        let verdict = mc::solo(|| self.judge(&answers, &*demand, &chain));
        let observed = hash64(&(&self.name, &answers));
        Run { outcome, verdict, observed }
    }
}

pub fn programs(thorough: bool) -> Vec<(&'static str, Vec<Live>, Bound)> {
    let mut readers = vec![];
    for c in [0, 2] {
        readers.push(vec![LOp::Get(0, c)]);
        readers.push(vec![LOp::Get(4, c)]);
        readers.push(vec![LOp::Gpa(0, vec![], c)]);
        readers.push(vec![LOp::Gpa(0, vec![F::Size(3)], c)]);
        readers.push(vec![LOp::Get(0, c), LOp::Get(0, c)]);
        readers.push(vec![LOp::Gpa(0, vec![], c), LOp::Get(0, c)]);
        readers.push(vec![LOp::Get(0, c), LOp::Gpa(0, vec![], c)]);
        readers.push(vec![LOp::Gpa(0, vec![F::Size(3)], c), LOp::Gpa(0, vec![], c)]);
        readers.push(vec![LOp::Get(0, c), LOp::Get(1, c)]);
        readers.push(vec![LOp::Get(0, c), LOp::Gpa(1, vec![], c)]);
        readers.push(vec![LOp::Gpa(0, vec![], c), LOp::Gpa(1, vec![], c)]);
    }
    let mut validators = vec![];
    for c in [0, 2] {
        validators.push(vec![LOp::Write(0, c)]);
        validators.push(vec![LOp::Write(4, c)]);
        validators.push(vec![LOp::Write(0, c), LOp::Write(0, c)]);
        validators.push(vec![LOp::Write(0, c), LOp::Write(1, c)]);
        validators.push(vec![LOp::Close(0, c)]);
        validators.push(vec![LOp::Close(0, c), LOp::Write(0, c)]);
        validators.push(vec![LOp::Write(4, c), LOp::Close(4, c)]);
    }
    for c in [1, 2] {
        validators.push(vec![LOp::Write(0, 0), LOp::Slot(c)]);
        validators.push(vec![LOp::Write(4, 0), LOp::Slot(c)]);
        validators.push(vec![LOp::Close(0, 0), LOp::Slot(c)]);
    }
    // a deletion does not pass the size filter, so it is not an update of the query
    let fits = |threads: &[&Vec<LOp>]| {
        let ops: Vec<&LOp> = threads.iter().flat_map(|t| t.iter()).collect();
        !(ops.iter().any(|o| matches!(o, LOp::Close(..))) && ops.iter().any(|o| matches!(o, LOp::Gpa(_, f, _) if !f.is_empty())))
    };
    let mut pairs = vec![];
    let mut triples = vec![];
    for (i, r) in readers.iter().enumerate() {
        for (j, v) in validators.iter().enumerate() {
            if fits(&[r, v]) {
                pairs.push(Live { name: format!("D04-pair-{i}-{j}"), threads: vec![r.clone(), v.clone()] });
            }
            for (k, r2) in readers.iter().enumerate().skip(i) {
                if fits(&[r, v, r2]) && (thorough || (i + 2 * j + 3 * k) % 6 == 0) {
                    triples.push(Live {
                        name: format!("D04-triple-{i}-{j}-{k}"),
                        threads: vec![r.clone(), r2.clone(), v.clone()],
                    });
                }
            }
        }
    }
    // one thread does everything
    let calls = [
        LOp::Get(0, 0),
        LOp::Get(0, 2),
        LOp::Get(4, 2),
        LOp::Gpa(0, vec![], 2),
        LOp::Gpa(0, vec![F::Byte(0, 1)], 0),
        LOp::Write(0, 0),
        LOp::Write(0, 2),
        LOp::Write(4, 2),
        LOp::Close(0, 2),
        LOp::Slot(1),
    ];
    let mut sequences: Vec<Vec<LOp>> = vec![vec![]];
    for _ in 0..if thorough { 5 } else { 4 } {
        sequences = sequences
            .iter()
            .flat_map(|s| {
                calls.iter().map(move |c| {
                    let mut s = s.clone();
                    s.push(c.clone());
                    s
                })
            })
            .collect();
    }
    let single = sequences
        .into_iter()
        .enumerate()
        .filter(|(_, s)| fits(&[s]))
        .map(|(i, s)| Live { name: format!("D04-single-{i}"), threads: vec![s] })
        .collect();
    let b = |p| Bound { preemptions: p, faults: 0 };
    if thorough {
        vec![("one thread", single, b(0)), ("pairs", pairs, b(3)), ("triples", triples, b(1))]
    } else {
        vec![("one thread", single, b(0)), ("pairs", pairs, b(2)), ("triples", triples, b(1))]
    }
}

fn wrapped(f: &Filters) -> Arc<dyn AccountStorageInterface> {
    let filters = Arc::new(MutableFilterStore::default());
    filters.add_account_filters(&f.entries.iter().map(entry_real).collect());
    let store: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(filters.clone()));
    Arc::new(AccountsOnDemand::new(Arc::new(NoSource), filters, store))
}

fn registered() -> Filters {
    let e = |accounts: Vec<u8>, program: Option<u8>| FilterEntry { accounts, program, filters: vec![] };
    Filters { entries: vec![e(vec![], Some(0)), e(vec![], Some(1)), e(vec![0, 1], None)], inverted: false }
}

/// everything is registered, so that the store is only wrapped
pub fn scenarios() -> Vec<(MainScenario, usize, usize)> {
    let mut ops = vec![];
    for a in 0..2 {
        for slot in 1..=3 {
            ops.push(up(w(a, slot, 0, (slot % 2) as u8), if slot == 2 { 1 } else { 0 }));
        }
        ops.push(up(main_seq::dead(a, 3, 1, 3), 0));
    }
    ops.push(Op::Init(w(0, 2, 1, 0)));
    ops.push(up(w(1, 2, 1, 1), 2));
    for s in 1..=3 {
        ops.push(note(s, s - 1, 1));
        ops.push(note(s, s - 1, 2));
    }
    ops.push(note(3, 2, 0));
    vec![(
        MainScenario {
            name: "D04-wrapped".into(),
            ops,
            filters: registered(),
            accounts: 2,
            queries: vec![(0, vec![]), (1, vec![]), (0, vec![F::Size(3)]), (1, vec![F::Byte(0, 1), F::Size(3)])],
            make: wrapped,
            ..Default::default()
        },
        4,
        5,
    )]
}

pub fn snapshots() -> (main_seq::SnapScenario, usize, usize) {
    (main_seq::transfer("D04-snapshot", wrapped, registered()), 3, 4)
}

/// the chain goes on between the moment of a snapshot and the delivery of its states
struct LateSnapshot {
    events: Vec<Event>,
    /// takes the events
    demand: Mutex<Option<Arc<dyn AccountStorageInterface>>>,
}
#[derive(Clone, Debug)]
enum Event {
    Update(Seen, u8),
    Slot(u64, u8),
}
impl AccountsSourceInterface for LateSnapshot {
    fn subscribe_accounts(&self, _: HashSet<Pubkey>) -> anyhow::Result<()> {
        Ok(())
    }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, _: AccountFilters) -> anyhow::Result<()> {
        let Some(demand) = self.demand.lock().unwrap().clone() else {
            // the account does not exist any more
            return Ok(());
        };
        for e in &self.events {
            match e {
                Event::Update(s, c) => {
                    demand.update_account(account_data(s, CompressionMethod::None), COMMITMENTS[*c as usize]);
                }
                Event::Slot(slot, c) => {
                    demand.process_slot_data(main_seq::slot_info(*slot, slot - 1), COMMITMENTS[*c as usize]);
                }
            }
        }
        storage.initilize_or_update_account(account_data(&crate::main_model::seen_of(&w(0, 10, 0, 0)), CompressionMethod::None));
        Ok(())
    }
}

/// an account which is closed between the moment of the snapshot which loads it and the delivery
pub struct Forgotten;
impl Forgotten {
    fn events(i: usize) -> Vec<Event> {
        let at = |slot, alive: bool| {
            let mut s = crate::main_model::seen_of(&w(0, slot, 0, 0));
            if !alive {
                s.lamports = 0;
            }
            s
        };
        match i {
            0 => vec![Event::Update(at(12, false), 0), Event::Slot(12, 2)],
            1 => vec![Event::Update(at(11, true), 0), Event::Update(at(12, false), 2)],
            2 => vec![Event::Update(at(12, false), 2)],
            3 => vec![Event::Update(at(12, false), 0)],
            4 => vec![Event::Update(at(12, false), 0), Event::Slot(12, 1)],
            5 => vec![Event::Update(at(11, true), 0), Event::Update(at(12, false), 1)],
            6 => vec![Event::Update(at(11, false), 0), Event::Update(at(12, true), 0), Event::Slot(12, 2)],
            _ => vec![Event::Update(at(11, false), 2), Event::Update(at(12, true), 0), Event::Slot(12, 2)],
        }
    }
}
impl Cases for Forgotten {
    fn name(&self) -> String {
        "D04-forgotten".into()
    }
    fn len(&self) -> usize {
        16
    }
    fn describe(&self, i: usize) -> String {
        format!(
            "{} is loaded; after the moment of its snapshot and before its delivery: {:?}",
            if i < 8 { "the account" } else { "its program" },
            Forgotten::events(i % 8)
        )
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let filters = Arc::new(MutableFilterStore::default());
        let store: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(filters.clone()));
        let source = Arc::new(LateSnapshot { events: Forgotten::events(i % 8), demand: Mutex::new(None) });
        let demand: Arc<dyn AccountStorageInterface> = Arc::new(AccountsOnDemand::new(source.clone(), filters, store));
        *source.demand.lock().unwrap() = Some(demand.clone());
        let mut first = vec![];
        if i < 8 {
            first.extend(main_seq::real_read(&*demand, 0, 0).map_err(|e| format!("{e:?}"))?);
        } else {
            first = main_seq::real_query(&*demand, 0, &[], 0).map_err(|e| format!("{e:?}"))?;
        }
        *source.demand.lock().unwrap() = None;
        let last = Forgotten::events(i % 8)
            .iter()
            .rev()
            .find_map(|e| if let Event::Update(s, _) = e { Some(s.clone()) } else { None })
            .filter(|s| s.lamports > 0);
        let want: Vec<Seen> = last.into_iter().collect();
        if first != want {
            return Err(format!("the answer is {} but on the chain it is {}", show_list(&first), show_list(&want)));
        }
        demand.process_slot_data(main_seq::slot_info(13, 12), COMMITMENTS[2]);
        for c in 0..3 {
            let got: Vec<Seen> = main_seq::real_read(&*demand, 0, c).map_err(|e| format!("{e:?}"))?.into_iter().collect();
            if got != want {
                return Err(format!("afterwards at {} it is {} but on the chain {}", cname(c), show_list(&got), show_list(&want)));
            }
        }
        Ok(4)
    }
}

pub fn replay_case(name: &str, i: usize) -> Option<Vec<String>> {
    (name == "D04-forgotten").then(|| cases::replay(&Forgotten, i))
}

pub fn run(report: &Report) {
    crate::dashmap_shards(2);
    cases::explore(&Forgotten, report);
    for (s, q, t) in scenarios() {
        seq::explore(&s, if report.thorough { t } else { q }, report);
    }
    let (s, q, t) = snapshots();
    seq::explore(&s, if report.thorough { t } else { q }, report);
    for (group, programs, bound) in programs(report.thorough) {
        sched::explore(group, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
    }
    report.assume("the source delivers every change which happens after the subscription, and a snapshot has the state of the moment in which it is asked for");
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for (_, programs, _) in programs(true) {
        if let Some(p) = programs.iter().find(|p| p.name() == name) {
            return Some(sched::replay(p, prefix));
        }
    }
    None
}
pub fn replay_seq(name: &str, indices: &[usize]) -> Option<Vec<String>> {
    if let Some((s, _, _)) = scenarios().iter().find(|x| x.0.name == name) {
        return Some(seq::replay(s, indices));
    }
    let (s, _, _) = snapshots();
    (s.name == name).then(|| seq::replay(&s, indices))
}
