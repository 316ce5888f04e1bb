//! Accounts on demand with a scripted source: D01 - D03.
use crate::main_model::{entry_real, f_matches, f_real, FilterEntry, F};
use crate::main_seq::w;
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::{AccountLoadingError, AccountStorageInterface};
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use mcstd::mc;
use solana_sdk::pubkey::Pubkey;
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

/// what is asked for, also the key of a loading
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Key {
    Account(u8),
    Query(u8, Vec<F>),
}
impl Key {
    /// everything of the other key belongs to this one
    fn covers(&self, o: &Key) -> bool {
        match (self, o) {
            (Key::Query(p, f), Key::Query(q, g)) => p == q && f.iter().all(|x| g.contains(x)),
            _ => self == o,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum DOp {
    Get(u8, u8),
    Gpa(u8, Vec<F>, u8),
    /// newer finalized state of an account arrives, if the store accepts it
    Stream(u8),
    /// the gate of a slow source is opened
    Open,
}
impl std::fmt::Debug for DOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            DOp::Get(a, c) => write!(f, "get account {a} at {}", cname(*c)),
            DOp::Gpa(p, x, c) => write!(f, "get accounts of program {p} {x:?} at {}", cname(*c)),
            DOp::Stream(a) => write!(f, "account {a} is updated"),
            DOp::Open => write!(f, "the source goes on"),
        }
    }
}

/// what happens to the n-th attempt of loading anything
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Step {
    Good,
    NoSubscription,
    /// the loading fails after the first half of the accounts
    NoSnapshot,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    Call(usize, usize),
    Answer(usize, usize),
    Attempt { by: usize, id: usize, key: Key },
    Ended { id: usize, good: bool },
}

/// the chain: accounts 0, 1 of program 0 (3 bytes), 2 of program 0 (4 bytes), 3 of program 1;
/// account 4 does not exist
pub fn chain() -> Vec<Seen> {
    let mut v = vec![w(0, 10, 0, 0), w(1, 10, 1, 0), w(2, 11, 0, 0), w(3, 12, 0, 1)];
    v[2].data = 1;
    v.iter().map(crate::main_model::seen_of).collect()
}
pub fn streamed(a: u8) -> Seen {
    let mut x = chain()[a as usize].clone();
    x.slot = 50;
    x.lamports = 7777;
    x
}
fn to_data(s: &Seen) -> lite_account_manager_common::account_data::AccountData {
    account_data(s, CompressionMethod::None)
}

thread_local! {
    static THREAD: Cell<usize> = Cell::new(99);
}

#[derive(Default)]
struct Log {
    events: Vec<Ev>,
    /// attempt which was subscribed and not yet loaded, per calling thread
    open: Vec<(usize, usize, Step, Key)>,
    errors: Vec<String>,
    attempts: usize,
}

struct Source {
    script: Vec<Step>,
    log: Mutex<Log>,
    filters: Arc<MutableFilterStore>,
    gate: Option<(mcstd::sync::Mutex<bool>, mcstd::sync::Condvar)>,
}

fn known_filter(f: &AccountFilterType) -> F {
    for x in [F::Size(3), F::Size(4), F::Byte(0, 1), F::Byte(0, 9)] {
        if f_real(&x) == *f {
            return x;
        }
    }
    F::Size(9999)
}
fn program_of(k: &Pubkey) -> u8 {
    (0..4).find(|p| program_key(*p) == *k).unwrap_or(9)
}

impl Source {
    fn subscribe(&self, key: Key) -> anyhow::Result<()> {
        // a point where other threads can run
        mc::step(self as *const _ as usize);
        let mut l = self.log.lock().unwrap();
        let by = THREAD.with(|x| x.get());
        let id = l.attempts;
        l.attempts += 1;
        let step = self.script.get(id).copied().unwrap_or(Step::Good);
        l.events.push(Ev::Attempt { by, id, key: key.clone() });
        if step == Step::NoSubscription {
            l.events.push(Ev::Ended { id, good: false });
            anyhow::bail!("no subscription");
        }
        l.open.push((by, id, step, key));
        Ok(())
    }
}

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, accounts: HashSet<Pubkey>) -> anyhow::Result<()> {
        let a: Vec<u8> = (0..8).filter(|a| accounts.contains(&account_key(*a))).collect();
        if a.len() != 1 || accounts.len() != 1 {
            self.log.lock().unwrap().errors.push(format!("subscription of accounts {accounts:?}"));
        }
        self.subscribe(Key::Account(a.first().copied().unwrap_or(99)))
    }
    fn subscribe_program_accounts(
        &self,
        program_id: Pubkey,
        filters: Option<Vec<AccountFilterType>>,
    ) -> anyhow::Result<()> {
        let f = filters.unwrap_or_default().iter().map(known_filter).collect();
        self.subscribe(Key::Query(program_of(&program_id), f))
    }
    fn save_snapshot(
        &self,
        storage: Arc<dyn AccountStorageInterface>,
        account_filters: AccountFilters,
    ) -> anyhow::Result<()> {
        mc::step(self as *const _ as usize);
        if let Some((m, cv)) = &self.gate {
            let mut open = m.lock().unwrap();
            while !*open {
                open = cv.wait(open).unwrap();
            }
        }
        let by = THREAD.with(|x| x.get());
        let (id, step, key) = {
            let mut l = self.log.lock().unwrap();
            let Some(i) = l.open.iter().position(|x| x.0 == by) else {
                l.errors.push(format!("{account_filters:?} is loaded without being subscribed"));
                anyhow::bail!("not subscribed");
            };
            let (_, id, step, key) = l.open.remove(i);
            (id, step, key)
        };
        // the filters of the loading are the ones of the subscription, and already registered
        let wanted: Vec<_> = match &key {
            Key::Account(a) => vec![entry_real(&FilterEntry { accounts: vec![*a], program: None, filters: vec![] })],
            Key::Query(p, f) => {
                vec![entry_real(&FilterEntry { accounts: vec![], program: Some(*p), filters: f.clone() })]
            }
        };
        let same = account_filters.len() == 1
            && account_filters[0].accounts == wanted[0].accounts
            && account_filters[0].program_id == wanted[0].program_id
            && account_filters[0].filters.clone().unwrap_or_default()
                == wanted[0].filters.clone().unwrap_or_default();
        let mut complaints = vec![];
        if !same {
            complaints.push(format!("{account_filters:?} is loaded but {key:?} was subscribed"));
        }
        let registered = match &key {
            Key::Account(a) => self.filters.contains_account(account_key(*a)),
            Key::Query(..) => self.filters.contains_filter(&wanted[0]),
        };
        if !registered {
            complaints.push(format!("{key:?} is loaded before it is registered in the filters"));
        }
        self.log.lock().unwrap().errors.extend(complaints);
        let mut n = 0;
        for s in chain() {
            let data = to_data(&s);
            let wanted = account_filters.iter().any(|f| {
                f.accounts.contains(&s.pubkey)
                    || (f.program_id == Some(s.owner)
                        && f.filters.iter().flatten().all(|x| x.allows(&s.data)))
            });
            if wanted {
                n += 1;
                if step == Step::NoSnapshot && n > 1 {
                    break;
                }
                storage.initilize_or_update_account(data);
            }
        }
        let good = step == Step::Good;
        self.log.lock().unwrap().events.push(Ev::Ended { id, good });
        if !good {
            anyhow::bail!("no snapshot");
        }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum DAnswer {
    Account(Result<Option<Seen>, String>),
    List(Result<Vec<Seen>, String>),
    Done(bool),
}
impl DAnswer {
    fn error(&self) -> Option<&String> {
        match self {
            DAnswer::Account(Err(e)) | DAnswer::List(Err(e)) => Some(e),
            _ => None,
        }
    }
    fn show(&self) -> String {
        match self {
            DAnswer::Account(Ok(x)) => show_opt(x),
            DAnswer::List(Ok(x)) => show_list(x),
            DAnswer::Account(Err(e)) | DAnswer::List(Err(e)) => format!("error {e}"),
            DAnswer::Done(b) => format!("{b}"),
        }
    }
}

pub struct OnDemand {
    pub name: String,
    /// registered from the start
    pub registered: Vec<FilterEntry>,
    /// accounts which are already in the store
    pub known: Vec<u8>,
    pub script: Vec<Step>,
    pub gate: bool,
    pub setup: Vec<DOp>,
    pub threads: Vec<Vec<DOp>>,
    /// which property is judged
    pub property: &'static str,
}

/// everything which was said and done, setup and epilogue are threads of their own
struct History {
    ops: Vec<Vec<DOp>>,
    answers: Vec<Vec<DAnswer>>,
    events: Vec<Ev>,
    errors: Vec<String>,
}

impl OnDemand {
    fn real(s: &dyn AccountStorageInterface, src: &Source, op: &DOp) -> DAnswer {
        let err = |e: AccountLoadingError| format!("{e:?}");
        match op {
            DOp::Get(a, c) => DAnswer::Account(
                s.get_account(account_key(*a), COMMITMENTS[*c as usize])
                    .map(|x| x.map(|x| seen(&x)))
                    .map_err(err),
            ),
            DOp::Gpa(p, f, c) => {
                let f = (!f.is_empty()).then(|| f.iter().map(f_real).collect());
                DAnswer::List(
                    s.get_program_accounts(program_key(*p), f, COMMITMENTS[*c as usize])
                        .map(|v| crate::main_seq::list(&v))
                        .map_err(err),
                )
            }
            DOp::Stream(a) => DAnswer::Done(s.update_account(to_data(&streamed(*a)), COMMITMENTS[2])),
            DOp::Open => {
                if let Some((m, cv)) = &src.gate {
                    *m.lock().unwrap() = true;
                    cv.notify_all();
                }
                DAnswer::Done(true)
            }
        }
    }

    /// what is always served from the beginning
    fn registered(&self, k: &Key) -> bool {
        self.registered.iter().any(|e| match k {
            Key::Account(a) => e.accounts.contains(a),
            Key::Query(p, f) => e.program == Some(*p) && e.filters.iter().all(|x| f.contains(x)),
        })
    }
    fn key(op: &DOp) -> Option<Key> {
        match op {
            DOp::Get(a, _) => Some(Key::Account(*a)),
            DOp::Gpa(p, f, _) => Some(Key::Query(*p, f.clone())),
            _ => None,
        }
    }

    fn judge(&self, h: &History, timeouts: u32, now: std::time::Duration) -> Result<(), String> {
        let d = self.property;
        if d == "D03" {
            if let Some(e) = h.errors.first() {
                return Err(e.clone());
            }
        }
        let pos = |e: &Ev| h.events.iter().position(|x| x == e);
        let mut attempts = vec![];
        for (i, e) in h.events.iter().enumerate() {
            if let Ev::Attempt { by, id, key } = e {
                let end = h.events.iter().position(|x| matches!(x, Ev::Ended { id: j, .. } if j == id));
                let good = h.events.contains(&Ev::Ended { id: *id, good: true });
                attempts.push((i, end.unwrap_or(usize::MAX), good, *by, key));
            }
        }
        let streams = h.ops.iter().flatten().filter(|x| matches!(x, DOp::Stream(_))).count() > 0;
        let mut timed_out = 0;
        for (t, ops) in h.ops.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                let Some(a) = h.answers[t].get(i) else { continue };
                let Some(key) = Self::key(op) else { continue };
                let start = pos(&Ev::Call(t, i)).unwrap_or(0);
                let end = pos(&Ev::Answer(t, i)).unwrap_or(usize::MAX);
                let say = |m: String| Err(format!("thread {t}: {op:?} {m}"));
                // a loading is only over for the others when the call which has started it is over
                let over = |x: &(usize, usize, bool, usize, &Key)| {
                    h.events
                        .iter()
                        .skip(x.0)
                        .position(|e| matches!(e, Ev::Answer(b, _) if *b == x.3))
                        .map_or(usize::MAX, |p| p + x.0)
                };
                let during = |x: &&(usize, usize, bool, usize, &Key)| x.0 < end && over(x) > start;
                let failed = attempts.iter().filter(during).any(|x| !x.2 && x.4.covers(&key));
                let own_failed = attempts.iter().filter(during).any(|x| !x.2 && x.3 == t && x.0 > start);
                let loaded = attempts.iter().any(|x| x.2 && x.4.covers(&key) && over(x) < start);
                if let Some(e) = a.error() {
                    if loaded && d == "D02" {
                        return say(format!("answers {e} although it was loaded before"));
                    }
                    if e == "OperationTimeOut" {
                        timed_out += 1;
                        if timeouts == 0 && d != "D03" {
                            return say("reports a time out although no time has passed".into());
                        }
                    } else if !failed && d != "D03" {
                        return say(format!("answers {e} although no loading of it has failed"));
                    }
                } else if own_failed && d == "D02" {
                    return say(format!("answers {} although its own loading has failed", a.show()));
                } else if d == "D01" {
                    let newest = |s: &Seen| if streams { Some(streamed((0..4).find(|a| account_key(*a) == s.pubkey).unwrap())) } else { None };
                    match a {
                        DAnswer::Account(Ok(x)) => {
                            let Key::Account(number) = key else { continue };
                            let on_chain = chain().into_iter().find(|s| s.pubkey == account_key(number));
                            let served_only = self.registered(&key) && !self.known.iter().any(|k| Key::Account(*k) == key);
                            match (x, on_chain) {
                                (None, Some(s)) if !served_only => {
                                    return say(format!("finds nothing instead of {}", s.show()));
                                }
                                (Some(x), Some(s)) if *x != s && Some(x) != newest(&s).as_ref() => {
                                    return say(format!("finds {} instead of {}", x.show(), s.show()));
                                }
                                (Some(x), None) => return say(format!("finds {}", x.show())),
                                _ => {}
                            }
                        }
                        DAnswer::List(Ok(l)) => {
                            let Key::Query(p, f) = &key else { continue };
                            let all: Vec<Seen> = chain()
                                .into_iter()
                                .filter(|s| s.owner == program_key(*p) && f.iter().all(|f| f_matches(f, &s.data)))
                                .collect();
                            if self.registered(&key) {
                                continue;
                            }
                            let complete = l.len() == all.len()
                                && all.iter().all(|s| l.contains(s) || newest(s).map_or(false, |n| l.contains(&n)));
                            if !complete {
                                return say(format!("returns {} instead of {}", show_list(l), show_list(&all)));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if d == "D02" && timeouts > 0 && timed_out > 0 {
            let (lo, hi) = (std::time::Duration::from_secs(10), std::time::Duration::from_secs(10 * timeouts as u64));
            if now < lo || now > hi {
                return Err(format!("time out after {now:?} instead of 10 s"));
            }
        }
        if d == "D03" {
            for (n, (start, _, _, by, key)) in attempts.iter().enumerate() {
                if self.registered(key) {
                    return Err(format!("{key:?} is subscribed, but it is registered from the start"));
                }
                if let Key::Account(a) = key {
                    if self.known.contains(a) {
                        return Err(format!("{key:?} is subscribed, but it is in the store from the start"));
                    }
                }
                // the call which has made the attempt
                let call = h.events[..*start].iter().rposition(|e| matches!(e, Ev::Call(t, _) if t == by)).unwrap_or(0);
                match &h.events[call] {
                    Ev::Call(t, i) if Self::key(&h.ops[*t][*i]).as_ref() == Some(*key) => {}
                    e => return Err(format!("{key:?} is subscribed, but {e:?} was called")),
                }
                for (m, (s2, e2, good, _, k2)) in attempts.iter().enumerate() {
                    if m == n || s2 > start {
                        continue;
                    }
                    if k2 == key && e2 > start {
                        return Err(format!("{key:?} is subscribed while it is already loading"));
                    }
                    if *good && k2 == key {
                        return Err(format!("{key:?} is subscribed again after it was loaded"));
                    }
                    if *good && k2.covers(key) && *e2 < call {
                        return Err(format!("{key:?} is subscribed, but {k2:?} was already loaded"));
                    }
                    if k2.covers(key) && *s2 < call && *e2 > *start {
                        return Err(format!("{key:?} is subscribed, but {k2:?} is loading"));
                    }
                }
            }
        }
        Ok(())
    }
}

impl Program for OnDemand {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn describe(&self) -> Vec<String> {
        let mut v = vec![format!(
            "attempts of the source: {:?}, then good{}; registered {:?}; known accounts {:?}; before: {:?}",
            self.script,
            if self.gate { ", slow" } else { "" },
            self.registered,
            self.known,
            self.setup
        )];
        for (i, t) in self.threads.iter().enumerate() {
            v.push(format!("thread {i}: {:?}", t));
        }
        v
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        crate::dashmap_shards(32);
        let filters = Arc::new(MutableFilterStore::default());
        filters.add_account_filters(&self.registered.iter().map(entry_real).collect());
        let store: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(filters.clone()));
        for a in &self.known {
            store.initilize_or_update_account(to_data(&chain()[*a as usize]));
        }
        let source = Arc::new(Source {
            script: self.script.clone(),
            log: Default::default(),
            filters: filters.clone(),
            gate: self.gate.then(|| (mcstd::sync::Mutex::new(false), mcstd::sync::Condvar::new())),
        });
        let demand: Arc<dyn AccountStorageInterface> =
            Arc::new(AccountsOnDemand::new(source.clone(), filters, store));
        let n = self.threads.len();
        let mut h = History { ops: self.threads.clone(), answers: vec![], events: vec![], errors: vec![] };
        h.ops.push(self.setup.clone());
        // every key again: what was loaded is not loaded again, the rest can now be loaded
        let mut again: Vec<DOp> = vec![];
        for op in self.setup.iter().chain(self.threads.iter().flatten()) {
            if Self::key(op).is_some() && !again.contains(op) {
                again.push(op.clone());
            }
        }
        h.ops.push(again.clone());
        let answers: Arc<Mutex<Vec<Vec<DAnswer>>>> = Arc::new(Mutex::new(vec![vec![]; n + 2]));
        let call = |t: usize, i: usize, op: &DOp, demand: &dyn AccountStorageInterface, source: &Source, answers: &Mutex<Vec<Vec<DAnswer>>>| {
            THREAD.with(|x| x.set(t));
            source.log.lock().unwrap().events.push(Ev::Call(t, i));
            let a = Self::real(demand, source, op);
            source.log.lock().unwrap().events.push(Ev::Answer(t, i));
            answers.lock().unwrap()[t].push(a);
        };
        mc::solo(|| {
            for (i, op) in self.setup.iter().enumerate() {
                call(n, i, op, &*demand, &source, &answers);
            }
        });
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (demand, answers, ops, source) = (demand.clone(), answers.clone(), ops.clone(), source.clone());
            bodies.push(Box::new(move || {
                for (i, op) in ops.iter().enumerate() {
                    call(t, i, op, &*demand, &source, &answers);
                }
            }));
        }
        let outcome = mc::execute(bodies, prefix, log, 50_000, std::time::Duration::from_secs(10));
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run { outcome, verdict: Ok(()), observed: 0 };
        }
        let failed_before = source.log.lock().unwrap().attempts;
        mc::solo(|| {
            for (i, op) in again.iter().enumerate() {
                call(n + 1, i, op, &*demand, &source, &answers);
            }
        });
        h.answers = answers.lock().unwrap().clone();
        {
            let l = source.log.lock().unwrap();
            h.events = l.events.clone();
            h.errors = l.errors.clone();
        }
        let mut verdict = self.judge(&h, outcome.timeouts, outcome.now);
        if verdict.is_ok() && outcome.forced_timeouts > 0 && !self.gate {
            verdict = Err("a caller is only released by the time limit although the loading has ended".into());
        }
        // nothing is waiting any more, so only a failing attempt can be an error now
        if verdict.is_ok() && self.property == "D02" && failed_before >= self.script.len() {
            for (op, a) in again.iter().zip(&h.answers[n + 1]) {
                if let Some(e) = a.error() {
                    verdict = Err(format!("afterwards {op:?} still answers {e}"));
                }
            }
        }
        let observed = hash64(&(&self.name, &h.answers, h.events.len()));
        Run { outcome, verdict, observed }
    }
}

fn get(a: u8) -> DOp {
    DOp::Get(a, 2)
}
fn gpa(p: u8, f: Vec<F>) -> DOp {
    DOp::Gpa(p, f, 2)
}

pub fn programs(property: &'static str, thorough: bool) -> Vec<(&'static str, Vec<OnDemand>, Bound)> {
    let scripts: Vec<Vec<Step>> = {
        let one = [Step::Good, Step::NoSubscription, Step::NoSnapshot];
        let mut v = vec![vec![]];
        for a in &one[1..] {
            v.push(vec![*a]);
            for b in one {
                if b != Step::Good {
                    v.push(vec![*a, b]);
                }
            }
        }
        for b in &one[1..] {
            v.push(vec![Step::Good, *b]);
        }
        v
    };
    let narrow = vec![F::Size(3)];
    let other = vec![F::Byte(0, 9)];
    let both = vec![F::Byte(0, 1), F::Size(3)];
    let calls = vec![
        get(0),
        DOp::Get(0, 0),
        get(4),
        gpa(0, vec![]),
        gpa(0, narrow.clone()),
        gpa(0, both.clone()),
        gpa(0, other.clone()),
        gpa(1, vec![]),
        DOp::Stream(0),
    ];
    let is_call = |op: &DOp| !matches!(op, DOp::Stream(_));
    let make = |name: String, script: &Vec<Step>, setup: Vec<DOp>, threads: Vec<Vec<DOp>>| OnDemand {
        name: format!("{property}-{name}"),
        registered: vec![],
        known: vec![],
        script: script.clone(),
        gate: false,
        setup,
        threads,
        property,
    };
    let (mut pairs, mut triples, mut faults, mut slow, mut single) = (vec![], vec![], vec![], vec![], vec![]);
    for (si, script) in scripts.iter().enumerate() {
        // sequences of one caller
        let mut sequences: Vec<Vec<DOp>> = vec![vec![]];
        for _ in 0..if thorough { 4 } else { 3 } {
            sequences = sequences
                .iter()
                .flat_map(|s| {
                    calls.iter().map(move |c| {
                        let mut s = s.clone();
                        s.push(c.clone());
                        s
                    })
                })
                .collect();
        }
        for (k, s) in sequences.iter().enumerate() {
            single.push(make(format!("single-{si}-{k}"), script, vec![], vec![s.clone()]));
        }
        for (i, a) in calls.iter().enumerate() {
            for (j, b) in calls.iter().enumerate().skip(i) {
                if !is_call(a) && !is_call(b) {
                    continue;
                }
                pairs.push(make(format!("pair-{si}-{i}-{j}"), script, vec![], vec![vec![a.clone()], vec![b.clone()]]));
                // one of them asks again
                if thorough || (i + j + si) % 3 == 0 || i == j {
                    pairs.push(make(
                        format!("again-{si}-{i}-{j}"),
                        script,
                        vec![],
                        vec![vec![a.clone(), a.clone()], vec![b.clone()]],
                    ));
                }
                if i == j || matches!((a, b), (DOp::Gpa(p, ..), DOp::Gpa(q, ..)) if p == q) {
                    faults.push(make(format!("fault-{si}-{i}-{j}"), script, vec![], vec![vec![a.clone()], vec![b.clone()]]));
                }
                for (k, c) in calls.iter().enumerate().skip(j) {
                    let related = i == j || j == k || matches!((a, b, c), (DOp::Gpa(p, ..), DOp::Gpa(q, ..), DOp::Gpa(r, ..)) if p == q && q == r);
                    if related && (thorough || (i + j + k + si) % 3 == 0 || (i == j && j == k)) {
                        triples.push(make(
                            format!("triple-{si}-{i}-{j}-{k}"),
                            script,
                            vec![],
                            vec![vec![a.clone()], vec![b.clone()], vec![c.clone()]],
                        ));
                    }
                }
                // something was loaded before
                for (k, c) in calls.iter().enumerate() {
                    if is_call(c) && (thorough || (i + j + k + si) % 11 == 0) {
                        pairs.push(make(
                            format!("after-{si}-{i}-{j}-{k}"),
                            script,
                            vec![c.clone()],
                            vec![vec![a.clone()], vec![b.clone()]],
                        ));
                    }
                }
            }
        }
    }
    for (i, a) in calls.iter().enumerate() {
        if !is_call(a) {
            continue;
        }
        // the source only goes on when somebody has got an answer
        let t = vec![a.clone(), DOp::Open];
        let mut p = make(format!("slow-{i}"), &vec![], vec![], vec![t.clone(), t.clone()]);
        p.gate = true;
        slow.push(p);
        let mut p = make(format!("slow3-{i}"), &vec![], vec![], vec![t.clone(), t.clone(), t]);
        p.gate = true;
        slow.push(p);
    }
    // filters and accounts which are there from the start
    let entry = |accounts: Vec<u8>, program: Option<u8>, filters: Vec<F>| FilterEntry { accounts, program, filters };
    let starts: Vec<(Vec<FilterEntry>, Vec<u8>)> = vec![
        (vec![entry(vec![0, 4], None, vec![])], vec![0]),
        (vec![entry(vec![4], None, vec![]), entry(vec![], Some(0), vec![])], vec![0, 1, 2]),
        (vec![entry(vec![], Some(0), narrow.clone()), entry(vec![], Some(1), vec![])], vec![0, 1, 3]),
        (vec![entry(vec![1], None, vec![])], vec![]),
    ];
    for (k, (reg, known)) in starts.iter().enumerate() {
        for (i, a) in calls.iter().enumerate() {
            for (j, b) in calls.iter().enumerate().skip(i) {
                if !is_call(a) && !is_call(b) {
                    continue;
                }
                let mut p = make(format!("start-{k}-{i}-{j}"), &vec![], vec![], vec![vec![a.clone()], vec![b.clone()]]);
                p.registered = reg.clone();
                p.known = known.clone();
                pairs.push(p);
            }
        }
    }
    let b = |p, f| Bound { preemptions: p, faults: f };
    if thorough {
        vec![
            ("one caller", single, b(0, 0)),
            ("pairs", pairs, b(3, 0)),
            ("spurious wake ups and time outs", faults, b(2, 2)),
            ("slow source", slow, b(3, 1)),
            ("triples", triples, b(2, 0)),
        ]
    } else {
        vec![
            ("one caller", single, b(0, 0)),
            ("pairs", pairs, b(2, 0)),
            ("spurious wake ups and time outs", faults, b(1, 1)),
            ("slow source", slow, b(2, 0)),
            ("triples", triples, b(1, 0)),
        ]
    }
}

fn id(property: &str) -> &'static str {
    ["D01", "D02", "D03"].into_iter().find(|x| *x == property).unwrap_or("D01")
}

pub fn run(property: &str, report: &Report) {
    for (group, programs, bound) in programs(id(property), report.thorough) {
        sched::explore(group, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
    }
    report.assume("a wait can time out at any moment (fault) and does so when no thread can go on; the time limit is measured in virtual time");
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for (_, programs, _) in programs(id(name.get(..3)?), true) {
        if let Some(p) = programs.iter().find(|p| p.name() == name) {
            return Some(sched::replay(p, prefix));
        }
    }
    None
}
