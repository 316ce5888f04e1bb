//! Interleavings of calls on the token store: T07.
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::token_model::*;
use crate::token_seq::*;
use crate::util::*;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use mcstd::mc;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum COp {
    Op(TOp),
    /// snapshot of a program, answers the accounts of an empty store which has loaded it
    Snap(u8),
    /// loads a snapshot of the token program with the accounts of SNAPSHOT
    Load,
}
impl std::fmt::Debug for COp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            COp::Op(op) => write!(f, "{op:?}"),
            COp::Snap(p) => write!(f, "snapshot of program {p}"),
            COp::Load => write!(f, "load a snapshot"),
        }
    }
}

/// accounts of the loaded snapshot
fn snapshot_ops() -> Vec<TOp> {
    vec![
        tup(mint(1, 0, 1), 2),
        tup(tok(2, 3, 5, 9, 1), 2),
        tup(tok(4, 3, 5, 8, 1), 2),
    ]
}

pub struct Conc {
    pub name: String,
    pub accounts: Vec<u8>,
    pub queries: Vec<Q>,
    pub setup: Vec<TOp>,
    pub threads: Vec<Vec<COp>>,
    /// calls which follow when the threads have ended
    pub after: Vec<TOp>,
    pub shards: usize,
    pub oracle: OnceLock<Oracle>,
}

type Final<T> = Vec<(String, Vec<T>)>;

/// what a call tells about an account
#[derive(Clone, PartialEq, Eq, Hash)]
enum Told {
    State(Option<Want>),
    /// None: not specified
    Recorded(Option<bool>),
}

enum TTold {
    State(Option<TSeen>),
    Recorded(bool),
}

#[derive(Default)]
pub struct Oracle {
    /// the sequential orders are not all specified
    skip: bool,
    finals: Vec<Final<Want>>,
    /// per thread and account and commitment: the series of values its reads may return
    series: HashMap<(usize, u8, u8), HashSet<Vec<Option<Want>>>>,
    /// per thread and operation: states of accounts a query or a notification may return
    states: HashMap<(usize, usize), HashSet<TSeen>>,
    /// ... and accounts which are always returned
    always: HashMap<(usize, usize), BTreeSet<solana_sdk::pubkey::Pubkey>>,
    /// per account: what all the threads are told about it, and its final states
    views: HashMap<u8, HashSet<Vec<Told>>>,
    orders: usize,
}

pub fn orders(lens: &[usize]) -> Vec<Vec<usize>> {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                rec(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    rec(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

fn fits(got: &Option<TSeen>, want: &Option<Want>) -> bool {
    one_ok(got, want).is_ok()
}

fn real(accounts: &[u8], s: &dyn AccountStorageInterface, op: &COp, snapshot: &[u8]) -> TAnswer {
    match op {
        COp::Op(op) => treal(s, op),
        COp::Snap(p) => {
            let snap = s.create_snapshot(token_program(*p)).unwrap();
            let other = new_token_store();
            mc::solo(|| {
                other.load_from_snapshot(token_program(*p), snap).unwrap();
                TAnswer::List(
                    accounts
                        .iter()
                        .filter_map(|a| tread(&other, *a, 2).unwrap())
                        .collect(),
                )
            })
        }
        COp::Load => {
            s.load_from_snapshot(token_program(0), snapshot.to_vec())
                .unwrap();
            TAnswer::None
        }
    }
}
impl Conc {
    fn observe(&self, s: &dyn AccountStorageInterface) -> Final<TSeen> {
        let mut f = vec![];
        for c in 0..3u8 {
            for a in &self.accounts {
                let r = tread(s, *a, c).ok().flatten();
                f.push((
                    format!("account {a} at {}", cname(c)),
                    r.into_iter().collect(),
                ));
            }
            for q in &self.queries {
                f.push((
                    format!("query {q:?} at {}", cname(c)),
                    tquery(s, q, c).unwrap_or_default(),
                ));
            }
        }
        f
    }
    fn observe_model(&self, m: &TModel) -> Final<Want> {
        let mut f = vec![];
        for c in 0..3u8 {
            for a in &self.accounts {
                f.push((
                    format!("account {a} at {}", cname(c)),
                    m.read(*a, c).into_iter().collect(),
                ));
            }
            for q in &self.queries {
                f.push((format!("query {q:?} at {}", cname(c)), m.query(q, c)));
            }
        }
        f
    }
    /// None if it is not specified
    fn model(&self, m: &mut TModel, op: &COp) -> Option<TWant> {
        match op {
            COp::Op(op) => {
                if !m.in_order(op) {
                    return None;
                }
                Some(m.apply(op))
            }
            COp::Snap(p) => Some(TWant::List(
                m.snapshot(*p)
                    .iter()
                    .map(|w| Want {
                        seen: expected(w, false),
                        optional: false,
                    })
                    .collect(),
            )),
            COp::Load => {
                let mut from = TModel::new(&self.accounts);
                for op in snapshot_ops() {
                    from.apply(&op);
                }
                if !m.can_load(&from, 0) {
                    return None;
                }
                m.load(&from, 0);
                Some(TWant::None)
            }
        }
    }

    fn notified(&self) -> bool {
        self.threads
            .iter()
            .flatten()
            .any(|op| matches!(op, COp::Op(TOp::Notify { .. })))
    }

    /// what the calls tell about an account, in the order of the threads, then its final states
    fn told_by(&self, a: u8, answers: &[Vec<TAnswer>], end: &Final<TSeen>) -> Vec<TTold> {
        let mut out = vec![];
        let key = tkey(a);
        for (ops, answers) in self.threads.iter().zip(answers) {
            for (op, answer) in ops.iter().zip(answers) {
                match (op, answer) {
                    (COp::Op(TOp::Update(w, _)), TAnswer::Recorded(r))
                        if w.addr == a && !self.notified() =>
                    {
                        out.push(TTold::Recorded(*r))
                    }
                    (COp::Op(TOp::Read(x, _)), TAnswer::One(v)) if *x == a => {
                        out.push(TTold::State(v.clone()))
                    }
                    (COp::Op(TOp::Query(..)) | COp::Snap(_), TAnswer::List(l)) => {
                        out.push(TTold::State(l.iter().find(|s| s.pubkey == key).cloned()))
                    }
                    _ => {}
                }
            }
        }
        for c in 0..3 {
            let name = format!("account {a} at {}", cname(c));
            out.push(TTold::State(
                end.iter().find(|f| f.0 == name).unwrap().1.first().cloned(),
            ));
        }
        out
    }

    /// A query is not one step for several accounts, but it is for each of them. Above finalized, reads
    /// and queries may look at the unfinalized states, then later at the finalized ones
    fn oracle(&self) -> &Oracle {
        self.oracle.get_or_init(|| {
            let looks = |op: &COp| match op {
                COp::Op(TOp::Read(_, c) | TOp::Query(_, c)) => Some(*c),
                _ => None,
            };
            // (operation, first half of it)
            let steps: Vec<Vec<(usize, bool)>> = self
                .threads
                .iter()
                .map(|ops| {
                    let mut v = vec![];
                    for (i, op) in ops.iter().enumerate() {
                        if looks(op).map_or(false, |c| c < 2) {
                            v.push((i, true));
                        }
                        v.push((i, false));
                    }
                    v
                })
                .collect();
            let lens: Vec<usize> = steps.iter().map(|t| t.len()).collect();
            let all = orders(&lens);
            let mut o = Oracle { orders: all.len(), ..Default::default() };
            let mut start = TModel::new(&self.accounts);
            for op in &self.setup {
                start.apply(op);
            }
            let mut models = HashSet::new();
            for order in all {
                let mut m = start.clone();
                let mut next = vec![0; lens.len()];
                let mut first: Vec<HashMap<u8, Option<Want>>> = vec![HashMap::new(); lens.len()];
                let mut told = vec![vec![vec![]; lens.len()]; self.accounts.len()];
                let mut series: HashMap<(usize, u8, u8), Vec<Option<Want>>> = HashMap::new();
                for t in order {
                    let (i, half) = steps[t][next[t]];
                    next[t] += 1;
                    let op = &self.threads[t][i];
                    if half {
                        let c = looks(op).unwrap();
                        first[t] = self
                            .accounts
                            .iter()
                            .filter(|a| m.unfinalized_view(**a, c).is_some())
                            .map(|a| (*a, m.read(*a, c)))
                            .collect();
                        continue;
                    }
                    let seen = std::mem::take(&mut first[t]);
                    let at = |m: &TModel, a: u8| seen.get(&a).cloned().unwrap_or_else(|| m.read(a, 2));
                    let a = match op {
                        COp::Op(TOp::Read(a, _)) => TWant::One(at(&m, *a)),
                        COp::Op(TOp::Query(q, _)) => TWant::List(
                            self.accounts
                                .iter()
                                .filter_map(|a| at(&m, *a))
                                .filter(|x| q.matches(&x.seen.owner, &x.seen.data))
                                .collect(),
                        ),
                        _ => match self.model(&mut m, op) {
                            Some(a) => a,
                            None => {
                                o.skip = true;
                                return o;
                            }
                        },
                    };
                    match (op, &a) {
                        (COp::Op(TOp::Read(x, _)), TWant::One(v)) => {
                            let n = self.accounts.iter().position(|y| x == y).unwrap();
                            told[n][t].push(Told::State(v.clone()));
                        }
                        (COp::Op(TOp::Query(..)) | COp::Snap(_), TWant::List(l)) => {
                            for (n, x) in self.accounts.iter().enumerate() {
                                let key = tkey(*x);
                                let v = l.iter().find(|s| s.seen.pubkey == key).cloned();
                                told[n][t].push(Told::State(v));
                            }
                        }
                        (COp::Op(TOp::Update(w, _)), TWant::Recorded(r)) if !self.notified() => {
                            if let Some(n) = self.accounts.iter().position(|x| *x == w.addr) {
                                told[n][t].push(Told::Recorded(*r));
                            }
                        }
                        _ => {}
                    }
                    match a {
                        TWant::List(l) => {
                            let sure: BTreeSet<_> =
                                l.iter().filter(|w| !w.optional).map(|w| w.seen.pubkey).collect();
                            o.always
                                .entry((t, i))
                                .and_modify(|a| *a = a.intersection(&sure).copied().collect())
                                .or_insert(sure);
                            o.states.entry((t, i)).or_default().extend(l.into_iter().map(|w| w.seen));
                        }
                        TWant::One(v) => {
                            if let COp::Op(TOp::Read(x, c)) = op {
                                series.entry((t, *x, *c)).or_default().push(v);
                            }
                        }
                        _ => {}
                    }
                }
                for op in &self.after {
                    if self.model(&mut m, &COp::Op(*op)).is_none() {
                        o.skip = true;
                        return o;
                    }
                }
                for (a, told) in self.accounts.iter().zip(told) {
                    let mut v: Vec<Told> = told.into_iter().flatten().collect();
                    v.extend((0..3).map(|c| Told::State(m.read(*a, c))));
                    o.views.entry(*a).or_default().insert(v);
                }
                for (k, s) in series {
                    o.series.entry(k).or_default().insert(s);
                }
                if models.insert(hash64(&m)) {
                    let f = self.observe_model(&m);
                    if !o.finals.contains(&f) {
                        o.finals.push(f);
                    }
                }
            }
            o
        })
    }

    fn check(&self, answers: &[Vec<TAnswer>], end: &Final<TSeen>) -> Result<(), String> {
        let o = self.oracle();
        let mut diff = String::new();
        let mut found = false;
        for f in &o.finals {
            let mut ok = true;
            for (w, g) in f.iter().zip(end) {
                if let Err(e) = check_list(&g.1, &w.1) {
                    ok = false;
                    diff.push_str(&format!("\n  {}: {e}", w.0));
                }
            }
            if ok {
                found = true;
                break;
            }
            diff.push_str("\n  --");
        }
        if !found {
            return Err(format!(
                "final state is the one of none of the {} sequential orders:{diff}",
                o.orders
            ));
        }
        for a in &self.accounts {
            let told = self.told_by(*a, answers, end);
            let explained = o.views[a].iter().any(|v| {
                v.len() == told.len()
                    && v.iter().zip(&told).all(|(w, g)| match (w, g) {
                        (Told::State(w), TTold::State(g)) => fits(g, w),
                        (Told::Recorded(w), TTold::Recorded(g)) => w.map_or(true, |w| w == *g),
                        _ => false,
                    })
            });
            if !explained {
                return Err(format!(
                    "no sequential order explains what the threads are told about account {a} and its final states: {}",
                    told.iter()
                        .map(|x| match x {
                            TTold::State(s) => tshow_opt(s),
                            TTold::Recorded(r) => format!("recorded: {r}"),
                        })
                        .collect::<Vec<_>>()
                        .join(", then "),
                ));
            }
        }
        for (t, ops) in self.threads.iter().enumerate() {
            let mut series: HashMap<(u8, u8), Vec<Option<TSeen>>> = HashMap::new();
            for (i, op) in ops.iter().enumerate() {
                match (op, &answers[t][i]) {
                    (COp::Op(TOp::Read(a, c)), TAnswer::One(v)) => {
                        series.entry((*a, *c)).or_default().push(v.clone());
                    }
                    (_, TAnswer::List(l)) => {
                        let mut keys = BTreeSet::new();
                        for s in l {
                            if !keys.insert(s.pubkey) {
                                return Err(format!(
                                    "thread {t}: {op:?} returns twice {}",
                                    s.show()
                                ));
                            }
                            if !o
                                .states
                                .get(&(t, i))
                                .map_or(false, |x| x.iter().any(|w| same(s, w)))
                            {
                                return Err(format!(
                                    "thread {t}: {op:?} returns {} which no sequential order shows",
                                    s.show()
                                ));
                            }
                        }
                        for k in &o.always[&(t, i)] {
                            if !keys.contains(k) {
                                return Err(format!(
                                    "thread {t}: {op:?} does not return {} which every sequential order returns",
                                    short(k)
                                ));
                            }
                        }
                    }
                    _ => {}
                }
            }
            for ((a, c), got) in series {
                let ok = o.series[&(t, a, c)]
                    .iter()
                    .any(|want| want.iter().zip(&got).all(|(w, g)| fits(g, w)));
                if !ok {
                    return Err(format!(
                        "thread {t} reads account {a} at {} as {} which no sequential order shows",
                        cname(c),
                        got.iter()
                            .map(tshow_opt)
                            .collect::<Vec<_>>()
                            .join(", then ")
                    ));
                }
            }
        }
        Ok(())
    }
}

impl Program for Conc {
    fn name(&self) -> String {
        format!("{}-shards{}", self.name, self.shards)
    }
    fn describe(&self) -> Vec<String> {
        let mut v = vec![format!("setup: {:?}", self.setup)];
        for (i, t) in self.threads.iter().enumerate() {
            v.push(format!("thread {i}: {:?}", t));
        }
        if !self.after.is_empty() {
            v.push(format!("afterwards: {:?}", self.after));
        }
        v
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        crate::dashmap_shards(self.shards);
        let store: Arc<dyn AccountStorageInterface> = Arc::new(new_token_store());
        for op in &self.setup {
            treal(&*store, op);
        }
        let snapshot = if self.threads.iter().flatten().any(|op| *op == COp::Load) {
            let s = new_token_store();
            for op in snapshot_ops() {
                treal(&s, &op);
            }
            s.create_snapshot(token_program(0)).unwrap()
        } else {
            vec![]
        };
        let snapshot = Arc::new(snapshot);
        let answers: Arc<Mutex<Vec<Vec<TAnswer>>>> =
            Arc::new(Mutex::new(vec![vec![]; self.threads.len()]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (store, answers, ops) = (store.clone(), answers.clone(), ops.clone());
            let (snapshot, accounts) = (snapshot.clone(), self.accounts.clone());
            bodies.push(Box::new(move || {
                for op in ops {
                    let a = real(&accounts, &*store, &op, &snapshot);
                    answers.lock().unwrap()[t].push(a);
                }
            }));
        }
        let outcome = mc::execute(
            bodies,
            prefix,
            log,
            50_000,
            std::time::Duration::from_secs(10),
        );
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run {
                outcome,
                verdict: Ok(()),
                observed: 0,
            };
        }
        let answers = answers.lock().unwrap().clone();
        let end = mc::solo(|| {
            for op in &self.after {
                treal(&*store, op);
            }
            self.observe(&*store)
        });
        let verdict = self.check(&answers, &end);
        Run {
            outcome,
            verdict,
            observed: hash64(&(&self.name, &answers, &end)),
        }
    }
}

fn q_owner(o: u8) -> Q {
    Q {
        owner: Some(o),
        size: Some(165),
        ..Default::default()
    }
}
fn q_mint(m: u8) -> Q {
    Q {
        mint: Some(m),
        size: Some(165),
        ..Default::default()
    }
}

/// all programs of 2 threads of one call, then with longer threads
pub fn programs(thorough: bool, shards: usize) -> Vec<(&'static str, Vec<Conc>, Bound)> {
    // 10 and 11 only differ in the last byte
    let accounts = vec![1, 2, 4, 5, 10, 11];
    let queries = vec![
        q_owner(8),
        q_owner(9),
        q_mint(1),
        Q {
            size: Some(82),
            ..Default::default()
        },
    ];
    let base = vec![
        tup(mint(1, 0, 1), 2),
        tup(tok(2, 1, 0, 8, 1), 2),
        tup(tok(10, 1, 0, 8, 1), 2),
    ];
    let with = |more: Vec<TOp>| base.iter().copied().chain(more).collect::<Vec<_>>();
    let setups: Vec<(&str, Vec<TOp>)> = vec![
        ("base", with(vec![])),
        (
            "processed",
            with(vec![
                tup(tok(2, 2, 0, 9, 1), 0),
                tup(tok(11, 2, 0, 8, 1), 0),
                tnote(2, 1, 0),
                tnote(3, 2, 0),
            ]),
        ),
        (
            "confirmed",
            with(vec![
                tup(tok(2, 2, 0, 9, 1), 0),
                tup(tok(11, 2, 0, 8, 1), 0),
                tnote(2, 1, 1),
                tnote(3, 2, 0),
            ]),
        ),
        (
            "closing",
            with(vec![
                tup(closed(2, 2, 0), 0),
                tup(closed(10, 2, 0), 0),
                tup(tok(11, 2, 0, 8, 1), 0),
                tnote(2, 1, 1),
            ]),
        ),
        (
            "no-mint",
            vec![
                tup(tok(2, 1, 0, 8, 1), 2),
                tup(tok(2, 2, 0, 9, 1), 0),
                tup(mint(1, 0, 2), 0),
                tnote(2, 1, 0),
            ],
        ),
        (
            "new",
            vec![
                tup(mint(1, 0, 1), 2),
                tup(tok(2, 2, 0, 9, 1), 1),
                tup(tok(11, 2, 0, 9, 1), 1),
                tup(multi(5, 0, 2), 0),
                tnote(2, 1, 0),
            ],
        ),
    ];
    let mutators: Vec<COp> = vec![
        COp::Op(tup(tok(2, 2, 1, 8, 1), 0)),
        COp::Op(tup(tok(2, 3, 0, 8, 1), 1)),
        COp::Op(tup(tok(2, 3, 1, 9, 1), 2)),
        COp::Op(tup(closed(2, 3, 2), 0)),
        COp::Op(tup(closed(2, 3, 3), 2)),
        COp::Op(tup(tok(10, 3, 0, 9, 1), 2)),
        COp::Op(tup(tok(11, 3, 0, 9, 1), 2)),
        COp::Op(tup(mint(1, 0, 3), 2)),
        COp::Op(tup(multi(5, 0, 3), 2)),
        COp::Op(tnote(2, 1, 1)),
        COp::Op(tnote(2, 1, 2)),
        COp::Op(tnote(3, 2, 1)),
        COp::Op(tnote(3, 2, 2)),
        COp::Load,
    ];
    let is_note = |op: &COp| matches!(op, COp::Op(TOp::Notify { .. }));
    let mut observers: Vec<Vec<COp>> = vec![];
    for c in 0..3 {
        for a in [2, 10] {
            observers.push(vec![COp::Op(TOp::Read(a, c)), COp::Op(TOp::Read(a, c))]);
        }
        observers.push(vec![COp::Op(TOp::Query(q_owner(8), c))]);
        observers.push(vec![COp::Op(TOp::Query(q_owner(9), c))]);
        observers.push(vec![COp::Op(TOp::Query(q_mint(1), c))]);
    }
    observers.push(vec![COp::Op(TOp::Read(1, 0)), COp::Op(TOp::Read(1, 0))]);
    observers.push(vec![COp::Op(TOp::Read(5, 1)), COp::Op(TOp::Read(5, 1))]);
    observers.push(vec![COp::Op(TOp::Read(11, 0)), COp::Op(TOp::Read(11, 0))]);
    observers.push(vec![COp::Op(TOp::Query(queries[3], 2))]);
    observers.push(vec![COp::Snap(0)]);
    // one thread which looks twice, in different ways
    let mut views: Vec<Vec<COp>> = vec![];
    for c in 0..3 {
        let (r, q8, q9, m) = (
            COp::Op(TOp::Read(2, c)),
            COp::Op(TOp::Query(q_owner(8), c)),
            COp::Op(TOp::Query(q_owner(9), c)),
            COp::Op(TOp::Query(q_mint(1), c)),
        );
        views.extend([
            vec![r, q8],
            vec![q9, r],
            vec![q8, q9],
            vec![q9, q8],
            vec![m, r],
            vec![r, m],
            vec![m, m],
        ]);
    }
    for (c, d) in [(2, 1), (2, 0), (1, 0)] {
        views.push(vec![COp::Op(TOp::Read(2, c)), COp::Op(TOp::Read(2, d))]);
        views.push(vec![
            COp::Op(TOp::Query(q_mint(1), c)),
            COp::Op(TOp::Query(q_mint(1), d)),
        ]);
    }
    views.push(vec![COp::Snap(0), COp::Op(TOp::Read(2, 2))]);
    views.push(vec![COp::Op(TOp::Query(q_owner(9), 2)), COp::Snap(0)]);
    views.push(vec![COp::Snap(0), COp::Op(TOp::Query(q_mint(1), 2))]);
    let conc = |name: String, setup: &Vec<TOp>, threads: Vec<Vec<COp>>| Conc {
        name,
        accounts: accounts.clone(),
        queries: queries.clone(),
        setup: setup.clone(),
        threads,
        after: vec![],
        shards,
        oracle: OnceLock::new(),
    };
    // accounts of mints which are not known before, or only then
    let firsts: Vec<COp> = [
        tup(tok(2, 2, 0, 8, 1), 0),
        tup(tok(10, 2, 0, 8, 1), 0),
        tup(tok(11, 2, 0, 9, 1), 0),
        tup(tok(2, 2, 1, 8, 4), 1),
        tup(tok(10, 3, 1, 9, 4), 2),
        tup(tok(11, 3, 1, 8, 1), 2),
        tup(mint(1, 0, 2), 0),
        tup(mint(1, 0, 2), 2),
        tup(mint(4, 0, 3), 2),
        tnote(2, 1, 2),
    ]
    .into_iter()
    .map(COp::Op)
    .chain([COp::Load])
    .collect();
    let mut new_mints = vec![];
    for (sn, setup) in [
        ("empty", vec![]),
        ("slot", vec![tnote(2, 1, 0), tup(multi(5, 0, 2), 0)]),
        ("mint", vec![tup(mint(1, 0, 1), 2), tup(mint(4, 0, 1), 0), tnote(2, 1, 0)]),
    ] {
        let mut add = |name: String, threads: Vec<Vec<COp>>| {
            let mut p = conc(format!("T07-new-{sn}-{name}"), &setup, threads);
            p.queries.push(q_mint(4));
            p.after =
                vec![tup(mint(1, 0, 4), 2), tup(mint(4, 0, 4), 2), tnote(3, 2, 0), tnote(3, 2, 2)];
            new_mints.push(p);
        };
        for (i, a) in firsts.iter().enumerate() {
            for (j, b) in firsts.iter().enumerate().skip(i) {
                add(format!("{i}-{j}"), vec![vec![*a], vec![*b]]);
                for (k, c) in firsts.iter().enumerate() {
                    if k >= j {
                        add(format!("{i}-{j}-{k}"), vec![vec![*a], vec![*b], vec![*c]]);
                    }
                    if k != i {
                        add(format!("{i}.{k}-{j}"), vec![vec![*a, *c], vec![*b]]);
                    }
                }
            }
        }
    }
    let (mut pairs, mut reads, mut triples, mut longer) = (vec![], vec![], vec![], vec![]);
    let (mut looks, mut looks2) = (vec![], vec![]);
    for (sn, setup) in &setups {
        for (i, a) in mutators.iter().enumerate() {
            for (j, v) in views.iter().enumerate() {
                looks.push(conc(
                    format!("T07-look-{sn}-{i}-{j}"),
                    setup,
                    vec![vec![*a], v.clone()],
                ));
                for (k, b) in mutators.iter().enumerate() {
                    if k != i && (thorough || (i + 3 * j + 5 * k) % 19 == 0) {
                        looks2.push(conc(
                            format!("T07-looks-{sn}-{i}-{k}-{j}"),
                            setup,
                            vec![vec![*a, *b], v.clone()],
                        ));
                    }
                }
            }
        }
    }
    for (sn, setup) in &setups {
        for (i, a) in mutators.iter().enumerate() {
            for (j, b) in mutators.iter().enumerate().skip(i) {
                pairs.push(conc(
                    format!("T07-pair-{sn}-{i}-{j}"),
                    setup,
                    vec![vec![*a], vec![*b]],
                ));
                for (k, c) in mutators.iter().enumerate().skip(j) {
                    let notes = [a, b, c].iter().filter(|x| is_note(x)).count();
                    if (thorough || (i + 2 * j + 3 * k) % 7 == 0) && (1..3).contains(&notes) {
                        triples.push(conc(
                            format!("T07-triple-{sn}-{i}-{j}-{k}"),
                            setup,
                            vec![vec![*a], vec![*b], vec![*c]],
                        ));
                    }
                }
                if i != j {
                    for (k, c) in mutators.iter().enumerate() {
                        if ![a, b, c].iter().any(|x| is_note(x)) {
                            continue;
                        }
                        if thorough || (i + 3 * j + 5 * k) % 6 == 0 {
                            longer.push(conc(
                                format!("T07-long-{sn}-{i}-{j}-{k}"),
                                setup,
                                vec![vec![*a, *b], vec![*c]],
                            ));
                        }
                    }
                }
            }
            for (j, o) in observers.iter().enumerate() {
                reads.push(conc(
                    format!("T07-read-{sn}-{i}-{j}"),
                    setup,
                    vec![vec![*a], o.clone()],
                ));
            }
        }
    }
    let b = |p| Bound {
        preemptions: p,
        faults: 0,
    };
    let mut groups = if thorough {
        vec![
            ("pairs", pairs, b(3)),
            ("reads", reads, b(3)),
            ("longer", longer, b(2)),
            ("triples", triples, b(2)),
            ("looks", looks, b(3)),
            ("longer looks", looks2, b(2)),
            ("new mints", new_mints, b(2)),
        ]
    } else {
        vec![
            ("pairs", pairs, b(2)),
            ("reads", reads, b(2)),
            ("longer", longer, b(1)),
            ("triples", triples, b(1)),
            ("looks", looks, b(2)),
            ("longer looks", looks2, b(1)),
            ("new mints", new_mints, b(1)),
        ]
    };
    for (_, g, _) in &mut groups {
        g.retain(|p| !p.oracle().skip);
    }
    groups
}

pub fn run(report: &Report) {
    for shards in [32, 1] {
        for (group, programs, bound) in programs(report.thorough, shards) {
            let name = format!(
                "{group}, {}",
                if shards == 1 {
                    "all keys in one shard"
                } else {
                    "keys in different shards"
                }
            );
            sched::explore(
                &name,
                &programs,
                bound,
                if report.thorough { 200_000 } else { 20_000 },
                report,
            );
        }
    }
    report.assume("interleavings at the granularity of lock, atomic and condition variable operations of std and dashmap, sequentially consistent");
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for shards in [32, 1] {
        for (_, programs, _) in programs(true, shards) {
            if let Some(p) = programs.iter().find(|p| p.name() == name) {
                return Some(sched::replay(p, prefix));
            }
        }
    }
    None
}
