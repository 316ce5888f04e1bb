//! Interleavings of calls on the account store: C07.
use crate::main_model::*;
use crate::main_seq::*;
use crate::report::Report;
use crate::sched::{self, Bound, Program, Run};
use crate::util::*;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use mcstd::mc;
use std::collections::{BTreeSet, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

pub type MakeStore = fn(&Filters) -> Arc<dyn AccountStorageInterface>;

pub struct Conc {
    pub name: String,
    pub filters: Filters,
    pub accounts: u8,
    pub programs: Vec<u8>,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// number of shards of the hash maps, with 1 all keys collide
    pub shards: usize,
    pub make: MakeStore,
    /// a notification may name an account once for each store which knows it
    pub dedup: bool,
    pub oracle: OnceLock<Oracle>,
}

/// everything which can be observed at the end
type Final = Vec<(String, Vec<Seen>)>;

#[derive(Default)]
pub struct Oracle {
    finals: HashSet<Final>,
    /// per thread and account and commitment: the series of values its reads may return
    series: HashSet<(usize, u8, u8, Vec<Option<Seen>>)>,
    /// per thread and operation: states of accounts a query or a notification may return
    states: HashSet<(usize, usize, Seen)>,
    /// ... and accounts which are always returned by a query
    always: HashSet<(usize, usize, solana_sdk::pubkey::Pubkey)>,
    /// per account: what all the threads are told about it, and its final state
    views: HashSet<(u8, Vec<Told>, Vec<Option<Seen>>)>,
    orders: usize,
}

/// what a call tells about one account
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Told {
    State(Option<Seen>),
    Recorded(bool),
}

/// a point of a sequential order. An update, a read and a query are one step, a notification has one
/// for the slots, then one per account, then one per account which is forgotten
#[derive(Clone)]
struct Point {
    m: Model,
    next: Vec<usize>,
    running: Vec<Option<Running>>,
    answers: Vec<Vec<Answer>>,
    /// updates whose answer is not specified
    free: Vec<(usize, usize)>,
}
#[derive(Clone, Hash)]
struct Running {
    c: u8,
    promote: Vec<(u8, u32, u64)>,
    forget: Vec<(u8, u32)>,
    out: Vec<Seen>,
}

impl Conc {
    fn notifies(&self) -> bool {
        self.threads.iter().flatten().any(|op| matches!(op, Op::Notify { .. }))
    }

    fn observe(&self, s: &dyn AccountStorageInterface) -> Final {
        let mut f = vec![];
        for c in 0..3u8 {
            for a in 0..self.accounts {
                let r = real_read(s, a, c).ok().flatten();
                f.push((format!("account {a} at {}", cname(c)), r.into_iter().collect()));
            }
            for p in &self.programs {
                let r = real_query(s, *p, &[], c).unwrap_or_default();
                f.push((format!("program {p} at {}", cname(c)), r));
            }
        }
        f
    }

    fn series(&self, answers: &[Vec<Answer>]) -> Vec<(usize, u8, u8, Vec<Option<Seen>>)> {
        let mut out = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            for a in 0..self.accounts {
                for c in 0..3 {
                    let mut s = vec![];
                    for (i, op) in ops.iter().enumerate() {
                        match (op, &answers[t][i]) {
                            (Op::Read(x, y), Answer::One(v)) if *x == a && *y == c => s.push(v.clone()),
                            _ => {}
                        }
                    }
                    if !s.is_empty() {
                        out.push((t, a, c, s));
                    }
                }
            }
        }
        out
    }

    /// what the calls tell about an account, in the order of the threads. A query is not one step for
    /// several accounts, but it is for each of them; notifications have several steps
    fn told(&self, a: u8, answers: &[Vec<Answer>]) -> Vec<Told> {
        let mut out = vec![];
        for (ops, answers) in self.threads.iter().zip(answers) {
            for (op, answer) in ops.iter().zip(answers) {
                match (op, answer) {
                    (Op::Update(w, _), Answer::Recorded(r)) if w.acct == a => out.push(Told::Recorded(*r)),
                    (Op::Read(x, _), Answer::One(v)) if *x == a => out.push(Told::State(v.clone())),
                    (Op::Query(..) | Op::QueryF(..), Answer::List(l)) => {
                        let key = account_key(a);
                        out.push(Told::State(l.iter().find(|s| s.pubkey == key).cloned()))
                    }
                    _ => {}
                }
            }
        }
        out
    }

    fn oracle(&self) -> &Oracle {
        self.oracle.get_or_init(|| {
            let mut m = Model::new(self.filters.clone(), self.accounts as usize);
            for op in &self.setup {
                model_apply(&mut m, op);
            }
            let n = self.threads.len();
            let start = Point {
                m,
                next: vec![0; n],
                running: vec![None; n],
                answers: vec![vec![]; n],
                free: vec![],
            };
            let mut o = Oracle::default();
            self.orders(start, &mut HashSet::new(), &mut o);
            o
        })
    }

    fn orders(&self, mut p: Point, known: &mut HashSet<u64>, o: &mut Oracle) {
        // a notification with nothing left to do
        for t in 0..self.threads.len() {
            if p.running[t].as_ref().map_or(false, |r| r.promote.is_empty() && r.forget.is_empty()) {
                let mut l = p.running[t].take().unwrap().out;
                l.sort();
                p.answers[t].push(Answer::List(l));
            }
        }
        if !known.insert(hash64(&(&p.m, &p.next, &p.running, &p.answers, &p.free))) {
            return;
        }
        let mut end = true;
        for t in 0..self.threads.len() {
            if let Some(r) = &p.running[t] {
                end = false;
                for i in 0..r.promote.len() {
                    let mut q = p.clone();
                    let r = q.running[t].as_mut().unwrap();
                    let (a, inc, s) = r.promote.remove(i);
                    let (seen, forget) = q.m.promote(a, inc, s, r.c);
                    r.out.extend(seen);
                    if forget {
                        r.forget.push((a, inc));
                    }
                    self.orders(q, known, o);
                }
                if r.promote.is_empty() {
                    for i in 0..r.forget.len() {
                        let mut q = p.clone();
                        let (a, inc) = q.running[t].as_mut().unwrap().forget.remove(i);
                        q.m.forget(a, inc);
                        self.orders(q, known, o);
                    }
                }
                continue;
            }
            let Some(op) = self.threads[t].get(p.next[t]) else { continue };
            end = false;
            let mut q = p.clone();
            q.next[t] += 1;
            if let Op::Notify { slot, parent, c } = op {
                let promote = q.m.begin(*slot, *parent, *c);
                q.running[t] = Some(Running { c: *c, promote, forget: vec![], out: vec![] });
            } else {
                let (a, specified) = model_apply(&mut q.m, op);
                if !specified {
                    q.free.push((t, p.next[t]));
                }
                q.answers[t].push(a);
            }
            self.orders(q, known, o);
        }
        if end {
            self.learn(&p, o);
        }
    }

    /// what one order shows
    fn learn(&self, p: &Point, o: &mut Oracle) {
        let Point { m, answers, free, .. } = p;
        o.finals.insert(self.observe_model(m));
        o.series.extend(self.series(answers));
        for choice in 0..1u32 << free.len() {
            let mut answers = answers.clone();
            for (k, (t, i)) in free.iter().enumerate() {
                answers[*t][*i] = Answer::Recorded(choice >> k & 1 == 1);
            }
            for a in 0..self.accounts {
                let end = (0..3).map(|c| m.read(a, c)).collect();
                o.views.insert((a, self.told(a, &answers), end));
            }
        }
        let mut now = HashSet::new();
        for (t, a) in answers.iter().enumerate() {
            for (i, a) in a.iter().enumerate() {
                if let Answer::List(l) = a {
                    o.states.extend(l.iter().map(|s| (t, i, s.clone())));
                    if let Op::Query(..) | Op::QueryF(..) = &self.threads[t][i] {
                        now.extend(l.iter().map(|s| (t, i, s.pubkey)));
                    }
                }
            }
        }
        if o.orders == 0 {
            o.always = now;
        } else {
            o.always = o.always.intersection(&now).cloned().collect();
        }
        o.orders += 1;
    }

    fn observe_model(&self, m: &Model) -> Final {
        let mut f = vec![];
        for c in 0..3u8 {
            for a in 0..self.accounts {
                f.push((format!("account {a} at {}", cname(c)), m.read(a, c).into_iter().collect()));
            }
            for p in &self.programs {
                f.push((format!("program {p} at {}", cname(c)), m.query(*p, &[], c)));
            }
        }
        f
    }

    fn check(&self, answers: &[Vec<Answer>], end: &Final) -> Result<(), String> {
        let o = self.oracle();
        if !o.finals.contains(end) {
            let mut diff = String::new();
            for f in &o.finals {
                for (x, y) in f.iter().zip(end) {
                    if x != y {
                        diff.push_str(&format!("\n  {}: {} in a sequential order, {} here", x.0, show_list(&x.1), show_list(&y.1)));
                    }
                }
                diff.push_str("\n  --");
            }
            return Err(format!("final state is the one of none of the {} sequential orders:{diff}", o.orders));
        }
        for s in self.series(answers) {
            if !o.series.contains(&s) {
                return Err(format!(
                    "thread {} reads account {} at {} as {} which no sequential order shows",
                    s.0,
                    s.1,
                    cname(s.2),
                    s.3.iter().map(show_opt).collect::<Vec<_>>().join(", then ")
                ));
            }
        }
        for a in 0..self.accounts {
            let states = (0..3u8)
                .map(|c| end.iter().find(|f| f.0 == format!("account {a} at {}", cname(c))).unwrap().1.first().cloned())
                .collect();
            let view = (a, self.told(a, answers), states);
            if !o.views.contains(&view) {
                return Err(format!(
                    "no sequential order explains what the threads are told about account {a}: {}; at the end {}",
                    view.1
                        .iter()
                        .map(|x| match x {
                            Told::State(s) => show_opt(s),
                            Told::Recorded(r) => format!("recorded: {r}"),
                        })
                        .collect::<Vec<_>>()
                        .join(", then "),
                    view.2.iter().map(show_opt).collect::<Vec<_>>().join(", ")
                ));
            }
        }
        for (t, a) in answers.iter().enumerate() {
            for (i, a) in a.iter().enumerate() {
                if let Answer::List(l) = a {
                    let mut keys = BTreeSet::new();
                    for s in l {
                        if !keys.insert(s.pubkey) {
                            return Err(format!("thread {t}: {:?} returns twice {}", self.threads[t][i], s.show()));
                        }
                        if !o.states.contains(&(t, i, s.clone())) {
                            return Err(format!(
                                "thread {t}: {:?} returns {} which no sequential order shows",
                                self.threads[t][i],
                                s.show()
                            ));
                        }
                    }
                    for (x, y, k) in &o.always {
                        if (*x, *y) == (t, i) && !keys.contains(k) {
                            return Err(format!(
                                "thread {t}: {:?} does not return {} which every sequential order returns",
                                self.threads[t][i],
                                short(k)
                            ));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

impl Program for Conc {
    fn name(&self) -> String {
        format!("{}-shards{}", self.name, self.shards)
    }
    fn describe(&self) -> Vec<String> {
        let mut v = vec![format!("setup: {:?}", self.setup)];
        for (i, t) in self.threads.iter().enumerate() {
            v.push(format!("thread {i}: {:?}", t));
        }
        v
    }
    fn run(&self, prefix: Vec<u8>, log: bool) -> Run {
        crate::dashmap_shards(self.shards);
        let store: Arc<dyn AccountStorageInterface> = (self.make)(&self.filters);
        for op in &self.setup {
            real_apply(&*store, op);
        }
        let answers: Arc<Mutex<Vec<Vec<Answer>>>> = Arc::new(Mutex::new(vec![vec![]; self.threads.len()]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            let (store, answers, ops, dedup) = (store.clone(), answers.clone(), ops.clone(), self.dedup);
            bodies.push(Box::new(move || {
                for op in ops {
                    let mut a = real_apply(&*store, &op);
                    if let (Op::Notify { .. }, Answer::List(l), true) = (&op, &mut a, dedup) {
                        l.dedup();
                    }
                    answers.lock().unwrap()[t].push(a);
                }
            }));
        }
        let outcome = mc::execute(bodies, prefix, log, 20_000, std::time::Duration::from_secs(10));
        if outcome.deadlock.is_some() || !outcome.panics.is_empty() {
            return Run { outcome, verdict: Ok(()), observed: 0 };
        }
        let answers = answers.lock().unwrap().clone();
        let end = mc::solo(|| self.observe(&*store));
        let verdict = self.check(&answers, &end);
        Run { outcome, verdict, observed: hash64(&(&self.name, &answers, &end)) }
    }
}

/// all programs of 2 threads of one call, then with longer threads
pub fn programs(thorough: bool, shards: usize) -> Vec<(&'static str, Vec<Conc>, Bound)> {
    let filters = Filters::programs(&[0, 1]);
    let setups: Vec<(&str, Vec<Op>)> = vec![
        ("empty", vec![]),
        ("processed", vec![up(w(0, 1, 0, 0), 2), up(w(0, 2, 0, 0), 0), up(w(1, 2, 0, 0), 0), note(2, 1, 0)]),
        ("confirmed", vec![up(w(0, 1, 0, 0), 2), up(w(0, 2, 0, 0), 0), note(2, 1, 1), up(w(1, 2, 0, 1), 0)]),
        ("deleting", vec![up(w(0, 1, 0, 0), 2), up(w(1, 1, 0, 0), 2), up(dead(0, 2, 0, 3), 0), up(w(1, 2, 0, 2), 0), note(2, 1, 0)]),
    ];
    let mutators = vec![
        up(w(0, 2, 1, 0), 0),
        up(w(0, 2, 2, 1), 1),
        up(w(0, 3, 0, 0), 0),
        up(w(0, 3, 2, 1), 2),
        up(dead(0, 3, 1, 3), 0),
        up(dead(0, 3, 1, 3), 2),
        up(w(1, 3, 0, 0), 0),
        up(w(1, 3, 0, 0), 1),
        note(2, 1, 1),
        note(2, 1, 2),
        note(3, 2, 1),
        note(3, 2, 2),
    ];
    let mut observers = vec![];
    for c in 0..3 {
        observers.push(vec![Op::Read(0, c), Op::Read(0, c)]);
        observers.push(vec![Op::Query(0, c)]);
    }
    observers.push(vec![Op::Query(1, 0)]);
    observers.push(vec![Op::Read(1, 1), Op::Read(1, 1)]);
    // one thread which looks twice, in different ways
    let mut views = vec![];
    for c in 0..3 {
        views.push(vec![Op::Read(0, c), Op::Query(0, c)]);
        views.push(vec![Op::Query(0, c), Op::Read(0, c)]);
        views.push(vec![Op::Query(0, c), Op::Query(0, c)]);
    }
    views.push(vec![Op::Read(0, 0), Op::Query(1, 0)]);
    views.push(vec![Op::Query(0, 0), Op::Query(1, 0)]);
    views.push(vec![Op::Query(1, 1), Op::Query(0, 1)]);
    views.push(vec![Op::Query(1, 2), Op::Read(0, 2)]);
    views.push(vec![Op::Read(0, 2), Op::Read(0, 1)]);
    views.push(vec![Op::Read(0, 1), Op::Read(0, 0)]);
    views.push(vec![Op::Query(0, 2), Op::Query(0, 0)]);
    // conditions on the data
    let other = |mut x: Write| {
        x.data = 1;
        x
    };
    let data_mutators = vec![
        up(w(0, 3, 0, 0), 0),
        up(other(w(0, 3, 0, 0)), 0),
        up(other(w(0, 3, 0, 0)), 1),
        up(other(w(0, 3, 0, 1)), 2),
        up(other(w(1, 3, 0, 0)), 0),
        up(dead(0, 3, 1, 3), 0),
        note(2, 1, 1),
        note(2, 1, 2),
    ];
    let mut filtered = vec![];
    for c in 0..3 {
        for k in 0..QUERY_FILTERS.len() as u8 {
            filtered.push(vec![Op::QueryF(0, c, k)]);
        }
        filtered.push(vec![Op::QueryF(0, c, 0), Op::QueryF(0, c, 1)]);
        filtered.push(vec![Op::QueryF(0, c, 1), Op::Read(0, c)]);
    }
    let conc = |name: String, setup: &Vec<Op>, threads: Vec<Vec<Op>>| Conc {
        name,
        filters: filters.clone(),
        accounts: 2,
        programs: vec![0, 1],
        setup: setup.clone(),
        threads,
        shards,
        make: single,
        dedup: false,
        oracle: OnceLock::new(),
    };
    let mut pairs = vec![];
    let mut reads = vec![];
    let mut triples = vec![];
    let mut longer = vec![];
    let mut looks = vec![];
    let mut looks2 = vec![];
    let mut conditions = vec![];
    for (sn, setup) in &setups {
        for (i, a) in mutators.iter().enumerate() {
            for (j, v) in views.iter().enumerate() {
                looks.push(conc(format!("C07-look-{sn}-{i}-{j}"), setup, vec![vec![*a], v.clone()]));
                for (k, b) in mutators.iter().enumerate() {
                    if k != i && (thorough || (i + 3 * j + 5 * k) % 16 == 0) {
                        looks2.push(conc(format!("C07-looks-{sn}-{i}-{k}-{j}"), setup, vec![vec![*a, *b], v.clone()]));
                    }
                }
            }
        }
        for (i, a) in data_mutators.iter().enumerate() {
            for (j, v) in filtered.iter().enumerate() {
                conditions.push(conc(format!("C07-data-{sn}-{i}-{j}"), setup, vec![vec![*a], v.clone()]));
            }
        }
    }
    for (sn, setup) in &setups {
        for (i, a) in mutators.iter().enumerate() {
            for (j, b) in mutators.iter().enumerate().skip(i) {
                pairs.push(conc(format!("C07-pair-{sn}-{i}-{j}"), setup, vec![vec![*a], vec![*b]]));
                for (k, c) in mutators.iter().enumerate().skip(j) {
                    // at least one notification and one update, of the same account
                    let notes = [a, b, c].iter().filter(|x| matches!(x, Op::Notify { .. })).count();
                    if (thorough || (i + 2 * j + 3 * k) % 5 == 0) && (1..3).contains(&notes) {
                        triples.push(conc(
                            format!("C07-triple-{sn}-{i}-{j}-{k}"),
                            setup,
                            vec![vec![*a], vec![*b], vec![*c]],
                        ));
                    }
                }
                if i != j {
                    for (k, c) in mutators.iter().enumerate() {
                        let notes = [a, b, c].iter().filter(|x| matches!(x, Op::Notify { .. })).count();
                        if notes == 0 {
                            continue;
                        }
                        if thorough || (i + 3 * j + 5 * k) % 4 == 0 {
                            longer.push(conc(
                                format!("C07-long-{sn}-{i}-{j}-{k}"),
                                setup,
                                vec![vec![*a, *b], vec![*c]],
                            ));
                        }
                    }
                }
            }
            for (j, o) in observers.iter().enumerate() {
                reads.push(conc(format!("C07-read-{sn}-{i}-{j}"), setup, vec![vec![*a], o.clone()]));
            }
        }
    }
    let b = |p| Bound { preemptions: p, faults: 0 };
    if thorough {
        vec![
            ("pairs", pairs, b(4)),
            ("reads", reads, b(4)),
            ("longer", longer, b(3)),
            ("triples", triples, b(2)),
            ("looks", looks, b(4)),
            ("longer looks", looks2, b(3)),
            ("conditions", conditions, b(4)),
        ]
    } else {
        vec![
            ("pairs", pairs, b(3)),
            ("reads", reads, b(3)),
            ("longer", longer, b(2)),
            ("triples", triples, b(1)),
            ("looks", looks, b(2)),
            ("longer looks", looks2, b(2)),
            ("conditions", conditions, b(2)),
        ]
    }
}

fn single(f: &Filters) -> Arc<dyn AccountStorageInterface> {
    Arc::new(new_store(f))
}

/// accounts which move between programs with and without a store of their own, while others look
pub fn router_programs(thorough: bool, shards: usize) -> Vec<(String, Vec<Conc>, Bound)> {
    let filters = Filters::programs(&[0, 1, 2]);
    // 0 and 1 have their own stores, 2 is in the default store, 3 is not tracked
    let mut setups: Vec<(String, Vec<Op>)> = vec![("empty".into(), vec![])];
    for o in 0..3u8 {
        setups.push((format!("final-{o}"), vec![up(w(0, 1, 0, o), 2), up(w(1, 1, 0, o), 2)]));
        for n in 0..4u8 {
            if n != o {
                setups.push((format!("moving-{o}-{n}"), vec![up(w(0, 1, 0, o), 2), up(w(1, 1, 0, 0), 2), up(w(0, 2, n as u64, n), 0), note(2, 1, 0)]));
            }
        }
    }
    let mut mutators = vec![];
    for o in 0..4u8 {
        mutators.push(up(w(0, 3, o as u64, o), 0));
    }
    mutators.push(up(w(0, 3, 1, 1), 1));
    mutators.push(up(w(0, 3, 2, 2), 2));
    mutators.push(up(dead(0, 3, 4, 3), 0));
    mutators.push(up(dead(0, 3, 4, 3), 2));
    mutators.push(up(w(1, 3, 2, 2), 0));
    mutators.push(note(2, 1, 1));
    mutators.push(note(2, 1, 2));
    mutators.push(note(3, 2, 1));
    mutators.push(note(3, 2, 2));
    let mut views = vec![];
    for c in 0..3 {
        views.push(vec![Op::Read(0, c), Op::Read(0, c)]);
        views.push(vec![Op::Query(0, c)]);
        views.push(vec![Op::Query(2, c)]);
    }
    views.push(vec![Op::Read(0, 2), Op::Read(0, 1)]);
    views.push(vec![Op::Read(0, 1), Op::Read(0, 0)]);
    let part = if thorough { 4 } else { 12 };
    let mut out = vec![];
    for (kind, make) in [("own", router as MakeStore), ("shared", router_shared)] {
        let conc = |name: String, setup: &Vec<Op>, threads: Vec<Vec<Op>>| Conc {
            name,
            filters: filters.clone(),
            accounts: 2,
            programs: vec![0, 1, 2],
            setup: setup.clone(),
            threads,
            shards,
            make,
            dedup: true,
            oracle: OnceLock::new(),
        };
        let (mut reads, mut pairs, mut longer, mut triples) = (vec![], vec![], vec![], vec![]);
        for (sn, setup) in &setups {
            for (i, a) in mutators.iter().enumerate() {
                for (j, v) in views.iter().enumerate() {
                    reads.push(conc(format!("R02-read-{kind}-{sn}-{i}-{j}"), setup, vec![vec![*a], v.clone()]));
                }
                for (j, b) in mutators.iter().enumerate().skip(i) {
                    // writes of an account arrive in order, those of a slot at one commitment
                    if let (Op::Update(x, c), Op::Update(y, d)) = (a, b) {
                        if x.acct == y.acct || c != d {
                            continue;
                        }
                    }
                    pairs.push(conc(format!("R02-pair-{kind}-{sn}-{i}-{j}"), setup, vec![vec![*a], vec![*b]]));
                    // the update of an account, a notification and a reader
                    if !matches!((a, b), (Op::Update(..), Op::Notify { .. })) {
                        continue;
                    }
                    for (k, v) in views.iter().enumerate() {
                        if (i + 2 * j + 3 * k) % part == 0 {
                            longer.push(conc(format!("R02-long-{kind}-{sn}-{i}-{j}-{k}"), setup, vec![vec![*a, *b], v.clone()]));
                        }
                        if (i + 2 * j + 3 * k) % part == 3 {
                            triples.push(conc(format!("R02-triple-{kind}-{sn}-{i}-{j}-{k}"), setup, vec![vec![*a], vec![*b], v.clone()]));
                        }
                    }
                }
            }
        }
        let p = if thorough { 3 } else { 2 };
        let b = Bound { preemptions: p, faults: 0 };
        out.push((format!("reads, {kind} filters"), reads, b));
        out.push((format!("pairs, {kind} filters"), pairs, b));
        out.push((format!("longer, {kind} filters"), longer, Bound { preemptions: 2, faults: 0 }));
        out.push((format!("triples, {kind} filters"), triples, Bound { preemptions: p - 1, faults: 0 }));
    }
    out
}

pub fn run_router(report: &Report) {
    for shards in [32, 1] {
        for (group, programs, bound) in router_programs(report.thorough, shards) {
            let name = format!("{group}, {}", if shards == 1 { "all keys in one shard" } else { "keys in different shards" });
            sched::explore(&name, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
        }
    }
    report.assume("interleavings at the granularity of lock, atomic and condition variable operations of std and dashmap, sequentially consistent");
}

pub fn run(report: &Report) {
    for shards in [32, 1] {
        for (group, programs, bound) in programs(report.thorough, shards) {
            let name = format!("{group}, {}", if shards == 1 { "all keys in one shard" } else { "keys in different shards" });
            sched::explore(&name, &programs, bound, if report.thorough { 200_000 } else { 20_000 }, report);
        }
    }
    report.assume("interleavings at the granularity of lock, atomic and condition variable operations of std and dashmap, sequentially consistent");
}

pub fn replay(name: &str, prefix: &str) -> Option<Vec<String>> {
    for shards in [32, 1] {
        for (_, programs, _) in programs(true, shards) {
            if let Some(p) = programs.iter().find(|p| p.name() == name) {
                return Some(sched::replay(p, prefix));
            }
        }
        for (_, programs, _) in router_programs(true, shards) {
            if let Some(p) = programs.iter().find(|p| p.name() == name) {
                return Some(sched::replay(p, prefix));
            }
        }
    }
    None
}
