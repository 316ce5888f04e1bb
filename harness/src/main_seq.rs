//! Sequential explorations of the account store: C01 - C06, C08.
use crate::main_model::*;
use crate::report::Report;
use crate::seq::{self, Scenario};
use crate::util::*;
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::{
    AccountLoadingError, AccountStorageInterface,
};
use lite_account_manager_common::except_filter_store::ExceptFilterStore;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_account_storage::storage_by_program_id::StorageByProgramId;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Answer {
    None,
    Recorded(bool),
    List(Vec<Seen>),
    One(Option<Seen>),
}

pub fn filter_store(f: &Filters) -> Arc<dyn AccountFiltersStoreInterface> {
    let entries: Vec<_> = f.entries.iter().map(entry_real).collect();
    if f.inverted {
        let mut s = ExceptFilterStore::default();
        s.add_account_filters(&entries);
        Arc::new(s)
    } else if f.entries.len() % 2 == 0 {
        let s = MutableFilterStore::default();
        s.add_account_filters(&entries);
        Arc::new(s)
    } else {
        let mut s = SimpleFilterStore::default();
        s.add_account_filters(&entries);
        Arc::new(s)
    }
}

pub fn new_store(f: &Filters) -> InmemoryAccountStore {
    InmemoryAccountStore::new(filter_store(f))
}

pub fn slot_info(slot: u64, parent: u64) -> SlotInfo {
    SlotInfo { slot, parent, root: 0 }
}

pub fn list(v: &[lite_account_manager_common::account_data::AccountData]) -> Vec<Seen> {
    let mut v: Vec<Seen> = v.iter().map(seen).collect();
    v.sort();
    v
}

pub fn real_query(
    s: &dyn AccountStorageInterface,
    program: u8,
    filters: &[F],
    c: u8,
) -> Result<Vec<Seen>, AccountLoadingError> {
    let f = if filters.is_empty() {
        None
    } else {
        Some(filters.iter().map(f_real).collect())
    };
    let r = s
        .get_program_accounts(program_key(program), f, COMMITMENTS[c as usize])
        .map(|v| list(&v));
    if filters.is_empty() && mcstd::mc::thread_index().is_none() {
        // an empty list of filters is no filter
        let same = s
            .get_program_accounts(program_key(program), Some(vec![]), COMMITMENTS[c as usize])
            .map(|v| list(&v));
        assert!(
            same == r,
            "query of program {program} at {} with an empty list of filters: {same:?} instead of {r:?}",
            cname(c)
        );
    }
    r
}

pub fn real_read(s: &dyn AccountStorageInterface, a: u8, c: u8) -> Result<Option<Seen>, AccountLoadingError> {
    s.get_account(account_key(a), COMMITMENTS[c as usize])
        .map(|x| x.map(|x| seen(&x)))
}

pub fn real_apply(s: &dyn AccountStorageInterface, op: &Op) -> Answer {
    match op {
        Op::Update(w, c) => Answer::Recorded(s.update_account(
            account_data(&seen_of(w), compression(w.acct)),
            COMMITMENTS[*c as usize],
        )),
        Op::Init(w) => {
            s.initilize_or_update_account(account_data(&seen_of(w), compression(w.acct)));
            Answer::None
        }
        Op::Notify { slot, parent, c } => Answer::List(list(
            &s.process_slot_data(slot_info(*slot, *parent), COMMITMENTS[*c as usize]),
        )),
        Op::Read(a, c) => Answer::One(real_read(s, *a, *c).unwrap_or(None)),
        Op::Query(p, c) => Answer::List(real_query(s, *p, &[], *c).unwrap_or_default()),
        Op::QueryF(p, c, k) => {
            Answer::List(real_query(s, *p, QUERY_FILTERS[*k as usize], *c).unwrap_or_default())
        }
    }
}

/// observes the whole store and compares it with the model
pub fn compare(
    s: &dyn AccountStorageInterface,
    m: &Model,
    queries: &[(u8, Vec<F>)],
    refused: &[(u8, Vec<F>)],
) -> Result<(), String> {
    for a in 0..m.accounts() {
        for c in 0..3 {
            let got = real_read(s, a, c).map_err(|e| format!("read of account {a} fails: {e:?}"))?;
            let want = m.read(a, c);
            if got != want {
                return Err(format!(
                    "read of account {a} at {}: {} instead of {}",
                    cname(c),
                    show_opt(&got),
                    show_opt(&want)
                ));
            }
        }
    }
    for (p, f) in queries {
        for c in 0..3 {
            let got = real_query(s, *p, f, c)
                .map_err(|e| format!("query of program {p} {f:?} fails: {e:?}"))?;
            let want = m.query(*p, f, c);
            if got != want {
                return Err(format!(
                    "query of program {p} {f:?} at {}: {} instead of {}",
                    cname(c),
                    show_list(&got),
                    show_list(&want)
                ));
            }
        }
    }
    for (p, f) in refused {
        for c in 0..3 {
            let got = real_query(s, *p, f, c);
            if got != Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters) {
                return Err(format!("query of program {p} {f:?} is not refused: {got:?}"));
            }
        }
    }
    Ok(())
}

pub struct MainScenario {
    pub name: String,
    pub ops: Vec<Op>,
    pub filters: Filters,
    pub accounts: usize,
    pub queries: Vec<(u8, Vec<F>)>,
    pub refused: Vec<(u8, Vec<F>)>,
    /// check that reads never go backwards, without the model (C02)
    pub monotonic: bool,
    /// deliver every notification a second time: nothing may be reported or changed (C05)
    pub redeliver: bool,
    /// operations which are applied first
    pub prefix: Vec<Op>,
    pub make: fn(&Filters) -> Arc<dyn AccountStorageInterface>,
    /// several stores may report the same account
    pub dedup: bool,
    /// writes of an account are delivered in order
    pub in_order: bool,
    /// answers of updates and notifications are not compared
    pub reads_only: bool,
}

impl Default for MainScenario {
    fn default() -> Self {
        MainScenario {
            name: String::new(),
            ops: vec![],
            filters: Filters::programs(&[0]),
            accounts: 1,
            queries: vec![],
            refused: vec![],
            monotonic: false,
            redeliver: false,
            prefix: vec![],
            make: |f| Arc::new(new_store(f)),
            dedup: false,
            in_order: false,
            reads_only: false,
        }
    }
}

pub struct MainSys {
    pub real: Arc<dyn AccountStorageInterface>,
    pub model: Model,
    last: Vec<[Option<(u64, u64)>; 3]>,
    floor: Vec<(u64, u64)>,
}

pub fn model_apply(m: &mut Model, op: &Op) -> (Answer, bool) {
    match op {
        Op::Update(w, c) => {
            let (r, specified) = m.update(*w, *c);
            (Answer::Recorded(r), specified)
        }
        Op::Init(w) => {
            m.update(*w, 2);
            (Answer::None, true)
        }
        Op::Notify { slot, parent, c } => (Answer::List(m.notify(*slot, *parent, *c)), true),
        Op::Read(a, c) => (Answer::One(m.read(*a, *c)), true),
        Op::Query(p, c) => (Answer::List(m.query(*p, &[], *c)), true),
        Op::QueryF(p, c, k) => (Answer::List(m.query(*p, QUERY_FILTERS[*k as usize], *c)), true),
    }
}

impl MainScenario {
    fn apply_checked(&self, sys: &mut MainSys, op: &Op, check: bool) -> Result<(), String> {
        let mut got = real_apply(&*sys.real, op);
        if let (true, Answer::List(l)) = (self.dedup, &mut got) {
            l.dedup();
        }
        let (want, specified) = model_apply(&mut sys.model, op);
        if self.in_order {
            self.raise_floor(sys, op);
        }
        if !check {
            if self.monotonic {
                self.check_monotonic(sys)?;
            }
            return Ok(());
        }
        if specified && !self.reads_only && got != want {
            return Err(match (&got, &want) {
                (Answer::List(g), Answer::List(w)) => format!(
                    "{:?} reports {} instead of {}",
                    op,
                    show_list(g),
                    show_list(w)
                ),
                _ => format!("{:?} answers {:?} instead of {:?}", op, got, want),
            });
        }
        compare(&*sys.real, &sys.model, &self.queries, &self.refused)?;
        if self.monotonic {
            self.check_monotonic(sys)?;
        }
        if self.redeliver {
            if let Op::Notify { slot, parent, c } = op {
                for c2 in 0..=*c {
                    let again = Op::Notify { slot: *slot, parent: *parent, c: c2 };
                    if let Answer::List(l) = real_apply(&*sys.real, &again) {
                        if !l.is_empty() {
                            return Err(format!("{:?} delivered again reports {}", again, show_list(&l)));
                        }
                    }
                }
                compare(&*sys.real, &sys.model, &self.queries, &self.refused)
                    .map_err(|e| format!("after {:?} was delivered again: {e}", op))?;
            }
        }
        Ok(())
    }

    fn raise_floor(&self, sys: &mut MainSys, op: &Op) {
        if let Op::Update(w, _) | Op::Init(w) = op {
            let f = &mut sys.floor[w.acct as usize];
            *f = (*f).max((w.slot, w.wv));
        }
    }

    fn check_monotonic(&self, sys: &mut MainSys) -> Result<(), String> {
        for a in 0..self.accounts {
            let mut v = [None; 3];
            for c in 0..3u8 {
                let r = real_read(&*sys.real, a as u8, c).map_err(|e| format!("{e:?}"))?;
                v[c as usize] = r.map(|x| (x.slot, x.wv));
            }
            if !(v[2] <= v[1] && v[1] <= v[0]) {
                return Err(format!("account {a}: processed {:?} confirmed {:?} finalized {:?} (slot, write version)", v[0], v[1], v[2]));
            }
            for c in 0..3 {
                if v[c] < sys.last[a][c] {
                    return Err(format!(
                        "account {a} at {} goes back from {:?} to {:?} (slot, write version)",
                        cname(c as u8),
                        sys.last[a][c],
                        v[c]
                    ));
                }
            }
            sys.last[a] = v;
        }
        Ok(())
    }
}

impl Scenario for MainScenario {
    type Op = Op;
    type Sys = MainSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[Op] {
        &self.ops
    }
    fn init(&self) -> MainSys {
        let mut sys = MainSys {
            real: (self.make)(&self.filters),
            model: Model::new(self.filters.clone(), self.accounts),
            last: vec![[None; 3]; self.accounts],
            floor: vec![(0, 0); self.accounts],
        };
        for op in &self.prefix {
            mcstd::mc::solo(|| real_apply(&*sys.real, op));
            model_apply(&mut sys.model, op);
        }
        sys
    }
    fn enabled(&self, sys: &MainSys, op: &Op) -> bool {
        match op {
            Op::Update(w, _) | Op::Init(w) => {
                !sys.model.conflicts(w)
                    && (!self.in_order || (w.slot, w.wv) >= sys.floor[w.acct as usize])
            }
            _ => true,
        }
    }
    fn apply(&self, sys: &mut MainSys, op: &Op, check: bool) -> Result<(), String> {
        self.apply_checked(sys, op, check)
    }
    fn fingerprint(&self, sys: &MainSys) -> u64 {
        hash64(&sys.model)
    }
}

pub fn w(acct: u8, slot: u64, wv: u64, owner: u8) -> Write {
    Write { acct, slot, wv, owner, alive: true, data: 0 }
}
pub fn dead(acct: u8, slot: u64, wv: u64, owner: u8) -> Write {
    Write { acct, slot, wv, owner, alive: false, data: 0 }
}
pub fn up(w: Write, c: u8) -> Op {
    Op::Update(w, c)
}
pub fn note(slot: u64, parent: u64, c: u8) -> Op {
    Op::Notify { slot, parent, c }
}
fn gp(p: u8) -> (u8, Vec<F>) {
    (p, vec![])
}

/// the scenarios of a property with the depth for the quick and the thorough tier
pub fn scenarios(property: &str) -> Vec<(MainScenario, usize, usize)> {
    let mut out = vec![];
    let mut add = |s: MainScenario, quick: usize, thorough: usize| out.push((s, quick, thorough));
    match property {
        "C01" => {
            // every write and notification over 3 slots with a fork
            let mut ops = vec![];
            for slot in 1..=3 {
                for wv in 0..2 {
                    for c in 0..3 {
                        ops.push(up(w(0, slot, wv, 0), c));
                    }
                }
            }
            for slot in 1..=3 {
                for c in 0..3 {
                    ops.push(note(slot, slot - 1, c));
                }
            }
            for c in 0..3 {
                ops.push(note(3, 1, c));
            }
            add(MainScenario { name: "C01-all".into(), ops, ..Default::default() }, 4, 5);
            // deeper: processed writes only, promoted by notifications along chains and forks
            let mut ops = vec![];
            for slot in 1..=4 {
                ops.push(up(w(0, slot, 0, 0), 0));
            }
            ops.push(up(w(0, 2, 1, 0), 0));
            for c in 1..3 {
                ops.push(note(2, 1, c));
                ops.push(note(3, 2, c));
                ops.push(note(4, 2, c));
            }
            ops.push(note(3, 2, 0));
            ops.push(note(4, 3, 0));
            add(MainScenario { name: "C01-chain".into(), ops, ..Default::default() }, 5, 6);
            // two accounts in the same slots
            let mut ops = vec![];
            for a in 0..2 {
                ops.push(up(w(a, 1, 0, 0), 0));
                ops.push(up(w(a, 2, 0, 0), 0));
                ops.push(up(w(a, 2, 1, 0), 1));
                ops.push(up(w(a, 3, 0, 0), 2));
            }
            for c in 1..3 {
                for s in 1..=3 {
                    ops.push(note(s, s - 1, c));
                }
            }
            add(MainScenario { name: "C01-two".into(), ops, accounts: 2, ..Default::default() }, 5, 6);
        }
        "C02" => {
            let mut ops = vec![];
            for slot in 1..=3 {
                for (wv, c) in [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2)] {
                    ops.push(up(w(0, slot, wv, 0), c));
                }
            }
            for c in 0..3 {
                for (s, p) in [(1, 0), (2, 1), (3, 2), (3, 1), (2, 3)] {
                    ops.push(note(s, p, c));
                }
            }
            add(MainScenario { name: "C02-all".into(), ops, monotonic: true, ..Default::default() }, 4, 5);
            let mut ops = vec![];
            for slot in 1..=4 {
                ops.push(up(w(0, slot, 1, 0), 0));
            }
            ops.push(up(w(0, 2, 0, 0), 0));
            ops.push(up(w(0, 2, 2, 0), 1));
            ops.push(up(w(0, 3, 0, 0), 2));
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                ops.push(note(s, p, 1));
                ops.push(note(s, p, 2));
            }
            add(MainScenario { name: "C02-late".into(), ops, monotonic: true, ..Default::default() }, 5, 6);
        }
        "C03" => {
            let queries = vec![
                gp(0),
                gp(1),
                (0, vec![F::Size(4)]),
                (0, vec![F::Byte(0, 1)]),
                (0, vec![F::Size(4), F::Byte(0, 1)]),
                (0, vec![F::Byte(3, 6), F::Size(4)]),
                (1, vec![F::Byte(1, 2)]),
                (1, vec![F::Size(3), F::Byte(7, 0)]),
            ];
            let filters = Filters::programs(&[0, 1]);
            // owner changes forth and back
            let mut ops = vec![];
            for slot in 1..=3 {
                for owner in 0..3 {
                    for c in 0..3 {
                        if slot == 2 || c != 1 {
                            ops.push(up(w(0, slot, 0, owner), c));
                        }
                    }
                }
            }
            for c in 1..3 {
                for s in 1..=3 {
                    ops.push(note(s, s - 1, c));
                }
            }
            add(MainScenario { name: "C03-owners".into(), ops, filters: filters.clone(), queries: queries.clone(), ..Default::default() }, 4, 5);
            // data variants, two accounts, one is compressed
            let mut ops = vec![];
            for a in 0..2 {
                for data in 0..3 {
                    ops.push(up(Write { data, ..w(a, 1 + data as u64 % 2, data as u64, 0) }, 0));
                    ops.push(up(Write { data, ..w(a, 2, 3 + data as u64, data % 2) }, 1));
                }
                ops.push(up(Write { data: 1, ..w(a, 3, 0, 0) }, 2));
                ops.push(up(dead(a, 3, 1, 3), 0));
            }
            for c in 1..3 {
                for s in 1..=3 {
                    ops.push(note(s, s - 1, c));
                }
            }
            add(MainScenario { name: "C03-data".into(), ops, filters: filters.clone(), accounts: 2, queries: queries.clone(), ..Default::default() }, 3, 4);
            // deeper: one account wandering between the programs, with finalizations in between
            let mut ops = vec![];
            for slot in 1..=4 {
                for owner in 0..2 {
                    ops.push(up(w(0, slot, 0, owner), 0));
                }
            }
            ops.push(up(w(0, 3, 1, 2), 0));
            for s in 1..=4 {
                ops.push(note(s, s - 1, 2));
            }
            ops.push(note(3, 2, 1));
            add(MainScenario { name: "C03-wander".into(), ops, filters, queries: vec![gp(0), gp(1)], ..Default::default() }, 5, 6);
        }
        "C04" => {
            let queries = vec![gp(0), gp(1), (0, vec![F::Size(0)]), (0, vec![F::Size(3)])];
            let filters = Filters::programs(&[0, 1]);
            let mut ops = vec![];
            for slot in 1..=3 {
                for c in 0..3 {
                    if c == 1 && slot != 2 {
                        continue;
                    }
                    ops.push(up(w(0, slot, 0, 0), c));
                    // deletion keeps the owner or gives the account to the system
                    ops.push(up(dead(0, slot, 1, 3), c));
                    ops.push(up(dead(0, slot, 1, 0), c));
                }
                ops.push(up(w(0, slot, 2, 1), 0));
                ops.push(up(w(0, slot, 2, 2), 0));
            }
            for c in 1..3 {
                for s in 1..=3 {
                    ops.push(note(s, s - 1, c));
                }
            }
            add(MainScenario { name: "C04-delete".into(), ops, filters: filters.clone(), queries: queries.clone(), redeliver: false, ..Default::default() }, 4, 5);
            let mut ops = vec![
                up(w(0, 1, 0, 0), 0),
                up(w(0, 1, 0, 0), 2),
                up(dead(0, 2, 0, 3), 0),
                up(dead(0, 2, 0, 3), 2),
                up(w(0, 3, 0, 0), 0),
                up(w(0, 3, 0, 1), 2),
                up(dead(0, 4, 0, 3), 0),
                up(w(0, 5, 0, 0), 0),
            ];
            for s in 1..=5 {
                if s > 1 {
                    ops.push(note(s, s - 1, 1));
                }
                ops.push(note(s, s - 1, 2));
            }
            add(MainScenario { name: "C04-recreate".into(), ops, filters: filters.clone(), queries, ..Default::default() }, 5, 6);
            // same with two accounts, finalized at once
            let mut ops = vec![];
            for a in 0..2 {
                ops.push(up(w(a, 1, 0, 0), 0));
                ops.push(up(dead(a, 2, 0, 3), 0));
                ops.push(up(w(a, 2, 1, 2), 0));
                ops.push(up(w(a, 3, 0, 0), 0));
            }
            for s in 1..=3 {
                ops.push(note(s, s - 1, 1));
                ops.push(note(s, s - 1, 2));
            }
            add(MainScenario { name: "C04-two".into(), ops, filters, accounts: 2, queries: vec![gp(0)], ..Default::default() }, 5, 6);
        }
        "C05" => {
            let mut ops = vec![];
            for a in 0..2 {
                for slot in 1..=3 {
                    ops.push(up(w(a, slot, 0, 0), 0));
                }
                ops.push(up(w(a, 2, 1, 0), 1));
                ops.push(up(w(a, 2, 1, 0), 2));
                ops.push(up(dead(a, 3, 1, 3), 0));
            }
            for c in 0..3 {
                for (s, p) in [(1, 0), (2, 1), (3, 2), (3, 1)] {
                    if c > 0 || p + 1 == s {
                        ops.push(note(s, p, c));
                    }
                }
            }
            add(MainScenario { name: "C05-notify".into(), ops, accounts: 2, redeliver: true, queries: vec![gp(0)], ..Default::default() }, 4, 5);
            // parents: unknown, forks, later, itself
            let mut ops = vec![];
            for slot in 1..=4 {
                ops.push(up(w((slot % 2) as u8, slot, 0, 0), 0));
            }
            ops.push(up(w(0, 3, 0, 0), 0));
            for c in 0..3 {
                for (s, p) in [(2, 1), (3, 2), (4, 3), (4, 2), (4, 4), (3, 4), (3, 1)] {
                    if c > 0 || s + p < 8 {
                        ops.push(note(s, p, c));
                    }
                }
            }
            add(MainScenario { name: "C05-parents".into(), ops, accounts: 2, redeliver: true, ..Default::default() }, 4, 5);
            let mut ops = vec![];
            for slot in 1..=5 {
                ops.push(up(w(0, slot, 0, 0), 0));
                if slot > 1 {
                    ops.push(note(slot, slot - 1, 0));
                }
            }
            for s in [3, 4, 5] {
                ops.push(note(s, s - 1, 1));
                ops.push(note(s, s - 1, 2));
            }
            add(MainScenario { name: "C05-gaps".into(), ops, redeliver: true, ..Default::default() }, 5, 6);
        }
        "C08" => {
            let e = |accounts: Vec<u8>, program: Option<u8>, filters: Vec<F>| FilterEntry { accounts, program, filters };
            let configs: Vec<(&str, Filters, Vec<(u8, Vec<F>)>, Vec<(u8, Vec<F>)>)> = vec![
                (
                    "address",
                    Filters { entries: vec![e(vec![0], None, vec![])], inverted: false },
                    vec![],
                    vec![gp(0), gp(1), (0, vec![F::Size(3)])],
                ),
                (
                    "size",
                    Filters { entries: vec![e(vec![], Some(0), vec![F::Size(3)])], inverted: false },
                    vec![(0, vec![F::Size(3)]), (0, vec![F::Size(3), F::Byte(0, 1)]), (0, vec![F::Byte(1, 1), F::Size(3)])],
                    vec![gp(0), gp(1), gp(2), (0, vec![F::Size(4)]), (0, vec![F::Byte(0, 1)]), (1, vec![F::Size(3)])],
                ),
                (
                    "bytes-and-address",
                    Filters {
                        entries: vec![
                            e(vec![], Some(0), vec![F::Byte(0, 9), F::Size(4)]),
                            e(vec![1], Some(1), vec![F::Byte(0, 1)]),
                        ],
                        inverted: false,
                    },
                    vec![(0, vec![F::Size(4), F::Byte(0, 9)]), (1, vec![F::Byte(0, 1)]), (1, vec![F::Byte(0, 1), F::Size(4)])],
                    vec![gp(0), gp(1), gp(2), (0, vec![F::Byte(0, 9)]), (0, vec![F::Size(4)]), (1, vec![F::Byte(0, 9)])],
                ),
                (
                    "inverted",
                    Filters { entries: vec![e(vec![], Some(0), vec![]), e(vec![1], None, vec![])], inverted: true },
                    vec![],
                    vec![gp(0), (0, vec![F::Size(3)])],
                ),
                (
                    "inverted-size",
                    Filters { entries: vec![e(vec![], Some(0), vec![F::Size(3)])], inverted: true },
                    vec![gp(1), (0, vec![F::Size(4)])],
                    vec![gp(0), (0, vec![F::Size(3)])],
                ),
            ];
            for (name, filters, queries, refused) in configs {
                let mut ops = vec![];
                for a in 0..2 {
                    for (slot, owner, data) in [(1, 0, 0), (2, 0, 1), (2, 1, 2), (3, 2, 0), (3, 0, 2)] {
                        let x = Write { data, ..w(a, slot, owner as u64 + data as u64, owner) };
                        ops.push(up(x, 0));
                        if slot != 3 || owner == 2 {
                            ops.push(up(x, 2));
                        }
                    }
                    ops.push(up(dead(a, 2, 9, 3), 0));
                    ops.push(up(dead(a, 3, 9, 3), 1));
                    ops.push(up(dead(a, 4, 0, 0), 2));
                }
                ops.push(Op::Init(w(0, 1, 0, 0)));
                ops.push(Op::Init(w(1, 3, 2, 2)));
                for s in 2..=3 {
                    ops.push(note(s, s - 1, 1));
                    ops.push(note(s, s - 1, 2));
                }
                add(
                    MainScenario { name: format!("C08-{name}"), ops, filters, accounts: 2, queries, refused, ..Default::default() },
                    3,
                    4,
                );
            }
        }
        "R01" => {
            let queries = vec![gp(0), gp(1), gp(2), (0, vec![F::Size(3)]), (2, vec![F::Size(4)])];
            let filters = Filters::programs(&[0, 1, 2]);
            for (name, make) in [("own", router as fn(&Filters) -> Arc<dyn AccountStorageInterface>), ("shared", router_shared)] {
                // one account moving between dispatched, default and untracked programs
                let mut ops = vec![];
                // (all writes of a slot are delivered at the same commitment)
                let level = [0, 0, 1, 2, 0];
                for owner in 0..4 {
                    for slot in 1..=4 {
                        ops.push(up(w(0, slot, owner as u64, owner), level[slot as usize]));
                    }
                }
                for slot in 1..=4 {
                    ops.push(up(dead(0, slot, 4, 3), level[slot as usize]));
                }
                ops.push(Op::Init(w(0, 3, 1, 1)));
                ops.push(Op::Init(w(0, 3, 2, 2)));
                for s in [1, 2, 4] {
                    ops.push(note(s, s - 1, 1));
                    ops.push(note(s, s - 1, 2));
                }
                ops.push(note(4, 2, 2));
                add(
                    MainScenario { name: format!("R01-moves-{name}"), ops: ops.clone(), filters: filters.clone(), queries: queries.clone(), dedup: true, in_order: true, make, ..Default::default() },
                    3,
                    5,
                );
                // reads also while writes of a live and tracked account arrive late
                let mut ops = ops;
                ops.retain(|op| !matches!(op, Op::Update(w, _) if w.owner == 3));
                add(
                    MainScenario { name: format!("R01-stale-{name}"), ops, filters: filters.clone(), reads_only: true, dedup: true, make, ..Default::default() },
                    3,
                    4,
                );
                // two accounts, deeper
                let mut ops = vec![];
                for a in 0..2 {
                    for owner in 0..3 {
                        ops.push(up(Write { data: owner, ..w(a, 1 + owner as u64, 0, owner) }, 0));
                    }
                    ops.push(up(w(a, 2, 1, 0), 0));
                    ops.push(up(dead(a, 3, 1, 3), 0));
                }
                for s in 1..=3 {
                    ops.push(note(s, s - 1, 2));
                }
                ops.push(note(3, 2, 1));
                add(
                    MainScenario { name: format!("R01-two-{name}"), ops, filters: filters.clone(), accounts: 2, queries: queries.clone(), dedup: true, in_order: true, make, ..Default::default() },
                    4,
                    5,
                );
            }
        }
        _ => {}
    }
    if matches!(property, "C01" | "C02" | "C03" | "C04" | "C05") {
        out.extend(stretched(property));
        out.extend(large(property));
        out.extend(pending(property));
    }
    if matches!(property, "C01" | "C02" | "C03" | "C04" | "C05" | "C08" | "R01") {
        out.extend(same_content(property));
    }
    out
}

/// a deleted account is not there any more, C02 does not look at deletions
fn forgive(property: &str, ops: &mut Vec<Op>) {
    if property == "C02" {
        ops.retain(|op| !matches!(op, Op::Update(w, _) if !w.alive));
    }
}

/// the same histories with other slots and write versions
fn stretched(property: &str) -> Vec<(MainScenario, usize, usize)> {
    let maps: [(&str, fn(u64) -> u64, fn(u64) -> u64); 3] = [
        ("zero", |s| s.max(1) - 1, |v| v),
        ("end", |s| u64::MAX - 6 + s, |v| u64::MAX - 9 + v),
        ("gaps", |s| s * (1 << 33) + 7, |v| v << 33),
    ];
    let mut out = vec![];
    for (name, slot, wv) in maps {
        let mut ops = vec![];
        let (alive, gone) = (
            |a: u8, s: u64, v: u64, o: u8, c: u8| up(w(a, slot(s), wv(v), o), c),
            |a: u8, s: u64, v: u64, c: u8| up(dead(a, slot(s), wv(v), 3), c),
        );
        for s in 1..=3 {
            ops.push(alive(0, s, 0, 0, 0));
        }
        ops.push(alive(0, 2, 1, 0, 0));
        ops.push(alive(0, 2, 1, 0, 1));
        ops.push(alive(0, 2, 1, 0, 2));
        ops.push(alive(0, 3, 1, 1, 0));
        ops.push(alive(0, 1, 1, 0, 2));
        ops.push(gone(0, 3, 2, 0));
        ops.push(gone(0, 2, 2, 2));
        for s in 2..=3 {
            for c in 1..3 {
                ops.push(note(slot(s), slot(s - 1), c));
            }
        }
        ops.push(note(slot(1), slot(0), 2));
        ops.push(note(slot(3), slot(2), 0));
        forgive(property, &mut ops);
        out.push((
            MainScenario {
                name: format!("{property}-{name}"),
                ops,
                filters: Filters::programs(&[0, 1]),
                queries: vec![gp(0), gp(1)],
                monotonic: property == "C02",
                redeliver: property == "C05",
                ..Default::default()
            },
            4,
            5,
        ));
    }
    out
}

/// writes which do not change the content of the account, or only one field of it
fn same_content(property: &str) -> Vec<(MainScenario, usize, usize)> {
    let v = |a: u8, slot: u64, wv: u64, data: u8| up(Write { data, ..w(a, slot, wv, 0) }, 0);
    let mut ops = vec![
        v(0, 2, 0, 3),
        v(0, 2, 1, 3),
        v(0, 3, 0, 3),
        v(0, 3, 1, 4),
        v(0, 3, 2, 3),
        v(0, 4, 0, 5),
        v(0, 4, 1, 6),
        v(0, 4, 2, 3),
        v(1, 2, 0, 3),
        v(1, 3, 0, 7),
        v(1, 3, 1, 3),
        v(1, 4, 0, 8),
        v(1, 4, 1, 9),
        up(Write { data: 3, ..w(1, 3, 2, 1) }, 0),
        up(dead(0, 3, 3, 3), 0),
        up(Write { data: 3, ..w(0, 4, 3, 0) }, 2),
    ];
    for c in 1..3 {
        for s in 2..=4 {
            ops.push(note(s, s - 1, c));
        }
    }
    forgive(property, &mut ops);
    if property == "R01" {
        // all writes of a slot are delivered at the same commitment
        ops.retain(|op| !matches!(op, Op::Update(_, 2)));
    }
    let name = format!("{property}-same");
    let make = |name: String| MainScenario {
        name,
        ops: ops.clone(),
        accounts: 2,
        filters: Filters::programs(&[0, 1]),
        queries: vec![gp(0), gp(1), (0, vec![F::Byte(2, 7)])],
        monotonic: property == "C02",
        redeliver: property == "C05",
        ..Default::default()
    };
    if property == "R01" {
        return vec![
            (MainScenario { dedup: true, in_order: true, make: router, ..make(format!("{name}-own")) }, 4, 5),
            (MainScenario { dedup: true, in_order: true, make: router_shared, ..make(format!("{name}-shared")) }, 4, 5),
        ];
    }
    vec![(make(name), 4, 5)]
}

/// every order of notifications when several slots have writes which wait for them
fn pending(property: &str) -> Vec<(MainScenario, usize, usize)> {
    let mut prefix = vec![];
    for s in 2..=6 {
        prefix.push(up(w(0, s, 0, (s % 2) as u8), 0));
    }
    prefix.push(up(w(1, 2, 0, 0), 0));
    prefix.push(up(dead(1, 4, 0, 3), 0));
    prefix.push(up(w(1, 6, 0, 1), 0));
    let mut ops = vec![];
    for c in 1..3 {
        for s in 2..=6 {
            ops.push(note(s, s - 1, c));
        }
        ops.push(note(6, 3, c));
    }
    ops.push(note(5, 4, 0));
    ops.push(up(w(0, 3, 1, 0), 0));
    ops.push(up(w(0, 5, 1, 0), 1));
    ops.push(up(dead(0, 4, 1, 3), 2));
    forgive(property, &mut ops);
    forgive(property, &mut prefix);
    let s = MainScenario {
        name: format!("{property}-pending"),
        ops,
        prefix,
        accounts: 2,
        filters: Filters::programs(&[0, 1]),
        queries: vec![gp(0), gp(1)],
        monotonic: property == "C02",
        redeliver: property == "C05",
        ..Default::default()
    };
    vec![(s, 5, 6)]
}

/// histories after a long chain of slots, and with many accounts
fn large(property: &str) -> Vec<(MainScenario, usize, usize)> {
    const N: u64 = 600;
    let mut prefix = vec![];
    for s in 1..=N {
        prefix.push(up(w(0, s, 1, (s % 2) as u8), 0));
        prefix.push(note(s, s - 1, 0));
        if s == 1 {
            prefix.push(up(w(1, s, 0, 0), 0));
        }
        if s == N / 2 {
            prefix.push(up(w(2, s, 0, 0), 0));
            prefix.push(up(dead(1, s, 0, 3), 0));
        }
    }
    let mut ops = vec![];
    for c in 1..3 {
        for s in [1, 40, N / 2, N - 1, N] {
            ops.push(note(s, s - 1, c));
        }
        ops.push(note(N + 1, N, c));
        ops.push(note(N + 2, N / 2 + 1, c));
    }
    ops.push(up(w(0, 2, 2, 0), 0));
    ops.push(up(w(1, N - 10, 2, 1), 0));
    ops.push(up(w(2, N + 1, 0, 0), 0));
    ops.push(up(dead(0, N + 1, 0, 3), 2));
    forgive(property, &mut ops);
    forgive(property, &mut prefix);
    let chain = MainScenario {
        name: format!("{property}-chain-of-{N}"),
        ops,
        prefix,
        accounts: 3,
        filters: Filters::programs(&[0, 1]),
        queries: vec![gp(0), gp(1)],
        monotonic: property == "C02",
        redeliver: property == "C05",
        ..Default::default()
    };
    // 250 accounts: most are written in slots 1 and 2, each fifth is deleted or changes its owner in slot 3
    let mut prefix = vec![];
    for a in 0..250u8 {
        prefix.push(up(Write { data: a % 3, ..w(a, 1 + (a % 2) as u64, a as u64, 0) }, if a % 7 == 0 { 2 } else { 0 }));
        match a % 5 {
            0 => prefix.push(up(dead(a, 3, 0, 3), 0)),
            1 => prefix.push(up(Write { data: a % 3, ..w(a, 3, 0, 1) }, 0)),
            _ => {}
        }
    }
    let mut ops = vec![];
    for s in 1..=4 {
        for c in 1..3 {
            ops.push(note(s, s - 1, c));
        }
    }
    ops.push(note(3, 1, 2));
    ops.push(up(w(4, 4, 0, 0), 1));
    ops.push(up(dead(249, 4, 0, 3), 2));
    ops.push(up(w(0, 4, 1, 1), 0));
    forgive(property, &mut ops);
    forgive(property, &mut prefix);
    let crowd = MainScenario {
        name: format!("{property}-crowd"),
        ops,
        prefix,
        accounts: 250,
        filters: Filters::programs(&[0, 1]),
        queries: vec![gp(0), gp(1), (0, vec![F::Size(4)]), (1, vec![F::Byte(0, 1)])],
        monotonic: property == "C02",
        redeliver: property == "C05",
        ..Default::default()
    };
    vec![(chain, 2, 3), (crowd, 3, 4)]
}

/// programs 0 and 1 have stores of their own, with their own filters
pub fn router(f: &Filters) -> Arc<dyn AccountStorageInterface> {
    let part = |keep: &dyn Fn(Option<u8>) -> bool| {
        let entries = f.entries.iter().filter(|e| keep(e.program)).cloned().collect();
        Arc::new(new_store(&Filters { entries, inverted: f.inverted })) as Arc<dyn AccountStorageInterface>
    };
    let mut map = std::collections::HashMap::new();
    for p in 0..2u8 {
        map.insert(program_key(p), part(&|x| x == Some(p)));
    }
    let default = part(&|x| x != Some(0) && x != Some(1));
    Arc::new(StorageByProgramId::new(map, default))
}

/// all the stores have the same filters
pub fn router_shared(f: &Filters) -> Arc<dyn AccountStorageInterface> {
    let store = || Arc::new(new_store(f)) as Arc<dyn AccountStorageInterface>;
    let map = (0..2u8).map(|p| (program_key(p), store())).collect();
    Arc::new(StorageByProgramId::new(map, store()))
}

pub fn run(property: &str, report: &Report) {
    for (s, quick, thorough) in scenarios(property) {
        let depth = if report.thorough { thorough } else { quick };
        seq::explore(&s, depth, report);
    }
    if property == "C06" || property == "R01" {
        for s in transfer_scenarios() {
            if !s.0.name.starts_with(property) {
                continue;
            }
            let depth = if report.thorough { s.2 } else { s.1 };
            seq::explore(&s.0, depth, report);
        }
    }
    report.assume("the store is driven through AccountStorageInterface by one thread; every lock which is taken twice by the same thread is detected");
    report.assume("content of an account is a function of its slot and write version (a validator never sends two contents with the same write version)");
}

// ------------------------------------------------------------------------------------- snapshots

/// operation on one of two stores, or the transfer of a snapshot from the first to the second
#[derive(Clone, Copy, Debug)]
pub enum SnapOp {
    First(Op),
    Second(Op),
    Transfer(u8),
}
pub struct SnapScenario {
    pub name: String,
    pub make: fn(&Filters) -> Arc<dyn AccountStorageInterface>,
    pub ops: Vec<SnapOp>,
    pub filters: Filters,
    pub accounts: usize,
    pub queries: Vec<(u8, Vec<F>)>,
}
pub struct SnapSys {
    real: [Arc<dyn AccountStorageInterface>; 2],
    model: [Model; 2],
}

fn load_model(from: &Model, to: &mut Model, program: u8) {
    for a in 0..from.accounts() {
        if let Some(x) = from.view(a, 2) {
            if x.alive && x.owner == program {
                to.update(x, 2);
            }
        }
    }
}

impl SnapScenario {
    fn compare(&self, sys: &SnapSys) -> Result<(), String> {
        for i in 0..2 {
            compare(&*sys.real[i], &sys.model[i], &self.queries, &[])
                .map_err(|e| format!("{} store: {e}", ["first", "second"][i]))?;
        }
        Ok(())
    }
}

impl Scenario for SnapScenario {
    type Op = SnapOp;
    type Sys = SnapSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[SnapOp] {
        &self.ops
    }
    fn init(&self) -> SnapSys {
        let m = Model::new(self.filters.clone(), self.accounts);
        SnapSys {
            real: [(self.make)(&self.filters), (self.make)(&self.filters)],
            model: [m.clone(), m],
        }
    }
    fn enabled(&self, sys: &SnapSys, op: &SnapOp) -> bool {
        match op {
            SnapOp::First(Op::Update(w, _)) | SnapOp::Second(Op::Update(w, _)) => {
                !sys.model[0].conflicts(w) && !sys.model[1].conflicts(w)
            }
            _ => true,
        }
    }
    fn apply(&self, sys: &mut SnapSys, op: &SnapOp, check: bool) -> Result<(), String> {
        match op {
            SnapOp::First(op) => {
                real_apply(&*sys.real[0], op);
                model_apply(&mut sys.model[0], op);
            }
            SnapOp::Second(op) => {
                real_apply(&*sys.real[1], op);
                model_apply(&mut sys.model[1], op);
            }
            SnapOp::Transfer(p) => {
                let snap = sys.real[0]
                    .create_snapshot(program_key(*p))
                    .map_err(|e| format!("snapshot fails: {e:?}"))?;
                sys.real[1]
                    .load_from_snapshot(program_key(*p), snap)
                    .map_err(|e| format!("loading the snapshot fails: {e:?}"))?;
                let (a, b) = sys.model.split_at_mut(1);
                load_model(&a[0], &mut b[0], *p);
            }
        }
        if check {
            self.compare(sys)?;
        }
        Ok(())
    }
    fn fingerprint(&self, sys: &SnapSys) -> u64 {
        hash64(&sys.model)
    }
    /// the snapshots of both stores are loaded into empty ones
    fn at_end(&self, sys: &mut SnapSys) -> Result<(), String> {
        for i in 0..2 {
            let empty = (self.make)(&self.filters);
            let mut m = Model::new(self.filters.clone(), self.accounts);
            let programs = self.filters.entries.iter().filter(|e| e.program.is_some()).count();
            for p in 0..programs as u8 {
                let snap = sys.real[i]
                    .create_snapshot(program_key(p))
                    .map_err(|e| format!("snapshot fails: {e:?}"))?;
                empty
                    .load_from_snapshot(program_key(p), snap)
                    .map_err(|e| format!("loading the snapshot fails: {e:?}"))?;
                load_model(&sys.model[i], &mut m, p);
                for (q, f) in &self.queries {
                    let got = real_query(&*empty, *q, f, 2).map_err(|e| format!("{e:?}"))?;
                    let want = real_query(&*sys.real[i], *q, f, 2).map_err(|e| format!("{e:?}"))?;
                    if (p == *q || p as usize == programs - 1) && got != want {
                        return Err(format!(
                            "query of program {q} after loading the snapshot of program {p}: {} instead of {}",
                            show_list(&got),
                            show_list(&want)
                        ));
                    }
                }
            }
            compare(&*empty, &m, &self.queries, &[]).map_err(|e| format!("restored store: {e}"))?;
        }
        Ok(())
    }
}

pub fn transfer_scenarios() -> Vec<(SnapScenario, usize, usize)> {
    let make: fn(&Filters) -> Arc<dyn AccountStorageInterface> = |f| Arc::new(new_store(f));
    vec![
        (transfer("C06-transfer", make, Filters::programs(&[0, 1])), 4, 5),
        (router_transfer(), 4, 5),
    ]
}

pub fn transfer(name: &str, make: fn(&Filters) -> Arc<dyn AccountStorageInterface>, filters: Filters) -> SnapScenario {
    let queries = vec![gp(0), gp(1), (0, vec![F::Size(4)])];
    let mut ops = vec![SnapOp::Transfer(0), SnapOp::Transfer(1)];
    for op in [
        up(w(0, 2, 0, 0), 2),
        up(Write { data: 1, ..w(1, 2, 0, 0) }, 2),
        up(w(0, 3, 0, 0), 0),
        up(w(0, 3, 0, 0), 1),
        up(w(1, 3, 0, 1), 2),
        up(dead(0, 4, 0, 3), 2),
        up(dead(0, 4, 0, 0), 2),
        up(dead(1, 4, 0, 3), 0),
        note(3, 2, 2),
        note(4, 3, 2),
    ] {
        ops.push(SnapOp::First(op));
    }
    for op in [
        up(w(0, 1, 0, 0), 2),
        up(w(0, 2, 1, 0), 2),
        up(w(0, 5, 0, 0), 0),
        up(w(0, 5, 0, 0), 2),
        up(w(1, 1, 0, 0), 0),
        up(w(1, 5, 0, 1), 1),
        up(dead(0, 3, 1, 3), 2),
        note(5, 4, 2),
    ] {
        ops.push(SnapOp::Second(op));
    }
    SnapScenario { name: name.into(), make, ops, filters, accounts: 2, queries }
}

fn router_transfer() -> SnapScenario {
    let first = [
        up(w(0, 2, 0, 0), 2),
        up(w(1, 2, 0, 1), 2),
        up(w(2, 2, 0, 2), 2),
        up(w(0, 3, 0, 0), 0),
        up(w(1, 3, 0, 1), 0),
        up(dead(0, 4, 0, 3), 2),
        up(w(2, 4, 0, 2), 2),
        note(3, 2, 2),
    ];
    let second = [
        up(w(0, 1, 0, 0), 2),
        up(w(0, 5, 0, 0), 0),
        up(w(1, 6, 0, 1), 2),
        up(w(2, 1, 0, 2), 2),
        note(5, 4, 2),
    ];
    let mut ops: Vec<SnapOp> = (0..3).map(SnapOp::Transfer).collect();
    ops.extend(first.map(SnapOp::First));
    ops.extend(second.map(SnapOp::Second));
    SnapScenario {
        name: "R01-transfer".into(),
        make: router,
        ops,
        filters: Filters::programs(&[0, 1, 2]),
        accounts: 3,
        queries: vec![gp(0), gp(1), gp(2)],
    }
}

pub fn replay(name: &str, indices: &[usize]) -> Option<Vec<String>> {
    for p in ["C01", "C02", "C03", "C04", "C05", "C08", "R01"] {
        if let Some((s, _, _)) = scenarios(p).iter().find(|x| x.0.name == name) {
            return Some(seq::replay(s, indices));
        }
    }
    transfer_scenarios()
        .iter()
        .find(|x| x.0.name == name)
        .map(|x| seq::replay(&x.0, indices))
}
