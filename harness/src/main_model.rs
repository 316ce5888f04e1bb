//! Reference model of the account store (InmemoryAccountStore) and the operations on it.
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::{
    AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData,
};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Write {
    pub acct: u8,
    pub slot: u64,
    pub wv: u64,
    pub owner: u8,
    pub alive: bool,
    /// variant of the data. From 3 on the content does not depend on slot and write version, and variants
    /// differ from 3 in one field, 9 has the largest numbers
    pub data: u8,
}

impl std::fmt::Debug for Write {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "account {} slot {} wv {} program {}{}{}",
            self.acct,
            self.slot,
            self.wv,
            self.owner,
            if self.alive { "" } else { " DELETED" },
            if self.data > 0 { format!(" data variant {}", self.data) } else { String::new() }
        )
    }
}

pub fn data_of(w: &Write) -> Vec<u8> {
    if !w.alive {
        // a deleted account can still have its owner and data
        return if w.owner == 3 { vec![] } else { vec![1, w.slot as u8, w.wv as u8] };
    }
    match w.data {
        0 => vec![1, w.slot as u8, w.wv as u8],
        1 => vec![9, w.slot as u8, w.wv as u8, 5],
        // the same in each slot
        4 => vec![1, 7, 8],
        3 | 5..=7 => vec![1, 7, 7],
        8 => vec![],
        _ => vec![1, w.slot as u8, w.wv as u8, 6],
    }
}

pub fn seen_of(w: &Write) -> Seen {
    Seen {
        pubkey: account_key(w.acct),
        slot: w.slot,
        wv: w.wv,
        owner: program_key(w.owner),
        lamports: if w.alive && w.data == 9 {
            u64::MAX
        } else if w.alive && w.data >= 3 {
            500 + (w.data == 5) as u64
        } else if w.alive { (1000 + (w.slot % (1 << 40)) * 10).wrapping_add(w.wv).max(1) } else { 0 },
        data: data_of(w),
        executable: w.data == 1 || w.data == 6,
        rent_epoch: if w.data >= 3 { if w.data == 9 { u64::MAX } else { 5 + (w.data == 7) as u64 } } else { w.slot.wrapping_add(5) },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Update(Write, u8),
    /// initilize_or_update_account
    Init(Write),
    Notify { slot: u64, parent: u64, c: u8 },
    Read(u8, u8),
    Query(u8, u8),
    /// program, level, index in QUERY_FILTERS
    QueryF(u8, u8, u8),
}

/// conditions of filtered queries
pub const QUERY_FILTERS: [&[F]; 4] =
    [&[F::Byte(0, 1)], &[F::Byte(0, 9)], &[F::Size(3)], &[F::Size(4), F::Byte(0, 9)]];

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Update(w, c) => write!(f, "update {:?} at {}", w, cname(*c)),
            Op::Init(w) => write!(f, "initialize {:?}", w),
            Op::Notify { slot, parent, c } => {
                write!(f, "slot {} (parent {}) {}", slot, parent, cname(*c))
            }
            Op::Read(a, c) => write!(f, "read account {} at {}", a, cname(*c)),
            Op::Query(p, c) => write!(f, "query program {} at {}", p, cname(*c)),
            Op::QueryF(p, c, k) => {
                write!(f, "query program {} at {} with {:?}", p, cname(*c), QUERY_FILTERS[*k as usize])
            }
        }
    }
}

/// what the filters of the store accept
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FilterEntry {
    pub accounts: Vec<u8>,
    pub program: Option<u8>,
    pub filters: Vec<F>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Size(u64),
    Byte(u64, u8),
}
pub fn f_matches(f: &F, data: &[u8]) -> bool {
    match f {
        F::Size(s) => data.len() as u64 == *s,
        F::Byte(o, b) => data.get(*o as usize) == Some(b),
    }
}
pub fn f_real(f: &F) -> AccountFilterType {
    match f {
        F::Size(s) => AccountFilterType::Datasize(*s),
        F::Byte(o, b) => AccountFilterType::Memcmp(MemcmpFilter {
            offset: *o,
            data: MemcmpFilterData::Bytes(vec![*b]),
        }),
    }
}
pub fn entry_real(e: &FilterEntry) -> AccountFilter {
    AccountFilter {
        accounts: e.accounts.iter().map(|a| account_key(*a)).collect(),
        program_id: e.program.map(program_key),
        filters: if e.filters.is_empty() {
            None
        } else {
            Some(e.filters.iter().map(f_real).collect())
        },
    }
}

#[derive(Clone, Debug, Default)]
pub struct Filters {
    pub entries: Vec<FilterEntry>,
    /// accept everything but the entries
    pub inverted: bool,
}
impl Filters {
    pub fn programs(p: &[u8]) -> Self {
        Filters {
            entries: p
                .iter()
                .map(|p| FilterEntry { accounts: vec![], program: Some(*p), filters: vec![] })
                .collect(),
            inverted: false,
        }
    }
    pub fn accepts(&self, w: &Write) -> bool {
        let data = data_of(w);
        let plain = self.entries.iter().any(|e| {
            e.accounts.contains(&w.acct)
                || (e.program == Some(w.owner) && e.filters.iter().all(|f| f_matches(f, &data)))
        });
        plain != self.inverted
    }
}

#[derive(Clone, Default, Hash)]
struct Slot {
    level: u8,
    parent: Option<u64>,
    members: BTreeSet<(u8, u32)>,
}

#[derive(Clone, Default, Hash)]
struct Acct {
    exists: bool,
    incarnation: u32,
    /// every recorded write with the commitment it has reached
    writes: BTreeMap<(u64, u64), (u8, Write)>,
    /// newest write of the slots which can still be promoted
    pending: BTreeMap<u64, u64>,
}

impl Acct {
    fn view(&self, c: u8) -> Option<Write> {
        self.writes.iter().rev().find(|(_, (l, _))| *l >= c).map(|(_, (_, w))| *w)
    }
}

#[derive(Clone)]
pub struct Model {
    pub filters: Filters,
    accts: Vec<Acct>,
    slots: BTreeMap<u64, Slot>,
}

impl std::hash::Hash for Model {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.accts.hash(h);
        self.slots.hash(h);
    }
}

impl Model {
    pub fn new(filters: Filters, accounts: usize) -> Self {
        Model {
            filters,
            accts: vec![Acct::default(); accounts],
            slots: BTreeMap::new(),
        }
    }
    pub fn accounts(&self) -> u8 {
        self.accts.len() as u8
    }
    pub fn exists(&self, a: u8) -> bool {
        self.accts[a as usize].exists
    }
    pub fn view(&self, a: u8, c: u8) -> Option<Write> {
        self.accts[a as usize].view(c)
    }
    /// a different content was already recorded for the same slot and write version
    pub fn conflicts(&self, w: &Write) -> bool {
        self.accts[w.acct as usize]
            .writes
            .get(&(w.slot, w.wv))
            .map_or(false, |(_, x)| x != w)
    }
    pub fn read(&self, a: u8, c: u8) -> Option<Seen> {
        self.view(a, c).filter(|w| w.alive).map(|w| seen_of(&w))
    }
    pub fn query(&self, program: u8, filters: &[F], c: u8) -> Vec<Seen> {
        let mut v: Vec<Seen> = (0..self.accounts())
            .filter_map(|a| self.view(a, c))
            .filter(|w| w.alive && w.owner == program)
            .filter(|w| filters.iter().all(|f| f_matches(f, &data_of(w))))
            .map(|w| seen_of(&w))
            .collect();
        v.sort();
        v
    }

    fn removable(&self, a: u8) -> bool {
        let acct = &self.accts[a as usize];
        let Some(f) = acct.view(2) else { return false };
        let newest = acct.view(0).unwrap();
        (newest.slot, newest.wv) == (f.slot, f.wv) && (!f.alive || !self.filters.accepts(&f))
    }
    fn remove(&mut self, a: u8) {
        let acct = &mut self.accts[a as usize];
        acct.exists = false;
        acct.incarnation += 1;
        acct.writes.clear();
        acct.pending.clear();
    }

    /// (recorded, is the answer of the store specified)
    pub fn update(&mut self, w: Write, c: u8) -> (bool, bool) {
        let accepted = self.filters.accepts(&w);
        let exists = self.exists(w.acct);
        if !exists && !accepted {
            return (false, true);
        }
        if !exists {
            self.accts[w.acct as usize].exists = true;
        }
        let inc = self.accts[w.acct as usize].incarnation;
        let slot = self.slots.entry(w.slot).or_insert(Slot {
            level: c,
            parent: None,
            members: BTreeSet::new(),
        });
        let level = if c < 2 {
            slot.members.insert((w.acct, inc));
            slot.level.max(c)
        } else {
            2
        };
        let prev = self.view(w.acct, level);
        let before: Vec<_> = (0..3).map(|c| self.view(w.acct, c)).collect();
        let acct = &mut self.accts[w.acct as usize];
        let key = (w.slot, w.wv);
        let newest_of_slot = acct.pending.get(&w.slot).map_or(true, |x| *x < w.wv);
        if newest_of_slot {
            acct.pending.insert(w.slot, w.wv);
        }
        let newer = |v: &Option<Write>| v.map_or(true, |x| (x.slot, x.wv) < key);
        let recorded = newest_of_slot
            || (level == 1 && newer(&before[1]))
            || (level == 2 && newer(&before[2]));
        if recorded {
            let e = acct.writes.entry(key).or_insert((level, w));
            e.0 = e.0.max(level);
        }
        // a write below the finalized state can never be seen, it may be recorded or not
        let specified = before[2].map_or(true, |f| f.slot <= w.slot);
        if recorded && level == 2 {
            if exists && prev.map_or(true, |p| p.owner != w.owner) && self.removable(w.acct) {
                self.remove(w.acct);
            }
        }
        (recorded, specified)
    }

    /// the accounts which are promoted
    pub fn notify(&mut self, slot: u64, parent: u64, c: u8) -> Vec<Seen> {
        let promoted = self.begin(slot, parent, c);
        let mut out = vec![];
        let mut gone = vec![];
        for (a, inc, s) in promoted {
            let (seen, forget) = self.promote(a, inc, s, c);
            out.extend(seen);
            if forget {
                gone.push((a, inc));
            }
        }
        for (a, inc) in gone {
            self.forget(a, inc);
        }
        out.sort();
        out
    }

    /// last step of a notification: an account which is finally deleted or not tracked any more
    pub fn forget(&mut self, a: u8, inc: u32) {
        if self.accts[a as usize].incarnation == inc && self.exists(a) && self.removable(a) {
            self.remove(a);
        }
    }

    /// first step of a notification, for the slots. The accounts which will be promoted: account,
    /// incarnation and slot
    pub fn begin(&mut self, slot: u64, parent: u64, c: u8) -> Vec<(u8, u32, u64)> {
        let mut promoted: BTreeMap<(u8, u32), u64> = BTreeMap::new();
        let mut current = Some((slot, Some(parent)));
        while let Some((s, p)) = current.take() {
            let known = self.slots.contains_key(&s);
            let st = self.slots.entry(s).or_insert(Slot {
                level: c,
                parent: p,
                members: BTreeSet::new(),
            });
            if known {
                if p.is_some() {
                    st.parent = p;
                }
                if st.level < c {
                    st.level = c;
                    for m in &st.members {
                        promoted.entry(*m).or_insert(s);
                    }
                }
            }
            if c > 0 {
                current = st.parent.filter(|x| *x < s).map(|x| (x, None));
            }
        }
        if c == 2 {
            self.slots.retain(|s, _| *s >= slot);
        }
        promoted.into_iter().map(|((a, inc), s)| (a, inc, s)).collect()
    }

    /// second step of a notification, for one account. The state which gets visible, and if the
    /// account may have to be forgotten
    pub fn promote(&mut self, a: u8, inc: u32, s: u64, c: u8) -> (Option<Seen>, bool) {
        if self.accts[a as usize].incarnation != inc || !self.exists(a) {
            return (None, false);
        }
        let prev = self.view(a, c);
        let acct = &mut self.accts[a as usize];
        let newest = acct.pending.get(&s).copied();
        if let Some(wv) = newest {
            if c > 0 {
                let e = acct.writes.get_mut(&(s, wv)).unwrap();
                e.0 = e.0.max(c);
            }
        }
        if c == 2 {
            // states of older slots are dropped
            while acct.pending.len() > 1 && *acct.pending.first_key_value().unwrap().0 < s {
                acct.pending.pop_first();
            }
        }
        let now = self.view(a, c);
        if c == 0 || now == prev {
            return (None, false);
        }
        let w = now.unwrap();
        let forget = c == 2 && prev.map_or(true, |p| p.owner != w.owner) && self.removable(a);
        (Some(seen_of(&w)), forget)
    }
}

pub fn compression(acct: u8) -> CompressionMethod {
    match acct % 5 {
        1 => CompressionMethod::Lz4(1),
        3 => CompressionMethod::Zstd(1),
        _ => CompressionMethod::None,
    }
}
