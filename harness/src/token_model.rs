//! Reference model of the token store (TokenProgramAccountsStorage) and the operations on it.
use crate::util::*;
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{
    AccountFilterType, MemcmpFilter, MemcmpFilterData,
};
use lite_account_manager_common::account_store_interface::{
    AccountLoadingError, AccountStorageInterface,
};
use lite_account_manager_common::slot_info::SlotInfo;
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Addresses: 0..=9 and 20.. have nothing in common, 10..=18 differ from 10 in one byte each
pub fn tkey(i: u8) -> Pubkey {
    if i < 10 {
        let mut k = [0x10 + i; 32];
        k[31] = 0xc0 + i;
        return Pubkey::new_from_array(k);
    }
    if i >= 20 {
        let mut k = [i; 32];
        k[0] = i.wrapping_mul(37);
        k[31] = 0x33;
        return Pubkey::new_from_array(k);
    }
    let mut k = [0x77; 32];
    // 8 distinct bytes in front and at the end, so that the changed byte is not special
    if i > 10 {
        let pos = [31, 4, 15, 0, 3, 8, 24, 16][(i - 11) as usize];
        k[pos] = 0x01;
    }
    Pubkey::new_from_array(k)
}

pub fn token_program(p: u8) -> Pubkey {
    if p == 0 {
        spl_token::id()
    } else {
        spl_token_2022::id()
    }
}

// ---- layout of the accounts, written independently of the token crates

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokenParts {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<(Pubkey, u64)>,
    pub state: u8,
    pub native: Option<u64>,
    pub close: Option<Pubkey>,
    /// bytes after the base account (account type included)
    pub ext: Vec<u8>,
}
fn opt_key(d: &mut Vec<u8>, k: Option<Pubkey>) {
    d.extend_from_slice(&(k.is_some() as u32).to_le_bytes());
    d.extend_from_slice(&k.map_or([0; 32], |k| k.to_bytes()));
}
pub fn token_bytes(t: &TokenParts) -> Vec<u8> {
    let mut d = vec![];
    d.extend_from_slice(&t.mint.to_bytes());
    d.extend_from_slice(&t.owner.to_bytes());
    d.extend_from_slice(&t.amount.to_le_bytes());
    opt_key(&mut d, t.delegate.map(|x| x.0));
    d.push(t.state);
    d.extend_from_slice(&(t.native.is_some() as u32).to_le_bytes());
    d.extend_from_slice(&t.native.unwrap_or(0).to_le_bytes());
    d.extend_from_slice(&t.delegate.map_or(0, |x| x.1).to_le_bytes());
    opt_key(&mut d, t.close);
    assert_eq!(d.len(), 165);
    d.extend_from_slice(&t.ext);
    d
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MintParts {
    pub authority: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub initialized: bool,
    pub freeze: Option<Pubkey>,
    pub ext: Vec<u8>,
}
pub fn mint_bytes(m: &MintParts) -> Vec<u8> {
    let mut d = vec![];
    opt_key(&mut d, m.authority);
    d.extend_from_slice(&m.supply.to_le_bytes());
    d.push(m.decimals);
    d.push(m.initialized as u8);
    opt_key(&mut d, m.freeze);
    assert_eq!(d.len(), 82);
    if !m.ext.is_empty() {
        d.resize(165, 0);
        d.extend_from_slice(&m.ext);
    }
    d
}

pub fn multisig_bytes(m: u8, n: u8, initialized: bool, signers: &[Pubkey]) -> Vec<u8> {
    let mut d = vec![m, n, initialized as u8];
    for s in signers {
        d.extend_from_slice(&s.to_bytes());
    }
    d.resize(355, 0);
    d
}

// ---- writes

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Kind {
    Token { owner: u8, mint: u8, v: u8 },
    Mint { v: u8 },
    Multi,
    /// no lamports, still owned by the token program
    Closed,
    /// not owned by a token program any more
    Moved,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TW {
    pub addr: u8,
    /// 0 token program, 1 token 2022
    pub p: u8,
    pub slot: u64,
    pub wv: u64,
    pub kind: Kind,
}

impl std::fmt::Debug for TW {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "account {} slot {} wv {} {} {:?}",
            self.addr,
            self.slot,
            self.wv,
            ["token", "token2022"][self.p as usize],
            self.kind
        )
    }
}

impl TW {
    pub fn alive(&self) -> bool {
        !matches!(self.kind, Kind::Closed | Kind::Moved)
    }
    fn tag(&self) -> u64 {
        if let Kind::Token { v, .. } | Kind::Mint { v } = self.kind {
            // the same in each slot
            if v & 8 > 0 {
                return 4000;
            }
        }
        (self.slot % (1 << 40)) * 1000 + (self.wv % (1 << 40)) * 10
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self.kind {
            Kind::Token { owner, mint, v } => token_bytes(&TokenParts {
                mint: tkey(mint),
                owner: tkey(owner),
                // with zeros in all the fields which can have any
                amount: if v & 16 > 0 { 0 } else { self.tag() + if v & 8 > 0 { 0 } else { v as u64 } },
                delegate: if v & 16 > 0 { (v & 1 > 0).then(|| (tkey(9), 0)) } else { 
                    (v & 1 > 0).then(|| (tkey(9), if v & 8 > 0 { 77 } else { self.slot.wrapping_add(77) }))
                },
                state: if v & 16 > 0 { 0 } else { 1 + (v >> 1 & 1) },
                native: (v & 18 == 18).then_some(0),
                close: (v & 1 > 0).then(|| tkey(8)),
                ext: if v & 4 > 0 && self.p == 1 { vec![2, 7, 0, 0, 0, 1] } else { vec![] },
            }),
            Kind::Mint { v } if v & 16 > 0 => mint_bytes(&MintParts {
                authority: None,
                supply: 0,
                decimals: 0,
                initialized: v & 2 > 0,
                freeze: None,
                ext: if v & 4 > 0 && self.p == 1 { vec![1] } else { vec![] },
            }),
            Kind::Mint { v } => mint_bytes(&MintParts {
                authority: Some(tkey(9)),
                supply: self.tag() + if v & 8 > 0 { 0 } else { v as u64 },
                decimals: 6,
                initialized: true,
                freeze: (v & 1 > 0).then(|| tkey(8)),
                ext: if v & 4 > 0 && self.p == 1 { vec![1, 3, 0, 1] } else { vec![] },
            }),
            Kind::Multi => multisig_bytes(1 + (self.slot % 3) as u8, 3, true, &[
                tkey(7),
                tkey((self.slot % 7) as u8),
                tkey(self.wv as u8),
            ]),
            // sometimes with the data it had before
            Kind::Closed if self.slot % 2 != self.addr as u64 % 2 => token_bytes(&TokenParts {
                mint: tkey(0),
                owner: tkey(5),
                amount: 0,
                delegate: None,
                state: 1,
                native: None,
                close: None,
                ext: vec![],
            }),
            Kind::Closed => vec![],
            Kind::Moved => vec![1, 2, 3],
        }
    }
    pub fn lamports(&self) -> u64 {
        match self.kind {
            Kind::Closed => 0,
            _ => 5_000 + self.tag(),
        }
    }
    pub fn account(&self) -> AccountData {
        account_data(
            &Seen {
                pubkey: tkey(self.addr),
                slot: self.slot,
                wv: self.wv,
                owner: match self.kind {
                    Kind::Moved => Pubkey::default(),
                    _ => token_program(self.p),
                },
                lamports: self.lamports(),
                data: self.bytes(),
                executable: false,
                rent_epoch: u64::MAX,
            },
            if self.addr % 2 == 1 { CompressionMethod::Lz4(1) } else { CompressionMethod::None },
        )
    }
}

// ---- queries

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Q {
    pub p: u8,
    pub owner: Option<u8>,
    pub mint: Option<u8>,
    pub size: Option<u64>,
    /// account type of the extended accounts
    pub typ: Option<u8>,
    pub byte: Option<(u64, u8)>,
}
impl Q {
    pub fn filters(&self) -> Vec<AccountFilterType> {
        let mem = |offset: u64, b: Vec<u8>| {
            AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b) })
        };
        let mut f = vec![];
        if let Some((o, b)) = self.byte {
            f.push(mem(o, vec![b]));
        }
        if let Some(s) = self.size {
            f.push(AccountFilterType::Datasize(s));
        }
        if let Some(o) = self.owner {
            f.push(mem(32, tkey(o).to_bytes().to_vec()));
        }
        if let Some(m) = self.mint {
            // filters can be encoded
            let s = bs58::encode(tkey(m).to_bytes()).into_string();
            f.push(AccountFilterType::Memcmp(MemcmpFilter {
                offset: 0,
                data: MemcmpFilterData::Base58(s),
            }));
        }
        if let Some(t) = self.typ {
            f.push(mem(165, vec![t]));
        }
        f
    }
    pub fn matches(&self, program: &Pubkey, data: &[u8]) -> bool {
        *program == token_program(self.p)
            && self.size.map_or(true, |s| data.len() as u64 == s)
            && self.owner.map_or(true, |o| data.get(32..64) == Some(&tkey(o).to_bytes()[..]))
            && self.mint.map_or(true, |m| data.get(0..32) == Some(&tkey(m).to_bytes()[..]))
            && self.typ.map_or(true, |t| data.get(165) == Some(&t))
            && self.byte.map_or(true, |(o, b)| data.get(o as usize) == Some(&b))
    }
    /// by owner or mint of token accounts, or all mints
    pub fn supported(&self) -> bool {
        let accounts = self.size == Some(165) || (self.p == 1 && self.typ == Some(2));
        (accounts && (self.owner.is_some() || self.mint.is_some())) || self.size == Some(82)
    }
}

// ---- operations

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum TOp {
    Update(TW, u8),
    Init(TW),
    Notify { slot: u64, parent: u64, c: u8 },
    Read(u8, u8),
    Query(Q, u8),
}

impl std::fmt::Debug for TOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            TOp::Update(w, c) => write!(f, "update {:?} at {}", w, cname(*c)),
            TOp::Init(w) => write!(f, "initialize {:?}", w),
            TOp::Notify { slot, parent, c } => write!(f, "slot {} (parent {}) {}", slot, parent, cname(*c)),
            TOp::Read(a, c) => write!(f, "read account {} at {}", a, cname(*c)),
            TOp::Query(q, c) => write!(f, "query {:?} at {}", q, cname(*c)),
        }
    }
}

/// what can be observed of a served account: slot and write version of unfinalized ones only,
/// lamports of token accounts are not stored
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct TSeen {
    pub pubkey: Pubkey,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub lamports: Option<u64>,
    pub executable: bool,
    pub from: Option<(u64, u64)>,
}

impl TSeen {
    pub fn show(&self) -> String {
        let n = self.data.len();
        let what = match n {
            82 => format!("mint supply {}", u64::from_le_bytes(self.data[36..44].try_into().unwrap())),
            355 => format!("multisig {:?}", &self.data[..3]),
            n if n >= 165 => format!(
                "data of {n} bytes, amount {}",
                u64::from_le_bytes(self.data[64..72].try_into().unwrap())
            ),
            _ => format!("data of {n} bytes"),
        };
        format!(
            "{} ({}) {what}{}{}",
            short(&self.pubkey),
            short(&self.owner),
            self.lamports.map_or(String::new(), |l| format!(" lamports {l}")),
            self.from.map_or(String::new(), |(s, w)| format!(" slot {s} wv {w}")),
        )
    }
}
pub fn tshow_opt(s: &Option<TSeen>) -> String {
    s.as_ref().map_or("nothing".to_string(), |x| x.show())
}
pub fn tshow(s: &[TSeen]) -> String {
    format!("[{}]", s.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "))
}

pub fn is_token_account(owner: &Pubkey, data: &[u8]) -> bool {
    data.len() == 165 || (*owner == spl_token_2022::id() && data.len() > 165 && data.len() != 355 && data[165] == 2)
}

/// keeps the slot, the model says for which accounts it is compared
pub fn tseen(a: &AccountData) -> TSeen {
    let data = a.account.data.data();
    TSeen {
        pubkey: a.pubkey,
        owner: a.account.owner,
        lamports: (!is_token_account(&a.account.owner, &data)).then_some(a.account.lamports),
        data,
        executable: a.account.executable,
        from: Some((a.updated_slot, a.write_version)),
    }
}

pub fn expected(w: &TW, unfinalized: bool) -> TSeen {
    let data = w.bytes();
    TSeen {
        pubkey: tkey(w.addr),
        owner: token_program(w.p),
        lamports: (!is_token_account(&token_program(w.p), &data)).then_some(w.lamports()),
        data,
        executable: false,
        from: unfinalized.then_some((w.slot, w.wv)),
    }
}

/// an expected account; may also be absent if the mint is not known
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Want {
    pub seen: TSeen,
    pub optional: bool,
}

pub fn same(got: &TSeen, want: &TSeen) -> bool {
    let mut g = got.clone();
    if want.from.is_none() {
        g.from = None;
    }
    g == *want
}

pub fn check_list(got: &[TSeen], want: &[Want]) -> Result<(), String> {
    let mut left: Vec<&TSeen> = got.iter().collect();
    for w in want {
        match left.iter().position(|g| same(g, &w.seen)) {
            Some(i) => {
                left.remove(i);
            }
            None if w.optional => {}
            None => {
                return Err(format!("{} without {}", tshow(got), w.seen.show()));
            }
        }
    }
    if let Some(x) = left.first() {
        return Err(format!(
            "{} with {} instead of {}",
            tshow(got),
            x.show(),
            tshow(&want.iter().map(|w| w.seen.clone()).collect::<Vec<_>>())
        ));
    }
    Ok(())
}

#[derive(Clone, Default, Hash)]
pub struct TModel {
    pub fin: BTreeMap<u8, TW>,
    /// newest finalized write, deletions included
    pub last_fin: BTreeMap<u8, TW>,
    pub unfin: BTreeMap<u64, (Option<u64>, BTreeMap<u8, TW>)>,
    pub confirmed: u64,
    pub finalized: u64,
    /// addresses which were given as mint or as mint of a token account
    pub mints_mentioned: BTreeSet<u8>,
    pub accounts: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum TAnswer {
    None,
    Recorded(bool),
    List(Vec<TSeen>),
    One(Option<TSeen>),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum TWant {
    None,
    /// None: not specified
    Recorded(Option<bool>),
    List(Vec<Want>),
    One(Option<Want>),
}

impl TModel {
    pub fn new(accounts: &[u8]) -> Self {
        TModel { accounts: accounts.to_vec(), ..Default::default() }
    }
    fn apply_fin(&mut self, w: TW) {
        if w.alive() {
            self.fin.insert(w.addr, w);
        } else {
            self.fin.remove(&w.addr);
        }
        self.last_fin.insert(w.addr, w);
    }
    fn known(&self, a: u8) -> bool {
        self.fin.contains_key(&a) || self.unfin.values().any(|(_, m)| m.contains_key(&a))
    }
    /// the history is not one in which a finalized state is overwritten by an older one
    pub fn in_order(&self, op: &TOp) -> bool {
        let key = |w: &TW| (w.slot, w.wv);
        let (w, c) = match op {
            TOp::Update(w, c) => (w, *c),
            TOp::Init(w) => (w, 2),
            _ => return true,
        };
        if w.kind == Kind::Moved && !self.known(w.addr) && self.mints_mentioned.contains(&w.addr) {
            // not specified if it is recorded
            return false;
        }
        let last = self.last_fin.get(&w.addr);
        if last.map_or(false, |l| key(l) == key(w) && l.kind != w.kind) {
            return false;
        }
        if c == 2 {
            last.map_or(true, |l| key(l) <= key(w))
        } else {
            (self.finalized != 0 && w.slot <= self.finalized) || last.map_or(true, |l| key(l) < key(w))
        }
    }
    pub fn mint_known(&self, w: &TW) -> bool {
        match w.kind {
            Kind::Token { mint, .. } => {
                matches!(self.fin.get(&mint), Some(TW { kind: Kind::Mint { .. }, .. }))
            }
            _ => true,
        }
    }
    fn want(&self, w: &TW, unfinalized: bool) -> Want {
        Want { seen: expected(w, unfinalized), optional: !self.mint_known(w) }
    }
    /// slots of the chain of a slot, newest first
    fn chain(&self, slot: u64) -> Vec<u64> {
        let mut out = vec![];
        let mut current = Some(slot);
        while let Some(s) = current {
            let Some((parent, _)) = self.unfin.get(&s) else { break };
            out.push(s);
            current = parent.filter(|p| *p < s);
        }
        out
    }
    /// newest unfinalized write which is visible, if any
    pub fn unfinalized_view(&self, a: u8, c: u8) -> Option<TW> {
        if c == 2 {
            return None;
        }
        if c == 0 {
            for (s, (_, m)) in self.unfin.iter().rev() {
                if *s > self.confirmed {
                    if let Some(w) = m.get(&a) {
                        return Some(*w);
                    }
                }
            }
        }
        self.chain(self.confirmed)
            .into_iter()
            .find_map(|s| self.unfin[&s].1.get(&a))
            .copied()
    }
    pub fn read(&self, a: u8, c: u8) -> Option<Want> {
        match self.unfinalized_view(a, c) {
            Some(w) => w.alive().then(|| self.want(&w, true)),
            None => self.fin.get(&a).map(|w| self.want(w, false)),
        }
    }
    pub fn query(&self, q: &Q, c: u8) -> Vec<Want> {
        self.accounts
            .iter()
            .filter_map(|a| self.read(*a, c))
            .filter(|x| q.matches(&x.seen.owner, &x.seen.data))
            .collect()
    }
    pub fn update(&mut self, w: TW, c: u8) -> Option<bool> {
        if w.kind == Kind::Moved && !self.known(w.addr) {
            return Some(false);
        }
        if let Kind::Mint { .. } = w.kind {
            self.mints_mentioned.insert(w.addr);
        }
        if let Kind::Token { mint, .. } = w.kind {
            self.mints_mentioned.insert(mint);
        }
        Some(self.record(w, c))
    }
    fn record(&mut self, w: TW, c: u8) -> bool {
        if c < 2 {
            if self.finalized != 0 && w.slot <= self.finalized {
                return false;
            }
            let m = &mut self.unfin.entry(w.slot).or_default().1;
            if m.get(&w.addr).map_or(false, |x| x.wv >= w.wv) {
                return false;
            }
            m.insert(w.addr, w);
            true
        } else {
            self.apply_fin(w);
            for (s, (_, m)) in self.unfin.range_mut(..=w.slot) {
                if *s < w.slot || m.get(&w.addr).map_or(false, |x| x.wv <= w.wv) {
                    m.remove(&w.addr);
                }
            }
            true
        }
    }
    pub fn notify(&mut self, slot: u64, parent: u64, c: u8) -> Vec<Want> {
        match c {
            0 => {
                self.unfin.entry(slot).or_default().0 = Some(parent);
                vec![]
            }
            1 => {
                if self.finalized < slot {
                    self.unfin.entry(slot).or_default().0 = Some(parent);
                    self.confirmed = self.confirmed.max(slot);
                }
                let Some((_, m)) = self.unfin.get(&slot) else { return vec![] };
                m.values().filter(|w| w.alive()).map(|w| self.want(w, true)).collect()
            }
            _ => {
                if self.finalized >= slot {
                    return vec![];
                }
                self.unfin.entry(slot).or_default().0 = Some(parent);
                self.confirmed = self.confirmed.max(slot);
                self.finalized = slot;
                let mut newest: BTreeMap<u8, TW> = BTreeMap::new();
                for s in self.chain(slot) {
                    for (a, w) in &self.unfin[&s].1 {
                        newest.entry(*a).or_insert(*w);
                    }
                }
                for w in newest.values() {
                    self.apply_fin(*w);
                }
                self.unfin.retain(|s, _| *s > slot);
                newest.values().filter(|w| w.alive()).map(|w| self.want(w, true)).collect()
            }
        }
    }
    pub fn apply(&mut self, op: &TOp) -> TWant {
        match op {
            TOp::Update(w, c) => TWant::Recorded(self.update(*w, *c)),
            TOp::Init(w) => {
                self.update(*w, 2);
                TWant::None
            }
            TOp::Notify { slot, parent, c } => TWant::List(self.notify(*slot, *parent, *c)),
            TOp::Read(a, c) => TWant::One(self.read(*a, *c)),
            TOp::Query(q, c) => TWant::List(self.query(q, *c)),
        }
    }
    /// can a snapshot be loaded without overwriting newer states
    pub fn can_load(&self, from: &TModel, p: u8) -> bool {
        let key = |w: &TW| (w.slot, w.wv);
        from.snapshot(p).iter().all(|w| {
            self.last_fin.get(&w.addr).map_or(true, |l| key(l) <= key(w))
                && self.unfin.values().all(|(_, m)| m.get(&w.addr).map_or(true, |x| key(x) > key(w)))
        })
    }
    pub fn snapshot(&self, p: u8) -> Vec<TW> {
        self.fin
            .values()
            .filter(|w| w.p == p && self.mint_known(w))
            .copied()
            .collect()
    }
    pub fn load(&mut self, from: &TModel, p: u8) {
        for w in from.snapshot(p) {
            if let Kind::Mint { .. } = w.kind {
                self.mints_mentioned.insert(w.addr);
            }
            self.apply_fin(w);
        }
    }
}

// ---- the implementation

pub fn new_token_store() -> TokenProgramAccountsStorage {
    TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))
}

pub fn tread(s: &dyn AccountStorageInterface, a: u8, c: u8) -> Result<Option<TSeen>, AccountLoadingError> {
    s.get_account(tkey(a), COMMITMENTS[c as usize]).map(|x| x.map(|x| tseen(&x)))
}
pub fn tlist(v: &[AccountData]) -> Vec<TSeen> {
    let mut v: Vec<TSeen> = v.iter().map(tseen).collect();
    v.sort();
    v
}
pub fn tquery(s: &dyn AccountStorageInterface, q: &Q, c: u8) -> Result<Vec<TSeen>, AccountLoadingError> {
    s.get_program_accounts(token_program(q.p), Some(q.filters()), COMMITMENTS[c as usize])
        .map(|v| tlist(&v))
}
pub fn treal(s: &dyn AccountStorageInterface, op: &TOp) -> TAnswer {
    match op {
        TOp::Update(w, c) => TAnswer::Recorded(s.update_account(w.account(), COMMITMENTS[*c as usize])),
        TOp::Init(w) => {
            s.initilize_or_update_account(w.account());
            TAnswer::None
        }
        TOp::Notify { slot, parent, c } => TAnswer::List(tlist(&s.process_slot_data(
            SlotInfo { slot: *slot, parent: *parent, root: 0 },
            COMMITMENTS[*c as usize],
        ))),
        TOp::Read(a, c) => TAnswer::One(tread(s, *a, *c).unwrap_or(None)),
        TOp::Query(q, c) => TAnswer::List(tquery(s, q, *c).unwrap_or_default()),
    }
}

pub fn answer_ok(got: &TAnswer, want: &TWant) -> Result<(), String> {
    match (got, want) {
        (TAnswer::None, TWant::None) => Ok(()),
        (TAnswer::Recorded(_), TWant::Recorded(None)) => Ok(()),
        (TAnswer::Recorded(g), TWant::Recorded(Some(w))) if g == w => Ok(()),
        (TAnswer::Recorded(g), TWant::Recorded(Some(w))) => Err(format!("answers {g} instead of {w}")),
        (TAnswer::List(g), TWant::List(w)) => check_list(g, w).map_err(|e| format!("returns {e}")),
        (TAnswer::One(g), TWant::One(w)) => one_ok(g, w),
        _ => Err(format!("{got:?} instead of {want:?}")),
    }
}

pub fn one_ok(got: &Option<TSeen>, want: &Option<Want>) -> Result<(), String> {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => same(g, &w.seen),
        (None, Some(w)) => w.optional,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!(
        "{} instead of {}",
        tshow_opt(got),
        tshow_opt(&want.as_ref().map(|w| w.seen.clone()))
    ))
}

pub fn tcompare(s: &dyn AccountStorageInterface, m: &TModel, queries: &[Q]) -> Result<(), String> {
    for a in &m.accounts {
        for c in 0..3 {
            let got = tread(s, *a, c).map_err(|e| format!("read of account {a} fails: {e:?}"))?;
            one_ok(&got, &m.read(*a, c)).map_err(|e| format!("read of account {a} at {}: {e}", cname(c)))?;
        }
    }
    for q in queries {
        for c in 0..3 {
            let got = tquery(s, q, c);
            if !q.supported() {
                if got.is_ok() {
                    return Err(format!("query {q:?} is not refused"));
                }
                continue;
            }
            let got = got.map_err(|e| format!("query {q:?} at {} fails: {e:?}", cname(c)))?;
            check_list(&got, &m.query(q, c)).map_err(|e| format!("query {q:?} at {} returns {e}", cname(c)))?;
        }
    }
    Ok(())
}
