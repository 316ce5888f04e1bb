//! Filters and account content: C09 - C13.
use crate::cases::{self, Cases};
use crate::report::Report;
use crate::util::*;
use base64::Engine;
use lite_account_manager_common::account_data::{Account, AccountData, CompressionMethod, Data};
use lite_account_manager_common::account_filter::{
    AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData,
};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::except_filter_store::ExceptFilterStore;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use solana_rpc_client_api::filter::{Memcmp, MemcmpEncodedBytes, RpcFilterType};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
    Size(u64),
    Mem(u64, Vec<u8>),
}

/// what a data filter means
fn matches(f: &R, data: &[u8]) -> bool {
    match f {
        R::Size(s) => data.len() as u128 == *s as u128,
        R::Mem(o, b) => {
            let end = *o as u128 + b.len() as u128;
            end <= data.len() as u128 && (0..b.len()).all(|i| data[*o as usize + i] == b[i])
        }
    }
}

fn encode(b: &[u8], enc: usize) -> MemcmpFilterData {
    match enc % 3 {
        0 => MemcmpFilterData::Bytes(b.to_vec()),
        1 => MemcmpFilterData::Base58(bs58::encode(b).into_string()),
        _ => MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(b)),
    }
}
fn real(f: &R, enc: usize) -> AccountFilterType {
    match f {
        R::Size(s) => AccountFilterType::Datasize(*s),
        R::Mem(o, b) => AccountFilterType::Memcmp(MemcmpFilter { offset: *o, data: encode(b, enc) }),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    accounts: Vec<u8>,
    program: Option<u8>,
    filters: Option<Vec<R>>,
}
impl Entry {
    fn real(&self, enc: usize) -> AccountFilter {
        AccountFilter {
            accounts: self.accounts.iter().map(|a| account_key(*a)).collect(),
            program_id: self.program.map(program_key),
            filters: self
                .filters
                .as_ref()
                .map(|f| f.iter().enumerate().map(|(i, f)| real(f, enc + i * (enc > 2) as usize)).collect()),
        }
    }
    fn all(&self, data: &[u8]) -> bool {
        self.filters.iter().flatten().all(|f| matches(f, data))
    }
}

fn lists() -> Vec<Option<Vec<R>>> {
    let b = |o: u64, x: &[u8]| R::Mem(o, x.to_vec());
    vec![
        None,
        Some(vec![]),
        Some(vec![R::Size(3)]),
        Some(vec![R::Size(4)]),
        Some(vec![b(0, &[1])]),
        Some(vec![b(0, &[1, 2])]),
        Some(vec![R::Size(3), b(0, &[1])]),
        Some(vec![b(0, &[1]), R::Size(3)]),
        Some(vec![R::Size(4), b(1, &[2])]),
        Some(vec![b(0, &[1]), b(2, &[5])]),
        Some(vec![b(0, &[1]), b(0, &[1])]),
        Some(vec![R::Size(3), R::Size(4)]),
        Some(vec![b(0, &[])]),
        Some(vec![b(9, &[1])]),
        Some(vec![b(0, &[0, 1])]),
        Some(vec![b(3, &[])]),
    ]
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    for p in 0..2 {
        for (i, l) in lists().into_iter().enumerate() {
            if p == 1 && ![0, 2, 6, 9].contains(&i) {
                continue;
            }
            v.push(Entry { accounts: vec![], program: Some(p), filters: l });
        }
    }
    let b = R::Mem(0, vec![1]);
    v.push(Entry { accounts: vec![0], program: None, filters: None });
    v.push(Entry { accounts: vec![1, 0], program: None, filters: None });
    // data filters without a program have no meaning
    v.push(Entry { accounts: vec![1], program: None, filters: Some(vec![R::Size(3)]) });
    v.push(Entry { accounts: vec![1], program: Some(0), filters: Some(vec![R::Size(3)]) });
    v.push(Entry { accounts: vec![0, 0], program: Some(1), filters: Some(vec![b]) });
    v.push(Entry { accounts: vec![], program: None, filters: None });
    v
}

/// accounts to be classified: (address, owner, data)
fn accounts() -> Vec<(u8, u8, Vec<u8>)> {
    let data: Vec<Vec<u8>> = vec![
        vec![],
        vec![1],
        vec![1, 2],
        vec![1, 2, 3],
        vec![1, 2, 5],
        vec![9, 2, 5],
        vec![1, 2, 5, 0],
        vec![9, 2, 5, 0],
        vec![0, 1, 5, 7],
        vec![0; 10],
        vec![1; 10],
    ];
    let mut v = vec![];
    for a in 0..3 {
        for p in 0..3 {
            for d in &data {
                v.push((a, p, d.clone()));
            }
        }
    }
    v
}

fn make(a: u8, owner: u8, data: &[u8], method: CompressionMethod) -> AccountData {
    account_data(
        &Seen {
            pubkey: account_key(a),
            slot: 1,
            wv: 1,
            owner: program_key(owner),
            lamports: 1,
            data: data.to_vec(),
            executable: false,
            rent_epoch: 0,
        },
        method,
    )
}

pub const METHODS: [CompressionMethod; 3] = [
    CompressionMethod::None,
    CompressionMethod::Lz4(1),
    CompressionMethod::Zstd(1),
];

struct Configs {
    name: &'static str,
    entries: Vec<Entry>,
    configs: Vec<Vec<usize>>,
    accounts: Vec<(u8, u8, Vec<u8>)>,
    real: Vec<AccountData>,
    queries: Vec<Entry>,
    /// coverage of queries (C10) or classification of accounts (C09)
    coverage: bool,
}

type Store = (&'static str, Arc<dyn AccountFiltersStoreInterface>);

fn configs(name: &'static str, size: usize, coverage: bool) -> Configs {
    let entries = entries();
    let mut configs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = configs.clone();
    for _ in 0..size {
        last = last
            .iter()
            .flat_map(|c| {
                (0..entries.len()).map(move |e| {
                    let mut c = c.clone();
                    c.push(e);
                    c
                })
            })
            .collect();
        configs.extend(last.iter().cloned());
    }
    // each content with each compression
    let accounts: Vec<_> = accounts().into_iter().flat_map(|a| vec![a; if coverage { 1 } else { 3 }]).collect();
    let real = accounts
        .iter()
        .enumerate()
        .map(|(i, (a, p, d))| make(*a, *p, d, METHODS[if coverage { 0 } else { i % 3 }].clone()))
        .collect();
    let mut queries = vec![];
    for program in [None, Some(0), Some(1), Some(2)] {
        for filters in lists() {
            if program.is_none() && filters.is_some() {
                continue;
            }
            for accounts in [vec![], vec![0], vec![1, 0], vec![2], vec![0, 2]] {
                if program == Some(1) && accounts.len() == 1 {
                    continue;
                }
                queries.push(Entry { accounts, program, filters: filters.clone() });
            }
        }
    }
    Configs { name, entries, configs, accounts, real, queries, coverage }
}

impl Configs {
    fn stores(&self, c: &[usize], enc: usize) -> Vec<Store> {
        let list: Vec<AccountFilter> = c
            .iter()
            .enumerate()
            .map(|(i, e)| self.entries[*e].real(enc + i))
            .collect();
        let mut at_once = SimpleFilterStore::default();
        at_once.add_account_filters(&list);
        let mut reversed = SimpleFilterStore::default();
        for f in list.iter().rev() {
            reversed.add_account_filter(f);
            reversed.add_account_filter(f);
        }
        let mutable = MutableFilterStore::default();
        for f in &list {
            mutable.add_account_filters(&vec![f.clone()]);
        }
        let mut except = ExceptFilterStore::default();
        except.add_account_filters(&list);
        vec![
            ("simple", Arc::new(at_once)),
            ("simple, reversed order and twice", Arc::new(reversed)),
            ("mutable, one by one", Arc::new(mutable)),
            ("except", Arc::new(except)),
        ]
    }
    fn accepts(&self, c: &[usize], a: usize) -> bool {
        let (key, owner, data) = &self.accounts[a];
        c.iter().any(|e| {
            let e = &self.entries[*e];
            e.accounts.contains(key) || (e.program == Some(*owner) && e.all(data))
        })
    }
    fn check_accounts(&self, c: &[usize]) -> Result<u64, String> {
        let mut n = 0;
        for enc in 0..3 {
            for (name, s) in self.stores(c, enc) {
                for i in 0..self.accounts.len() {
                    let want = self.accepts(c, i) != (name == "except");
                    let got = s.satisfies(&self.real[i]);
                    n += 1;
                    if got != want {
                        return Err(format!(
                            "store {name} (encoding {enc}) answers {got} instead of {want} for account (address, program, data) {:?} compressed by {:?}",
                            self.accounts[i], METHODS[i % 3]
                        ));
                    }
                }
            }
        }
        Ok(n)
    }
    fn check_coverage(&self, c: &[usize]) -> Result<u64, String> {
        let mut n = 0;
        let listed: BTreeSet<u8> = c.iter().flat_map(|e| self.entries[*e].accounts.iter().copied()).collect();
        for enc in 0..3 {
            for (name, s) in self.stores(c, enc) {
                let inverted = name == "except";
                let accepted: Vec<bool> = self.real.iter().map(|a| s.satisfies(a)).collect();
                for (k, q) in self.queries.iter().enumerate() {
                    let qenc = enc + k % 4;
                    let covered = s.contains_filter(&q.real(qenc));
                    n += 1;
                    if covered {
                        for (i, (key, owner, data)) in self.accounts.iter().enumerate() {
                            let by_program = q.program == Some(*owner) && q.all(data);
                            let by_address = q.accounts.contains(key);
                            let hit = if inverted {
                                // addresses and programs are excepted independently
                                (by_program && !listed.contains(key))
                                    || (by_address && listed.contains(key))
                            } else {
                                by_program || by_address
                            };
                            if hit && !accepted[i] {
                                return Err(format!(
                                    "store {name} (encoding {enc}) covers the query {q:?} but does not accept account (address, program, data) {:?}",
                                    self.accounts[i]
                                ));
                            }
                        }
                    } else {
                        let must = if inverted {
                            !q.accounts.iter().any(|a| listed.contains(a))
                                && !c.iter().any(|e| q.program.is_some() && self.entries[*e].program == q.program)
                        } else {
                            let set = |f: &[R]| f.iter().cloned().collect::<BTreeSet<R>>();
                            q.accounts.iter().all(|a| listed.contains(a))
                                && (q.program.is_none()
                                    || c.iter().any(|e| {
                                        let e = &self.entries[*e];
                                        e.program == q.program
                                            && match (&e.filters, &q.filters) {
                                                (None, _) => true,
                                                (Some(_), None) => false,
                                                (Some(e), Some(q)) => set(e).is_subset(&set(q)),
                                            }
                                    }))
                        };
                        if must {
                            return Err(format!(
                                "store {name} (encoding {enc}) does not cover the query {q:?} (encoding {qenc})"
                            ));
                        }
                    }
                }
            }
        }
        Ok(n)
    }
}

impl Cases for Configs {
    fn name(&self) -> String {
        self.name.to_string()
    }
    fn len(&self) -> usize {
        self.configs.len()
    }
    fn describe(&self, i: usize) -> String {
        let c = &self.configs[i];
        c.iter()
            .map(|e| format!("registered {:?}", self.entries[*e]))
            .collect::<Vec<_>>()
            .join("\n")
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        if self.coverage {
            self.check_coverage(&self.configs[i])
        } else {
            self.check_accounts(&self.configs[i])
        }
    }
}

// ---------------------------------------------------------------------------------- data filters

fn strings(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|s| {
                alphabet.iter().map(move |x| {
                    let mut s = s.clone();
                    s.push(*x);
                    s
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

struct Matching {
    filters: Vec<R>,
    data: Vec<Vec<u8>>,
}
fn matching(thorough: bool) -> Matching {
    let mut filters = vec![];
    for s in (0..8).chain([255, 256, 1 << 32, (1 << 32) + 3, u64::MAX]) {
        filters.push(R::Size(s));
    }
    let offsets: Vec<u64> = (0..6)
        .chain([255, 256, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 2, u64::MAX - 1, u64::MAX])
        .collect();
    for o in &offsets {
        for b in strings(&[0, 1], if thorough { 5 } else { 4 }) {
            filters.push(R::Mem(*o, b));
        }
        for b in [vec![255], vec![0, 255], vec![255, 0, 1], vec![1; 40], vec![0; 130]] {
            filters.push(R::Mem(*o, b));
        }
    }
    let mut data = strings(&[0, 1], if thorough { 6 } else { 5 });
    data.extend([vec![255], vec![0, 255], vec![255, 0, 1], vec![255, 0, 1, 255, 0, 1], vec![1; 40], vec![1; 45], vec![0; 260]]);
    Matching { filters, data }
}

impl Cases for Matching {
    fn name(&self) -> String {
        "C11-matching".into()
    }
    fn len(&self) -> usize {
        self.filters.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.filters[i])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let f = &self.filters[i];
        let mut n = 0;
        // programs with and without compression are asked through the store as well
        let mut fs = SimpleFilterStore::default();
        fs.add_account_filter(&AccountFilter { accounts: vec![], program_id: Some(program_key(0)), filters: None });
        let stores: Vec<_> = {
            let fs = Arc::new(fs);
            METHODS.iter().map(|m| (m, InmemoryAccountStore::new(fs.clone()))).collect()
        };
        let key = |k: usize| {
            let mut b = [7u8; 32];
            b[..8].copy_from_slice(&(k as u64).to_le_bytes());
            solana_sdk::pubkey::Pubkey::new_from_array(b)
        };
        for (k, d) in self.data.iter().enumerate() {
            for (m, s) in &stores {
                let mut a = make(0, 0, d, (*m).clone());
                a.pubkey = key(k);
                s.update_account(a, Commitment::Finalized);
            }
        }
        for enc in 0..3 {
            let filter = real(f, enc);
            let rpc = AccountFilter { accounts: vec![], program_id: None, filters: Some(vec![filter.clone()]) }
                .get_rpc_filter()
                .ok_or("no rpc filter")?;
            if rpc.len() != 1 {
                return Err(format!("{} rpc filters", rpc.len()));
            }
            let back = AccountFilterType::from(&rpc[0]);
            for d in &self.data {
                let want = matches(f, d);
                n += 3;
                let got = filter.allows(d);
                if got != want {
                    return Err(format!("{filter:?} answers {got} for {d:?}"));
                }
                let got = back.allows(d);
                if got != want {
                    return Err(format!("{back:?} converted from {:?} answers {got} for {d:?}", rpc[0]));
                }
                let got = match &rpc[0] {
                    RpcFilterType::Memcmp(m) => m.bytes_match(d),
                    RpcFilterType::DataSize(s) => *s == d.len() as u64,
                    x => return Err(format!("converted to {x:?}")),
                };
                if got != want {
                    return Err(format!("{:?} converted from {filter:?} answers {got} for {d:?}", rpc[0]));
                }
            }
            for (m, s) in &stores {
                let got: BTreeSet<_> = s
                    .get_program_accounts(program_key(0), Some(vec![filter.clone()]), Commitment::Finalized)
                    .map_err(|e| format!("{e:?}"))?
                    .into_iter()
                    .map(|a| (a.pubkey, a.account.data.data()))
                    .collect();
                let want: BTreeSet<_> = self
                    .data
                    .iter()
                    .enumerate()
                    .filter(|(_, d)| matches(f, d))
                    .map(|(k, d)| (key(k), d.clone()))
                    .collect();
                n += self.data.len() as u64;
                if got != want {
                    let x = got.symmetric_difference(&want).next();
                    return Err(format!("query with {filter:?} on accounts compressed by {m:?} is wrong for the account with data {:?}", x.map(|x| &x.1)));
                }
            }
            // filters of rpc calls
            for d in self.data.iter().step_by(5) {
                for m in &METHODS {
                    n += 1;
                    let got = make(0, 0, d, m.clone()).allows(&rpc[0]);
                    if got != matches(f, d) {
                        return Err(format!("account with data {d:?} compressed by {m:?} is allowed by {:?}: {got}", rpc[0]));
                    }
                }
            }
        }
        Ok(n)
    }
}

/// filters of rpc requests, including the ones which cannot be decoded
struct RpcFilters {
    filters: Vec<RpcFilterType>,
}
fn rpc_filters() -> RpcFilters {
    let mut filters = vec![];
    for text in ["", "1", "11", "2", "0", "O", "l", "é", "z", "zzzz", "AQ==", "AQ", "AQ=", "!!!!", "AQI=", "AQID", " ", "\u{0}", "////", "____"] {
        for o in [0usize, 1, 2, usize::MAX] {
            filters.push(RpcFilterType::Memcmp(Memcmp::new(o, MemcmpEncodedBytes::Base58(text.into()))));
            filters.push(RpcFilterType::Memcmp(Memcmp::new(o, MemcmpEncodedBytes::Base64(text.into()))));
            filters.push(RpcFilterType::Memcmp(Memcmp::new_raw_bytes(o, text.as_bytes().to_vec())));
            filters.push(RpcFilterType::Memcmp(Memcmp::new_base58_encoded(o, text.as_bytes())));
        }
    }
    for s in [0, 1, 3, u64::MAX] {
        filters.push(RpcFilterType::DataSize(s));
    }
    RpcFilters { filters }
}
impl Cases for RpcFilters {
    fn name(&self) -> String {
        "C11-rpc".into()
    }
    fn len(&self) -> usize {
        self.filters.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.filters[i])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let rpc = &self.filters[i];
        let f = AccountFilterType::from(rpc);
        let mut data = strings(&[0, 1, b'1', b'A'], 3);
        data.push(vec![1, 2, 3]);
        data.push("é".as_bytes().to_vec());
        data.push(vec![0xff; 5]);
        for d in &data {
            // the rpc client library decides
            let want = match rpc {
                RpcFilterType::DataSize(s) => *s == d.len() as u64,
                RpcFilterType::Memcmp(m) => m.bytes_match(d),
                _ => false,
            };
            let got = f.allows(d);
            if got != want {
                return Err(format!("converted filter {f:?} answers {got} instead of {want} for {d:?}"));
            }
            let got = make(0, 0, d, CompressionMethod::Lz4(1)).allows(rpc);
            if got != want {
                return Err(format!("account with data {d:?} is allowed: {got} instead of {want}"));
            }
        }
        Ok(data.len() as u64 * 2)
    }
}

/// a filter on the state of token accounts has no equivalent
struct RpcTokenState;
impl Cases for RpcTokenState {
    fn name(&self) -> String {
        "C11-token-account-state".into()
    }
    fn len(&self) -> usize {
        1
    }
    fn describe(&self, _: usize) -> String {
        "AccountFilterType::from(&RpcFilterType::TokenAccountState)".into()
    }
    fn check(&self, _: usize) -> Result<u64, String> {
        let _ = AccountFilterType::from(&RpcFilterType::TokenAccountState);
        Ok(1)
    }
}

/// filters with text which cannot be decoded do not match anything and do not panic
struct Undecodable {
    texts: Vec<String>,
}
impl Cases for Undecodable {
    fn name(&self) -> String {
        "C11-undecodable".into()
    }
    fn len(&self) -> usize {
        self.texts.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.texts[i])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let t = &self.texts[i];
        let b58 = bs58::decode(t).into_vec().ok();
        let b64 = base64::engine::general_purpose::STANDARD.decode(t).ok();
        let mut n = 0;
        for (data, bytes) in [(MemcmpFilterData::Base58(t.clone()), b58), (MemcmpFilterData::Base64(t.clone()), b64)] {
            for o in [0, 1, u64::MAX] {
                let f = AccountFilterType::Memcmp(MemcmpFilter { offset: o, data: data.clone() });
                for d in strings(&[0, 1, 0x69], 3) {
                    let want = bytes.as_ref().map_or(false, |b| matches(&R::Mem(o, b.clone()), &d));
                    n += 1;
                    if f.allows(&d) != want {
                        return Err(format!("{f:?} answers {} for {d:?}", !want));
                    }
                }
                let entry = AccountFilter { accounts: vec![], program_id: Some(program_key(0)), filters: Some(vec![f.clone()]) };
                let mut s = SimpleFilterStore::default();
                s.add_account_filter(&entry);
                if !s.contains_filter(&entry) {
                    return Err(format!("{f:?} is not covered by itself"));
                }
                let mut e = ExceptFilterStore::default();
                e.add_account_filters(&vec![entry.clone()]);
                e.contains_filter(&entry);
                let data = bytes.clone().unwrap_or_else(|| vec![1, 2, 3]);
                let a = make(0, 0, &data, CompressionMethod::None);
                let want = o == 0 && bytes.is_some();
                let empty = o <= data.len() as u64 && bytes.as_ref().map_or(false, |b| b.is_empty());
                if s.satisfies(&a) != (want || empty) || e.satisfies(&a) == (want || empty) {
                    return Err(format!("store with {f:?} is wrong for {data:?}"));
                }
                n += 3;
            }
        }
        Ok(n)
    }
}
fn undecodable() -> Undecodable {
    let texts = strings(b"1z0=A/\xc3", 4)
        .into_iter()
        .map(|b| b.iter().map(|c| *c as char).collect())
        .collect();
    Undecodable { texts }
}

// -------------------------------------------------------------------------------------- JSON

fn filter_universe() -> Vec<AccountFilter> {
    let mut out = vec![];
    let mut lists: Vec<Option<Vec<AccountFilterType>>> = vec![None, Some(vec![])];
    let singles: Vec<AccountFilterType> = [
        R::Size(0),
        R::Size(165),
        R::Size(u64::MAX),
        R::Mem(0, vec![]),
        R::Mem(0, vec![0]),
        R::Mem(32, vec![1, 2, 255]),
        R::Mem(u64::MAX, vec![9; 40]),
    ]
    .iter()
    .flat_map(|f| {
        let n = if matches!(f, R::Size(_)) { 1 } else { 3 };
        (0..n).map(|e| real(f, e)).collect::<Vec<_>>()
    })
    .collect();
    for a in &singles {
        lists.push(Some(vec![a.clone()]));
        for b in &singles {
            lists.push(Some(vec![a.clone(), b.clone()]));
        }
    }
    for accounts in [vec![], vec![0u8], vec![2, 0, 2]] {
        for program in [None, Some(1), Some(3)] {
            for l in &lists {
                out.push(AccountFilter {
                    accounts: accounts.iter().map(|a| account_key(*a)).collect(),
                    program_id: program.map(program_key),
                    filters: l.clone(),
                });
            }
        }
    }
    out
}

struct Json {
    filters: Vec<AccountFilter>,
}
impl Cases for Json {
    fn name(&self) -> String {
        "C12-roundtrip".into()
    }
    fn len(&self) -> usize {
        self.filters.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.filters[i])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let f = &self.filters[i];
        let text = serde_json::to_string(f).map_err(|e| e.to_string())?;
        let back: AccountFilter = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
        if back != *f {
            return Err(format!("{text} is read back as {back:?}"));
        }
        let pretty = serde_json::to_string_pretty(&vec![f.clone(), back]).map_err(|e| e.to_string())?;
        let list: Vec<AccountFilter> = serde_json::from_str(&pretty).map_err(|e| format!("{pretty}: {e}"))?;
        if list.len() != 2 || list.iter().any(|x| x != f) {
            return Err(format!("{pretty} is read back as {list:?}"));
        }
        let value = serde_json::to_value(f).map_err(|e| e.to_string())?;
        let back: AccountFilter = serde_json::from_value(value).map_err(|e| e.to_string())?;
        if back != *f {
            return Err(format!("read back as {back:?}"));
        }
        match reference_parse(&serde_json::from_str(&text).unwrap()) {
            Parsed::Is(x) if x == *f => {}
            x => return Err(format!("{text} means {}", x.show())),
        }
        Ok(4)
    }
}

enum Parsed {
    Is(AccountFilter),
    Malformed(String),
    /// an explicit null may be refused or be like an absent value
    Unspecified,
}
impl Parsed {
    fn show(&self) -> String {
        match self {
            Parsed::Is(f) => format!("{f:?}"),
            Parsed::Malformed(e) => format!("malformed: {e}"),
            Parsed::Unspecified => "unspecified".into(),
        }
    }
}

/// independent reading of the documented format
fn reference_parse(v: &serde_json::Value) -> Parsed {
    use serde_json::Value;
    let Some(o) = v.as_object() else {
        return Parsed::Malformed("not an object".into());
    };
    let mut unspecified = false;
    let mut bad = None;
    let key = |v: &Value, bad: &mut Option<String>| -> solana_sdk::pubkey::Pubkey {
        let d = v.as_str().and_then(|s| bs58::decode(s).into_vec().ok()).filter(|b| b.len() == 32);
        match d {
            Some(b) => solana_sdk::pubkey::Pubkey::new_from_array(b.try_into().unwrap()),
            None => {
                *bad = Some(format!("{v} is not a public key"));
                Default::default()
            }
        }
    };
    let mut f = AccountFilter { accounts: vec![], program_id: None, filters: None };
    match o.get("accounts") {
        None => {}
        Some(Value::Null) => unspecified = true,
        Some(Value::Array(a)) => f.accounts = a.iter().map(|x| key(x, &mut bad)).collect(),
        Some(x) => bad = Some(format!("accounts {x}")),
    }
    match o.get("programId") {
        None => {}
        Some(Value::Null) => unspecified = true,
        Some(x) => f.program_id = Some(key(x, &mut bad)),
    }
    match o.get("filters") {
        None => {}
        Some(Value::Null) => unspecified = true,
        Some(Value::Array(a)) => {
            let mut l = vec![];
            for x in a {
                match reference_filter(x) {
                    Ok(f) => l.push(f),
                    Err(None) => unspecified = true,
                    Err(Some(e)) => bad = Some(e),
                }
            }
            f.filters = Some(l);
        }
        Some(x) => bad = Some(format!("filters {x}")),
    }
    match bad {
        Some(e) => Parsed::Malformed(e),
        None if unspecified => Parsed::Unspecified,
        None => Parsed::Is(f),
    }
}

fn reference_filter(v: &serde_json::Value) -> Result<AccountFilterType, Option<String>> {
    let bad = || Some(format!("filter {v}"));
    let o = v.as_object().ok_or_else(bad)?;
    if o.len() != 1 {
        return Err(bad());
    }
    if let Some(s) = o.get("datasize") {
        return s.as_u64().map(AccountFilterType::Datasize).ok_or_else(bad);
    }
    let m = o.get("memcmp").ok_or_else(bad)?;
    let Some(m) = m.as_object() else {
        // serde also reads a struct from a list of its fields
        return Err(if m.is_array() { None } else { bad() });
    };
    let offset = m.get("offset").and_then(|x| x.as_u64()).ok_or_else(bad)?;
    let d = m.get("data").and_then(|x| x.as_object()).ok_or_else(bad)?;
    if d.len() != 1 {
        return Err(bad());
    }
    let text = |k: &str| d.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
    let data = if let Some(b) = d.get("bytes") {
        let b = b.as_array().ok_or_else(bad)?;
        let b: Option<Vec<u8>> = b.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect();
        MemcmpFilterData::Bytes(b.ok_or_else(bad)?)
    } else if let Some(t) = text("base58") {
        bs58::decode(&t).into_vec().map_err(|_| bad())?;
        MemcmpFilterData::Base58(t)
    } else if let Some(t) = text("base64") {
        base64::engine::general_purpose::STANDARD.decode(&t).map_err(|_| bad())?;
        MemcmpFilterData::Base64(t)
    } else {
        return Err(bad());
    };
    Ok(AccountFilterType::Memcmp(MemcmpFilter { offset, data }))
}

/// configurations with one or two parts replaced, removed or renamed
struct Malformed {
    values: Vec<serde_json::Value>,
}

fn mutations(v: &serde_json::Value) -> Vec<serde_json::Value> {
    use serde_json::{json, Value};
    let replacements = vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(256),
        json!(18446744073709551615u64),
        json!(1e30),
        json!(""),
        json!("x"),
        json!("0OIl"),
        json!("AQ="),
        json!("11111111111111111111111111111111"),
        json!("1111111111111111111111111111111"),
        json!("z".repeat(45)),
        json!("\u{0}é"),
        json!([]),
        json!([null]),
        json!([1, 2]),
        json!(["x"]),
        json!([[]]),
        json!({}),
        json!({"bytes": [300]}),
        json!({"datasize": "3"}),
        json!({"memcmp": {}}),
        json!([{"datasize": 1}, 2]),
    ];
    let mut out = replacements;
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                for m in mutations(x) {
                    let mut n = o.clone();
                    n.insert(k.clone(), m);
                    out.push(Value::Object(n));
                }
                let mut n = o.clone();
                n.remove(k);
                out.push(Value::Object(n.clone()));
                for k2 in [k.to_uppercase(), format!("{k}s"), String::new()] {
                    let mut m = n.clone();
                    m.insert(k2, x.clone());
                    out.push(Value::Object(m));
                }
                let mut n = o.clone();
                n.insert("base58".into(), json!("2"));
                out.push(Value::Object(n));
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                for m in mutations(&a[i]) {
                    let mut n = a.clone();
                    n[i] = m;
                    out.push(Value::Array(n));
                }
                let mut n = a.clone();
                n.remove(i);
                out.push(Value::Array(n.clone()));
                let mut n = a.clone();
                n.push(Value::Null);
                out.push(Value::Array(n));
            }
        }
        _ => {}
    }
    out
}

fn malformed(thorough: bool) -> Malformed {
    let k = account_key(0);
    let e = |filters: Vec<R>| Entry { accounts: vec![0, 1], program: Some(1), filters: Some(filters) };
    let mut values = vec![];
    for enc in 0..3 {
        let x = serde_json::to_value(e(vec![R::Size(3), R::Mem(2, k.to_bytes()[..2].to_vec())]).real(enc)).unwrap();
        let m = mutations(&x);
        if thorough {
            for y in &m {
                values.extend(mutations(y));
            }
        }
        values.extend(m);
    }
    Malformed { values }
}

impl Cases for Malformed {
    fn name(&self) -> String {
        "C12-malformed".into()
    }
    fn len(&self) -> usize {
        self.values.len()
    }
    fn describe(&self, i: usize) -> String {
        self.values[i].to_string()
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let v = &self.values[i];
        let want = reference_parse(v);
        let text = v.to_string();
        for (how, got) in [
            ("text", serde_json::from_str::<AccountFilter>(&text).map_err(|e| e.to_string())),
            ("value", serde_json::from_value::<AccountFilter>(v.clone()).map_err(|e| e.to_string())),
        ] {
            match (&want, got) {
                (Parsed::Malformed(e), Ok(f)) => return Err(format!("malformed ({e}) but read from {how} as {f:?}")),
                (Parsed::Is(f), Err(e)) => return Err(format!("{f:?} is refused: {e}")),
                (Parsed::Is(f), Ok(x)) if x != *f => return Err(format!("read from {how} as {x:?} instead of {f:?}")),
                _ => {}
            }
        }
        Ok(2)
    }
}

/// text which ends too early
struct Cut {
    texts: Vec<String>,
}
impl Cases for Cut {
    fn name(&self) -> String {
        "C12-cut".into()
    }
    fn len(&self) -> usize {
        self.texts.len()
    }
    fn describe(&self, i: usize) -> String {
        self.texts[i].clone()
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let t = &self.texts[i];
        let mut n = 0;
        for len in 0..t.len() {
            if !t.is_char_boundary(len) {
                continue;
            }
            n += 1;
            if let Ok(f) = serde_json::from_str::<Vec<AccountFilter>>(&t[..len]) {
                return Err(format!("first {len} bytes are read as {f:?}"));
            }
        }
        Ok(n)
    }
}

// ------------------------------------------------------------------------------------- content

struct Content {
    name: &'static str,
    methods: Vec<CompressionMethod>,
    data: Vec<Vec<u8>>,
}
fn content(thorough: bool) -> Content {
    let mut methods = vec![CompressionMethod::None];
    let levels: Vec<i32> = if thorough { (-10..=25).collect() } else { vec![-5, -1, 0, 1, 3, 9, 12, 19, 22] };
    for l in levels.into_iter().chain([i32::MIN, i32::MAX]) {
        methods.push(CompressionMethod::Lz4(l));
        if l < 20 || l > 22 || thorough {
            methods.push(CompressionMethod::Zstd(l));
        }
    }
    let mut sizes: Vec<usize> = (0..=70).chain([82, 127, 128, 129, 165, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    if thorough {
        sizes.extend([131_071, 131_072, 131_073]);
    }
    let mut data = contents(&sizes);
    data.extend(strings(&[0, 255], 4));
    // things which look like a compressed frame
    data.push(vec![0x28, 0xb5, 0x2f, 0xfd, 0, 0, 0, 0]);
    data.push(vec![4, 0, 0, 0, 0xff, 0xff]);
    Content { name: "C13-content", methods, data }
}
/// up to the largest account there can be (10 MiB)
fn large_content(thorough: bool) -> Content {
    let mut methods = vec![CompressionMethod::None, CompressionMethod::Lz4(1), CompressionMethod::Zstd(1)];
    if thorough {
        for l in [-5, 0, 3, 8, 12] {
            methods.push(CompressionMethod::Lz4(l));
            methods.push(CompressionMethod::Zstd(l));
        }
    }
    let mut sizes = vec![1 << 20, 10 * 1024 * 1024];
    if thorough {
        sizes.extend([(1 << 20) - 1, (1 << 20) + 1, 1 << 21, (1 << 22) + 1, 8 * 1024 * 1024, 10 * 1024 * 1024 - 1]);
    }
    Content { name: "C13-large", methods, data: contents(&sizes) }
}
fn contents(sizes: &[usize]) -> Vec<Vec<u8>> {
    let mut data = vec![];
    for &s in sizes {
        data.push(vec![0; s]);
        data.push((0..s).map(|i| (i % 7) as u8).collect());
        let mut x = 0x1234_5678_9abc_def1u64 ^ s as u64;
        data.push(
            (0..s)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect(),
        );
    }
    data
}
impl Cases for Content {
    fn name(&self) -> String {
        self.name.into()
    }
    fn len(&self) -> usize {
        self.methods.len() * self.data.len()
    }
    fn describe(&self, i: usize) -> String {
        let d = &self.data[i / self.methods.len()];
        format!("{:?}, {} bytes {:?}..", self.methods[i % self.methods.len()], d.len(), &d[..d.len().min(8)])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let m = &self.methods[i % self.methods.len()];
        let d = &self.data[i / self.methods.len()];
        let same = |what: &str, x: &Data| -> Result<(), String> {
            if x.len() != d.len() || x.is_empty() != d.is_empty() {
                return Err(format!("{what}: length {} (empty: {}) instead of {}", x.len(), x.is_empty(), d.len()));
            }
            let got = x.data();
            if got != *d {
                return Err(format!("{what}: {} bytes {:?}..", got.len(), &got[..got.len().min(16)]));
            }
            Ok(())
        };
        let x = Data::new(d, m.clone());
        same("compressed", &x)?;
        let big = d.len() > 200_000;
        let ok = bincode::serialize(&x).map_err(|e| e.to_string())?;
        same("serialised", &bincode::deserialize(&ok).map_err(|e| e.to_string())?)?;
        for k in 0..if big { 1 } else { 3u64 } {
            let sol = solana_sdk::account::Account {
                lamports: [0, 1, u64::MAX][k as usize],
                data: d.clone(),
                owner: program_key(k as u8),
                executable: k == 1,
                rent_epoch: [u64::MAX, 0, 361][k as usize],
            };
            let acc = Account::from_solana_account(sol.clone(), m.clone());
            same("account", &acc.data)?;
            if acc.to_solana_account() != sol {
                return Err(format!("account is converted back to {:?}", acc.to_solana_account()));
            }
            let ad = AccountData { pubkey: account_key(1), account: Arc::new(acc), updated_slot: u64::MAX - k, write_version: k };
            let mut copies: Vec<AccountData> = vec![];
            let b = bincode::serialize(&ad).map_err(|e| e.to_string())?;
            copies.push(bincode::deserialize(&b).map_err(|e| e.to_string())?);
            if !big {
                let j = serde_json::to_string(&ad).map_err(|e| e.to_string())?;
                copies.push(serde_json::from_str(&j).map_err(|e| e.to_string())?);
            }
            for c in copies {
                if seen(&c) != seen(&ad) || c != ad || c.account.to_solana_account() != sol {
                    return Err(format!("account is read back as {}", seen(&c).show()));
                }
            }
        }
        Ok(10)
    }
}

fn all(property: &str, thorough: bool) -> Vec<Box<dyn Cases>> {
    match property {
        "C09" => vec![Box::new(configs("C09-configs", if thorough { 3 } else { 2 }, false))],
        "C10" => vec![Box::new(configs("C10-configs", if thorough { 3 } else { 2 }, true))],
        "C11" => vec![
            Box::new(matching(thorough)),
            Box::new(rpc_filters()),
            Box::new(undecodable()),
            Box::new(RpcTokenState),
        ],
        "C12" => vec![
            Box::new(Json { filters: filter_universe() }),
            Box::new(malformed(thorough)),
            Box::new(Cut {
                texts: filter_universe()
                    .chunks(if thorough { 3 } else { 20 })
                    .map(|c| serde_json::to_string(&c.to_vec()).unwrap())
                    .collect(),
            }),
        ],
        "C13" => vec![Box::new(content(thorough)), Box::new(large_content(thorough))],
        _ => vec![],
    }
}

pub fn run(property: &str, report: &Report) {
    for c in all(property, report.thorough) {
        cases::explore(&*c, report);
    }
}

pub fn replay(property: &str, thorough: bool, name: &str, i: usize) -> Option<Vec<String>> {
    all(property, thorough)
        .iter()
        .find(|c| c.name() == name && i < c.len())
        .map(|c| cases::replay(&**c, i))
}
