//! Large configurations and stores: things which only go wrong beyond some number of elements.
use crate::cases::{self, Cases};
use crate::main_model::{FilterEntry, Filters};
use crate::main_seq::new_store;
use crate::report::Report;
use crate::token_model::*;
use crate::util::*;
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::except_filter_store::ExceptFilterStore;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::time::Duration;

/// key number i of a kind, no two are equal
fn key(kind: u8, i: usize) -> Pubkey {
    let mut k = [kind; 32];
    let x = (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    k[..8].copy_from_slice(&x.to_le_bytes());
    k[16..24].copy_from_slice(&(i as u64).to_be_bytes());
    Pubkey::new_from_array(k)
}
fn account(pubkey: Pubkey, owner: Pubkey, slot: u64, lamports: u64, data: Vec<u8>) -> AccountData {
    let s = Seen { pubkey, slot, wv: 1, owner, lamports, data, executable: false, rent_epoch: u64::MAX };
    account_data(&s, CompressionMethod::None)
}
fn mem(offset: usize, b: &[u8], encoding: usize) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter {
        offset: offset as u64,
        data: match encoding % 2 {
            0 => MemcmpFilterData::Bytes(b.to_vec()),
            _ => MemcmpFilterData::Base58(bs58::encode(b).into_string()),
        },
    })
}

// --------------------------------------------------------------------------------------- filters

const SHAPES: [&str; 6] = [
    "entries of one program, each with its own byte",
    "conditions in one entry",
    "addresses in one entry",
    "entries of one address",
    "entries of one program each",
    "entries of one program, each with its own size",
];
pub struct ManyFilters {
    name: &'static str,
    coverage: bool,
    sizes: Vec<usize>,
}
impl ManyFilters {
    pub fn new(name: &'static str, coverage: bool, thorough: bool) -> Self {
        let mut sizes: Vec<usize> = (2..=40).collect();
        sizes.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 700]);
        if thorough {
            sizes.extend(41..300);
            sizes.extend([1023, 1024, 1025, 2000]);
            sizes.sort();
            sizes.dedup();
        }
        ManyFilters { name, coverage, sizes }
    }
    fn program() -> Pubkey {
        key(1, 7)
    }
    /// registered filters; accounts with the expected answer; queries with a flag if they have to be covered
    #[allow(clippy::type_complexity)]
    fn build(&self, shape: usize, n: usize) -> (Vec<AccountFilter>, Vec<(AccountData, bool)>, Vec<(AccountFilter, bool)>) {
        let p = Self::program();
        let f = |accounts: Vec<Pubkey>, program_id: Option<Pubkey>, filters: Option<Vec<AccountFilterType>>| AccountFilter {
            accounts,
            program_id,
            filters,
        };
        let only = |i: usize| {
            let mut d = vec![0; n + 1];
            d[i] = 1;
            d
        };
        let (mut reg, mut acc, mut q) = (vec![], vec![], vec![]);
        let other = |data: Vec<u8>| account(key(2, 999), p, 1, 5, data);
        match shape {
            0 => {
                for i in 0..n {
                    reg.push(f(vec![], Some(p), Some(vec![mem(i, &[1], i)])));
                    acc.push((account(key(2, i), p, 1, 5, only(i)), true));
                    q.push((f(vec![], Some(p), Some(vec![mem(i, &[1], i / 2)])), true));
                    q.push((f(vec![], Some(p), Some(vec![AccountFilterType::Datasize(5), mem(i, &[1], 0)])), true));
                }
                acc.push((other(only(n)), false));
                acc.push((other(vec![2; n]), false));
                q.push((f(vec![], Some(p), Some(vec![mem(n, &[1], 0)])), false));
                q.push((f(vec![], Some(p), None), false));
            }
            1 => {
                let all: Vec<_> = (0..n).map(|i| mem(i, &[1], i)).collect();
                reg.push(f(vec![], Some(p), Some(all.clone())));
                acc.push((other(vec![1; n]), true));
                acc.push((other(vec![1; n - 1]), false));
                for i in 0..n {
                    let mut d = vec![1; n];
                    d[i] = 0;
                    acc.push((account(key(2, i), p, 1, 5, d), false));
                    // rotated, and with one condition missing
                    let mut r = all.clone();
                    r.rotate_left(i);
                    if n < 300 || i % 50 == 0 {
                        q.push((f(vec![], Some(p), Some(r.clone())), true));
                        r.remove(0);
                        q.push((f(vec![], Some(p), Some(r)), false));
                    }
                }
            }
            2 | 3 => {
                let keys: Vec<_> = (0..n).map(|i| key(2, i)).collect();
                if shape == 2 {
                    reg.push(f(keys.clone(), None, None));
                } else {
                    reg.extend(keys.iter().map(|k| f(vec![*k], None, None)));
                }
                for k in &keys {
                    acc.push((account(*k, p, 1, 5, vec![]), true));
                    q.push((f(vec![*k], None, None), true));
                }
                acc.push((account(key(2, n), p, 1, 5, vec![]), false));
                q.push((f(keys.clone(), None, None), true));
                q.push((f(vec![key(2, n)], None, None), false));
                let mut more = keys;
                more.push(key(2, n));
                q.push((f(more, None, None), false));
            }
            4 => {
                for i in 0..n {
                    let filters = (i % 2 == 0).then(|| vec![mem(i, &[1], i)]);
                    reg.push(f(vec![], Some(key(3, i)), filters.clone()));
                    acc.push((account(key(2, i), key(3, i), 1, 5, only(i)), true));
                    acc.push((account(key(2, i), key(3, i), 1, 5, only(n)), filters.is_none()));
                    q.push((f(vec![], Some(key(3, i)), filters), true));
                    q.push((f(vec![], Some(key(3, i)), None), i % 2 == 1));
                }
                acc.push((account(key(2, 0), key(3, n), 1, 5, only(0)), false));
                q.push((f(vec![], Some(key(3, n)), None), false));
            }
            _ => {
                for i in 0..n {
                    reg.push(f(vec![], Some(p), Some(vec![AccountFilterType::Datasize(i as u64)])));
                    acc.push((account(key(2, i), p, 1, 5, vec![1; i]), true));
                    q.push((f(vec![], Some(p), Some(vec![mem(0, &[1], 1), AccountFilterType::Datasize(i as u64)])), true));
                }
                acc.push((other(vec![1; n]), false));
                q.push((f(vec![], Some(p), Some(vec![AccountFilterType::Datasize(n as u64)])), false));
            }
        }
        (reg, acc, q)
    }
}
impl Cases for ManyFilters {
    fn name(&self) -> String {
        self.name.into()
    }
    fn len(&self) -> usize {
        SHAPES.len() * self.sizes.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{} {}", self.sizes[i / SHAPES.len()], SHAPES[i % SHAPES.len()])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let (reg, acc, queries) = self.build(i % SHAPES.len(), self.sizes[i / SHAPES.len()]);
        let mut at_once = SimpleFilterStore::default();
        at_once.add_account_filters(&reg);
        let mutable = MutableFilterStore::default();
        for f in reg.iter().rev() {
            mutable.add_account_filters(&vec![f.clone()]);
        }
        let mut except = ExceptFilterStore::default();
        except.add_account_filters(&reg);
        let stores: [(&str, &dyn AccountFiltersStoreInterface); 3] =
            [("simple", &at_once), ("mutable, reversed", &mutable), ("except", &except)];
        let mut n = 0;
        for (name, s) in stores {
            if !self.coverage {
                for (k, (a, want)) in acc.iter().enumerate() {
                    let got = s.satisfies(a);
                    n += 1;
                    if got == (*want == (name == "except")) {
                        return Err(format!("store {name} answers {got} for account number {k} of {}", acc.len()));
                    }
                }
            } else if name != "except" {
                for (k, (q, want)) in queries.iter().enumerate() {
                    n += 1;
                    if s.contains_filter(q) != *want {
                        return Err(format!("store {name} answers {} for query number {k} of {}: {q:?}", !want, queries.len()));
                    }
                }
            } else {
                for (k, (q, _)) in queries.iter().enumerate() {
                    // what it covers has no excepted account, addresses and programs are independent
                    n += 1;
                    let hit = |a: &AccountData| {
                        q.accounts.contains(&a.pubkey)
                            || q.program_id == Some(a.account.owner)
                                && q.filters.iter().flatten().all(|f| f.allows(&a.account.data.data()))
                    };
                    if s.contains_filter(q) && acc.iter().any(|(a, excepted)| *excepted && hit(a)) {
                        return Err(format!("store {name} covers query number {k} of {}: {q:?}", queries.len()));
                    }
                }
            }
        }
        Ok(n)
    }
}

// --------------------------------------------------------------------------------- account store

fn note(s: &dyn AccountStorageInterface, slot: u64, parent: u64, c: usize) -> Vec<AccountData> {
    s.process_slot_data(SlotInfo { slot, parent, root: 0 }, COMMITMENTS[c])
}
fn same_keys(what: &str, got: &[AccountData], want: BTreeSet<Pubkey>) -> Result<(), String> {
    let keys: BTreeSet<Pubkey> = got.iter().map(|a| a.pubkey).collect();
    if keys.len() != got.len() {
        return Err(format!("{what}: {} accounts are there twice", got.len() - keys.len()));
    }
    if let Some(k) = want.difference(&keys).next() {
        return Err(format!("{what}: {} accounts instead of {}, for example {k} is missing", got.len(), want.len()));
    }
    if let Some(k) = keys.difference(&want).next() {
        return Err(format!("{what}: {} accounts instead of {}, for example {k} should not be there", got.len(), want.len()));
    }
    Ok(())
}

/// many accounts in one slot, or one account with many slots
pub struct ManyAccounts {
    property: String,
    sizes: Vec<usize>,
}
impl ManyAccounts {
    pub fn new(property: &str, thorough: bool) -> Self {
        let mut sizes = vec![257, 1_000, 66_000];
        if thorough {
            sizes.extend([4_097, 10_000, 32_769, 132_000]);
        }
        ManyAccounts { property: property.into(), sizes }
    }
    fn crowd(&self, n: usize) -> Result<u64, String> {
        let p = [program_key(0), program_key(1)];
        let s = new_store(&Filters::programs(&[0, 1]));
        let at = |i: usize, k: usize, slot: u64| account(key(2, i), p[k], slot, 1 + i as u64, (i as u32 + k as u32).to_le_bytes().to_vec());
        for i in 0..n {
            s.update_account(at(i, 0, 1), COMMITMENTS[0]);
        }
        let all: BTreeSet<Pubkey> = (0..n).map(|i| key(2, i)).collect();
        same_keys("slot 1 confirmed", &note(&s, 1, 0, 1), all.clone())?;
        same_keys("slot 1 finalized", &note(&s, 1, 0, 2), all.clone())?;
        // each third moves, each fifth is deleted
        let owner = |i: usize| if i % 15 == 0 || i % 3 != 0 && i % 5 == 0 { 2 } else { (i % 3 == 0) as usize };
        for i in 0..n {
            if owner(i) == 1 {
                s.update_account(at(i, 1, 2), COMMITMENTS[0]);
            } else if owner(i) == 2 {
                s.update_account(account(key(2, i), Pubkey::default(), 2, 0, vec![]), COMMITMENTS[0]);
            }
        }
        let of = |o: usize| -> BTreeSet<Pubkey> { (0..n).filter(|i| owner(*i) == o).map(|i| key(2, i)).collect() };
        let query = |s: &dyn AccountStorageInterface, k: usize, c: usize| s.get_program_accounts(p[k], None, COMMITMENTS[c]).map_err(|e| format!("{e:?}"));
        let before = |s: &dyn AccountStorageInterface, c: usize| -> Result<(), String> {
            same_keys("query of the first program before", &query(s, 0, c)?, all.clone())?;
            same_keys("query of the second program before", &query(s, 1, c)?, BTreeSet::new())
        };
        let after = |s: &dyn AccountStorageInterface, c: usize| -> Result<(), String> {
            same_keys("query of the first program after", &query(s, 0, c)?, of(0))?;
            same_keys("query of the second program after", &query(s, 1, c)?, of(1))
        };
        after(&s, 0)?;
        before(&s, 1)?;
        before(&s, 2)?;
        let moved: BTreeSet<Pubkey> = of(1).union(&of(2)).copied().collect();
        let report: BTreeSet<Pubkey> = note(&s, 2, 1, 1).iter().map(|a| a.pubkey).collect();
        if !of(1).is_subset(&report) || !report.is_subset(&moved) {
            return Err(format!("slot 2 confirmed reports {} accounts instead of {}", report.len(), moved.len()));
        }
        after(&s, 1)?;
        before(&s, 2)?;
        note(&s, 2, 1, 2);
        for c in 0..3 {
            after(&s, c)?;
        }
        for i in 0..n {
            for c in 0..3 {
                let got = s.get_account(key(2, i), COMMITMENTS[c]).map_err(|e| format!("{e:?}"))?.map(|a| seen(&a));
                let want = match owner(i) {
                    2 => None,
                    k => Some(seen(&at(i, k, 1 + k as u64))),
                };
                if got != want {
                    return Err(format!("account {i} at {} is {} instead of {}", cname(c as u8), show_opt(&got), show_opt(&want)));
                }
            }
        }
        let fresh = new_store(&Filters::programs(&[0, 1]));
        for k in 0..2 {
            let snap = s.create_snapshot(p[k]).map_err(|e| format!("{e:?}"))?;
            fresh.load_from_snapshot(p[k], snap).map_err(|e| format!("{e:?}"))?;
        }
        for c in 0..3 {
            after(&fresh, c)?;
        }
        Ok(6 * n as u64)
    }
    /// slots 1..=n, each with a write of account 0; account 1 is written in slot 1 and deleted in the middle
    fn chain(&self, n: usize) -> Result<u64, String> {
        let s = new_store(&Filters { entries: vec![FilterEntry { accounts: vec![], program: Some(0), filters: vec![] }], inverted: false });
        let p = program_key(0);
        let at = |a: usize, slot: usize| account(key(2, a), p, slot as u64, 5, (slot as u64).to_le_bytes().to_vec());
        for i in 1..=n {
            s.update_account(at(0, i), COMMITMENTS[0]);
            if i == 1 {
                s.update_account(at(1, i), COMMITMENTS[0]);
                s.update_account(at(2, i), COMMITMENTS[0]);
            }
            if i == n / 2 {
                s.update_account(account(key(2, 1), Pubkey::default(), i as u64, 0, vec![]), COMMITMENTS[0]);
            }
            note(&s, i as u64, i as u64 - 1, 0);
        }
        let check = |a: usize, c: usize, want: Option<usize>| -> Result<(), String> {
            let got = s.get_account(key(2, a), COMMITMENTS[c]).map_err(|e| format!("{e:?}"))?.map(|a| seen(&a));
            let want = want.map(|w| seen(&at(a, w)));
            if got != want {
                return Err(format!("account {a} at {} is {} instead of {}", cname(c as u8), show_opt(&got), show_opt(&want)));
            }
            Ok(())
        };
        check(0, 0, Some(n))?;
        check(0, 1, None)?;
        let keys = |l: &[usize]| l.iter().map(|a| key(2, *a)).collect::<BTreeSet<_>>();
        // the ancestors are promoted too
        same_keys("slot n / 3 confirmed", &note(&s, n as u64 / 3, n as u64 / 3 - 1, 1), keys(&[0, 1, 2]))?;
        check(0, 1, Some(n / 3))?;
        check(1, 1, Some(1))?;
        let mut report = note(&s, n as u64 - 1, n as u64 - 2, 2);
        report.retain(|a| a.pubkey != key(2, 1));
        same_keys("slot n - 1 finalized", &report, keys(&[0, 2]))?;
        for c in 0..3 {
            check(0, c, Some(if c == 0 { n } else { n - 1 }))?;
            check(1, c, None)?;
            check(2, c, Some(1))?;
        }
        same_keys("slot n finalized", &note(&s, n as u64, n as u64 - 1, 2), keys(&[0]))?;
        same_keys("slot n finalized again", &note(&s, n as u64, n as u64 - 1, 2), keys(&[]))?;
        for c in 0..3 {
            check(0, c, Some(n))?;
        }
        Ok(20)
    }
}
impl Cases for ManyAccounts {
    fn name(&self) -> String {
        format!("{}-many", self.property)
    }
    fn len(&self) -> usize {
        2 * self.sizes.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{} {}", self.sizes[i / 2], ["accounts in one slot", "slots"][i % 2])
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(120)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let n = self.sizes[i / 2];
        if i % 2 == 0 {
            self.crowd(n)
        } else {
            self.chain(n)
        }
    }
}

// ----------------------------------------------------------------------------------- token store

/// many mints with one account and one owner each, one owner or one mint with many accounts
pub struct ManyTokens {
    property: String,
    sizes: Vec<usize>,
}
const TOKEN_SHAPES: [&str; 4] = [
    "mints, owners and accounts",
    "accounts of one owner and one mint",
    "mints, owners and accounts which are finalized together",
    "slots",
];
impl ManyTokens {
    pub fn new(property: &str, thorough: bool) -> Self {
        let mut sizes = vec![257, 1_000, 66_000];
        if thorough {
            sizes.extend([4_097, 10_000, 32_769, 132_000]);
        }
        ManyTokens { property: property.into(), sizes }
    }
    fn mint(i: usize) -> AccountData {
        let m = MintParts { authority: None, supply: i as u64, decimals: (i % 7) as u8, initialized: true, freeze: None, ext: vec![] };
        account(key(4, i), token_program(0), 1, 1_461_600, mint_bytes(&m))
    }
    fn token(i: usize, mint: usize, owner: usize, slot: u64, amount: u64) -> AccountData {
        let t = TokenParts {
            mint: key(4, mint),
            owner: key(5, owner),
            amount,
            delegate: None,
            state: 1,
            native: None,
            close: None,
            ext: vec![],
        };
        account(key(6, i), token_program(0), slot, 2_039_280, token_bytes(&t))
    }
    fn read(s: &dyn AccountStorageInterface, want: &AccountData, c: usize) -> Result<(), String> {
        let got = s.get_account(want.pubkey, COMMITMENTS[c]).map_err(|e| format!("{e:?}"))?;
        match got {
            Some(g) if g.account.data.data() == want.account.data.data() && g.account.owner == want.account.owner => Ok(()),
            g => Err(format!(
                "{} at {} is {} instead of {}",
                want.pubkey,
                cname(c as u8),
                show_opt(&g.map(|g| seen(&g))),
                seen(want).show()
            )),
        }
    }
    fn query(s: &dyn AccountStorageInterface, what: &str, offset: usize, k: Pubkey, want: BTreeSet<Pubkey>, c: usize) -> Result<(), String> {
        let f = vec![AccountFilterType::Datasize(165), mem(offset, k.as_ref(), 0)];
        let got = s.get_program_accounts(token_program(0), Some(f), COMMITMENTS[c]).map_err(|e| format!("{e:?}"))?;
        same_keys(&format!("query by {what} {k} at {}", cname(c as u8)), &got, want)
    }
    fn separate(&self, n: usize, together: bool) -> Result<u64, String> {
        let s = new_token_store();
        for i in 0..n {
            s.update_account(Self::mint(i), COMMITMENTS[if together { 0 } else { 2 }]);
            s.update_account(Self::token(i, i, i, 1, i as u64), COMMITMENTS[if together { 0 } else { 2 }]);
        }
        if together {
            let all = (0..n).flat_map(|i| [key(4, i), key(6, i)]).collect();
            same_keys("slot 1 finalized", &note(&s, 1, 0, 2), all)?;
        }
        let one = |k: Pubkey| BTreeSet::from([k]);
        let check = |s: &dyn AccountStorageInterface| -> Result<(), String> {
            for i in 0..n {
                Self::read(s, &Self::mint(i), 2)?;
                Self::read(s, &Self::token(i, i, i, 1, i as u64), 2)?;
                Self::query(s, "owner", 32, key(5, i), one(key(6, i)), 2)?;
                Self::query(s, "mint", 0, key(4, i), one(key(6, i)), 2)?;
            }
            Ok(())
        };
        check(&s)?;
        let snap = s.create_snapshot(token_program(0)).map_err(|e| format!("{e:?}"))?;
        let other = new_token_store();
        for i in (n..n + 3).chain([n / 2]) {
            other.update_account(Self::mint(i), COMMITMENTS[2]);
        }
        other.update_account(Self::token(n, n, n, 1, 3), COMMITMENTS[2]);
        other.load_from_snapshot(token_program(0), snap).map_err(|e| format!("{e:?}"))?;
        check(&other)?;
        Self::read(&other, &Self::token(n, n, n, 1, 3), 2)?;
        Self::query(&other, "mint", 0, key(4, n), one(key(6, n)), 2)?;
        Ok(8 * n as u64)
    }
    fn one_owner(&self, n: usize) -> Result<u64, String> {
        let s = new_token_store();
        s.update_account(Self::mint(0), COMMITMENTS[2]);
        s.update_account(Self::mint(1), COMMITMENTS[2]);
        for i in 0..n {
            s.update_account(Self::token(i, 0, 0, 1, i as u64), COMMITMENTS[2]);
        }
        let all: BTreeSet<Pubkey> = (0..n).map(|i| key(6, i)).collect();
        Self::query(&s, "owner", 32, key(5, 0), all.clone(), 2)?;
        Self::query(&s, "mint", 0, key(4, 0), all.clone(), 0)?;
        // some move to another owner, some are closed
        let mut keep = all.clone();
        let mut moved = BTreeSet::new();
        for i in (0..n).filter(|i| i % 3 == 0 || i % 7 == 0) {
            keep.remove(&key(6, i));
            let w = if i % 3 == 0 {
                moved.insert(key(6, i));
                Self::token(i, 0, 1, 2, i as u64)
            } else {
                account(key(6, i), token_program(0), 2, 0, vec![])
            };
            s.update_account(w, COMMITMENTS[0]);
        }
        let alive: BTreeSet<Pubkey> = keep.union(&moved).copied().collect();
        let after = |s: &dyn AccountStorageInterface, c: usize| -> Result<(), String> {
            Self::query(s, "owner", 32, key(5, 0), keep.clone(), c)?;
            Self::query(s, "owner", 32, key(5, 1), moved.clone(), c)?;
            Self::query(s, "mint", 0, key(4, 0), alive.clone(), c)
        };
        after(&s, 0)?;
        Self::query(&s, "owner", 32, key(5, 0), all.clone(), 1)?;
        Self::query(&s, "owner", 32, key(5, 0), all, 2)?;
        note(&s, 2, 1, 1);
        after(&s, 1)?;
        note(&s, 2, 1, 2);
        after(&s, 2)?;
        let snap = s.create_snapshot(token_program(0)).map_err(|e| format!("{e:?}"))?;
        let other = new_token_store();
        other.load_from_snapshot(token_program(0), snap).map_err(|e| format!("{e:?}"))?;
        after(&other, 2)?;
        after(&other, 0)?;
        Ok(4 * n as u64)
    }
    /// a write of account 0 in each of many slots which are not finalized
    fn chain(&self, n: usize) -> Result<u64, String> {
        let s = new_token_store();
        s.update_account(Self::mint(0), COMMITMENTS[2]);
        let at = |a: usize, slot: usize| Self::token(a, 0, 0, slot as u64, slot as u64);
        s.update_account(at(1, 2), COMMITMENTS[0]);
        for i in 2..=n {
            s.update_account(at(0, i), COMMITMENTS[0]);
            note(&s, i as u64, i as u64 - 1, 0);
        }
        Self::read(&s, &at(0, n), 0)?;
        note(&s, n as u64 / 2, n as u64 / 2 - 1, 1);
        Self::read(&s, &at(0, n), 0)?;
        Self::read(&s, &at(0, n / 2), 1)?;
        Self::read(&s, &at(1, 2), 1)?;
        Self::query(&s, "owner", 32, key(5, 0), BTreeSet::from([key(6, 0), key(6, 1)]), 1)?;
        Self::query(&s, "owner", 32, key(5, 0), BTreeSet::new(), 2)?;
        note(&s, n as u64 - 1, n as u64 - 2, 1);
        note(&s, n as u64 - 1, n as u64 - 2, 2);
        for c in 0..3 {
            Self::read(&s, &at(0, if c == 0 { n } else { n - 1 }), c)?;
            Self::read(&s, &at(1, 2), c)?;
        }
        Ok(15)
    }
}
impl Cases for ManyTokens {
    fn name(&self) -> String {
        format!("{}-many", self.property)
    }
    fn len(&self) -> usize {
        TOKEN_SHAPES.len() * self.sizes.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{} {}", self.sizes[i / TOKEN_SHAPES.len()], TOKEN_SHAPES[i % TOKEN_SHAPES.len()])
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(120)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let n = self.sizes[i / TOKEN_SHAPES.len()];
        match i % TOKEN_SHAPES.len() {
            0 => self.separate(n, false),
            1 => self.one_owner(n),
            2 => self.separate(n, true),
            _ => self.chain(n),
        }
    }
}

// ------------------------------------------------------------------------------------------- all

fn all(property: &str, thorough: bool) -> Option<Box<dyn Cases>> {
    Some(match property {
        "C09" => Box::new(ManyFilters::new("C09-many", false, thorough)),
        "C10" => Box::new(ManyFilters::new("C10-many", true, thorough)),
        "C01" | "C03" | "C04" | "C05" | "C06" => Box::new(ManyAccounts::new(property, thorough)),
        "T03" | "T04" | "T06" => Box::new(ManyTokens::new(property, thorough)),
        _ => return None,
    })
}
pub fn run(property: &str, report: &Report) {
    if let Some(c) = all(property, report.thorough) {
        cases::explore(&*c, report);
    }
}
pub fn replay(property: &str, thorough: bool, name: &str, i: usize) -> Option<Vec<String>> {
    let c = all(property, thorough)?;
    (c.name() == name && i < c.len()).then(|| cases::replay(&*c, i))
}
