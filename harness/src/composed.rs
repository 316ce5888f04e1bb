//! The stores put together: a token store for both token programs and an account store for the rest,
//! dispatched by program, also below accounts on demand. R03.
use crate::main_model::{entry_real, FilterEntry};
use crate::main_seq::slot_info;
use crate::report::Report;
use crate::seq::{self, Scenario};
use crate::token_model::*;
use crate::util::*;
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{AccountFilter, AccountFilterType};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_account_storage::storage_by_program_id::StorageByProgramId;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;
use std::sync::Arc;

/// what an account is after a write
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum St {
    /// owner of the token account
    Token(u8),
    Token22(u8),
    /// the same content in each slot
    SameToken,
    Mint,
    Mint22,
    Multisig,
    /// account of program 0, which the account store tracks, and its data
    Data(u8),
    SameData,
    /// account of a program which nobody tracks
    Other,
    /// closed, owned by the system program, or still by the token program
    Closed,
    ClosedToken,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Wr {
    acct: u8,
    slot: u64,
    wv: u64,
    st: St,
}

impl Wr {
    fn token(&self) -> Option<TW> {
        let (p, kind) = match self.st {
            St::Token(owner) => (0, Kind::Token { owner, mint: 0, v: 0 }),
            St::SameToken => (0, Kind::Token { owner: 5, mint: 0, v: 8 }),
            St::Token22(owner) => (1, Kind::Token { owner, mint: 1, v: 4 }),
            St::Mint => (0, Kind::Mint { v: 0 }),
            St::Mint22 => (1, Kind::Mint { v: 0 }),
            St::Multisig => (0, Kind::Multi),
            St::ClosedToken => (0, Kind::Closed),
            _ => return None,
        };
        Some(TW { addr: self.acct, p, slot: self.slot, wv: self.wv, kind })
    }
    fn account(&self) -> AccountData {
        if let Some(w) = self.token() {
            return w.account();
        }
        let (owner, lamports, data) = match self.st {
            St::Data(d) => (program_key(0), 700 + self.wv, vec![1, d, self.wv as u8, 4][..3 + (d % 2) as usize].to_vec()),
            St::SameData => (program_key(0), 600, vec![1, 2, 3]),
            St::Other => (program_key(2), 800 + self.wv, vec![8, self.wv as u8]),
            _ => (Pubkey::default(), 0, vec![]),
        };
        account_data(
            &Seen {
                pubkey: tkey(self.acct),
                slot: self.slot,
                wv: self.wv,
                owner,
                lamports,
                data,
                executable: false,
                rent_epoch: u64::MAX,
            },
            if self.acct % 2 == 1 { CompressionMethod::Lz4(1) } else { CompressionMethod::None },
        )
    }
    fn alive(&self) -> bool {
        !matches!(self.st, St::Closed | St::ClosedToken)
    }
    fn seen(&self) -> TSeen {
        plain(&self.account())
    }
}

/// without slot and write version, which the stores keep of unfinalized states only
fn plain(a: &AccountData) -> TSeen {
    TSeen { from: None, ..tseen(a) }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum COp {
    Write(u8, St),
    /// the current slot is notified as processed, the next one begins
    Next,
    /// the slot which is this number of slots before the current one is confirmed or finalized
    Confirm(u64),
    Finalize(u64),
}
impl std::fmt::Debug for COp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let back = |b: &u64| if *b == 0 { "the current slot".to_string() } else { format!("the slot {b} before the current one") };
        match self {
            COp::Write(a, s) => write!(f, "account {a} is written: {s:?}"),
            COp::Next => write!(f, "the current slot is processed, the next one begins"),
            COp::Confirm(b) => write!(f, "{} is confirmed", back(b)),
            COp::Finalize(b) => write!(f, "{} is finalized", back(b)),
        }
    }
}

/// the ledger: one chain, writes in order
#[derive(Clone, Hash)]
pub struct Ledger {
    writes: Vec<Wr>,
    slot: u64,
    confirmed: u64,
    finalized: u64,
    wv: u64,
}
impl Ledger {
    fn upto(&self, c: u8) -> u64 {
        [u64::MAX, self.confirmed, self.finalized][c as usize]
    }
    fn last(&self, a: u8, slot: u64) -> Option<Wr> {
        self.writes.iter().rev().find(|w| w.acct == a && w.slot <= slot).copied()
    }
    fn read(&self, a: u8, c: u8) -> Option<Wr> {
        self.last(a, self.upto(c))
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Stack {
    /// one token store for both programs
    shared: bool,
    /// accounts on demand over the stores, everything is registered
    on_demand: bool,
}
impl Stack {
    fn make(&self) -> Arc<dyn AccountStorageInterface> {
        let filters = Arc::new(MutableFilterStore::default());
        let mut entries = vec![entry_real(&FilterEntry { accounts: vec![], program: Some(0), filters: vec![] })];
        if self.on_demand {
            let e = |accounts, program_id| AccountFilter { accounts, program_id, filters: None };
            entries.push(e(vec![], Some(token_program(0))));
            entries.push(e(vec![], Some(token_program(1))));
            entries.push(e((0..4).map(tkey).collect(), None));
        }
        filters.add_account_filters(&entries);
        let default = Arc::new(InmemoryAccountStore::new(filters.clone()));
        let token: Arc<dyn AccountStorageInterface> = Arc::new(new_token_store());
        let token22 = if self.shared { token.clone() } else { Arc::new(new_token_store()) };
        let map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> =
            [(token_program(0), token), (token_program(1), token22)].into_iter().collect();
        let router = Arc::new(StorageByProgramId::new(map, default));
        if self.on_demand {
            Arc::new(AccountsOnDemand::new(Arc::new(crate::live::NoSource), filters, router))
        } else {
            router
        }
    }
    /// may the last state of an account be missing
    fn may_miss(&self, w: &Wr) -> bool {
        w.st == St::Other && !self.on_demand
    }
}

pub struct Composed {
    name: String,
    stack: Stack,
    accounts: u8,
    ops: Vec<COp>,
    /// slots whose number is this multiple are skipped
    skip: u64,
}

pub struct ComposedSys {
    real: Arc<dyn AccountStorageInterface>,
    ledger: Ledger,
}

fn show(w: &Option<Wr>) -> String {
    w.map_or("nothing".to_string(), |w| format!("{} of slot {} ({:?})", w.seen().show(), w.slot, w.st))
}

fn token_queries() -> Vec<Q> {
    let t = |p, owner: Option<u8>, mint: Option<u8>| Q {
        p,
        owner,
        mint,
        size: (p == 0).then_some(165),
        typ: (p == 1).then_some(2),
        ..Default::default()
    };
    vec![
        t(0, Some(5), None),
        t(0, Some(6), Some(0)),
        t(0, None, Some(0)),
        t(1, Some(6), None),
        t(1, None, Some(1)),
        Q { p: 1, size: Some(82), ..Default::default() },
        Q { p: 0, size: Some(82), ..Default::default() },
    ]
}

impl Composed {
    fn parent(&self, slot: u64) -> u64 {
        let mut p = slot - 1;
        while self.skip > 0 && p % self.skip == 0 {
            p -= 1;
        }
        p
    }
    fn next(&self, slot: u64) -> u64 {
        let mut n = slot + 1;
        while self.skip > 0 && n % self.skip == 0 {
            n += 1;
        }
        n
    }
    fn back(&self, slot: u64, n: u64) -> u64 {
        (0..n).fold(slot, |s, _| if s > 2 { self.parent(s) } else { 0 })
    }

    /// reads and queries are the ones of the ledger, `only` at one commitment of the ledger
    fn compare(&self, s: &dyn AccountStorageInterface, l: &Ledger, only: Option<u8>) -> Result<(), String> {
        for c in 0..3u8 {
            let of = only.unwrap_or(c);
            let mut there = vec![];
            for a in 0..self.accounts {
                let got = s
                    .get_account(tkey(a), COMMITMENTS[c as usize])
                    .map_err(|e| format!("read of account {a} at {} fails: {e:?}", cname(c)))?;
                let want = l.read(a, of);
                let bad = |g: &Option<AccountData>| {
                    Err(format!(
                        "read of account {a} at {}: {} instead of {}",
                        cname(c),
                        tshow_opt(&g.as_ref().map(tseen)),
                        show(&want)
                    ))
                };
                match (&got, want.filter(|w| w.alive())) {
                    (None, None) => {}
                    (None, Some(w)) if self.stack.may_miss(&w) => {}
                    (Some(g), Some(w)) if plain(g) == w.seen() && g.pubkey == tkey(a) => {
                        // an unfinalized state is the one of its slot
                        if only.is_none() && w.slot > l.finalized && (g.updated_slot, g.write_version) != (w.slot, w.wv) {
                            return bad(&got);
                        }
                    }
                    _ => return bad(&got),
                }
                there.extend(want.filter(|w| w.alive()));
            }
            let check = |name: String, got: Result<Vec<AccountData>, _>, hit: &dyn Fn(&TSeen) -> bool| {
                let got = got.map_err(|e| format!("query of {name} at {} fails: {e:?}", cname(c)))?;
                let mut got: Vec<TSeen> = got.iter().map(plain).collect();
                got.sort();
                let mut want: Vec<TSeen> = there.iter().map(|w| w.seen()).filter(|x| hit(x)).collect();
                want.sort();
                if got != want {
                    return Err(format!("query of {name} at {} returns {} instead of {}", cname(c), tshow(&got), tshow(&want)));
                }
                Ok(())
            };
            for q in token_queries() {
                let r = s.get_program_accounts(token_program(q.p), Some(q.filters()), COMMITMENTS[c as usize]);
                check(format!("{q:?}"), r, &|x| q.matches(&x.owner, &x.data))?;
            }
            for f in [None, Some(3)] {
                let filters = f.map(|n| vec![AccountFilterType::Datasize(n)]);
                let r = s.get_program_accounts(program_key(0), filters, COMMITMENTS[c as usize]);
                check(format!("program 0 with size {f:?}"), r, &|x| {
                    x.owner == program_key(0) && f.map_or(true, |n| x.data.len() as u64 == n)
                })?;
            }
        }
        Ok(())
    }

    fn notify(&self, sys: &mut ComposedSys, slot: u64, c: u8) -> Vec<AccountData> {
        sys.real.process_slot_data(slot_info(slot, self.parent(slot)), COMMITMENTS[c as usize])
    }

    /// the states which have reached the commitment are announced, and nothing else
    fn announced(&self, l: &Ledger, got: &[AccountData], before: u64, slot: u64, c: u8) -> Result<(), String> {
        let got: Vec<TSeen> = got.iter().map(plain).collect();
        let mut left: Vec<&TSeen> = got.iter().collect();
        for a in 0..self.accounts {
            let Some(w) = l.last(a, slot).filter(|w| w.slot > before) else { continue };
            let s = w.seen();
            let n = left.len();
            left.retain(|x| **x != s);
            // confirmation of earlier slots may announce their accounts or not
            let due = c == 2 || w.slot == slot;
            if n == left.len() && due && w.alive() && w.st != St::Other {
                return Err(format!("{} is not announced: {}", show(&Some(w)), tshow(&got)));
            }
        }
        if let Some(x) = left.first() {
            return Err(format!("{} is announced", x.show()));
        }
        Ok(())
    }
}

impl Scenario for Composed {
    type Op = COp;
    type Sys = ComposedSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[COp] {
        &self.ops
    }
    fn init(&self) -> ComposedSys {
        let real = self.stack.make();
        let mints = [St::Mint, St::Mint22].map(|st| Wr { acct: (st == St::Mint22) as u8, slot: 1, wv: 0, st });
        for m in &mints {
            mcstd::mc::solo(|| real.initilize_or_update_account(m.account()));
        }
        ComposedSys { real, ledger: Ledger { writes: mints.to_vec(), slot: 2, confirmed: 1, finalized: 1, wv: 0 } }
    }
    fn enabled(&self, sys: &ComposedSys, op: &COp) -> bool {
        let l = &sys.ledger;
        match op {
            // nothing is written to a confirmed slot
            COp::Write(a, st) => {
                l.slot > l.confirmed
                    && (*st != St::Closed && *st != St::ClosedToken || l.read(*a, 0).is_some_and(|w| w.alive()))
            }
            COp::Next => true,
            COp::Confirm(b) => self.back(l.slot, *b) > l.confirmed,
            COp::Finalize(b) => self.back(l.slot, *b) > l.finalized,
        }
    }
    fn apply(&self, sys: &mut ComposedSys, op: &COp, check: bool) -> Result<(), String> {
        match op {
            COp::Write(a, st) => {
                let l = &mut sys.ledger;
                l.wv += 1;
                let w = Wr { acct: *a, slot: l.slot, wv: l.wv, st: *st };
                l.writes.push(w);
                let r = sys.real.update_account(w.account(), COMMITMENTS[0]);
                if check && !r && w.alive() && w.st != St::Other {
                    return Err(format!("{op:?} is not recorded"));
                }
            }
            COp::Next => {
                let slot = sys.ledger.slot;
                sys.ledger.slot = self.next(slot);
                if slot > sys.ledger.confirmed {
                    let got = self.notify(sys, slot, 0);
                    if check && !got.is_empty() {
                        return Err(format!("{op:?} announces {}", tshow(&tlist(&got))));
                    }
                }
            }
            COp::Confirm(b) | COp::Finalize(b) => {
                let c = if let COp::Confirm(_) = op { 1 } else { 2 };
                let slot = self.back(sys.ledger.slot, *b);
                let before = if c == 1 { sys.ledger.confirmed } else { sys.ledger.finalized };
                let got = self.notify(sys, slot, c);
                sys.ledger.confirmed = sys.ledger.confirmed.max(slot);
                if c == 2 {
                    sys.ledger.finalized = slot;
                }
                if check {
                    self.announced(&sys.ledger, &got, before, slot, c).map_err(|e| format!("{op:?}: {e}"))?;
                }
            }
        }
        if check {
            self.compare(&*sys.real, &sys.ledger, None)?;
        }
        Ok(())
    }
    fn fingerprint(&self, sys: &ComposedSys) -> u64 {
        hash64(&sys.ledger)
    }
    /// other stores continue from the snapshots
    fn at_end(&self, sys: &mut ComposedSys) -> Result<(), String> {
        let fresh = self.stack.make();
        for p in [token_program(0), token_program(1), program_key(0)] {
            let snapshot = sys.real.create_snapshot(p).map_err(|e| format!("no snapshot of {}: {e:?}", short(&p)))?;
            fresh.load_from_snapshot(p, snapshot).map_err(|e| format!("snapshot of {} is not loaded: {e:?}", short(&p)))?;
        }
        let mut l = sys.ledger.clone();
        l.writes.retain(|w| w.slot <= l.finalized);
        // accounts of other programs are in none of the snapshots
        for a in 0..self.accounts {
            if l.last(a, u64::MAX).is_some_and(|w| w.st == St::Other) {
                l.writes.retain(|w| w.acct != a);
            }
        }
        self.compare(&*fresh, &l, Some(2)).map_err(|e| format!("after its snapshots were loaded: {e}"))
    }
}

pub fn scenarios() -> Vec<(Composed, usize, usize)> {
    let mut out = vec![];
    let turns = [COp::Next, COp::Confirm(0), COp::Confirm(1), COp::Finalize(0), COp::Finalize(1)];
    let all = [
        St::Token(5),
        St::Token(6),
        St::Token22(6),
        St::Mint,
        St::Mint22,
        St::Multisig,
        St::Data(0),
        St::Other,
        St::Closed,
        St::ClosedToken,
    ];
    for (stack_name, shared, on_demand) in [("own", false, false), ("shared", true, false), ("on-demand", true, true)] {
        let stack = Stack { shared, on_demand };
        let mut add = |name: &str, accounts: u8, ops: Vec<COp>, skip: u64, q: usize, t: usize| {
            out.push((Composed { name: format!("R03-{name}-{stack_name}"), stack, accounts, ops, skip }, q, t))
        };
        // one account becomes everything
        let mut ops: Vec<COp> = all.iter().map(|s| COp::Write(2, *s)).collect();
        ops.extend(turns);
        add("one", 3, ops, 0, 5, 6);
        // two accounts, slots without block
        let mut ops = vec![];
        for a in 2..4 {
            for s in [St::Token(5), St::Token22(6), St::Data(a - 1), St::Closed] {
                ops.push(COp::Write(a, s));
            }
        }
        ops.extend(turns);
        add("two", 4, ops, 3, 5, 6);
        // longer histories of few states
        let mut ops = vec![COp::Write(2, St::SameToken), COp::Write(2, St::SameData), COp::Write(2, St::Closed)];
        ops.extend(turns);
        add("long", 3, ops, 4, 7, 8);
    }
    out
}

pub fn run(report: &Report) {
    for (s, quick, thorough) in scenarios() {
        seq::explore(&s, if report.thorough { thorough } else { quick }, report);
    }
    report.assume("one chain: each write is given once, as processed, in the order of the ledger, and notifications of a slot come after its writes");
}

pub fn replay(name: &str, indices: &[usize]) -> Option<Vec<String>> {
    scenarios().iter().find(|s| s.0.name == name).map(|s| seq::replay(&s.0, indices))
}
