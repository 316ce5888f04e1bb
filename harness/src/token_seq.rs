//! Sequential explorations of the token store: T03 - T06.
use crate::cases::{self, Cases};
use crate::report::Report;
use crate::seq::{self, Scenario};
use crate::token_model::*;
use crate::util::*;
use lite_account_manager_common::account_store_interface::{
    AccountLoadingError, AccountStorageInterface,
};
use solana_sdk::pubkey::Pubkey;
use std::sync::Arc;

pub fn tok(addr: u8, slot: u64, wv: u64, owner: u8, mint: u8) -> TW {
    TW { addr, p: 0, slot, wv, kind: Kind::Token { owner, mint, v: 0 } }
}
pub fn tok22(addr: u8, slot: u64, wv: u64, owner: u8, mint: u8, v: u8) -> TW {
    TW { addr, p: 1, slot, wv, kind: Kind::Token { owner, mint, v } }
}
pub fn mint(addr: u8, p: u8, slot: u64) -> TW {
    TW { addr, p, slot, wv: 0, kind: Kind::Mint { v: 0 } }
}
pub fn multi(addr: u8, p: u8, slot: u64) -> TW {
    TW { addr, p, slot, wv: 0, kind: Kind::Multi }
}
pub fn closed(addr: u8, slot: u64, wv: u64) -> TW {
    TW { addr, p: 0, slot, wv, kind: Kind::Closed }
}
pub fn moved(addr: u8, slot: u64, wv: u64) -> TW {
    TW { addr, p: 0, slot, wv, kind: Kind::Moved }
}
pub fn tup(w: TW, c: u8) -> TOp {
    TOp::Update(w, c)
}
pub fn tnote(slot: u64, parent: u64, c: u8) -> TOp {
    TOp::Notify { slot, parent, c }
}

pub struct TokenScenario {
    pub name: String,
    pub ops: Vec<TOp>,
    pub accounts: Vec<u8>,
    pub queries: Vec<Q>,
    pub prefix: Vec<TOp>,
}

pub struct TokenSys {
    pub real: Arc<dyn AccountStorageInterface>,
    pub model: TModel,
}

/// requests which are never supported, and addresses which were never given
fn compare_refusals(s: &dyn AccountStorageInterface) -> Result<(), String> {
    for c in 0..3usize {
        let c = COMMITMENTS[c];
        let q = Q { owner: Some(5), size: Some(165), ..Default::default() };
        let r = s.get_program_accounts(Pubkey::new_from_array([3; 32]), Some(q.filters()), c);
        if !matches!(r, Err(AccountLoadingError::WrongIndex)) {
            return Err(format!("query of another program is not refused"));
        }
        for f in [None, Some(vec![])] {
            if s.get_program_accounts(token_program(0), f, c).is_ok() {
                return Err("query without filters is not refused".into());
            }
        }
        for k in [Pubkey::default(), Pubkey::new_from_array([3; 32])] {
            if !matches!(s.get_account(k, c), Ok(None)) {
                return Err("an account which was never given is returned".into());
            }
        }
    }
    Ok(())
}

impl Scenario for TokenScenario {
    type Op = TOp;
    type Sys = TokenSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[TOp] {
        &self.ops
    }
    fn init(&self) -> TokenSys {
        let mut sys = TokenSys { real: Arc::new(new_token_store()), model: TModel::new(&self.accounts) };
        for op in &self.prefix {
            mcstd::mc::solo(|| treal(&*sys.real, op));
            sys.model.apply(op);
        }
        sys
    }
    fn enabled(&self, sys: &TokenSys, op: &TOp) -> bool {
        sys.model.in_order(op)
    }
    fn apply(&self, sys: &mut TokenSys, op: &TOp, check: bool) -> Result<(), String> {
        let got = treal(&*sys.real, op);
        let want = sys.model.apply(op);
        if check {
            answer_ok(&got, &want).map_err(|e| format!("{op:?} {e}"))?;
            tcompare(&*sys.real, &sys.model, &self.queries)?;
            compare_refusals(&*sys.real)?;
        }
        Ok(())
    }
    fn fingerprint(&self, sys: &TokenSys) -> u64 {
        hash64(&sys.model)
    }
}

fn by_owner(p: u8, o: u8) -> Q {
    Q { p, owner: Some(o), size: Some(165), ..Default::default() }
}
fn by_mint(p: u8, m: u8) -> Q {
    Q { p, mint: Some(m), size: Some(165), ..Default::default() }
}
fn ext(q: Q) -> Q {
    Q { size: None, typ: Some(2), ..q }
}
fn mints(p: u8) -> Q {
    Q { p, size: Some(82), ..Default::default() }
}

pub fn scenarios(property: &str) -> Vec<(TokenScenario, usize, usize)> {
    let mut out = vec![];
    let mut add = |name: &str, prefix: Vec<TOp>, ops: Vec<TOp>, accounts: Vec<u8>, queries: Vec<Q>, q: usize, t: usize| {
        out.push((TokenScenario { name: name.into(), ops, accounts, queries, prefix }, q, t))
    };
    match property {
        "T03" => {
            // all writes of one account and all notifications over 3 slots with a fork
            let mut ops = vec![];
            for slot in 2..=4 {
                for wv in 0..2 {
                    for c in 0..3 {
                        if c != 1 || wv == 1 {
                            ops.push(tup(tok(2, slot, wv, 5, 0), c));
                        }
                    }
                }
                for c in 0..3 {
                    ops.push(tnote(slot, slot - 1, c));
                }
            }
            for c in 0..3 {
                ops.push(tnote(4, 2, c));
            }
            add("T03-all", vec![tup(mint(0, 0, 1), 2)], ops, vec![0, 2], vec![], 4, 5);
            // chains and forks
            let mut ops = vec![];
            for slot in 2..=5 {
                ops.push(tup(tok(2, slot, 0, 5, 0), 0));
            }
            for (s, p) in [(3, 2), (4, 2), (4, 3), (5, 4)] {
                for c in 0..3 {
                    if c > 0 || s != 5 {
                        ops.push(tnote(s, p, c));
                    }
                }
            }
            add("T03-chain", vec![tup(mint(0, 0, 1), 2)], ops, vec![2], vec![], 5, 6);
            // writes which do not change the content, or only one part of it
            let t = |slot: u64, wv: u64, v: u8| TW {
                kind: Kind::Token { owner: 5, mint: 0, v },
                ..tok(2, slot, wv, 5, 0)
            };
            let mut ops = vec![
                tup(t(2, 0, 8), 0),
                tup(t(2, 1, 8), 0),
                tup(t(3, 0, 8), 0),
                tup(t(3, 1, 9), 0),
                tup(t(3, 2, 8), 0),
                tup(t(4, 0, 10), 0),
                tup(TW { kind: Kind::Token { owner: 6, mint: 0, v: 8 }, ..t(4, 1, 8) }, 0),
                tup(t(4, 2, 8), 0),
                tup(closed(2, 3, 3), 0),
                tup(t(4, 3, 8), 2),
                tup(TW { kind: Kind::Mint { v: 8 }, ..mint(0, 0, 3) }, 0),
                tup(TW { kind: Kind::Mint { v: 9 }, ..mint(0, 0, 4) }, 0),
            ];
            for c in 1..3 {
                for slot in 2..=4 {
                    ops.push(tnote(slot, slot - 1, c));
                }
            }
            let first = tup(TW { kind: Kind::Mint { v: 8 }, ..mint(0, 0, 1) }, 2);
            let q = vec![by_owner(0, 5), by_owner(0, 6), by_mint(0, 0), mints(0)];
            add("T03-same", vec![first], ops, vec![0, 2], q, 4, 5);
            // several slots wait for notifications
            let mut pending = vec![tup(mint(0, 0, 1), 2)];
            for slot in 2..=6 {
                pending.push(tup(tok(2, slot, 0, 5 + (slot % 2) as u8, 0), 0));
            }
            pending.push(tup(tok(3, 2, 0, 5, 0), 0));
            pending.push(tup(closed(3, 4, 0), 0));
            pending.push(tup(tok(3, 6, 0, 6, 0), 0));
            let mut ops = vec![];
            for c in 0..3 {
                for slot in 2..=6 {
                    ops.push(tnote(slot, slot - 1, c));
                }
                ops.push(tnote(6, 3, c));
            }
            ops.push(tup(tok(2, 3, 1, 5, 0), 0));
            ops.push(tup(tok(2, 5, 1, 6, 0), 1));
            ops.push(tup(closed(2, 6, 1), 2));
            let q = vec![by_owner(0, 5), by_owner(0, 6), by_mint(0, 0)];
            add("T03-pending", pending, ops, vec![0, 2, 3], q, 4, 5);
            // create, close, recreate, also with another type
            let mut ops = vec![];
            for c in [0, 2] {
                ops.push(tup(tok(2, 2, 0, 5, 0), c));
                ops.push(tup(closed(2, 3, 0), c));
                ops.push(tup(moved(2, 3, 1), c));
                ops.push(tup(multi(2, 0, 3), c));
                ops.push(tup(mint(2, 0, 4), c));
                ops.push(tup(tok(2, 4, 1, 6, 0), c));
            }
            ops.push(TOp::Init(tok(2, 4, 2, 6, 0)));
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                for c in 1..3 {
                    ops.push(tnote(s, p, c));
                }
            }
            ops.push(tnote(4, 3, 0));
            let q = vec![by_owner(0, 5), by_owner(0, 6), by_mint(0, 0), mints(0)];
            add("T03-types", vec![tup(mint(0, 0, 1), 2)], ops, vec![0, 2], q, 4, 5);
            // accounts before their mint, mints which are closed and created again
            let mut ops = vec![];
            for c in [0, 2] {
                ops.push(tup(mint(0, 1, 2), c));
                ops.push(tup(closed(0, 3, 0), c));
                ops.push(tup(moved(0, 3, 1), c));
                ops.push(tup(mint(0, 1, 4), c));
                ops.push(tup(tok22(2, 2, 0, 5, 0, 4), c));
                ops.push(tup(tok22(2, 4, 0, 5, 0, 1), c));
                ops.push(tup(multi(3, 1, 3), c));
            }
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                for c in 1..3 {
                    ops.push(tnote(s, p, c));
                }
            }
            add("T03-mint", vec![], ops, vec![0, 2, 3], vec![ext(by_mint(1, 0)), mints(1)], 4, 5);
            // two accounts and a multisig in the same slots
            let mut ops = vec![];
            for a in [2, 3] {
                ops.push(tup(tok(a, 2, 0, 5, 0), 0));
                ops.push(tup(tok(a, 3, 1, 5, 0), 0));
                ops.push(tup(closed(a, 4, 0), 0));
                ops.push(tup(tok(a, 4, 1, 5, 0), 2));
            }
            ops.push(tup(multi(4, 0, 3), 0));
            ops.push(tup(multi(4, 0, 4), 0));
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                for c in 1..3 {
                    ops.push(tnote(s, p, c));
                }
            }
            add("T03-two", vec![tup(mint(0, 0, 1), 2)], ops, vec![2, 3, 4], vec![], 4, 5);
        }
        "T04" => {
            let prefix = vec![tup(mint(0, 0, 1), 2), tup(mint(1, 0, 1), 2)];
            let queries = vec![
                by_owner(0, 5),
                by_owner(0, 6),
                by_mint(0, 0),
                by_mint(0, 1),
                Q { owner: Some(5), ..by_mint(0, 0) },
                Q { owner: Some(6), ..by_mint(0, 1) },
                Q { byte: Some((64, 0xd0)), ..by_owner(0, 5) },
                Q { byte: Some((108, 1)), ..by_mint(0, 0) },
                mints(0),
                Q { byte: Some((44, 6)), ..mints(0) },
                Q { byte: Some((44, 7)), ..mints(0) },
                // the other program
                by_owner(1, 5),
                by_mint(1, 0),
                mints(1),
                // not supported
                Q { owner: Some(5), ..Default::default() },
                Q { mint: Some(0), size: Some(166), ..Default::default() },
                Q { size: Some(165), ..Default::default() },
                Q { size: Some(355), ..Default::default() },
            ];
            // one account which moves between owners and mints
            let mut ops = vec![];
            for c in [0, 2] {
                ops.push(tup(tok(2, 2, 0, 5, 0), c));
                ops.push(tup(tok(2, 3, 0, 6, 0), c));
                ops.push(tup(tok(2, 3, 1, 5, 1), c));
                ops.push(tup(closed(2, 4, 0), c));
                ops.push(tup(tok(2, 4, 1, 5, 0), c));
                ops.push(tup(tok(2, 5, 0, 6, 1), c));
            }
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                for c in 1..3 {
                    ops.push(tnote(s, p, c));
                }
            }
            add("T04-move", prefix.clone(), ops, vec![0, 1, 2], queries.clone(), 4, 5);
            // several accounts
            let mut ops = vec![];
            for a in [2, 3] {
                ops.push(tup(tok(a, 2, 0, 5, 0), 2));
                ops.push(tup(tok(a, 3, 0, 6, 1), 2));
                ops.push(tup(closed(a, 4, 0), 2));
                ops.push(tup(tok(a, 4, 1, 5, 1), 0));
            }
            ops.push(tup(tok(4, 2, 0, 5, 0), 0));
            ops.push(tup(mint(4, 0, 3), 0));
            ops.push(tup(tok(4, 3, 2, 6, 0), 1));
            ops.push(TOp::Init(tok(4, 5, 0, 5, 1)));
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                ops.push(tnote(s, p, 2));
            }
            ops.push(tnote(4, 3, 1));
            add("T04-several", prefix, ops, vec![0, 1, 2, 3, 4], queries, 4, 5);
            // token 2022, with and without extensions
            let prefix = vec![tup(mint(0, 1, 1), 2), tup(mint(1, 0, 1), 2)];
            let queries = vec![
                by_owner(1, 5),
                by_mint(1, 0),
                ext(by_owner(1, 5)),
                ext(by_mint(1, 0)),
                Q { owner: Some(6), ..ext(by_mint(1, 0)) },
                Q { size: Some(171), ..ext(by_owner(1, 5)) },
                mints(1),
                mints(0),
                by_owner(0, 5),
                by_mint(0, 1),
                ext(by_owner(0, 5)),
                Q { typ: Some(1), ..ext(by_owner(1, 5)) },
            ];
            let mut ops = vec![];
            for c in [0, 2] {
                ops.push(tup(tok22(2, 2, 0, 5, 0, 0), c));
                ops.push(tup(tok22(2, 3, 0, 5, 0, 4), c));
                ops.push(tup(tok22(3, 2, 0, 6, 0, 5), c));
                ops.push(tup(tok22(3, 3, 0, 5, 0, 3), c));
                ops.push(tup(tok(4, 3, 0, 5, 1), c));
            }
            ops.push(tup(closed(2, 4, 0), 0));
            ops.push(tup(TW { kind: Kind::Mint { v: 5 }, ..mint(0, 1, 3) }, 0));
            ops.push(tup(mint(6, 1, 3), 0));
            for (s, p) in [(2, 1), (3, 2), (4, 3)] {
                ops.push(tnote(s, p, 2));
            }
            ops.push(tnote(3, 2, 1));
            add("T04-2022", prefix, ops, vec![0, 1, 2, 3, 4, 6], queries, 4, 5);
        }
        "T05" => {
            let prefix = vec![tup(mint(0, 0, 1), 2), tup(mint(15, 0, 1), 2)];
            // addresses which differ in one byte only
            for (name, addrs) in [("T05-a", [10, 11, 12]), ("T05-b", [13, 10, 14]), ("T05-c", [16, 17, 18])] {
                let mut ops = vec![];
                for a in addrs {
                    // owners too
                    ops.push(tup(tok(a, 2, 0, a, 0), 2));
                    ops.push(tup(tok(a, 3, 0, addrs[0], 15), 2));
                    ops.push(tup(closed(a, 4, 0), 2));
                    ops.push(tup(tok(a, 5, 0, addrs[1], 0), 2));
                }
                ops.push(tup(tok(addrs[0], 6, 0, addrs[2], 0), 0));
                ops.push(tup(closed(addrs[1], 6, 0), 0));
                ops.push(tnote(6, 5, 2));
                let mut queries: Vec<Q> = addrs.iter().map(|o| by_owner(0, *o)).collect();
                queries.push(by_mint(0, 0));
                queries.push(by_mint(0, 15));
                add(name, prefix.clone(), ops, (10..=18).chain([0]).collect(), queries, 4, 5);
            }
        }
        _ => {}
    }
    if property == "T03" || property == "T04" {
        out.push(blank(property));
        out.extend(stretched(property));
        out.extend(large(property));
    }
    out
}

/// accounts which are not initialized, with zeros everywhere, and which become initialized
fn blank(property: &str) -> (TokenScenario, usize, usize) {
    let m = |addr: u8, p: u8, slot: u64, v: u8| TW { kind: Kind::Mint { v }, ..TW { addr, p, ..mint(0, 0, slot) } };
    let t = |slot: u64, v: u8| TW { kind: Kind::Token { owner: 5, mint: 0, v }, ..tok22(2, slot, 0, 5, 0, 0) };
    let mut ops = vec![];
    for c in [0, 2] {
        ops.push(tup(m(0, 1, 2, 16), c));
        ops.push(tup(m(0, 1, 3, 18), c));
        ops.push(tup(m(1, 0, 2, 16), c));
        ops.push(tup(m(1, 0, 3, 0), c));
        ops.push(tup(t(2, 16), c));
        ops.push(tup(t(3, 19), c));
        ops.push(tup(t(3, 20), c));
    }
    for (s, p) in [(2, 1), (3, 2)] {
        for c in 1..3 {
            ops.push(tnote(s, p, c));
        }
    }
    (
        TokenScenario {
            name: format!("{property}-blank"),
            ops,
            accounts: vec![0, 1, 2],
            queries: vec![by_owner(1, 5), by_mint(1, 0), ext(by_owner(1, 5)), mints(0), mints(1)],
            prefix: vec![tup(m(0, 1, 1, 16), 2)],
        },
        4,
        5,
    )
}

/// other slots and write versions
fn stretched(property: &str) -> Vec<(TokenScenario, usize, usize)> {
    let maps: [(&str, fn(u64) -> u64, fn(u64) -> u64); 2] = [
        ("end", |s| u64::MAX - 5 + s, |v| u64::MAX - 9 + v),
        ("gaps", |s| s * (1 << 33) + 7, |v| v << 33),
    ];
    let mut out = vec![];
    for (name, slot, wv) in maps {
        let t = |s: u64, v: u64, owner: u8, kind: u8| tup(tok22(2, slot(s), wv(v), owner, 0, kind), 0);
        let fin = |s: u64, v: u64, owner: u8, kind: u8| tup(tok22(2, slot(s), wv(v), owner, 0, kind), 2);
        let mut ops = vec![
            t(2, 0, 5, 0),
            t(3, 0, 5, 2),
            t(3, 1, 6, 1),
            t(4, 0, 5, 4),
            fin(3, 1, 6, 1),
            fin(2, 0, 5, 0),
            tup(closed(2, slot(3), wv(2)), 0),
            tup(closed(2, slot(4), wv(1)), 2),
        ];
        for s in 2..=4 {
            for c in 0..3 {
                ops.push(tnote(slot(s), slot(s - 1), c));
            }
        }
        out.push((
            TokenScenario {
                name: format!("{property}-{name}"),
                ops,
                accounts: vec![0, 2],
                queries: vec![by_owner(1, 5), by_owner(1, 6), ext(by_owner(1, 5)), by_mint(1, 0), ext(by_mint(1, 0))],
                prefix: vec![tup(mint(0, 1, slot(1)), 2)],
            },
            4,
            5,
        ));
    }
    out
}

/// histories after a long chain of slots, and with many accounts and mints
fn large(property: &str) -> Vec<(TokenScenario, usize, usize)> {
    const N: u64 = 300;
    let mut prefix = vec![tup(mint(0, 0, 1), 2), tup(mint(1, 0, 1), 2), tup(tok(4, 1, 0, 5, 1), 2)];
    for s in 2..=N {
        prefix.push(tup(tok(2, s, 1, 5 + (s % 2) as u8, 0), 0));
        prefix.push(tnote(s, s - 1, 0));
        if s == 2 || s == N / 2 {
            prefix.push(tup(tok(3, s, 0, 5, 0), 0));
            prefix.push(tup(closed(4, s, 1), 0));
        }
    }
    let mut ops = vec![];
    for c in 1..3 {
        for s in [2, 40, N / 2, N - 1, N, N + 1] {
            ops.push(tnote(s, s - 1, c));
        }
        ops.push(tnote(N + 2, N / 2 + 1, c));
    }
    ops.push(tup(tok(2, 3, 2, 5, 0), 0));
    ops.push(tup(tok(3, N - 10, 2, 6, 1), 0));
    ops.push(tup(closed(3, N + 1, 0), 0));
    ops.push(tup(tok(4, N, 0, 6, 0), 2));
    let chain = TokenScenario {
        name: format!("{property}-chain-of-{N}"),
        ops,
        accounts: vec![0, 1, 2, 3, 4],
        queries: vec![by_owner(0, 5), by_owner(0, 6), by_mint(0, 0), by_mint(0, 1)],
        prefix,
    };
    // 60 mints, 120 token accounts, some multisigs, of both programs; part of them not finalized
    let mut prefix = vec![];
    for a in 20..80u8 {
        prefix.push(tup(mint(a, a % 2, 1), 2));
    }
    for a in 80..200u8 {
        let m = 20 + (a - 80) / 2 % 10 * 2 + a % 2;
        let (slot, c) = if a % 3 == 0 { (3, 0) } else { (2, 2) };
        prefix.push(tup(
            TW { addr: a, p: a % 2, slot, wv: a as u64, kind: Kind::Token { owner: 5 + a % 4, mint: m, v: a / 2 % 8 } },
            c,
        ));
        if a % 10 == 0 {
            prefix.push(tup(closed(a, 4, 0), 0));
        }
    }
    for a in 200..206u8 {
        prefix.push(tup(multi(a, a % 2, 2), 2));
    }
    let mut ops = vec![
        tup(tok(82, 4, 1, 5, 22), 2),
        tup(tok(83, 4, 1, 6, 20), 0),
        tup(closed(30, 4, 0), 2),
        tup(mint(206, 0, 4), 2),
    ];
    for (s, p) in [(3, 2), (4, 3)] {
        for c in 1..3 {
            ops.push(tnote(s, p, c));
        }
    }
    let queries = vec![
        by_owner(0, 5),
        by_owner(0, 7),
        by_owner(1, 6),
        ext(by_owner(1, 8)),
        by_mint(0, 22),
        by_mint(1, 21),
        ext(by_mint(1, 25)),
        Q { owner: Some(5), ..by_mint(0, 20) },
        mints(0),
        mints(1),
    ];
    let crowd = TokenScenario {
        name: format!("{property}-crowd"),
        ops,
        accounts: (20..207).collect(),
        queries,
        prefix,
    };
    vec![(chain, 2, 3), (crowd, 2, 3)]
}

// ---- snapshots

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SnapOp {
    First(TOp),
    Second(TOp),
    Transfer(u8),
}
impl std::fmt::Debug for SnapOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SnapOp::First(op) => write!(f, "first store: {op:?}"),
            SnapOp::Second(op) => write!(f, "second store: {op:?}"),
            SnapOp::Transfer(p) => write!(f, "snapshot of program {p} of the first store loaded in the second"),
        }
    }
}

pub struct TokenSnap {
    pub name: String,
    pub ops: Vec<SnapOp>,
    pub accounts: Vec<u8>,
    pub queries: Vec<Q>,
    pub prefix: Vec<SnapOp>,
}
pub struct TokenSnapSys {
    real: [Arc<dyn AccountStorageInterface>; 2],
    model: [TModel; 2],
}

impl TokenSnap {
    fn step(&self, sys: &mut TokenSnapSys, op: &SnapOp) -> Result<(), String> {
        match op {
            SnapOp::First(op) => {
                treal(&*sys.real[0], op);
                sys.model[0].apply(op);
            }
            SnapOp::Second(op) => {
                treal(&*sys.real[1], op);
                sys.model[1].apply(op);
            }
            SnapOp::Transfer(p) => {
                let snap = sys.real[0]
                    .create_snapshot(token_program(*p))
                    .map_err(|e| format!("snapshot fails: {e:?}"))?;
                sys.real[1]
                    .load_from_snapshot(token_program(*p), snap)
                    .map_err(|e| format!("loading the snapshot fails: {e:?}"))?;
                let (a, b) = sys.model.split_at_mut(1);
                b[0].load(&a[0], *p);
            }
        }
        Ok(())
    }
}

impl Scenario for TokenSnap {
    type Op = SnapOp;
    type Sys = TokenSnapSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[SnapOp] {
        &self.ops
    }
    fn init(&self) -> TokenSnapSys {
        let m = TModel::new(&self.accounts);
        let mut sys = TokenSnapSys {
            real: [Arc::new(new_token_store()), Arc::new(new_token_store())],
            model: [m.clone(), m],
        };
        for op in &self.prefix {
            let _ = mcstd::mc::solo(|| self.step(&mut sys, op));
        }
        sys
    }
    fn enabled(&self, sys: &TokenSnapSys, op: &SnapOp) -> bool {
        match op {
            SnapOp::First(op) => sys.model[0].in_order(op),
            SnapOp::Second(op) => sys.model[1].in_order(op),
            SnapOp::Transfer(p) => sys.model[1].can_load(&sys.model[0], *p),
        }
    }
    fn apply(&self, sys: &mut TokenSnapSys, op: &SnapOp, check: bool) -> Result<(), String> {
        self.step(sys, op)?;
        if check {
            for i in 0..2 {
                tcompare(&*sys.real[i], &sys.model[i], &self.queries)
                    .map_err(|e| format!("{} store: {e}", ["first", "second"][i]))?;
            }
        }
        Ok(())
    }
    fn fingerprint(&self, sys: &TokenSnapSys) -> u64 {
        hash64(&sys.model)
    }
    /// the snapshots of both stores are loaded into empty ones, and these are used
    fn at_end(&self, sys: &mut TokenSnapSys) -> Result<(), String> {
        for (i, order) in [[0, 1], [1, 0]].into_iter().enumerate() {
            {
                let empty = new_token_store();
                let mut m = TModel::new(&self.accounts);
                for p in order {
                    let snap = sys.real[i]
                        .create_snapshot(token_program(p))
                        .map_err(|e| format!("snapshot fails: {e:?}"))?;
                    empty
                        .load_from_snapshot(token_program(p), snap)
                        .map_err(|e| format!("loading the snapshot fails: {e:?}"))?;
                    m.load(&sys.model[i], p);
                    tcompare(&empty, &m, &self.queries)
                        .map_err(|e| format!("restored store (program {p} loaded): {e}"))?;
                }
            }
        }
        Ok(())
    }
}

pub fn snap_scenarios() -> Vec<(TokenSnap, usize, usize)> {
    let mut out = vec![];
    let queries = vec![
        by_owner(0, 5),
        by_owner(0, 6),
        by_mint(0, 0),
        by_mint(0, 1),
        Q { owner: Some(5), ..by_mint(0, 0) },
        mints(0),
        ext(by_owner(1, 5)),
        ext(by_mint(1, 2)),
        mints(1),
    ];
    // mints are numbered in the order in which they are seen
    let first = vec![
        tup(mint(0, 0, 1), 2),
        tup(mint(1, 0, 1), 2),
        tup(tok(3, 2, 0, 5, 0), 2),
        tup(tok(4, 2, 0, 5, 1), 2),
        tup(tok(3, 3, 0, 6, 1), 2),
        tup(closed(3, 4, 0), 2),
        tup(tok(4, 3, 0, 6, 0), 0),
        tup(multi(7, 0, 2), 2),
        tnote(3, 2, 2),
    ];
    let second = vec![
        tup(mint(1, 0, 1), 2),
        tup(tok(4, 1, 0, 6, 1), 2),
        tup(tok(8, 1, 0, 5, 0), 2),
        tup(tok(3, 5, 0, 5, 1), 0),
        tup(tok(3, 6, 0, 6, 0), 2),
        tnote(5, 4, 2),
    ];
    let mut ops = vec![SnapOp::Transfer(0)];
    ops.extend(first.into_iter().map(SnapOp::First));
    ops.extend(second.into_iter().map(SnapOp::Second));
    out.push((
        TokenSnap {
            name: "T06-transfer".into(),
            ops,
            accounts: vec![0, 1, 3, 4, 7, 8],
            queries: queries.clone(),
            prefix: vec![],
        },
        4,
        5,
    ));
    // both programs
    let first = vec![
        tup(mint(0, 0, 1), 2),
        tup(mint(2, 1, 1), 2),
        tup(tok(3, 2, 0, 5, 0), 2),
        tup(tok22(4, 2, 0, 5, 2, 4), 2),
        tup(tok22(6, 2, 0, 5, 2, 5), 0),
        tup(multi(7, 1, 2), 2),
        tup(multi(7, 0, 3), 2),
        tup(closed(2, 3, 0), 2),
        tup(TW { kind: Kind::Mint { v: 5 }, ..mint(2, 1, 4) }, 2),
        tnote(2, 1, 2),
    ];
    let second = vec![
        tup(mint(2, 1, 1), 2),
        tup(tok22(4, 1, 0, 6, 2, 0), 2),
        tup(tok22(8, 1, 0, 5, 2, 1), 2),
        tup(multi(3, 0, 1), 2),
        tup(tok(3, 1, 0, 5, 0), 0),
    ];
    let mut ops = vec![SnapOp::Transfer(0), SnapOp::Transfer(1)];
    ops.extend(first.into_iter().map(SnapOp::First));
    ops.extend(second.into_iter().map(SnapOp::Second));
    out.push((
        TokenSnap {
            name: "T06-programs".into(),
            ops,
            accounts: vec![0, 2, 3, 4, 6, 7, 8],
            queries: queries.clone(),
            prefix: vec![],
        },
        4,
        5,
    ));
    // a well filled store, different numbering in the second one
    let prefix: Vec<SnapOp> = [
        tup(mint(0, 0, 1), 2),
        tup(mint(1, 0, 1), 2),
        tup(mint(2, 1, 1), 2),
        tup(tok(3, 2, 0, 5, 0), 2),
        tup(tok(4, 2, 0, 5, 1), 2),
        tup(tok22(6, 2, 0, 5, 2, 4), 2),
        tup(multi(7, 0, 2), 2),
    ]
    .into_iter()
    .map(SnapOp::First)
    .collect();
    let mut ops = vec![SnapOp::Transfer(0), SnapOp::Transfer(1)];
    for op in [
        tup(tok(3, 3, 0, 6, 1), 2),
        tup(closed(4, 3, 0), 2),
        tup(closed(7, 3, 0), 2),
        tup(closed(1, 3, 0), 2),
        tup(mint(1, 0, 4), 2),
        tup(tok22(6, 3, 0, 6, 2, 0), 0),
        tnote(3, 2, 2),
    ] {
        ops.push(SnapOp::First(op));
    }
    for op in [
        tup(mint(2, 1, 1), 2),
        tup(mint(1, 0, 1), 2),
        tup(tok(8, 1, 0, 5, 1), 2),
        tup(tok(9, 1, 0, 6, 0), 2),
        tup(tok(3, 5, 0, 6, 0), 2),
        tup(closed(4, 6, 0), 0),
        tnote(6, 5, 2),
    ] {
        ops.push(SnapOp::Second(op));
    }
    out.push((
        TokenSnap {
            name: "T06-renumber".into(),
            ops,
            accounts: vec![0, 1, 2, 3, 4, 6, 7, 8, 9],
            queries,
            prefix,
        },
        4,
        5,
    ));
    // many accounts of every kind, loaded into an empty store and into one with other mints
    let prefix = large("T06").pop().unwrap().0.prefix.into_iter().map(SnapOp::First).chain(
        [tup(mint(25, 1, 1), 2), tup(mint(24, 0, 1), 2), tup(tok(90, 1, 0, 5, 24), 2)].map(SnapOp::Second),
    );
    let mut ops = vec![SnapOp::Transfer(0), SnapOp::Transfer(1)];
    for op in [tnote(3, 2, 2), tnote(4, 3, 2), tup(closed(25, 3, 0), 2)] {
        ops.push(SnapOp::First(op));
    }
    ops.push(SnapOp::Second(tup(mint(20, 0, 1), 2)));
    out.push((
        TokenSnap {
            name: "T06-crowd".into(),
            ops,
            accounts: (20..207).collect(),
            queries: vec![by_owner(0, 5), by_owner(1, 6), ext(by_owner(1, 8)), by_mint(0, 22), by_mint(1, 21), ext(by_mint(1, 25)), mints(0), mints(1)],
            prefix: prefix.collect(),
        },
        2,
        4,
    ));
    out
}

// ---- histories in which a finalized state arrives late: known findings

pub struct Stale;
impl Stale {
    fn histories(&self) -> Vec<(&'static str, Vec<TOp>)> {
        let m = tup(mint(0, 0, 1), 2);
        vec![
            ("older state delivered as finalized after a newer one", vec![m, tup(tok(2, 3, 0, 5, 0), 2), tup(tok(2, 2, 0, 5, 0), 2)]),
            ("older state delivered as processed after a newer finalized one, its slot is finalized", vec![
                m,
                tup(tok(2, 3, 0, 5, 0), 2),
                tup(tok(2, 2, 0, 5, 0), 0),
                tnote(2, 1, 2),
            ]),
            ("older state delivered as finalized after the account was closed", vec![
                m,
                tup(tok(2, 2, 0, 5, 0), 2),
                tup(closed(2, 3, 0), 2),
                tup(tok(2, 2, 1, 5, 0), 2),
            ]),
        ]
    }
}
impl Cases for Stale {
    fn max_findings(&self) -> usize {
        self.len()
    }
    fn name(&self) -> String {
        "T03-stale".into()
    }
    fn len(&self) -> usize {
        self.histories().len()
    }
    fn describe(&self, i: usize) -> String {
        let (n, h) = &self.histories()[i];
        format!("{n}: {h:?}")
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let s = new_token_store();
        let (_, h) = &self.histories()[i];
        let mut newest: Option<TW> = None;
        for op in h {
            treal(&s, op);
            if let TOp::Update(w, _) = op {
                if w.addr == 2 && newest.map_or(true, |n| (n.slot, n.wv) < (w.slot, w.wv)) {
                    newest = Some(*w);
                }
            }
        }
        let want = newest.filter(|w| w.alive()).map(|w| Want { seen: expected(&w, false), optional: false });
        let got = tread(&s, 2, 2).map_err(|e| format!("{e:?}"))?;
        one_ok(&got, &want)?;
        Ok(1)
    }
}

pub fn run(property: &str, report: &Report) {
    let depth = |q: usize, t: usize| if report.thorough { t } else { q };
    for (s, q, t) in scenarios(property) {
        seq::explore(&s, depth(q, t), report);
    }
    if property == "T03" {
        cases::explore(&Stale, report);
    }
    if property == "T06" {
        for (s, q, t) in snap_scenarios() {
            seq::explore(&s, depth(q, t), report);
        }
    }
    report.assume("finalized states of an account are delivered in order (the exceptions are enumerated as known findings), parents of slots are known through notifications");
    report.assume("token accounts are compared from the moment their mint is finalized; lamports of token accounts and the slot of finalized ones are not kept by the store");
}

pub fn replay_case(name: &str, i: usize) -> Option<Vec<String>> {
    (name == "T03-stale").then(|| cases::replay(&Stale, i))
}

pub fn replay(name: &str, indices: &[usize]) -> Option<Vec<String>> {
    for p in ["T03", "T04", "T05"] {
        if let Some((s, _, _)) = scenarios(p).iter().find(|x| x.0.name == name) {
            return Some(seq::replay(s, indices));
        }
    }
    snap_scenarios()
        .iter()
        .find(|x| x.0.name == name)
        .map(|x| seq::replay(&x.0, indices))
}
