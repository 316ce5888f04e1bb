//! Damaged snapshots: S01.
use crate::cases::{self, Cases};
use crate::main_model::{Filters, Write};
use crate::main_seq::{dead, list, new_store, note, real_apply, up, w};
use crate::report::Report;
use crate::token_model::*;
use crate::token_seq::*;
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::AccountFilterType;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::slot_info::SlotInfo;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeSet;

/// what a client can see of a store
type View = Vec<String>;

fn look(
    s: &dyn AccountStorageInterface,
    keys: &[Pubkey],
    queries: &[(Pubkey, Option<Vec<AccountFilterType>>)],
) -> View {
    let mut keys: BTreeSet<Pubkey> = keys.iter().copied().collect();
    let mut out = vec![];
    for (p, f) in queries {
        for c in COMMITMENTS {
            let r = s.get_program_accounts(*p, f.clone(), c).map(|v| list(&v));
            if let Ok(v) = &r {
                keys.extend(v.iter().map(|x| x.pubkey));
            }
            out.push(format!("query of {p} {f:?} at {c}: {r:?}"));
        }
    }
    for k in keys {
        for c in COMMITMENTS {
            let r = s.get_account(k, c).map(|x| x.map(|x| seen(&x)));
            out.push(format!("read of {k} at {c}: {r:?}"));
        }
    }
    out
}

fn unchanged(before: &View, after: &View) -> Result<(), String> {
    for (b, a) in before.iter().zip(after) {
        if a != b {
            return Err(format!("{a} instead of {b}"));
        }
    }
    if before.len() != after.len() {
        return Err("other accounts are visible".into());
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Damage {
    Truncate(usize),
    Byte(usize, u8),
    /// the byte is removed, the rest moves
    Missing(usize),
    /// decompressed content of a token snapshot is damaged
    InnerTruncate(usize),
    InnerByte(usize, u8),
    InnerMissing(usize),
}

fn damages(bytes: &[u8], inner: bool, thorough: bool) -> Vec<Damage> {
    let mut out = vec![];
    for i in 0..bytes.len() {
        let values: BTreeSet<u8> = if thorough {
            (0..=255).collect()
        } else {
            (0..8)
                .map(|b| bytes[i] ^ (1 << b))
                .chain([0, 0xff, 0x7f, bytes[i].wrapping_add(1), bytes[i].wrapping_sub(1)])
                .collect()
        };
        if inner {
            out.push(Damage::InnerTruncate(i));
            out.push(Damage::InnerMissing(i));
        } else {
            out.push(Damage::Truncate(i));
            out.push(Damage::Missing(i));
        }
        for v in values {
            if v != bytes[i] {
                out.push(if inner { Damage::InnerByte(i, v) } else { Damage::Byte(i, v) });
            }
        }
    }
    out
}

fn damaged(bytes: &[u8], inner: &[u8], d: Damage) -> Vec<u8> {
    let change = |b: &[u8]| {
        let mut b = b.to_vec();
        match d {
            Damage::Truncate(n) | Damage::InnerTruncate(n) => b.truncate(n),
            Damage::Byte(i, v) | Damage::InnerByte(i, v) => b[i] = v,
            Damage::Missing(i) | Damage::InnerMissing(i) => {
                b.remove(i);
            }
        }
        b
    };
    match d {
        Damage::Truncate(_) | Damage::Byte(..) | Damage::Missing(_) => change(bytes),
        _ => lz4::block::compress(&change(inner), None, true).unwrap(),
    }
}

pub struct Damaged {
    name: String,
    token: bool,
    program: Pubkey,
    snapshot: Vec<u8>,
    inner: Vec<u8>,
    damages: Vec<Damage>,
}

impl Damaged {
    /// store which already has accounts, some of them also in the snapshot
    fn target(&self) -> Box<dyn AccountStorageInterface> {
        if self.token {
            let s = new_token_store();
            for op in [
                tup(mint(1, 0, 1), 2),
                tup(tok(2, 1, 0, 8, 1), 2),
                tup(mint(6, 1, 1), 2),
                tup(tok(3, 30, 0, 8, 1), 0),
                tup(multi(4, 0, 1), 2),
                tnote(31, 30, 0),
                tnote(30, 29, 1),
                tup(tok(2, 31, 0, 9, 1), 0),
            ] {
                treal(&s, &op);
            }
            Box::new(s)
        } else {
            let s = new_store(&Filters::programs(&[0, 1]));
            for op in [
                up(w(0, 1, 0, 0), 2),
                up(w(1, 30, 0, 0), 0),
                note(30, 29, 1),
                up(w(2, 31, 0, 0), 0),
                up(w(5, 1, 0, 1), 2),
                up(w(6, 2, 0, 0), 2),
            ] {
                real_apply(&s, &op);
            }
            Box::new(s)
        }
    }
    fn empty(&self) -> Box<dyn AccountStorageInterface> {
        if self.token {
            Box::new(new_token_store())
        } else {
            Box::new(new_store(&Filters::programs(&[0, 1])))
        }
    }
    fn look(&self, s: &dyn AccountStorageInterface) -> View {
        if self.token {
            let mut q = vec![];
            for p in 0..2 {
                for m in [None, Some(1), Some(6)] {
                    for o in [None, Some(8), Some(9)] {
                        if m.is_some() || o.is_some() {
                            let x = Q { p, mint: m, owner: o, size: Some(165), ..Default::default() };
                            q.push((token_program(p), Some(x.filters())));
                            let x = Q { p, mint: m, owner: o, typ: Some(2), ..Default::default() };
                            q.push((token_program(p), Some(x.filters())));
                        }
                    }
                }
                let x = Q { p, size: Some(82), ..Default::default() };
                q.push((token_program(p), Some(x.filters())));
            }
            let keys: Vec<_> = (0..10).map(tkey).collect();
            look(s, &keys, &q)
        } else {
            let f = crate::main_model::f_real(&crate::main_model::F::Byte(0, 1));
            let size = crate::main_model::f_real(&crate::main_model::F::Size(3));
            let mut q = vec![];
            for p in 0..2 {
                for f in [None, Some(vec![f.clone()]), Some(vec![size.clone()])] {
                    q.push((program_key(p), f));
                }
            }
            let keys: Vec<_> = (0..8).map(account_key).collect();
            look(s, &keys, &q)
        }
    }
    /// the store is used in every way
    fn exercise(&self, s: &dyn AccountStorageInterface) -> u64 {
        let mut n = self.look(s).len() as u64;
        let programs = if self.token {
            [token_program(0), token_program(1)]
        } else {
            [program_key(0), program_key(1)]
        };
        for p in programs {
            if let Ok(snap) = s.create_snapshot(p) {
                let other = self.empty();
                let _ = other.load_from_snapshot(p, snap);
                n += self.look(&*other).len() as u64;
            }
        }
        if self.token {
            for a in 0..8 {
                treal(s, &tup(tok(a, 40 + a as u64, 0, 9, 1), 0));
            }
            for op in [
                tnote(45, 44, 0),
                tup(closed(2, 45, 1), 1),
                tnote(45, 44, 1),
                tup(mint(6, 1, 46), 2),
                tnote(46, 45, 2),
            ] {
                treal(s, &op);
            }
        } else {
            for a in 0..8 {
                real_apply(s, &up(w(a, 40 + a as u64 % 4, 0, a % 2), 0));
            }
            for op in [
                up(dead(2, 44, 0, 0), 1),
                note(43, 42, 1),
                note(43, 42, 2),
                note(44, 43, 2),
            ] {
                real_apply(s, &op);
            }
        }
        n + self.look(s).len() as u64
    }
}

impl Cases for Damaged {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> usize {
        self.damages.len()
    }
    fn describe(&self, i: usize) -> String {
        format!(
            "snapshot of {} bytes ({} decompressed) with {:?}",
            self.snapshot.len(),
            self.inner.len(),
            self.damages[i]
        )
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let d = self.damages[i];
        let bytes = damaged(&self.snapshot, &self.inner, d);
        let mut n = 0;
        for s in [self.target(), self.empty()] {
            let before = self.look(&*s);
            let r = s.load_from_snapshot(self.program, bytes.clone());
            let after = self.look(&*s);
            n += after.len() as u64;
            let truncated = matches!(d, Damage::Truncate(_) | Damage::InnerTruncate(_));
            let used = truncated || r.is_ok();
            match r {
                Err(e) => unchanged(&before, &after)
                    .map_err(|x| format!("refused ({e:?}), but the store has changed: {x}"))?,
                Ok(()) => {
                    if truncated {
                        return Err("a truncated snapshot is accepted".into());
                    }
                }
            }
            if used {
                n += self.exercise(&*s);
            }
        }
        Ok(n)
    }
}

fn main_snapshot(writes: &[(Write, CompressionMethod, usize)]) -> Vec<u8> {
    let s = new_store(&Filters::programs(&[0]));
    for (wr, m, len) in writes {
        let mut x = crate::main_model::seen_of(wr);
        x.data = (0..*len).map(|i| (i % 7) as u8).collect();
        s.update_account(account_data(&x, m.clone()), COMMITMENTS[2]);
    }
    s.process_slot_data(SlotInfo { slot: 20, parent: 19, root: 0 }, COMMITMENTS[2]);
    s.create_snapshot(program_key(0)).unwrap()
}

fn token_snapshot(p: u8, writes: &[TW]) -> Vec<u8> {
    let s = new_token_store();
    for x in writes {
        treal(&s, &tup(*x, 2));
    }
    s.create_snapshot(token_program(p)).unwrap()
}

pub fn all(thorough: bool) -> Vec<Damaged> {
    let mut out = vec![];
    let mut add = |name: &str, token: bool, p: u8, snapshot: Vec<u8>| {
        let inner = if token {
            lz4::block::decompress(&snapshot, None).unwrap()
        } else {
            vec![]
        };
        let mut d = damages(&snapshot, false, thorough);
        if token {
            d.extend(damages(&inner, true, thorough));
        }
        out.push(Damaged {
            name: format!("S01-{name}"),
            token,
            program: if token { token_program(p) } else { program_key(p) },
            snapshot,
            inner,
            damages: d,
        });
    };
    let none = CompressionMethod::None;
    let (lz, zs) = (CompressionMethod::Lz4(1), CompressionMethod::Zstd(1));
    add("main-nothing", false, 0, main_snapshot(&[]));
    add("main-none", false, 0, main_snapshot(&[
        (w(0, 10, 0, 0), none.clone(), 3),
        (w(1, 11, 1, 0), none.clone(), 0),
        (w(3, 12, 0, 0), none.clone(), 40),
    ]));
    add("main-lz4", false, 0, main_snapshot(&[
        (w(0, 10, 0, 0), lz.clone(), 3),
        (w(1, 11, 1, 0), lz.clone(), 0),
        (w(3, 12, 0, 0), lz.clone(), 200),
    ]));
    add("main-zstd", false, 0, main_snapshot(&[
        (w(0, 10, 0, 0), zs.clone(), 3),
        (w(1, 11, 1, 0), zs.clone(), 0),
        (w(3, 12, 0, 0), zs.clone(), 200),
    ]));
    add("main-mixed", false, 0, main_snapshot(&[
        (w(0, 10, 0, 0), none, 5),
        (w(2, 12, 3, 0), lz, 30),
        (w(4, 12, 3, 0), zs, 30),
    ]));
    add("token-nothing", true, 0, token_snapshot(0, &[]));
    add("token", true, 0, token_snapshot(0, &[
        mint(1, 0, 10),
        tok(2, 10, 0, 8, 1),
        multi(5, 0, 10),
        TW { addr: 7, p: 0, slot: 11, wv: 0, kind: Kind::Token { owner: 9, mint: 1, v: 1 } },
    ]));
    add("token-2022", true, 1, token_snapshot(1, &[
        TW { addr: 6, p: 1, slot: 10, wv: 0, kind: Kind::Mint { v: 5 } },
        tok22(2, 10, 0, 8, 6, 5),
        tok22(3, 10, 0, 9, 6, 0),
        multi(4, 1, 11),
    ]));
    out
}

pub fn run(report: &Report) {
    for d in all(report.thorough) {
        cases::explore(&d, report);
    }
}

pub fn replay_case(thorough: bool, name: &str, i: usize) -> Option<Vec<String>> {
    all(thorough).iter().find(|d| d.name == name).map(|d| cases::replay(d, i))
}
