//! Enumerations of the inputs of the token store: T01, T02, T08, and the sequences of T05 on the
//! storage of the token accounts.
use crate::cases::{self, Cases};
use crate::report::Report;
use crate::seq::{self, Scenario};
use crate::token_model::*;
use crate::util::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::{
    AccountFilterType, MemcmpFilter, MemcmpFilterData,
};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_token_account_storage::account_types::{Program, TokenAccount, TokenProgramAccountState};
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::token_account_storage_interface::TokenAccountStorageInterface;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};

/// mixed radix counter
fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}
fn product(radix: &[usize]) -> usize {
    radix.iter().product()
}
fn pk(x: u8) -> Pubkey {
    let mut k = [x; 32];
    for (i, b) in k.iter_mut().enumerate() {
        *b = b.wrapping_add(i as u8);
    }
    Pubkey::new_from_array(k)
}

// ---- T01

/// program, state, deleted, delegate, native, close authority, additional data, amount, mint, key
pub struct Compact {
    ext: Vec<Option<Vec<u8>>>,
    amounts: Vec<u64>,
    mints: Vec<u32>,
}
impl Compact {
    fn new(thorough: bool) -> Self {
        let mut ext = vec![
            None,
            Some(vec![]),
            Some(vec![2]),
            Some((0..=255).collect()),
            Some(vec![0xff; 300]),
            Some(vec![0; 4]),
            Some(vec![1; 78]),
            Some((0..1000).map(|x| x as u8).collect()),
        ];
        let mut amounts = vec![0, 1, u64::MAX, 255, 256, 1 << 32, 1 << 63, 0x0102030405060708];
        let mut mints = vec![0, 1, u32::MAX, 255, 256, 65_536, 0x01020304];
        if thorough {
            ext.push(Some(vec![9; 65_536]));
            amounts.extend((1..63).map(|x| 1 << x));
            mints.extend((1..32).map(|x| 1 << x));
        }
        Compact { ext, amounts, mints }
    }
    fn radix(&self) -> [usize; 10] {
        [2, 3, 2, 4, 4, 3, self.ext.len(), self.amounts.len(), self.mints.len(), 3]
    }
    fn build(&self, i: usize) -> TokenAccount {
        let d = digits(i, &self.radix());
        let key = |x: usize| match x {
            0 => Pubkey::default(),
            1 => Pubkey::new_from_array([0xff; 32]),
            _ => pk(0x31),
        };
        TokenAccount {
            program: [Program::TokenProgram, Program::Token2022Program][d[0]],
            state: [
                TokenProgramAccountState::Uninitialized,
                TokenProgramAccountState::Initialized,
                TokenProgramAccountState::Frozen,
            ][d[1]],
            is_deleted: d[2] == 1,
            delegate: [None, Some((Pubkey::default(), 0)), Some((pk(1), u64::MAX)), Some((pk(2), 0x0102030405060708))][d[3]],
            is_native: [None, Some(0), Some(u64::MAX), Some(2_039_280)][d[4]],
            close_authority: [None, Some(Pubkey::default()), Some(pk(3))][d[5]],
            additional_data: self.ext[d[6]].clone(),
            amount: self.amounts[d[7]],
            mint: self.mints[d[8]],
            pubkey: key(d[9]),
            owner: key((d[9] + 1) % 3),
        }
    }
}
impl Cases for Compact {
    fn name(&self) -> String {
        "T01-compact".into()
    }
    fn len(&self) -> usize {
        product(&self.radix())
    }
    fn describe(&self, i: usize) -> String {
        let mut t = self.build(i);
        let n = t.additional_data.as_ref().map(|x| x.len());
        t.additional_data = t.additional_data.map(|x| x.into_iter().take(8).collect());
        format!("{t:?} (additional data of {n:?} bytes)")
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let t = self.build(i);
        let b = t.to_bytes();
        let back = TokenAccount::from_bytes(&b);
        if back != t {
            return Err(format!("read back as {back:?}"));
        }
        if TokenAccount::get_pubkey_from_binary(&b) != t.pubkey {
            return Err("another address is extracted".into());
        }
        if TokenAccount::get_owner_from_binary(&b) != t.owner {
            return Err("another owner is extracted".into());
        }
        if TokenAccount::get_mint_index_from_binary(&b) != t.mint {
            return Err("another mint is extracted".into());
        }
        if b != back.to_bytes() {
            return Err("not the same bytes when written again".into());
        }
        Ok(5)
    }
}

/// additional data of each length
pub struct Lengths(Vec<usize>);
impl Lengths {
    fn new(thorough: bool) -> Self {
        let mut v: Vec<usize> = (0..if thorough { 20_000 } else { 2_000 }).collect();
        for p in 8..=23 {
            for d in 0..3 {
                v.push((1 << p) + d - 1);
            }
        }
        v.push(10 * 1024 * 1024);
        Lengths(v)
    }
}
impl Cases for Lengths {
    fn name(&self) -> String {
        "T01-lengths".into()
    }
    fn len(&self) -> usize {
        2 * self.0.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{} bytes of additional data, {} optional fields", self.0[i / 2], ["no", "all"][i % 2])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let n = self.0[i / 2];
        let all = i % 2 == 1;
        let t = TokenAccount {
            program: Program::Token2022Program,
            state: TokenProgramAccountState::Frozen,
            is_deleted: false,
            delegate: all.then(|| (pk(1), 7)),
            is_native: all.then_some(9),
            close_authority: all.then(|| pk(3)),
            additional_data: Some((0..n).map(|x| (x * 7 + x / 256 + 1) as u8).collect()),
            amount: 0x0102030405060708,
            mint: 0x01020304,
            pubkey: pk(4),
            owner: pk(5),
        };
        let b = t.to_bytes();
        let back = TokenAccount::from_bytes(&b);
        if back != t {
            let k = back.additional_data.as_ref().map(|x| x.len());
            return Err(format!("read back differently, with {k:?} bytes of additional data"));
        }
        if TokenAccount::get_pubkey_from_binary(&b) != t.pubkey
            || TokenAccount::get_owner_from_binary(&b) != t.owner
            || TokenAccount::get_mint_index_from_binary(&b) != t.mint
        {
            return Err("another address, owner or mint is extracted".into());
        }
        Ok(4)
    }
}

// ---- T02

const PATHS: usize = 5;
/// how the account arrives and is read
fn path_name(p: usize) -> &'static str {
    [
        "delivered as finalized",
        "initialised",
        "delivered as processed, read as processed",
        "delivered as processed, slot confirmed, read as confirmed",
        "delivered as processed, slot finalized",
    ][p]
}
/// the account with the data takes the path; returns what is served
fn serve(
    s: &dyn AccountStorageInterface,
    addr: Pubkey,
    owner: Pubkey,
    data: &[u8],
    lamports: u64,
    path: usize,
    method: CompressionMethod,
) -> Result<Option<Seen>, String> {
    let a = account_data(
        &Seen {
            pubkey: addr,
            slot: 5,
            wv: 3,
            owner,
            lamports,
            data: data.to_vec(),
            executable: false,
            rent_epoch: u64::MAX,
        },
        method,
    );
    let info = SlotInfo { slot: 5, parent: 4, root: 0 };
    let mut c = 2;
    let mut reported = None;
    match path {
        0 => {
            if !s.update_account(a, COMMITMENTS[2]) {
                return Err("is refused".into());
            }
        }
        1 => s.initilize_or_update_account(a),
        p => {
            if !s.update_account(a, COMMITMENTS[0]) {
                return Err("is refused".into());
            }
            c = p - 2;
            if p > 2 {
                reported = Some(s.process_slot_data(info, COMMITMENTS[c]));
            }
        }
    }
    let got = s.get_account(addr, COMMITMENTS[c]).map_err(|e| format!("read fails: {e:?}"))?;
    if let Some(r) = reported {
        let mine: Vec<Vec<u8>> = r.iter().filter(|x| x.pubkey == addr).map(|x| x.account.data.data()).collect();
        let want: Vec<Vec<u8>> = got.iter().map(|x| x.account.data.data()).collect();
        if mine != want {
            return Err(format!("the notification reports {} accounts with {:?}, the read {:?}", r.len(), mine, want));
        }
    }
    Ok(got.map(|x| seen(&x)))
}

fn known_mint(s: &dyn AccountStorageInterface, program: u8, key: Pubkey) {
    let m = MintParts {
        authority: None,
        supply: 7,
        decimals: 2,
        initialized: true,
        freeze: None,
        ext: vec![],
    };
    s.update_account(
        account_data(
            &Seen {
                pubkey: key,
                slot: 1,
                wv: 0,
                owner: token_program(program),
                lamports: 10,
                data: mint_bytes(&m),
                executable: false,
                rent_epoch: u64::MAX,
            },
            CompressionMethod::None,
        ),
        COMMITMENTS[2],
    );
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Token,
    Mint,
    Multisig,
}
struct Serve {
    what: What,
    ext: Vec<usize>,
}
impl Serve {
    fn new(what: What, thorough: bool) -> Self {
        // lengths of the extended part, the length of a multisig is not used by the program
        let max = if thorough { 2_000 } else { 420 };
        let mut ext: Vec<usize> = (0..=max).filter(|x| *x != 190).collect();
        ext.extend([10_000, 32_767, 65_535, 65_536, 65_600]);
        Serve { what, ext }
    }
    fn radix(&self) -> Vec<usize> {
        match self.what {
            // path, program, state, delegate, native, close, amount, extension
            What::Token => vec![PATHS, 2, 3, 3, 3, 2, 2, self.ext.len()],
            // path, program, authority, freeze, supply, decimals, initialized, extension
            What::Mint => vec![PATHS, 2, 2, 2, 3, 3, 2, self.ext.len()],
            // path, program, m, n, initialized
            What::Multisig => vec![PATHS, 2, 12, 12, 2],
        }
    }
    fn build(&self, i: usize) -> (usize, u8, Vec<u8>, u64) {
        let d = digits(i, &self.radix());
        let ext = |n: usize, typ: u8| -> Vec<u8> {
            if d[1] == 0 || n == 0 {
                return vec![];
            }
            let mut e = vec![typ];
            e.extend((1..n).map(|x| (x * 7) as u8));
            e
        };
        let data = match self.what {
            What::Token => token_bytes(&TokenParts {
                mint: pk(0x70),
                owner: pk(0x90),
                amount: [0, u64::MAX][d[6]],
                delegate: [None, Some((pk(0x20), 0)), Some((pk(0x21), u64::MAX))][d[3]],
                state: d[2] as u8,
                native: [None, Some(0), Some(2_039_280)][d[4]],
                close: [None, Some(pk(0x30))][d[5]],
                ext: ext(self.ext[d[7]], 2),
            }),
            What::Mint => mint_bytes(&MintParts {
                authority: [None, Some(pk(0x40))][d[2]],
                freeze: [None, Some(pk(0x41))][d[3]],
                supply: [0, 1, u64::MAX][d[4]],
                decimals: [0, 9, 255][d[5]],
                initialized: d[6] == 1,
                ext: ext(self.ext[d[7]], 1),
            }),
            What::Multisig => {
                let signers: Vec<Pubkey> = (0..d[3]).map(|x| pk(0x50 + x as u8)).collect();
                multisig_bytes(d[2] as u8, d[3] as u8, d[4] == 1, &signers)
            }
        };
        let lamports = 1_461_600 + i as u64 % 7;
        (d[0], d[1] as u8, data, lamports)
    }
}
impl Cases for Serve {
    fn name(&self) -> String {
        match self.what {
            What::Token => "T02-token",
            What::Mint => "T02-mint",
            What::Multisig => "T02-multisig",
        }
        .into()
    }
    fn len(&self) -> usize {
        product(&self.radix())
    }
    fn describe(&self, i: usize) -> String {
        let (path, p, data, _) = self.build(i);
        format!("{:?} program {p} {}: {} bytes {:?}", self.name(), path_name(path), data.len(), data)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let (path, p, data, lamports) = self.build(i);
        let s = new_token_store();
        known_mint(&s, p, pk(0x70));
        let method = [
            CompressionMethod::None,
            CompressionMethod::Lz4(1),
        ][i % 2]
            .clone();
        let addr = pk(0xc0);
        let got = serve(&s, addr, token_program(p), &data, lamports, path, method)?;
        let got = got.ok_or("is not served")?;
        if got.data != data {
            return Err(format!("other data is served: {:?}", got.data));
        }
        if got.owner != token_program(p) || got.pubkey != addr || got.executable {
            return Err(format!("served as {}", got.show()));
        }
        if self.what != What::Token && got.lamports != lamports {
            return Err(format!("served with {} lamports instead of {lamports}", got.lamports));
        }
        if got.lamports == 0 {
            return Err("served without lamports".into());
        }
        // the queries return the same
        let c = if path < 2 || path == 4 { 2 } else { path - 2 };
        let (filters, n) = match self.what {
            What::Token if data.len() == 165 => (vec![
                Q { size: Some(165), ..Default::default() }.filters().remove(0),
                mem(32, pk(0x90).to_bytes().to_vec()),
            ], 1),
            What::Token => (vec![mem(165, vec![2]), mem(0, pk(0x70).to_bytes().to_vec())], 1),
            What::Mint if data.len() == 82 => (vec![AccountFilterType::Datasize(82)], 2),
            _ => return Ok(4),
        };
        let r = s
            .get_program_accounts(token_program(p), Some(filters), COMMITMENTS[c])
            .map_err(|e| format!("query fails: {e:?}"))?;
        let mine: Vec<Seen> = r.iter().map(seen).filter(|x| x.pubkey == addr).collect();
        if r.len() != n || mine != vec![got.clone()] {
            return Err(format!("query returns {} accounts: {}", r.len(), show_list(&mine)));
        }
        Ok(6)
    }
}
fn mem(offset: u64, b: Vec<u8>) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b) })
}

/// bytes of optional fields which are not set any more: the token programs only clear the tag
struct StaleBytes;
impl StaleBytes {
    fn build(&self, i: usize) -> (&'static str, Vec<u8>) {
        let token = TokenParts {
            mint: pk(0x70),
            owner: pk(0x90),
            amount: 5,
            delegate: Some((pk(0x20), 0)),
            state: 1,
            native: None,
            close: Some(pk(0x30)),
            ext: vec![],
        };
        let m = MintParts {
            authority: Some(pk(0x40)),
            supply: 1,
            decimals: 1,
            initialized: true,
            freeze: Some(pk(0x41)),
            ext: vec![],
        };
        let mut t = token_bytes(&token);
        let mut m = mint_bytes(&m);
        match i {
            0 => {
                t[72..76].fill(0);
                ("token account whose delegate was revoked", t)
            }
            1 => {
                t[129..133].fill(0);
                ("token account whose close authority was removed", t)
            }
            2 => {
                m[0..4].fill(0);
                ("mint whose authority was removed", m)
            }
            _ => {
                m[46..50].fill(0);
                ("mint whose freeze authority was removed", m)
            }
        }
    }
}
impl Cases for StaleBytes {
    fn max_findings(&self) -> usize {
        self.len()
    }
    fn name(&self) -> String {
        "T02-stale-bytes".into()
    }
    fn len(&self) -> usize {
        4
    }
    fn describe(&self, i: usize) -> String {
        self.build(i).0.into()
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let s = new_token_store();
        known_mint(&s, 0, pk(0x70));
        let (_, data) = self.build(i);
        let got = serve(&s, pk(0xc0), token_program(0), &data, 9, 0, CompressionMethod::None)?;
        let got = got.ok_or("is not served")?;
        if got.data != data {
            return Err("the bytes of the removed key are served as zeros".into());
        }
        Ok(1)
    }
}

// ---- T08

/// contents x lengths x program x what is known before
struct Garbage {
    lens: Vec<usize>,
}
const PATTERNS: usize = 12;
fn pattern(k: usize, len: usize) -> Vec<u8> {
    let token = |state: u8, delegate: bool| {
        token_bytes(&TokenParts {
            mint: pk(0x70),
            owner: pk(0x90),
            amount: 1,
            delegate: delegate.then(|| (pk(1), 1)),
            state,
            native: None,
            close: None,
            ext: vec![],
        })
    };
    let fill = |mut d: Vec<u8>, b: u8| {
        d.resize(len.max(d.len()), b);
        d.truncate(len);
        d
    };
    match k {
        0 => vec![0; len],
        1 => vec![1; len],
        2 => vec![2; len],
        3 => vec![0xff; len],
        4 => (0..len).map(|x| x as u8).collect(),
        5 => fill(token(1, true), 1),
        6 => fill(token(2, false), 2),
        // invalid state
        7 => fill(token(3, false), 2),
        8 => fill(token(1, false), 3),
        9 => {
            let m = mint_bytes(&MintParts {
                authority: Some(pk(4)),
                supply: 3,
                decimals: 3,
                initialized: true,
                freeze: None,
                ext: vec![1],
            });
            fill(m, 1)
        }
        10 => fill(multisig_bytes(1, 255, true, &[pk(1)]), 0),
        // invalid tag of the delegate
        _ => {
            let mut t = token(1, true);
            t[72] = 2;
            fill(t, 2)
        }
    }
}
impl Garbage {
    fn new(thorough: bool) -> Self {
        let mut lens: Vec<usize> = (0..=if thorough { 2_000 } else { 520 }).collect();
        lens.push(10_000);
        Garbage { lens }
    }
    fn radix(&self) -> Vec<usize> {
        vec![self.lens.len(), PATTERNS, 2, 3, 2]
    }
}
/// every kind of request; nothing may panic, and what is returned passes the filters
fn all_requests(s: &dyn AccountStorageInterface, keys: &[Pubkey]) -> Result<u64, String> {
    let mut n = 0;
    for c in COMMITMENTS {
        for k in keys {
            let _ = s.get_account(*k, c);
            n += 1;
        }
        for p in 0..2 {
            for f in [
                vec![AccountFilterType::Datasize(165), mem(32, pk(0x90).to_bytes().to_vec())],
                vec![AccountFilterType::Datasize(165), mem(0, pk(0x70).to_bytes().to_vec())],
                vec![mem(165, vec![2]), mem(32, pk(0x90).to_bytes().to_vec())],
                vec![mem(165, vec![2]), mem(0, pk(0x70).to_bytes().to_vec())],
                vec![AccountFilterType::Datasize(82)],
            ] {
                if let Ok(l) = s.get_program_accounts(token_program(p), Some(f), c) {
                    for a in l {
                        let _ = a.account.data.data();
                    }
                }
                n += 1;
            }
        }
    }
    Ok(n)
}
impl Cases for Garbage {
    fn name(&self) -> String {
        "T08-content".into()
    }
    fn len(&self) -> usize {
        product(&self.radix())
    }
    fn describe(&self, i: usize) -> String {
        let d = digits(i, &self.radix());
        format!(
            "program {} account of {} bytes, pattern {}, {}, mint {}",
            d[2],
            self.lens[d[0]],
            d[1],
            ["new account", "replaces a token account", "replaces a mint"][d[3]],
            ["never received", "received before"][d[4]]
        )
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let d = digits(i, &self.radix());
        let p = d[2] as u8;
        let data = pattern(d[1], self.lens[d[0]]);
        let mut n = 0;
        for commitment in [2, 0] {
            let s = new_token_store();
            if d[4] == 1 {
                known_mint(&s, p, pk(0x70));
            }
            let addr = pk(0xc0);
            let account = |slot: u64, data: &[u8], lamports: u64| {
                account_data(
                    &Seen {
                        pubkey: addr,
                        slot,
                        wv: 0,
                        owner: token_program(p),
                        lamports,
                        data: data.to_vec(),
                        executable: false,
                        rent_epoch: 0,
                    },
                    CompressionMethod::None,
                )
            };
            match d[3] {
                1 => {
                    s.update_account(account(2, &pattern(5, 165), 1), COMMITMENTS[2]);
                }
                2 => {
                    s.update_account(account(2, &pattern(9, 82), 1), COMMITMENTS[2]);
                }
                _ => {}
            }
            let before = s.get_account(addr, COMMITMENTS[0]).map_err(|e| format!("{e:?}"))?.map(|x| seen(&x));
            let keys = [addr, pk(0x70), pk(1), Pubkey::default()];
            let recorded = s.update_account(account(3, &data, 1), COMMITMENTS[commitment]);
            n += all_requests(&s, &keys)?;
            let now = s.get_account(addr, COMMITMENTS[0]).map_err(|e| format!("{e:?}"))?.map(|x| seen(&x));
            if !recorded && now != before {
                return Err("it is refused but changes what is served".into());
            }
            if recorded {
                if let Some(x) = &now {
                    if x.data.len() != data.len() {
                        return Err(format!("it is served with {} bytes", x.data.len()));
                    }
                }
            }
            for c in 0..3 {
                s.process_slot_data(SlotInfo { slot: 3, parent: 2, root: 0 }, COMMITMENTS[c]);
                n += all_requests(&s, &keys)?;
            }
            for q in 0..2 {
                let snap = s.create_snapshot(token_program(q)).map_err(|e| format!("snapshot fails: {e:?}"))?;
                let t = new_token_store();
                t.load_from_snapshot(token_program(q), snap).map_err(|e| format!("loading the snapshot fails: {e:?}"))?;
                n += all_requests(&t, &keys)?;
            }
            s.initilize_or_update_account(account(4, &data, 1));
            s.update_account(account(5, &[], 0), COMMITMENTS[2]);
            n += all_requests(&s, &keys)?;
        }
        Ok(n)
    }
    fn patience(&self) -> std::time::Duration {
        std::time::Duration::from_secs(30)
    }
}

/// any filters
struct AnyFilters {
    f: Vec<(AccountFilterType, Option<(u64, Option<Vec<u8>>)>)>,
}
impl AnyFilters {
    fn new() -> Self {
        let mut f: Vec<(AccountFilterType, Option<(u64, Option<Vec<u8>>)>)> = [0, 82, 165, 166, 170, u64::MAX]
            .into_iter()
            .map(|x| (AccountFilterType::Datasize(x), None))
            .collect();
        let key = pk(0x90).to_bytes().to_vec();
        let mint = pk(0x70).to_bytes().to_vec();
        for offset in [0, 1, 32, 64, 164, 165, u64::MAX] {
            for (data, bytes) in [
                (MemcmpFilterData::Bytes(vec![]), Some(vec![])),
                (MemcmpFilterData::Bytes(vec![2]), Some(vec![2])),
                (MemcmpFilterData::Bytes(key.clone()), Some(key.clone())),
                (MemcmpFilterData::Base58(bs58::encode(&mint).into_string()), Some(mint.clone())),
                (MemcmpFilterData::Bytes(key[..31].to_vec()), Some(key[..31].to_vec())),
                (MemcmpFilterData::Bytes([key.clone(), vec![0]].concat()), Some([key.clone(), vec![0]].concat())),
                (MemcmpFilterData::Base58("0OIl".into()), None),
                (MemcmpFilterData::Base64("%".into()), None),
            ] {
                f.push((
                    AccountFilterType::Memcmp(MemcmpFilter { offset, data }),
                    Some((offset, bytes)),
                ));
            }
        }
        AnyFilters { f }
    }
    fn list(&self, i: usize) -> Vec<usize> {
        let n = self.f.len();
        if i == 0 {
            return vec![];
        }
        if i <= n {
            return vec![i - 1];
        }
        let i = i - n - 1;
        let mut v = vec![i % n, i / n % n];
        if i >= n * n {
            // one more which makes the others supported
            v = vec![(i - n * n) % n, (i - n * n) / n, 2];
        }
        v
    }
    fn matches(&self, k: usize, data: &[u8]) -> bool {
        match (&self.f[k].0, &self.f[k].1) {
            (AccountFilterType::Datasize(n), _) => data.len() as u64 == *n,
            (_, Some((o, Some(b)))) => {
                *o <= data.len() as u64 && data[*o as usize..].get(..b.len()) == Some(&b[..])
            }
            _ => false,
        }
    }
}
impl Cases for AnyFilters {
    fn name(&self) -> String {
        "T08-filters".into()
    }
    fn len(&self) -> usize {
        let n = self.f.len();
        1 + n + 2 * n * n
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.list(i).iter().map(|k| &self.f[*k].0).collect::<Vec<_>>())
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let s = new_token_store();
        known_mint(&s, 0, pk(0x70));
        let mut given = vec![];
        for (k, (p, data, c)) in [
            (0, pattern(5, 165), 2),
            (0, pattern(6, 165), 0),
            (1, pattern(6, 170), 2),
            (1, pattern(6, 165), 0),
            (0, pattern(10, 355), 2),
        ]
        .into_iter()
        .enumerate()
        {
            let w = Seen {
                pubkey: pk(0xc0 + k as u8),
                slot: 3,
                wv: 0,
                owner: token_program(p),
                lamports: 1,
                data,
                executable: false,
                rent_epoch: 0,
            };
            s.update_account(account_data(&w, CompressionMethod::None), COMMITMENTS[c]);
            given.push(w);
        }
        let list = self.list(i);
        let mut n = 0;
        for p in 0..2 {
            for c in COMMITMENTS {
                let filters = list.iter().map(|k| self.f[*k].0.clone()).collect();
                n += 1;
                let Ok(r) = s.get_program_accounts(token_program(p), Some(filters), c) else {
                    continue;
                };
                let got: Vec<Pubkey> = r.iter().map(|x| x.pubkey).collect();
                for a in &r {
                    if a.account.owner != token_program(p) {
                        return Err(format!("an account of the other program is returned: {}", seen(a).show()));
                    }
                    if !list.iter().all(|k| self.matches(*k, &a.account.data.data())) {
                        return Err(format!("{} is returned, it does not match", seen(a).show()));
                    }
                }
                // token accounts which match and can be read are returned
                for w in &given {
                    let Ok(Some(a)) = s.get_account(w.pubkey, c) else { continue };
                    let d = a.account.data.data();
                    if is_token_account(&w.owner, &d)
                        && w.owner == token_program(p)
                        && list.iter().all(|k| self.matches(*k, &d))
                        && !got.contains(&w.pubkey)
                    {
                        return Err(format!("{} is not returned", w.show()));
                    }
                }
                if got.iter().collect::<HashSet<_>>().len() != got.len() {
                    return Err("an account is returned twice".into());
                }
            }
        }
        Ok(n)
    }
}

// ---- T05: the storage of the token accounts

#[derive(Clone, Copy, Debug)]
pub enum StOp {
    Save { addr: u8, p: u8, v: u8 },
    SaveDeleted(u8),
    Delete(u8),
}
pub struct StorageScenario {
    name: String,
    ops: Vec<StOp>,
    addrs: Vec<u8>,
}
pub struct StorageSys {
    real: InmemoryTokenAccountStorage,
    model: BTreeMap<u8, (u32, TokenAccount)>,
    used: HashSet<u32>,
}
pub fn stored(addr: u8, p: u8, v: u8, deleted: bool) -> TokenAccount {
    TokenAccount {
        program: [Program::TokenProgram, Program::Token2022Program][p as usize],
        is_deleted: deleted,
        pubkey: tkey(addr),
        owner: tkey(10 + v),
        mint: v as u32 * 7,
        amount: v as u64 + 1,
        state: TokenProgramAccountState::Initialized,
        delegate: (v == 2).then(|| (tkey(3), 4)),
        is_native: None,
        close_authority: None,
        additional_data: (v == 1 && p == 1).then(|| vec![2, 3, 4]),
    }
}
impl Scenario for StorageScenario {
    type Op = StOp;
    type Sys = StorageSys;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> &[StOp] {
        &self.ops
    }
    fn init(&self) -> StorageSys {
        StorageSys {
            real: InmemoryTokenAccountStorage::default(),
            model: BTreeMap::new(),
            used: HashSet::new(),
        }
    }
    fn apply(&self, sys: &mut StorageSys, op: &StOp, check: bool) -> Result<(), String> {
        match op {
            StOp::Save { .. } | StOp::SaveDeleted(_) => {
                let (addr, t) = match op {
                    StOp::Save { addr, p, v } => (*addr, stored(*addr, *p, *v, false)),
                    StOp::SaveDeleted(addr) => (*addr, stored(*addr, 0, 0, true)),
                    _ => unreachable!(),
                };
                let (index, added) = sys.real.save_or_update(t.clone());
                match sys.model.insert(addr, (index, t)) {
                    Some((old, _)) if old != index || added => {
                        return Err(format!("existing account {addr} at index {old} is saved as {index}, added: {added}"));
                    }
                    None if !added => return Err(format!("new account {addr} is not added")),
                    None if !sys.used.insert(index) => {
                        return Err(format!("index {index} is used again"));
                    }
                    _ => {}
                }
            }
            StOp::Delete(a) => {
                sys.real.delete(&tkey(*a));
                sys.model.remove(a);
            }
        }
        if !check {
            return Ok(());
        }
        for a in &self.addrs {
            let want = sys.model.get(a);
            let got = sys.real.contains(&tkey(*a));
            if got != want.map(|x| x.0) {
                return Err(format!("index of account {a} is {got:?} instead of {:?}", want.map(|x| x.0)));
            }
            let got = sys.real.get_by_pubkey(&tkey(*a));
            if got.as_ref() != want.map(|x| &x.1) {
                return Err(format!("account {a} is {got:?} instead of {want:?}"));
            }
            if let Some((i, t)) = want {
                let got = sys.real.get_by_index([*i].into_iter().collect()).map_err(|e| format!("{e:?}"))?;
                if got != vec![t.clone()] {
                    return Err(format!("account of index {i} is {got:?} instead of {t:?}"));
                }
            }
        }
        let all: HashSet<u32> = sys.model.values().map(|x| x.0).collect();
        let mut got = sys.real.get_by_index(all).map_err(|e| format!("{e:?}"))?;
        let mut want: Vec<TokenAccount> = sys.model.values().map(|x| x.1.clone()).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("accounts of all the indexes: {got:?} instead of {want:?}"));
        }
        for p in [Program::TokenProgram, Program::Token2022Program] {
            let snap = sys.real.create_snapshot(p).map_err(|e| format!("{e:?}"))?;
            let mut got: Vec<TokenAccount> = snap.iter().map(|b| TokenAccount::from_bytes(b)).collect();
            let mut want: Vec<TokenAccount> =
                sys.model.values().map(|x| x.1.clone()).filter(|t| t.program == p && !t.is_deleted).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("snapshot of {p:?}: {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    }
    fn fingerprint(&self, sys: &StorageSys) -> u64 {
        hash64(&sys.model.iter().map(|(a, (i, t))| (*a, *i, t.to_bytes())).collect::<Vec<_>>())
    }
}

pub fn storage_scenarios() -> Vec<(StorageScenario, usize, usize)> {
    let mut out = vec![];
    for (name, addrs) in [("T05-storage-a", [10u8, 11, 12, 3]), ("T05-storage-b", [13, 16, 15, 14])] {
        let mut ops = vec![];
        for a in addrs {
            ops.push(StOp::Save { addr: a, p: 0, v: 0 });
            ops.push(StOp::Save { addr: a, p: 1, v: 1 });
            ops.push(StOp::Save { addr: a, p: 0, v: 2 });
            ops.push(StOp::Delete(a));
        }
        ops.push(StOp::SaveDeleted(addrs[0]));
        ops.push(StOp::Delete(17));
        let mut all: Vec<u8> = (10..=18).collect();
        all.extend(addrs);
        out.push((StorageScenario { name: name.into(), ops, addrs: all }, 4, 5));
    }
    out
}

fn all(thorough: bool) -> Vec<(&'static str, Box<dyn Cases>)> {
    vec![
        ("T01", Box::new(Compact::new(thorough))),
        ("T01", Box::new(Lengths::new(thorough))),
        ("T02", Box::new(Serve::new(What::Token, thorough))),
        ("T02", Box::new(Serve::new(What::Mint, thorough))),
        ("T02", Box::new(Serve::new(What::Multisig, thorough))),
        ("T02", Box::new(StaleBytes)),
        ("T08", Box::new(Garbage::new(thorough))),
        ("T08", Box::new(AnyFilters::new())),
    ]
}

pub fn run(property: &str, report: &Report) {
    for (p, c) in all(report.thorough) {
        if p == property {
            cases::explore(&*c, report);
        }
    }
    if property == "T05" {
        for (s, q, t) in storage_scenarios() {
            seq::explore(&s, if report.thorough { t } else { q }, report);
        }
    }
}

pub fn replay_case(thorough: bool, name: &str, i: usize) -> Option<Vec<String>> {
    all(thorough)
        .into_iter()
        .find(|(_, c)| c.name() == name)
        .map(|(_, c)| cases::replay(&*c, i))
}
pub fn replay(name: &str, indices: &[usize]) -> Option<Vec<String>> {
    storage_scenarios()
        .iter()
        .find(|x| x.0.name == name)
        .map(|x| seq::replay(&x.0, indices))
}
