//! E01: the answers of the server are what the store answers, for every combination of parameters.
//!
//! The store is a model: it has other accounts at each level, checks what it is asked and answers by the
//! text of the request, so that a parameter which is changed or lost on the way is seen.
use crate::cases::Cases;
use base64::Engine;
use jsonrpsee::RpcModule;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod, Data},
    account_filter::AccountFilterType,
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    commitment::Commitment,
    slot_info::SlotInfo,
};
use serde_json::{json, Value};
use sim_prog::rpc_server::{RpcServerImpl, TestRpcServer};
use solana_sdk::pubkey::Pubkey;
use std::sync::Arc;

fn program(i: u8) -> Pubkey {
    Pubkey::new_from_array([0xa0 + i; 32])
}
fn key(i: u8) -> Pubkey {
    Pubkey::new_from_array([0x11 + i; 32])
}

#[derive(Clone, Debug)]
struct Stored {
    key: Pubkey,
    owner: Pubkey,
    slot: u64,
    lamports: u64,
    executable: bool,
    rent_epoch: u64,
    data: Vec<u8>,
    compression: CompressionMethod,
}

/// accounts at a level
fn table(level: u8) -> Vec<Stored> {
    let mut v = vec![];
    let lens = [0usize, 1, 4, 5, 128, 129, 165];
    for (i, len) in lens.iter().enumerate() {
        let i = i as u8;
        // the newest account of a level is not the last one, and one account is only at the lower levels
        if level == 2 && i == 3 {
            continue;
        }
        let n = *len + (if level == 0 && i == 1 { 3 } else { 0 });
        v.push(Stored {
            key: key(i),
            owner: program(i % 2),
            slot: [10, 14, 12, 11, 13, 12, 10][i as usize] + 10 * (2 - level as u64),
            lamports: [u64::MAX, 1, 2_039_280][i as usize % 3] - level as u64 % 2,
            executable: i % 3 == 1,
            rent_epoch: [0, u64::MAX, 361][i as usize % 3],
            data: (0..n).map(|k| (k as u8).wrapping_mul(5).wrapping_add(level * 64 + i)).collect(),
            compression: match i % 3 {
                0 => CompressionMethod::None,
                1 => CompressionMethod::Lz4(1),
                _ => CompressionMethod::Zstd(1),
            },
        });
    }
    v
}

impl Stored {
    fn account(&self) -> AccountData {
        AccountData {
            pubkey: self.key,
            account: Arc::new(Account {
                lamports: self.lamports,
                data: Data::new(&self.data, self.compression.clone()),
                owner: self.owner,
                executable: self.executable,
                rent_epoch: self.rent_epoch,
            }),
            updated_slot: self.slot,
            write_version: 3,
        }
    }
}

/// filters as the reference understands them
#[derive(Clone, Debug)]
enum Want {
    Size(u64),
    Bytes(u64, Vec<u8>),
}
fn allows(f: &Want, data: &[u8]) -> bool {
    match f {
        Want::Size(n) => data.len() as u64 == *n,
        Want::Bytes(at, bytes) => {
            let at = *at as usize;
            data.len() >= at && data.len() - at >= bytes.len() && data[at..at + bytes.len()] == bytes[..]
        }
    }
}

struct Model {
    tables: [Vec<Stored>; 3],
}
fn level(c: Commitment) -> usize {
    match c {
        Commitment::Processed => 0,
        Commitment::Confirmed => 1,
        Commitment::Finalized => 2,
    }
}
impl AccountStorageInterface for Model {
    fn update_account(&self, _: AccountData, _: Commitment) -> bool {
        panic!("a request changes the store")
    }
    fn initilize_or_update_account(&self, _: AccountData) {
        panic!("a request changes the store")
    }
    fn get_account(&self, pk: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> {
        if pk == key(90) {
            return Err(AccountLoadingError::OperationTimeOut);
        }
        Ok(self.tables[level(c)].iter().find(|a| a.key == pk).map(|a| a.account()))
    }
    fn get_program_accounts(
        &self,
        p: Pubkey,
        filters: Option<Vec<AccountFilterType>>,
        c: Commitment,
    ) -> Result<Vec<AccountData>, AccountLoadingError> {
        if p == program(9) {
            return Err(AccountLoadingError::WrongIndex);
        }
        let filters = filters.unwrap_or_default();
        Ok(self.tables[level(c)]
            .iter()
            .filter(|a| a.owner == p && filters.iter().all(|f| f.allows(&a.data)))
            .map(|a| a.account())
            .collect())
    }
    fn process_slot_data(&self, _: SlotInfo, _: Commitment) -> Vec<AccountData> {
        panic!("a request changes the store")
    }
    fn create_snapshot(&self, p: Pubkey) -> Result<Vec<u8>, AccountLoadingError> {
        if p == program(9) {
            return Err(AccountLoadingError::WrongIndex);
        }
        Ok(snapshot(p))
    }
    fn load_from_snapshot(&self, _: Pubkey, _: Vec<u8>) -> Result<(), AccountLoadingError> {
        panic!("a request changes the store")
    }
}
fn snapshot(p: Pubkey) -> Vec<u8> {
    if p == program(2) {
        return vec![];
    }
    (0..=255u8).cycle().take(257 + p.to_bytes()[0] as usize).collect()
}

thread_local! {
    static SERVER: (RpcModule<RpcServerImpl>, tokio::runtime::Runtime) = {
        let model: Arc<dyn AccountStorageInterface> = Arc::new(Model { tables: [table(0), table(1), table(2)] });
        (RpcServerImpl::new(model).into_rpc(), tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap())
    };
}
fn call(method: &str, params: &Value) -> Result<Value, i32> {
    SERVER.with(|(m, rt)| rt.block_on(m.call(method, params.clone())))
}

/// what a request asks for
#[derive(Clone, Debug, Default)]
struct Ask {
    level: Option<(&'static str, u8)>,
    filters: Option<(Value, Vec<Want>)>,
    encoding: Option<&'static str>,
    slice: Option<(usize, usize)>,
    context: Option<bool>,
    min_slot: Option<u64>,
}

impl Ask {
    fn config(&self, program_accounts: bool) -> Value {
        let mut o = serde_json::Map::new();
        if let Some((name, _)) = &self.level {
            o.insert("commitment".into(), json!(name));
        }
        if let Some(e) = self.encoding {
            o.insert("encoding".into(), json!(e));
        }
        if let Some((offset, length)) = self.slice {
            o.insert("dataSlice".into(), json!({"offset": offset, "length": length}));
        }
        if let Some(n) = self.min_slot {
            o.insert("minContextSlot".into(), json!(n));
        }
        if program_accounts {
            if let Some((f, _)) = &self.filters {
                o.insert("filters".into(), f.clone());
            }
            if let Some(w) = self.context {
                o.insert("withContext".into(), json!(w));
            }
        }
        Value::Object(o)
    }
    fn accounts(&self, program: Pubkey) -> Vec<Stored> {
        table(self.level.map_or(2, |x| x.1))
            .into_iter()
            .filter(|a| a.owner == program && self.filters.iter().flat_map(|f| &f.1).all(|f| allows(f, &a.data)))
            .collect()
    }
    /// is this what was asked for of the account
    fn same(&self, a: &Stored, v: &Value) -> Result<(), String> {
        let whole = &a.data;
        let part: &[u8] = match self.slice {
            None => whole,
            Some((offset, length)) => {
                if offset >= whole.len() {
                    &[]
                } else {
                    &whole[offset..whole.len().min(offset.saturating_add(length))]
                }
            }
        };
        let b64 = |s: &str| base64::engine::general_purpose::STANDARD.decode(s).map_err(|e| e.to_string());
        let data = &v["data"];
        let pair = || -> Result<(&str, &str), String> {
            match (data[0].as_str(), data[1].as_str(), data.as_array().map(|x| x.len())) {
                (Some(x), Some(y), Some(2)) => Ok((x, y)),
                _ => Err(format!("data {data}")),
            }
        };
        let expect = |x: Result<Vec<u8>, String>| -> Result<(), String> {
            let x = x?;
            if x != part {
                return Err(format!("data {x:?} instead of {part:?}"));
            }
            Ok(())
        };
        match self.encoding.unwrap_or("base64") {
            "base64" | "jsonParsed" => {
                let (x, e) = pair()?;
                if e != "base64" {
                    return Err(format!("encoding {e}"));
                }
                expect(b64(x))?;
            }
            "base64+zstd" => {
                let (x, e) = pair()?;
                if e != "base64+zstd" {
                    return Err(format!("encoding {e}"));
                }
                expect(b64(x).and_then(|x| zstd::stream::decode_all(x.as_slice()).map_err(|e| e.to_string())))?;
            }
            name => {
                let x = if name == "base58" {
                    let (x, e) = pair()?;
                    if e != "base58" {
                        return Err(format!("encoding {e}"));
                    }
                    x
                } else {
                    data.as_str().ok_or_else(|| format!("data {data}"))?
                };
                if whole.len() > 128 {
                    if !x.starts_with("error") {
                        return Err(format!("data {x}"));
                    }
                } else {
                    expect(bs58::decode(x).into_vec().map_err(|e| e.to_string()))?;
                }
            }
        }
        for (field, want) in [
            ("lamports", json!(a.lamports)),
            ("owner", json!(a.owner.to_string())),
            ("executable", json!(a.executable)),
            ("rentEpoch", json!(a.rent_epoch)),
            ("space", json!(a.data.len())),
        ] {
            if v[field] != want {
                return Err(format!("{field} {} instead of {want}", v[field]));
            }
        }
        Ok(())
    }
}

const LEVELS: [Option<(&str, u8)>; 8] = [
    None,
    Some(("processed", 0)),
    Some(("confirmed", 1)),
    Some(("finalized", 2)),
    Some(("recent", 0)),
    Some(("singleGossip", 1)),
    Some(("max", 2)),
    Some(("root", 2)),
];
const ENCODINGS: [Option<&str>; 6] = [None, Some("binary"), Some("base58"), Some("base64"), Some("base64+zstd"), Some("jsonParsed")];
const SLICES: [Option<(usize, usize)>; 7] =
    [None, Some((0, 0)), Some((0, 3)), Some((1, 3)), Some((4, 200)), Some((165, 1)), Some((usize::MAX, 1))];
const CONTEXTS: [Option<bool>; 3] = [None, Some(false), Some(true)];

fn filters() -> Vec<Option<(Value, Vec<Want>)>> {
    let t = |l: u8, i: usize| table(l)[i].data.clone();
    let b58 = |x: &[u8]| bs58::encode(x).into_string();
    let b64 = |x: &[u8]| base64::engine::general_purpose::STANDARD.encode(x);
    let mem = |at: u64, x: &[u8], kind: u8| {
        let v = match kind {
            0 => json!({"memcmp": {"offset": at, "bytes": b58(x)}}),
            1 => json!({"memcmp": {"offset": at, "bytes": b58(x), "encoding": "base58"}}),
            2 => json!({"memcmp": {"offset": at, "bytes": b64(x), "encoding": "base64"}}),
            _ => json!({"memcmp": {"offset": at, "bytes": x}}),
        };
        (v, Want::Bytes(at, x.to_vec()))
    };
    let mut out = vec![None, Some((json!(null), vec![])), Some((json!([]), vec![]))];
    let mut one: Vec<(Value, Want)> = vec![];
    for n in [0u64, 4, 128, 165, 166] {
        one.push((json!({ "dataSize": n }), Want::Size(n)));
    }
    for kind in 0..4 {
        one.push(mem(0, &t(2, 2)[..2], kind));
        one.push(mem(1, &t(1, 2)[1..3], kind));
        one.push(mem(126, &t(2, 3)[126..128], kind));
    }
    one.push(mem(0, &[], 0));
    one.push(mem(4, &[], 2));
    one.push(mem(u64::MAX, &[1], 3));
    for (v, w) in &one {
        out.push(Some((json!([v]), vec![w.clone()])));
    }
    for (v, w) in &one {
        for (v2, w2) in [&one[1], &one[2], &one[5], &one[8], &one[16]] {
            out.push(Some((json!([v, v2]), vec![w.clone(), w2.clone()])));
        }
    }
    out
}

fn min_slots(thorough: bool) -> Vec<Option<u64>> {
    if thorough {
        [None, Some(0)].into_iter().chain((9..36).map(Some)).chain([Some(u64::MAX)]).collect()
    } else {
        vec![None, Some(0), Some(12), Some(13), Some(14), Some(23), Some(34), Some(u64::MAX)]
    }
}

/// program accounts: a case is a list of filters and a level, all the others are enumerated in it
struct ProgramAccounts {
    filters: Vec<Option<(Value, Vec<Want>)>>,
    thorough: bool,
}
impl ProgramAccounts {
    fn one(&self, program: Pubkey, params: Value, ask: &Ask) -> Result<(), String> {
        let got = call("getProgramAccounts", &params);
        let fail = |what: String| Err(format!("{what}\nrequest {params}\nanswer {}", serde_json::to_string(&got).unwrap()));
        let Ok(answer) = &got else {
            return fail("an error".into());
        };
        let all = ask.accounts(program);
        let context = ask.context == Some(true);
        let list = if context { &answer["value"] } else { answer };
        if context {
            let newest = all.iter().map(|a| a.slot).max().unwrap_or(0);
            if answer["context"]["slot"] != json!(newest) {
                return fail(format!("the newest of the accounts is of slot {newest}"));
            }
        }
        // accounts which did not change since are left out
        let min = if context { ask.min_slot.unwrap_or(0) } else { 0 };
        let want: Vec<&Stored> = all.iter().filter(|a| a.slot >= min).collect();
        let Some(list) = list.as_array() else {
            return fail("no list".into());
        };
        if list.len() != want.len() {
            return fail(format!("{} accounts instead of {}", list.len(), want.len()));
        }
        for a in want {
            let mut it = list.iter().filter(|x| x["pubkey"] == json!(a.key.to_string()));
            let Some(x) = it.next() else {
                return fail(format!("{} is missing", a.key));
            };
            if let Err(e) = ask.same(a, &x["account"]) {
                return fail(format!("account {}: {e}", a.key));
            }
        }
        Ok(())
    }
}
impl Cases for ProgramAccounts {
    fn name(&self) -> String {
        "E01-program-accounts".into()
    }
    fn len(&self) -> usize {
        self.filters.len() * LEVELS.len()
    }
    fn describe(&self, i: usize) -> String {
        let f = &self.filters[i / LEVELS.len()];
        format!("filters {}, level {:?}", f.as_ref().map_or(json!("absent"), |x| x.0.clone()), LEVELS[i % LEVELS.len()])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let mut n = 0;
        for p in [program(0), program(1), program(2)] {
            for encoding in ENCODINGS {
                for slice in SLICES {
                    for context in CONTEXTS {
                        for min_slot in min_slots(self.thorough) {
                            let ask = Ask {
                                level: LEVELS[i % LEVELS.len()],
                                filters: self.filters[i / LEVELS.len()].clone(),
                                encoding,
                                slice,
                                context,
                                min_slot,
                            };
                            // by name every now and then
                            let params = if n % 5 == 3 {
                                json!({"program_id_str": p.to_string(), "config": ask.config(true)})
                            } else {
                                json!([p.to_string(), ask.config(true)])
                            };
                            self.one(p, params, &ask)?;
                            n += 1;
                        }
                    }
                }
            }
            if i == 0 {
                for params in [json!([p.to_string()]), json!([p.to_string(), null])] {
                    self.one(p, params, &Ask::default())?;
                    n += 1;
                }
            }
        }
        Ok(n)
    }
}

struct AccountInfo;
impl Cases for AccountInfo {
    fn name(&self) -> String {
        "E01-account-info".into()
    }
    fn len(&self) -> usize {
        LEVELS.len() * 9
    }
    fn describe(&self, i: usize) -> String {
        format!("account {} at level {:?}", i / LEVELS.len(), LEVELS[i % LEVELS.len()])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let k = key((i / LEVELS.len()) as u8);
        let mut n = 0;
        let mut asks = vec![];
        for encoding in ENCODINGS {
            for slice in SLICES {
                for min_slot in [None, Some(0), Some(13)] {
                    let ask = Ask { level: LEVELS[i % LEVELS.len()], encoding, slice, min_slot, ..Default::default() };
                    asks.push((json!([k.to_string(), ask.config(false)]), ask));
                }
            }
        }
        if i % LEVELS.len() == 0 {
            asks.push((json!([k.to_string()]), Ask::default()));
            asks.push((json!([k.to_string(), null]), Ask::default()));
        }
        for (params, ask) in asks {
            n += 1;
            let got = call("getAccountInfo", &params);
            let fail = |what: String| Err(format!("{what}\nrequest {params}\nanswer {}", serde_json::to_string(&got).unwrap()));
            let Ok(answer) = &got else {
                return fail("an error".into());
            };
            let want = table(ask.level.map_or(2, |x| x.1)).into_iter().find(|a| a.key == k);
            match want {
                None => {
                    if answer.get("value") != Some(&Value::Null) {
                        return fail("there is no such account".into());
                    }
                }
                Some(a) => {
                    if answer["context"]["slot"] != json!(a.slot) {
                        return fail(format!("the account is of slot {}", a.slot));
                    }
                    if let Err(e) = ask.same(&a, &answer["value"]) {
                        return fail(e);
                    }
                }
            }
        }
        Ok(n)
    }
}

struct Others {
    list: Vec<(&'static str, Value, Result<Option<Value>, ()>)>,
}
impl Cases for Others {
    fn name(&self) -> String {
        "E01-requests".into()
    }
    fn len(&self) -> usize {
        self.list.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{} {}", self.list[i].0, self.list[i].1)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let (method, params, want) = &self.list[i];
        let got = call(method, params);
        let good = match (&got, want) {
            (Err(_), Err(())) => true,
            (Ok(_), Ok(None)) => true,
            (Ok(x), Ok(Some(y))) => x == y,
            _ => false,
        };
        if !good {
            return Err(format!("answer {got:?}, expected {want:?}"));
        }
        Ok(1)
    }
}

fn others() -> Others {
    let mut list = vec![];
    for p in [program(0), program(1), program(2)] {
        let s = base64::engine::general_purpose::STANDARD.encode(snapshot(p));
        list.push(("getSnapshot", json!([p.to_string()]), Ok(Some(json!(s)))));
        list.push(("getSnapshot", json!({"program_id_str": p.to_string()}), Ok(Some(json!(s)))));
    }
    // what the store refuses is refused, and so is what is no address
    list.push(("getSnapshot", json!([program(9).to_string()]), Err(())));
    list.push(("getProgramAccounts", json!([program(9).to_string()]), Err(())));
    list.push(("getProgramAccounts", json!([program(9).to_string(), {"withContext": true}]), Err(())));
    list.push(("getAccountInfo", json!([key(90).to_string()]), Err(())));
    let full = key(3).to_string();
    let bad = vec![
        "".to_string(),
        "0".into(),
        "abc".into(),
        full[1..].to_string() + "0",
        full.clone() + "1",
        format!(" {full}"),
        "é".into(),
        "1".repeat(31),
        "z".repeat(44),
        "1".repeat(1000),
    ];
    for b in &bad {
        for m in ["getSnapshot", "getProgramAccounts", "getAccountInfo"] {
            list.push((m, json!([b]), Err(())));
            if m != "getSnapshot" {
                list.push((m, json!([b, {"encoding": "base64", "withContext": true, "commitment": "processed"}]), Err(())));
            }
        }
    }
    // 1111.. is an address
    list.push(("getAccountInfo", json!(["1".repeat(32)]), Ok(None)));
    let p = program(0).to_string();
    // a filter which cannot be decoded allows no account, one which the store does not know is refused
    for f in [
        json!([{"memcmp": {"offset": 0, "bytes": "0OIl"}}]),
        json!([{"memcmp": {"offset": 0, "bytes": "%%%", "encoding": "base64"}}]),
    ] {
        list.push(("getProgramAccounts", json!([p, { "filters": f }]), Ok(Some(json!([])))));
    }
    for f in [json!(["tokenAccountState"]), json!([{"dataSize": 165}, "tokenAccountState"]), json!(["tokenAccountState", {"dataSize": 1}])] {
        for c in [json!({ "filters": f.clone() }), json!({"filters": f, "withContext": true, "commitment": "confirmed"})] {
            list.push(("getProgramAccounts", json!([p, c]), Err(())));
        }
    }
    list.push(("getSlot", json!([]), Err(())));
    Others { list }
}

pub fn all(thorough: bool) -> Vec<Box<dyn Cases>> {
    vec![Box::new(others()), Box::new(AccountInfo), Box::new(ProgramAccounts { filters: filters(), thorough })]
}
