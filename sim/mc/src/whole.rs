//! E04: the whole program, from an archive and a stream of updates to the answers of its server. Each
//! case is one schedule of the stream and the reading of the archive, run in a process of its own.
use crate::cases::Cases;
use crate::writer::{self, Acc, File};
use base64::Engine;
use serde_json::{json, Value};
use simctl::{Message, Script};
use solana_sdk::{program_option::COption, program_pack::Pack, pubkey::Pubkey};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

const MINT: u8 = 0;
const A: u8 = 1;
const B: u8 = 2;
const C: u8 = 3;

fn key(i: u8) -> Pubkey {
    Pubkey::new_from_array([0x21 + i; 32])
}
fn wallet(i: u8) -> Pubkey {
    Pubkey::new_from_array([0x61 + i; 32])
}
fn mint_data() -> Vec<u8> {
    let mut v = vec![0; spl_token::state::Mint::LEN];
    spl_token::state::Mint {
        mint_authority: COption::Some(wallet(9)),
        supply: 1_000_000,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    }
    .pack_into_slice(&mut v);
    v
}
fn token_data(owner: u8, amount: u64) -> Vec<u8> {
    let mut v = vec![0; spl_token::state::Account::LEN];
    spl_token::state::Account {
        mint: key(MINT),
        owner: wallet(owner),
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    }
    .pack_into_slice(&mut v);
    v
}

/// state of an account: data, None when it is closed
type State = Option<Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Event {
    /// account, slot, write version, amount; the amount 0 closes it
    Write(u8, u64, u64, u64),
    /// slot, level
    Slot(u64, u8),
    /// a message of another kind
    Other,
}
fn written(e: &Event) -> State {
    match e {
        Event::Write(_, _, _, 0) => None,
        Event::Write(a, _, _, amount) => Some(token_data(*a, *amount)),
        _ => None,
    }
}
fn message(e: &Event, gap: u64) -> Message {
    let number = |slot: u64| if slot > 101 { slot + gap } else { slot };

    match e {
        Event::Write(a, slot, wv, amount) => Message::Account {
            pubkey: key(*a).to_bytes(),
            owner: if *amount == 0 { [0; 32] } else { spl_token::id().to_bytes() },
            lamports: if *amount == 0 { 0 } else { 2_039_280 },
            executable: false,
            rent_epoch: u64::MAX,
            data: written(e).unwrap_or_default(),
            slot: number(*slot),
            write_version: *wv,
        },
        Event::Other => Message::Other,
        Event::Slot(slot, level) => Message::Slot { slot: number(*slot), parent: slot - 1, level: *level },
    }
}

#[derive(Clone, Debug)]
struct Case {
    /// accounts by append vec, in the order of the archive: account, slot, amount
    vecs: Vec<(u64, Vec<(u8, u64)>)>,
    /// number of archive entries read before, event
    events: Vec<(usize, Event)>,
    /// ends after so many bytes of the compressed stream in blocks of so many bytes, or of the tar archive
    /// (no blocks)
    cut: Option<(usize, usize)>,
    /// slots which are skipped between 101 and its child
    gap: u64,
}

/// entries before the first append vec
const BEFORE: usize = 3;

fn archive(c: &Case) -> Vec<u8> {
    let (tar, _) = tar(c);
    match c.cut {
        None => writer::compress(&tar),
        Some((n, 0)) => writer::compress(&tar[..n]),
        Some((n, blocks)) => {
            let mut z = writer::compress_blocks(&tar, blocks);
            z.truncate(n);
            z
        }
    }
}
/// the archive, and the headers of its files and its end
fn tar(c: &Case) -> (Vec<u8>, Vec<usize>) {
    let mut files = vec![
        writer::file("version", b"1.2.0".to_vec()),
        writer::file("snapshots/status_cache", vec![1; 40]),
    ];
    let mut known = vec![];
    let mut vecs: Vec<File> = vec![];
    for (id, (slot, accounts)) in c.vecs.iter().enumerate() {
        let mut list = vec![writer::acc(40 + id, 10)];
        for (a, amount) in accounts {
            list.push(Acc {
                pubkey: key(*a),
                write_version: 0,
                lamports: if *amount == 0 { 0 } else { 2_039_280 },
                rent_epoch: u64::MAX,
                owner: if *amount == 0 { Pubkey::default() } else { spl_token::id() },
                executable: 0,
                hash: [1; 32],
                data: if *amount == 0 {
                    vec![]
                } else if *a == MINT {
                    mint_data()
                } else {
                    token_data(*a, *amount)
                },
            });
        }
        list.push(writer::acc(50 + id, 165));
        let bytes = writer::append_vec(&list, true);
        known.push((*slot, id as u64, bytes.len()));
        vecs.push(writer::file(&format!("accounts/{slot}.{id}"), bytes));
    }
    files.push(writer::file("snapshots/100/100", writer::manifest(&known).0));
    files.extend(vecs);
    let last = 512 + files.last().unwrap().bytes.len();
    let (tar, mut headers) = writer::tar(&files);
    headers.push(headers.last().unwrap() + last);
    (tar, headers)
}

/// what the server answers, None if it does not serve
fn run(c: &Case, requests: &[(String, Value)]) -> Result<Option<Vec<Value>>, String> {
    let dir = writer::scratch();
    let snapshot = dir.0.join("snapshot.tar.zst");
    let out = dir.0.join("out.json");
    let script = dir.0.join("script.json");
    std::fs::write(&snapshot, archive(c)).map_err(|e| e.to_string())?;
    let mut args = BTreeMap::from([("snapshot-archive-path".to_string(), snapshot.to_str().unwrap().to_string())]);
    if !c.events.is_empty() {
        args.insert("quic-url".to_string(), "stream".to_string());
    }
    let s = Script {
        args,
        messages: c.events.iter().map(|(at, e)| (*at, message(e, c.gap))).collect(),
        requests: requests.to_vec(),
        out: out.to_str().unwrap().to_string(),
    };
    std::fs::write(&script, serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())?;
    let program = std::env::current_exe().unwrap().with_file_name("sim-main");
    let mut child = std::process::Command::new(program)
        .env("SIM_SCRIPT", &script)
        .env("RUST_LOG", "off")
        .env("RUST_BACKTRACE", "0")
        .current_dir(&dir.0)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start the program: {e}"))?;
    let end = Instant::now() + Duration::from_secs(40);
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_micros(500)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("the program does not come to an end".into());
            }
        }
    };
    match std::fs::read_to_string(&out) {
        Ok(text) => Ok(Some(serde_json::from_str(&text).map_err(|e| e.to_string())?)),
        Err(_) if status.code() == Some(77) => Err("the stream is not read".into()),
        Err(_) => Ok(None),
    }
}

/// reference: state of each account at a level
fn expected(c: &Case, level: usize) -> BTreeMap<u8, State> {
    let mut m: BTreeMap<u8, (u64, u64, State)> = BTreeMap::new();
    for (slot, accounts) in &c.vecs {
        for (a, amount) in accounts {
            let state = if *amount == 0 {
                None
            } else if *a == MINT {
                Some(mint_data())
            } else {
                Some(token_data(*a, *amount))
            };
            if m.get(a).map_or(true, |x| x.0 < *slot) {
                m.insert(*a, (*slot, 0, state));
            }
        }
    }
    // level of a slot at the end; writes of a slot which is finalized already are too late
    let mut reached = [0u64; 3];
    let mut finalized = 0;
    for (_, e) in &c.events {
        if let Event::Slot(s, l) = e {
            for k in 0..=*l as usize {
                reached[k] = reached[k].max(*s);
            }
        }
    }
    reached[0] = u64::MAX;
    for (_, e) in &c.events {
        match e {
            Event::Slot(s, 2) => finalized = finalized.max(*s),
            Event::Slot(..) | Event::Other => {}
            Event::Write(a, slot, wv, _) => {
                if *slot <= finalized || *slot > reached[level] {
                    continue;
                }
                if m.get(a).map_or(true, |x| (x.0, x.1) < (*slot, *wv)) {
                    m.insert(*a, (*slot, *wv, written(e)));
                }
            }
        }
    }
    m.into_iter().map(|(a, (_, _, s))| (a, s)).collect()
}

fn data(v: &Value) -> Result<Vec<u8>, String> {
    if v["owner"] != json!(spl_token::id().to_string()) {
        return Err(format!("owner {}", v["owner"]));
    }
    base64::engine::general_purpose::STANDARD
        .decode(v["data"][0].as_str().unwrap_or("?"))
        .map_err(|e| format!("{e}: {v}"))
}

/// filters, what they are called, and the accounts they select
fn selections() -> [(Value, &'static str, Vec<u8>); 3] {
    [
        (json!([{"dataSize": 165}, {"memcmp": {"offset": 0, "bytes": key(MINT).to_string()}}]), "of the mint", vec![A, B, C]),
        (json!([{"dataSize": 165}, {"memcmp": {"offset": 32, "bytes": wallet(A).to_string()}}]), "of one owner", vec![A]),
        (json!([{"dataSize": 82}]), "which are mints", vec![MINT]),
    ]
}

fn check(c: &Case) -> Result<u64, String> {
    let levels = ["processed", "confirmed", "finalized"];
    let keys = [MINT, A, B, C];
    let mut requests: Vec<(String, Value)> = vec![];
    for l in levels {
        for k in keys {
            requests.push(("getAccountInfo".into(), json!([key(k).to_string(), { "commitment": l }])));
        }
        for (filters, _, _) in selections() {
            requests.push((
                "getProgramAccounts".into(),
                json!([spl_token::id().to_string(), { "commitment": l, "filters": filters }]),
            ));
        }
    }
    requests.push(("getAccountInfo".into(), json!([Pubkey::new_from_array([0x10 + 40; 32]).to_string()])));
    let Some(answers) = run(c, &requests)? else {
        return Err("the program ends without serving".into());
    };
    let mut it = answers.iter();
    let mut next = || it.next().ok_or_else(|| "answers are missing".to_string());
    for (l, name) in levels.iter().enumerate() {
        let want = expected(c, l);
        for k in keys {
            let v = &next()?["result"];
            let got = match v.get("value") {
                None => return Err(format!("getAccountInfo of {k} at {name}: no answer")),
                Some(Value::Null) => None,
                Some(x) => Some(data(x)?),
            };
            let w = want.get(&k).cloned().flatten();
            if got != w {
                return Err(format!("account {k} is {} at {name}, expected {}", brief(&got), brief(&w)));
            }
        }
        for (_, what, selected) in selections() {
            let v = next()?;
            let mut got = BTreeMap::new();
            for x in v["result"].as_array().ok_or_else(|| format!("getProgramAccounts {what}: {v}"))? {
                if got.insert(x["pubkey"].as_str().unwrap_or("?").to_string(), data(&x["account"])?).is_some() {
                    return Err("an account is listed twice".into());
                }
            }
            let w: BTreeMap<String, Vec<u8>> = want
                .iter()
                .filter(|(k, _)| selected.contains(k))
                .filter_map(|(k, s)| s.clone().map(|s| (key(*k).to_string(), s)))
                .collect();
            if got != w {
                return Err(format!(
                    "accounts {what} at {name}: {:?}, expected {:?}",
                    got.iter().map(|(k, s)| format!("{k} {}", brief(&Some(s.clone())))).collect::<Vec<_>>(),
                    w.iter().map(|(k, s)| format!("{k} {}", brief(&Some(s.clone())))).collect::<Vec<_>>()
                ));
            }
        }
    }
    if next()?["result"]["value"] != Value::Null {
        return Err("an account of another program is served".into());
    }
    Ok(requests.len() as u64)
}
fn brief(s: &State) -> String {
    match s {
        None => "absent".into(),
        Some(d) if d.len() == 165 => format!("amount {}", u64::from_le_bytes(d[64..72].try_into().unwrap())),
        Some(d) => format!("{} bytes", d.len()),
    }
}

struct Whole {
    name: &'static str,
    list: Vec<Case>,
    /// must not serve
    refuses: bool,
}
impl Cases for Whole {
    fn name(&self) -> String {
        format!("E04-{}", self.name)
    }
    fn len(&self) -> usize {
        self.list.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.list[i])
    }
    fn patience(&self) -> Duration {
        Duration::from_secs(90)
    }
    fn max_findings(&self) -> usize {
        50
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let c = &self.list[i];
        if self.refuses {
            return match run(c, &[])? {
                None => Ok(1),
                Some(_) => Err("the program serves although the archive could not be read to its end".into()),
            };
        }
        check(c)
    }
}

fn layouts() -> Vec<Vec<(u64, Vec<(u8, u64)>)>> {
    let m = (MINT, 1);
    vec![
        vec![(90, vec![m, (A, 10)]), (99, vec![(B, 20)])],
        vec![(99, vec![(A, 10), (B, 20)]), (90, vec![m])],
        vec![(99, vec![(B, 20)]), (95, vec![m]), (90, vec![(A, 10)])],
    ]
}

/// all orders of events, and all places in the reading of the archive
fn schedules(layout: &[(u64, Vec<(u8, u64)>)], events: &[Event], places: &[usize], out: &mut Vec<Case>) {
    fn rec(layout: &[(u64, Vec<(u8, u64)>)], events: &[Event], places: &[usize], done: &mut Vec<(usize, Event)>, out: &mut Vec<Case>) {
        if done.len() == events.len() {
            out.push(Case { vecs: layout.to_vec(), events: done.clone(), cut: None, gap: 0 });
            return;
        }
        let from = done.last().map_or(0, |x| x.0);
        for p in places.iter().filter(|p| **p >= from) {
            done.push((*p, events[done.len()]));
            rec(layout, events, places, done, out);
            done.pop();
        }
    }
    rec(layout, events, places, &mut vec![], out);
}

/// what the program is known to get wrong (E04-early): the stream closes an account, or finalizes a write
/// of it, before the account is read from the archive
fn in_order(c: &Case) -> bool {
    let read_at = |a: u8| {
        c.vecs.iter().position(|v| v.1.iter().any(|x| x.0 == a)).map_or(0, |i| BEFORE + i + 1)
    };
    c.events.iter().enumerate().all(|(i, (at, e))| match e {
        Event::Slot(s, 2) => c.events[..i].iter().all(|(_, w)| match w {
            Event::Write(a, slot, ..) => slot > s || *at >= read_at(*a),
            _ => true,
        }),
        Event::Write(a, _, _, 0) => *at >= read_at(*a),
        _ => true,
    })
}

/// all sequences of different events in which a slot is confirmed before it is finalized, and a later
/// slot does not become confirmed or finalized before an earlier one
fn histories(alphabet: &[Event], max: usize) -> Vec<Vec<Event>> {
    fn rec(alphabet: &[Event], max: usize, done: &mut Vec<Event>, out: &mut Vec<Vec<Event>>) {
        if !done.is_empty() {
            out.push(done.clone());
        }
        if done.len() == max {
            return;
        }
        for e in alphabet {
            if done.contains(e) {
                continue;
            }
            if let Event::Slot(s, l) = e {
                let later = done.iter().any(|x| matches!(x, Event::Slot(t, m) if (t == s && m > l) || (t > s && m >= l)));
                if later {
                    continue;
                }
            }
            done.push(*e);
            rec(alphabet, max, done, out);
            done.pop();
        }
    }
    let mut out = vec![];
    rec(alphabet, max, &mut vec![], &mut out);
    out
}

/// end of the file whose header is at a place of an archive
fn whole_file(tar: &[u8], header: usize) -> usize {
    let size = std::str::from_utf8(&tar[header + 124..header + 135]).unwrap();
    header + 512 + usize::from_str_radix(size.trim_matches(|c: char| !c.is_ascii_digit()), 8).unwrap()
}

pub fn all(thorough: bool) -> Vec<Box<dyn Cases>> {
    writer::prepare();
    let mut out: Vec<Box<dyn Cases>> = vec![];
    // archives alone: orders of the append vecs, accounts in one of them
    let mut alone = vec![];
    for l in layouts() {
        let n = l.len();
        let mut orders: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            orders = orders.iter().flat_map(|o| (0..n).filter(|i| !o.contains(i)).map(|i| [o.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
        }
        for o in orders {
            alone.push(Case { vecs: o.iter().map(|i| l[*i].clone()).collect(), events: vec![], cut: None, gap: 0 });
        }
    }
    alone.push(Case { vecs: vec![], events: vec![], cut: None, gap: 0 });
    out.push(Box::new(Whole { name: "archive", list: alone, refuses: false }));
    // with a stream
    let w = Event::Write;
    let s = Event::Slot;
    let alphabet = [
        w(A, 101, 1, 11),
        w(A, 101, 3, 13),
        w(A, 101, 2, 0),
        w(A, 102, 4, 14),
        w(C, 101, 5, 30),
        s(101, 0),
        s(101, 1),
        s(101, 2),
        s(102, 1),
        s(102, 2),
        Event::Other,
    ];
    let mut list = vec![];
    for (i, l) in layouts().iter().enumerate() {
        let end = BEFORE + l.len() + 1;
        // everything is read before, nothing is read before, and at all places
        for h in histories(&alphabet[..alphabet.len() - 1], if thorough { 5 } else { 4 }) {
            list.push(Case { vecs: l.clone(), events: h.iter().map(|e| (end, *e)).collect(), cut: None, gap: 0 });
            if i > 0 {
                break;
            }
        }
        let places: Vec<usize> = (BEFORE..=end).collect();
        let with_other = histories(&alphabet, 3).into_iter().filter(|h| h.contains(&Event::Other) && (thorough || i == 0));
        for h in with_other.chain(histories(&alphabet[..alphabet.len() - 1], if thorough { 4 } else { 3 })) {
            let mut all = vec![];
            schedules(l, &h, &places, &mut all);
            list.extend(all.into_iter().filter(|c| in_order(c) && c.events.iter().any(|e| e.0 != end)));
        }
    }
    out.push(Box::new(Whole { name: "stream", list, refuses: false }));
    // the same with slots which are skipped
    let mut list = vec![];
    for h in histories(&alphabet[..alphabet.len() - 1], if thorough { 4 } else { 3 }) {
        let l = &layouts()[0];
        let child = |e: &Event| matches!(e, Event::Write(_, 102, ..) | Event::Slot(102, _));
        for gap in if thorough { vec![1, 2, 1000] } else { vec![2] } {
            for at in [BEFORE + 1, BEFORE + l.len() + 1] {
                let c = Case { vecs: l.clone(), events: h.iter().map(|e| (at, *e)).collect(), cut: None, gap };
                if h.iter().any(child) && in_order(&c) {
                    list.push(c);
                }
            }
        }
    }
    out.push(Box::new(Whole { name: "skipped", list, refuses: false }));
    // the same accounts in several append vecs: read in the order of their slots, and in other orders
    let m = (MINT, 1);
    let copies = |v: Vec<(u64, Vec<(u8, u64)>)>| Case { vecs: v, events: vec![], cut: None, gap: 0 };
    let list = vec![
        copies(vec![(90, vec![m, (A, 10)]), (99, vec![(A, 12)])]),
        copies(vec![(90, vec![m, (A, 10), (B, 20)]), (95, vec![(A, 11)]), (99, vec![(A, 12)])]),
        copies(vec![(90, vec![m, (A, 10)]), (95, vec![m]), (99, vec![(A, 12), (B, 20)])]),
    ];
    out.push(Box::new(Whole { name: "newest-last", list, refuses: false }));
    let list = vec![
        copies(vec![(99, vec![(A, 12)]), (90, vec![m, (A, 10)])]),
        copies(vec![(90, vec![m, (A, 10)]), (99, vec![(A, 0)])]),
        copies(vec![(99, vec![(A, 0)]), (90, vec![m, (A, 10)])]),
    ];
    out.push(Box::new(Whole { name: "copies", list, refuses: false }));
    let early = |events: Vec<Event>| Case {
        vecs: layouts().remove(0),
        events: events.into_iter().map(|e| (BEFORE, e)).collect(),
        cut: None,
        gap: 0,
    };
    let list = vec![
        early(vec![w(A, 101, 1, 0)]),
        early(vec![w(A, 101, 1, 11), s(101, 1), s(101, 2)]),
        early(vec![w(A, 101, 1, 11), w(A, 101, 2, 0), s(101, 1), s(101, 2)]),
    ];
    out.push(Box::new(Whole { name: "early", list, refuses: false }));
    // archives which end early are not served
    let c = Case { vecs: layouts().remove(2), events: vec![], cut: None, gap: 0 };
    let (whole, headers) = tar(&c);
    let end = *headers.last().unwrap();
    let step = if thorough { 1 } else { 29 };
    // a file which is padded to its end looks complete
    let files = headers.windows(2).map(|w| (w[0] + 1, w[1])).collect::<Vec<_>>();
    let mut list: Vec<Case> = vec![];
    for (i, (from, to)) in files.iter().enumerate() {
        let to = if i + 1 < files.len() { whole_file(&whole, from - 1) } else { *to };
        list.extend((*from..to).step_by(step).chain([to - 1]).map(|n| Case { cut: Some((n, 0)), ..c.clone() }));
    }
    for blocks in [200, 512, 1 << 20] {
        let z = writer::compress_blocks(&whole, blocks);
        list.extend((0..z.len()).step_by(step).filter(|n| writer::readable(&z[..*n]) < end).map(|n| Case { cut: Some((n, blocks)), ..c.clone() }));
    }
    out.push(Box::new(Whole { name: "cut", list, refuses: true }));
    out
}
