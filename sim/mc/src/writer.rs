//! Writes snapshots: append vecs, manifests, archives and directories.
use serde::Serialize;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize)]
pub struct Acc {
    pub pubkey: Pubkey,
    pub write_version: u64,
    pub lamports: u64,
    pub rent_epoch: u64,
    pub owner: Pubkey,
    /// as a byte: a damaged file can hold any
    pub executable: u8,
    pub hash: [u8; 32],
    pub data: Vec<u8>,
}

pub const HEADER: usize = 48 + 56 + 32;

pub fn acc(i: usize, len: usize) -> Acc {
    let b = i as u8;
    Acc {
        pubkey: Pubkey::new_from_array([0x10u8.wrapping_add(b); 32]),
        write_version: [0, 1, 7, u64::MAX][i % 4],
        lamports: [1, 0, u64::MAX, 2_039_280][i % 4],
        rent_epoch: [0, 361, u64::MAX][i % 3],
        owner: Pubkey::new_from_array([0x80u8.wrapping_add(b); 32]),
        executable: (i % 2) as u8,
        hash: [0xc0u8.wrapping_add(b); 32],
        data: (0..len).map(|k| (k as u8).wrapping_mul(3).wrapping_add(0x51).wrapping_add(b)).collect(),
    }
}

/// the bytes of one account, not padded
fn stored(a: &Acc) -> Vec<u8> {
    let mut v = vec![];
    v.extend(a.write_version.to_le_bytes());
    v.extend((a.data.len() as u64).to_le_bytes());
    v.extend(a.pubkey.to_bytes());
    v.extend(a.lamports.to_le_bytes());
    v.extend(a.rent_epoch.to_le_bytes());
    v.extend(a.owner.to_bytes());
    v.push(a.executable);
    v.extend([0; 7]);
    v.extend(a.hash);
    v.extend(&a.data);
    v
}

pub fn align(n: usize) -> usize {
    (n + 7) / 8 * 8
}

pub fn append_vec(accs: &[Acc], padded: bool) -> Vec<u8> {
    let mut v = vec![];
    for a in accs {
        v.resize(align(v.len()), 0);
        v.extend(stored(a));
    }
    if padded {
        v.resize(align(v.len()), 0);
    }
    v
}

/// reference: the accounts of the first len bytes
pub fn parse(bytes: &[u8], len: usize) -> Vec<Acc> {
    let bytes = &bytes[..len];
    let mut out = vec![];
    let mut at = 0;
    while at + HEADER <= bytes.len() {
        let h = &bytes[at..at + HEADER];
        let n = |i: usize| u64::from_le_bytes(h[i..i + 8].try_into().unwrap());
        let k = |i: usize| -> [u8; 32] { h[i..i + 32].try_into().unwrap() };
        let left = bytes.len() - at - HEADER;
        if n(8) > left as u64 {
            break;
        }
        let size = n(8) as usize;
        out.push(Acc {
            write_version: n(0),
            pubkey: k(16).into(),
            lamports: n(48),
            rent_epoch: n(56),
            owner: k(64).into(),
            executable: h[96],
            hash: k(104),
            data: bytes[at + HEADER..at + HEADER + size].to_vec(),
        });
        at = align(at + HEADER + size);
    }
    out
}

/// manifest: append vecs by slot with id and length; and where its optional fields begin
pub fn manifest(known: &[(u64, u64, usize)]) -> (Vec<u8>, usize) {
    use solana_accounts_db::{accounts_db::BankHashStats, blockhash_queue::*, rent_collector::RentCollector};
    use solana_runtime::{epoch_stakes::EpochStakes, stakes::Stakes};
    use solana_sdk::{
        epoch_schedule::EpochSchedule,
        fee_calculator::{FeeCalculator, FeeRateGovernor},
        hard_forks::HardForks,
        hash::Hash,
        inflation::Inflation,
        stake::state::Delegation,
    };
    let mut queue = BlockhashQueue {
        last_hash_index: 9,
        last_hash: Some(Hash::new_from_array([9; 32])),
        max_age: 300,
        ..Default::default()
    };
    queue.ages.insert(
        Hash::new_from_array([9; 32]),
        HashInfo { fee_calculator: FeeCalculator::new(5000), hash_index: 9, timestamp: 1 },
    );
    let ancestors: HashMap<u64, usize> = HashMap::from([(99u64, 1usize)]);
    let mut stakes = Stakes::<Delegation> { epoch: 3, ..Default::default() };
    stakes.stake_delegations.insert(Pubkey::new_from_array([4; 32]), Delegation::default());
    let bank = bincode::serialize(&(
        (queue, ancestors, Hash::default(), Hash::default(), 99u64, HardForks::default()),
        (1u64, 2u64, 3u64, 4u64, 5u64, Some(12500u64), 64u64, 6_250_000u128, 1_600_000_000i64, 78_892_314.984f64),
        (7u64, 100u64, 3u64, 90u64, Pubkey::default(), 0u64, FeeCalculator::default(), FeeRateGovernor::default(), 0u64),
        (RentCollector::default(), EpochSchedule::default(), Inflation::default(), stakes),
        (
            Vec::<Pubkey>::new(),
            Vec::<Pubkey>::new(),
            Vec::<(Pubkey, u64)>::new(),
            HashMap::from([(3u64, EpochStakes::default())]),
            false,
        ),
    ))
    .unwrap();
    let mut by_slot: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    for (slot, id, len) in known {
        by_slot.entry(*slot).or_default().push((*id, *len as u64));
    }
    let mut v = bank;
    v.extend(bincode::serialize(&(by_slot, 77u64, 100u64, (Hash::default(), Hash::default(), BankHashStats::default()))).unwrap());
    let optional = v.len();
    v.extend(bincode::serialize(&(vec![99u64, 100], vec![(99u64, Hash::default())])).unwrap());
    (v, optional)
}

#[derive(Clone, Debug)]
pub struct File {
    pub path: Vec<u8>,
    pub dir: bool,
    pub bytes: Vec<u8>,
}
pub fn file(path: &str, bytes: Vec<u8>) -> File {
    File { path: path.as_bytes().to_vec(), dir: false, bytes }
}

fn header(path: &[u8], kind: u8, size: usize) -> Vec<u8> {
    let mut h = vec![0u8; 512];
    let n = path.len().min(100);
    h[..n].copy_from_slice(&path[..n]);
    h[100..108].copy_from_slice(b"0000644\0");
    h[108..116].copy_from_slice(b"0000000\0");
    h[116..124].copy_from_slice(b"0000000\0");
    h[124..136].copy_from_slice(format!("{size:011o}\0").as_bytes());
    h[136..148].copy_from_slice(b"00000000000\0");
    h[148..156].copy_from_slice(b"        ");
    h[156] = kind;
    h[257..265].copy_from_slice(b"ustar  \0");
    let sum: u32 = h.iter().map(|x| *x as u32).sum();
    h[148..156].copy_from_slice(format!("{sum:06o}\0 ").as_bytes());
    h
}

/// the archive and where the headers of its files are
pub fn tar(files: &[File]) -> (Vec<u8>, Vec<usize>) {
    let mut v = vec![];
    let mut headers = vec![];
    for f in files {
        if f.path.len() > 100 {
            v.extend(header(b"././@LongLink", b'L', f.path.len() + 1));
            v.extend(&f.path);
            v.push(0);
            v.resize((v.len() + 511) / 512 * 512, 0);
        }
        headers.push(v.len());
        v.extend(header(&f.path, if f.dir { b'5' } else { b'0' }, f.bytes.len()));
        v.extend(&f.bytes);
        v.resize((v.len() + 511) / 512 * 512, 0);
    }
    v.extend(vec![0; 1024]);
    (v, headers)
}

pub fn compress(tar: &[u8]) -> Vec<u8> {
    zstd::stream::encode_all(tar, 1).unwrap()
}
/// in blocks of n bytes, so that the beginning of a stream can be read without its end
pub fn compress_blocks(tar: &[u8], n: usize) -> Vec<u8> {
    use std::io::Write;
    let mut e = zstd::stream::write::Encoder::new(vec![], 1).unwrap();
    for c in tar.chunks(n) {
        e.write_all(c).unwrap();
        e.flush().unwrap();
    }
    e.finish().unwrap()
}
/// number of bytes which can be read from the beginning of a stream
pub fn readable(z: &[u8]) -> usize {
    use std::io::Read;
    let mut d = zstd::stream::read::Decoder::new(z).unwrap();
    let mut n = 0;
    let mut b = [0; 64];
    loop {
        match d.read(&mut b) {
            Ok(0) | Err(_) => return n,
            Ok(k) => n += k,
        }
    }
}

/// scratch directory of this run
fn base() -> PathBuf {
    static NAME: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    NAME.get_or_init(|| std::env::temp_dir().join(format!("verif-simmc-{}", std::process::id()))).clone()
}
pub fn prepare() {
    let _ = std::fs::create_dir_all(base());
}
pub fn clean() {
    let _ = std::fs::remove_dir_all(base());
}
pub struct Scratch(pub PathBuf);
pub fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let p = base().join(format!("{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::create_dir_all(&p);
    Scratch(p)
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn unpack(files: &[File], dir: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    for f in files {
        let p = dir.join(std::ffi::OsStr::from_bytes(&f.path));
        if f.dir {
            let _ = std::fs::create_dir_all(&p);
        } else {
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            std::fs::write(&p, &f.bytes).unwrap();
        }
    }
}
