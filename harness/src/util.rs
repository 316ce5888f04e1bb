use lite_account_manager_common::account_data::{Account, AccountData, CompressionMethod, Data};
use lite_account_manager_common::commitment::Commitment;
use solana_sdk::pubkey::Pubkey;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub const COMMITMENTS: [Commitment; 3] = [
    Commitment::Processed,
    Commitment::Confirmed,
    Commitment::Finalized,
];
pub fn cname(c: u8) -> &'static str {
    ["processed", "confirmed", "finalized"][c as usize]
}

/// address of the account number i
pub fn account_key(i: u8) -> Pubkey {
    let mut k = [0x40u8.wrapping_add(i); 32];
    k[31] = 7;
    Pubkey::new_from_array(k)
}
/// program number i: 0 and 1 are tracked ones, 2 an untracked one, 3 the system program
pub fn program_key(i: u8) -> Pubkey {
    if i == 3 {
        return Pubkey::default();
    }
    Pubkey::new_from_array([0xa0 + i; 32])
}

/// everything which can be observed of an account
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Seen {
    pub pubkey: Pubkey,
    pub slot: u64,
    pub wv: u64,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub executable: bool,
    pub rent_epoch: u64,
}

pub fn seen(a: &AccountData) -> Seen {
    Seen {
        pubkey: a.pubkey,
        slot: a.updated_slot,
        wv: a.write_version,
        owner: a.account.owner,
        lamports: a.account.lamports,
        data: a.account.data.data(),
        executable: a.account.executable,
        rent_epoch: a.account.rent_epoch,
    }
}

pub fn account_data(s: &Seen, method: CompressionMethod) -> AccountData {
    AccountData {
        pubkey: s.pubkey,
        account: Arc::new(Account {
            lamports: s.lamports,
            data: Data::new(&s.data, method),
            owner: s.owner,
            executable: s.executable,
            rent_epoch: s.rent_epoch,
        }),
        updated_slot: s.slot,
        write_version: s.wv,
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn short(k: &Pubkey) -> String {
    let b = k.to_bytes();
    format!("{:02x}{:02x}..{:02x}", b[0], b[1], b[31])
}

impl Seen {
    pub fn show(&self) -> String {
        format!(
            "{}@slot {} wv {} owner {} lamports {} data {:?}",
            short(&self.pubkey),
            self.slot,
            self.wv,
            short(&self.owner),
            self.lamports,
            &self.data[..self.data.len().min(8)]
        )
    }
}
pub fn show_opt(s: &Option<Seen>) -> String {
    s.as_ref().map_or("nothing".to_string(), |x| x.show())
}
pub fn show_list(s: &[Seen]) -> String {
    format!("[{}]", s.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "))
}
