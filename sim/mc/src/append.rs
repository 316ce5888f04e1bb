//! What can be observed of an append vec.
use crate::writer::Acc;
use solana_sdk::account::ReadableAccount;
use sim_prog::snapshot_utils::{append_vec::AppendVec, append_vec_iter};

pub fn accounts(v: &AppendVec) -> Vec<Acc> {
    let mut out = vec![];
    for handle in append_vec_iter(v) {
        let s = handle.access().expect("an account which was found can be accessed");
        out.push(Acc {
            pubkey: s.meta.pubkey,
            write_version: s.meta.write_version_obsolete,
            lamports: s.account_meta.lamports,
            rent_epoch: s.account_meta.rent_epoch,
            owner: s.account_meta.owner,
            // not read as a bool, it can be anything in a damaged file
            executable: unsafe { *(std::ptr::addr_of!(s.account_meta.executable) as *const u8) },
            hash: s.hash.to_bytes(),
            data: s.data.to_vec(),
        });
        let a: &Acc = out.last().unwrap();
        assert!(s.offset < v.len() && s.stored_size >= s.data.len(), "account at {} of {} bytes", s.offset, s.stored_size);
        if a.executable <= 1 {
            let c = s.clone_account();
            let same = c.lamports() == a.lamports
                && c.owner() == &a.owner
                && c.rent_epoch() == a.rent_epoch
                && c.executable() == (a.executable == 1)
                && c.data() == a.data;
            assert!(same, "the copy of an account is another one");
        }
        assert!(out.len() < 200_000, "accounts are visited without an end");
    }
    out
}
