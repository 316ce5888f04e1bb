//! Stand-in: the layouts of solana-runtime 1.18 which the program reads.
pub mod epoch_stakes {
    use solana_sdk::pubkey::Pubkey;
    use std::collections::HashMap;
    #[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
    pub struct NodeVoteAccounts {
        pub vote_accounts: Vec<Pubkey>,
        pub total_stake: u64,
    }
    #[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
    pub struct EpochStakes {
        pub stakes: crate::stakes::Stakes<solana_sdk::stake::state::Delegation>,
        pub total_stake: u64,
        pub node_id_to_vote_accounts: HashMap<Pubkey, NodeVoteAccounts>,
        pub epoch_authorized_voters: HashMap<Pubkey, Pubkey>,
    }
}
pub mod stakes {
    use solana_sdk::{account::Account, clock::Epoch, pubkey::Pubkey, stake_history::StakeHistory};
    use std::collections::HashMap;
    #[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
    pub struct Stakes<T: Clone> {
        pub vote_accounts: HashMap<Pubkey, (u64, Account)>,
        pub stake_delegations: HashMap<Pubkey, T>,
        pub unused: u64,
        pub epoch: Epoch,
        pub stake_history: StakeHistory,
    }
}
pub mod snapshot_utils {
    pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache";
}
