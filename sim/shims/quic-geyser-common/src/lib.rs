//! Stand-in: the messages of the stream.
pub mod types {
    pub mod connections_parameters {
        #[derive(Clone, Debug, Default)]
        pub struct ConnectionParameters;
    }
    pub mod slot_identifier {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct SlotIdentifier { pub slot: u64 }
    }
    pub mod account {
        #[derive(Clone, Debug)]
        pub struct Account {
            pub slot_identifier: super::slot_identifier::SlotIdentifier,
            pub pubkey: solana_sdk::pubkey::Pubkey,
            pub owner: solana_sdk::pubkey::Pubkey,
            pub lamports: u64,
            pub executable: bool,
            pub rent_epoch: u64,
            pub write_version: u64,
            pub data: Vec<u8>,
            pub compression_type: crate::compression::CompressionType,
            pub data_length: u64,
        }
    }
    pub mod slot {
        #[derive(Clone, Debug)]
        pub struct SlotMeta {
            pub slot: u64,
            pub parent: u64,
            pub commitment_config: solana_sdk::commitment_config::CommitmentConfig,
        }
    }
}
pub mod compression {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CompressionType { None, Lz4Fast(i32), Lz4(i32) }
}
pub mod filters {
    #[derive(Clone, Debug)]
    pub enum Filter { Slot, BlockMeta, AccountsAll, TransactionsAll }
}
pub mod message {
    #[derive(Clone, Debug)]
    pub enum Message {
        AccountMsg(crate::types::account::Account),
        SlotMsg(crate::types::slot::SlotMeta),
        Ping,
    }
}
