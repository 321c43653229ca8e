//! Stand-in for quic-geyser-common: the messages of the stream.
pub mod compression {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum CompressionType {
        #[default]
        None,
        Lz4Fast(i32),
        Lz4(i32),
    }
}
pub mod filters {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Filter {
        AccountsAll,
        Slot,
        BlockMeta,
    }
}
pub mod types {
    pub mod connections_parameters {
        #[derive(Clone, Copy, Debug, Default)]
        pub struct ConnectionParameters {
            pub max_number_of_streams: u64,
        }
    }
    pub mod account {
        use solana_sdk::pubkey::Pubkey;
        #[derive(Clone, Debug)]
        pub struct SlotIdentifier {
            pub slot: u64,
        }
        #[derive(Clone, Debug)]
        pub struct Account {
            pub slot_identifier: SlotIdentifier,
            pub pubkey: Pubkey,
            pub owner: Pubkey,
            pub lamports: u64,
            pub executable: bool,
            pub rent_epoch: u64,
            pub write_version: u64,
            pub compression_type: crate::compression::CompressionType,
            pub data_length: u64,
            pub data: Vec<u8>,
        }
    }
    pub mod slot {
        use solana_sdk::commitment_config::CommitmentConfig;
        #[derive(Clone, Debug)]
        pub struct SlotMeta {
            pub slot: u64,
            pub parent: u64,
            pub commitment_config: CommitmentConfig,
        }
    }
}
pub mod message {
    #[derive(Clone, Debug)]
    pub enum Message {
        AccountMsg(crate::types::account::Account),
        SlotMsg(crate::types::slot::SlotMeta),
        Ping,
    }
}
