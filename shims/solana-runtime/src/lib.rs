//! Stand-in for solana-runtime 1.18 (not available offline): only the types that
//! simulate_from_snapshot uses, with the serialization of the originals.
use serde::{Deserialize, Serialize};
use solana_sdk::{
    clock::Epoch, pubkey::Pubkey, stake::state::Delegation, stake_history::StakeHistory,
};
use std::collections::HashMap;
use std::sync::Arc;

pub mod snapshot_utils {
    pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache";
}

pub mod stakes {
    use super::*;
    /// serialized like solana_sdk::account::Account, but read byte by byte, so that a damaged
    /// length does not make the checks allocate gigabytes
    #[derive(Default, Clone, PartialEq, Debug, Deserialize, Serialize)]
    pub struct Account {
        pub lamports: u64,
        pub data: Vec<u8>,
        pub owner: Pubkey,
        pub executable: bool,
        pub rent_epoch: u64,
    }
    #[derive(Default, Clone, PartialEq, Debug, Deserialize, Serialize)]
    pub struct Stakes<T: Clone> {
        pub vote_accounts: HashMap<Pubkey, (u64, Account)>,
        pub stake_delegations: HashMap<Pubkey, T>,
        pub unused: u64,
        pub epoch: Epoch,
        pub stake_history: StakeHistory,
    }
}

pub mod epoch_stakes {
    use super::*;
    #[derive(Default, Clone, PartialEq, Debug, Deserialize, Serialize)]
    pub struct NodeVoteAccounts {
        pub vote_accounts: Vec<Pubkey>,
        pub total_stake: u64,
    }
    #[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
    pub struct EpochStakes {
        pub stakes: Arc<stakes::Stakes<Delegation>>,
        pub total_stake: u64,
        pub node_id_to_vote_accounts: Arc<HashMap<Pubkey, NodeVoteAccounts>>,
        pub epoch_authorized_voters: Arc<HashMap<Pubkey, Pubkey>>,
    }
}
