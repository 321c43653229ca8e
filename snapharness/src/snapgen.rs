//! Generated snapshots, written independently of the code under test
use pbt::G;
use serde::Serialize;
use solana_accounts_db::{
    accounts_db::BankHashStats, ancestors::AncestorsForSerialization, blockhash_queue::{BlockhashQueue, HashInfo},
    rent_collector::RentCollector,
};
use solana_runtime::{epoch_stakes::EpochStakes, stakes::{Account as VoteAccount, Stakes}};
use solana_sdk::{
    epoch_schedule::EpochSchedule,
    fee_calculator::{FeeCalculator, FeeRateGovernor},
    hard_forks::HardForks,
    hash::Hash,
    inflation::Inflation,
    pubkey::Pubkey,
    stake::state::Delegation,
};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// an account as stored in an account file
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub write_version: u64,
    pub pubkey: Pubkey,
    pub lamports: u64,
    pub rent_epoch: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub hash: [u8; 32],
    pub data: Vec<u8>,
}

pub const HEADER: usize = 48 + 56 + 32;

impl Stored {
    pub fn brief(&self) -> String {
        format!(
            "{} owner {} lamports {} wv {} {} bytes",
            &self.pubkey.to_string()[..4],
            &self.owner.to_string()[..4],
            self.lamports,
            self.write_version,
            self.data.len()
        )
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        while out.len() % 8 != 0 {
            out.push(0);
        }
        out.extend_from_slice(&self.write_version.to_le_bytes());
        out.extend_from_slice(&(self.data.len() as u64).to_le_bytes());
        out.extend_from_slice(self.pubkey.as_ref());
        out.extend_from_slice(&self.lamports.to_le_bytes());
        out.extend_from_slice(&self.rent_epoch.to_le_bytes());
        out.extend_from_slice(self.owner.as_ref());
        out.push(self.executable as u8);
        out.extend_from_slice(&[0; 7]);
        out.extend_from_slice(&self.hash);
        out.extend_from_slice(&self.data);
    }
}

pub fn write_all(v: &[Stored]) -> Vec<u8> {
    let mut out = vec![];
    for s in v {
        s.write(&mut out);
    }
    out
}

/// what an account file holds: the accounts that fit completely into the recorded length.
/// (the executable flag is not taken from bytes that are no boolean)
pub fn parse(bytes: &[u8]) -> Vec<(usize, Stored, u8)> {
    let mut v = vec![];
    let mut at = 0usize;
    let u64_at = |i: usize| u64::from_le_bytes(bytes[i..i + 8].try_into().unwrap());
    let k_at = |i: usize| <[u8; 32]>::try_from(&bytes[i..i + 32]).unwrap();
    while at as u128 + HEADER as u128 <= bytes.len() as u128 {
        let len = u64_at(at + 8);
        let start = at + HEADER;
        if start as u128 + len as u128 > bytes.len() as u128 {
            break;
        }
        let end = start + len as usize;
        let flag = bytes[at + 48 + 48];
        v.push((
            at,
            Stored {
                write_version: u64_at(at),
                pubkey: Pubkey::from(k_at(at + 16)),
                lamports: u64_at(at + 48),
                rent_epoch: u64_at(at + 56),
                owner: Pubkey::from(k_at(at + 64)),
                executable: flag == 1,
                hash: k_at(at + 104),
                data: bytes[start..end].to_vec(),
            },
            flag,
        ));
        at = (end + 7) / 8 * 8;
    }
    v
}

pub fn gen_key(g: &mut G) -> Pubkey {
    match g.weighted(&[3, 1]) {
        0 => {
            let mut k = [7u8; 32];
            k[0] = g.u8();
            Pubkey::from(k)
        }
        _ => Pubkey::from(<[u8; 32]>::try_from(&g.blob(32)[..]).unwrap()),
    }
}

pub fn gen_stored(g: &mut G) -> Stored {
    let n = match g.weighted(&[3, 3, 1]) {
        0 => g.size(0, 9),
        1 => g.size(0, 200),
        _ => g.size(200, 5000),
    };
    Stored {
        write_version: g.edgy_u64(),
        pubkey: gen_key(g),
        lamports: g.edgy_u64(),
        rent_epoch: g.edgy_u64(),
        owner: gen_key(g),
        executable: g.bool(),
        hash: g.blob(32).try_into().unwrap(),
        data: g.blob(n),
    }
}

// ------------------------------------------------------------------ manifest

#[derive(Serialize)]
struct UnusedAccounts {
    unused1: HashSet<Pubkey>,
    unused2: HashSet<Pubkey>,
    unused3: HashMap<Pubkey, u64>,
}

/// the fields of a bank in a snapshot of solana 1.18, in order
#[derive(Serialize)]
struct Bank {
    blockhash_queue: BlockhashQueue,
    ancestors: AncestorsForSerialization,
    hash: Hash,
    parent_hash: Hash,
    parent_slot: u64,
    hard_forks: HardForks,
    transaction_count: u64,
    tick_height: u64,
    signature_count: u64,
    capitalization: u64,
    max_tick_height: u64,
    hashes_per_tick: Option<u64>,
    ticks_per_slot: u64,
    ns_per_slot: u128,
    genesis_creation_time: i64,
    slots_per_year: f64,
    accounts_data_len: u64,
    slot: u64,
    epoch: u64,
    block_height: u64,
    collector_id: Pubkey,
    collector_fees: u64,
    fee_calculator: FeeCalculator,
    fee_rate_governor: FeeRateGovernor,
    collected_rent: u64,
    rent_collector: RentCollector,
    epoch_schedule: EpochSchedule,
    inflation: Inflation,
    stakes: Stakes<Delegation>,
    unused_accounts: UnusedAccounts,
    epoch_stakes: HashMap<u64, EpochStakes>,
    is_delta: bool,
}

#[derive(Serialize)]
struct Info {
    hash: Hash,
    snapshot_hash: Hash,
    stats: BankHashStats,
}

fn gen_bank(g: &mut G, slot: u64, rich: bool) -> Bank {
    let mut q = BlockhashQueue::default();
    let mut stakes = Stakes::<Delegation>::default();
    let mut ancestors = HashMap::new();
    let mut hard_forks = HardForks::default();
    let mut epoch_stakes = HashMap::new();
    let mut unused1 = HashSet::new();
    if rich && g.bool() {
        q.last_hash = Some(Hash::new_from_array([g.u8(); 32]));
        for i in 0..g.below(4) {
            q.hashes.insert(
                Hash::new_from_array([g.u8(); 32]),
                HashInfo { fee_calculator: FeeCalculator::default(), hash_index: i, timestamp: i },
            );
        }
        for i in 0..g.below(4) {
            ancestors.insert(slot - i, 0);
            stakes.stake_delegations.insert(gen_key(g), Delegation::default());
            stakes.vote_accounts.insert(gen_key(g), (i, VoteAccount { lamports: i, data: vec![1; i as usize], ..Default::default() }));
            hard_forks.register(i);
            unused1.insert(gen_key(g));
            epoch_stakes.insert(i, EpochStakes { stakes: Arc::new(stakes.clone()), ..Default::default() });
        }
    }
    Bank {
        blockhash_queue: q,
        ancestors,
        hash: Hash::new_from_array([g.u8(); 32]),
        parent_hash: Hash::new_from_array([g.u8(); 32]),
        parent_slot: slot - 1,
        hard_forks,
        transaction_count: g.below(1000),
        tick_height: 1,
        signature_count: 2,
        capitalization: 3,
        max_tick_height: 4,
        hashes_per_tick: if g.bool() { Some(5) } else { None },
        ticks_per_slot: 64,
        ns_per_slot: 400_000_000,
        genesis_creation_time: 0,
        slots_per_year: 1.5,
        accounts_data_len: 7,
        slot,
        epoch: 3,
        block_height: 4,
        collector_id: Pubkey::default(),
        collector_fees: 0,
        fee_calculator: FeeCalculator::default(),
        fee_rate_governor: FeeRateGovernor::default(),
        collected_rent: 0,
        rent_collector: RentCollector::default(),
        epoch_schedule: EpochSchedule::default(),
        inflation: Inflation::default(),
        stakes,
        unused_accounts: UnusedAccounts { unused1, unused2: Default::default(), unused3: Default::default() },
        epoch_stakes,
        is_delta: g.bool(),
    }
}

/// an account file and its entry in the manifest
#[derive(Clone, Debug)]
pub struct AccountFile {
    pub slot: u64,
    pub id: u64,
    pub accounts: Vec<Stored>,
    /// length in the manifest
    pub len: usize,
    pub bytes: Vec<u8>,
}

impl AccountFile {
    pub fn name(&self) -> String {
        format!("{}.{}", self.slot, self.id)
    }
    pub fn of(slot: u64, id: u64, accounts: Vec<Stored>) -> AccountFile {
        let bytes = write_all(&accounts);
        AccountFile { slot, id, len: bytes.len(), bytes, accounts }
    }
}

pub fn ser<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}

/// the manifest of a snapshot of `slot` that lists `files`
/// (the bytes depend on the choices only if it is not `rich`)
pub fn manifest(g: &mut G, slot: u64, files: &[AccountFile], rich: bool) -> Vec<u8> {
    let mut out = ser(&gen_bank(g, slot, rich));
    let mut map: BTreeMap<u64, Vec<(usize, usize)>> = BTreeMap::new();
    for f in files {
        map.entry(f.slot).or_default().push((f.id as usize, f.len));
    }
    out.extend(ser(&map));
    out.extend(ser(&(g.below(1 << 40), slot)));
    out.extend(ser(&Info {
        hash: Hash::new_from_array([g.u8(); 32]),
        snapshot_hash: Hash::new_from_array([g.u8(); 32]),
        stats: BankHashStats::default(),
    }));
    // later versions of the format added fields at the end
    let tail = g.below(4);
    if tail >= 1 {
        out.extend(ser(&vec![1u64, 2, 3]));
    }
    if tail >= 2 {
        out.extend(ser(&vec![(1u64, Hash::default())]));
    }
    if tail >= 3 {
        out.extend(ser(&5000u64));
        out.extend(g.blob(50));
    }
    out
}

pub fn gen_files(g: &mut G, slot: u64, max: usize) -> Vec<AccountFile> {
    let mut files: Vec<AccountFile> = vec![];
    for i in 0..g.size(0, max) {
        // several files of one slot are possible, as are ids shared by files of different slots
        let s = match g.weighted(&[3, 1]) {
            0 => slot - g.below(5),
            _ => g.below(1 << 30),
        };
        let id = match g.weighted(&[3, 1, 1, 1]) {
            0 => i as u64,
            1 => g.below(3),
            2 => g.below(1 << 33),
            // differs from the id of another file only in its high bits
            _ => files.last().map_or(0, |f| f.id).wrapping_add(g.size(1, 3) as u64 * (1 << 32)),
        };
        let s = match files.last() {
            Some(f) if g.chance(1, 3) => f.slot,
            _ => s,
        };
        if files.iter().any(|f| f.slot == s && f.id == id) {
            continue;
        }
        let n = g.size(1, 4);
        let accounts = (0..n).map(|_| gen_stored(g)).collect();
        let mut f = AccountFile::of(s, id, accounts);
        // files are larger than what is recorded: free space, or appended after the recording
        match g.below(3) {
            0 => {}
            1 => {
                let n = (4096 - f.bytes.len() % 4096) % 4096;
                f.bytes.extend(std::iter::repeat(0).take(n));
            }
            _ => {
                let later = gen_stored(g);
                later.write(&mut f.bytes);
            }
        }
        files.push(f);
    }
    files
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("snapharness-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn add_entry(b: &mut tar::Builder<Vec<u8>>, path: &str, data: &[u8]) {
    let mut h = tar::Header::new_gnu();
    h.set_size(data.len() as u64);
    h.set_mode(0o644);
    h.set_mtime(1);
    h.set_entry_type(tar::EntryType::Regular);
    b.append_data(&mut h, path, data).unwrap();
}
pub fn add_dir(b: &mut tar::Builder<Vec<u8>>, path: &str) {
    let mut h = tar::Header::new_gnu();
    h.set_size(0);
    h.set_mode(0o755);
    h.set_mtime(1);
    h.set_entry_type(tar::EntryType::Directory);
    b.append_data(&mut h, path, &[][..]).unwrap();
}

/// compress as one frame
pub fn compress(bytes: &[u8], level: i32) -> Vec<u8> {
    zstd::stream::encode_all(bytes, level).unwrap()
}
