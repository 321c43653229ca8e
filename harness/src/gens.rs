//! Shared generators: keys, payloads, accounts, filters.
use lite_account_manager_common::account_data::{Account, AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{
    AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData,
};
use pbt::G;
use solana_sdk::account::Account as SolanaAccount;
use solana_sdk::pubkey::Pubkey;
use std::sync::Arc;

/// a fixed, distinct key per (family, index)
pub fn key(family: u8, n: u64) -> Pubkey {
    let mut b = [0u8; 32];
    let mut r = pbt::Rng::new(((family as u64) << 32) ^ n ^ 0x5eed);
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new_from_array(b)
}

pub fn any_key(g: &mut G) -> Pubkey {
    match g.weighted(&[6, 1, 1]) {
        0 => {
            let n = g.below(1 << 20);
            key(0, n)
        }
        1 => Pubkey::default(),
        _ => Pubkey::new_from_array([0xff; 32]),
    }
}

/// account payloads: empty, short, repetitive, incompressible, long
pub fn payload(g: &mut G, max: usize) -> Vec<u8> {
    match g.weighted(&[1, 6, 3, 3, 1]) {
        0 => vec![],
        1 => {
            let n = g.size(0, 24.min(max));
            g.bytes(n)
        }
        2 => {
            let n = g.size(0, max);
            let b = g.u8();
            vec![b; n]
        }
        3 => {
            let n = g.size(0, 2048.min(max));
            g.blob(n)
        }
        _ => {
            let unit = g.size(1, 40);
            let reps = g.size(1, (max / unit).max(1));
            let u = g.bytes(unit);
            let mut v = Vec::with_capacity(unit * reps);
            for _ in 0..reps {
                v.extend_from_slice(&u);
            }
            v
        }
    }
}

pub fn codec(g: &mut G) -> CompressionMethod {
    match g.weighted(&[3, 2, 2]) {
        0 => CompressionMethod::None,
        1 => {
            let l = match g.weighted(&[3, 1]) {
                0 => g.range(1, 16) as i32,
                _ => g.range(0, 4000) as i32 - 100,
            };
            CompressionMethod::Lz4(l)
        }
        _ => {
            let l = match g.weighted(&[4, 1]) {
                0 => g.range(0, 12) as i32,
                _ => g.range(0, 29) as i32 - 10,
            };
            CompressionMethod::Zstd(l)
        }
    }
}

pub fn cheap_codec(g: &mut G) -> CompressionMethod {
    match g.weighted(&[10, 1, 1]) {
        0 => CompressionMethod::None,
        1 => CompressionMethod::Lz4(1),
        _ => CompressionMethod::Zstd(1),
    }
}

/// the remaining account fields are functions of the lamports, so that a state is one value
pub fn executable_of(lamports: u64) -> bool {
    lamports % 3 == 1
}
pub fn rent_epoch_of(lamports: u64) -> u64 {
    lamports % 7
}

pub fn mk_account(
    pubkey: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
    slot: u64,
    wv: u64,
    c: CompressionMethod,
) -> AccountData {
    AccountData {
        pubkey,
        account: Arc::new(Account::from_solana_account(
            SolanaAccount {
                lamports,
                data,
                owner,
                executable: executable_of(lamports),
                rent_epoch: rent_epoch_of(lamports),
            },
            c,
        )),
        updated_slot: slot,
        write_version: wv,
    }
}

// ------------------------------------------------------------------ filters

/// encoding-free description of one filter condition
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cond {
    Size(u64),
    Mem(u64, Vec<u8>),
}

impl Cond {
    /// the meaning of the condition, written from the RPC documentation
    pub fn holds(&self, data: &[u8]) -> bool {
        match self {
            Cond::Size(n) => data.len() as u128 == *n as u128,
            Cond::Mem(off, pat) => {
                let off = *off as u128;
                let end = off + pat.len() as u128;
                if end > data.len() as u128 {
                    return false;
                }
                (0..pat.len()).all(|i| data[off as usize + i] == pat[i])
            }
        }
    }
}

/// spell a condition with a generated encoding
pub fn spell(g: &mut G, c: &Cond) -> AccountFilterType {
    match c {
        Cond::Size(n) => AccountFilterType::Datasize(*n),
        Cond::Mem(off, pat) => {
            use base64::Engine;
            let data = match g.weighted(&[2, 1, 1]) {
                0 => MemcmpFilterData::Bytes(pat.clone()),
                1 => MemcmpFilterData::Base58(bs58::encode(pat).into_string()),
                _ => MemcmpFilterData::Base64(
                    base64::engine::general_purpose::STANDARD.encode(pat),
                ),
            };
            AccountFilterType::Memcmp(MemcmpFilter {
                offset: *off,
                data,
            })
        }
    }
}

pub fn spell_all(g: &mut G, cs: &[Cond]) -> Vec<AccountFilterType> {
    cs.iter().map(|c| spell(g, c)).collect()
}

/// conditions over a tiny data space, so that they overlap and interact
pub fn small_cond(g: &mut G) -> Cond {
    match g.weighted(&[1, 2]) {
        0 => Cond::Size(g.below(6)),
        _ => {
            let off = g.below(4);
            let n = g.weighted(&[4, 2, 1]) + 1;
            let n = if g.chance(1, 12) { 0 } else { n };
            Cond::Mem(off, (0..n).map(|_| g.below(3) as u8).collect())
        }
    }
}

pub fn small_data(g: &mut G) -> Vec<u8> {
    let n = g.size(0, 6);
    (0..n).map(|_| g.below(3) as u8).collect()
}

/// data that satisfies every condition, if the conditions are consistent
pub fn data_matching(g: &mut G, conds: &[Cond]) -> Option<Vec<u8>> {
    let need = conds
        .iter()
        .map(|c| match c {
            Cond::Size(_) => 0,
            Cond::Mem(o, p) => *o as usize + p.len(),
        })
        .max()
        .unwrap_or(0);
    let len = conds
        .iter()
        .find_map(|c| match c {
            Cond::Size(n) => Some(*n as usize),
            _ => None,
        })
        .unwrap_or_else(|| need + g.size(0, 3));
    if len > 1 << 16 {
        return None;
    }
    let mut d: Vec<u8> = (0..len).map(|_| g.below(3) as u8).collect();
    for c in conds {
        if let Cond::Mem(o, p) = c {
            let o = *o as usize;
            if o + p.len() > d.len() {
                return None;
            }
            d[o..o + p.len()].copy_from_slice(p);
        }
    }
    conds.iter().all(|c| c.holds(&d)).then_some(d)
}

pub fn program_filter(program: Pubkey, filters: Option<Vec<AccountFilterType>>) -> AccountFilter {
    AccountFilter {
        accounts: vec![],
        program_id: Some(program),
        filters,
    }
}

// ------------------------------------------------------------------ magnitudes

/// where the numbers of a history start: mostly small, sometimes beyond 16, 32 or 53 bits
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub slot: u64,
    pub wv: u64,
    pub lamports: u64,
}

impl Scale {
    pub const PLAIN: Scale = Scale { slot: 100, wv: 0, lamports: 1000 };
}

pub fn scale(g: &mut G) -> Scale {
    if g.weighted(&[3, 1]) == 0 {
        return Scale::PLAIN;
    }
    let edge = |g: &mut G, low: u64| match g.below(7) {
        0 => low,
        1 => (1 << 16) - 8,
        2 => (1 << 31) - 8,
        3 => (1 << 32) - 8,
        4 => (1 << 53) - 8,
        5 => (1 << 63) - 8,
        _ => u64::MAX - (1 << 24),
    };
    let s = Scale { slot: edge(g, 1), wv: edge(g, 0), lamports: edge(g, 0) };
    g.class("large_numbers");
    s
}
