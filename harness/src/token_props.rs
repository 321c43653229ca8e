//! T01-T09: token account storage
use crate::feed::*;
use crate::gens::*;
use crate::tok::*;
use lite_account_manager_common::account_data::{Account, AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_token_account_storage::account_types::{Program, TokenAccount, TokenProgramAccountState};
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage;
use lite_token_account_storage::token_account_storage_interface::TokenAccountStorageInterface;
use pbt::{ensure, fail, Prop, Sub, G, R};
use solana_sdk::account::Account as SolanaAccount;
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

const FEED: &[&str] = &[
    "feed domain: the ancestors of a finalized slot above the previous finalized slot have been announced (those of a confirmed slot may be announced later, and are confirmed then); confirmed and finalized slots lie on one chain; unfinalized updates are above the finalized slot; finalized updates only hit accounts without unfinalized states; (slot, write version) is unique per account; closings are of accounts that exist in some slot; an account changes its kind (token account, mint or multisig) only after a closing",
    "not compared: write version, rent epoch and the lamports of token accounts (the packed form does not keep them)",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T01",
            subs: vec![Sub::new("packed", 600000, 6000000, t01)],
            rule: "token accounts with every combination of optional fields and edge values; packed, unpacked, compared, and compared with a copy changed in one field; non-trivial = at least two optional fields present",
            assumptions: &[],
        },
        Prop {
            id: "T02",
            subs: vec![
                Sub::new("valid", 150000, 1500000, t02_valid),
                Sub::new("arbitrary", 300000, 3000000, t02_arbitrary),
            ],
            rule: "valid accounts of all shapes, and arbitrary or damaged bytes of all lengths, sent to an empty token storage and read back at every commitment; validity decided by the token programs' own unpacking code; non-trivial = an extended account, or at least two optional fields (valid) / length of a token program account but invalid content, or the other way round (arbitrary)",
            assumptions: &["accounts that unpack but that the token programs never write (non-canonical bytes) only must not panic"],
        },
        Prop {
            id: "T03",
            subs: vec![Sub::new("table", 100000, 1000000, t03)],
            rule: "random call sequences over keys that share their first four bytes, all observers checked against a map after every call; non-trivial = an account with a key neighbour in use was deleted",
            assumptions: &[],
        },
        Prop {
            id: "T04",
            subs: vec![Sub::new("feed", 40000, 400000, t04)],
            rule: "random feeds over fork trees with token accounts, mints and multisigs of both programs, all accounts read at all commitments after every message; non-trivial = finalization of a slot moved states of an ancestor, and a mint was unknown while a token account of it was readable",
            assumptions: FEED,
        },
        Prop {
            id: "T05",
            subs: vec![Sub::new("queries", 100000, 1000000, t05)],
            rule: "random feeds with owner and mint changes, a random query of every shape at every commitment after every message, compared with the model; non-trivial = a query returned accounts after an owner or mint change",
            assumptions: FEED,
        },
        Prop {
            id: "T06",
            subs: vec![Sub::new("closing", 50000, 500000, t06)],
            rule: "random feeds dominated by closings and re-creations over keys sharing their first bytes; reads, queries and snapshots checked; non-trivial = an account was closed and a later read found a re-created or a neighbouring account",
            assumptions: FEED,
        },
        Prop {
            id: "T07",
            subs: vec![
                Sub::new("roundtrip", 36000, 360000, t07_roundtrip),
                Sub::new("merge", 36000, 360000, t07_merge),
                Sub::new("corrupt", 50000, 500000, t07_corrupt),
            ],
            rule: "snapshot of a store filled by a random feed loaded into an empty store / a store in use / after damage to the bytes (also below the compression); non-trivial = the snapshot holds a token account (roundtrip, corrupt) / both stores know a common mint under different orders of arrival (merge)",
            assumptions: FEED,
        },
        crate::token_conc::prop(),
        crate::token_conc::snapshot_prop(),
        Prop {
            id: "T09",
            subs: vec![Sub::new("results", 150000, 1500000, t09)],
            rule: "random feeds; the accounts returned by every notification compared with the model; non-trivial = a finalization reported a state of an ancestor slot",
            assumptions: FEED,
        },
        crate::token_gauges::prop(),
    ]
}

// ------------------------------------------------------------------ T01

fn gen_packed(g: &mut G) -> TokenAccount {
    let ext = if g.chance(1, 3) {
        let n = match g.weighted(&[4, 2, 1, 1]) {
            0 => g.size(0, 8),
            1 => g.size(0, 400),
            2 => g.size(65530, 65540),
            _ => 0,
        };
        Some(g.blob(n))
    } else {
        None
    };
    TokenAccount {
        program: if g.bool() { Program::Token2022Program } else { Program::TokenProgram },
        is_deleted: g.chance(1, 4),
        pubkey: any_key(g),
        owner: any_key(g),
        mint: g.edgy_u64() as u32,
        amount: g.edgy_u64(),
        state: match g.below(3) {
            0 => TokenProgramAccountState::Initialized,
            1 => TokenProgramAccountState::Frozen,
            _ => TokenProgramAccountState::Uninitialized,
        },
        delegate: if g.bool() { Some((any_key(g), g.edgy_u64())) } else { None },
        is_native: if g.bool() { Some(g.edgy_u64()) } else { None },
        close_authority: if g.bool() { Some(any_key(g)) } else { None },
        additional_data: ext,
    }
}

fn t01(g: &mut G) -> R {
    let a = gen_packed(g);
    g.note(|| {
        let mut b = a.clone();
        b.additional_data = None;
        format!("{b:?}, additional data: {:?}", a.additional_data.as_ref().map(|x| x.len()))
    });
    let bytes = a.to_bytes();
    let back = TokenAccount::from_bytes(&bytes);
    ensure!("roundtrip", back == a, "unpacked account differs from the packed one");
    ensure!("pubkey_field", TokenAccount::get_pubkey_from_binary(&bytes) == a.pubkey, "pubkey read from the packed form differs");
    ensure!("owner_field", TokenAccount::get_owner_from_binary(&bytes) == a.owner, "owner read from the packed form differs");
    ensure!("mint_field", TokenAccount::get_mint_index_from_binary(&bytes) == a.mint, "mint index read from the packed form differs");
    // one field changed
    let mut b = a.clone();
    let f = g.below(12);
    match f {
        0 => b.program = if a.program == Program::TokenProgram { Program::Token2022Program } else { Program::TokenProgram },
        1 => b.is_deleted = !a.is_deleted,
        2 => b.pubkey = any_key(g),
        3 => b.owner = any_key(g),
        4 => b.mint ^= 1 << g.below(32),
        5 => b.amount ^= 1 << g.below(64),
        6 => {
            b.state = match (a.state, g.bool()) {
                (TokenProgramAccountState::Initialized, true) => TokenProgramAccountState::Frozen,
                (TokenProgramAccountState::Initialized, false) => TokenProgramAccountState::Uninitialized,
                (TokenProgramAccountState::Frozen, true) => TokenProgramAccountState::Uninitialized,
                (TokenProgramAccountState::Frozen, false) => TokenProgramAccountState::Initialized,
                (_, true) => TokenProgramAccountState::Frozen,
                (_, false) => TokenProgramAccountState::Initialized,
            }
        }
        7 => b.delegate = if a.delegate.is_some() { None } else { Some((Pubkey::default(), 0)) },
        8 => b.is_native = if a.is_native.is_some() { None } else { Some(0) },
        9 => b.close_authority = if a.close_authority.is_some() { None } else { Some(Pubkey::default()) },
        10 => b.additional_data = if a.additional_data.is_some() { None } else { Some(vec![]) },
        _ => {
            // move bytes between neighbouring optional fields
            std::mem::swap(&mut b.is_native, &mut a.delegate.map(|d| d.1));
        }
    }
    ensure!("injective", (a == b) == (bytes == b.to_bytes()), "two accounts that differ in field {f} have the same packed form (or equal ones differ)");
    let opts = a.delegate.is_some() as u32 + a.is_native.is_some() as u32 + a.close_authority.is_some() as u32 + a.additional_data.is_some() as u32;
    g.nontrivial = opts >= 2;
    g.class_if(a.additional_data.is_some(), "additional_data");
    g.class_if(opts == 4, "all_optional_fields");
    Ok(())
}

// ------------------------------------------------------------------ T02

pub fn new_store() -> TokenProgramAccountsStorage {
    TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))
}

fn raw_account(pk: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>, slot: u64, wv: u64, codec: CompressionMethod) -> AccountData {
    AccountData {
        pubkey: pk,
        account: Arc::new(Account::from_solana_account(
            SolanaAccount {
                lamports,
                data,
                owner,
                executable: false,
                rent_epoch: u64::MAX,
            },
            codec,
        )),
        updated_slot: slot,
        write_version: wv,
    }
}

fn gen_spec(g: &mut G) -> TokSpec {
    let p = g.below(2) as usize;
    match g.weighted(&[3, 2, 1]) {
        0 => {
            let m = mint_key(p, g.below(3));
            let o = owner_key(g.below(3));
            TokSpec::token(p, m, o, g)
        }
        1 => TokSpec::mint(p, g),
        _ => TokSpec::multi(p, g),
    }
}

/// send through one of the entry points, read back
fn t02_valid(g: &mut G) -> R {
    let store = new_store();
    let spec = gen_spec(g);
    let pk = any_key(g);
    let codec = cheap_codec(g);
    let via = g.below(4);
    g.note(|| format!("{} via {}", spec.brief(), ["processed", "confirmed", "finalized", "initial load"][via as usize]));
    let a = raw_account(pk, token_program(spec.program()), spec.lamports(7), spec.data(), 5, 7, codec);
    let want = TokView::want(pk, &spec, 7);
    let mut levels = vec![];
    let ok = match via {
        3 => {
            store.initilize_or_update_account(a);
            levels = vec![0, 1, 2];
            true
        }
        v => {
            let r = store.update_account(a, commitment(v as usize));
            if v == 2 {
                levels = vec![0, 1, 2];
            } else {
                levels.push(0);
            }
            r
        }
    };
    ensure!("rejected", ok, "{} was rejected", spec.brief());
    let check = |levels: &[usize]| -> R {
        for l in levels {
            let got = store.get_account(pk, commitment(*l)).ok().flatten();
            let got = got.as_ref().map(TokView::of);
            ensure!("changed", got.as_ref() == Some(&want), "{} at {} reads back as {}, sent {}", spec.brief(), cname(*l), brief_opt(&got), want.brief());
        }
        Ok(())
    };
    check(&levels)?;
    if via < 2 {
        let info = |s: u64| lite_account_manager_common::slot_info::SlotInfo {
            slot: s,
            parent: s - 1,
            root: 1,
        };
        store.process_slot_data(info(5), commitment(1));
        check(&[0, 1])?;
        store.process_slot_data(info(5), commitment(2));
        check(&[0, 1, 2])?;
    }
    let opts = match &spec {
        TokSpec::Token { delegate, native, close, .. } => delegate.is_some() as u32 + native.is_some() as u32 + close.is_some() as u32,
        TokSpec::Mint { authority, freeze, .. } => authority.is_some() as u32 + freeze.is_some() as u32,
        TokSpec::Multi { signers, .. } => signers.len() as u32,
    };
    g.nontrivial = spec.extended() || opts >= 2;
    g.class_if(spec.extended(), "extended");
    g.class(["token", "mint", "multisig"][spec.kind()]);
    Ok(())
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Valid,
    Odd,
    Invalid,
}

fn judge(program: usize, d: &[u8]) -> Verdict {
    fn acc(d: &[u8]) -> Verdict {
        match spl_token::state::Account::unpack_unchecked(d) {
            Ok(x) => {
                let mut b = vec![0; 165];
                x.pack_into_slice(&mut b);
                if b == d && (x.delegate.is_some() || x.delegated_amount == 0) {
                    Verdict::Valid
                } else {
                    Verdict::Odd
                }
            }
            Err(_) => Verdict::Invalid,
        }
    }
    fn mint(d: &[u8]) -> Verdict {
        match spl_token::state::Mint::unpack_unchecked(d) {
            Ok(x) => {
                let mut b = vec![0; 82];
                x.pack_into_slice(&mut b);
                if b == d {
                    Verdict::Valid
                } else {
                    Verdict::Odd
                }
            }
            Err(_) => Verdict::Invalid,
        }
    }
    match d.len() {
        82 => mint(d),
        165 => acc(d),
        355 => match spl_token::state::Multisig::unpack_unchecked(d) {
            Ok(x) => {
                // any key can be a signer, also the default one
                let mut b = vec![0; 355];
                x.pack_into_slice(&mut b);
                if b == d && x.n <= 11 {
                    Verdict::Valid
                } else {
                    Verdict::Odd
                }
            }
            Err(_) => Verdict::Invalid,
        },
        n if n > 165 && program == 1 => match d[165] {
            2 => acc(&d[..165]),
            1 => {
                let v = mint(&d[..82]);
                if v == Verdict::Valid && d[82..165].iter().any(|b| *b != 0) {
                    Verdict::Odd
                } else {
                    v
                }
            }
            _ => Verdict::Invalid,
        },
        _ => Verdict::Invalid,
    }
}

fn t02_arbitrary(g: &mut G) -> R {
    let store = new_store();
    let pk = key(3, 1);
    let (program, data) = if g.bool() {
        // damage a valid account
        let spec = gen_spec(g);
        let mut d = spec.data();
        let n = g.size(1, 3);
        for _ in 0..n {
            match g.below(5) {
                0 => {
                    let i = g.below(d.len().max(1) as u64) as usize;
                    if let Some(b) = d.get_mut(i) {
                        *b = g.u8();
                    }
                }
                1 => {
                    let k = g.size(0, d.len());
                    d.truncate(k);
                }
                2 => {
                    let k = g.size(1, 300);
                    d.extend(g.blob(k));
                }
                3 => {
                    // the discriminating bytes
                    let i = *g.pick(&[72usize, 108, 109, 129, 165, 0, 46, 0, 45, 2]);
                    if let Some(b) = d.get_mut(i) {
                        *b = g.below(4) as u8;
                    }
                }
                _ => {
                    let k = *g.pick(&[0usize, 1, 81, 82, 83, 164, 165, 166, 167, 354, 355, 356]);
                    d.resize(k, 0);
                }
            }
        }
        let p = if g.chance(1, 4) { 1 - spec.program() } else { spec.program() };
        (p, d)
    } else {
        let n = match g.weighted(&[3, 2, 1]) {
            0 => *g.pick(&[0usize, 1, 81, 82, 83, 164, 165, 166, 167, 170, 354, 355, 356]),
            1 => g.size(0, 400),
            _ => g.size(0, 5000),
        };
        let mut d = if g.bool() { g.blob(n) } else { vec![0; n] };
        if d.len() > 165 && g.bool() {
            d[165] = g.below(4) as u8;
        }
        (g.below(2) as usize, d)
    };
    let v = judge(program, &data);
    let codec = cheap_codec(g);
    let l = g.below(3) as usize;
    g.note(|| format!("program {program}, {} bytes, {v:?}, {}: {:?}", data.len(), cname(l), data));
    let r = store.update_account(raw_account(pk, token_program(program), 5_000_007, data.clone(), 5, 7, codec), commitment(l));
    let got: Vec<Option<AccountData>> = (0..3).map(|l| store.get_account(pk, commitment(l)).ok().flatten()).collect();
    match v {
        Verdict::Invalid => {
            ensure!("garbage_accepted", !r, "{} bytes that are no token program account were accepted", data.len());
            ensure!("garbage_readable", got.iter().all(|x| x.is_none()), "{} bytes that are no token program account became readable", data.len());
        }
        Verdict::Valid => {
            ensure!("rejected", r, "valid account of {} bytes rejected", data.len());
            let seen = got[if l == 2 { 2 } else { 0 }].as_ref().map(|a| a.account.data.data());
            ensure!("changed", seen.as_ref() == Some(&data), "valid account of {} bytes reads back with {:?} bytes or other content", data.len(), seen.map(|x| x.len()));
        }
        Verdict::Odd => {}
    }
    let size_known = matches!(data.len(), 82 | 165 | 355) || data.len() > 165 && program == 1;
    g.nontrivial = size_known && v == Verdict::Invalid || v == Verdict::Valid;
    g.class(match v {
        Verdict::Valid => "valid",
        Verdict::Odd => "non-canonical",
        Verdict::Invalid => "invalid",
    });
    Ok(())
}

// ------------------------------------------------------------------ T03

fn t03(g: &mut G) -> R {
    let table = InmemoryTokenAccountStorage::default();
    let many = g.weighted(&[80, 1]) == 1;
    let keys: Vec<Pubkey> = if many {
        (0..g.range(40, 200)).map(|i| if i % 3 < 2 { near_key(66, i) } else { key(66, i) }).collect()
    } else {
        (0..7).map(|i| if i < 6 { near_key(66, i) } else { key(66, 6) }).collect()
    };
    let mut model: BTreeMap<Pubkey, (u32, TokenAccount)> = BTreeMap::new();
    let mut used_idx: BTreeMap<u32, Pubkey> = BTreeMap::new();
    let mut amount = 0;
    let mut done = 0;
    while g.more(done, 2, if many { 400 } else { 30 }) {
        done += 1;
        let pk = *g.pick(&keys);
        if g.chance(2, 3) {
            amount += 1;
            let mut a = gen_packed(g);
            a.additional_data = a.additional_data.map(|mut x| {
                x.truncate(64);
                x
            });
            a.is_deleted = g.chance(1, 12);
            a.pubkey = pk;
            a.amount = amount;
            let (i, added) = table.save_or_update(a.clone());
            g.note(|| format!("save {} (amount {amount}{}) -> index {i}, added {added}", tag(&pk), if a.is_deleted { ", deleted" } else { "" }));
            match model.get(&pk) {
                Some((j, _)) => {
                    ensure!("index_changed", i == *j, "update of {} moved it from index {j} to {i}", tag(&pk));
                    ensure!("added_again", !added, "update of {} reported as an addition", tag(&pk));
                }
                None => {
                    ensure!("not_added", added, "addition of {} reported as an update", tag(&pk));
                    ensure!(
                        "index_shared",
                        !model.values().any(|(j, _)| *j == i),
                        "{} got index {i} of another account",
                        tag(&pk)
                    );
                    used_idx.insert(i, pk);
                }
            }
            model.insert(pk, (i, a));
        } else {
            g.note(|| format!("delete {}", tag(&pk)));
            table.delete(&pk);
            let prefix = pk.to_bytes()[..4].to_vec();
            if model.remove(&pk).is_some() && model.keys().any(|k| k.to_bytes()[..4] == prefix[..]) {
                g.nontrivial = true;
            }
        }
        for k in &keys {
            let want = model.get(k);
            let c = table.contains(k);
            ensure!("contains", c == want.map(|w| w.0), "contains({}) is {c:?}, expected {:?}", tag(k), want.map(|w| w.0));
            let got = table.get_by_pubkey(k);
            ensure!(
                "get_by_pubkey",
                got.as_ref() == want.map(|w| &w.1),
                "get_by_pubkey({}) returns {:?}, expected {:?}",
                tag(k),
                got.map(|x| (tag(&x.pubkey), x.amount)),
                want.map(|w| w.1.amount)
            );
        }
        // by index: live accounts exactly, nothing of deleted ones
        let all: HashSet<u32> = used_idx.keys().cloned().chain([1 << 20]).filter(|i| *i % 2 == (done % 2) as u32 || done % 3 == 0).collect();
        let mut got: Vec<TokenAccount> = match table.get_by_index(all.clone()) {
            Ok(v) => v.into_iter().filter(|a| !a.is_deleted).collect(),
            Err(e) => return fail("get_by_index", format!("get_by_index failed with {e:?}")),
        };
        let mut want: Vec<TokenAccount> = model.values().filter(|(i, a)| all.contains(i) && !a.is_deleted).map(|x| x.1.clone()).collect();
        got.sort();
        want.sort();
        ensure!(
            "get_by_index",
            got == want,
            "get_by_index returns amounts {:?}, expected {:?}",
            got.iter().map(|a| a.amount).collect::<Vec<_>>(),
            want.iter().map(|a| a.amount).collect::<Vec<_>>()
        );
        for p in [Program::TokenProgram, Program::Token2022Program] {
            let mut got: Vec<TokenAccount> = match table.create_snapshot(p) {
                Ok(v) => v.iter().map(|b| TokenAccount::from_bytes(b)).collect(),
                Err(e) => return fail("snapshot", format!("create_snapshot failed with {e:?}")),
            };
            let mut want: Vec<TokenAccount> = model.values().filter(|(_, a)| a.program == p && !a.is_deleted).map(|x| x.1.clone()).collect();
            got.sort();
            want.sort();
            ensure!(
                "snapshot",
                got == want,
                "snapshot of {p:?} holds amounts {:?}, expected {:?}",
                got.iter().map(|a| a.amount).collect::<Vec<_>>(),
                want.iter().map(|a| a.amount).collect::<Vec<_>>()
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ feeds

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum TCheck {
    Reads,
    Queries,
    Closing,
    Results,
    Gauges,
    None,
}

pub struct TProfile {
    pub check: TCheck,
    pub close_pct: u64,
    pub move_pct: u64,
    pub fork_pct: u64,
    pub lo: usize,
    pub hi: usize,
    /// token accounts, mints per program, multisigs
    pub sizes: (u64, u64, u64),
}

pub struct TBuilt {
    pub store: Arc<TokenProgramAccountsStorage>,
    pub slots: Slots,
    pub confirmed: usize,
    pub accs: Vec<TokAcc>,
    pub counter: u64,
    /// mint keys token accounts may refer to, per program; the last one never gets an account
    pub mints: Vec<(usize, Pubkey)>,
    /// the messages sent so far, each with the state readers must find after it
    pub log: Option<Vec<(TMsg, Views)>>,
    pub scale: Scale,
    pub owners: u64,
    /// 0 plain, 1 a long history with many slots that are not finalized, 2 many accounts
    pub shape: usize,
    /// slots may be confirmed before their ancestors are announced
    late_parents: bool,
    pub meter: Option<crate::token_gauges::Meter>,
    /// finalization dropped a state of an abandoned fork
    dropped: bool,
}

#[derive(Clone)]
pub enum TMsg {
    Update(AccountData, usize),
    Load(AccountData),
    Slot(lite_account_manager_common::slot_info::SlotInfo, usize),
}

impl TMsg {
    pub fn send(&self, store: &TokenProgramAccountsStorage) {
        match self {
            TMsg::Update(a, l) => {
                store.update_account(a.clone(), commitment(*l));
            }
            TMsg::Load(a) => store.initilize_or_update_account(a.clone()),
            TMsg::Slot(i, l) => {
                store.process_slot_data(*i, commitment(*l));
            }
        }
    }
}

/// per account, what each commitment shows
pub type Views = Vec<[Option<TokView>; 3]>;

impl TBuilt {
    pub fn new(g: &mut G, store: Arc<TokenProgramAccountsStorage>, p: &TProfile) -> TBuilt {
        TBuilt::shaped(g, store, p, 0)
    }

    pub fn shaped(g: &mut G, store: Arc<TokenProgramAccountsStorage>, p: &TProfile, shape: usize) -> TBuilt {
        g.class_if(shape == 1, "deep");
        g.class_if(shape == 2, "many_accounts");
        let (mut nt, mut nm, ns) = p.sizes;
        let mut owners = 3;
        if shape == 2 {
            nt = g.range(20, 80);
            nm += if g.bool() { g.below(4) } else { g.range(10, 70) };
            owners = g.range(1, 8);
        }
        let mut accs = vec![];
        let mut mints = vec![];
        for i in 0..nt {
            accs.push(TokAcc::new(token_key(i), 0));
        }
        for prog in 0..2 {
            for i in 0..nm {
                accs.push(TokAcc::new(mint_key(prog, i), 1));
                mints.push((prog, mint_key(prog, i)));
            }
            mints.push((prog, mint_key(prog, nm)));
        }
        for i in 0..ns {
            accs.push(TokAcc::new(multisig_key(i), 2));
        }
        g.shuffle(&mut accs);
        let scale = scale(g);
        TBuilt {
            store,
            slots: Slots::new(scale.slot),
            confirmed: 0,
            accs,
            counter: 0,
            mints,
            log: None,
            scale,
            owners,
            shape,
            late_parents: false,
            meter: None,
            dropped: false,
        }
    }

    pub fn views(&self) -> Views {
        self.accs
            .iter()
            .map(|m| [0, 1, 2].map(|l| m.view(&self.slots, self.confirmed, l)))
            .collect()
    }

    fn record(&mut self, m: impl FnOnce() -> TMsg) {
        if self.log.is_some() {
            let v = self.views();
            self.log.as_mut().unwrap().push((m(), v));
        }
    }

    pub fn mint_of(pk: &Pubkey) -> usize {
        // mints keep their program
        if (0..80).any(|i| mint_key(0, i) == *pk) {
            0
        } else {
            1
        }
    }

    pub fn gen_state(&mut self, g: &mut G, a: usize, p: &TProfile) -> TokState {
        let m = &self.accs[a];
        let prev: Option<TokSpec> = m
            .pending
            .values()
            .next_back()
            .map(|x| &x.0)
            .or(m.fin.as_ref().map(|x| &x.0))
            .and_then(|s| s.live().cloned());
        let exists = m.fin.as_ref().map_or(false, |x| x.0.live().is_some()) || m.pending.values().any(|x| x.0.live().is_some());
        if exists && g.chance(p.close_pct, 100) {
            return TokState::Closed(g.weighted(&[3, 1, 1]) as u8);
        }
        // a closed account may come back as something else
        let closed = m.closed_once && prev.is_none();
        let kind = match &prev {
            Some(s) => s.kind(),
            None if closed && g.chance(1, 3) => g.below(3) as usize,
            None => m.kind,
        };
        if kind != m.kind {
            g.class("other_kind");
        }
        let spec = match kind {
            0 => match prev {
                Some(mut s) if !g.chance(p.move_pct, 100) => {
                    if let TokSpec::Token { amount, state, .. } = &mut s {
                        *amount = self.scale.lamports + self.counter;
                        *state = 1 + g.below(2) as u8;
                    }
                    s
                }
                _ => {
                    let (prog, mint) = *g.pick(&self.mints);
                    let mut s = TokSpec::token(prog, mint, owner_key(g.below(self.owners)), g);
                    if let TokSpec::Token { amount, .. } = &mut s {
                        *amount = self.scale.lamports + self.counter;
                    }
                    s
                }
            },
            1 => {
                let prog = match (&prev, m.kind) {
                    (_, 1) => Self::mint_of(&m.pk),
                    (Some(s), _) => s.program(),
                    _ => g.below(2) as usize,
                };
                let mut s = TokSpec::mint(prog, g);
                if let TokSpec::Mint { supply, .. } = &mut s {
                    *supply = self.scale.lamports + self.counter;
                }
                s
            }
            _ => {
                let prog = prev.map(|s| s.program()).unwrap_or_else(|| g.below(2) as usize);
                TokSpec::multi(prog, g)
            }
        };
        TokState::Live(spec)
    }

    /// slots updates can be sent for
    pub fn open(&self) -> Vec<usize> {
        (0..self.slots.v.len())
            .filter(|i| self.slots.num(*i) > self.slots.fnum())
            .collect()
    }

    pub fn update(&mut self, g: &mut G, p: &TProfile, a: usize, i: usize) -> R {
        self.counter += 1;
        let slot = self.slots.num(i);
        let mut wv = match g.weighted(&[3, 1]) {
            0 => self.scale.wv + 10 + self.counter,
            _ => self.scale.wv + g.range(0, 12),
        };
        while self.accs[a].pending.contains_key(&(slot, wv)) {
            wv += 1;
        }
        let st = self.gen_state(g, a, p);
        let pk = self.accs[a].pk;
        g.note(|| format!("update {} slot {slot} wv {wv} {}", tag(&pk), st.brief()));
        let newest_in_slot = !self.accs[a].pending.range((slot, wv)..(slot + 1, 0)).any(|_| true);
        let codec = cheap_codec(g);
        let account = st.account(pk, slot, wv, codec);
        let r = self.store.update_account(account.clone(), commitment(0));
        if newest_in_slot {
            ensure!("update_refused", r, "update of {} in slot {slot} ({}) was refused", tag(&pk), st.brief());
        } else {
            ensure!("superseded_result", !r, "update of {} in slot {slot} ({}) was reported as applied, a newer state of the slot is there", tag(&pk), st.brief());
        }
        if let TokState::Closed(_) = st {
            self.accs[a].closed_once = true;
        } else if p.move_pct > 0 {
            if let (TokState::Live(TokSpec::Token { owner, mint, .. }), Some((TokState::Live(TokSpec::Token { owner: o2, mint: m2, .. }), _, _))) =
                (&st, &self.accs[a].fin)
            {
                if owner != o2 || mint != m2 {
                    self.accs[a].moved = true;
                }
            }
        }
        self.accs[a].pending.insert((slot, wv), (st, i));
        self.record(|| TMsg::Update(account, 0));
        Ok(())
    }

    /// a finalized update or an initial load
    fn load(&mut self, g: &mut G, p: &TProfile, a: usize) -> R {
        if !self.accs[a].pending.is_empty() {
            return Ok(());
        }
        self.counter += 1;
        let wv = self.scale.wv + 10 + self.counter;
        let slot = self.slots.fnum();
        let init = g.bool();
        let mut st = self.gen_state(g, a, p);
        if init && st.live().is_none() {
            // initial loads never carry closed accounts
            let quiet = TProfile { close_pct: 0, ..*p };
            st = self.gen_state(g, a, &quiet);
        }
        let pk = self.accs[a].pk;
        g.note(|| format!("{} {} slot {slot} {}", if init { "load" } else { "update finalized" }, tag(&pk), st.brief()));
        let acc = st.account(pk, slot, wv, cheap_codec(g));
        let sent = acc.clone();
        if init {
            self.store.initilize_or_update_account(acc);
        } else {
            let r = self.store.update_account(acc, commitment(2));
            ensure!("update_refused", r, "finalized update of {} was refused", tag(&pk));
        }
        if st.live().is_none() {
            self.accs[a].closed_once = true;
        }
        self.accs[a].fin = Some((st, slot, wv));
        self.record(|| if init { TMsg::Load(sent) } else { TMsg::Update(sent, 2) });
        Ok(())
    }

    pub fn can_notify(&self, i: usize, level: usize) -> bool {
        let n = &self.slots.v[i];
        let early = self.late_parents
            && level == 1
            && n.parent.is_some()
            && n.num > self.slots.fnum()
            && self.slots.is_descendant(i, self.slots.f);
        (early || self.slots.can_notify(i, level))
            && (level == 0 || self.slots.is_descendant(i, self.confirmed) || self.slots.is_descendant(self.confirmed, i))
    }

    pub fn notify(&mut self, g: &mut G, i: usize, level: usize) -> Vec<AccountData> {
        let info = self.slots.info(i);
        g.note(|| format!("notify slot {} (parent {}) {}", info.slot, info.parent, cname(level)));
        let r = self.store.process_slot_data(info, commitment(level));
        self.note_slot(i, level);
        self.record(|| TMsg::Slot(info, level));
        r
    }

    pub fn note_slot(&mut self, i: usize, level: usize) {
        let fresh = level == 2 && self.slots.num(i) > self.slots.fnum();
        self.dropped |= fresh
            && self.accs.iter().any(|m| {
                m.pending.values().any(|(_, j)| self.slots.num(*j) <= self.slots.num(i) && !self.slots.is_descendant(i, *j))
            });
        self.slots.notify(i, level);
        if level == 1 && self.slots.num(i) > self.slots.num(self.confirmed) {
            self.confirmed = i;
        }
        if fresh {
            for a in self.accs.iter_mut() {
                a.finalize(&self.slots);
            }
        }
    }

    fn check_reads(&self, g: &mut G) -> R {
        for m in &self.accs {
            for l in 0..3 {
                let got = match self.store.get_account(m.pk, commitment(l)) {
                    Ok(x) => x,
                    Err(e) => return fail("read_error", format!("get_account failed with {e:?}")),
                };
                let view = got.as_ref().map(TokView::of);
                let want = m.view(&self.slots, self.confirmed, l);
                ensure!(
                    format!("read_{}", cname(l)),
                    view == want,
                    "{} at {}: storage returns {}, expected {}",
                    tag(&m.pk),
                    cname(l),
                    brief_opt(&view),
                    brief_opt(&want)
                );
                if let (Some(a), Some((_, slot, _))) = (&got, m.at(&self.slots, self.confirmed, l)) {
                    if slot > self.slots.fnum() {
                        ensure!("read_slot", a.updated_slot == slot, "{} at {} is reported for slot {}, it was updated in {slot}", tag(&m.pk), cname(l), a.updated_slot);
                    }
                }
            }
        }
        // keys nobody has
        for k in [token_key(2000), mint_key(0, 2000), key(5, 5)] {
            for l in 0..3 {
                ensure!("phantom", matches!(self.store.get_account(k, commitment(l)), Ok(None)), "an unknown key is readable");
            }
        }
        // mints that are referred to, but have no account
        for (_, k) in &self.mints {
            if !self.accs.iter().any(|a| a.pk == *k) {
                for l in 0..3 {
                    ensure!("phantom_mint", matches!(self.store.get_account(*k, commitment(l)), Ok(None)), "a mint without account is readable");
                }
            }
        }
        let _ = g;
        Ok(())
    }

    pub fn gen_query(&self, g: &mut G) -> (Pubkey, Option<Vec<AccountFilterType>>, Vec<Cond>, bool) {
        let p = g.below(2) as usize;
        let mut conds = vec![];
        let shape = g.weighted(&[3, 3, 3, 2, 3]);
        let owner = if g.chance(1, 12) { owner_key(9) } else { owner_key(g.below(self.owners)) };
        let mint = match g.weighted(&[6, 2, 1]) {
            0 => {
                let mine: Vec<Pubkey> = self.mints.iter().filter(|m| m.0 == p).map(|m| m.1).collect();
                *g.pick(&mine)
            }
            1 => g.pick(&self.mints).1,
            _ => mint_key(p, 9),
        };
        let mut supported = true;
        if shape < 3 {
            if p == 1 && g.bool() {
                conds.push(Cond::Mem(165, vec![2]));
                if g.chance(1, 4) {
                    conds.push(Cond::Size(165));
                }
            } else {
                conds.push(Cond::Size(165));
            }
            if shape != 1 {
                conds.push(Cond::Mem(32, owner.to_bytes().to_vec()));
            }
            if shape != 0 {
                conds.push(Cond::Mem(0, mint.to_bytes().to_vec()));
            }
            if g.chance(1, 4) {
                // one more condition: state or an amount byte
                conds.push(if g.bool() { Cond::Mem(108, vec![g.range(0, 2) as u8]) } else { Cond::Mem(64, vec![g.below(30) as u8]) });
            }
        } else if shape == 3 {
            conds.push(Cond::Size(82));
            if g.chance(1, 3) {
                conds.push(Cond::Mem(45, vec![g.below(2) as u8]));
            }
        } else {
            supported = false;
            match g.below(6) {
                0 => return (if g.bool() { key(5, 6) } else { token_program(p) }, None, vec![], false),
                1 => {}
                2 => conds.push(Cond::Size(*g.pick(&[165, 355, 100, 0]))),
                3 => conds.push(Cond::Mem(32, owner.to_bytes().to_vec())),
                4 => {
                    let n = g.size(0, 40);
                    conds.push(Cond::Size(165));
                    conds.push(Cond::Mem(*g.pick(&[0, 32]), g.blob(n)));
                }
                _ => {
                    conds.push(Cond::Size(165));
                    conds.push(Cond::Mem(32, owner.to_bytes().to_vec()));
                    conds.push(small_cond(g));
                }
            }
        }
        g.shuffle(&mut conds);
        let program = if g.chance(1, 12) {
            supported = false;
            key(5, 7)
        } else {
            token_program(p)
        };
        let filters = if !supported && g.chance(1, 3) {
            spell_all(g, &conds)
        } else {
            conds
                .iter()
                .map(|c| match c {
                    Cond::Size(n) => AccountFilterType::Datasize(*n),
                    Cond::Mem(o, b) => AccountFilterType::Memcmp(MemcmpFilter {
                        offset: *o,
                        data: MemcmpFilterData::Bytes(b.clone()),
                    }),
                })
                .collect()
        };
        (program, Some(filters), conds, supported)
    }

    fn check_query(&self, g: &mut G) -> R {
        let (program, filters, conds, supported) = self.gen_query(g);
        for l in 0..3 {
            let got = self.store.get_program_accounts(program, filters.clone(), commitment(l));
            let got = got.map(|v| v.iter().map(TokView::of).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"));
            self.judge_query(g, program, &conds, supported, l, got)?;
        }
        Ok(())
    }

    /// the answer of a query against the accounts visible at its commitment
    pub fn judge_query(&self, g: &mut G, program: Pubkey, conds: &[Cond], supported: bool, l: usize, got: Result<Vec<TokView>, String>) -> R {
        let q = |l: usize| {
            format!(
                "query {} {:?} at {}",
                if program == spl_token::id() {
                    "token"
                } else if program == spl_token_2022::id() {
                    "token22"
                } else {
                    "other program"
                },
                conds
                    .iter()
                    .map(|c| match c {
                        Cond::Size(n) => format!("size {n}"),
                        Cond::Mem(o, b) if b.len() == 32 => format!("{o}: {}..{}", hexs(&b[..2]), hexs(&b[29..])),
                        Cond::Mem(o, b) => format!("{o}: {}", hexs(b)),
                    })
                    .collect::<Vec<_>>(),
                cname(l)
            )
        };
        let matching = |l: usize| -> BTreeMap<Pubkey, TokView> {
            self.accs
                .iter()
                .filter_map(|m| m.view(&self.slots, self.confirmed, l))
                .filter(|v| v.program == program && conds.iter().all(|c| c.holds(&v.data)))
                .map(|v| (v.pk, v))
                .collect()
        };
        let fin = matching(2);
        let here = matching(l);
        let got = match got {
            Ok(v) => v,
            Err(e) => {
                ensure!("query_error", !supported, "{} failed with {e}", q(l));
                return Ok(());
            }
        };
        let mut seen = BTreeSet::new();
        for v in &got {
            ensure!("query_twice", seen.insert(v.pk), "{} returned {} twice", q(l), tag(&v.pk));
            match here.get(&v.pk) {
                None => return fail("query_extra", format!("{} returned {}, which does not match it at this commitment", q(l), v.brief())),
                Some(w) => ensure!("query_state", w == v, "{} returned {}, reads give {}", q(l), v.brief(), w.brief()),
            }
        }
        if supported {
            for (k, w) in &fin {
                if here.contains_key(k) {
                    ensure!("query_missing", seen.contains(k), "{} lacks {}", q(l), w.brief());
                }
            }
        }
        if !got.is_empty() {
            g.class("query_nonempty");
            if self.accs.iter().any(|a| a.moved && a.kind == 0) {
                g.class("after_move");
                g.nontrivial = true;
            }
        }
        Ok(())
    }

    /// closed accounts must be absent from snapshots, all others present
    fn check_snapshot(&self) -> R {
        for p in 0..2 {
            let b = match self.store.create_snapshot(token_program(p)) {
                Ok(b) => b,
                Err(e) => return fail("snapshot_error", format!("create_snapshot failed with {e:?}")),
            };
            let other = new_store();
            if let Err(e) = other.load_from_snapshot(token_program(p), b) {
                return fail("snapshot_load", format!("own snapshot does not load: {e:?}"));
            }
            for m in &self.accs {
                let want = m.view(&self.slots, self.confirmed, 2).filter(|v| v.program == token_program(p));
                let got = other.get_account(m.pk, commitment(2)).ok().flatten().as_ref().map(TokView::of);
                ensure!(
                    if want.is_none() { "snapshot_extra" } else { "snapshot_state" },
                    got == want,
                    "snapshot of program {p} holds {} as {}, expected {}",
                    tag(&m.pk),
                    brief_opt(&got),
                    brief_opt(&want)
                );
            }
        }
        Ok(())
    }

    fn check_results(&self, g: &mut G, got: &[AccountData], before: &[TokAcc], old_f: u64, i: usize, level: usize) -> R {
        let slot = self.slots.num(i);
        let mut seen = BTreeSet::new();
        for a in got {
            ensure!("result_twice", seen.insert(a.pubkey), "notification of slot {slot} {} reported {} twice", cname(level), tag(&a.pubkey));
        }
        let mut want: BTreeMap<Pubkey, (TokView, u64)> = BTreeMap::new();
        match level {
            0 => {}
            1 => {
                // the accounts written in this slot
                for m in before {
                    if slot > old_f {
                        if let Some((s, st, w)) = m.pending.iter().rev().find(|(_, (_, j))| *j == i).map(|((s, w), (st, _))| (*s, st, *w)) {
                            if let Some(x) = st.live() {
                                want.insert(m.pk, (TokView::want(m.pk, x, w), s));
                            }
                        }
                    }
                }
            }
            _ => {
                // the newest state of every account that became final
                for (m, b) in self.accs.iter().zip(before) {
                    let newly = m.fin.as_ref().map(|f| (f.1, f.2)) != b.fin.as_ref().map(|f| (f.1, f.2));
                    if let (true, Some((st, s, w))) = (newly, &m.fin) {
                        if let Some(x) = st.live() {
                            want.insert(m.pk, (TokView::want(m.pk, x, *w), *s));
                            if *s < slot {
                                g.nontrivial = true;
                            }
                        }
                    }
                }
            }
        }
        for a in got {
            let v = TokView::of(a);
            match want.get(&a.pubkey) {
                None => return fail("result_extra", format!("notification of slot {slot} {} reported {}, which did not change", cname(level), v.brief())),
                Some((w, s)) => ensure!(
                    "result_state",
                    *w == v && a.updated_slot == *s,
                    "notification of slot {slot} {} reported {} of slot {}, expected {} of slot {s}",
                    cname(level),
                    v.brief(),
                    a.updated_slot,
                    w.brief()
                ),
            }
        }
        for (k, (w, _)) in &want {
            ensure!("result_missing", seen.contains(k), "notification of slot {slot} {} lacks {}", cname(level), w.brief());
        }
        Ok(())
    }

    pub fn run(&mut self, g: &mut G, p: &TProfile) -> R {
        let mut done = 0;
        let mut ancestor_final = false;
        let mut unknown_mint = false;
        let hi = p.hi * [1, 8, 6][self.shape];
        let steps = if self.shape == 1 { [16, 6, 4, 0, 1] } else { [3, 8, 5, 2, 1] };
        // deep histories pile up slots, so that a notification has a long way to the finalized slot
        let levels = if self.shape == 1 { [12, 1, 1] } else { [2, 3, 3] };
        while g.more(done, p.lo, hi) {
            done += 1;
            match g.weighted(&steps) {
                0 => {
                    let i = self.slots.grow(g, p.fork_pct);
                    if g.chance(2, 3) || (self.shape == 1 && !g.chance(1, 50)) {
                        self.notify(g, i, 0);
                    }
                }
                1 => {
                    let open = self.open();
                    let i = if open.is_empty() { self.slots.grow(g, p.fork_pct) } else { *g.pick(&open) };
                    let a = g.below(self.accs.len() as u64) as usize;
                    self.update(g, p, a, i)?;
                    if g.chance(1, 12) && self.can_notify(i, 1) {
                        self.notify(g, i, 1);
                    }
                }
                2 => {
                    // notifications, mostly of open slots, sometimes repeated or late ones
                    let n = self.slots.v.len();
                    let cands: Vec<usize> = (1..n).filter(|i| self.slots.num(*i) > self.slots.fnum() || g_late(n, *i)).collect();
                    if cands.is_empty() {
                        continue;
                    }
                    let i = if self.shape == 1 && g.chance(3, 4) { *cands.last().unwrap() } else { *g.pick(&cands) };
                    let l = g.weighted(&levels);
                    if !self.can_notify(i, l) {
                        continue;
                    }
                    let before = self.accs.clone();
                    let old_f = self.slots.fnum();
                    let got = self.notify(g, i, l);
                    if l == 2 && before.iter().any(|m| m.pending.values().any(|(_, j)| *j != i && self.slots.is_descendant(i, *j))) {
                        ancestor_final = true;
                    }
                    if p.check == TCheck::Results {
                        self.check_results(g, &got, &before, old_f, i, l)?;
                    }
                }
                3 => {
                    // a chain step: grow, notify, confirm or finalize its tip
                    let i = self.slots.grow(g, p.fork_pct / 2);
                    let a = g.below(self.accs.len() as u64) as usize;
                    self.update(g, p, a, i)?;
                    self.notify(g, i, 0);
                    let l = g.size(1, 2);
                    if self.can_notify(i, l) {
                        let before = self.accs.clone();
                        let old_f = self.slots.fnum();
                        let got = self.notify(g, i, l);
                        if p.check == TCheck::Results {
                            self.check_results(g, &got, &before, old_f, i, l)?;
                        }
                    }
                }
                _ => {
                    let a = g.below(self.accs.len() as u64) as usize;
                    self.load(g, p, a)?;
                }
            }
            if p.check == TCheck::Reads && !unknown_mint {
                for m in self.accs.iter().filter(|m| m.kind == 0) {
                    if let Some((TokState::Live(TokSpec::Token { mint, .. }), _, _)) = m.at(&self.slots, self.confirmed, 0) {
                        if !self.accs.iter().any(|x| x.pk == *mint && (!x.pending.is_empty() || x.fin.is_some())) {
                            unknown_mint = true;
                        }
                    }
                }
            }
            match p.check {
                TCheck::Reads => self.check_reads(g)?,
                TCheck::Queries => self.check_query(g)?,
                TCheck::Closing => {
                    self.check_reads(g)?;
                    if g.chance(1, 3) {
                        self.check_query(g)?;
                    }
                    if g.chance(1, 8) {
                        self.check_snapshot()?;
                    }
                }
                TCheck::Gauges => {
                    if let Some(m) = &self.meter {
                        m.check(self)?;
                    }
                }
                _ => {}
            }
        }
        match p.check {
            TCheck::Gauges => {
                g.nontrivial = self.dropped && self.accs.iter().any(|a| a.closed_once);
                g.class_if(self.dropped, "abandoned");
            }
            TCheck::Reads => {
                g.nontrivial = ancestor_final && unknown_mint;
                g.class_if(ancestor_final, "ancestor_finalized");
                g.class_if(unknown_mint, "unknown_mint");
            }
            TCheck::Closing => {
                let closed = self.accs.iter().filter(|a| a.closed_once).count();
                let alive = self.accs.iter().any(|a| a.closed_once && a.view(&self.slots, self.confirmed, 0).is_some());
                let neighbour = self.accs.iter().any(|a| !a.closed_once && a.view(&self.slots, self.confirmed, 2).is_some());
                g.nontrivial = closed > 0 && (alive || neighbour);
                g.class_if(alive, "re-created");
                for k in 0..3 {
                    if self.accs.iter().any(|a| a.kind == k && a.closed_once && matches!(&a.fin, Some((TokState::Closed(_), _, _)))) {
                        g.class(["closed_token_final", "closed_mint_final", "closed_multisig_final"][k]);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// old slots are offered for late notifications too, but not all of them
fn g_late(n: usize, i: usize) -> bool {
    i + 4 > n
}

pub fn quiet_profile(check: TCheck) -> TProfile {
    TProfile {
        check,
        close_pct: 12,
        move_pct: 25,
        fork_pct: 25,
        lo: 8,
        hi: 45,
        sizes: (4, 1, 1),
    }
}

fn t04(g: &mut G) -> R {
    let p = TProfile {
        fork_pct: 35,
        ..quiet_profile(TCheck::Reads)
    };
    let shape = g.weighted(&[60, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    b.late_parents = g.chance(1, 6);
    g.class_if(b.late_parents, "late_parents");
    b.run(g, &p)
}
fn t05(g: &mut G) -> R {
    let p = TProfile {
        fork_pct: 15,
        move_pct: 50,
        sizes: (5, 2, 1),
        ..quiet_profile(TCheck::Queries)
    };
    let shape = g.weighted(&[60, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    b.late_parents = g.chance(1, 6);
    g.class_if(b.late_parents, "late_parents");
    b.run(g, &p)
}
fn t06(g: &mut G) -> R {
    let p = TProfile {
        close_pct: 40,
        sizes: (4, 1, 2),
        ..quiet_profile(TCheck::Closing)
    };
    let shape = g.weighted(&[60, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    b.late_parents = g.chance(1, 6);
    g.class_if(b.late_parents, "late_parents");
    b.run(g, &p)
}
fn t09(g: &mut G) -> R {
    let p = quiet_profile(TCheck::Results);
    let shape = g.weighted(&[60, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    b.late_parents = g.chance(1, 6);
    g.class_if(b.late_parents, "late_parents");
    b.run(g, &p)
}

// ------------------------------------------------------------------ T07

fn filled(g: &mut G, hi: usize, what: &str) -> Result<TBuilt, pbt::Fail> {
    let p = TProfile {
        hi,
        lo: 4,
        sizes: (5, 2, 2),
        ..quiet_profile(TCheck::None)
    };
    g.note(|| format!("-- {what}"));
    let shape = g.weighted(&[80, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    b.run(g, &p)?;
    Ok(b)
}

pub fn finalized(b: &TBuilt) -> BTreeMap<Pubkey, TokView> {
    b.accs.iter().filter_map(|m| m.view(&b.slots, b.confirmed, 2)).map(|v| (v.pk, v)).collect()
}

/// every account of `want` is readable at finalized and found by owner, mint and all-mints queries; no other is
pub fn check_content(store: &TokenProgramAccountsStorage, want: &BTreeMap<Pubkey, TokView>, absent: &[Pubkey], what: &str) -> R {
    for (k, v) in want {
        let got = store.get_account(*k, commitment(2)).ok().flatten().as_ref().map(TokView::of);
        ensure!("content", got.as_ref() == Some(v), "{what}: {} reads as {}, expected {}", tag(k), brief_opt(&got), v.brief());
    }
    for k in absent {
        if !want.contains_key(k) {
            let got = store.get_account(*k, commitment(2)).ok().flatten().as_ref().map(TokView::of);
            ensure!("content_extra", got.is_none(), "{what}: {} reads as {}, expected none", tag(k), brief_opt(&got));
        }
    }
    let mem = |o: u64, b: &[u8]| {
        AccountFilterType::Memcmp(MemcmpFilter {
            offset: o,
            data: MemcmpFilterData::Bytes(b.to_vec()),
        })
    };
    let mut queries: BTreeSet<(Pubkey, u64, Vec<u8>, bool)> = BTreeSet::new();
    for v in want.values() {
        if v.lamports.is_none() {
            let ext = v.data.len() > 165;
            queries.insert((v.program, 0, v.data[..32].to_vec(), ext));
            queries.insert((v.program, 32, v.data[32..64].to_vec(), ext));
        }
    }
    for (program, off, pat, ext) in queries {
        let f = vec![if ext { mem(165, &[2]) } else { AccountFilterType::Datasize(165) }, mem(off, &pat)];
        let got: BTreeMap<Pubkey, TokView> = match store.get_program_accounts(program, Some(f), commitment(2)) {
            Ok(v) => v.iter().map(|a| (a.pubkey, TokView::of(a))).collect(),
            Err(e) => return fail("content_query", format!("{what}: query failed with {e:?}")),
        };
        let exp: BTreeMap<Pubkey, TokView> = want
            .iter()
            .filter(|(_, v)| {
                v.program == program
                    && v.lamports.is_none()
                    && (v.data.len() > 165) == ext
                    && v.data[off as usize..off as usize + 32] == pat[..]
            })
            .map(|(k, v)| (*k, v.clone()))
            .collect();
        ensure!(
            "content_query",
            got == exp,
            "{what}: query by {} {}..{} returns {:?}, expected {:?}",
            if off == 0 { "mint" } else { "owner" },
            hexs(&pat[..2]),
            hexs(&pat[29..]),
            got.values().map(|v| v.brief()).collect::<Vec<_>>(),
            exp.values().map(|v| v.brief()).collect::<Vec<_>>()
        );
    }
    for p in 0..2 {
        let program = token_program(p);
        let got: BTreeMap<Pubkey, TokView> = match store.get_program_accounts(program, Some(vec![AccountFilterType::Datasize(82)]), commitment(2)) {
            Ok(v) => v.iter().map(|a| (a.pubkey, TokView::of(a))).collect(),
            Err(e) => return fail("content_mints", format!("{what}: mint query failed with {e:?}")),
        };
        let exp: BTreeMap<Pubkey, TokView> = want.iter().filter(|(_, v)| v.program == program && v.data.len() == 82).map(|(k, v)| (*k, v.clone())).collect();
        ensure!("content_mints", got == exp, "{what}: mint query returns {} mints, expected {}", got.len(), exp.len());
    }
    Ok(())
}

pub fn take_snapshot(b: &TBuilt, p: usize) -> Result<Vec<u8>, pbt::Fail> {
    b.store.create_snapshot(token_program(p)).or_else(|e| fail("snapshot_error", format!("create_snapshot failed with {e:?}")))
}

fn t07_roundtrip(g: &mut G) -> R {
    let src = filled(g, 30, "source")?;
    let all = finalized(&src);
    let keys: Vec<Pubkey> = src.accs.iter().map(|a| a.pk).collect();
    let dst = new_store();
    let mut want = BTreeMap::new();
    let order: Vec<usize> = match g.below(4) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![0, 1],
        _ => vec![1, 0, 1],
    };
    g.note(|| format!("load snapshots of programs {order:?} into an empty storage"));
    for p in order {
        let b = take_snapshot(&src, p)?;
        if let Err(e) = dst.load_from_snapshot(token_program(p), b) {
            return fail("load_error", format!("own snapshot does not load: {e:?}"));
        }
        want.extend(all.iter().filter(|(_, v)| v.program == token_program(p)).map(|(k, v)| (*k, v.clone())));
        check_content(&dst, &want, &keys, "loaded storage")?;
    }
    check_content(&src.store, &all, &keys, "source storage")?;
    // the loaded storage works on: a second generation snapshot, and updates
    if g.bool() {
        let p = g.below(2) as usize;
        let second = new_store();
        let b = match dst.create_snapshot(token_program(p)) {
            Ok(b) => b,
            Err(e) => return fail("snapshot_error", format!("{e:?}")),
        };
        if let Err(e) = second.load_from_snapshot(token_program(p), b) {
            return fail("load_error", format!("second snapshot does not load: {e:?}"));
        }
        let exp: BTreeMap<Pubkey, TokView> = want.iter().filter(|(_, v)| v.program == token_program(p)).map(|(k, v)| (*k, v.clone())).collect();
        check_content(&second, &exp, &keys, "second generation")?;
    }
    let n = g.size(0, 3);
    for i in 0..n {
        let p = TProfile { ..quiet_profile(TCheck::None) };
        let _ = p;
        let a = g.below(src.accs.len() as u64) as usize;
        let pk = src.accs[a].pk;
        let st = match src.accs[a].kind {
            0 => {
                let (prog, mint) = *g.pick(&src.mints);
                TokSpec::token(prog, mint, owner_key(g.below(3)), g)
            }
            1 => TokSpec::mint(TBuilt::mint_of(&pk), g),
            _ => TokSpec::multi(g.below(2) as usize, g),
        };
        g.note(|| format!("then update finalized {} {}", tag(&pk), st.brief()));
        let wv = 9000 + i as u64;
        let ok = dst.update_account(TokState::Live(st.clone()).account(pk, 900, wv, CompressionMethod::None), commitment(2));
        ensure!("update_refused", ok, "finalized update after loading was refused");
        want.insert(pk, TokView::want(pk, &st, wv));
    }
    check_content(&dst, &want, &keys, "loaded storage after updates")?;
    g.nontrivial = want.values().any(|v| v.lamports.is_none());
    g.class_if(want.values().any(|v| v.data.len() == 355), "multisig");
    Ok(())
}

fn t07_merge(g: &mut G) -> R {
    let src = filled(g, 25, "source")?;
    let dst = filled(g, 25, "target")?;
    let all = finalized(&src);
    let p = g.below(2) as usize;
    let b = take_snapshot(&src, p)?;
    g.note(|| format!("load the source's snapshot of program {p} into the target"));
    let old = finalized(&dst);
    if let Err(e) = dst.store.load_from_snapshot(token_program(p), b) {
        return fail("load_error", format!("own snapshot does not load: {e:?}"));
    }
    let mut want = old.clone();
    want.extend(all.iter().filter(|(_, v)| v.program == token_program(p)).map(|(k, v)| (*k, v.clone())));
    let keys: Vec<Pubkey> = src.accs.iter().map(|a| a.pk).collect();
    check_content(&dst.store, &want, &keys, "target after loading")?;
    // unfinalized states of the target are untouched
    for m in &dst.accs {
        for l in 0..2 {
            if let Some((_, slot, _)) = m.at(&dst.slots, dst.confirmed, l) {
                if slot > dst.slots.fnum() {
                    let got = dst.store.get_account(m.pk, commitment(l)).ok().flatten().as_ref().map(TokView::of);
                    let exp = m.view(&dst.slots, dst.confirmed, l);
                    ensure!("merge_pending", got == exp, "{} at {} reads as {} after loading, expected {}", tag(&m.pk), cname(l), brief_opt(&got), brief_opt(&exp));
                }
            }
        }
    }
    g.nontrivial = all.values().any(|v| v.program == token_program(p) && v.lamports.is_none()) && old.values().any(|v| v.lamports.is_none());
    g.class_if(all.keys().any(|k| old.contains_key(k)), "overlap");
    Ok(())
}

fn t07_corrupt(g: &mut G) -> R {
    let src = filled(g, 14, "source")?;
    let all = finalized(&src);
    let p = g.below(2) as usize;
    let good = take_snapshot(&src, p)?;
    let how = g.weighted(&[2, 4, 1, 1]);
    let mut bytes = good.clone();
    let mut exact = false;
    match how {
        0 => crate::store_props::damage(g, &mut bytes),
        1 => {
            // below the compression
            let mut raw = lz4::block::decompress(&good, None).unwrap_or_default();
            crate::store_props::damage(g, &mut raw);
            bytes = lz4::block::compress(&raw, None, true).unwrap_or_default();
        }
        2 => {
            let n = g.size(0, 200);
            bytes = g.blob(n);
        }
        _ => {
            // something else in the right wrapping
            let n = g.size(0, 60);
            let raw = g.blob(n);
            bytes = lz4::block::compress(&raw, None, true).unwrap_or_default();
        }
    }
    if bytes == good {
        exact = true;
    }
    // keep absurd length prefixes of the compression away from the allocator
    if bytes.len() >= 4 {
        let n = i32::from_le_bytes(bytes[..4].try_into().unwrap());
        if n > 1 << 26 {
            return Ok(());
        }
    }
    let dst = filled(g, 8, "target")?;
    let old = finalized(&dst);
    let keys: Vec<Pubkey> = src.accs.iter().map(|a| a.pk).collect();
    g.note(|| format!("load {} damaged bytes (kind {how}) of program {p}", bytes.len()));
    let r = dst.store.load_from_snapshot(token_program(p), bytes);
    g.class(if r.is_ok() { "accepted" } else { "refused" });
    if exact {
        ensure!("load_error", r.is_ok(), "undamaged snapshot refused");
    }
    if r.is_err() {
        check_content(&dst.store, &old, &keys, "target after a refused load")?;
    } else {
        // whatever was accepted must be readable without panicking
        for k in &keys {
            for l in 0..3 {
                let _ = dst.store.get_account(*k, commitment(l));
            }
        }
        for q in 0..2 {
            for o in 0..3 {
                let f = vec![
                    AccountFilterType::Datasize(165),
                    AccountFilterType::Memcmp(MemcmpFilter {
                        offset: 32,
                        data: MemcmpFilterData::Bytes(owner_key(o).to_bytes().to_vec()),
                    }),
                ];
                let _ = dst.store.get_program_accounts(token_program(q), Some(f), commitment(0));
            }
            let _ = dst.store.get_program_accounts(token_program(q), Some(vec![AccountFilterType::Datasize(82)]), commitment(0));
            let _ = dst.store.create_snapshot(token_program(q));
        }
    }
    g.nontrivial = all.values().any(|v| v.program == token_program(p) && v.lamports.is_none());
    Ok(())
}
