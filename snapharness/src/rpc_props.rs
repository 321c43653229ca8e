//! A03: the RPC server over a storage with known content
use base64::Engine;
use lam_harness::gens::*;
use lite_account_manager_common::account_data::{Account, AccountData};
use lite_account_manager_common::account_filter::{AccountFilterType, MemcmpFilterData};
use lite_account_manager_common::account_store_interface::{AccountLoadingError, AccountStorageInterface};
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::slot_info::SlotInfo;
use pbt::{ensure, fail, no_panic, Fail, Prop, Sub, G, R};
use serde_json::{json, Value};
use simlib::rpc_server::{RpcServerImpl, TestRpcServer};
use solana_rpc_client_api::filter::{Memcmp, MemcmpEncodedBytes, RpcFilterType};
use solana_sdk::account::Account as SolanaAccount;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A03",
        subs: vec![
            Sub::new("account", 100000, 1000000, a03_account),
            Sub::new("program", 60000, 600000, a03_program),
            Sub::new("snapshot", 24000, 240000, a03_snapshot),
        ],
        rule: "a storage with generated accounts (any codec, lamports, slots) or errors per commitment; calls with any key text, encodings, data slices, commitments (also their old names), filters in every encoding, minContextSlot, context; answers compared field by field with the accounts put into the storage; non-trivial = the answer shows an account (account) / a filtered list with at least one account left out and one shown (program) / a snapshot of at least one byte (snapshot)",
        assumptions: &["jsonrpsee is a stand-in that decodes positional JSON parameters and encodes results with serde_json"],
    }]
}

/// storage whose content at every commitment is fixed
#[derive(Default)]
struct Fixed {
    accounts: BTreeMap<(Pubkey, u8), AccountData>,
    fails: Option<AccountLoadingError>,
    snapshot: Vec<u8>,
    calls: Mutex<Vec<String>>,
}

/// meaning of a filter, written independently
fn means(f: &AccountFilterType, data: &[u8]) -> bool {
    match f {
        AccountFilterType::Datasize(n) => Cond::Size(*n).holds(data),
        AccountFilterType::Memcmp(m) => {
            let pat = match &m.data {
                MemcmpFilterData::Bytes(b) => Some(b.clone()),
                MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().ok(),
                MemcmpFilterData::Base64(s) => base64::engine::general_purpose::STANDARD.decode(s).ok(),
            };
            pat.map(|p| Cond::Mem(m.offset, p).holds(data)).unwrap_or(false)
        }
    }
}

impl AccountStorageInterface for Fixed {
    fn update_account(&self, _: AccountData, _: Commitment) -> bool {
        self.calls.lock().unwrap().push("update".into());
        false
    }
    fn initilize_or_update_account(&self, _: AccountData) {
        self.calls.lock().unwrap().push("update".into());
    }
    fn get_account(&self, pk: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> {
        self.calls.lock().unwrap().push(format!("account {pk} {c}"));
        match self.fails {
            Some(e) => Err(e),
            None => Ok(self.accounts.get(&(pk, c as u8)).cloned()),
        }
    }
    fn get_program_accounts(
        &self,
        program: Pubkey,
        filters: Option<Vec<AccountFilterType>>,
        c: Commitment,
    ) -> Result<Vec<AccountData>, AccountLoadingError> {
        self.calls.lock().unwrap().push(format!("program {program} {c}"));
        if let Some(e) = self.fails {
            return Err(e);
        }
        let filters = filters.unwrap_or_default();
        let mut v = vec![];
        for ((_, l), a) in &self.accounts {
            if *l == c as u8 && a.account.owner == program {
                let data = a.account.data.data();
                if filters.iter().all(|f| means(f, &data)) {
                    v.push(a.clone());
                }
            }
        }
        Ok(v)
    }
    fn process_slot_data(&self, _: SlotInfo, _: Commitment) -> Vec<AccountData> {
        self.calls.lock().unwrap().push("slot".into());
        vec![]
    }
    fn create_snapshot(&self, program: Pubkey) -> Result<Vec<u8>, AccountLoadingError> {
        self.calls.lock().unwrap().push(format!("snapshot {program}"));
        match self.fails {
            Some(e) => Err(e),
            None => Ok(self.snapshot.clone()),
        }
    }
    fn load_from_snapshot(&self, _: Pubkey, _: Vec<u8>) -> Result<(), AccountLoadingError> {
        self.calls.lock().unwrap().push("load".into());
        Ok(())
    }
}

/// what an account looks like for a client, without encoding
#[derive(Clone)]
struct Plain {
    pk: Pubkey,
    acc: SolanaAccount,
    slot: u64,
}

fn gen_plain(g: &mut G, pk: Pubkey, owner: Pubkey, max: usize) -> (Plain, AccountData) {
    let data = if max == 0 || g.chance(1, 3) { small_data(g) } else { payload(g, max) };
    let acc = SolanaAccount {
        lamports: g.edgy_u64(),
        data,
        owner,
        executable: g.bool(),
        rent_epoch: g.edgy_u64(),
    };
    let slot = if g.chance(1, 8) { g.edgy_u64() } else { g.below(50) };
    let a = AccountData {
        pubkey: pk,
        account: Arc::new(Account::from_solana_account(acc.clone(), codec(g))),
        updated_slot: slot,
        write_version: g.below(9),
    };
    (Plain { pk, acc, slot }, a)
}

fn gen_error(g: &mut G) -> AccountLoadingError {
    use AccountLoadingError::*;
    *g.pick(&[
        AccountNotFound,
        ConfigDoesnotContainRequiredFilters,
        OperationTimeOut,
        ErrorCreatingSnapshot,
        TokenAccountsCannotUseThisFilter,
        WrongIndex,
        DeserializationIssues,
    ])
}

pub fn call(server: &Arc<Fixed>, method: &str, params: Vec<Value>) -> Result<Result<Value, i32>, Fail> {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
    }
    let rpc = RpcServerImpl::new(server.clone()).into_rpc();
    match no_panic(|| RT.with(|rt| rt.block_on(rpc.call(method, params)))) {
        Ok(r) => Ok(r.map_err(|e| e.code())),
        Err((m, at)) => fail("panic", format!("{method} panicked at {m}: {at}")),
    }
}

#[derive(Clone, Default)]
struct AccCfg {
    encoding: Option<&'static str>,
    slice: Option<(usize, usize)>,
}

/// the account part of a configuration; commitment 0..2
fn gen_cfg(g: &mut G) -> (AccCfg, u8, serde_json::Map<String, Value>) {
    let mut m = serde_json::Map::new();
    let encoding = [None, Some("base64"), Some("base58"), Some("base64+zstd"), Some("jsonParsed")][g.weighted(&[3, 2, 2, 2, 1])];
    if let Some(e) = encoding {
        m.insert("encoding".into(), json!(e));
    }
    let slice = (encoding != Some("jsonParsed") && g.chance(1, 3)).then(|| {
        let o = if g.chance(1, 8) { g.edgy_u64() as usize } else { g.size(0, 12) };
        let n = if g.chance(1, 8) { g.edgy_u64() as usize } else { g.size(0, 12) };
        // an end behind the last address is refused by the client library of every caller
        (o, n.min(usize::MAX - o))
    });
    if let Some((o, n)) = slice {
        m.insert("dataSlice".into(), json!({"offset": o, "length": n}));
    }
    let (level, name) = [
        (2, None),
        (0, Some("processed")),
        (1, Some("confirmed")),
        (2, Some("finalized")),
        (0, Some("recent")),
        (1, Some("single")),
        (1, Some("singleGossip")),
        (2, Some("max")),
        (2, Some("root")),
    ][g.weighted(&[3, 3, 3, 3, 1, 1, 1, 1, 1])];
    if let Some(n) = name {
        m.insert("commitment".into(), json!(n));
    }
    (AccCfg { encoding, slice }, level, m)
}

/// the fields of one shown account
fn check_shown(shown: &Value, p: &Plain, cfg: &AccCfg) -> R {
    let who = format!("account {} ({} bytes, slot {})", p.pk, p.acc.data.len(), p.slot);
    ensure!("fields", shown["lamports"].as_u64() == Some(p.acc.lamports), "{who}: lamports {} are shown, {} are stored", shown["lamports"], p.acc.lamports);
    ensure!("fields", shown["owner"] == json!(p.acc.owner.to_string()), "{who}: owner {} is shown instead of {}", shown["owner"], p.acc.owner);
    ensure!("fields", shown["executable"] == json!(p.acc.executable), "{who}: executable is shown as {}", shown["executable"]);
    ensure!("fields", shown["rentEpoch"].as_u64() == Some(p.acc.rent_epoch), "{who}: rent epoch {} is shown instead of {}", shown["rentEpoch"], p.acc.rent_epoch);
    let want: &[u8] = match cfg.slice {
        Some((o, n)) if o >= p.acc.data.len() => {
            let _ = n;
            &[]
        }
        Some((o, n)) => &p.acc.data[o..(o + n).min(p.acc.data.len())],
        None => &p.acc.data,
    };
    let enc = match cfg.encoding {
        // data that is not understood is shown as base64
        None | Some("jsonParsed") => "base64",
        Some(e) => e,
    };
    if cfg.encoding == Some("jsonParsed") && shown["data"].is_object() {
        return Ok(());
    }
    ensure!("encoding", shown["data"][1] == json!(enc), "{who}: data is shown as {} instead of {enc}", shown["data"][1]);
    let Some(text) = shown["data"][0].as_str() else {
        return fail("encoding", format!("{who}: data is shown as {}", shown["data"]));
    };
    let b64 = base64::engine::general_purpose::STANDARD;
    let got = match enc {
        // the limit of this encoding applies to the account, whatever the slice
        "base58" if p.acc.data.len() > 128 => {
            ensure!("data", text.starts_with("error"), "{who}: an account of {} bytes is shown as base58", p.acc.data.len());
            return Ok(());
        }
        "base58" => bs58::decode(text).into_vec().ok(),
        "base64" => b64.decode(text).ok(),
        _ => b64.decode(text).ok().and_then(|z| zstd::decode_all(&z[..]).ok()),
    };
    match got {
        Some(d) => ensure!("data", d == want, "{who}: {} bytes are shown as {enc} (slice {:?}) that are not the stored ones ({} bytes)", d.len(), cfg.slice, want.len()),
        None => return fail("data", format!("{who}: data is not valid {enc}")),
    }
    Ok(())
}

/// text that is no public key
fn bad_key(g: &mut G) -> String {
    let k = key(1, g.below(20)).to_string();
    match g.below(5) {
        0 => String::new(),
        1 => k[..k.len() - 2 - g.size(0, 20)].to_string(),
        2 => format!("{k}{k}"),
        3 => format!("0{}", &k[1..]),
        _ => bs58::encode(g.blob(33)).into_string() + "1",
    }
}

fn only(calls: &[String], want: &str, method: &str) -> R {
    ensure!("asked", !calls.is_empty() && calls.iter().all(|c| c == want), "{method} asked the storage for {calls:?} instead of {want}");
    Ok(())
}

fn level_name(l: u8) -> &'static str {
    ["processed", "confirmed", "finalized"][l as usize]
}

fn a03_account(g: &mut G) -> R {
    let mut st = Fixed::default();
    let n = g.size(1, 3);
    let mut plain = BTreeMap::new();
    for i in 0..n as u64 {
        for l in 0..3u8 {
            if g.chance(2, 3) {
                let owner = key(2, g.below(3));
                let (p, a) = gen_plain(g, key(1, i), owner, 3000);
                st.accounts.insert((p.pk, l), a);
                plain.insert((p.pk, l), p);
            }
        }
    }
    if g.chance(1, 10) {
        st.fails = Some(gen_error(g));
    }
    let (cfg, level, m) = gen_cfg(g);
    let st = Arc::new(st);
    if g.chance(1, 12) {
        let text = bad_key(g);
        g.note(|| format!("getAccountInfo of {text:?}"));
        let r = call(&st, "getAccountInfo", vec![json!(text)])?;
        ensure!("bad_key", r.is_err(), "getAccountInfo of {text:?}, which is no key, answered {r:?}");
        return Ok(());
    }
    let pk = key(1, g.below(n as u64 + 1));
    let mut params = vec![json!(pk.to_string())];
    let (cfg, level) = match g.weighted(&[6, 1, 1]) {
        0 => {
            params.push(Value::Object(m));
            (cfg, level)
        }
        1 => {
            params.push(Value::Null);
            (AccCfg::default(), 2)
        }
        _ => (AccCfg::default(), 2),
    };
    g.note(|| format!("storage: {} accounts, error {:?}", st.accounts.len(), st.fails));
    g.note(|| format!("getAccountInfo {params:?}"));
    let r = call(&st, "getAccountInfo", params)?;
    only(&st.calls.lock().unwrap(), &format!("account {pk} {}", level_name(level)), "getAccountInfo")?;
    if st.fails.is_some() {
        ensure!("error", r.is_err(), "the storage failed and the answer is {r:?}");
        g.class("error");
        return Ok(());
    }
    let v = match r {
        Ok(v) => v,
        Err(c) => return fail("error", format!("error {c} without reason")),
    };
    match plain.get(&(pk, level)) {
        None => {
            g.class("none");
            ensure!("none", v["value"].is_null() && !v["context"].is_null(), "the storage has no such account and the answer is {v}")
        }
        Some(p) => {
            g.nontrivial = true;
            g.class(match cfg.encoding {
                None => "default_encoding",
                Some(e) => e,
            });
            g.class_if(cfg.slice.is_some(), "slice");
            ensure!("shown", !v["value"].is_null(), "the account is not shown: {v}");
            ensure!("slot", v["context"]["slot"].as_u64() == Some(p.slot), "context slot {} instead of {}", v["context"]["slot"], p.slot);
            check_shown(&v["value"], p, &cfg)?;
        }
    }
    Ok(())
}

pub fn rpc_filter(g: &mut G, c: &Cond) -> Value {
    let f = match c {
        Cond::Size(n) => RpcFilterType::DataSize(*n),
        Cond::Mem(o, p) => {
            let b = match g.below(3) {
                0 => MemcmpEncodedBytes::Base58(bs58::encode(p).into_string()),
                1 => MemcmpEncodedBytes::Base64(base64::engine::general_purpose::STANDARD.encode(p)),
                _ => MemcmpEncodedBytes::Bytes(p.clone()),
            };
            if let (MemcmpEncodedBytes::Base58(s), true) = (&b, g.chance(1, 3)) {
                // the usual spelling of clients that know no encodings
                return json!({"memcmp": {"offset": o, "bytes": s}});
            }
            RpcFilterType::Memcmp(Memcmp::new(*o as usize, b))
        }
    };
    serde_json::to_value(f).unwrap()
}

fn a03_program(g: &mut G) -> R {
    let mut st = Fixed::default();
    let mut plain: BTreeMap<(Pubkey, u8), Plain> = BTreeMap::new();
    let n = g.size(0, 6) as u64;
    let small = !g.chance(1, 4);
    for i in 0..n {
        for l in 0..3u8 {
            if g.chance(4, 5) {
                let owner = key(2, [0, 1][g.weighted(&[4, 1])]);
                let (p, a) = gen_plain(g, key(1, i), owner, if small { 0 } else { 400 });
                st.accounts.insert((p.pk, l), a);
                plain.insert((p.pk, l), p);
            }
        }
    }
    if g.chance(1, 12) {
        st.fails = Some(gen_error(g));
    }
    let st = Arc::new(st);
    let (cfg, level, mut m) = gen_cfg(g);
    if g.chance(1, 15) {
        let text = bad_key(g);
        let r = call(&st, "getProgramAccounts", vec![json!(text)])?;
        ensure!("bad_key", r.is_err(), "getProgramAccounts of {text:?}, which is no key, answered {r:?}");
        return Ok(());
    }
    let program = key(2, g.below(2));
    let mut conds = vec![];
    let mut nothing = false;
    let mut unsupported = false;
    if g.chance(2, 3) {
        let mut fs = vec![];
        for _ in 0..g.size(0, 2) {
            let c = small_cond(g);
            fs.push(rpc_filter(g, &c));
            conds.push(c);
        }
        if g.chance(1, 10) {
            fs.push(json!({"memcmp": {"offset": 0, "bytes": "0OIl"}}));
            nothing = true;
        }
        if g.chance(1, 12) {
            fs.push(serde_json::to_value(RpcFilterType::TokenAccountState).unwrap());
            unsupported = true;
        }
        m.insert("filters".into(), Value::Array(fs));
    }
    let context = g.bool();
    if context || g.bool() {
        m.insert("withContext".into(), json!(context));
    }
    let mut min = 0;
    if context && g.chance(1, 2) {
        min = g.below(50);
        m.insert("minContextSlot".into(), json!(min));
    }
    let mut params = vec![json!(program.to_string())];
    let (mut cfg, mut level, mut context, mut conds, mut nothing, mut unsupported, mut min) = (cfg, level, context, conds, nothing, unsupported, min);
    if g.chance(7, 8) {
        params.push(Value::Object(m));
    } else {
        (cfg, level, context, conds, nothing, unsupported, min) = (AccCfg::default(), 2, false, vec![], false, false, 0);
    }
    g.note(|| format!("storage: {:?}, error {:?}", plain.values().map(|p| format!("{} {} bytes {:?} slot {}", &p.pk.to_string()[..4], p.acc.data.len(), &p.acc.data[..p.acc.data.len().min(6)], p.slot)).collect::<Vec<_>>(), st.fails));
    g.note(|| format!("getProgramAccounts {}", Value::Array(params.clone())));
    let r = call(&st, "getProgramAccounts", params)?;
    if unsupported {
        g.class("unsupported");
        // a filter that cannot be applied must not be ignored
        if let Ok(v) = &r {
            let list = if context { &v["value"] } else { v };
            ensure!("unsupported", list.as_array().map(|l| l.is_empty()).unwrap_or(false), "an unsupported filter was ignored: {v}");
        }
        return Ok(());
    }
    only(&st.calls.lock().unwrap(), &format!("program {program} {}", level_name(level)), "getProgramAccounts")?;
    if st.fails.is_some() {
        ensure!("error", r.is_err(), "the storage failed and the answer is {r:?}");
        g.class("error");
        return Ok(());
    }
    let v = match r {
        Ok(v) => v,
        Err(c) => return fail("error", format!("error {c} without reason")),
    };
    let found: Vec<&Plain> = plain
        .iter()
        .filter(|((_, l), p)| *l == level && p.acc.owner == program && !nothing && conds.iter().all(|c| c.holds(&p.acc.data)))
        .map(|x| x.1)
        .collect();
    let want: BTreeMap<String, &Plain> = found.iter().filter(|p| p.slot >= min).map(|p| (p.pk.to_string(), *p)).collect();
    let all = plain.iter().filter(|((_, l), p)| *l == level && p.acc.owner == program).count();
    g.nontrivial = !want.is_empty() && want.len() < all;
    g.class_if(want.len() < found.len(), "min_context_slot");
    g.class_if(context, "context");
    let list = if context {
        ensure!("context", v.is_object() && v["context"]["slot"].is_u64(), "an answer with context was asked for: {v}");
        if !want.is_empty() {
            let newest = found.iter().map(|p| p.slot).max().unwrap();
            ensure!("slot", v["context"]["slot"].as_u64() == Some(newest), "context slot {} instead of {newest}", v["context"]["slot"]);
        }
        &v["value"]
    } else {
        &v
    };
    let Some(list) = list.as_array() else {
        return fail("context", format!("no list of accounts: {v}"));
    };
    let mut got = BTreeMap::new();
    for x in list {
        let pk = x["pubkey"].as_str().unwrap_or_default().to_string();
        ensure!("twice", got.insert(pk.clone(), x).is_none(), "account {pk} is shown twice");
        match want.get(&pk) {
            None => return fail("extra", format!("account {pk} is shown and does not belong to the answer")),
            Some(p) => check_shown(&x["account"], p, &cfg)?,
        }
    }
    for pk in want.keys() {
        ensure!("missing", got.contains_key(pk), "account {pk} is missing in the answer");
    }
    Ok(())
}

fn a03_snapshot(g: &mut G) -> R {
    let mut st = Fixed::default();
    let n = g.size(0, 60);
    st.snapshot = if g.chance(1, 6) { g.blob(20000) } else { g.bytes(n) };
    if g.chance(1, 6) {
        st.fails = Some(gen_error(g));
    }
    let st = Arc::new(st);
    if g.chance(1, 8) {
        let text = bad_key(g);
        let r = call(&st, "getSnapshot", vec![json!(text)])?;
        ensure!("bad_key", r.is_err(), "getSnapshot of {text:?}, which is no key, answered {r:?}");
        return Ok(());
    }
    let program = key(2, g.below(30));
    g.note(|| format!("getSnapshot {program}, error {:?}, snapshot {:?}", st.fails, &st.snapshot[..st.snapshot.len().min(60)]));
    let r = call(&st, "getSnapshot", vec![json!(program.to_string())])?;
    only(&st.calls.lock().unwrap(), &format!("snapshot {program}"), "getSnapshot")?;
    if st.fails.is_some() {
        ensure!("error", r.is_err(), "the storage failed and the answer is {r:?}");
        return Ok(());
    }
    let got = r.ok().and_then(|v| v.as_str().and_then(|s| base64::engine::general_purpose::STANDARD.decode(s).ok()));
    g.nontrivial = !st.snapshot.is_empty();
    ensure!("snapshot", got.as_deref() == Some(&st.snapshot[..]), "the answer does not carry the snapshot of {} bytes", st.snapshot.len());
    Ok(())
}
