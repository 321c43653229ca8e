//! C01-C06: data codecs, filter predicates, filter configuration, filter stores.
use crate::gens::*;
use base64::Engine;
use lite_account_manager_common::account_data::{Account, AccountData, CompressionMethod, Data};
use lite_account_manager_common::account_filter::{
    AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::except_filter_store::ExceptFilterStore;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use pbt::{ensure, fail, no_panic, Prop, Sub, G, R};
use solana_rpc_client_api::filter::{Memcmp, MemcmpEncodedBytes, RpcFilterType};
use solana_sdk::account::Account as SolanaAccount;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            subs: vec![
                Sub::new("roundtrip", 30000, 300000, c01_roundtrip),
                Sub::new("large", 80, 800, c01_large),
                Sub::new("equality", 30000, 300000, c01_equality),
            ],
            rule: "random payloads (empty, short, repetitive, incompressible, up to 10 MiB, the largest account) x codec x level; non-trivial = payload of at least 1 byte under a compressing codec",
            assumptions: &[],
        },
        Prop {
            id: "C02",
            subs: vec![
                Sub::new("predicate", 600000, 6000000, c02_predicate),
                Sub::new("rpc", 300000, 3000000, c02_rpc),
            ],
            rule: "random condition (size / memcmp with bytes, base58 or base64 pattern, offsets from 0 to u64::MAX) against random data, half of the data built to match; non-trivial = the pattern region overlaps or touches the end of the data, or the condition holds",
            assumptions: &["RpcFilterType::TokenAccountState is outside the domain: the code marks its conversion unimplemented!()"],
        },
        Prop {
            id: "C03",
            subs: vec![
                Sub::new("roundtrip", 100000, 1000000, c03_roundtrip),
                Sub::new("malformed", 200000, 2000000, c03_malformed),
                Sub::new("invalid", 200000, 2000000, c03_invalid),
            ],
            rule: "random filter lists serialized and parsed back; and valid filter JSON with 1-3 random node replacements or textual cuts; and valid JSON (up to 40 filters, conditions and accounts) with exactly one invalid part (key, condition, pattern, type, cut) at a random position, which must be an error; non-trivial = at least one filter with conditions / at least one mutation applied",
            assumptions: &[],
        },
        Prop {
            id: "C04",
            subs: vec![
                Sub::new("satisfies", 60000, 600000, c04_satisfies),
                Sub::serial("concurrent", 3000, 30000, c04_concurrent),
            ],
            rule: "0-8 (1 in 12: up to 48) random filters (accounts, whole programs, AND-lists in any encoding, up to 12 conditions, patterns up to 128 bytes) added in order to SimpleFilterStore and MutableFilterStore, then 12 accounts, some built to match a stored list; non-trivial = both accepted and rejected accounts occurred",
            assumptions: &[],
        },
        Prop {
            id: "C05",
            subs: vec![
                Sub::new("sound", 150000, 1500000, c05_sound),
                Sub::new("complete", 150000, 1500000, c05_complete),
            ],
            rule: "sound: random stored filters and queries, whenever contains_filter says yes accounts built to match the query must be accepted; complete: a stored filter re-spelled (encoding, order, duplicates) or strengthened must be contained; non-trivial = contains_filter answered yes for a query with at least one condition and a matching account was built / the query differs from the stored spelling",
            assumptions: &[],
        },
        Prop {
            id: "C06",
            subs: vec![Sub::new("complement", 120000, 1200000, c06_complement)],
            rule: "the same random filters loaded in ExceptFilterStore and SimpleFilterStore, 12 accounts and 10 queries by keys, program and conditions; non-trivial = both an excepted and a passed account occurred",
            assumptions: &["contains_filter cannot know the program of a listed account, nor the keys of a program: an account whose program is excepted, or a program with excepted accounts, counts as held unless it is excepted itself"],
        },
    ]
}

// ------------------------------------------------------------------ C01

fn check_codec(g: &mut G, raw: Vec<u8>, c: CompressionMethod) -> R {
    let lam = g.edgy_u64();
    let owner = any_key(g);
    let executable = g.bool();
    let rent_epoch = g.edgy_u64();
    g.note(|| format!("len={} codec={c:?} lamports={lam} owner={owner}", raw.len()));
    let compressing = c != CompressionMethod::None;
    g.nontrivial = compressing && !raw.is_empty();
    g.class_if(raw.is_empty(), "empty");
    g.class_if(matches!(c, CompressionMethod::Lz4(_)), "lz4");
    g.class_if(matches!(c, CompressionMethod::Zstd(_)), "zstd");

    let d = Data::new(&raw, c.clone());
    ensure!("len", d.len() == raw.len(), "len() = {} for {} bytes under {c:?}", d.len(), raw.len());
    ensure!("is_empty", d.is_empty() == raw.is_empty(), "is_empty() = {} for {} bytes under {c:?}", d.is_empty(), raw.len());
    ensure!("data", d.data() == raw, "data() differs from the {} bytes stored under {c:?}", raw.len());
    // a copy taken through serde stays equivalent
    let ser = bincode::serialize(&d).map_err(|e| pbt::Fail { key: "serde".into(), msg: e.to_string() })?;
    let back: Data = bincode::deserialize(&ser).map_err(|e| pbt::Fail { key: "serde".into(), msg: e.to_string() })?;
    ensure!("serde", back == d && back.data() == raw && back.len() == raw.len(), "bincode copy of Data differs under {c:?}");

    let sol = SolanaAccount { lamports: lam, data: raw.clone(), owner, executable, rent_epoch };
    let acc = Account::from_solana_account(sol.clone(), c.clone());
    ensure!("account", acc.to_solana_account() == sol, "account changed by from/to_solana_account under {c:?}");

    // what a filter sees does not depend on the codec
    let ad = AccountData { pubkey: any_key(g), account: std::sync::Arc::new(acc), updated_slot: 1, write_version: 1 };
    let size = if g.bool() { raw.len() as u64 } else { g.below(1 << 12) };
    ensure!("allows_size", ad.allows(&RpcFilterType::DataSize(size)) == (raw.len() as u64 == size), "DataSize({size}) on {} bytes under {c:?}", raw.len());
    let off = g.size(0, raw.len() + 1);
    let end = (off + g.size(0, 8)).min(raw.len().max(off));
    let mut pat: Vec<u8> = raw.get(off..end).map(|x| x.to_vec()).unwrap_or_else(|| vec![1]);
    if g.chance(1, 3) && !pat.is_empty() {
        let i = g.size(0, pat.len() - 1);
        pat[i] ^= 1 << g.below(8);
    }
    let expect = Cond::Mem(off as u64, pat.clone()).holds(&raw);
    let got = ad.allows(&RpcFilterType::Memcmp(Memcmp::new(off, MemcmpEncodedBytes::Bytes(pat.clone()))));
    ensure!("allows_memcmp", got == expect, "memcmp at {off} of {} bytes = {got}, expected {expect}, under {c:?}", pat.len());
    Ok(())
}

/// a copy is equal, an account that differs in one thing is not
fn c01_equality(g: &mut G) -> R {
    let raw = payload(g, 300);
    let c = cheap_codec(g);
    let (pk, owner) = (any_key(g), any_key(g));
    let sol = SolanaAccount { lamports: g.edgy_u64(), data: raw, owner, executable: g.bool(), rent_epoch: g.edgy_u64() };
    let slot = g.edgy_u64();
    let wv = g.edgy_u64();
    let make = |pk, sol: &SolanaAccount, slot| AccountData {
        pubkey: pk,
        account: std::sync::Arc::new(Account::from_solana_account(sol.clone(), c.clone())),
        updated_slot: slot,
        write_version: wv,
    };
    let a = make(pk, &sol, slot);
    let copy: AccountData = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| pbt::Fail { key: "serde".into(), msg: e.to_string() })?;
    ensure!("equal", a == a.clone() && a == copy && a == make(pk, &sol, slot), "account {pk} of {} bytes in slot {slot} does not equal its copy", sol.data.len());
    ensure!("copy_version", copy.write_version == wv, "serde copy has write version {} instead of {wv}", copy.write_version);
    let mut o = sol.clone();
    let (mut opk, mut oslot) = (pk, slot);
    let what = match g.below(7) {
        0 => {
            opk = flip(g, pk);
            "key"
        }
        1 => {
            o.owner = flip(g, owner);
            "owner"
        }
        2 => {
            o.lamports ^= 1 << g.below(64);
            "lamports"
        }
        3 => {
            o.executable = !o.executable;
            "executable"
        }
        4 => {
            o.rent_epoch ^= 1 << g.below(64);
            "rent epoch"
        }
        5 => {
            oslot ^= 1 << g.below(64);
            "slot"
        }
        _ => {
            if o.data.is_empty() || g.chance(1, 4) {
                o.data.push(0);
            } else {
                let i = g.size(0, o.data.len() - 1);
                o.data[i] ^= 1 << g.below(8);
            }
            "data"
        }
    };
    g.note(|| format!("{} bytes under {c:?}, other {what}", sol.data.len()));
    g.nontrivial = true;
    let b = make(opk, &o, oslot);
    ensure!("unequal", a != b && b != a, "accounts equal although their {what} differs: {sol:?} in slot {slot}, {o:?} in slot {oslot}");
    Ok(())
}

fn flip(g: &mut G, k: Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    b[g.below(32) as usize] ^= 1 << g.below(8);
    Pubkey::new_from_array(b)
}

fn c01_roundtrip(g: &mut G) -> R {
    let mut raw = payload(g, 60_000);
    match g.weighted(&[12, 1, 1, 1]) {
        0 => (),
        1 => {
            // bytes that are compressed already
            let inner = codec(g);
            raw = match Data::new(&raw, inner) {
                Data::Uncompressed(d) => d,
                Data::Lz4 { binary, .. } | Data::Zstd { binary, .. } => binary,
            };
            g.class("compressed_twice");
        }
        2 => {
            // sparse: a few bytes and zeros up to the allocated size
            let n = g.size(0, 40_000);
            raw.truncate(64);
            raw.resize(raw.len() + n, 0);
            g.class("zero_tail");
        }
        _ => {
            // the magic numbers of the codecs in front of anything
            let magic: &[u8] = match g.below(4) {
                0 => &[0x28, 0xb5, 0x2f, 0xfd],
                1 => &[0x04, 0x22, 0x4d, 0x18],
                2 => &[0x50, 0x2a, 0x4d, 0x18],
                _ => &[0xff, 0xff, 0xff, 0xff],
            };
            raw.splice(0..0, magic.iter().copied());
        }
    }
    let c = codec(g);
    check_codec(g, raw, c)
}

fn c01_large(g: &mut G) -> R {
    // up to the largest size an account can have (10 MiB)
    let n = match g.weighted(&[3, 1, 2]) {
        0 => g.size(1 << 17, 2 << 20),
        1 => g.size(2 << 20, 10 << 20),
        _ => (10 << 20) - g.below(3) as usize,
    };
    g.class_if(n > 8 << 20, "over_8MiB");
    let raw = match g.below(3) {
        0 => g.blob(n),
        1 => vec![g.u8(); n],
        _ => {
            let head = g.size(0, 4096);
            let mut d = g.blob(head);
            d.resize(n, 0);
            d
        }
    };
    let c = match g.below(3) {
        0 => CompressionMethod::Lz4(g.range(1, 9) as i32),
        1 => CompressionMethod::Zstd(g.range(0, 4) as i32),
        _ => CompressionMethod::None,
    };
    check_codec(g, raw, c)
}

// ------------------------------------------------------------------ C02

fn gen_cond_and_data(g: &mut G) -> (Cond, Vec<u8>) {
    let mut data = match g.weighted(&[4, 1]) {
        0 => {
            let n = g.size(0, 40);
            (0..n).map(|_| g.below(4) as u8).collect()
        }
        _ => payload(g, 3000),
    };
    let c = match g.weighted(&[1, 3]) {
        0 => Cond::Size(match g.weighted(&[2, 2, 1]) {
            0 => data.len() as u64,
            1 => g.below(64),
            _ => g.edgy_u64(),
        }),
        _ => {
            let off = match g.weighted(&[6, 2, 1]) {
                0 => g.below(data.len() as u64 + 3),
                1 => (data.len() as u64).saturating_sub(g.below(4)),
                _ => g.edgy_u64(),
            };
            let n = match g.weighted(&[4, 1]) {
                0 => g.size(0, 6),
                _ => g.size(0, 130),
            };
            // an offset that would be right if it were stored in fewer bits
            let wrap = if g.chance(1, 12) { Some(*g.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 3 << 32, 1 << 48, 1 << 63])) } else { None };
            g.class_if(wrap.is_some(), "wrapping_offset");
            let from_data = (wrap.is_some() || g.chance(2, 3)) && off <= data.len() as u64;
            let pat = if from_data {
                let s = off as usize;
                let mut p: Vec<u8> = data[s..(s + n).min(data.len())].to_vec();
                if g.chance(1, 5) && !p.is_empty() {
                    let i = g.size(0, p.len() - 1);
                    p[i] = p[i].wrapping_add(1 + g.u8() % 255);
                }
                if g.chance(1, 8) {
                    let b = g.u8();
                    p.push(b);
                }
                p
            } else {
                (0..n).map(|_| g.below(4) as u8).collect()
            };
            Cond::Mem(off.wrapping_add(wrap.unwrap_or(0)), pat)
        }
    };
    if g.chance(1, 10) {
        data.clear();
    }
    (c, data)
}

fn c02_predicate(g: &mut G) -> R {
    let (c, data) = gen_cond_and_data(g);
    let f = spell(g, &c);
    let expect = c.holds(&data);
    g.note(|| format!("filter {f:?} on {} bytes {:?}.. -> {expect}", data.len(), &data[..data.len().min(16)]));
    g.class_if(expect, "holds");
    let touches = match &c {
        Cond::Size(_) => true,
        Cond::Mem(o, _) => *o <= data.len() as u64,
    };
    g.nontrivial = expect || touches;
    let got = f.allows(&data);
    ensure!("allows", got == expect, "{f:?}.allows({data:?}) = {got}, expected {expect}");
    if let AccountFilterType::Memcmp(m) = &f {
        ensure!("bytes_match", m.bytes_match(&data) == expect, "bytes_match disagrees: {f:?} on {data:?}");
        if let Cond::Mem(_, p) = &c {
            ensure!("bytes", &m.bytes() == p, "bytes() of {f:?} is not the encoded pattern {p:?}");
        }
    }
    Ok(())
}

fn c02_rpc(g: &mut G) -> R {
    let (c, data) = gen_cond_and_data(g);
    let f = spell(g, &c);
    let expect = c.holds(&data);
    g.nontrivial = expect || data.len() > 1;
    g.class_if(expect, "holds");
    let program = any_key(g);
    let rpc = program_filter(program, Some(vec![f.clone()]))
        .get_rpc_filter()
        .unwrap_or_default();
    g.note(|| format!("{f:?} -> {rpc:?} on {data:?}"));
    ensure!("rpc_len", rpc.len() == 1, "one filter became {} rpc filters", rpc.len());
    ensure!("rpc_none", program_filter(program, None).get_rpc_filter().is_none(), "no filter became some rpc filter");
    let codec = cheap_codec(g);
    let acc = mk_account(key(1, 1), program, 1, data.clone(), 1, 1, codec);
    ensure!("rpc_allows", acc.allows(&rpc[0]) == expect, "AccountData::allows({:?}) = {}, expected {expect} on {data:?}", rpc[0], !expect);
    // and back
    let back = AccountFilterType::from(&rpc[0]);
    ensure!("rpc_back", back.allows(&data) == expect, "{f:?} -> {:?} -> {back:?} changes meaning on {data:?}", rpc[0]);
    // an rpc memcmp whose pattern cannot be decoded matches nothing, before and after conversion
    if g.chance(1, 6) {
        let junk = ["0", "O", "l+", "not base58 !", "====", "I0Il"];
        let s = g.pick(&junk).to_string();
        let enc = if g.bool() {
            MemcmpEncodedBytes::Base58(s)
        } else {
            MemcmpEncodedBytes::Base64("*".to_string() + &s)
        };
        let bad = RpcFilterType::Memcmp(Memcmp::new(g.below(3) as usize, enc));
        let conv = AccountFilterType::from(&bad);
        g.class("undecodable");
        ensure!("rpc_undecodable", !acc.allows(&bad), "undecodable rpc filter {bad:?} matched");
        ensure!("rpc_undecodable", !conv.allows(&data), "undecodable rpc filter {bad:?} became {conv:?}, which matches {data:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn any_cond(g: &mut G) -> Cond {
    match g.weighted(&[1, 2]) {
        0 => Cond::Size(g.edgy_u64()),
        _ => {
            let off = g.edgy_u64();
            let n = g.size(0, 20);
            Cond::Mem(off, g.bytes(n))
        }
    }
}

fn any_filter(g: &mut G) -> AccountFilter {
    let na = if g.chance(1, 10) { g.size(4, 40) } else { g.weighted(&[4, 2, 1, 1]) };
    let accounts = (0..na).map(|_| any_key(g)).collect();
    let program_id = if g.chance(3, 4) { Some(any_key(g)) } else { None };
    let filters = match g.weighted(&[2, 4, 1]) {
        0 => None,
        1 => {
            let n = if g.chance(1, 8) { g.size(5, 40) } else { g.size(1, 4) };
            Some((0..n).map(|_| { let c = any_cond(g); spell(g, &c) }).collect())
        }
        _ => Some(vec![]),
    };
    AccountFilter { accounts, program_id, filters }
}

fn c03_roundtrip(g: &mut G) -> R {
    let n = if g.chance(1, 12) { g.size(5, 40) } else { g.size(0, 4) };
    let fs: AccountFilters = (0..n).map(|_| any_filter(g)).collect();
    g.nontrivial = fs.iter().any(|f| f.filters.as_ref().map_or(false, |x| !x.is_empty()));
    g.note(|| format!("{fs:?}"));
    let txt = serde_json::to_string(&fs).map_err(|e| pbt::Fail { key: "serialize".into(), msg: e.to_string() })?;
    let back: AccountFilters = match serde_json::from_str(&txt) {
        Ok(b) => b,
        Err(e) => return fail("parse", format!("{txt} does not parse back: {e}")),
    };
    ensure!("roundtrip", back == fs, "{fs:?}\n -> {txt}\n -> {back:?}");
    let v = serde_json::to_value(&fs).unwrap();
    let back: AccountFilters = match serde_json::from_value(v.clone()) {
        Ok(b) => b,
        Err(e) => return fail("parse", format!("{v} does not parse back: {e}")),
    };
    ensure!("roundtrip", back == fs, "through Value: {fs:?}\n -> {v}\n -> {back:?}");
    // the wire spelling is camelCase and text keys, and the key set is what was set
    if let Some(a) = v.as_array() {
        for (j, f) in a.iter().zip(&fs) {
            ensure!("spelling", j.get("programId").and_then(|x| x.as_str()).map(|s| s.to_string()) == f.program_id.map(|p| p.to_string()), "programId spelled {j}");
        }
    }
    Ok(())
}

fn count_nodes(v: &serde_json::Value) -> u64 {
    1 + match v {
        serde_json::Value::Array(a) => a.iter().map(count_nodes).sum(),
        serde_json::Value::Object(o) => o.values().map(count_nodes).sum::<u64>(),
        _ => 0,
    }
}

fn node_at<'a>(v: &'a mut serde_json::Value, n: &mut u64) -> Option<&'a mut serde_json::Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        serde_json::Value::Array(a) => {
            for x in a {
                if let Some(r) = node_at(x, n) {
                    return Some(r);
                }
            }
            None
        }
        serde_json::Value::Object(o) => {
            for x in o.values_mut() {
                if let Some(r) = node_at(x, n) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}

fn junk_json(g: &mut G) -> serde_json::Value {
    use serde_json::json;
    match g.below(14) {
        0 => json!(null),
        1 => json!(true),
        2 => json!(-1),
        3 => json!(1.5),
        4 => json!(g.edgy_u64()),
        5 => json!(""),
        6 => json!("not a key"),
        7 => json!(key(0, 3).to_string()),
        8 => json!([]),
        9 => json!({}),
        10 => json!([null]),
        11 => json!({"datasize": "x"}),
        12 => json!({"memcmp": {"offset": 1, "data": {"base58": "0OIl"}}}),
        _ => json!({"memcmp": {"offset": 0, "data": {"base64": "***"}}}),
    }
}

fn c03_malformed(g: &mut G) -> R {
    let n = g.size(1, 2);
    let fs: AccountFilters = (0..n).map(|_| any_filter(g)).collect();
    let mut v = serde_json::to_value(&fs).unwrap();
    let muts = g.size(1, 3);
    for _ in 0..muts {
        let total = count_nodes(&v);
        let mut i = g.below(total);
        let j = junk_json(g);
        if let Some(x) = node_at(&mut v, &mut i) {
            *x = j;
        }
    }
    if g.chance(1, 5) {
        let extra = junk_json(g);
        if let Some(o) = v.get_mut(0).and_then(|x| x.as_object_mut()) {
            let names = ["programId", "accounts", "filters", "other"];
            let k = g.pick(&names).to_string();
            o.insert(k, extra);
        }
    }
    let mut txt = v.to_string();
    if g.chance(1, 6) {
        let mut cut = g.size(0, txt.len());
        while !txt.is_char_boundary(cut) {
            cut -= 1;
        }
        txt.truncate(cut);
    }
    g.nontrivial = true;
    g.note(|| txt.clone());
    match no_panic(|| serde_json::from_str::<AccountFilters>(&txt)) {
        Err((loc, msg)) => fail("parse_panic", format!("parsing {txt} panicked at {loc}: {msg}")),
        Ok(Err(_)) => {
            g.class("rejected");
            Ok(())
        }
        Ok(Ok(fs)) => {
            g.class("accepted");
            // whatever was accepted is usable: it can be written back, parsed again and matched with
            let again = serde_json::to_string(&fs).unwrap();
            let fs2: AccountFilters = match serde_json::from_str(&again) {
                Ok(x) => x,
                Err(e) => return fail("reparse", format!("accepted {txt}, rewritten as {again}, rejected: {e}")),
            };
            ensure!("reparse", fs == fs2, "accepted {txt} is not stable: {fs:?} vs {fs2:?}");
            let used = no_panic(|| {
                let mut s = SimpleFilterStore::default();
                s.add_account_filters(&fs);
                for f in &fs {
                    s.contains_filter(f);
                    for t in f.filters.iter().flatten() {
                        t.allows(&[1, 2, 3]);
                    }
                }
            });
            if let Err((loc, msg)) = used {
                return fail("accepted_unusable", format!("accepted {txt}, but using the filters panicked at {loc}: {msg}"));
            }
            Ok(())
        }
    }
}

/// a text which is no public key
fn bad_key(g: &mut G) -> serde_json::Value {
    use serde_json::json;
    let good = any_key(g).to_string();
    match g.below(9) {
        0 => json!(null),
        1 => json!(g.bool()),
        2 => json!(g.edgy_u64()),
        3 => json!([good]),
        4 => json!({ "key": good }),
        5 => json!(""),
        6 => {
            // one character outside the alphabet
            let mut t: Vec<char> = good.chars().collect();
            let i = g.size(0, t.len() - 1);
            t[i] = *g.pick(&['0', 'O', 'I', 'l', ' ', '+', 'é']);
            json!(t.into_iter().collect::<String>())
        }
        // 31 or 33 bytes
        7 => json!(bs58::encode([255u8; 31]).into_string()),
        _ => json!(bs58::encode([255u8; 33]).into_string()),
    }
}

/// one filter condition which means nothing
fn bad_cond(g: &mut G) -> serde_json::Value {
    use serde_json::json;
    let off = g.below(100);
    match g.below(19) {
        0 => json!(null),
        1 => json!(g.edgy_u64()),
        2 => json!("datasize"),
        3 => json!({}),
        4 => json!({ "size": off }),
        5 => json!({ "datasize": -1 }),
        6 => json!({ "datasize": "100" }),
        7 => json!({ "datasize": null }),
        8 => json!({ "datasize": 1.5 }),
        9 => json!({ "memcmp": { "offset": off } }),
        10 => json!({ "memcmp": { "data": { "bytes": [1] } } }),
        11 => json!({ "memcmp": { "offset": -1, "data": { "bytes": [1] } } }),
        12 => json!({ "memcmp": { "offset": off, "data": { "bytes": [1, 256] } } }),
        13 => json!({ "memcmp": { "offset": off, "data": { "base32": "AA" } } }),
        14 => json!({ "memcmp": { "offset": off, "data": "AA" } }),
        15 | 16 => {
            let n = g.size(0, 12);
            let bytes = g.bytes(n);
            let mut t: Vec<char> = bs58::encode(bytes).into_string().chars().collect();
            let i = g.size(0, t.len());
            t.insert(i, *g.pick(&['0', 'O', 'I', 'l', ' ', '=', 'é']));
            json!({ "memcmp": { "offset": off, "data": { "base58": t.into_iter().collect::<String>() } } })
        }
        17 => {
            let n = g.size(0, 12);
            let bytes = g.bytes(n);
            let mut t: Vec<char> = base64::engine::general_purpose::STANDARD.encode(bytes).chars().collect();
            let i = g.size(0, t.len());
            t.insert(i, *g.pick(&['*', ' ', '-', '_', 'é']));
            json!({ "memcmp": { "offset": off, "data": { "base64": t.into_iter().collect::<String>() } } })
        }
        _ => json!({ "memcmp": { "offset": off, "data": { "base64": *g.pick(&["A", "AA", "AAA", "A===", "=AAA"]) } } }),
    }
}

/// a valid document with exactly one thing which is wrong: it has to be refused
fn c03_invalid(g: &mut G) -> R {
    use serde_json::json;
    let n = if g.chance(1, 6) { g.size(3, 30) } else { g.size(1, 2) };
    let fs: AccountFilters = (0..n).map(|_| any_filter(g)).collect();
    let mut v = serde_json::to_value(&fs).unwrap();
    let at = g.size(0, n - 1);
    let mut txt = String::new();
    let what = match g.weighted(&[3, 3, 1, 1, 6, 2, 1, 1]) {
        0 => {
            v[at]["programId"] = bad_key(g);
            "program_id"
        }
        1 => {
            let bad = bad_key(g);
            let f = v[at].as_object_mut().unwrap();
            let list = f.entry("accounts").or_insert(json!([])).as_array_mut().unwrap();
            let i = g.size(0, list.len());
            list.insert(i, bad);
            "account_key"
        }
        2 => {
            v[at]["accounts"] = g.pick(&[json!(true), json!(7), json!(""), json!(key(0, 3).to_string()), json!({}), json!({"0": key(0, 3).to_string()})]).clone();
            "accounts_type"
        }
        3 => {
            v[at]["filters"] = g.pick(&[json!(true), json!(7), json!(""), json!({}), json!({"datasize": 100})]).clone();
            "filters_type"
        }
        4 => {
            let bad = bad_cond(g);
            let f = v[at].as_object_mut().unwrap();
            let list = f.entry("filters").or_insert(json!([])).as_array_mut().unwrap();
            let i = g.size(0, list.len());
            list.insert(i, bad);
            "condition"
        }
        5 => {
            v[at] = g.pick(&[json!(null), json!(true), json!(7), json!("x"), json!([]), json!([{}])]).clone();
            "filter_type"
        }
        6 => {
            v = g.pick(&[json!(null), json!(true), json!(7), json!("x"), json!({}), json!({"accounts": []})]).clone();
            "list_type"
        }
        _ => {
            txt = v.to_string();
            let mut cut = g.size(0, txt.len() - 1);
            while !txt.is_char_boundary(cut) {
                cut -= 1;
            }
            txt.truncate(cut);
            "cut"
        }
    };
    if what != "cut" {
        txt = v.to_string();
    }
    g.nontrivial = true;
    g.class(what);
    g.note(|| format!("{what}: {txt}"));
    match no_panic(|| serde_json::from_str::<AccountFilters>(&txt)) {
        Err((loc, msg)) => fail("parse_panic", format!("parsing {txt} panicked at {loc}: {msg}")),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(fs)) => fail("accepted_invalid", format!("{txt} has a wrong {what} and was accepted as {fs:?}")),
    }
}

// ------------------------------------------------------------------ C04 - C06

/// a filter in encoding-free form
#[derive(Clone, Debug)]
struct MFilter {
    accounts: Vec<u64>,
    program: Option<u64>,
    conds: Option<Vec<Cond>>,
}

const NPROG: u64 = 3;
const NACC: u64 = 5;

fn prog(n: u64) -> Pubkey {
    key(7, n)
}
fn acct(n: u64) -> Pubkey {
    key(8, n)
}

/// a long list of conditions that one account can satisfy, with long patterns
fn many_conds(g: &mut G) -> Vec<Cond> {
    let len = g.size(1, 200);
    let d: Vec<u8> = (0..len).map(|_| g.below(3) as u8).collect();
    let n = g.size(1, 12);
    (0..n)
        .map(|_| {
            if g.chance(1, 6) {
                return Cond::Size(len as u64);
            }
            let off = g.size(0, len);
            let k = g.size(0, (len - off).min(128));
            Cond::Mem(off as u64, d[off..off + k].to_vec())
        })
        .collect()
}

/// the filters of a store: usually few, sometimes dozens, sometimes dozens of one program
fn m_filters(g: &mut G, lo: usize, hi: usize) -> Vec<MFilter> {
    match g.weighted(&[20, 1, 1]) {
        0 => {
            let n = g.size(lo, hi);
            (0..n).map(|_| m_filter(g)).collect()
        }
        1 => {
            let n = g.size(hi, 48);
            g.class("dozens_of_filters");
            (0..n).map(|_| m_filter(g)).collect()
        }
        _ => {
            // conditions over a wider space, so that most filters are different
            let n = g.size(hi, 80);
            g.class("dozens_of_one_program");
            (0..n)
                .map(|_| {
                    let k = g.size(1, 2);
                    let conds = (0..k)
                        .map(|_| {
                            let off = g.below(8);
                            let len = g.size(2, 4);
                            Cond::Mem(off, (0..len).map(|_| g.below(3) as u8).collect())
                        })
                        .collect();
                    MFilter { accounts: vec![], program: Some(0), conds: Some(conds) }
                })
                .collect()
        }
    }
}

fn m_filter(g: &mut G) -> MFilter {
    let na = g.weighted(&[5, 2, 1]);
    let accounts: Vec<u64> = (0..na).map(|_| g.below(NACC)).collect();
    let program = if accounts.is_empty() || g.bool() { Some(g.below(NPROG)) } else { None };
    let conds = match g.weighted(&[5, 1, 1]) {
        0 if g.chance(1, 15) => Some(many_conds(g)),
        0 => {
            let n = g.size(1, 3);
            Some((0..n).map(|_| small_cond(g)).collect())
        }
        1 => Some(vec![]),
        _ => None,
    };
    MFilter { accounts, program, conds }
}

fn spell_filter(g: &mut G, m: &MFilter) -> AccountFilter {
    AccountFilter {
        accounts: m.accounts.iter().map(|a| acct(*a)).collect(),
        program_id: m.program.map(prog),
        filters: m.conds.as_ref().map(|c| spell_all(g, c)),
    }
}

fn model_satisfies(fs: &[MFilter], pk: u64, owner: u64, data: &[u8]) -> bool {
    fs.iter().any(|f| {
        f.accounts.contains(&pk)
            || (f.program == Some(owner)
                && f.conds.as_ref().map_or(true, |cs| cs.iter().all(|c| c.holds(data))))
    })
}

fn gen_account(g: &mut G, fs: &[MFilter]) -> (u64, u64, Vec<u8>, AccountData) {
    let pk = g.below(NACC + 3);
    let mut owner = g.below(NPROG + 1);
    let mut data = small_data(g);
    if !fs.is_empty() && g.chance(1, 2) {
        let f = &fs[g.size(0, fs.len() - 1)];
        if let Some(p) = f.program {
            owner = p;
        }
        if let Some(cs) = &f.conds {
            let cs = cs.clone();
            if let Some(d) = data_matching(g, &cs) {
                data = d;
                // sometimes miss by one byte
                if g.chance(1, 4) && !data.is_empty() {
                    let i = g.size(0, data.len() - 1);
                    data[i] = (data[i] + 1) % 3;
                }
            }
        }
    }
    let codec = cheap_codec(g);
    let lam = g.below(3);
    let ad = mk_account(acct(pk), prog(owner), lam, data.clone(), 1, 1, codec);
    (pk, owner, data, ad)
}

fn c04_satisfies(g: &mut G) -> R {
    let ms = m_filters(g, 0, 8);
    let n = ms.len();
    let fs: Vec<AccountFilter> = ms.iter().map(|m| spell_filter(g, m)).collect();
    g.note(|| format!("filters {ms:?}"));
    let mut one = SimpleFilterStore::default();
    let batch = MutableFilterStore::default();
    let mut yes = 0;
    let mut no = 0;
    // filters arrive over time: check after every step against the filters so far
    let steps: Vec<usize> = (0..=n).collect();
    for k in steps {
        if k > 0 {
            one.add_account_filter(&fs[k - 1]);
            batch.add_account_filters(&vec![fs[k - 1].clone()]);
        }
        let rounds = if k == n { 8 } else { 1 };
        for _ in 0..rounds {
            let (pk, owner, data, ad) = gen_account(g, &ms[..k]);
            let expect = model_satisfies(&ms[..k], pk, owner, &data);
            if expect { yes += 1 } else { no += 1 }
            let trait_obj: &dyn AccountFiltersStoreInterface = &one;
            for (what, got) in [
                ("SimpleFilterStore::satisfies", trait_obj.satisfies(&ad)),
                ("SimpleFilterStore::satisfies_filter", one.satisfies_filter(&ad)),
                ("MutableFilterStore::satisfies", batch.satisfies(&ad)),
                ("MutableFilterStore::satisfies_filter", batch.satisfies_filter(&ad)),
            ] {
                ensure!("satisfies", got == expect, "{what} = {got}, expected {expect}: account a{pk} owner p{owner} data {data:?}, filters {:?}", &ms[..k]);
            }
            let listed = ms[..k].iter().any(|m| m.accounts.contains(&pk));
            ensure!("contains_account", one.contains_account(acct(pk)) == listed && batch.contains_account(acct(pk)) == listed, "contains_account(a{pk}) should be {listed}, filters {:?}", &ms[..k]);
        }
    }
    g.nontrivial = yes > 0 && no > 0;
    g.class_if(yes > 0, "accepted");
    g.class_if(no > 0, "rejected");
    Ok(())
}

/// filters are added from several threads while others match accounts and ask for filters
fn c04_concurrent(g: &mut G) -> R {
    let writers = g.size(1, 4);
    let mut shares: Vec<Vec<MFilter>> = vec![];
    for _ in 0..writers {
        let mut v = m_filters(g, 1, 12);
        v.truncate(20);
        shares.push(v);
    }
    let all: Vec<MFilter> = shares.iter().flatten().cloned().collect();
    g.note(|| format!("filters added by each thread: {shares:?}"));
    g.nontrivial = writers > 1;
    // per filter: its spelling and accounts in its scope
    let spelled: Vec<Vec<(AccountFilter, Vec<AccountData>)>> = shares
        .iter()
        .map(|v| {
            v.iter()
                .map(|m| {
                    let f = spell_filter(g, m);
                    let mut probes: Vec<AccountData> = vec![];
                    for a in &m.accounts {
                        probes.push(mk_account(acct(*a), prog(NPROG), 1, vec![], 1, 1, CompressionMethod::None));
                    }
                    if let Some(p) = m.program {
                        if let Some(d) = data_matching(g, m.conds.as_deref().unwrap_or(&[])) {
                            probes.push(mk_account(acct(NACC + 1), prog(p), 1, d, 1, 1, CompressionMethod::None));
                        }
                    }
                    (f, probes)
                })
                .collect()
        })
        .collect();
    let others: Vec<(AccountData, bool, String)> = (0..8)
        .map(|_| {
            let (pk, owner, data, ad) = gen_account(g, &all);
            (ad, model_satisfies(&all, pk, owner, &data), format!("account a{pk} owner p{owner} data {data:?}"))
        })
        .collect();
    let store = Arc::new(MutableFilterStore::default());
    let start = Arc::new(Barrier::new(writers + 2));
    let done = Arc::new(AtomicBool::new(false));
    let mut ws = vec![];
    for share in spelled.clone() {
        let (store, start) = (store.clone(), start.clone());
        ws.push(std::thread::spawn(move || -> R {
            start.wait();
            for k in 0..share.len() {
                store.add_account_filters(&vec![share[k].0.clone()]);
                // everything this thread has added is in effect
                for (f, probes) in &share[..=k] {
                    ensure!("added_contains", store.contains_filter(f), "{f:?} was added by this thread but is not contained");
                    for p in probes {
                        ensure!("added_satisfies", store.satisfies(p), "{f:?} was added by this thread but an account in its scope is rejected");
                    }
                }
            }
            Ok(())
        }));
    }
    let mut rs = vec![];
    for _ in 0..2 {
        let (store, start, done) = (store.clone(), start.clone(), done.clone());
        let others = others.clone();
        rs.push(std::thread::spawn(move || -> R {
            let mut seen = vec![false; others.len()];
            start.wait();
            while !done.load(Ordering::Relaxed) {
                for (i, (a, last, what)) in others.iter().enumerate() {
                    let got = store.satisfies(a);
                    ensure!("forgotten", got || !seen[i], "{what} was accepted before and is rejected now, although filters were only added");
                    ensure!("too_much", *last || !got, "{what} is accepted, but no filter admits it");
                    seen[i] |= got;
                }
            }
            Ok(())
        }));
    }
    let join = |h: std::thread::JoinHandle<R>| h.join().unwrap_or_else(|_| fail("concurrent_panic", "a thread panicked in the filter store".into()));
    let w: Vec<R> = ws.into_iter().map(join).collect();
    done.store(true, Ordering::Relaxed);
    let r: Vec<R> = rs.into_iter().map(join).collect();
    for x in w.into_iter().chain(r) {
        x?;
    }
    for (f, probes) in spelled.iter().flatten() {
        ensure!("lost_filter", store.contains_filter(f), "{f:?} was added but is not contained after all threads are done");
        for p in probes {
            ensure!("lost_filter", store.satisfies(p), "{f:?} was added but an account in its scope is rejected after all threads are done");
        }
    }
    for (a, want, what) in &others {
        ensure!("final", store.satisfies(a) == *want, "{what}: accepted {}, expected {want}", !want);
    }
    Ok(())
}

fn c05_sound(g: &mut G) -> R {
    let ms = m_filters(g, 1, 5);
    let fs: Vec<AccountFilter> = ms.iter().map(|m| spell_filter(g, m)).collect();
    let mut s = SimpleFilterStore::default();
    s.add_account_filters(&fs);
    let mu = MutableFilterStore::default();
    mu.add_account_filters(&fs);
    g.note(|| format!("stored {ms:?}"));
    for _ in 0..6 {
        // random query, often a mutation of a stored one
        let mut q = m_filter(g);
        if g.chance(2, 3) {
            let b = ms[g.size(0, ms.len() - 1)].clone();
            q.program = b.program;
            let mut cs = b.conds.unwrap_or_default();
            match g.below(4) {
                0 => {
                    if !cs.is_empty() {
                        let i = g.size(0, cs.len() - 1);
                        cs.remove(i);
                    }
                }
                1 => cs.push(small_cond(g)),
                2 => {
                    if !cs.is_empty() {
                        let i = g.size(0, cs.len() - 1);
                        cs[i] = small_cond(g);
                    }
                }
                _ => {}
            }
            q.conds = if g.chance(1, 8) { None } else { Some(cs) };
            q.accounts = if g.chance(1, 4) { b.accounts } else { vec![] };
        }
        let qf = spell_filter(g, &q);
        let yes = s.contains_filter(&qf);
        ensure!("agree", mu.contains_filter(&qf) == yes && s.contains_filter_internal(&qf) == yes, "stores disagree on {q:?}, stored {ms:?}");
        if !yes {
            g.class("not_contained");
            continue;
        }
        g.class("contained");
        // every account in the scope of the query must be accepted
        for a in &q.accounts {
            let owner = g.below(NPROG + 1);
            let d = small_data(g);
            let ad = mk_account(acct(*a), prog(owner), 1, d, 1, 1, CompressionMethod::None);
            ensure!("sound", s.satisfies_filter(&ad), "contains_filter({q:?}) is true but account a{a} is not accepted; stored {ms:?}");
        }
        if let Some(p) = q.program {
            let cs = q.conds.clone().unwrap_or_default();
            for _ in 0..4 {
                let Some(d) = data_matching(g, &cs) else { break };
                if !cs.is_empty() {
                    g.nontrivial = true;
                }
                let pk = g.below(NACC + 3);
                let ad = mk_account(acct(pk), prog(p), 1, d.clone(), 1, 1, CompressionMethod::None);
                ensure!("sound", s.satisfies_filter(&ad) && mu.satisfies(&ad), "contains_filter({q:?}) is true but an account of p{p} with data {d:?}, in scope of the query, is not accepted; stored {ms:?}");
            }
        }
    }
    Ok(())
}

fn c05_complete(g: &mut G) -> R {
    let ms = m_filters(g, 1, 5);
    let fs: Vec<AccountFilter> = ms.iter().map(|m| spell_filter(g, m)).collect();
    let mut s = SimpleFilterStore::default();
    s.add_account_filters(&fs);
    let mu = MutableFilterStore::default();
    for f in &fs {
        mu.add_account_filters(&vec![f.clone()]);
    }
    g.note(|| format!("stored {ms:?}"));
    for (i, m) in ms.iter().enumerate() {
        // verbatim
        ensure!("complete_verbatim", s.contains_filter(&fs[i]) && mu.contains_filter(&fs[i]), "filter {:?} was added but is not contained; stored {ms:?}", fs[i]);
        // re-spelled / strengthened
        let mut q = m.clone();
        let mut strengthened = false;
        if let Some(cs) = &mut q.conds {
            if g.bool() {
                let extra = g.size(1, 2);
                for _ in 0..extra {
                    cs.push(small_cond(g));
                }
                strengthened = true;
            }
            if g.chance(1, 4) && !cs.is_empty() {
                let d = cs[0].clone();
                cs.push(d);
            }
            g.shuffle(cs);
        } else if g.bool() {
            q.conds = Some(vec![small_cond(g)]);
            strengthened = true;
        }
        if g.chance(1, 3) {
            q.accounts.clear();
        }
        if g.chance(1, 6) && !q.accounts.is_empty() {
            q.program = None;
        }
        let qf = spell_filter(g, &q);
        g.class_if(strengthened, "strengthened");
        if qf != fs[i] {
            g.nontrivial = true;
        }
        g.note(|| format!("query {qf:?}"));
        ensure!("complete", s.contains_filter(&qf) && mu.contains_filter(&qf), "{m:?} was added, so the narrower or re-spelled query {qf:?} is covered, but contains_filter says no; stored {ms:?}");
    }
    Ok(())
}

fn c06_complement(g: &mut G) -> R {
    let ms = m_filters(g, 0, 6);
    let fs: Vec<AccountFilter> = ms.iter().map(|m| spell_filter(g, m)).collect();
    let mut ex = ExceptFilterStore::default();
    let mut si = SimpleFilterStore::default();
    for f in &fs {
        ex.add_account_filters(&vec![f.clone()]);
        si.add_account_filter(f);
    }
    g.note(|| format!("except {ms:?}"));
    let (mut yes, mut no) = (0, 0);
    for _ in 0..12 {
        let (pk, owner, data, ad) = gen_account(g, &ms);
        let expect = !model_satisfies(&ms, pk, owner, &data);
        let got = ex.satisfies(&ad);
        if expect { yes += 1 } else { no += 1 }
        ensure!("complement", got == expect, "ExceptFilterStore::satisfies = {got}, expected {expect}: a{pk} p{owner} {data:?}, exceptions {ms:?}");
        ensure!("partition", got != si.satisfies(&ad), "account a{pk} p{owner} {data:?} is accepted by {} of the two complementary stores", if got { "both" } else { "neither" });
    }
    g.nontrivial = yes > 0 && no > 0;
    // a query is contained exactly when nothing it names is excepted
    let keys: BTreeSet<u64> = ms.iter().flat_map(|m| m.accounts.iter().copied()).collect();
    let programs: BTreeSet<u64> = ms.iter().filter_map(|m| m.program).collect();
    let (mut held, mut not_held) = (0, 0);
    for _ in 0..10 {
        let na = g.weighted(&[4, 4, 2, 1]) as u64;
        let accounts: Vec<u64> = (0..na).map(|_| g.below(NACC + 2)).collect();
        let program = (na == 0 || g.chance(1, 3)).then(|| g.below(NPROG + 2));
        let conds: Option<Vec<Cond>> = match g.below(4) {
            0 => None,
            1 => Some(vec![]),
            // a list which is excepted
            2 if ms.iter().any(|m| m.conds.is_some()) => {
                let i = g.size(0, ms.len() - 1);
                ms[i].conds.clone()
            }
            _ => {
                let k = g.size(1, 3);
                Some((0..k).map(|_| small_cond(g)).collect())
            }
        };
        let q = AccountFilter {
            accounts: accounts.iter().map(|a| acct(*a)).collect(),
            program_id: program.map(prog),
            filters: conds.as_ref().map(|c| spell_all(g, c)),
        };
        let expect = !accounts.iter().any(|a| keys.contains(a)) && !program.map_or(false, |p| programs.contains(&p));
        if expect { held += 1 } else { not_held += 1 }
        ensure!("except_contains", ex.contains_filter(&q) == expect, "contains_filter(accounts {accounts:?}, program {program:?}, conditions {conds:?}) should be {expect} with exceptions {ms:?}");
    }
    g.class(match (held > 0, not_held > 0) { (true, true) => "both", (true, false) => "held_only", _ => "not_held_only" });
    Ok(())
}

#[allow(unused)]
fn _unused(_: MemcmpFilter, _: MemcmpFilterData) {}
