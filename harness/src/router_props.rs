//! R01: StorageByProgramId
use crate::feed::*;
use crate::gens::*;
use crate::store_props::{acc, prog};
use crate::tok::*;
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::AccountFilterType;
use lite_account_manager_common::account_store_interface::{AccountLoadingError, AccountStorageInterface};
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_account_storage::storage_by_program_id::StorageByProgramId;
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage;
use pbt::{ensure, fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R01",
        subs: vec![
            Sub::new("mock", 200000, 2000000, r01_mock),
            Sub::new("real", 60000, 600000, r01_real),
            Sub::new("one_store", 40000, 400000, r01_one_store),
        ],
        rule: "dispatch maps with 0-4 stores; updates, initial loads, notifications, reads, program queries and snapshots; mock: recording stores that answer unknown keys with None or with an error; real: token storage and account stores compared with stand-alone twins; one_store: several account stores behind the dispatcher compared with a single store of all programs (reads, program queries, notification results), including accounts that are removed and come back in another store; non-trivial = an account of a dispatched store and one of the default store were both read back and at least two stores were in the map",
        assumptions: &["mock, real: the owners an account has over time all belong to the scope of one store; one_store also moves accounts between stores, which is the known finding moved_between_stores"],
    }]
}

type Err = AccountLoadingError;

fn same_err(a: &Err, b: &Err) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

fn any_err(n: u64) -> Err {
    match n {
        0 => Err::AccountNotFound,
        1 => Err::ConfigDoesnotContainRequiredFilters,
        2 => Err::OperationTimeOut,
        3 => Err::WrongIndex,
        _ => Err::ShouldContainAnAccountFilter,
    }
}

/// a store that keeps one state per account and records what it was asked
struct Mock {
    scope: BTreeSet<Pubkey>,
    /// how an unknown key is answered: None, or an error
    unknown: Option<u64>,
    state: Mutex<MockState>,
}

#[derive(Default)]
struct MockState {
    accs: BTreeMap<Pubkey, (AccountData, Commitment)>,
    applied: Vec<(Pubkey, u64, Option<usize>)>,
    slots: Vec<(SlotInfo, usize)>,
    gpa: Vec<(Pubkey, Option<Vec<AccountFilterType>>, usize)>,
    snaps: Vec<Pubkey>,
    loads: Vec<(Pubkey, Vec<u8>)>,
}

impl Mock {
    fn accepts(&self, a: &AccountData) -> bool {
        self.scope.contains(&a.account.owner) || self.state.lock().unwrap().accs.contains_key(&a.pubkey)
    }
}

impl AccountStorageInterface for Mock {
    fn update_account(&self, a: AccountData, c: Commitment) -> bool {
        if !self.accepts(&a) {
            return false;
        }
        let mut s = self.state.lock().unwrap();
        s.applied.push((a.pubkey, a.write_version, Some(c as usize)));
        s.accs.insert(a.pubkey, (a, c));
        true
    }
    fn initilize_or_update_account(&self, a: AccountData) {
        let mut s = self.state.lock().unwrap();
        s.applied.push((a.pubkey, a.write_version, None));
        s.accs.insert(a.pubkey, (a, Commitment::Finalized));
    }
    fn get_account(&self, pk: Pubkey, c: Commitment) -> Result<Option<AccountData>, Err> {
        match self.state.lock().unwrap().accs.get(&pk) {
            Some((a, l)) if *l >= c && a.account.lamports > 0 => Ok(Some(a.clone())),
            Some(_) => Ok(None),
            None => match self.unknown {
                None => Ok(None),
                Some(e) => Err(any_err(e)),
            },
        }
    }
    fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, Err> {
        let mut s = self.state.lock().unwrap();
        s.gpa.push((p, f, c as usize));
        if !self.scope.contains(&p) {
            return Err(Err::ConfigDoesnotContainRequiredFilters);
        }
        Ok(s.accs.values().filter(|(a, l)| *l >= c && a.account.owner == p).map(|(a, _)| a.clone()).collect())
    }
    fn process_slot_data(&self, i: SlotInfo, c: Commitment) -> Vec<AccountData> {
        let mut s = self.state.lock().unwrap();
        s.slots.push((i, c as usize));
        let mut v = vec![];
        for (a, l) in s.accs.values_mut() {
            if a.updated_slot <= i.slot && *l < c {
                *l = c;
                v.push(a.clone());
            }
        }
        v
    }
    fn create_snapshot(&self, p: Pubkey) -> Result<Vec<u8>, Err> {
        self.state.lock().unwrap().snaps.push(p);
        if self.scope.contains(&p) {
            Ok(p.to_bytes().to_vec())
        } else {
            Err(Err::WrongIndex)
        }
    }
    fn load_from_snapshot(&self, p: Pubkey, b: Vec<u8>) -> Result<(), Err> {
        self.state.lock().unwrap().loads.push((p, b.clone()));
        if b.first() == Some(&0) {
            Err(Err::DeserializationIssues)
        } else {
            Ok(())
        }
    }
}

fn r01_mock(g: &mut G) -> R {
    let n = g.size(0, 4);
    // programs 0..n are dispatched, the next two belong to the default store, the last to nobody
    let mut mocks: Vec<Arc<Mock>> = vec![];
    for i in 0..=n {
        let scope: BTreeSet<Pubkey> = if i < n { [prog(i as u64)].into() } else { [prog(n as u64), prog(n as u64 + 1)].into() };
        let unknown = if g.chance(1, 3) { Some(g.below(5)) } else { None };
        mocks.push(Arc::new(Mock {
            scope,
            unknown,
            state: Mutex::new(MockState::default()),
        }));
    }
    g.note(|| {
        format!(
            "{n} dispatched stores, answers for unknown keys: {:?} (last is the default)",
            mocks.iter().map(|m| m.unknown.map(|e| format!("{:?}", any_err(e))).unwrap_or("None".into())).collect::<Vec<_>>()
        )
    });
    let map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> =
        (0..n).map(|i| (prog(i as u64), mocks[i].clone() as Arc<dyn AccountStorageInterface>)).collect();
    let router = StorageByProgramId::new(map, mocks[n].clone());
    let store_of = |p: &Pubkey| (0..n).find(|i| prog(*i as u64) == *p).unwrap_or(n);

    let mut home: BTreeMap<Pubkey, (usize, Pubkey)> = BTreeMap::new();
    let mut read_from: BTreeSet<bool> = BTreeSet::new();
    let mut wv = 0;
    let mut done = 0;
    while g.more(done, 4, 40) {
        done += 1;
        match g.weighted(&[6, 2, 5, 2, 2, 1, 1]) {
            0 | 1 => {
                // update or initial load
                wv += 1;
                let pk = acc(g.below(8));
                let init = g.chance(1, 4);
                let owner = match home.get(&pk) {
                    Some((_, o)) => *o,
                    None => prog(g.below(n as u64 + 3)),
                };
                let deleted = !init && home.contains_key(&pk) && g.chance(1, 6);
                let (o, lam) = if deleted { (Pubkey::default(), 0) } else { (owner, 1000 + wv) };
                let l = g.below(3) as usize;
                let a = mk_account(pk, o, lam, vec![1], 10 + wv, wv, CompressionMethod::None);
                g.note(|| format!("{} acc {} owner {} lamports {lam} {}", if init { "load" } else { "update" }, short(&pk), short(&o), cname(l)));
                let nobody = owner == prog(n as u64 + 2);
                let target = home.get(&pk).map(|h| h.0).unwrap_or_else(|| store_of(&owner));
                if init {
                    router.initilize_or_update_account(a);
                    // an initial load is never refused by a mock
                    home.insert(pk, (target, owner));
                } else {
                    let r = router.update_account(a, commitment(l));
                    let accepted = !nobody || home.contains_key(&pk);
                    ensure!("update_result", r == accepted, "update of {} of program {} returned {r}", short(&pk), short(&owner));
                    if accepted {
                        home.insert(pk, (target, owner));
                    }
                }
                for (i, m) in mocks.iter().enumerate() {
                    let applied: Vec<_> = m.state.lock().unwrap().applied.drain(..).collect();
                    let want: Vec<(Pubkey, u64, Option<usize>)> = if i == target && home.contains_key(&pk) {
                        vec![(pk, wv, (!init).then_some(l))]
                    } else {
                        vec![]
                    };
                    ensure!("update_routing", applied == want, "store {i} applied {applied:?}, expected {want:?} (store {target} holds the account)");
                }
            }
            2 => {
                let pk = acc(g.below(8));
                let c = commitment(g.below(3) as usize);
                let got = router.get_account(pk, c);
                g.note(|| format!("get {} at {c} -> {:?}", short(&pk), got.as_ref().map(|x| x.as_ref().map(|a| a.write_version))));
                match home.get(&pk) {
                    Some((i, _)) => {
                        let want = mocks[*i].get_account(pk, c).unwrap();
                        match got {
                            Ok(got) => ensure!(
                                "read_lost",
                                got == want,
                                "get_account of {} at {c} returned {:?}, store {i} which accepted it returns {:?}",
                                short(&pk),
                                got.map(|a| a.write_version),
                                want.map(|a| a.write_version)
                            ),
                            // the store knows the account but has nothing to return at this commitment: not judged
                            Err(e) => ensure!("read_error", want.is_none(), "get_account of {} failed with {e:?}, store {i} holds it", short(&pk)),
                        }
                        if want.is_some() {
                            read_from.insert(*i < n);
                        }
                    }
                    None => ensure!("read_phantom", !matches!(got, Ok(Some(_))), "get_account invented an account nobody holds"),
                }
            }
            3 => {
                let p = prog(g.below(n as u64 + 3));
                let c = commitment(g.below(3) as usize);
                let f = if g.bool() { Some(vec![AccountFilterType::Datasize(g.below(4))]) } else { None };
                let i = store_of(&p);
                let got = router.get_program_accounts(p, f.clone(), c);
                g.note(|| format!("program query {} {f:?} at {c}", short(&p)));
                for (k, m) in mocks.iter().enumerate() {
                    let asked: Vec<_> = m.state.lock().unwrap().gpa.drain(..).collect();
                    let want = if k == i { vec![(p, f.clone(), c as usize)] } else { vec![] };
                    ensure!("gpa_routing", asked == want, "program query {} went to store {k} as {asked:?}", short(&p));
                }
                let want = mocks[i].get_program_accounts(p, f, c);
                mocks[i].state.lock().unwrap().gpa.clear();
                match (got, want) {
                    (Ok(a), Ok(b)) => ensure!("gpa_result", a == b, "program query result differs from the store's"),
                    (Err(a), Err(b)) => ensure!("gpa_error", same_err(&a, &b), "program query failed with {a:?} instead of {b:?}"),
                    (a, b) => return fail("gpa_result", format!("program query: ok={} store ok={}", a.is_ok(), b.is_ok())),
                }
            }
            4 => {
                let info = SlotInfo {
                    slot: 10 + g.below(wv + 3),
                    parent: g.below(20),
                    root: g.below(5),
                };
                let l = g.below(3) as usize;
                let before: Vec<BTreeMap<Pubkey, (AccountData, Commitment)>> = mocks.iter().map(|m| m.state.lock().unwrap().accs.clone()).collect();
                let got = router.process_slot_data(info, commitment(l));
                g.note(|| format!("notify slot {} {} -> {} accounts", info.slot, cname(l), got.len()));
                let mut want = vec![];
                for (k, m) in mocks.iter().enumerate() {
                    let asked: Vec<_> = m.state.lock().unwrap().slots.drain(..).collect();
                    ensure!(
                        "slot_routing",
                        asked.len() == 1 && asked[0].0.slot == info.slot && asked[0].0.parent == info.parent && asked[0].0.root == info.root && asked[0].1 == l,
                        "store {k} got notifications {asked:?} instead of exactly {info:?}"
                    );
                    for (a, lv) in before[k].values() {
                        if a.updated_slot <= info.slot && *lv < commitment(l) {
                            want.push(a.clone());
                        }
                    }
                }
                ensure!("slot_result", multiset(&got) == multiset(&want), "notification returned {} accounts, the stores {}", got.len(), want.len());
            }
            5 => {
                let p = prog(g.below(n as u64 + 3));
                let i = store_of(&p);
                let got = router.create_snapshot(p);
                for (k, m) in mocks.iter().enumerate() {
                    let asked: Vec<_> = m.state.lock().unwrap().snaps.drain(..).collect();
                    ensure!("snapshot_routing", asked == if k == i { vec![p] } else { vec![] }, "snapshot of {} asked from store {k}: {asked:?}", short(&p));
                }
                let scope = mocks[i].scope.contains(&p);
                ensure!(
                    "snapshot_result",
                    match &got {
                        Ok(b) => scope && *b == p.to_bytes().to_vec(),
                        Err(e) => !scope && same_err(e, &Err::WrongIndex),
                    },
                    "snapshot of {} returned {got:?}",
                    short(&p)
                );
            }
            _ => {
                let p = prog(g.below(n as u64 + 3));
                let i = store_of(&p);
                let k = g.size(1, 3);
                let b: Vec<u8> = (0..k).map(|_| g.below(2) as u8).collect();
                let got = router.load_from_snapshot(p, b.clone());
                for (k, m) in mocks.iter().enumerate() {
                    let asked: Vec<_> = m.state.lock().unwrap().loads.drain(..).collect();
                    ensure!("load_routing", asked == if k == i { vec![(p, b.clone())] } else { vec![] }, "snapshot load went to store {k}: {asked:?}");
                }
                ensure!("load_result", got.is_ok() == (b[0] != 0), "snapshot load returned {got:?}");
            }
        }
    }
    g.nontrivial = n >= 2 && read_from.len() == 2;
    g.class_if(n == 0, "no_dispatch");
    g.class_if(read_from.contains(&true), "read_dispatched");
    Ok(())
}

fn mem_store(programs: &[Pubkey]) -> Arc<InmemoryAccountStore> {
    let mut f = RefFilters::default();
    f.all.extend(programs.iter().cloned());
    let mut s = SimpleFilterStore::default();
    s.add_account_filters(&f.build());
    Arc::new(InmemoryAccountStore::new(Arc::new(s)))
}

fn token_store() -> Arc<TokenProgramAccountsStorage> {
    Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())))
}

/// comparable form of what a store returned (token stores invent some fields, both sides in the same way)
fn view(a: &AccountData) -> (Pubkey, u64, u64, Pubkey, Vec<u8>) {
    (a.pubkey, a.updated_slot, a.account.lamports, a.account.owner, a.account.data.data())
}

fn r01_real(g: &mut G) -> R {
    // token storage for both token programs, account stores for some programs, an account store as default
    let with_token = g.chance(3, 4);
    let n = g.size(if with_token { 0 } else { 1 }, 2);
    let mut routed: Vec<(Vec<Pubkey>, Arc<dyn AccountStorageInterface>, Arc<dyn AccountStorageInterface>)> = vec![];
    if with_token {
        routed.push((vec![spl_token::id(), spl_token_2022::id()], token_store(), token_store()));
    }
    for i in 0..n {
        let p = [prog(i as u64)];
        routed.push((p.to_vec(), mem_store(&p), mem_store(&p)));
    }
    let others = [prog(2), prog(3)];
    let default: (Arc<dyn AccountStorageInterface>, Arc<dyn AccountStorageInterface>) = (mem_store(&others), mem_store(&others));
    let mut map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new();
    for (ps, a, _) in &routed {
        for p in ps {
            map.insert(*p, a.clone());
        }
    }
    let router = StorageByProgramId::new(map, default.0.clone());
    let twin = |i: usize| if i < routed.len() { routed[i].2.clone() } else { default.1.clone() };
    g.note(|| format!("token storage: {with_token}, account stores for {n} programs, default for 2 programs"));
    let mut slots = Slots::new(100);
    let mut home: BTreeMap<Pubkey, usize> = BTreeMap::new();
    let mut read_from: BTreeSet<bool> = BTreeSet::new();
    let mut wv = 0;
    let mut done = 0;
    while g.more(done, 6, 30) {
        done += 1;
        if g.chance(1, 3) {
            if g.chance(1, 2) {
                slots.grow(g, 20);
            }
            let live: Vec<usize> = (1..slots.v.len()).collect();
            if live.is_empty() {
                continue;
            }
            let i = *g.pick(&live);
            let l = g.below(3) as usize;
            if !slots.can_notify(i, l) {
                continue;
            }
            let info = slots.info(i);
            slots.notify(i, l);
            g.note(|| format!("notify slot {} parent {} {}", info.slot, info.parent, cname(l)));
            let got = router.process_slot_data(info, commitment(l));
            let mut want = vec![];
            for k in 0..=routed.len() {
                // the token storage is in the map once per token program
                let times = if k < routed.len() { routed[k].0.len() } else { 1 };
                for _ in 0..times {
                    want.extend(twin(k).process_slot_data(info, commitment(l)));
                }
            }
            let (mut a, mut b): (Vec<_>, Vec<_>) = (got.iter().map(view).collect(), want.iter().map(view).collect());
            a.sort();
            a.dedup();
            b.sort();
            b.dedup();
            ensure!("slot_result", a == b, "notification of slot {} {} returned {} accounts, the stores {}", info.slot, cname(l), a.len(), b.len());
        } else {
            wv += 1;
            let live: Vec<usize> = slots.live();
            let i = if live.is_empty() { slots.grow(g, 0) } else { *g.pick(&live) };
            if slots.num(i) <= slots.fnum() {
                continue;
            }
            let fam = g.below(routed.len() as u64 + 1) as usize;
            let k = g.below(3);
            let deleted = g.chance(1, 6);
            let l = if g.chance(1, 8) { 2 } else { 0 };
            let a = if fam == 0 && with_token {
                let spec = match k {
                    0 => TokSpec::mint(if g.bool() { 0 } else { 1 }, g),
                    _ => TokSpec::token(0, mint_key(0, g.below(2)), owner_key(g.below(2)), g),
                };
                let pk = key(30 + spec.kind() as u8 * 2, k);
                spec.account(pk, deleted, slots.num(i), wv)
            } else {
                let p = if fam < routed.len() { routed[fam].0[0] } else { *g.pick(&others) };
                let pk = key(40 + fam as u8, k);
                let owner = if deleted { Pubkey::default() } else { p };
                mk_account(pk, owner, if deleted { 0 } else { 1000 + wv }, vec![wv as u8], slots.num(i), wv, CompressionMethod::None)
            };
            let pk = a.pubkey;
            g.note(|| format!("update acc {} (store {fam}) slot {} wv {wv} lamports {} {}", short(&pk), a.updated_slot, a.account.lamports, cname(l)));
            let r = router.update_account(a.clone(), commitment(l));
            let want = twin(fam).update_account(a.clone(), commitment(l));
            ensure!("update_result", r == want, "update returned {r}, the store {want}");
            if want {
                home.insert(pk, fam);
            }
        }
        for (pk, i) in &home {
            for l in 0..3 {
                let got = router.get_account(*pk, commitment(l)).ok().flatten();
                let want = twin(*i).get_account(*pk, commitment(l)).ok().flatten();
                if want.is_some() {
                    read_from.insert(*i < routed.len());
                }
                ensure!(
                    "read_lost",
                    got.as_ref().map(view) == want.as_ref().map(view),
                    "get_account of {} at {} differs from store {i}: {:?} vs {:?}",
                    short(pk),
                    cname(l),
                    got.map(|a| (a.updated_slot, a.account.lamports)),
                    want.map(|a| (a.updated_slot, a.account.lamports))
                );
            }
        }
    }
    g.nontrivial = read_from.len() == 2 && routed.len() >= 2;
    Ok(())
}

/// the dispatcher over several stores against one store of all programs
fn r01_one_store(g: &mut G) -> R {
    // homes: routed stores (the first one may serve two programs), then the default store
    let shared = g.bool();
    let homes: Vec<Vec<Pubkey>> = if shared {
        vec![vec![prog(0), prog(4)], vec![prog(1)], vec![prog(2), prog(3)]]
    } else {
        vec![vec![prog(0)], vec![prog(1)], vec![prog(2), prog(3)]]
    };
    let stores: Vec<Arc<InmemoryAccountStore>> = homes.iter().map(|p| mem_store(p)).collect();
    let mut map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new();
    for (h, ps) in homes.iter().enumerate().take(2) {
        for p in ps {
            map.insert(*p, stores[h].clone());
        }
    }
    let router = StorageByProgramId::new(map, stores[2].clone());
    let all: Vec<Pubkey> = homes.iter().flatten().cloned().collect();
    let one = mem_store(&all);
    let home_of = |p: &Pubkey| homes.iter().position(|h| h.contains(p));
    let n = g.range(2, 6) as usize;
    let mobile: Vec<bool> = (0..n).map(|_| g.chance(1, 4)).collect();
    let mut home: Vec<usize> = (0..n).map(|_| g.below(3) as usize).collect();
    let mut moved: BTreeSet<Pubkey> = BTreeSet::new();
    let mut known: Option<String> = None;
    let mut slots = Slots::new(100);
    let mut wv = 0u64;
    let mut came_back = false;
    let mut removed: BTreeSet<Pubkey> = BTreeSet::new();
    let mut read_homes: BTreeSet<usize> = BTreeSet::new();
    g.note(|| format!("stores for {:?}, account homes {home:?}, mobile {mobile:?}", homes.iter().map(|h| h.iter().map(short).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let mut done = 0;
    while g.more(done, 4, 40) {
        done += 1;
        match g.weighted(&[4, 3]) {
            0 => {
                wv += 1;
                let live: Vec<usize> = slots.live();
                let i = if live.is_empty() || g.chance(1, 4) { slots.grow(g, 15) } else { *g.pick(&live) };
                if slots.num(i) <= slots.fnum() {
                    continue;
                }
                let a = g.below(n as u64) as usize;
                let pk = acc(a as u64);
                let held = one.account_store_contains_key(&pk);
                if !held && removed.contains(&pk) && !moved.contains(&pk) {
                    // closed for good: it may come back in any store
                    home[a] = g.below(3) as usize;
                    came_back = true;
                    g.class("came_back");
                }
                let deleted = g.chance(1, 4);
                let h = if mobile[a] && g.chance(1, 3) { g.below(3) as usize } else { home[a] };
                let owner = *g.pick(&homes[h]);
                let owner = if deleted && g.bool() { Pubkey::default() } else { owner };
                if let Some(h) = home_of(&owner) {
                    if held && h != home[a] {
                        moved.insert(pk);
                    }
                    home[a] = h;
                }
                let level = if g.chance(1, 10) { 2 } else { 0 };
                let initial = level == 2 && owner != Pubkey::default() && g.bool();
                let data = mk_account(pk, owner, if deleted { 0 } else { 1000 + wv }, vec![wv as u8], slots.num(i), wv, CompressionMethod::None);
                g.note(|| format!("{} acc {a} owner {} lamports {} slot {} wv {wv} {}", if initial { "initialize" } else { "update" }, short(&owner), data.account.lamports, slots.num(i), cname(level)));
                if initial {
                    router.initilize_or_update_account(data.clone());
                    one.initilize_or_update_account(data);
                } else {
                    let got = router.update_account(data.clone(), commitment(level));
                    let want = one.update_account(data, commitment(level));
                    if got != want && !moved.contains(&pk) {
                        return fail("one_update", format!("update of acc {a} returned {got}, a single store {want}"));
                    }
                }
            }
            _ => {
                if g.bool() {
                    slots.grow(g, 15);
                }
                let l = g.weighted(&[1, 2, 2]);
                let c: Vec<usize> = (1..slots.v.len()).filter(|i| slots.can_notify(*i, l)).collect();
                if c.is_empty() {
                    continue;
                }
                let i = if g.chance(2, 3) { c[0].max(*g.pick(&c)) } else { *g.pick(&c) };
                let info = slots.info(i);
                slots.notify(i, l);
                g.note(|| format!("notify slot {} parent {} {}", info.slot, info.parent, cname(l)));
                let got = router.process_slot_data(info, commitment(l));
                let want = one.process_slot_data(info, commitment(l));
                let keep = |v: Vec<AccountData>| {
                    let mut v: Vec<_> = v.iter().filter(|a| !moved.contains(&a.pubkey)).map(view).collect();
                    v.sort();
                    v
                };
                let (mut got, mut want) = (keep(got), keep(want));
                if shared {
                    // a store that is in the map for two programs is asked twice
                    got.dedup();
                    want.dedup();
                }
                ensure!("one_slot_result", got == want, "notification of slot {} {} returned {} accounts, a single store {}", info.slot, cname(l), got.len(), want.len());
            }
        }
        for a in 0..n {
            let pk = acc(a as u64);
            if !one.account_store_contains_key(&pk) {
                removed.insert(pk);
            }
            for l in 0..3 {
                let got = router.get_account(pk, commitment(l)).ok().flatten();
                let want = one.get_account(pk, commitment(l)).ok().flatten();
                if got.as_ref().map(view) != want.as_ref().map(view) {
                    let m = format!(
                        "get_account of acc {a} at {} returned {:?}, a single store {:?}",
                        cname(l),
                        got.map(|a| (a.updated_slot, a.account.lamports)),
                        want.map(|a| (a.updated_slot, a.account.lamports))
                    );
                    if moved.contains(&pk) {
                        known.get_or_insert(m);
                    } else {
                        return fail("one_read", m);
                    }
                } else if got.is_some() {
                    read_homes.insert(home[a]);
                }
            }
        }
        let p = *g.pick(&all);
        let l = g.below(3) as usize;
        let list = |r: Result<Vec<AccountData>, Err>| -> Result<Vec<_>, Err> {
            r.map(|v| {
                let mut v: Vec<_> = v.iter().filter(|a| !moved.contains(&a.pubkey)).map(view).collect();
                v.sort();
                v
            })
        };
        let got = list(router.get_program_accounts(p, None, commitment(l)));
        let want = list(one.get_program_accounts(p, None, commitment(l)));
        ensure!(
            "one_gpa",
            matches!((&got, &want), (Ok(a), Ok(b)) if a == b),
            "query of program {} at {} returned {:?}, a single store {:?}",
            short(&p),
            cname(l),
            got.map(|v| v.iter().map(|a| (short(&a.0), a.1)).collect::<Vec<_>>()).ok(),
            want.map(|v| v.iter().map(|a| (short(&a.0), a.1)).collect::<Vec<_>>()).ok()
        );
    }
    g.nontrivial = read_homes.len() >= 2 && (came_back || read_homes.len() == 3);
    if let Some(m) = known {
        return fail("moved_between_stores", m);
    }
    Ok(())
}
