//! D01-D03: accounts loaded on demand
use crate::feed::*;
use crate::gens::*;
use crate::store_props::{acc, prog};
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters, MemcmpFilterData};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::{AccountLoadingError, AccountStorageInterface};
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use pbt::{ensure, fail, Fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

const DOMAIN: &[&str] = &[
    "the source is a stand-in that holds a generated set of accounts and records what it is asked; the storage is the in-memory account store sharing the mutable filters",
    "the source delivers every change of an account to the storage, which decides by its filters",
    "condition lists are not empty; a query that is covered only because of the meaning of its conditions (not because it contains all conditions of a loaded filter) may or may not be loaded again",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            subs: vec![Sub::new("history", 200000, 2000000, d01)],
            rule: "histories of queries for existing and missing accounts and programs (conditions in any encoding and order), account changes (also during a load, before the older snapshot arrives) and slot notifications; every answer compared with what the source holds and every contact with the source with what may be asked; non-trivial = an answer came from a load and a later one was served without contact",
            assumptions: DOMAIN,
        },
        Prop {
            id: "D02",
            subs: vec![Sub::new("faults", 200000, 2000000, d02)],
            rule: "the same histories with failing subscriptions and snapshots (none, some or all accounts delivered before the failure); non-trivial = a query failed and the same or a covered query was answered later",
            assumptions: DOMAIN,
        },
        Prop {
            id: "D03",
            subs: vec![Sub::new("during", 4000, 40000, d03_during), Sub::serial("parallel", 2500, 25000, d03_parallel)],
            rule: "(during) while the source handles a call, threads issue the same query (any spelling), narrower ones, queries for other data and updates; (parallel) 2-5 threads issue random queries over a source that takes its time; non-trivial = a same query was issued during a load (during) / two threads asked for the same data in overlapping calls and one contact served both (parallel)",
            assumptions: &[
                "the source is a stand-in as in D01",
                "an account query that finds its account in the storage may answer before the load of that account has ended",
                "interleavings are sampled, not enumerated",
            ],
        },
    ]
}

type Progs = Vec<(Pubkey, Option<BTreeSet<Cond>>)>;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Call {
    SubAcc(BTreeSet<Pubkey>),
    SubProg(Pubkey, Option<BTreeSet<Cond>>),
    /// listed keys, programs; were the filters registered when the snapshot was requested
    Snap(BTreeSet<Pubkey>, Progs, bool),
}

fn decode(f: &AccountFilterType) -> Cond {
    use base64::Engine;
    match f {
        AccountFilterType::Datasize(n) => Cond::Size(*n),
        AccountFilterType::Memcmp(m) => Cond::Mem(
            m.offset,
            match &m.data {
                MemcmpFilterData::Bytes(b) => b.clone(),
                MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().unwrap_or_default(),
                MemcmpFilterData::Base64(s) => base64::engine::general_purpose::STANDARD.decode(s).unwrap_or_default(),
            },
        ),
    }
}
fn decode_all(f: &Option<Vec<AccountFilterType>>) -> Option<BTreeSet<Cond>> {
    f.as_ref().map(|v| v.iter().map(decode).collect())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fault {
    None,
    Subscribe,
    /// the snapshot fails after delivering 0 = none, 1 = some, 2 = all accounts
    Snapshot(u8),
    /// as Subscribe and Snapshot, with a panic
    SubscribePanic,
    SnapshotPanic(u8),
}

impl Fault {
    fn at_subscription(self) -> bool {
        matches!(self, Fault::Subscribe | Fault::SubscribePanic)
    }
    fn at_snapshot(self) -> Option<u8> {
        match self {
            Fault::Snapshot(n) | Fault::SnapshotPanic(n) => Some(n),
            _ => None,
        }
    }
    fn panics(self) -> bool {
        matches!(self, Fault::SubscribePanic | Fault::SnapshotPanic(_))
    }
    fn panicking(self) -> Fault {
        match self {
            Fault::Subscribe => Fault::SubscribePanic,
            Fault::Snapshot(n) => Fault::SnapshotPanic(n),
            x => x,
        }
    }
    fn fail(self, what: &str) -> anyhow::Result<()> {
        if self.panics() {
            // without a message
            std::panic::resume_unwind(Box::new("source panics"));
        }
        anyhow::bail!("{what}")
    }
}

type Hook = Box<dyn FnMut(&Source, &'static str) + Send>;

struct Source {
    world: Mutex<BTreeMap<Pubkey, St>>,
    log: Mutex<Vec<Call>>,
    fault: Mutex<Fault>,
    filters: Arc<MutableFilterStore>,
    hook: Mutex<Option<Hook>>,
    /// updates sent to the storage while a snapshot is under way, after the source has read its accounts
    during: Mutex<Vec<(Pubkey, St)>>,
    pace: Option<Arc<AtomicU64>>,
}

impl Source {
    fn new(filters: Arc<MutableFilterStore>) -> Source {
        Source {
            world: Default::default(),
            log: Default::default(),
            fault: Mutex::new(Fault::None),
            filters,
            hook: Mutex::new(None),
            during: Default::default(),
            pace: None,
        }
    }
    fn run_hook(&self, at: &'static str) {
        let h = self.hook.lock().unwrap().take();
        if let Some(mut h) = h {
            h(self, at);
            *self.hook.lock().unwrap() = Some(h);
        }
    }
    fn nap(&self) {
        if let Some(p) = &self.pace {
            let n = p.fetch_add(1, Ordering::Relaxed);
            match n % 3 {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(Duration::from_micros(50 + n % 200)),
                _ => std::thread::sleep(Duration::from_micros(400)),
            }
        }
    }
}

fn data_of(pk: Pubkey, s: &St) -> AccountData {
    mk_account(pk, s.owner, s.lamports, s.data.clone(), s.slot, s.wv, CompressionMethod::None)
}

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        self.log.lock().unwrap().push(Call::SubAcc(account.into_iter().collect()));
        self.nap();
        self.run_hook("subscribe");
        let fault = *self.fault.lock().unwrap();
        if fault.at_subscription() {
            return fault.fail("subscription refused");
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.log.lock().unwrap().push(Call::SubProg(program_id, decode_all(&filters)));
        self.nap();
        self.run_hook("subscribe");
        let fault = *self.fault.lock().unwrap();
        if fault.at_subscription() {
            return fault.fail("subscription refused");
        }
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        let keys: BTreeSet<Pubkey> = account_filters.iter().flat_map(|f| f.accounts.iter().cloned()).collect();
        let progs: Progs = account_filters
            .iter()
            .filter_map(|f| f.program_id.map(|p| (p, decode_all(&f.filters))))
            .collect();
        let registered = account_filters.iter().all(|f| self.filters.contains_filter(f));
        self.log.lock().unwrap().push(Call::Snap(keys.clone(), progs.clone(), registered));
        let picked: Vec<(Pubkey, St)> = self
            .world
            .lock()
            .unwrap()
            .iter()
            .filter(|(k, s)| {
                !s.deleted()
                    && (keys.contains(k)
                        || progs
                            .iter()
                            .any(|(p, cs)| *p == s.owner && cs.iter().flatten().all(|c| c.holds(&s.data))))
            })
            .map(|(k, s)| (*k, s.clone()))
            .collect();
        for (k, s) in self.during.lock().unwrap().drain(..) {
            storage.update_account(data_of(k, &s), commitment(2));
            self.world.lock().unwrap().insert(k, s);
        }
        self.run_hook("snapshot");
        let fault = *self.fault.lock().unwrap();
        let upto = match fault.at_snapshot() {
            Some(0) => 0,
            Some(1) => picked.len() / 2,
            _ => picked.len(),
        };
        for (i, (k, s)) in picked.iter().take(upto).enumerate() {
            storage.initilize_or_update_account(data_of(*k, s));
            if i == 0 {
                self.nap();
                self.run_hook("delivering");
            }
        }
        if fault.at_snapshot().is_some() {
            return fault.fail("snapshot failed");
        }
        Ok(())
    }
}

struct Sys {
    source: Arc<Source>,
    aod: Arc<AccountsOnDemand>,
    slot: u64,
    wv: u64,
    /// filters loaded successfully, or configured and filled from the beginning
    good: RefFilters,
    configured: RefFilters,
    /// filters whose load failed so far
    bad: RefFilters,
    /// accounts the storage must have / may have
    must: BTreeSet<Pubkey>,
    may: BTreeSet<Pubkey>,
}

#[derive(Clone, Debug, PartialEq)]
enum Query {
    Acc(Pubkey),
    Prog(Pubkey, Option<Vec<Cond>>),
}

fn cond_brief(cs: &Option<Vec<Cond>>) -> String {
    match cs {
        None => "everything".into(),
        Some(v) => format!("{v:?}"),
    }
}

impl Query {
    fn brief(&self) -> String {
        match self {
            Query::Acc(k) => format!("account {}", short(k)),
            Query::Prog(p, c) => format!("program {} {}", short(p), cond_brief(c)),
        }
    }
}

const PROGS: u64 = 2;
const ACCS: u64 = 6;

fn gen_state(g: &mut G, slot: u64, wv: u64) -> St {
    St {
        slot,
        wv,
        owner: prog(g.below(PROGS + 1)),
        lamports: if g.chance(1, 6) { 0 } else { 100 + wv },
        data: small_data(g),
    }
}

fn gen_conds(g: &mut G) -> Vec<Cond> {
    let n = if g.chance(1, 6) { g.size(3, 4) } else { g.size(1, 2) };
    (0..n)
        .map(|_| {
            // conditions that hold often
            match g.below(3) {
                0 => Cond::Size(g.below(4)),
                1 => Cond::Mem(0, vec![g.below(2) as u8]),
                _ => Cond::Mem(1, vec![g.below(2) as u8]),
            }
        })
        .collect()
}

impl Sys {
    fn new(g: &mut G) -> Sys {
        Sys::with(g, |s| s)
    }
    fn with(g: &mut G, f: impl FnOnce(Source) -> Source) -> Sys {
        let filters = Arc::new(MutableFilterStore::default());
        let source = Arc::new(f(Source::new(filters.clone())));
        let store = Arc::new(InmemoryAccountStore::new(filters.clone()));
        let aod = Arc::new(AccountsOnDemand::new(source.clone(), filters.clone(), store));
        let mut s = Sys {
            source,
            aod,
            slot: 100,
            wv: 0,
            good: RefFilters::default(),
            configured: RefFilters::default(),
            bad: RefFilters::default(),
            must: BTreeSet::new(),
            may: BTreeSet::new(),
        };
        // accounts the source has from the beginning
        for i in 0..ACCS {
            if g.chance(3, 4) {
                s.wv += 1;
                let slot = 90 + g.below_small();
                let st = gen_state(g, slot, s.wv);
                g.note(|| format!("source holds {} {}", short(&acc(i)), show(&Some(st.clone()))));
                s.source.world.lock().unwrap().insert(acc(i), st);
            }
        }
        // filters that are tracked from the beginning
        if g.chance(1, 3) {
            match g.below(3) {
                0 => {
                    s.configured.keys.insert(acc(g.below(ACCS)));
                }
                1 => {
                    s.configured.all.insert(prog(g.below(PROGS)));
                }
                _ => {
                    let c = gen_conds(g);
                    s.configured.conds.push((prog(g.below(PROGS)), c));
                }
            }
            g.note(|| format!("configured: {:?}", s.configured));
            filters.add_account_filters(&s.configured.build());
            for (k, st) in s.source.world.lock().unwrap().iter() {
                if !st.deleted() && s.configured.satisfies(k, st) {
                    s.aod.initilize_or_update_account(data_of(*k, st));
                    s.must.insert(*k);
                    s.may.insert(*k);
                }
            }
            s.good = s.configured.clone();
        }
        s
    }

    fn change(&mut self, g: &mut G) {
        self.wv += 1;
        let k = acc(g.below(ACCS));
        let direct = g.bool();
        if !direct || g.chance(1, 3) {
            self.slot += 1;
        }
        let st = gen_state(g, self.slot, self.wv);
        g.note(|| format!("change {} to {}{}", short(&k), show(&Some(st.clone())), if direct { " (finalized)" } else { "" }));
        self.source.world.lock().unwrap().insert(k, st.clone());
        let a = data_of(k, &st);
        if direct {
            self.aod.update_account(a, commitment(2));
        } else {
            self.aod.update_account(a, commitment(0));
            let info = SlotInfo {
                slot: self.slot,
                parent: self.slot - 1,
                root: self.slot - self.slot % 7,
            };
            for l in 0..3 {
                if l == 2 || g.bool() {
                    self.aod.process_slot_data(info, commitment(l));
                }
            }
        }
        self.admit(k, &st);
    }

    /// a change that is read before it is finalized: what is tracked is answered from storage at every commitment
    fn change_slowly(&mut self, g: &mut G) -> R {
        let k = acc(g.below(ACCS));
        let owners: Vec<Pubkey> = (0..PROGS).map(prog).filter(|p| self.good.all.contains(p)).collect();
        self.wv += 1;
        let mut st = gen_state(g, self.slot + 1, self.wv);
        if !owners.is_empty() {
            st.owner = *g.pick(&owners);
        }
        if st.deleted() || !self.good.satisfies(&k, &st) {
            self.wv -= 1;
            return Ok(());
        }
        self.slot += 1;
        g.class("read_unfinalized");
        g.note(|| format!("change {} to {}, read before it is finalized", short(&k), show(&Some(st.clone()))));
        self.source.world.lock().unwrap().insert(k, st.clone());
        self.source.log.lock().unwrap().clear();
        *self.source.fault.lock().unwrap() = Fault::None;
        self.source.during.lock().unwrap().clear();
        self.aod.update_account(data_of(k, &st), commitment(0));
        let info = SlotInfo { slot: self.slot, parent: self.slot - 1, root: self.slot - self.slot % 7 };
        for l in 0..3 {
            if l > 0 || g.bool() {
                self.aod.process_slot_data(info, commitment(l));
            }
            // states of lower commitments stay readable
            let at = g.below(l as u64 + 1) as usize;
            let got = self.aod.get_account(k, commitment(at));
            let got = match got {
                Ok(Some(a)) => answer(&[a], &Query::Acc(k))?,
                Ok(None) => return fail("unfinalized", format!("{} is missing at {} although its slot is {}", short(&k), cname(at), cname(l))),
                Err(e) => return fail("error", format!("read of {} at {} failed with {e:?}", short(&k), cname(at))),
            };
            ensure!("unfinalized", got.get(&k) == Some(&st), "read of {} at {} returned {:?}", short(&k), cname(at), brief(&got));
            let log = self.source.log.lock().unwrap().clone();
            ensure!("asked_again", log.is_empty(), "read of {} at {} contacted the source although it is tracked: {log:?}", short(&k), cname(at));
        }
        self.admit(k, &st);
        Ok(())
    }

    fn admit(&mut self, k: Pubkey, st: &St) {
        if st.deleted() {
            self.must.remove(&k);
            self.may.remove(&k);
            return;
        }
        // a tracked account that left the scope of all filters is dropped
        if self.good.satisfies(&k, st) {
            self.must.insert(k);
        } else {
            self.must.remove(&k);
        }
        if self.good.satisfies(&k, st) || self.bad.satisfies(&k, st) {
            self.may.insert(k);
        } else {
            self.may.remove(&k);
        }
    }

    fn gen_query(&self, g: &mut G) -> Query {
        if g.bool() {
            Query::Acc(acc(g.below(ACCS + 1)))
        } else {
            let p = prog(g.below(PROGS + 1));
            // a fresh list, none, or an earlier one made narrower
            match g.weighted(&[2, 1, 2]) {
                0 => Query::Prog(p, Some(gen_conds(g))),
                1 => Query::Prog(p, None),
                _ => {
                    let known: Vec<&(Pubkey, Vec<Cond>)> = self.good.conds.iter().chain(self.bad.conds.iter()).collect();
                    if known.is_empty() {
                        return Query::Prog(p, None);
                    }
                    let (p, mut cs) = (*g.pick(&known)).clone();
                    if g.bool() {
                        cs.extend(gen_conds(g));
                    }
                    g.shuffle(&mut cs);
                    Query::Prog(p, Some(cs))
                }
            }
        }
    }

    /// the answer if everything is loaded
    fn truth(&self, q: &Query) -> BTreeMap<Pubkey, St> {
        truth(&self.source.world.lock().unwrap(), q)
    }

    fn failed_covers(&self, q: &Query) -> bool {
        match q {
            Query::Acc(k) => self.bad.keys.contains(k),
            Query::Prog(p, cs) => !self.bad.certainly_uncovered(p, cs.as_deref()),
        }
    }
}

trait Small {
    fn below_small(&mut self) -> u64;
}
impl Small for G {
    fn below_small(&mut self) -> u64 {
        self.below(5)
    }
}

fn truth(world: &BTreeMap<Pubkey, St>, q: &Query) -> BTreeMap<Pubkey, St> {
    world
        .iter()
        .filter(|(k, s)| {
            !s.deleted()
                && match q {
                    Query::Acc(a) => *k == a,
                    Query::Prog(p, cs) => s.owner == *p && cs.iter().flatten().all(|c| c.holds(&s.data)),
                }
        })
        .map(|(k, s)| (*k, s.clone()))
        .collect()
}

fn ask(aod: &AccountsOnDemand, q: &Query, filters: &Option<Vec<AccountFilterType>>, l: usize) -> Result<Vec<AccountData>, AccountLoadingError> {
    match q {
        Query::Acc(k) => aod.get_account(*k, commitment(l)).map(|x| x.into_iter().collect()),
        Query::Prog(p, _) => aod.get_program_accounts(*p, filters.clone(), commitment(l)),
    }
}

/// a panic of the source is an error, and may reach the caller
fn ask_caught(aod: &AccountsOnDemand, q: &Query, filters: &Option<Vec<AccountFilterType>>, l: usize) -> (Answer, bool) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(aod, q, filters, l))) {
        Ok(r) => (r, false),
        Err(p) if p.downcast_ref::<&str>() == Some(&"source panics") => (Err(AccountLoadingError::ErrorCreatingSnapshot), true),
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn answer(v: &[AccountData], q: &Query) -> Result<BTreeMap<Pubkey, St>, Fail> {
    let mut m = BTreeMap::new();
    for a in v {
        if m.insert(a.pubkey, St::of(a)).is_some() {
            return fail("answer_twice", format!("query of {} returned {} twice", q.brief(), short(&a.pubkey)));
        }
    }
    Ok(m)
}

fn brief(m: &BTreeMap<Pubkey, St>) -> Vec<String> {
    m.iter().map(|(k, s)| format!("{} {}", short(k), show(&Some(s.clone())))).collect()
}

fn spelled(g: &mut G, q: &Query) -> Option<Vec<AccountFilterType>> {
    match q {
        Query::Prog(_, Some(cs)) => {
            let mut cs = cs.clone();
            g.shuffle(&mut cs);
            Some(spell_all(g, &cs))
        }
        _ => None,
    }
}

fn expected_calls(q: &Query) -> (Call, Call) {
    match q {
        Query::Acc(k) => (
            Call::SubAcc([*k].into_iter().collect()),
            Call::Snap([*k].into_iter().collect(), vec![], true),
        ),
        Query::Prog(p, cs) => {
            let cs: Option<BTreeSet<Cond>> = cs.as_ref().map(|v| v.iter().cloned().collect());
            (Call::SubProg(*p, cs.clone()), Call::Snap(BTreeSet::new(), vec![(*p, cs)], true))
        }
    }
}

fn history(g: &mut G, faults: bool) -> R {
    let mut s = Sys::new(g);
    let mut done = 0;
    let mut loaded = false;
    let mut served = false;
    let mut failed = false;
    let mut recovered = false;
    while g.more(done, 4, 26) {
        done += 1;
        if g.chance(1, 3) {
            if g.chance(1, 4) {
                s.change_slowly(g)?;
            } else {
                s.change(g);
            }
            continue;
        }
        let q = s.gen_query(g);
        let l = g.below(3) as usize;
        let filters = spelled(g, &q);
        let fault = if faults && g.chance(1, 3) {
            let fault = match g.below(4) {
                0 => Fault::Subscribe,
                n => Fault::Snapshot(n as u8 - 1),
            };
            if g.chance(1, 5) {
                fault.panicking()
            } else {
                fault
            }
        } else {
            Fault::None
        };
        *s.source.fault.lock().unwrap() = fault;
        // a change that overtakes the snapshot
        s.source.during.lock().unwrap().clear();
        let mut overtaking = None;
        if fault == Fault::None && g.chance(1, 8) {
            let known: Vec<Pubkey> = s.truth(&q).keys().cloned().collect();
            if !known.is_empty() {
                let k = *g.pick(&known);
                s.wv += 1;
                s.slot += 1;
                let mut st = gen_state(g, s.slot, s.wv);
                // stays within the query
                let old = s.truth(&q)[&k].clone();
                st.owner = old.owner;
                st.data = old.data;
                if st.deleted() {
                    st.lamports = 1;
                }
                s.source.during.lock().unwrap().push((k, st.clone()));
                overtaking = Some((k, st));
            }
        }
        s.source.log.lock().unwrap().clear();
        let in_storage_must = matches!(&q, Query::Acc(k) if s.must.contains(k));
        let in_storage_may = matches!(&q, Query::Acc(k) if s.may.contains(k));
        let before = s.truth(&q);
        let (r, panicked) = ask_caught(&s.aod, &q, &filters, l);
        let log = s.source.log.lock().unwrap().clone();
        g.note(|| {
            format!(
                "query {} at {}{}{} -> {} with {} contacts",
                q.brief(),
                cname(l),
                if fault != Fault::None { format!(", {fault:?} will fail") } else { String::new() },
                overtaking.as_ref().map(|(k, st)| format!(", {} changes to {} during the load", short(k), show(&Some(st.clone())))).unwrap_or_default(),
                match &r {
                    Ok(v) => format!("{} accounts", v.len()),
                    Err(e) => format!("{e:?}"),
                },
                log.len()
            )
        });
        // what it asked for
        let (sub, snap) = expected_calls(&q);
        let contacted = !log.is_empty();
        if contacted {
            ensure!("asked_wrong", log[0] == sub, "query of {} asked the source for {:?} first, expected {sub:?}", q.brief(), log[0]);
            if fault.at_subscription() {
                ensure!("asked_after_failure", log.len() == 1, "query of {} went on after a refused subscription: {log:?}", q.brief());
            } else {
                ensure!("asked_wrong", log.len() == 2, "query of {} asked the source {} times: {log:?}", q.brief(), log.len());
                if let (Call::Snap(k1, p1, reg), Call::Snap(k2, p2, _)) = (&log[1], &snap) {
                    ensure!("asked_wrong", (k1, p1) == (k2, p2), "query of {} asked for the snapshot {:?}", q.brief(), log[1]);
                    ensure!("not_registered", *reg, "query of {} requested a snapshot before its filter was registered", q.brief());
                } else {
                    return fail("asked_wrong", format!("query of {} asked {log:?}", q.brief()));
                }
            }
        } else if overtaking.is_some() {
            // no load happened, so nothing overtook it
        }
        let (covered, uncovered) = match &q {
            Query::Acc(k) => (s.good.keys.contains(k), !s.good.keys.contains(k)),
            Query::Prog(p, cs) => (s.good.certainly_covered(p, cs.as_deref()), s.good.certainly_uncovered(p, cs.as_deref())),
        };
        // a filter configured from the beginning may be loaded again if a wider load failed
        let only_configured = s.failed_covers(&q) && {
            match &q {
                Query::Acc(k) => s.configured.keys.contains(k),
                Query::Prog(p, cs) => s.configured.certainly_covered(p, cs.as_deref()),
            }
        };
        if (covered && !only_configured) || in_storage_must {
            ensure!("asked_again", !contacted, "query of {} contacted the source although it is tracked: {log:?}", q.brief());
        }
        if uncovered && !in_storage_may {
            ensure!("not_asked", contacted, "query of {} was answered without asking the source, although nothing covers it", q.brief());
        }
        // the answer
        let expect_err = contacted && fault != Fault::None;
        match &r {
            Err(e) => {
                ensure!("error", expect_err, "query of {} failed with {e:?} without reason", q.brief());
                let want = if fault.at_subscription() {
                    AccountLoadingError::ErrorSubscribingAccount
                } else {
                    AccountLoadingError::ErrorCreatingSnapshot
                };
                ensure!("panic", !panicked || fault.panics(), "query of {} panicked", q.brief());
                g.class_if(panicked, "panicked");
                ensure!("error_kind", *e == want || fault.panics(), "query of {} failed with {e:?}, expected {want:?}", q.brief());
                failed = true;
            }
            Ok(v) => {
                ensure!("failure_hidden", !expect_err, "query of {} returned Ok although its load failed", q.brief());
                let got = answer(v, &q)?;
                let want = s.truth(&q);
                ensure!("answer", got == want, "query of {} at {} returned {:?}, the source holds {:?}", q.brief(), cname(l), brief(&got), brief(&want));
                if failed && (s.failed_covers(&q) || contacted) {
                    recovered = true;
                }
                if contacted {
                    loaded = true;
                } else if loaded {
                    served = true;
                }
            }
        }
        // the new filters
        if contacted {
            let add = |f: &mut RefFilters| match &q {
                Query::Acc(k) => {
                    f.keys.insert(*k);
                }
                Query::Prog(p, None) => {
                    f.all.insert(*p);
                }
                Query::Prog(p, Some(cs)) => f.conds.push((*p, cs.clone())),
            };
            if expect_err {
                add(&mut s.bad);
                if fault.at_snapshot().is_some() {
                    for k in before.keys() {
                        s.may.insert(*k);
                    }
                }
            } else {
                add(&mut s.good);
                for k in s.truth(&q).keys() {
                    s.must.insert(*k);
                    s.may.insert(*k);
                }
            }
        }
    }
    if faults {
        g.nontrivial = recovered;
        g.class_if(failed, "failed");
    } else {
        g.nontrivial = loaded && served;
        g.class_if(loaded, "loaded");
    }
    Ok(())
}

fn d01(g: &mut G) -> R {
    history(g, false)
}
fn d02(g: &mut G) -> R {
    history(g, true)
}

// ------------------------------------------------------------------ D03

type Answer = Result<Vec<AccountData>, AccountLoadingError>;

struct Side {
    query: Query,
    same: bool,
    early: Arc<Mutex<Option<Answer>>>,
    /// the finished answer had been given when the load went on
    returned_early: bool,
    handle: Option<JoinHandle<Answer>>,
}

fn d03_during(g: &mut G) -> R {
    let mut s = Sys::new(g);
    // data that is already loaded
    for _ in 0..g.size(0, 2) {
        let q = s.gen_query(g);
        let f = spelled(g, &q);
        g.note(|| format!("load {}", q.brief()));
        if ask(&s.aod, &q, &f, 0).is_err() {
            return fail("error", format!("query of {} failed without reason", q.brief()));
        }
        let held: Vec<Pubkey> = s.truth(&q).keys().cloned().collect();
        s.must.extend(held);
        match q {
            Query::Acc(k) => {
                s.good.keys.insert(k);
            }
            Query::Prog(p, None) => {
                s.good.all.insert(p);
            }
            Query::Prog(p, Some(cs)) => s.good.conds.push((p, cs)),
        }
    }
    let q = s.gen_query(g);
    let f = spelled(g, &q);
    let fault = if g.chance(1, 3) {
        let fault = if g.chance(1, 3) {
            Fault::Subscribe
        } else {
            Fault::Snapshot(g.below(3) as u8)
        };
        if g.chance(1, 4) {
            fault.panicking()
        } else {
            fault
        }
    } else {
        Fault::None
    };
    *s.source.fault.lock().unwrap() = fault;
    let at = ["subscribe", "snapshot", "delivering"][g.weighted(&[1, 2, 2])];
    // what happens meanwhile
    let mut plans: Vec<(Query, Option<Vec<AccountFilterType>>, bool)> = vec![];
    for _ in 0..g.size(1, 2) {
        let f2 = spelled(g, &q);
        plans.push((q.clone(), f2, true));
    }
    if let Query::Prog(p, cs) = &q {
        if g.bool() {
            // a narrower one
            let mut cs: Vec<Cond> = cs.clone().unwrap_or_default();
            cs.extend(gen_conds(g));
            let n = Query::Prog(*p, Some(cs));
            let f2 = spelled(g, &n);
            plans.push((n, f2, true));
        }
    }
    // an account that is in the storage; an account nobody has
    let other = s.aod.clone();
    let present: Option<Pubkey> = {
        // read at a moment without load: what storage has is what a tracked query returns
        (0..ACCS).map(acc).find(|k| s.source.world.lock().unwrap().get(k).map_or(false, |st| !st.deleted()) && Query::Acc(*k) != q && in_store(&s, k))
    };
    let upd = acc(50);
    let upd_owner = g.below(PROGS);
    let loads_too = g.bool();
    // the stream is ahead of the load: a newer processed state of an account that is being loaded; answers at finalized
    // are still those of the source
    let ahead: Option<(Pubkey, St)> = if at != "subscribe" && g.chance(1, 2) {
        let held: Vec<Pubkey> = s.truth(&q).keys().cloned().collect();
        let k = match &q {
            Query::Acc(k) if g.chance(3, 4) => *k,
            _ if !held.is_empty() && g.chance(3, 4) => *g.pick(&held),
            _ => acc(g.below(ACCS)),
        };
        let owner = match held.contains(&k) && g.chance(2, 3) {
            true => s.truth(&q)[&k].owner,
            false => prog(g.below(PROGS)),
        };
        let lamports = if g.chance(1, 5) { 0 } else { 78 };
        g.class("stream_ahead");
        Some((k, St { slot: 201, wv: 1 << 41, owner, lamports, data: small_data(g) }))
    } else {
        None
    };
    let level = if ahead.is_some() { 2 } else { 0 };
    if let Some((k, st)) = &ahead {
        g.note(|| format!("the stream has {} {} at {at}", short(k), show(&Some(st.clone()))));
    }
    g.note(|| {
        format!(
            "query {} with fault {fault:?}; at {at}: {} more queries of the same data ({:?}), a read of {:?} and an update of another account",
            q.brief(),
            plans.len(),
            plans.iter().map(|p| p.0.brief()).collect::<Vec<_>>(),
            present.map(|k| short(&k))
        )
    });
    s.source.log.lock().unwrap().clear();
    let sides: Arc<Mutex<Vec<Side>>> = Arc::new(Mutex::new(vec![]));
    let complaint: Arc<Mutex<Option<Fail>>> = Arc::new(Mutex::new(None));
    {
        let (sides, complaint, aod) = (sides.clone(), complaint.clone(), s.aod.clone());
        let plans = plans.clone();
        let mut fired = false;
        *s.source.hook.lock().unwrap() = Some(Box::new(move |src, stage| {
            if stage != at || fired {
                return;
            }
            fired = true;
            if let Some((k, st)) = &ahead {
                aod.update_account(data_of(*k, st), commitment(0));
            }
            // data that is not being loaded must be reachable, and updates go on
            let change = St { slot: 200, wv: 1 << 40, owner: prog(upd_owner), lamports: 77, data: vec![9] };
            src.world.lock().unwrap().insert(upd, change.clone());
            let finished = Arc::new(AtomicBool::new(false));
            let h = {
                let (aod, finished) = (other.clone(), finished.clone());
                std::thread::spawn(move || {
                    if let Some(k) = present {
                        let _ = aod.get_account(k, commitment(2));
                    }
                    aod.update_account(data_of(upd, &change), commitment(2));
                    if loads_too {
                        let _ = ask_caught(&aod, &Query::Acc(acc(60)), &None, 2);
                        let _ = ask_caught(&aod, &Query::Prog(prog(60), None), &None, 2);
                    }
                    aod.process_slot_data(SlotInfo { slot: 200, parent: 199, root: 0 }, commitment(0));
                    finished.store(true, Ordering::SeqCst);
                })
            };
            let t = Instant::now();
            while !finished.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(20) {
                std::thread::sleep(Duration::from_micros(50));
            }
            if finished.load(Ordering::SeqCst) {
                let _ = h.join();
            } else {
                *complaint.lock().unwrap() = Some(Fail {
                    key: "blocked".into(),
                    msg: "a query and an update of other accounts did not return while a load was in progress".into(),
                });
                return;
            }
            for (query, filters, same) in &plans {
                let early: Arc<Mutex<Option<Answer>>> = Arc::new(Mutex::new(None));
                let (aod, q2, f2, e2) = (aod.clone(), query.clone(), filters.clone(), early.clone());
                let h = std::thread::spawn(move || {
                    let (r, _) = ask_caught(&aod, &q2, &f2, level);
                    *e2.lock().unwrap() = Some(r.clone_answer());
                    r
                });
                sides.lock().unwrap().push(Side {
                    query: query.clone(),
                    same: *same,
                    early,
                    returned_early: false,
                    handle: Some(h),
                });
            }
            std::thread::sleep(Duration::from_micros(2500));
            for s in sides.lock().unwrap().iter_mut() {
                s.returned_early = s.early.lock().unwrap().is_some();
            }
        }));
    }
    let (r, _) = ask_caught(&s.aod, &q, &f, level);
    let since = Instant::now();
    *s.source.hook.lock().unwrap() = None;
    if let Some(f) = complaint.lock().unwrap().take() {
        return Err(f);
    }
    let mut sides = std::mem::take(&mut *sides.lock().unwrap());
    let log_after = |src: &Source| src.log.lock().unwrap().clone();
    let loaded_at_all = !log_after(&s.source).is_empty();
    if !loaded_at_all {
        return Ok(());
    }
    let want = s.truth(&q);
    match &r {
        Ok(v) => {
            ensure!("failure_hidden", fault == Fault::None, "query of {} returned Ok although its load failed", q.brief());
            let got = answer(v, &q)?;
            ensure!("answer", got == want, "query of {} returned {:?}, the source holds {:?}", q.brief(), brief(&got), brief(&want));
        }
        Err(e) => ensure!("error", fault != Fault::None, "query of {} failed with {e:?} without reason", q.brief()),
    }
    for side in sides.iter_mut() {
        let a = match side.handle.take().unwrap().join() {
            Ok(a) => a,
            Err(_) => return fail("concurrent_panic", "a concurrent query panicked".into()),
        };
        if side.same {
            g.nontrivial = true;
        }
        let want = s.truth(&side.query);
        match a {
            Ok(v) => {
                let got = answer(&v, &side.query)?;
                ensure!(
                    "waiting_answer",
                    got == want,
                    "query of {} issued during the load returned {:?}, the source holds {:?}",
                    side.query.brief(),
                    brief(&got),
                    brief(&want)
                );
                if side.returned_early {
                    // found in the storage, or a narrower query covered by something loaded before
                    let ready = match &side.query {
                        Query::Acc(_) => !got.is_empty(),
                        Query::Prog(p, cs) => !s.good.certainly_uncovered(p, cs.as_deref()),
                    };
                    ensure!("early", ready, "query of {} returned before the load was complete", side.query.brief());
                }
            }
            Err(e) => ensure!(
                "waiting_error",
                fault != Fault::None,
                "query of {} issued during a successful load failed with {e:?}",
                side.query.brief()
            ),
        }
    }
    let late = since.elapsed();
    ensure!(
        "waits_for_nothing",
        late < Duration::from_secs(9),
        "queries that waited for the load of {} returned {late:?} after it had ended ({fault:?})",
        q.brief()
    );
    if fault == Fault::None {
        let log = log_after(&s.source);
        let (sub, _) = expected_calls(&q);
        let n = log.iter().filter(|c| **c == sub).count();
        ensure!("second_load", n == 1, "{} was subscribed {n} times: {log:?}", q.brief());
    }
    // afterwards everything is served
    *s.source.fault.lock().unwrap() = Fault::None;
    for (query, filters, _) in &plans {
        let got = match ask(&s.aod, query, filters, 2) {
            Ok(v) => answer(&v, query)?,
            Err(e) => return fail("error", format!("later query of {} failed with {e:?}", query.brief())),
        };
        let want = s.truth(query);
        ensure!("answer", got == want, "later query of {} returned {:?}, the source holds {:?}", query.brief(), brief(&got), brief(&want));
    }
    Ok(())
}

trait CloneAnswer {
    fn clone_answer(&self) -> Answer;
}
impl CloneAnswer for Answer {
    fn clone_answer(&self) -> Answer {
        match self {
            Ok(v) => Ok(v.clone()),
            Err(e) => Err(*e),
        }
    }
}

/// is the account certainly in the storage? (asks with the source switched off)
fn in_store(s: &Sys, k: &Pubkey) -> bool {
    s.must.contains(k)
}

fn d03_parallel(g: &mut G) -> R {
    let pace = Arc::new(AtomicU64::new(g.below(1000)));
    let s = Sys::with(g, |mut x| {
        x.pace = Some(pace);
        x
    });
    let threads = g.size(2, 5);
    // a small pool of queries, so that threads meet
    let mut pool: Vec<Query> = vec![];
    for _ in 0..g.size(1, 4) {
        let q = s.gen_query(g);
        if !pool.contains(&q) {
            pool.push(q);
        }
    }
    let mut work: Vec<Vec<(Query, Option<Vec<AccountFilterType>>, usize)>> = vec![];
    for _ in 0..threads {
        let n = g.size(1, 4);
        work.push(
            (0..n)
                .map(|_| {
                    let q = g.pick(&pool).clone();
                    let f = spelled(g, &q);
                    (q, f, g.below(3) as usize)
                })
                .collect(),
        );
    }
    g.note(|| format!("{threads} threads: {:?}", work.iter().map(|w| w.iter().map(|x| x.0.brief()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let start = Arc::new(Barrier::new(threads));
    let world = s.source.world.lock().unwrap().clone();
    let mut handles = vec![];
    for w in work.clone() {
        let (aod, start) = (s.aod.clone(), start.clone());
        let world = world.clone();
        handles.push(std::thread::spawn(move || -> R {
            start.wait();
            for (q, f, l) in &w {
                let got = match ask(&aod, q, f, *l) {
                    Ok(v) => answer(&v, q)?,
                    Err(e) => return fail("error", format!("query of {} failed with {e:?}", q.brief())),
                };
                let want = truth(&world, q);
                ensure!(
                    "parallel_answer",
                    got == want,
                    "query of {} at {} in parallel with others returned {:?}, the source holds {:?}",
                    q.brief(),
                    cname(*l),
                    brief(&got),
                    brief(&want)
                );
            }
            Ok(())
        }));
    }
    for h in handles {
        match h.join() {
            Ok(r) => r?,
            Err(_) => return fail("concurrent_panic", "a concurrent query panicked".into()),
        }
    }
    let log = s.source.log.lock().unwrap().clone();
    for q in &pool {
        let (sub, _) = expected_calls(q);
        let n = log.iter().filter(|c| **c == sub).count();
        ensure!("second_load", n <= 1, "{} was subscribed {n} times by parallel queries", q.brief());
        let askers = work.iter().filter(|w| w.iter().any(|x| x.0 == *q)).count();
        if n == 1 && askers >= 2 {
            g.nontrivial = true;
        }
    }
    Ok(())
}
