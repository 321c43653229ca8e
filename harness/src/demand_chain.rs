//! D04: on-demand loading in front of the stream of a linear chain. Whatever is loaded, whenever it is loaded and
//! whatever overtakes the load, reads at every commitment show the chain.
use crate::feed::*;
use crate::gens::*;
use crate::store_props::{acc, prog};
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters};
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use pbt::{ensure, fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "D04",
        subs: vec![Sub::new("chain", 150000, 1500000, d04)],
        rule: "histories of account updates and slot notifications of a linear chain and of queries at every commitment through on-demand loading; a load delivers the finalized states and then everything newer, and updates and notifications overtake it; every answer compared with the chain; non-trivial = a load met unfinalized states of what it loaded, and later answers at two commitments differed",
        assumptions: &[
            "one chain without forks; the states of an account are sent in order; updates of slots older than the newest finalized one are not sent",
            "the source delivers, after the finalized states it picked, every newer state there is when it has delivered them",
            "the storage is the in-memory account store sharing the mutable filters",
        ],
    }]
}

/// the chain: every state of every account in order, with the index of its slot
struct Chain {
    slots: Slots,
    accounts: BTreeMap<Pubkey, Vec<(St, usize)>>,
}

impl Chain {
    fn state(&self, k: &Pubkey, level: usize) -> Option<&St> {
        self.accounts
            .get(k)?
            .iter()
            .rev()
            .find(|(_, i)| self.slots.v[*i].level >= level)
            .map(|(s, _)| s)
            .filter(|s| !s.deleted())
    }
    fn program(&self, p: &Pubkey, cs: &Option<Vec<Cond>>, level: usize) -> BTreeMap<Pubkey, St> {
        self.accounts
            .keys()
            .filter_map(|k| self.state(k, level).map(|s| (*k, s.clone())))
            .filter(|(_, s)| s.owner == *p && cs.iter().flatten().all(|c| c.holds(&s.data)))
            .collect()
    }
}

#[derive(Clone, Debug)]
enum Ev {
    /// account, its new state, slot, commitment the update is sent with
    Update(Pubkey, St, usize, usize),
    Notify(usize, usize),
}

struct Source {
    chain: Arc<Mutex<Chain>>,
    /// events sent while the source is subscribing / while the picked states are on their way / between their delivery
    overtaking: Mutex<[Vec<Ev>; 3]>,
    storage: Mutex<Option<Arc<dyn AccountStorageInterface>>>,
    loads: Mutex<usize>,
    met_unfinalized: Mutex<bool>,
    reverse: Mutex<bool>,
}

fn data_of(pk: Pubkey, s: &St) -> AccountData {
    mk_account(pk, s.owner, s.lamports, s.data.clone(), s.slot, s.wv, CompressionMethod::None)
}

fn send(chain: &Mutex<Chain>, storage: &dyn AccountStorageInterface, ev: &Ev) {
    match ev {
        Ev::Update(k, s, i, c) => {
            chain.lock().unwrap().accounts.entry(*k).or_default().push((s.clone(), *i));
            storage.update_account(data_of(*k, s), commitment(*c));
        }
        Ev::Notify(i, l) => {
            let info = chain.lock().unwrap().slots.info(*i);
            storage.process_slot_data(info, commitment(*l));
            chain.lock().unwrap().slots.notify(*i, *l);
        }
    }
}

impl Source {
    fn overtake(&self, at: usize) {
        let evs = std::mem::take(&mut self.overtaking.lock().unwrap()[at]);
        let storage = self.storage.lock().unwrap().clone().unwrap();
        for e in &evs {
            send(&self.chain, storage.as_ref(), e);
        }
    }
}

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, _: HashSet<Pubkey>) -> anyhow::Result<()> {
        self.overtake(0);
        Ok(())
    }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.overtake(0);
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        *self.loads.lock().unwrap() += 1;
        let mut asked = SimpleFilterStore::default();
        asked.add_account_filters(&account_filters);
        let (mut picked, root) = {
            let c = self.chain.lock().unwrap();
            let picked: Vec<AccountData> = c
                .accounts
                .keys()
                .filter_map(|k| c.state(k, 2).map(|s| data_of(*k, s)))
                .filter(|a| asked.satisfies(a))
                .collect();
            (picked, c.slots.fnum())
        };
        if *self.reverse.lock().unwrap() {
            picked.reverse();
        }
        self.overtake(1);
        for (i, a) in picked.into_iter().enumerate() {
            storage.initilize_or_update_account(a);
            if i == 0 {
                self.overtake(2);
            }
        }
        self.overtake(2);
        // everything newer than what was picked
        let newer: Vec<(AccountData, bool)> = {
            let c = self.chain.lock().unwrap();
            let mut v = vec![];
            for (k, states) in &c.accounts {
                for (s, i) in states {
                    if c.slots.v[*i].level == 2 {
                        if s.slot >= root {
                            v.push((data_of(*k, s), true));
                        }
                    } else {
                        v.push((data_of(*k, s), false));
                        if asked.satisfies(&v.last().unwrap().0) {
                            *self.met_unfinalized.lock().unwrap() = true;
                        }
                    }
                }
            }
            v
        };
        for (a, finalized) in newer {
            if finalized {
                storage.initilize_or_update_account(a);
            } else {
                storage.update_account(a, commitment(0));
            }
        }
        Ok(())
    }
}

struct Sys {
    chain: Arc<Mutex<Chain>>,
    source: Arc<Source>,
    aod: Arc<AccountsOnDemand>,
    filters: Arc<MutableFilterStore>,
    wv: u64,
    /// what the generator has planned: slots, and the last slot of every account
    plan: Slots,
    last: BTreeMap<Pubkey, usize>,
    asked: Vec<(Pubkey, Vec<Cond>)>,
}

const PROGS: u64 = 3;
const ACCS: u64 = 5;

fn gen_conds(g: &mut G) -> Vec<Cond> {
    let n = g.size(1, 2);
    (0..n)
        .map(|_| match g.below(3) {
            0 => Cond::Size(g.below(4)),
            1 => Cond::Mem(0, vec![g.below(2) as u8]),
            _ => Cond::Mem(1, vec![g.below(2) as u8]),
        })
        .collect()
}

impl Sys {
    /// the next event of the chain
    fn event(&mut self, g: &mut G) -> Ev {
        if g.chance(2, 5) {
            // notification of a slot that is not abandoned
            let live = self.plan.live();
            let l = g.below(3) as usize;
            let can: Vec<usize> = live.into_iter().filter(|i| self.plan.can_notify(*i, l)).collect();
            if !can.is_empty() {
                let i = *g.pick(&can);
                self.plan.notify(i, l);
                return Ev::Notify(i, l);
            }
        }
        if self.plan.live().is_empty() || g.chance(1, 3) {
            self.plan.grow(g, 0);
        }
        let k = acc(g.below(ACCS));
        let from = self.last.get(&k).copied().unwrap_or(0);
        let mut slots: Vec<usize> = self.plan.live().into_iter().filter(|i| *i >= from).collect();
        if slots.is_empty() {
            slots.push(self.plan.grow(g, 0));
        }
        let i = *g.pick(&slots);
        self.last.insert(k, i);
        self.wv += 1;
        let c = g.below(self.plan.v[i].level as u64 + 1) as usize;
        let st = St {
            slot: self.plan.num(i),
            wv: self.wv,
            owner: prog(g.below(PROGS)),
            lamports: if g.chance(1, 6) { 0 } else { 100 + self.wv },
            data: (0..g.size(0, 3)).map(|_| g.below(2) as u8).collect(),
        };
        Ev::Update(k, st, i, c)
    }
    fn sync_slots(&self) {
        // slots the plan has opened
        let mut c = self.chain.lock().unwrap();
        while c.slots.v.len() < self.plan.v.len() {
            let n = self.plan.v[c.slots.v.len()].clone();
            c.slots.add(n.num, n.parent.unwrap());
        }
    }
    fn show(&self, ev: &Ev) -> String {
        match ev {
            Ev::Update(k, s, _, c) => format!("{} becomes {} (sent as {})", short(k), show(&Some(s.clone())), cname(*c)),
            Ev::Notify(i, l) => format!("slot {} is {}", self.plan.num(*i), cname(*l)),
        }
    }
}

fn answer(v: &[AccountData]) -> Result<BTreeMap<Pubkey, St>, pbt::Fail> {
    let mut m = BTreeMap::new();
    for a in v {
        if m.insert(a.pubkey, St::of(a)).is_some() {
            return fail("answer_twice", format!("{} is in the answer twice", short(&a.pubkey)));
        }
    }
    Ok(m)
}

fn brief(m: &BTreeMap<Pubkey, St>) -> Vec<String> {
    m.iter().map(|(k, s)| format!("{} {}", short(k), show(&Some(s.clone())))).collect()
}

fn d04(g: &mut G) -> R {
    let chain = Arc::new(Mutex::new(Chain { slots: Slots::new(100), accounts: BTreeMap::new() }));
    let filters = Arc::new(MutableFilterStore::default());
    let source = Arc::new(Source {
        chain: chain.clone(),
        overtaking: Default::default(),
        storage: Mutex::new(None),
        loads: Mutex::new(0),
        met_unfinalized: Mutex::new(false),
        reverse: Mutex::new(false),
    });
    let store = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let aod = Arc::new(AccountsOnDemand::new(source.clone(), filters.clone(), store));
    *source.storage.lock().unwrap() = Some(aod.clone());
    let mut s = Sys {
        chain,
        source,
        aod,
        filters,
        wv: 0,
        plan: Slots::new(100),
        last: BTreeMap::new(),
        asked: vec![],
    };
    // accounts from before
    for i in 0..ACCS {
        if g.chance(2, 3) {
            s.wv += 1;
            let st = St {
                slot: 100,
                wv: s.wv,
                owner: prog(g.below(PROGS)),
                lamports: 100 + s.wv,
                data: (0..g.size(0, 3)).map(|_| g.below(2) as u8).collect(),
            };
            g.note(|| format!("{} is {}", short(&acc(i)), show(&Some(st.clone()))));
            s.chain.lock().unwrap().accounts.insert(acc(i), vec![(st, 0)]);
            s.last.insert(acc(i), 0);
        }
    }
    let mut done = 0;
    let mut rich_load = false;
    let mut differing = false;
    let mut overtaken = false;
    while g.more(done, 6, 34) {
        done += 1;
        if g.chance(1, 2) {
            let ev = s.event(g);
            s.sync_slots();
            g.note(|| s.show(&ev));
            send(&s.chain, s.aod.as_ref(), &ev);
            continue;
        }
        // what overtakes the load, if there is one
        if g.chance(1, 3) {
            let n = g.size(1, 4);
            let mut at = g.below(3) as usize;
            for _ in 0..n {
                let ev = s.event(g);
                s.sync_slots();
                s.source.overtaking.lock().unwrap()[at].push(ev);
                if at < 2 && g.chance(1, 3) {
                    at += 1;
                }
            }
        }
        *s.source.reverse.lock().unwrap() = g.bool();
        let loads = *s.source.loads.lock().unwrap();
        *s.source.met_unfinalized.lock().unwrap() = false;
        let planned: Vec<String> = s.source.overtaking.lock().unwrap().iter().flatten().map(|e| s.show(e)).collect();
        let single = g.bool();
        let (k, p) = (acc(g.below(ACCS + 1)), prog(g.below(PROGS)));
        let mut cs = if g.chance(1, 3) { None } else { Some(gen_conds(g)) };
        let mut p = p;
        if !s.asked.is_empty() && g.chance(1, 3) {
            let (q, mut c) = g.pick(&s.asked).clone();
            p = q;
            if g.bool() {
                c.extend(gen_conds(g));
            }
            cs = Some(c);
        }
        let spelled = cs.as_ref().map(|c| spell_all(g, c));
        let first = g.below(3) as usize;
        let mut answers = vec![];
        for n in 0..3 {
            let l = (first + n) % 3;
            let what = if single {
                format!("account {} at {}", short(&k), cname(l))
            } else {
                format!("program {} {:?} at {}", short(&p), cs, cname(l))
            };
            let r = if single {
                s.aod.get_account(k, commitment(l)).map(|x| x.into_iter().collect::<Vec<_>>())
            } else {
                s.aod.get_program_accounts(p, spelled.clone(), commitment(l))
            };
            let loaded = *s.source.loads.lock().unwrap() > loads;
            g.note(|| {
                format!(
                    "query of {what}{} -> {:?}",
                    if loaded { format!(" (loaded; meanwhile {planned:?})") } else { String::new() },
                    r.as_ref().map(|v| answer(v).map(|m| brief(&m)).unwrap_or_default())
                )
            });
            let v = match r {
                Ok(v) => v,
                Err(e) => return fail("error", format!("query of {what} failed with {e:?}")),
            };
            let got = answer(&v)?;
            let want: BTreeMap<Pubkey, St> = {
                let c = s.chain.lock().unwrap();
                if single {
                    c.state(&k, l).map(|x| (k, x.clone())).into_iter().collect()
                } else {
                    c.program(&p, &cs, l)
                }
            };
            ensure!(
                "answer",
                got == want,
                "query of {what} returned {:?}, the chain has {:?}",
                brief(&got),
                brief(&want)
            );
            answers.push(got);
            if loaded && *s.source.met_unfinalized.lock().unwrap() {
                rich_load = true;
            }
        }
        differing |= rich_load && answers[0] != answers[1] || answers[1] != answers[2];
        if *s.source.loads.lock().unwrap() > loads {
            overtaken |= !planned.is_empty();
            if !single {
                if let Some(c) = cs {
                    s.asked.push((p, c));
                }
            }
        }
        // events of a load that did not happen are sent now
        let rest: Vec<Ev> = s.source.overtaking.lock().unwrap().iter_mut().flat_map(std::mem::take).collect();
        for e in rest {
            send(&s.chain, s.aod.as_ref(), &e);
        }
    }
    // a snapshot of a program that is tracked as a whole has its finalized accounts
    for n in 0..PROGS {
        let p = prog(n);
        if s.filters.contains_filter(&program_filter(p, None)) && g.bool() {
            let bytes = match s.aod.create_snapshot(p) {
                Ok(b) => b,
                Err(e) => return fail("snapshot", format!("snapshot of {} failed with {e:?}", short(&p))),
            };
            let mut f = SimpleFilterStore::default();
            f.add_account_filter(&program_filter(p, None));
            let other = InmemoryAccountStore::new(Arc::new(f));
            if let Err(e) = other.load_from_snapshot(p, bytes) {
                return fail("snapshot", format!("loading the snapshot of {} failed with {e:?}", short(&p)));
            }
            let got = answer(&other.get_program_accounts(p, None, commitment(2)).unwrap_or_default())?;
            let want = s.chain.lock().unwrap().program(&p, &None, 2);
            ensure!("snapshot", got == want, "snapshot of {} holds {:?}, the chain has {:?}", short(&p), brief(&got), brief(&want));
            g.class("snapshot");
        }
    }
    g.class_if(rich_load, "loaded_unfinalized");
    g.class_if(overtaken, "overtaken");
    g.nontrivial = rich_load && differing;
    Ok(())
}
