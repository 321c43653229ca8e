//! S01-S08: InmemoryAccountStore and AccountDataByCommitment
use crate::feed::*;
use crate::gens::*;
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::AccountFilterType;
use lite_account_manager_common::account_store_interface::{
    AccountLoadingError, AccountStorageInterface,
};
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::account_data_by_commitment::AccountDataByCommitment;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use pbt::{ensure, fail, no_panic, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    let domain: &'static [&'static str] = &[
        "feed domain: parent numbers are below slot numbers; before a slot is announced at finalized its ancestors above the finalized slot have been announced at some commitment (at confirmed they may also be announced later, and the confirmation reaches them then); an update sent at confirmed is accompanied by its slot's confirmed notification; updates below the last finalized slot are only sent at finalized; (slot, write version) is unique per account",
    ];
    vec![
        Prop {
            id: "S01",
            subs: vec![Sub::new("feed", 40000, 400000, s01)],
            rule: "random feeds (10-70 messages, 2-4 accounts, fork trees, late/duplicate/skipped/out-of-order messages), all accounts read at all commitments after every message; non-trivial = an ancestor was promoted by a descendant's notification, or a late update hit an already confirmed/finalized slot",
            assumptions: domain,
        },
        Prop {
            id: "S02",
            subs: vec![Sub::new("adversarial", 150000, 1500000, s02)],
            rule: "random updates and notifications in any order, any commitment, any parents (also stale, duplicate, contradictory); non-trivial = at least one stale update or repeated/lower notification after a newer state was readable",
            assumptions: &["(slot, write version) is unique per account; states are live and in scope (removal is S05)"],
        },
        Prop {
            id: "S03",
            subs: vec![
                Sub::new("forks", 30000, 300000, s03),
                Sub::new("gaps", 30000, 300000, s03_gaps),
            ],
            rule: "random feeds over bushy fork trees where the same accounts are written on competing forks; reads, program queries, notification results and snapshots checked after every message; non-trivial = an account was written on an abandoned fork and a competing slot was confirmed or finalized",
            assumptions: domain,
        },
        Prop {
            id: "S04",
            subs: vec![Sub::new("gpa", 80000, 800000, s04)],
            rule: "random feeds with owner changes, deletions and re-creations; program queries with random covered filters compared with get_account of every key after every message; non-trivial = an owner change or re-creation happened and some query returned an account",
            assumptions: domain,
        },
        Prop {
            id: "S05",
            subs: vec![Sub::new("lifecycle", 60000, 600000, s05)],
            rule: "random feeds dominated by deletions, re-creations and moves in and out of the filters' scope; reads and tracking compared with the model after every message; non-trivial = an account was removed by finalization, or a deletion was finalized under a newer state",
            assumptions: domain,
        },
        Prop {
            id: "S06",
            subs: vec![Sub::new("results", 200000, 2000000, s06)],
            rule: "random feeds; the multiset returned by every notification compared with the accounts whose view advanced in the model; non-trivial = some notification promoted accounts through an ancestor or returned a deletion",
            assumptions: domain,
        },
        Prop {
            id: "S07",
            subs: vec![
                Sub::new("roundtrip", 40000, 400000, s07_roundtrip),
                Sub::new("merge", 40000, 400000, s07_merge),
                Sub::new("corrupt", 80000, 800000, s07_corrupt),
            ],
            rule: "snapshot of a store filled by a random feed loaded into an empty store / a store in use / after random byte damage; non-trivial = the snapshot holds at least one account (roundtrip, corrupt) / some account exists on both sides (merge)",
            assumptions: &["damaged bytes that still deserialize into accounts are not judged"],
        },
        Prop {
            id: "S08",
            subs: vec![Sub::new("account", 120000, 1200000, s08)],
            rule: "random update/promote sequences on one AccountDataByCommitment, all fields, results and filtered reads compared with a model after every call; non-trivial = at least one promotion advanced a commitment and one call was stale",
            assumptions: &["(slot, write version) is unique"],
        },
        Prop {
            id: "S10",
            subs: vec![Sub::new("abandoned", 45000, 450000, s10)],
            rule: "random feeds over bushy fork trees; all accounts read at all commitments and program queries at processed compared with the model after every message; non-trivial = a finalization took an account back to an older state, or made it vanish, because its newest state was on an abandoned fork",
            assumptions: domain,
        },
        Prop {
            id: "S12",
            subs: vec![
                Sub::new("feed", 15000, 200000, s12_feed),
                Sub::new("parallel", 2000, 30000, s12_parallel),
            ],
            rule: "(feed) random feeds with deletions and owner changes, the gauge of the process compared with the accounts the model holds after every message, then the snapshots of the programs loaded once or twice into an empty store; (parallel) three threads deliver updates, deletions and notifications, and the gauge is compared with the keys the store contains once they are done; non-trivial = an account was removed",
            assumptions: &["the gauge belongs to the process: the cases run one after the other, and what a dropped store counted is subtracted"],
        },
    ]
}

pub fn prog(n: u64) -> Pubkey {
    key(10, n)
}
pub fn acc(n: u64) -> Pubkey {
    key(11, n)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Check {
    Reads,
    Forks,
    Gpa,
    Lifecycle,
    Results,
    Abandoned,
    Gauge,
    None,
}

struct Profile {
    check: Check,
    fork_pct: u64,
    /// percent of updates that delete / leave the scope
    delete_pct: u64,
    stray_pct: u64,
    /// steps
    lo: usize,
    hi: usize,
}

pub struct Built {
    pub store: InmemoryAccountStore,
    pub filters: RefFilters,
    pub slots: Slots,
    pub accs: Vec<AccModel>,
    counter: u64,
    scale: Scale,
    deep: bool,
    /// slots are notified although their ancestors are not known
    gaps: bool,
    /// slots may be confirmed before their ancestors are announced
    late_parents: bool,
    /// what the gauge showed before the history
    gauge: Option<i64>,
}

/// one store at a time moves the gauge
static ONE: Mutex<()> = Mutex::new(());

/// the accounts that the stores of the process hold, as exported
fn stored_gauge() -> i64 {
    prometheus::gather()
        .iter()
        .filter(|f| f.get_name() == "lite_accounts_accounts_in_memory")
        .flat_map(|f| f.get_metric())
        .map(|m| m.get_gauge().get_value() as i64)
        .sum()
}

fn gen_filters(g: &mut G, scope_games: bool) -> RefFilters {
    let mut f = RefFilters::default();
    f.all.insert(prog(0));
    if g.chance(1, 4) {
        f.all.insert(prog(1));
    } else {
        let n = g.size(1, 2);
        for _ in 0..n {
            let k = g.size(1, 2);
            let cs = (0..k).map(|_| small_cond(g)).collect();
            f.conds.push((prog(1), cs));
        }
    }
    if g.chance(1, 4) {
        f.keys.insert(acc(0));
    }
    if !scope_games {
        f.all.insert(prog(1));
        f.conds.clear();
        f.all.insert(prog(2));
    }
    f
}

fn codec_of(g: &mut G) -> CompressionMethod {
    cheap_codec(g)
}

impl Built {
    fn new(g: &mut G, scope_games: bool, n_accounts: u64) -> Built {
        let filters = gen_filters(g, scope_games);
        let mut s = SimpleFilterStore::default();
        s.add_account_filters(&filters.build());
        g.note(|| {
            format!(
                "filters: whole programs {:?}, conditions {:?}, keys {:?}",
                filters.all.iter().map(short).collect::<Vec<_>>(),
                filters.conds.iter().map(|(p, c)| (short(p), c.clone())).collect::<Vec<_>>(),
                filters.keys.iter().map(short).collect::<Vec<_>>()
            )
        });
        let scale = scale(g);
        Built {
            store: InmemoryAccountStore::new(Arc::new(s)),
            filters,
            slots: Slots::new(scale.slot),
            accs: (0..n_accounts).map(|i| AccModel::new(acc(i))).collect(),
            counter: 0,
            scale,
            deep: false,
            gaps: false,
            late_parents: false,
            gauge: None,
        }
    }

    fn gen_state(&mut self, g: &mut G, a: usize, slot: u64, p: &Profile) -> Option<St> {
        self.counter += 1;
        let mut wv = match g.weighted(&[3, 1]) {
            0 => self.scale.wv + 10 + self.counter,
            _ => self.scale.wv + g.range(0, 12),
        };
        let m = &mut self.accs[a];
        while m.used.contains(&(slot, wv)) {
            wv += 1;
        }
        if let Some(fl) = m.floor {
            if (slot, wv) <= fl {
                return None;
            }
        }
        m.used.insert((slot, wv));
        let deleted = g.chance(p.delete_pct, 100);
        let owner = if g.chance(p.stray_pct, 100) {
            prog(2 + g.below(2))
        } else {
            prog(g.weighted(&[3, 2]) as u64)
        };
        let owner = if deleted && g.chance(2, 3) {
            Pubkey::default()
        } else {
            owner
        };
        let data = if deleted && g.bool() { vec![] } else { small_data(g) };
        // some deletions only take the lamports and leave owner and data as they were
        let (owner, data) = match m.ups.last() {
            Some((s, _, _)) if deleted && g.chance(1, 3) => (s.owner, s.data.clone()),
            _ => (owner, data),
        };
        Some(St {
            slot,
            wv,
            owner,
            lamports: if deleted { 0 } else { self.scale.lamports + 1 + self.counter },
            data,
        })
    }

    /// apply one account update to store and model; returns whether the model admitted it
    fn update(&mut self, g: &mut G, a: usize, slot_idx: usize, st: St, level: usize) -> Result<bool, pbt::Fail> {
        let m = &mut self.accs[a];
        let admitted = m.tracked || self.filters.satisfies(&m.pk, &st);
        let codec = codec_of(g);
        let ad = mk_account(m.pk, st.owner, st.lamports, st.data.clone(), st.slot, st.wv, codec);
        g.note(|| {
            format!(
                "update acc {} {} {}{}",
                short(&ad.pubkey),
                show(&Some(st.clone())),
                cname(level),
                if admitted { "" } else { " (out of scope)" }
            )
        });
        let was_tracked = m.tracked;
        let before = m.view(&self.slots, 0).map(|s| s.ver());
        let removable = st.deleted() || !self.filters.satisfies(&m.pk, &st);
        // a newer state of the same slot is there, and nothing that may have removed it has happened
        let node = &self.slots.v[slot_idx];
        let superseded = !self.gaps
            && was_tracked
            && level == 0
            && node.level == 0
            && !node.abandoned
            && node.num > self.slots.fnum()
            && m.view(&self.slots, 2).map_or(true, |f| f.slot <= node.num)
            && m.ups.iter().any(|(s, _, _)| s.slot == st.slot && s.wv > st.wv);
        let ret = if level == 2 && g.bool() {
            self.store.initilize_or_update_account(ad);
            None
        } else {
            Some(self.store.update_account(ad, commitment(level)))
        };
        if admitted {
            m.tracked = true;
            m.ups.push((st.clone(), level, slot_idx));
        }
        if let Some(r) = ret {
            if !admitted {
                ensure!("rejected_result", !r, "update of an account out of scope reported as applied");
            } else if superseded {
                g.class("superseded");
                ensure!("superseded_result", !r, "update with a state older than the one of the same slot reported as applied");
            } else if !removable && (!was_tracked || before.map_or(true, |b| b < st.ver())) {
                ensure!("applied_result", r, "applied update reported as not applied");
            }
        }
        Ok(admitted)
    }

    fn queries(&self, g: &mut G) -> (Pubkey, Option<Vec<Cond>>) {
        let p = prog(g.below(4));
        let conds = match g.weighted(&[3, 1, 4]) {
            0 => None,
            1 => Some(vec![]),
            _ => {
                let mut v = vec![];
                if !self.filters.conds.is_empty() && g.chance(3, 4) {
                    let i = g.below(self.filters.conds.len() as u64) as usize;
                    v.extend(self.filters.conds[i].1.clone());
                }
                if v.is_empty() || g.chance(1, 2) {
                    v.push(small_cond(g));
                }
                g.shuffle(&mut v);
                Some(v)
            }
        };
        (p, conds)
    }

    fn check_gpa(&self, g: &mut G, exhaustive: bool) -> R {
        let n = if exhaustive { 3 } else { 1 };
        for _ in 0..n {
            let (p, conds) = self.queries(g);
            let spelled: Option<Vec<AccountFilterType>> = conds.as_ref().map(|c| spell_all(g, c));
            for l in 0..3 {
                let c = commitment(l);
                let got = self.store.get_program_accounts(p, spelled.clone(), c);
                let q = || format!("program {} filters {:?} at {}", short(&p), conds, cname(l));
                match got {
                    Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters) => {
                        ensure!(
                            "gpa_refused",
                            !self.filters.certainly_covered(&p, conds.as_deref()),
                            "query {} is covered by the filters but refused",
                            q()
                        );
                    }
                    Err(e) => return fail("gpa_error", format!("query {} failed: {e:?}", q())),
                    Ok(v) => {
                        ensure!(
                            "gpa_uncovered",
                            !self.filters.certainly_uncovered(&p, conds.as_deref()),
                            "query {} is not covered by the filters but answered",
                            q()
                        );
                        let mut expect: BTreeMap<Pubkey, St> = BTreeMap::new();
                        for m in &self.accs {
                            if let Ok(Some(a)) = self.store.get_account(m.pk, c) {
                                let s = St::of(&a);
                                if s.owner == p
                                    && s.lamports > 0
                                    && conds.iter().flatten().all(|c| c.holds(&s.data))
                                {
                                    expect.insert(m.pk, s);
                                }
                            }
                        }
                        let mut seen = BTreeSet::new();
                        for a in &v {
                            ensure!("gpa_duplicate", seen.insert(a.pubkey), "query {} returned {} twice", q(), short(&a.pubkey));
                            let s = St::of(a);
                            match expect.get(&a.pubkey) {
                                None => {
                                    return fail(
                                        "gpa_extra",
                                        format!("query {} returned {} {}, reads do not", q(), short(&a.pubkey), show(&Some(s))),
                                    )
                                }
                                Some(e) => ensure!(
                                    "gpa_state",
                                    *e == s,
                                    "query {} returned {} as {}, get_account returns {}",
                                    q(),
                                    short(&a.pubkey),
                                    show(&Some(s)),
                                    show(&Some(e.clone()))
                                ),
                            }
                        }
                        for (k, e) in &expect {
                            ensure!("gpa_missing", seen.contains(k), "query {} lacks {} {}", q(), short(k), show(&Some(e.clone())));
                        }
                        g.class_if(!v.is_empty(), "gpa_nonempty");
                        g.class_if(!v.is_empty() && conds.iter().flatten().count() > 0, "gpa_filtered_nonempty");
                    }
                }
            }
        }
        Ok(())
    }

    fn check_reads(&self) -> R {
        for m in &self.accs {
            for l in 0..3 {
                let got = self.store.get_account(m.pk, commitment(l));
                let got = match got {
                    Ok(x) => x.as_ref().map(St::of),
                    Err(e) => return fail("read_error", format!("get_account failed with {e:?}")),
                };
                let want = m.read(&self.slots, l).cloned();
                ensure!(
                    format!("read_{}", cname(l)),
                    got == want,
                    "acc {} at {}: store returns {}, expected {}",
                    short(&m.pk),
                    cname(l),
                    show(&got),
                    show(&want)
                );
            }
        }
        Ok(())
    }

    /// no state returned at a commitment may come from a slot that never reached it
    fn check_forks(&self, g: &mut G, results: &[AccountData], level: usize) -> R {
        let ok = |m: &AccModel, s: &St, l: usize| {
            m.ups
                .iter()
                .any(|(u, c, i)| u == s && (*c >= l || self.slots.v[*i].level >= l))
        };
        for m in &self.accs {
            for l in 1..3 {
                if let Ok(Some(a)) = self.store.get_account(m.pk, commitment(l)) {
                    let s = St::of(&a);
                    ensure!("fork_read", ok(m, &s, l), "acc {} at {} returns {} of a slot that is not {}", short(&m.pk), cname(l), show(&Some(s)), cname(l));
                }
            }
        }
        for p in 0..3 {
            for l in 1..3 {
                if let Ok(v) = self.store.get_program_accounts(prog(p), None, commitment(l)) {
                    for a in &v {
                        let s = St::of(a);
                        let m = self.accs.iter().find(|m| m.pk == a.pubkey).unwrap();
                        ensure!("fork_gpa", ok(m, &s, l), "program query at {} returns {} {} of a slot that is not {}", cname(l), short(&m.pk), show(&Some(s)), cname(l));
                    }
                }
            }
        }
        if level > 0 {
            for a in results {
                let s = St::of(a);
                let m = self.accs.iter().find(|m| m.pk == a.pubkey).unwrap();
                ensure!("fork_result", ok(m, &s, level), "notification reported {} {} of a slot that is not {}", short(&m.pk), show(&Some(s)), cname(level));
            }
        }
        if g.chance(1, 4) {
            if let Ok(b) = self.store.create_snapshot(prog(0)) {
                let v: Vec<AccountData> = bincode::deserialize(&b).unwrap_or_default();
                for a in &v {
                    let s = St::of(a);
                    let m = self.accs.iter().find(|m| m.pk == a.pubkey).unwrap();
                    ensure!("fork_snapshot", ok(m, &s, 2), "snapshot holds {} {} of a slot that is not finalized", short(&m.pk), show(&Some(s)));
                }
            }
        }
        Ok(())
    }

    fn views(&self, level: usize) -> Vec<Option<(u64, u64)>> {
        self.accs
            .iter()
            .map(|m| m.view(&self.slots, level).map(|s| s.ver()))
            .collect()
    }

    fn notify(&mut self, g: &mut G, p: &Profile, i: usize, level: usize) -> R {
        g.note(|| {
            let n = &self.slots.v[i];
            format!(
                "notify slot {} (parent {}) {}",
                n.num,
                n.parent.map(|x| self.slots.v[x].num).unwrap_or(0),
                cname(level)
            )
        });
        let before: Vec<Vec<Option<(u64, u64)>>> = (0..3).map(|l| self.views(l)).collect();
        let info = self.slots.info(i);
        let res = self.store.process_slot_data(info, commitment(level));
        self.slots.notify(i, level);
        g.note(|| format!("  -> {:?}", res.iter().map(|a| (short(&a.pubkey), a.updated_slot, a.write_version)).collect::<Vec<_>>()));
        let mut promoted_by_ancestor = false;
        let mut late_promotion = false;
        let announcement = level == 0;
        let mut deletion = false;
        let mut want: BTreeMap<(Pubkey, u64, u64), Vec<St>> = BTreeMap::new();
        for (k, m) in self.accs.iter().enumerate() {
            // an announcement promotes the ancestors of a slot that was confirmed without them
            let level = level.max(1);
            if !self.gaps {
                let v = m.view(&self.slots, level);
                if v.map(|s| s.ver()) != before[level][k] {
                    let s = v.unwrap().clone();
                    promoted_by_ancestor |= s.slot != info.slot;
                    late_promotion |= announcement;
                    deletion |= s.deleted();
                    want.entry((m.pk, s.slot, s.wv)).or_default().push(s);
                }
            }
        }
        g.class_if(promoted_by_ancestor, "promoted_by_ancestor");
        g.class_if(late_promotion, "promoted_by_late_parent");
        g.class_if(deletion, "deletion_promoted");
        match p.check {
            Check::Results => {
                let got = multiset(&res);
                if got != want {
                    let f = |m: &BTreeMap<(Pubkey, u64, u64), Vec<St>>| {
                        m.iter()
                            .map(|(k, v)| format!("{}@({},{})x{}", short(&k.0), k.1, k.2, v.len()))
                            .collect::<Vec<_>>()
                            .join(" ")
                    };
                    return fail("results", format!("notification of slot {} at {} reported [{}], expected [{}]", info.slot, cname(level), f(&got), f(&want)));
                }
                if promoted_by_ancestor || deletion {
                    g.nontrivial = true;
                }
            }
            Check::Reads => {
                if promoted_by_ancestor {
                    g.nontrivial = true;
                }
            }
            Check::Forks => {
                self.check_forks(g, &res, level)?;
            }
            Check::Abandoned => {
                for (k, m) in self.accs.iter().enumerate() {
                    let v = m.view(&self.slots, 0).map(|s| s.ver());
                    if v < before[0][k] {
                        g.class_if(v.is_some(), "rolled_back");
                        g.class_if(v.is_none(), "vanished");
                        g.nontrivial = true;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// program queries at processed against the model
    fn check_programs(&self) -> R {
        for p in 0..3 {
            let Ok(v) = self.store.get_program_accounts(prog(p), None, commitment(0)) else { continue };
            let got: BTreeMap<Pubkey, St> = v.iter().map(|a| (a.pubkey, St::of(a))).collect();
            ensure!("program_duplicate", got.len() == v.len(), "query of program {p} returned an account twice");
            for m in &self.accs {
                let want = m.read(&self.slots, 0).filter(|s| s.owner == prog(p)).cloned();
                let got = got.get(&m.pk).cloned();
                ensure!(
                    "program_processed",
                    got == want,
                    "query of program {p} at processed returns acc {} as {}, expected {}",
                    short(&m.pk),
                    show(&got),
                    show(&want)
                );
            }
        }
        Ok(())
    }

    fn can_notify(&self, i: usize, level: usize) -> bool {
        if self.late_parents && level > 0 {
            let n = &self.slots.v[i];
            if n.parent.is_none() || n.level < level && (n.num <= self.slots.fnum() || !self.slots.is_descendant(i, self.slots.f)) {
                return false;
            }
            // there is one confirmed chain
            let confirmed = (0..self.slots.v.len()).filter(|j| self.slots.v[*j].level >= 1 && self.slots.num(*j) > self.slots.fnum());
            for j in confirmed {
                if !self.slots.is_descendant(i, j) && !self.slots.is_descendant(j, i) {
                    return false;
                }
            }
            if level == 1 {
                return true;
            }
        }
        if self.gaps && level > 0 {
            let n = &self.slots.v[i];
            return n.parent.is_some() && n.num > self.slots.fnum() && self.slots.is_descendant(i, self.slots.f);
        }
        self.slots.can_notify(i, level)
    }

    fn settle(&mut self, g: &mut G, p: &Profile) {
        if self.gaps {
            // the model is an upper bound: nothing written is forgotten
            return;
        }
        for k in 0..self.accs.len() {
            let was = self.accs[k].tracked;
            self.accs[k].settle(&self.slots, &self.filters);
            if was && !self.accs[k].tracked {
                g.class("removed");
                if p.check == Check::Lifecycle || p.check == Check::Gauge {
                    g.nontrivial = true;
                }
            }
            if p.check == Check::Lifecycle && self.accs[k].tracked {
                if let (Some(f), Some(x)) = (self.accs[k].view(&self.slots, 2), self.accs[k].view(&self.slots, 0)) {
                    if f.deleted() && f.ver() < x.ver() {
                        g.class("deletion_finalized_under_newer");
                        g.nontrivial = true;
                    }
                }
            }
        }
    }

    fn after_step(&mut self, g: &mut G, p: &Profile) -> R {
        self.settle(g, p);
        match p.check {
            Check::Reads => self.check_reads(),
            Check::Forks => {
                if (self.deep || self.accs.len() > 10) && !g.chance(1, 4) {
                    return Ok(());
                }
                self.check_forks(g, &[], 0)
            }
            Check::Gpa => {
                if g.chance(1, 3) {
                    self.check_gpa(g, false)
                } else {
                    Ok(())
                }
            }
            Check::Lifecycle => {
                self.check_reads()?;
                for m in &self.accs {
                    ensure!(
                        "tracking",
                        self.store.account_store_contains_key(&m.pk) == m.tracked,
                        "acc {} tracked by the store: {}, expected {}",
                        short(&m.pk),
                        !m.tracked,
                        m.tracked
                    );
                }
                if g.chance(1, 4) {
                    self.check_gpa(g, false)?;
                }
                Ok(())
            }
            Check::Abandoned => {
                self.check_reads()?;
                if g.chance(1, 2) {
                    self.check_programs()?;
                }
                Ok(())
            }
            Check::Gauge => {
                let held = self.accs.iter().filter(|m| m.tracked).count() as i64;
                let got = stored_gauge() - self.gauge.unwrap_or(0);
                ensure!("gauge", got == held, "the gauge counts {got} accounts, the store holds {held}");
                Ok(())
            }
            Check::Results | Check::None => Ok(()),
        }
    }

    fn step(&mut self, g: &mut G, p: &Profile) -> R {
        // deep histories pile up slots that are not finalized
        let (steps, levels) = if self.deep { ([4, 16, 4, 1], [12, 1, 1]) } else { ([5, 3, 5, 1], [2, 4, 3]) };
        match g.weighted(&steps) {
            0 => {
                // account update
                let a = g.below(self.accs.len() as u64) as usize;
                let mut live = self.slots.live();
                if live.is_empty() {
                    live.push(self.slots.grow(g, p.fork_pct));
                }
                let i = match g.weighted(&[3, 2]) {
                    0 => *live.last().unwrap(),
                    _ => *g.pick(&live),
                };
                let num = self.slots.num(i);
                let late = self.slots.v[i].level > 0;
                let confirmed = g.chance(1, 8) && self.can_notify(i, 1);
                let Some(st) = self.gen_state(g, a, num, p) else { return Ok(()) };
                let in_scope = self.filters.satisfies(&self.accs[a].pk, &st);
                let moved = self.accs[a].ups.last().map_or(false, |(s, _, _)| s.owner != st.owner);
                if confirmed {
                    self.update(g, a, i, st, 1)?;
                    // removal conditions can only arise once the slot is finalized
                    self.notify(g, p, i, 1)?;
                } else {
                    self.update(g, a, i, st.clone(), 0)?;
                }
                if late {
                    g.class("late_update");
                    if p.check == Check::Reads {
                        g.nontrivial = true;
                    }
                }
                if p.check == Check::Gpa && moved && in_scope {
                    g.class("moved");
                }
                if p.check == Check::Forks && !self.slots.is_descendant(i, self.slots.f) {
                    g.class("dead_fork_write");
                }
            }
            1 => {
                let i = self.slots.grow(g, p.fork_pct);
                g.note(|| format!("new slot {} on {}", self.slots.num(i), self.slots.num(self.slots.v[i].parent.unwrap())));
                let quiet = if self.gaps || self.late_parents { 3 } else { 1 };
                if !g.chance(quiet, 5) || (self.deep && !g.chance(quiet, 50)) {
                    self.notify(g, p, i, 0)?;
                }
            }
            2 => {
                let level = g.weighted(&levels);
                let all: Vec<usize> = (0..self.slots.v.len())
                    .filter(|i| self.can_notify(*i, level))
                    .filter(|i| level == 0 || self.slots.num(*i) >= self.slots.fnum() || self.slots.v[*i].level >= level)
                    .collect();
                if all.is_empty() {
                    return Ok(());
                }
                let fresh: Vec<usize> = all.iter().cloned().filter(|i| self.slots.v[*i].level < level || !self.slots.v[*i].notified).collect();
                let i = if self.deep && level > 0 && !fresh.is_empty() && g.chance(3, 4) {
                    // a long way to the slot that was promoted before
                    *fresh.last().unwrap()
                } else if !fresh.is_empty() && g.chance(7, 8) {
                    // lean to older slots so that chains grow long
                    let k = g.below(fresh.len() as u64).min(g.below(fresh.len() as u64)) as usize;
                    fresh[k]
                } else {
                    g.class("repeat_notification");
                    *g.pick(&all)
                };
                if p.check == Check::Forks && level > 0 {
                    let writes_elsewhere = self.accs.iter().any(|m| m.ups.iter().any(|(_, _, j)| !self.slots.is_descendant(i, *j) && !self.slots.is_descendant(*j, i)));
                    if writes_elsewhere {
                        g.nontrivial = true;
                    }
                }
                self.notify(g, p, i, level)?;
            }
            _ => {
                // finalized state from a snapshot or RPC: a slot on the finalized chain, or a slot
                // the notifications have not caught up with
                let a = g.below(self.accs.len() as u64) as usize;
                let c: Vec<usize> = (0..self.slots.v.len())
                    .filter(|i| {
                        self.slots.v[*i].level == 2
                            || (self.slots.is_descendant(*i, self.slots.f) && self.slots.num(*i) > self.slots.fnum())
                    })
                    .collect();
                let i = *g.pick(&c);
                let num = self.slots.num(i);
                if let Some(st) = self.gen_state(g, a, num, p) {
                    self.update(g, a, i, st, 2)?;
                    g.class("finalized_update");
                }
            }
        }
        self.after_step(g, p)
    }

    fn run(g: &mut G, scope_games: bool, p: &Profile) -> Result<Built, pbt::Fail> {
        Self::run_with(g, scope_games, p, false)
    }

    fn run_with(g: &mut G, scope_games: bool, p: &Profile, gaps: bool) -> Result<Built, pbt::Fail> {
        // a few histories are long, or have many accounts
        let kind = g.weighted(&[60, 1, 1]);
        let n = match kind {
            0 => g.range(2, 4),
            1 => g.range(2, 10),
            _ => g.range(20, 120),
        };
        let mut b = Built::new(g, scope_games, n);
        b.deep = kind == 1;
        b.gaps = gaps;
        b.late_parents = !gaps && g.chance(1, 5);
        b.gauge = (p.check == Check::Gauge).then(stored_gauge);
        g.class_if(b.late_parents, "late_parents");
        g.class_if(kind == 1, "deep");
        g.class_if(kind == 2, "many_accounts");
        let hi = p.hi * g.size as usize * [1, 8, 6][kind];
        let mut done = 0;
        while g.more(done, p.lo, hi) {
            b.step(g, p)?;
            done += 1;
        }
        Ok(b)
    }
}

fn s01(g: &mut G) -> R {
    let fork_pct = [10, 30, 0][g.weighted(&[2, 1, 1])];
    Built::run(
        g,
        false,
        &Profile { check: Check::Reads, fork_pct, delete_pct: 0, stray_pct: 0, lo: 1, hi: 60 },
    )
    .map(|_| ())
}

fn s03(g: &mut G) -> R {
    Built::run(
        g,
        false,
        &Profile { check: Check::Forks, fork_pct: 50, delete_pct: 3, stray_pct: 0, lo: 1, hi: 50 },
    )
    .map(|_| ())
}

/// ancestry is only partly announced: nothing may be promoted by guessing
fn s03_gaps(g: &mut G) -> R {
    let fork_pct = *g.pick(&[50, 20]);
    Built::run_with(
        g,
        false,
        &Profile { check: Check::Forks, fork_pct, delete_pct: 3, stray_pct: 0, lo: 1, hi: 50 },
        true,
    )
    .map(|_| ())
}

fn s04(g: &mut G) -> R {
    let games = g.chance(2, 3);
    let p = Profile { check: Check::Gpa, fork_pct: 15, delete_pct: 12, stray_pct: 10, lo: 1, hi: 50 };
    let mut b = Built::run(g, games, &p)?;
    b.check_gpa(g, true)?;
    b.settle(g, &p);
    g.nontrivial = g.classes.contains_key("moved") && g.classes.contains_key("gpa_nonempty");
    Ok(())
}

fn s05(g: &mut G) -> R {
    let p = Profile { check: Check::Lifecycle, fork_pct: 10, delete_pct: 25, stray_pct: 20, lo: 1, hi: 45 };
    Built::run(g, true, &p).map(|_| ())
}

fn s06(g: &mut G) -> R {
    let games = g.chance(1, 4);
    let del = if g.chance(1, 3) { 20 } else { 0 };
    Built::run(
        g,
        games,
        &Profile { check: Check::Results, fork_pct: 15, delete_pct: del, stray_pct: if games { 10 } else { 0 }, lo: 1, hi: 60 },
    )
    .map(|_| ())
}

// ------------------------------------------------------------------ S02

fn s10(g: &mut G) -> R {
    let fork_pct = *g.pick(&[50, 25]);
    let delete_pct = *g.pick(&[0, 8]);
    Built::run(
        g,
        false,
        &Profile { check: Check::Abandoned, fork_pct, delete_pct, stray_pct: 0, lo: 1, hi: 60 },
    )
    .map(|_| ())
}

fn s12_feed(g: &mut G) -> R {
    let p = Profile { check: Check::Gauge, fork_pct: 15, delete_pct: 25, stray_pct: 15, lo: 1, hi: 40 };
    let _alone = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let b = Built::run(g, true, &p)?;
    if g.chance(1, 3) {
        let other = fresh(&b.filters);
        let before = stored_gauge();
        let mut want = BTreeSet::new();
        for program in [prog(0), prog(1)] {
            let Ok(bytes) = b.store.create_snapshot(program) else { continue };
            want.extend(finalized_of(&b, program).into_iter().filter(|(pk, s)| b.filters.satisfies(pk, s)).map(|(pk, _)| pk));
            for times in 1..=g.size(1, 2) {
                match no_panic(|| other.load_from_snapshot(program, bytes.clone())) {
                    Ok(Ok(())) => {}
                    r => return fail("snapshot_load", format!("loading a snapshot: {r:?}")),
                }
                let got = stored_gauge() - before;
                ensure!(
                    "gauge_loaded",
                    got == want.len() as i64,
                    "after a snapshot was loaded {times} times the gauge grew by {got}, the snapshots hold {} accounts",
                    want.len()
                );
            }
        }
    }
    Ok(())
}

fn s12_parallel(g: &mut G) -> R {
    enum Op {
        Update(AccountData, Commitment),
        Slot(SlotInfo, Commitment),
    }
    let n_acc = g.range(1, 4);
    let mut filters = RefFilters::default();
    filters.all.insert(prog(0));
    filters.all.insert(prog(1));
    let mut scripts: Vec<Vec<Op>> = vec![vec![], vec![], vec![]];
    let mut wv = 10;
    let slots = g.range(2, 6);
    for slot in 100..100 + slots {
        for _ in 0..g.size(1, 6) {
            wv += 1;
            let deleted = g.chance(35, 100);
            let owner = prog(g.below(2));
            let a = mk_account(acc(g.below(n_acc)), owner, if deleted { 0 } else { wv }, vec![1, 2, 3], slot, wv, CompressionMethod::None);
            let c = if g.chance(1, 4) { Commitment::Finalized } else { Commitment::Processed };
            scripts[g.below(2) as usize].push(Op::Update(a, c));
        }
        let info = SlotInfo { slot, parent: slot - 1, root: 0 };
        scripts[2].push(Op::Slot(info, Commitment::Processed));
        if g.chance(3, 4) {
            scripts[2].push(Op::Slot(info, *g.pick(&[Commitment::Confirmed, Commitment::Finalized])));
        }
    }
    g.note(|| format!("{} updates by two threads, {} notifications by a third", scripts[0].len() + scripts[1].len(), scripts[2].len()));
    let _alone = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let store = fresh(&filters);
    let before = stored_gauge();
    let removed = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for script in scripts {
            let (store, removed) = (&store, &removed);
            s.spawn(move || {
                for op in script {
                    match op {
                        Op::Update(a, c) => {
                            let pk = a.pubkey;
                            let held = store.account_store_contains_key(&pk);
                            store.update_account(a, c);
                            if held && !store.account_store_contains_key(&pk) {
                                removed.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                        Op::Slot(i, c) => {
                            let n = |k: u64| (0..k).filter(|k| store.account_store_contains_key(&acc(*k))).count();
                            let held = n(n_acc);
                            store.process_slot_data(i, c);
                            if n(n_acc) < held {
                                removed.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                    }
                }
            });
        }
    });
    let held = (0..n_acc).filter(|k| store.account_store_contains_key(&acc(*k))).count() as i64;
    let got = stored_gauge() - before;
    ensure!("gauge_parallel", got == held, "the gauge counts {got} accounts, the store holds {held}");
    g.nontrivial = removed.load(std::sync::atomic::Ordering::Relaxed);
    Ok(())
}

fn s02(g: &mut G) -> R {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&vec![program_filter(prog(0), None), program_filter(prog(1), None)]);
    let store = InmemoryAccountStore::new(Arc::new(f));
    let n = g.range(1, 3);
    let kind = g.weighted(&[40, 1]);
    let span = if kind == 1 { 300 } else { *g.pick(&[6u64, 12, 30]) };
    let sc = scale(g);
    let mut used: Vec<BTreeSet<(u64, u64)>> = vec![BTreeSet::new(); n as usize];
    let mut last: Vec<[Option<(u64, u64)>; 3]> = vec![[None; 3]; n as usize];
    let mut explicit: BTreeMap<u64, usize> = BTreeMap::new();
    let mut fmax = 0u64;
    let hi = 60 * g.size as usize * [1, 8][kind];
    let mut counter = 0;
    let mut done = 0;
    while g.more(done, 1, hi) {
        done += 1;
        let slot = sc.slot + g.below(span);
        let mut must: Option<(usize, usize, (u64, u64))> = None;
        if g.bool() {
            let a = g.below(n) as usize;
            let mut wv = sc.wv + g.range(0, 9);
            while !used[a].insert((slot, wv)) {
                wv += 1;
            }
            let level = g.weighted(&[6, 2, 2]);
            counter += 1;
            g.note(|| format!("update acc {a} slot {slot} wv {wv} {}", cname(level)));
            let o = prog(g.below(2));
            let ad = mk_account(acc(a as u64), o, sc.lamports + 1 + counter, small_data(g), slot, wv, codec_of(g));
            if last[a][level].map_or(false, |v| v > (slot, wv)) {
                g.class("stale_update");
                g.nontrivial = true;
            }
            store.update_account(ad, commitment(level));
            let l = explicit.get(&slot).copied().unwrap_or(0).max(level);
            if slot >= fmax && l > 0 {
                must = Some((a, l, (slot, wv)));
            }
        } else {
            let level = g.weighted(&[2, 3, 2]);
            let parent = match g.weighted(&[6, 3, 1]) {
                0 => slot - 1,
                1 => slot - 1 - g.below(span.min(slot)),
                _ => slot,
            };
            g.note(|| format!("notify slot {slot} parent {parent} {}", cname(level)));
            if explicit.get(&slot).map_or(false, |l| *l >= level) {
                g.class("repeat_or_lower");
                g.nontrivial = true;
            }
            store.process_slot_data(SlotInfo { slot, parent, root: 0 }, commitment(level));
            let e = explicit.entry(slot).or_insert(0);
            *e = (*e).max(level);
            if level == 2 {
                fmax = fmax.max(slot);
            }
        }
        for a in 0..n as usize {
            let mut now = [None; 3];
            for l in 0..3 {
                now[l] = match store.get_account(acc(a as u64), commitment(l)) {
                    Ok(x) => x.map(|x| (x.updated_slot, x.write_version)),
                    Err(e) => return fail("read_error", format!("{e:?}")),
                };
                if l > 0 {
                    ensure!(
                        format!("regress_{}", cname(l)),
                        now[l] >= last[a][l],
                        "acc {a} at {} went from {:?} to {:?}",
                        cname(l),
                        last[a][l],
                        now[l]
                    );
                    ensure!(
                        format!("order_{}", cname(l)),
                        now[l - 1] >= now[l],
                        "acc {a}: {} is {:?} but {} is {:?}",
                        cname(l - 1),
                        now[l - 1],
                        cname(l),
                        now[l]
                    );
                }
            }
            last[a] = now;
        }
        if let Some((a, l, v)) = must {
            ensure!(
                "slot_keeps_commitment",
                last[a][l] >= Some(v),
                "slot {} was announced {}, but its update {:?} of acc {a} is not readable there ({:?})",
                v.0,
                cname(l),
                v,
                last[a][l]
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S07

fn quiet() -> Profile {
    Profile { check: Check::None, fork_pct: 15, delete_pct: 8, stray_pct: 5, lo: 1, hi: 50 }
}

fn fresh(filters: &RefFilters) -> InmemoryAccountStore {
    let mut s = SimpleFilterStore::default();
    s.add_account_filters(&filters.build());
    InmemoryAccountStore::new(Arc::new(s))
}

fn snap(b: &Built, p: Pubkey) -> Result<Vec<u8>, pbt::Fail> {
    b.store.create_snapshot(p).map_err(|e| pbt::Fail {
        key: "create_snapshot".into(),
        msg: format!("snapshot of a fully covered program failed: {e:?}"),
    })
}

fn finalized_of(b: &Built, p: Pubkey) -> BTreeMap<Pubkey, St> {
    b.accs
        .iter()
        .filter_map(|m| m.read(&b.slots, 2).filter(|s| s.owner == p).map(|s| (m.pk, s.clone())))
        .collect()
}

fn s07_roundtrip(g: &mut G) -> R {
    let p = quiet();
    let b = Built::run(g, true, &p)?;
    let want = finalized_of(&b, prog(0));
    let bytes = snap(&b, prog(0))?;
    g.nontrivial = !want.is_empty();
    g.class_if(want.len() > 1, "several");
    let target = fresh(&b.filters);
    let times = g.size(1, 2);
    for _ in 0..times {
        let r = target.load_from_snapshot(prog(0), bytes.clone());
        ensure!("load_failed", r.is_ok(), "loading an intact snapshot failed: {r:?}");
    }
    for m in &b.accs {
        for l in 0..3 {
            let got = target.get_account(m.pk, commitment(l)).ok().flatten().as_ref().map(St::of);
            ensure!(
                "roundtrip_read",
                got.as_ref() == want.get(&m.pk),
                "acc {} at {} after loading: {}, finalized in the source: {}",
                short(&m.pk),
                cname(l),
                show(&got),
                show(&want.get(&m.pk).cloned())
            );
        }
    }
    for l in 0..3 {
        let got: BTreeMap<Pubkey, St> = match target.get_program_accounts(prog(0), None, commitment(l)) {
            Ok(v) => v.iter().map(|a| (a.pubkey, St::of(a))).collect(),
            Err(e) => return fail("roundtrip_gpa", format!("program query failed after loading: {e:?}")),
        };
        ensure!("roundtrip_gpa", got == want, "program query at {} after loading returns {:?}, expected {:?}", cname(l), got, want);
    }
    Ok(())
}

fn s07_merge(g: &mut G) -> R {
    let p = quiet();
    let mut a = Built::run(g, true, &p)?;
    let old_bytes = snap(&a, prog(0))?;
    let old_states = finalized_of(&a, prog(0));
    let mut done = 0;
    while g.more(done, 0, 30) {
        a.step(g, &p)?;
        done += 1;
    }
    let new_bytes = snap(&a, prog(0))?;
    let new_states = finalized_of(&a, prog(0));

    // the target store: same filters, same keys, its own history of other versions
    let mut b = Built {
        store: fresh(&a.filters),
        filters: a.filters.clone(),
        slots: Slots::new(a.scale.slot),
        accs: a
            .accs
            .iter()
            .map(|m| AccModel { used: m.used.clone(), ..AccModel::new(m.pk) })
            .collect(),
        counter: 5000,
        scale: a.scale,
        deep: false,
        gaps: false,
        late_parents: false,
        gauge: None,
    };
    g.note(|| "--- target store".into());
    let mut done = 0;
    while g.more(done, 0, 40) {
        b.step(g, &p)?;
        done += 1;
    }
    let loads = g.size(1, 3);
    for _ in 0..loads {
        let (bytes, states, which) = match g.weighted(&[2, 1]) {
            0 => (&new_bytes, &new_states, "newer"),
            _ => (&old_bytes, &old_states, "older"),
        };
        g.note(|| format!("load {which} snapshot: {:?}", states.iter().map(|(k, s)| (short(k), s.ver())).collect::<Vec<_>>()));
        // a state at or below one whose removal was finalized leaves no trace to compare with
        b.accs.retain(|m| match (m.floor, states.get(&m.pk)) {
            (Some(fl), Some(s)) => s.ver() > fl,
            _ => true,
        });
        if b.accs.is_empty() {
            return Ok(());
        }
        let r = b.store.load_from_snapshot(prog(0), bytes.clone());
        ensure!("load_failed", r.is_ok(), "loading an intact snapshot failed: {r:?}");
        for m in b.accs.iter_mut() {
            if let Some(s) = states.get(&m.pk) {
                if m.tracked {
                    g.nontrivial = true;
                    if m.ups.iter().any(|(u, _, _)| u.ver() > s.ver()) {
                        g.class("target_newer");
                    }
                    if m.ups.iter().all(|(u, _, _)| u.ver() < s.ver()) {
                        g.class("snapshot_newer");
                    }
                }
                if m.tracked || b.filters.satisfies(&m.pk, s) {
                    m.tracked = true;
                    m.ups.push((s.clone(), 2, 0));
                }
            }
        }
        b.settle(g, &p);
        b.check_reads().map_err(|f| pbt::Fail { key: format!("merge_{}", f.key), msg: f.msg })?;
    }
    // the store keeps working afterwards
    for _ in 0..g.size(0, 6) {
        b.step(g, &p)?;
        b.check_reads().map_err(|f| pbt::Fail { key: format!("merge_{}", f.key), msg: f.msg })?;
    }
    Ok(())
}

fn s07_corrupt(g: &mut G) -> R {
    let p = Profile { lo: 3, hi: 16, ..quiet() };
    let mut b = Built::run(g, false, &p)?;
    let st = St { slot: b.slots.last_num() + 50, wv: 1, owner: prog(0), lamports: 777, data: payload(g, 60) };
    let ad = mk_account(b.accs[0].pk, st.owner, st.lamports, st.data.clone(), st.slot, st.wv, codec_of(g));
    b.store.update_account(ad, Commitment::Finalized);
    b.accs[0].tracked = true;
    b.accs[0].ups.push((st, 2, 0));
    let mut bytes = snap(&b, prog(0))?;
    damage(g, &mut bytes);
    g.note(|| format!("damaged snapshot of {} bytes: {:02x?}", bytes.len(), &bytes[..bytes.len().min(80)]));
    // load in the same store or a fresh one
    let same = g.bool();
    let other = fresh(&b.filters);
    let target = if same { &b.store } else { &other };
    match bincode::deserialize::<Vec<AccountData>>(&bytes) {
        Err(_) => {
            g.nontrivial = true;
            g.class("undecodable");
            let r = pbt::no_panic(|| target.load_from_snapshot(prog(0), bytes.clone()));
            match r {
                Err((loc, m)) => return fail("corrupt_panic", format!("loading damaged bytes panicked at {loc}: {m}")),
                Ok(r) => ensure!("corrupt_accepted", r.is_err(), "bytes that are not a snapshot were accepted"),
            }
            if same {
                b.check_reads().map_err(|f| pbt::Fail { key: format!("corrupt_{}", f.key), msg: f.msg })?;
            } else {
                for m in &b.accs {
                    ensure!("corrupt_partial", !target.account_store_contains_key(&m.pk), "failed load left accounts behind");
                }
            }
        }
        Ok(v) => {
            g.class("decodable");
            use lite_account_manager_common::account_data::Data;
            if v.iter().all(|a| matches!(a.account.data, Data::Uncompressed(_))) {
                if let Err((loc, m)) = pbt::no_panic(|| target.load_from_snapshot(prog(0), bytes.clone())) {
                    return fail("corrupt_panic", format!("loading damaged bytes panicked at {loc}: {m}"));
                }
            }
        }
    }
    Ok(())
}

/// random damage to a byte string
pub fn damage(g: &mut G, bytes: &mut Vec<u8>) {
    let n = g.size(1, 3);
    for _ in 0..n {
        match g.weighted(&[3, 2, 2, 1, 1]) {
            0 if !bytes.is_empty() => {
                let i = g.below(bytes.len() as u64) as usize;
                bytes[i] = [0, 1, 2, 0x7f, 0x80, 0xff, 3, 9][g.below(8) as usize];
            }
            1 => {
                let n = g.size(0, bytes.len());
                bytes.truncate(n);
            }
            2 if bytes.len() >= 8 => {
                // a length field
                let i = g.below((bytes.len() - 7) as u64) as usize;
                let v = g.edgy_u64();
                bytes[i..i + 8].copy_from_slice(&v.to_le_bytes());
            }
            3 => {
                let n = g.size(0, 64);
                *bytes = g.bytes(n);
            }
            _ if !bytes.is_empty() => {
                let i = g.below(bytes.len() as u64) as usize;
                let n = g.size(0, (bytes.len() - i).min(40));
                bytes.drain(i..i + n);
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ S08

fn s08(g: &mut G) -> R {
    let pk = acc(0);
    let mut counter = 0u64;
    // a few sequences have many slots
    let kind = g.weighted(&[40, 1]);
    let span = if kind == 1 { g.range(40, 150) } else { g.range(2, 10) };
    let sc = scale(g);
    let mut used = BTreeSet::new();
    let mut mk = |g: &mut G| {
        counter += 1;
        let slot = sc.slot + g.below(span);
        let mut wv = sc.wv + g.range(1, 6);
        while !used.insert((slot, wv)) {
            wv += 1;
        }
        let s = St { slot, wv, owner: prog(g.below(2)), lamports: if g.chance(1, 8) { 0 } else { sc.lamports + 1 + counter }, data: small_data(g) };
        let c = codec_of(g);
        let ad = mk_account(pk, s.owner, s.lamports, s.data.clone(), s.slot, s.wv, c);
        (s, ad)
    };
    let mut proc: BTreeMap<u64, St> = BTreeMap::new();
    let mut conf: Option<St> = None;
    let mut fin: Option<St> = None;
    let newer = |cur: &Option<St>, s: &St| cur.as_ref().map_or(true, |c| c.ver() < s.ver());
    let (s, ad) = mk(g);
    let mut obj = match g.weighted(&[3, 1, 1, 1, 1]) {
        0 => AccountDataByCommitment::default(),
        k @ 1..=3 => {
            let l = k - 1;
            g.note(|| format!("new {} {}", show(&Some(s.clone())), cname(l)));
            proc.insert(s.slot, s.clone());
            if l >= 1 {
                conf = Some(s.clone());
            }
            if l >= 2 {
                fin = Some(s.clone());
            }
            AccountDataByCommitment::new(ad, commitment(l))
        }
        _ => {
            g.note(|| format!("initialize {}", show(&Some(s.clone()))));
            proc.insert(s.slot, s.clone());
            conf = Some(s.clone());
            fin = Some(s.clone());
            AccountDataByCommitment::initialize(ad)
        }
    };
    let (mut advanced, mut stale) = (false, false);
    let hi = 30 * g.size as usize * [1, 10][kind];
    let mut done = 0;
    while g.more(done, 1, hi) {
        done += 1;
        match g.weighted(&[[10, 10, 1], [20, 5, 0]][kind]) {
            0 => {
                let (s, ad) = mk(g);
                let l = g.weighted(&[5, 2, 2]);
                g.note(|| format!("update {} {}", show(&Some(s.clone())), cname(l)));
                let r = obj.update(ad, commitment(l));
                let better_slot = proc.get(&s.slot).map_or(true, |p| p.wv < s.wv);
                let adv_c = l >= 1 && newer(&conf, &s);
                let adv_f = l >= 2 && newer(&fin, &s);
                if adv_c || adv_f || (better_slot && proc.last_key_value().map_or(true, |(_, p)| p.ver() < s.ver())) {
                    ensure!("update_result", r, "update {} at {} changed the account but returned false", show(&Some(s.clone())), cname(l));
                } else {
                    stale = true;
                }
                if !better_slot && !adv_c && !adv_f {
                    ensure!("update_result", !r, "update {} at {} changed nothing but returned true", show(&Some(s.clone())), cname(l));
                }
                if better_slot {
                    proc.insert(s.slot, s.clone());
                }
                if adv_c {
                    conf = Some(s.clone());
                }
                if adv_f {
                    fin = Some(s.clone());
                    // what is older than a finalized update is dropped
                    proc.retain(|slot, _| *slot >= s.slot);
                }
            }
            1 => {
                let slot = sc.slot + g.below(span + 1);
                let l = g.weighted(&[1, 4, 4]);
                g.note(|| format!("promote slot {slot} {}", cname(l)));
                let r = obj.promote_slot_commitment(slot, commitment(l));
                let mut want: Option<(St, Option<St>)> = None;
                if let Some(s) = proc.get(&slot).cloned() {
                    if l == 1 && newer(&conf, &s) {
                        want = Some((s.clone(), conf.clone()));
                        conf = Some(s.clone());
                    }
                    if l == 2 {
                        if newer(&fin, &s) {
                            want = Some((s.clone(), fin.clone()));
                            fin = Some(s.clone());
                        }
                        if newer(&conf, &s) {
                            conf = Some(s.clone());
                        }
                    }
                }
                if l == 2 {
                    // states of older slots are of no use any more, but one state always stays
                    while proc.len() > 1 && *proc.first_key_value().unwrap().0 < slot {
                        proc.pop_first();
                    }
                }
                let got = r.as_ref().map(|(a, p)| (St::of(a), p.as_ref().map(St::of)));
                ensure!("promote_result", got == want, "promote slot {slot} {} returned {:?}, expected {:?}", cname(l), got, want);
                advanced |= want.is_some();
                stale |= want.is_none();
            }
            _ => {
                if g.chance(1, 3) {
                    g.note(|| "delete".into());
                    obj.delete();
                    proc.clear();
                    conf = None;
                    fin = None;
                }
            }
        }
        // everything observable
        let got: BTreeMap<u64, St> = obj.processed_accounts.iter().map(|(k, v)| (*k, St::of(v))).collect();
        ensure!("processed_states", got == proc, "processed states {:?}, expected {:?}", got, proc);
        let views = [proc.last_key_value().map(|(_, v)| v.clone()).or(conf.clone()), conf.clone(), fin.clone()];
        for l in 0..3 {
            let got = obj.get_account_data(commitment(l)).as_ref().map(St::of);
            ensure!(format!("view_{}", cname(l)), got == views[l], "{} state {}, expected {}", cname(l), show(&got), show(&views[l]));
        }
        if g.chance(1, 3) {
            let mut conds: Vec<Cond> = (0..g.size(0, 2)).map(|_| small_cond(g)).collect();
            let l = g.below(3) as usize;
            // make matches common
            if let Some(s) = &views[l] {
                if g.bool() {
                    conds.retain(|c| c.holds(&s.data));
                    if g.bool() {
                        conds.push(Cond::Size(s.data.len() as u64));
                    }
                }
            }
            let spelled = spell_all(g, &conds);
            let got = obj.get_account_data_filtered(commitment(l), &spelled).as_ref().map(St::of);
            let want = views[l].clone().filter(|s| conds.iter().all(|c| c.holds(&s.data)));
            ensure!("filtered", got == want, "filtered read {:?} at {}: {}, expected {}", conds, cname(l), show(&got), show(&want));
        }
    }
    g.nontrivial = advanced && stale;
    Ok(())
}
