//! S09: InmemoryAccountStore under concurrent calls
use crate::feed::*;
use crate::gens::*;
use crate::store_props::{acc, prog};
use lite_account_manager_common::account_data::{AccountData, CompressionMethod};
use lite_account_manager_common::account_filter::AccountFilter;
use lite_account_manager_common::account_filters_interface::AccountFiltersStoreInterface;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use pbt::{ensure, fail, Fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S09",
        subs: vec![
            Sub::serial("parallel", 2500, 25000, s09_parallel),
            Sub::serial("storm", 300, 3000, s09_storm),
        ],
        rule: "phases of account updates, slot notifications, reads and program queries issued from 4-6 threads in parallel; the filter store, which the storage calls at its decision points, sleeps at generated calls to open the interleavings; after each phase the store is compared with the sequential model, readers check their own history and that accounts visible at the start of the phase and not deleted in it never miss from reads and program queries; non-trivial = updates of an account and a notification promoting its slot ran in the same phase",
        assumptions: &[
            "a phase only contains messages whose order does not matter to the model (one writer of each state, finalization not above a slot that is being written)",
            "interleavings are sampled, not enumerated; a violation may need several runs to reappear",
        ],
    }]
}

/// a filter store that makes the calling thread pause at chosen calls
struct SlowFilter {
    inner: SimpleFilterStore,
    calls: AtomicU64,
    pauses: BTreeMap<u64, u64>,
}

impl AccountFiltersStoreInterface for SlowFilter {
    fn satisfies(&self, a: &AccountData) -> bool {
        let n = self.calls.fetch_add(1, Ordering::Relaxed);
        if let Some(us) = self.pauses.get(&n) {
            std::thread::sleep(Duration::from_micros(*us));
        } else if n % 3 == 0 {
            std::thread::yield_now();
        }
        self.inner.satisfies(a)
    }
    fn contains_filter(&self, f: &AccountFilter) -> bool {
        self.inner.contains_filter(f)
    }
}

#[derive(Clone)]
enum Msg {
    Update(usize, St, usize),
    Notify(SlotInfo, usize),
}

fn send(store: &InmemoryAccountStore, m: &Msg) {
    match m {
        Msg::Update(a, s, l) => {
            store.update_account(
                mk_account(acc(*a as u64), s.owner, s.lamports, s.data.clone(), s.slot, s.wv, CompressionMethod::None),
                commitment(*l),
            );
        }
        Msg::Notify(i, l) => {
            store.process_slot_data(*i, commitment(*l));
        }
    }
}

fn s09_parallel(g: &mut G) -> R {
    parallel(g, 2, 5, 3, 40)
}
fn s09_storm(g: &mut G) -> R {
    parallel(g, 6, 12, 4, 300)
}

fn parallel(g: &mut G, acc_lo: u64, acc_hi: u64, phases: usize, max_updates: usize) -> R {
    let n = g.range(acc_lo, acc_hi) as usize;
    let mut filters = RefFilters::default();
    filters.all.insert(prog(0));
    filters.all.insert(prog(1));
    let mut inner = SimpleFilterStore::default();
    inner.add_account_filters(&filters.build());
    let everything = Arc::new({
        let mut f = SimpleFilterStore::default();
        f.add_account_filters(&filters.build());
        f
    });
    let mut pauses = BTreeMap::new();
    for _ in 0..g.size(0, 6) {
        pauses.insert(g.below(80), *g.pick(&[20u64, 100, 400, 1500]));
    }
    let store = Arc::new(InmemoryAccountStore::new(Arc::new(SlowFilter {
        inner,
        calls: AtomicU64::new(0),
        pauses,
    })));
    let mut slots = Slots::new(100);
    let mut accs: Vec<AccModel> = (0..n).map(|i| AccModel::new(acc(i as u64))).collect();
    let mut counter = 0u64;
    let mut last = 0usize; // tip of the chain
    // accounts which are never deleted and never change their owner: once visible at a commitment
    // every later read and program query at that commitment has to return them
    let steady: Vec<bool> = (0..n).map(|_| g.bool()).collect();
    for phase in 0..phases {
        // the slots of this phase: a chain on top of the last one
        let mut window = vec![];
        if phase > 0 {
            window.push(last);
        }
        for _ in 0..g.size(1, 3) {
            let num = slots.last_num() + g.range(1, 2);
            last = slots.add(num, last);
            window.push(last);
        }
        let f = window[0];
        // updates
        let mut updates: Vec<Msg> = vec![];
        let mut deleted_at: BTreeMap<usize, usize> = BTreeMap::new();
        let cnt = g.size(2, max_updates);
        for _ in 0..cnt {
            let a = g.below(n as u64) as usize;
            let i = *g.pick(&window);
            counter += 1;
            let slot = slots.num(i);
            let wv = 10 + counter;
            // in the slot that gets finalized during the phase a deletion must be the only state
            let has = accs[a].ups.iter().any(|(_, _, j)| *j == i)
                || updates.iter().any(|m| matches!(m, Msg::Update(x, s, _) if *x == a && s.slot == slot));
            let del = !steady[a] && g.chance(1, 5) && (i != f || !has);
            if i == f && deleted_at.get(&a) == Some(&f) {
                continue;
            }
            if accs[a].floor.map_or(false, |fl| (slot, wv) <= fl || slot == fl.0) {
                continue;
            }
            if del && i == f {
                deleted_at.insert(a, f);
            }
            let st = St {
                slot,
                wv,
                owner: prog(if steady[a] { a as u64 % 2 } else { g.below(2) }),
                lamports: if del { 0 } else { 1000 + counter },
                data: vec![1, 2],
            };
            updates.push(Msg::Update(a, st, 0));
        }
        g.shuffle(&mut updates);
        // notifications of the chain in order, finalization of the first slot somewhere between
        let mut notes: Vec<Msg> = vec![];
        for i in &window {
            if slots.v[*i].parent.is_none() {
                continue;
            }
            if g.chance(3, 4) || *i != f {
                notes.push(Msg::Notify(slots.info(*i), 0));
            }
            if g.chance(2, 3) {
                notes.push(Msg::Notify(slots.info(*i), 1));
            }
        }
        if slots.v[f].parent.is_some() && g.chance(4, 5) {
            let at = g.size(0, notes.len());
            notes.insert(at, Msg::Notify(slots.info(f), 2));
        }
        let writers = g.size(2, 3);
        let readers = g.size(1, 2);
        g.note(|| {
            format!(
                "phase {phase}: slots {:?}, {} updates from {writers} threads, notifications {:?}",
                window.iter().map(|i| slots.num(*i)).collect::<Vec<_>>(),
                updates.len(),
                notes
                    .iter()
                    .map(|m| match m {
                        Msg::Notify(i, l) => format!("{} {}", i.slot, cname(*l)),
                        _ => String::new(),
                    })
                    .collect::<Vec<_>>()
            )
        });
        // every state that may legally be seen from now on
        let mut legal: BTreeMap<usize, Vec<St>> = BTreeMap::new();
        for (a, m) in accs.iter().enumerate() {
            legal.entry(a).or_default().extend(m.ups.iter().map(|(s, _, _)| s.clone()));
        }
        for m in &updates {
            if let Msg::Update(a, s, _) = m {
                legal.entry(*a).or_default().push(s.clone());
            }
        }
        let legal = Arc::new(legal);
        let visible: Arc<Vec<[bool; 3]>> = Arc::new(
            accs.iter()
                .enumerate()
                .map(|(a, m)| [0, 1, 2].map(|l| steady[a] && m.read(&slots, l).is_some()))
                .collect(),
        );
        if visible.iter().any(|v| v[0]) {
            g.class("steady_account");
        }
        let stop = Arc::new(AtomicBool::new(false));
        let bad: Arc<Mutex<Option<Fail>>> = Arc::new(Mutex::new(None));
        let start = Arc::new(Barrier::new(writers + 1 + readers));
        let mut handles = vec![];
        let mut reader_handles = vec![];
        for w in 0..writers {
            let mine: Vec<Msg> = updates.iter().skip(w).step_by(writers).cloned().collect();
            let (store, start) = (store.clone(), start.clone());
            handles.push(std::thread::spawn(move || {
                start.wait();
                for m in &mine {
                    send(&store, m);
                }
            }));
        }
        {
            let (store, start, notes) = (store.clone(), start.clone(), notes.clone());
            handles.push(std::thread::spawn(move || {
                start.wait();
                for m in &notes {
                    send(&store, m);
                    std::thread::yield_now();
                }
            }));
        }
        for r in 0..readers {
            let everything = everything.clone();
            let (store, start, stop, bad, legal, visible) =
                (store.clone(), start.clone(), stop.clone(), bad.clone(), legal.clone(), visible.clone());
            reader_handles.push(std::thread::spawn(move || {
                start.wait();
                let mut seen: BTreeMap<(usize, usize), (u64, u64)> = BTreeMap::new();
                let mut k = r;
                // bounded, so that a writer that got stuck is noticed
                while !stop.load(Ordering::Relaxed) && k < 300_000 {
                    k += 1;
                    let a = k % n;
                    let l = (k / n) % 3;
                    let mut got: Vec<(usize, AccountData)> = vec![];
                    let mut expected: Vec<usize> = vec![];
                    if k % 7 == 0 {
                        expected.extend((0..n).filter(|i| visible[*i][l] && i % 2 == k % 2));
                        let program = prog((k % 2) as u64);
                        let v = if l == 2 && k % 3 == 0 {
                            // by way of a snapshot
                            store.create_snapshot(program).and_then(|b| {
                                let dst = InmemoryAccountStore::new(everything.clone());
                                dst.load_from_snapshot(program, b)?;
                                dst.get_program_accounts(program, None, commitment(2))
                            })
                        } else {
                            store.get_program_accounts(program, None, commitment(l))
                        };
                        if let Ok(v) = v {
                            for x in v {
                                if let Some(i) = (0..n).find(|i| acc(*i as u64) == x.pubkey) {
                                    got.push((i, x));
                                }
                            }
                        }
                    } else {
                        if visible[a][l] {
                            expected.push(a);
                        }
                        if let Ok(Some(x)) = store.get_account(acc(a as u64), commitment(l)) {
                            got.push((a, x));
                        }
                    }
                    if let Some(i) = expected.iter().find(|i| !got.iter().any(|(j, _)| j == *i)) {
                        *bad.lock().unwrap() = Some(Fail {
                            key: "concurrent_missing".into(),
                            msg: format!(
                                "{} at {} did not return acc {i}, which was readable at that commitment before, is never deleted and keeps its owner",
                                if k % 7 == 0 { "program query" } else { "read" },
                                cname(l)
                            ),
                        });
                        return;
                    }
                    for (i, x) in got {
                        let s = St::of(&x);
                        let f = if !legal[&i].contains(&s) || x.pubkey != acc(i as u64) || s.deleted() {
                            Some(Fail {
                                key: "concurrent_state".into(),
                                msg: format!("reader got {} for acc {i} at {}, which was never written", show(&Some(s.clone())), cname(l)),
                            })
                        } else if l > 0 && seen.get(&(i, l)).map_or(false, |v| *v > s.ver()) {
                            Some(Fail {
                                key: "concurrent_regress".into(),
                                msg: format!("reader saw acc {i} at {} go from {:?} back to {:?}", cname(l), seen[&(i, l)], s.ver()),
                            })
                        } else {
                            None
                        };
                        if f.is_some() {
                            *bad.lock().unwrap() = f;
                            return;
                        }
                        seen.insert((i, l), s.ver());
                    }
                }
            }));
        }
        let mut panicked = false;
        for h in handles {
            panicked |= h.join().is_err();
        }
        stop.store(true, Ordering::Relaxed);
        for h in reader_handles {
            panicked |= h.join().is_err();
        }
        if panicked {
            return fail("concurrent_panic", "a call panicked in one of the threads".into());
        }
        if let Some(f) = bad.lock().unwrap().take() {
            return Err(f);
        }
        // model
        for m in &updates {
            if let Msg::Update(a, s, l) = m {
                accs[*a].tracked = true;
                let i = *window.iter().find(|i| slots.num(**i) == s.slot).unwrap();
                accs[*a].ups.push((s.clone(), *l, i));
                if notes.iter().any(|n| matches!(n, Msg::Notify(i, l) if i.slot == s.slot && *l > 0)) {
                    g.nontrivial = true;
                }
            }
        }
        for m in &notes {
            if let Msg::Notify(info, l) = m {
                let i = *window.iter().find(|i| slots.num(**i) == info.slot).unwrap();
                slots.notify(i, *l);
            }
        }
        for m in accs.iter_mut() {
            m.settle(&slots, &filters);
        }
        for m in &accs {
            for l in 0..3 {
                let got = store.get_account(m.pk, commitment(l)).ok().flatten().as_ref().map(St::of);
                let want = m.read(&slots, l).cloned();
                ensure!(
                    format!("quiescent_{}", cname(l)),
                    got == want,
                    "after all calls of phase {phase} returned: acc {} at {} is {}, one message at a time gives {}",
                    short(&m.pk),
                    cname(l),
                    show(&got),
                    show(&want)
                );
            }
        }
        for p in 0..2 {
            for l in 0..3 {
                let v = store.get_program_accounts(prog(p), None, commitment(l)).unwrap_or_default();
                let mut got: Vec<(Pubkey, (u64, u64))> = v.iter().map(|a| (a.pubkey, (a.updated_slot, a.write_version))).collect();
                got.sort();
                let mut want: Vec<(Pubkey, (u64, u64))> = accs
                    .iter()
                    .filter_map(|m| m.read(&slots, l).filter(|s| s.owner == prog(p)).map(|s| (m.pk, s.ver())))
                    .collect();
                want.sort();
                ensure!("quiescent_gpa", got == want, "after phase {phase}: program query at {} returns {:?}, expected {:?}", cname(l), got, want);
            }
        }
    }
    Ok(())
}
