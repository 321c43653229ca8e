//! T08: reads of the token storage while a message is being handled
use crate::feed::*;
use crate::tok::*;
use crate::token_props::*;
use lite_account_manager_common::account_data::CompressionMethod;
use lite_account_manager_common::account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData};
use lite_account_manager_common::account_store_interface::{AccountLoadingError, AccountStorageInterface};
use lite_token_account_storage::account_types::{Program, TokenAccount, TokenAccountIndex};
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage;
use lite_token_account_storage::token_account_storage_interface::TokenAccountStorageInterface;
use pbt::{fail, Fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "T08",
        subs: vec![Sub::new("window", 6000, 60000, t08_window), Sub::serial("stress", 2500, 25000, t08_stress)],
        rule: "a random feed is recorded with the state every commitment must show after each message, then sent again while readers run: (window) the token account table, handed to the storage as a wrapper, starts a reader at the calls the storage makes while it handles a message and gives it 1.5 ms; (stress) one to three readers and a writer of unrelated accounts run all the time. Every read and query must fit a state between the last message completed when it began and the last one started when it ended, and no reader may see an account go back; non-trivial = a reader was active inside a finalization that changed a token account (window) / overlapped at least ten messages (stress)",
        assumptions: &[
            "one writer of each account; notifications come from that writer, too",
            "interleavings are sampled, not enumerated; a violation may need several runs to reappear",
        ],
    }
}

pub fn snapshot_prop() -> Prop {
    Prop {
        id: "T11",
        subs: vec![Sub::new("window", 4000, 40000, t11_window), Sub::serial("stress", 1200, 12000, t11_stress)],
        rule: "the recorded feed of T08, while readers take snapshots of both programs: (window) at the calls the storage makes to its token account table while it handles a message, (stress) all the time. Each snapshot is loaded into an empty storage, whose content must be that of the finalized state after one of the messages between the last one completed when the snapshot was requested and the last one started when it was returned; the snapshots of one reader never go back; non-trivial = a snapshot was requested inside a finalization that changed a token account (window) / five or more snapshots were taken while a message was handled (stress)",
        assumptions: &[
            "one writer of each account; finalized states written directly are one account each",
            "interleavings are sampled, not enumerated; a violation may need several runs to reappear",
        ],
    }
}

/// the recorded feed
struct Script {
    keys: Vec<Pubkey>,
    msgs: Vec<TMsg>,
    /// views[i]: after i messages
    views: Vec<Views>,
    queries: Vec<Query>,
}

#[derive(Clone)]
struct Query {
    program: usize,
    ext: bool,
    offset: usize,
    pattern: Pubkey,
}

impl Query {
    fn filters(&self) -> Vec<AccountFilterType> {
        let mem = |offset: u64, b: Vec<u8>| {
            AccountFilterType::Memcmp(MemcmpFilter {
                offset,
                data: MemcmpFilterData::Bytes(b),
            })
        };
        vec![
            if self.ext { mem(165, vec![2]) } else { AccountFilterType::Datasize(165) },
            mem(self.offset as u64, self.pattern.to_bytes().to_vec()),
        ]
    }
    fn holds(&self, v: &TokView) -> bool {
        let d = &v.data;
        v.program == token_program(self.program)
            && if self.ext { d.len() > 165 && d[165] == 2 } else { d.len() == 165 }
            && d[self.offset..self.offset + 32] == self.pattern.to_bytes()
    }
    fn brief(&self) -> String {
        format!(
            "query of program {} by {} {}{}",
            self.program,
            if self.offset == 0 { "mint" } else { "owner" },
            tag(&self.pattern),
            if self.ext { ", extended accounts" } else { "" }
        )
    }
}

fn script(g: &mut G, hi: usize) -> Result<Script, Fail> {
    let p = TProfile {
        lo: 10,
        hi,
        fork_pct: 15,
        close_pct: 20,
        move_pct: 20,
        sizes: (5, 1, 1),
        ..quiet_profile(TCheck::None)
    };
    let mut b = TBuilt::new(g, Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))), &p);
    b.log = Some(vec![]);
    let start = b.views();
    b.run(g, &p)?;
    // end with the finalization of the confirmed tip, so that every feed moves something
    let mut queries = vec![];
    for program in 0..2 {
        for o in 0..3 {
            for ext in [false, true] {
                if !ext || program == 1 {
                    queries.push(Query { program, ext, offset: 32, pattern: owner_key(o) });
                }
            }
        }
    }
    for (program, k) in &b.mints {
        queries.push(Query {
            program: *program,
            ext: false,
            offset: 0,
            pattern: *k,
        });
    }
    let mut msgs = vec![];
    let mut views = vec![start];
    for (m, v) in b.log.take().unwrap() {
        msgs.push(m);
        views.push(v);
    }
    Ok(Script {
        keys: b.accs.iter().map(|a| a.pk).collect(),
        msgs,
        views,
        queries,
    })
}

/// shared by the writer and the readers
struct Run {
    script: Script,
    store: TokenProgramAccountsStorage,
    started: AtomicUsize,
    completed: AtomicUsize,
    bad: Mutex<Option<Fail>>,
}

impl Run {
    fn complain(&self, f: Fail) {
        let mut b = self.bad.lock().unwrap();
        if b.is_none() {
            *b = Some(f);
        }
    }

    fn send(&self, i: usize) {
        self.started.store(i + 1, Ordering::SeqCst);
        self.script.msgs[i].send(&self.store);
        self.completed.store(i + 1, Ordering::SeqCst);
    }
}

/// one reader: remembers how far it has seen each account
struct Reader {
    seen: BTreeMap<(usize, usize), usize>,
    /// reads that ended while another message had been started or was unfinished
    overlaps: usize,
    /// the state the last snapshot of each program showed
    shot: [usize; 2],
}

/// a snapshot and the messages it may reflect
struct Shot {
    program: usize,
    lo: usize,
    hi: usize,
    bytes: Vec<u8>,
}

impl Reader {
    fn new() -> Reader {
        Reader {
            seen: BTreeMap::new(),
            overlaps: 0,
            shot: [0, 0],
        }
    }

    fn snap(&mut self, run: &Run, program: usize) -> Option<Shot> {
        let lo = run.completed.load(Ordering::SeqCst);
        let got = run.store.create_snapshot(token_program(program));
        let hi = run.started.load(Ordering::SeqCst);
        self.overlaps += (hi > lo) as usize;
        match got {
            Ok(bytes) => Some(Shot { program, lo, hi, bytes }),
            Err(e) => {
                run.complain(Fail {
                    key: "snapshot_error".into(),
                    msg: format!("create_snapshot failed with {e:?}"),
                });
                None
            }
        }
    }

    fn judge(&mut self, run: &Run, s: Shot) -> bool {
        let dst = new_store();
        if let Err(e) = dst.load_from_snapshot(token_program(s.program), s.bytes) {
            run.complain(Fail {
                key: "snapshot_load".into(),
                msg: format!("a snapshot of program {} taken while message {} was handled does not load: {e:?}", s.program, s.hi),
            });
            return false;
        }
        let got: Vec<Option<TokView>> = run
            .script
            .keys
            .iter()
            .map(|k| dst.get_account(*k, commitment(2)).ok().flatten().as_ref().map(TokView::of))
            .collect();
        let want = |j: usize, a: usize| run.script.views[j][a][2].as_ref().filter(|v| v.program == token_program(s.program));
        let from = s.lo.max(self.shot[s.program]);
        let fits = |j: usize| got.iter().enumerate().all(|(a, x)| x.as_ref() == want(j, a));
        if let Some(j) = (from..=s.hi.max(from)).find(|j| fits(*j)) {
            self.shot[s.program] = j;
            return true;
        }
        let differ = |j: usize| {
            got.iter()
                .enumerate()
                .filter(|(a, x)| x.as_ref() != want(j, *a))
                .map(|(a, x)| format!("{} is {} instead of {}", tag(&run.script.keys[a]), brief_opt(x), brief_opt(&want(j, a).cloned())))
                .collect::<Vec<_>>()
        };
        run.complain(Fail {
            key: "torn_snapshot".into(),
            msg: format!(
                "a snapshot of program {} taken while message {} of {} was handled shows no finalized state: {}",
                s.program,
                s.hi,
                run.script.msgs.len(),
                (from..=s.hi.max(from)).map(|j| format!("after message {j} {:?}", differ(j))).collect::<Vec<_>>().join("; ")
            ),
        });
        false
    }

    fn read(&mut self, run: &Run, a: usize, l: usize) -> bool {
        let lo = run.completed.load(Ordering::SeqCst);
        let got = run.store.get_account(run.script.keys[a], commitment(l));
        let hi = run.started.load(Ordering::SeqCst);
        let got = match got {
            Ok(x) => x.as_ref().map(TokView::of),
            Err(e) => {
                run.complain(Fail {
                    key: "concurrent_error".into(),
                    msg: format!("get_account failed with {e:?}"),
                });
                return false;
            }
        };
        self.overlaps += (hi > lo) as usize;
        let from = lo.max(self.seen.get(&(a, l)).cloned().unwrap_or(0));
        match (from..=hi.max(from)).find(|j| run.script.views[*j][a][l] == got) {
            Some(j) => {
                self.seen.insert((a, l), j);
                true
            }
            None => {
                run.complain(Fail {
                    key: "concurrent_read".into(),
                    msg: format!(
                        "{} at {} read as {} while message {} of {} was handled; expected one of {:?}",
                        tag(&run.script.keys[a]),
                        cname(l),
                        brief_opt(&got),
                        hi,
                        run.script.msgs.len(),
                        (from..=hi.max(from)).map(|j| brief_opt(&run.script.views[j][a][l])).collect::<Vec<_>>()
                    ),
                });
                false
            }
        }
    }

    fn query(&mut self, run: &Run, q: &Query, l: usize) -> bool {
        let lo = run.completed.load(Ordering::SeqCst);
        let got = run.store.get_program_accounts(token_program(q.program), Some(q.filters()), commitment(l));
        let hi = run.started.load(Ordering::SeqCst);
        self.overlaps += (hi > lo) as usize;
        let what = || format!("{} at {} while message {hi} was handled", q.brief(), cname(l));
        let got = match got {
            Ok(v) => v,
            Err(e) => {
                run.complain(Fail {
                    key: "concurrent_error".into(),
                    msg: format!("{} failed with {e:?}", what()),
                });
                return false;
            }
        };
        let mut seen = BTreeSet::new();
        for x in &got {
            let v = TokView::of(x);
            let a = run.script.keys.iter().position(|k| *k == v.pk);
            let fits = a.map_or(false, |a| (lo..=hi).any(|j| run.script.views[j][a][l].as_ref() == Some(&v)));
            if !fits || !q.holds(&v) || !seen.insert(v.pk) {
                run.complain(Fail {
                    key: "concurrent_query".into(),
                    msg: format!(
                        "{} returned {}; the account was {:?}",
                        what(),
                        v.brief(),
                        a.map(|a| (lo..=hi).map(|j| brief_opt(&run.script.views[j][a][l])).collect::<Vec<_>>())
                    ),
                });
                return false;
            }
        }
        for (a, k) in run.script.keys.iter().enumerate() {
            let due = (lo..=hi).all(|j| {
                let v = &run.script.views[j][a];
                [&v[l], &v[2]].iter().all(|v| v.as_ref().map_or(false, |v| q.holds(v)))
            });
            if due && !seen.contains(k) {
                run.complain(Fail {
                    key: "concurrent_query_missing".into(),
                    msg: format!("{} lacks {}, which matched it all the time", what(), tag(k)),
                });
                return false;
            }
        }
        true
    }
}

// ------------------------------------------------------------------ window

#[derive(Default)]
struct Gate {
    /// requests made, requests done
    state: Mutex<(usize, usize, bool)>,
    cv: Condvar,
}

impl Gate {
    fn request(&self) -> usize {
        let mut s = self.state.lock().unwrap();
        s.0 += 1;
        self.cv.notify_all();
        s.0
    }
    fn wait_done(&self, n: usize, limit: Option<Duration>) {
        let s = self.state.lock().unwrap();
        match limit {
            Some(d) => {
                let _ = self.cv.wait_timeout_while(s, d, |s| s.1 < n).unwrap();
            }
            None => {
                let _s = self.cv.wait_while(s, |s| s.1 < n).unwrap();
            }
        }
    }
    /// reader side: wait for a request; None = stop
    fn next(&self) -> Option<usize> {
        let s = self.state.lock().unwrap();
        let s = self.cv.wait_while(s, |s| s.0 == s.1 && !s.2).unwrap();
        (s.0 != s.1).then_some(s.0)
    }
    fn done(&self, n: usize) {
        self.state.lock().unwrap().1 = n;
        self.cv.notify_all();
    }
    fn stop(&self) {
        self.state.lock().unwrap().2 = true;
        self.cv.notify_all();
    }
}

thread_local! {
    /// hooks still allowed for the message the current thread is sending
    static HOOKS: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static FIRED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

struct Hooked {
    inner: InmemoryTokenAccountStorage,
    gate: Arc<Gate>,
}

impl Hooked {
    fn hook(&self) {
        let left = HOOKS.with(|h| h.get());
        if left > 0 {
            HOOKS.with(|h| h.set(left - 1));
            FIRED.with(|h| h.set(h.get() + 1));
            let n = self.gate.request();
            self.gate.wait_done(n, Some(Duration::from_micros(1500)));
        }
    }
}

impl TokenAccountStorageInterface for Hooked {
    fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
        self.inner.contains(pubkey)
    }
    fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
        self.hook();
        let r = self.inner.save_or_update(token_account);
        self.hook();
        r
    }
    fn get_by_index(&self, indexes: HashSet<TokenAccountIndex>) -> Result<Vec<TokenAccount>, AccountLoadingError> {
        self.inner.get_by_index(indexes)
    }
    fn get_by_pubkey(&self, pubkey: &Pubkey) -> Option<TokenAccount> {
        self.inner.get_by_pubkey(pubkey)
    }
    fn delete(&self, pubkey: &Pubkey) {
        self.hook();
        self.inner.delete(pubkey);
        self.hook();
    }
    fn create_snapshot(&self, program: Program) -> Result<Vec<Vec<u8>>, AccountLoadingError> {
        self.inner.create_snapshot(program)
    }
}

fn t08_window(g: &mut G) -> R {
    window(g, false)
}
fn t11_window(g: &mut G) -> R {
    window(g, true)
}
fn t08_stress(g: &mut G) -> R {
    stress(g, false)
}
fn t11_stress(g: &mut G) -> R {
    stress(g, true)
}

fn window(g: &mut G, snapshots: bool) -> R {
    let script = script(g, 22)?;
    let gate = Arc::new(Gate::default());
    let run = Arc::new(Run {
        store: TokenProgramAccountsStorage::new(Arc::new(Hooked {
            inner: InmemoryTokenAccountStorage::default(),
            gate: gate.clone(),
        })),
        script,
        started: AtomicUsize::new(0),
        completed: AtomicUsize::new(0),
        bad: Mutex::new(None),
    });
    // what the reader does first matters: its requests are cut off after a while
    let rot = g.below(16) as usize;
    let queries_first = g.bool();
    let handle = {
        let (run, gate) = (run.clone(), gate.clone());
        std::thread::spawn(move || {
            let mut r = Reader::new();
            let mut round = rot;
            while let Some(n) = gate.next() {
                round += 1;
                if snapshots {
                    let shots: Option<Vec<Shot>> = (0..2).map(|i| r.snap(&run, (round + i) % 2)).collect();
                    gate.done(n);
                    if !shots.map_or(false, |s| s.into_iter().all(|s| r.judge(&run, s))) {
                        break;
                    }
                    continue;
                }
                let na = run.script.keys.len();
                let nq = run.script.queries.len();
                let reads = |r: &mut Reader| (0..na * 3).all(|i| r.read(&run, (i / 3 + round) % na, (i + round) % 3));
                let queries = |r: &mut Reader| (0..nq * 3).all(|i| r.query(&run, &run.script.queries[(i / 3 + round) % nq], (i + round) % 3));
                let fine = if queries_first { queries(&mut r) && reads(&mut r) } else { reads(&mut r) && queries(&mut r) };
                gate.done(n);
                if !fine {
                    break;
                }
            }
            // answer everything that still comes
            while let Some(n) = gate.next() {
                gate.done(n);
            }
        })
    };
    let mut inside_finalization = false;
    for i in 0..run.script.msgs.len() {
        HOOKS.with(|h| h.set(if g.chance(1, 5) { 1 } else { 8 }));
        FIRED.with(|h| h.set(0));
        run.send(i);
        HOOKS.with(|h| h.set(0));
        if matches!(run.script.msgs[i], TMsg::Slot(_, 2)) && FIRED.with(|h| h.get()) > 0 {
            inside_finalization = true;
        }
        let n = gate.state.lock().unwrap().0;
        gate.wait_done(n, None);
    }
    gate.stop();
    if handle.join().is_err() {
        return fail("concurrent_panic", "a read panicked".into());
    }
    g.nontrivial = inside_finalization;
    let bad = run.bad.lock().unwrap().take();
    match bad {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ stress

fn stress(g: &mut G, snapshots: bool) -> R {
    let script = script(g, 120)?;
    let run = Arc::new(Run {
        store: TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())),
        script,
        started: AtomicUsize::new(0),
        completed: AtomicUsize::new(0),
        bad: Mutex::new(None),
    });
    let readers = g.size(1, 3);
    let noise_seed = g.below(1 << 20);
    let stop = Arc::new(AtomicBool::new(false));
    let start = Arc::new(Barrier::new(readers + 2));
    let mut handles = vec![];
    for k in 0..readers {
        let (run, stop, start) = (run.clone(), stop.clone(), start.clone());
        handles.push(std::thread::spawn(move || {
            let mut r = Reader::new();
            let (na, nq) = (run.script.keys.len(), run.script.queries.len());
            start.wait();
            // bounded, so that a deadlock of the writer is seen as one
            for i in k..200_000 {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let fine = if snapshots {
                    match r.snap(&run, i % 2) {
                        Some(s) => r.judge(&run, s),
                        None => false,
                    }
                } else if i % 4 == 3 {
                    r.query(&run, &run.script.queries[(i / 4) % nq], (i / 4 / nq) % 3)
                } else {
                    r.read(&run, i % na, (i / na) % 3)
                };
                if !fine {
                    break;
                }
            }
            r.overlaps
        }));
    }
    // unrelated accounts with similar keys, in slots far above and straight to the finalized state
    let noise = {
        let (run, stop, start) = (run.clone(), stop.clone(), start.clone());
        std::thread::spawn(move || {
            let mut x = pbt::Rng::new(noise_seed);
            start.wait();
            for i in 0..20_000u64 {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let pk = token_key(20 + x.below(6));
                let closed = x.below(4) == 0;
                let st = if closed {
                    TokState::Closed(0)
                } else {
                    TokState::Live(TokSpec::Token {
                        program: x.below(2) as usize,
                        mint: mint_key(0, 7),
                        owner: owner_key(6),
                        amount: i,
                        state: 1,
                        delegate: None,
                        native: None,
                        close: None,
                        ext: None,
                    })
                };
                let direct = x.below(2) == 0;
                let a = st.account(pk, if direct { 1 } else { 1_000_000 }, i, CompressionMethod::None);
                run.store.update_account(a, commitment(if direct { 2 } else { 0 }));
                if x.below(8) == 0 {
                    std::thread::yield_now();
                }
            }
        })
    };
    start.wait();
    for i in 0..run.script.msgs.len() {
        run.send(i);
    }
    stop.store(true, Ordering::Relaxed);
    let mut overlaps = 0;
    let mut panicked = noise.join().is_err();
    for h in handles {
        match h.join() {
            Ok(n) => overlaps += n,
            Err(_) => panicked = true,
        }
    }
    if panicked {
        return fail("concurrent_panic", "a call panicked in one of the threads".into());
    }
    g.nontrivial = overlaps >= if snapshots { 5 } else { 10 };
    let bad = run.bad.lock().unwrap().take();
    match bad {
        Some(f) => Err(f),
        None => Ok(()),
    }
}
