//! S11, T12, D05: memory held by the storages over long periodic histories
use crate::feed::St;
use crate::gens::*;
use crate::store_props::{acc, prog};
use crate::feed::short;
use crate::tok::*;
use lite_account_manager_common::account_data::AccountData;
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_manager_common::slot_info::SlotInfo;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use lite_token_account_storage::inmemory_token_account_storage::InmemoryTokenAccountStorage;
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage;
use pbt::{ensure, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::Arc;

thread_local! {
    /// bytes allocated less bytes freed by this thread
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn moved(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            moved(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            moved(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        moved(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            moved(new as i64 - l.size() as i64);
        }
        q
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S11",
            subs: vec![Sub::new("rounds", 4000, 40000, s11)],
            rule: "a generated round of messages (forks, late and repeated messages, reads, snapshots) over fixed accounts is repeated with shifted slots for thousands of slots; live heap bytes compared between windows of more than 500, 1000, 2000 and 4000 slots (reported when it grew in all of them by more than 256 bytes and a byte per round); non-trivial = the round has an abandoned slot with states and a repeated notification",
            assumptions: &["accounts are not deleted or left out of scope (their places are not reused, which DESIGN.md states); every slot's ancestors are announced before it is finalized; every round finalizes its last slot"],
        },
        Prop {
            id: "T12",
            subs: vec![Sub::new("rounds", 3000, 30000, t12)],
            rule: "as S11 for token accounts, mints and multisigs with owner and mint changes; non-trivial = the round has an abandoned slot with states and a token account that changes its owner or mint",
            assumptions: &["token accounts are not closed and keep their type (places of closed ones are not reused)"],
        },
        Prop {
            id: "D05",
            subs: vec![Sub::new("repeats", 2000, 20000, d05)],
            rule: "a generated list of queries on the on-demand storage, some of which fail at the source every time, is repeated 200 to 800 times; live heap bytes compared between windows; non-trivial = a failing load of a program with filters is retried, and a loaded one is queried again",
            assumptions: &["the source's world does not change"],
        },
    ]
}

/// growth below this in a window is put down to the tables of maps
const ALLOWANCE: i64 = 256;

/// runs rounds and compares the memory held after them: windows double in length, what leaks leaks in all of them
fn watch(rounds: usize, what: &str, mut round: impl FnMut(usize) -> R) -> R {
    let mut i = 0;
    // what is held when a round ends may still swing with the tables of maps: least of a few rounds
    let mut window = |n: usize| -> Result<i64, pbt::Fail> {
        let mut min = i64::MAX;
        for k in 0..n {
            round(i)?;
            i += 1;
            if k + 5 >= n {
                min = min.min(live());
            }
        }
        Ok(min)
    };
    window(rounds / 4 + 5)?;
    let mut held = vec![window(5)?];
    let mut n = rounds;
    for w in 1..=4 {
        held.push(window(n)?);
        if held[w] - held[w - 1] <= ALLOWANCE.max(n as i64) {
            return Ok(());
        }
        n *= 2;
    }
    pbt::fail(
        "growth",
        format!(
            "{what}: what is held grew in each of 4 windows of {rounds}, {}, {} and {} rounds: {:?} bytes more than at the start",
            rounds * 2,
            rounds * 4,
            rounds * 8,
            held[1..].iter().map(|h| h - held[0]).collect::<Vec<_>>()
        ),
    )
}

/// one round of slot messages, relative to the slot that was finalized last
enum Op {
    /// account, slot, variant of its content, commitment
    Up(usize, u64, usize, usize),
    Notify(u64, u64, usize),
    Read(usize, usize),
    Snapshot,
}

struct Round {
    ops: Vec<Op>,
    len: u64,
    dead_writes: usize,
    repeats: usize,
}

fn gen_round(g: &mut G, accs: usize, variants: usize) -> Round {
    let len = g.range(3, 14);
    // slots on the chain that gets finalized
    let chain: Vec<bool> = (0..=len).map(|s| s == 0 || s == len || g.chance(2, 3)).collect();
    let mut parent = vec![0u64; len as usize + 1];
    for s in 1..=len {
        let before: Vec<u64> = (0..s).collect();
        parent[s as usize] = if chain[s as usize] {
            (0..s).rev().find(|x| chain[*x as usize]).unwrap()
        } else {
            *g.pick(&before)
        };
    }
    let mut r = Round { ops: vec![], len, dead_writes: 0, repeats: 0 };
    let mut fin = 0;
    let mut conf = 0;
    for s in 1..=len {
        let on = chain[s as usize];
        let quiet = !on && g.chance(1, 4);
        let early = g.bool();
        if early && !quiet {
            r.ops.push(Op::Notify(s, parent[s as usize], 0));
        }
        for _ in 0..g.size(0, 4) {
            // also late updates of earlier slots
            let at = if g.chance(1, 4) { g.range(fin + 1, s) } else { s };
            r.ops.push(Op::Up(g.below(accs as u64) as usize, at, g.below(variants as u64) as usize, 0));
            r.dead_writes += !chain[at as usize] as usize;
        }
        if !early && !quiet {
            r.ops.push(Op::Notify(s, parent[s as usize], 0));
        }
        if on && g.bool() {
            conf = s;
            r.ops.push(Op::Notify(s, parent[s as usize], 1));
        }
        if on && g.chance(1, 3) {
            fin = s;
            conf = conf.max(s);
            r.ops.push(Op::Notify(s, parent[s as usize], 2));
            if g.chance(1, 4) {
                // finalized states without a notification of their own
                r.ops.push(Op::Up(g.below(accs as u64) as usize, s, g.below(variants as u64) as usize, 2));
            }
        }
        if g.chance(1, 4) {
            let (x, l) = if g.bool() { (conf, 1) } else { (fin, 2) };
            if x > 0 {
                r.ops.push(Op::Notify(x, parent[x as usize], g.below(l + 1) as usize));
                r.repeats += 1;
            }
        }
        if g.chance(1, 3) {
            r.ops.push(Op::Read(g.below(accs as u64) as usize, g.below(3) as usize));
        }
        if g.chance(1, 8) {
            r.ops.push(Op::Snapshot);
        }
    }
    if fin < len {
        r.ops.push(Op::Notify(len, parent[len as usize], 2));
    }
    r
}

fn describe(g: &mut G, r: &Round) {
    g.note(|| {
        let v: Vec<String> = r
            .ops
            .iter()
            .map(|o| match o {
                Op::Up(a, s, v, _) => format!("update acc{a} in +{s} (content {v})"),
                Op::Notify(s, p, l) => format!("notify +{s} (parent +{p}) {}", crate::feed::cname(*l)),
                Op::Read(a, l) => format!("read acc{a} {}", crate::feed::cname(*l)),
                Op::Snapshot => "snapshot".into(),
            })
            .collect();
        format!("round of {} slots: {}", r.len, v.join("; "))
    });
}

fn cm(l: usize) -> Commitment {
    crate::feed::commitment(l)
}

fn play(r: &Round, store: &dyn AccountStorageInterface, base: u64, wv: &mut u64, make: &dyn Fn(usize, usize, u64, u64) -> AccountData, read: &dyn Fn(usize, usize)) {
    for o in &r.ops {
        match o {
            Op::Up(a, s, v, l) => {
                *wv += 1;
                store.update_account(make(*a, *v, base + s, *wv), cm(*l));
            }
            Op::Notify(s, p, l) => {
                store.process_slot_data(SlotInfo { slot: base + s, parent: base + p, root: base.saturating_sub(1) }, cm(*l));
            }
            Op::Read(a, l) => read(*a, *l),
            Op::Snapshot => {
                // loaded back: there is nothing new in it
                for p in [prog(0), prog(1), token_program(0), token_program(1)] {
                    if let Ok(b) = store.create_snapshot(p) {
                        let _ = store.load_from_snapshot(p, b);
                    }
                }
            }
        }
    }
}

fn rounds_for(len: u64) -> usize {
    (500 / len + 1) as usize
}

fn s11(g: &mut G) -> R {
    let n = g.range(1, 6) as usize;
    let sc = scale(g);
    let contents: Vec<St> = (0..g.range(1, 6))
        .map(|i| St { slot: 0, wv: 0, owner: prog(g.below(3)), lamports: sc.lamports + 1 + i, data: small_data(g) })
        .collect();
    let codec = cheap_codec(g);
    let r = gen_round(g, n, contents.len());
    describe(g, &r);
    g.nontrivial = r.dead_writes > 0 && r.repeats > 0;
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&(0..3).map(|p| program_filter(prog(p), None)).collect());
    let store = InmemoryAccountStore::new(Arc::new(f));
    let make = |a: usize, v: usize, slot: u64, wv: u64| {
        let s = &contents[v];
        mk_account(acc(a as u64), s.owner, s.lamports, s.data.clone(), slot, wv, codec.clone())
    };
    let mut wv = sc.wv;
    store.process_slot_data(SlotInfo { slot: sc.slot, parent: sc.slot - 1, root: 0 }, Commitment::Finalized);
    for a in 0..n {
        wv += 1;
        store.update_account(make(a, 0, sc.slot, wv), Commitment::Finalized);
    }
    watch(rounds_for(r.len), "account store", |i| {
        let base = sc.slot + i as u64 * r.len;
        play(&r, &store, base, &mut wv, &make, &|a, l| {
            let _ = store.get_account(acc(a as u64), cm(l));
            let _ = store.get_program_accounts(prog(a as u64 % 3), None, cm(l));
        });
        for a in 0..n {
            let ok = store.account_store_contains_key(&acc(a as u64));
            ensure!("lost", ok, "acc {a} is not in the store after a round");
        }
        Ok(())
    })
}

fn t12(g: &mut G) -> R {
    let n = g.range(1, 5) as usize;
    let sc = scale(g);
    // account i keeps its type; contents differ in owner and mint
    let kinds: Vec<usize> = (0..n).map(|_| g.weighted(&[3, 1, 1])).collect();
    let program = g.below(2) as usize;
    let v = g.range(1, 5) as usize;
    let contents: Vec<Vec<TokSpec>> = kinds
        .iter()
        .map(|k| {
            (0..v)
                .map(|_| match k {
                    0 => TokSpec::token(program, mint_key(program, g.below(3)), owner_key(g.below(3)), g),
                    1 => TokSpec::mint(program, g),
                    _ => TokSpec::multi(program, g),
                })
                .collect()
        })
        .collect();
    let pk = |a: usize| match kinds[a] {
        0 => token_key(a as u64),
        1 => mint_key(program, a as u64),
        _ => multisig_key(a as u64),
    };
    let r = gen_round(g, n, v);
    describe(g, &r);
    g.nontrivial = r.dead_writes > 0 && kinds.contains(&0) && v > 1;
    let store = TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()));
    // accounts are made once: their bytes are the same in every round
    let made: Vec<Vec<AccountData>> = (0..n).map(|a| contents[a].iter().map(|s| s.account(pk(a), false, 0, 0)).collect()).collect();
    let make = |a: usize, v: usize, slot: u64, wv: u64| {
        let mut x = made[a][v].clone();
        x.updated_slot = slot;
        x.write_version = wv;
        x
    };
    let mut wv = sc.wv;
    store.process_slot_data(SlotInfo { slot: sc.slot, parent: sc.slot - 1, root: 0 }, Commitment::Finalized);
    for a in 0..n {
        store.initilize_or_update_account(make(a, 0, sc.slot, wv));
    }
    watch(rounds_for(r.len), "token storage", |i| {
        let base = sc.slot + i as u64 * r.len;
        play(&r, &store, base, &mut wv, &make, &|a, l| {
            let _ = store.get_account(pk(a), cm(l));
            let by_owner = spell_all_plain(32, owner_key(a as u64 % 3));
            let _ = store.get_program_accounts(token_program(program), Some(by_owner), cm(l));
            let by_mint = spell_all_plain(0, mint_key(program, a as u64 % 3));
            let _ = store.get_program_accounts(token_program(program), Some(by_mint), cm(l));
        });
        for a in 0..n {
            let ok = matches!(store.get_account(pk(a), Commitment::Finalized), Ok(Some(_)));
            ensure!("lost", ok, "account {a} is not in the storage after a round");
        }
        Ok(())
    })
}

fn spell_all_plain(offset: usize, k: Pubkey) -> Vec<AccountFilterType> {
    use lite_account_manager_common::account_filter::{MemcmpFilter, MemcmpFilterData};
    vec![
        AccountFilterType::Datasize(165),
        AccountFilterType::Memcmp(MemcmpFilter { offset: offset as u64, data: MemcmpFilterData::Bytes(k.to_bytes().to_vec()) }),
    ]
}

/// a source that always answers the same
struct Still {
    world: Vec<AccountData>,
    bad_subscriptions: HashSet<Pubkey>,
    bad_snapshots: HashSet<Pubkey>,
}

impl AccountsSourceInterface for Still {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        anyhow::ensure!(!account.iter().any(|k| self.bad_subscriptions.contains(k)), "refused");
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        anyhow::ensure!(!self.bad_subscriptions.contains(&program_id), "refused");
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, filters: AccountFilters) -> anyhow::Result<()> {
        let bad = filters
            .iter()
            .any(|f| f.accounts.iter().chain(f.program_id.iter()).any(|k| self.bad_snapshots.contains(k)));
        for a in &self.world {
            let wanted = filters.iter().any(|f| {
                f.accounts.contains(&a.pubkey)
                    || f.program_id == Some(a.account.owner)
                        && f.filters.iter().flatten().all(|x| x.allows(&a.account.data.data()))
            });
            if wanted {
                storage.initilize_or_update_account(a.clone());
                if bad {
                    break;
                }
            }
        }
        anyhow::ensure!(!bad, "failed");
        Ok(())
    }
}

fn d05(g: &mut G) -> R {
    let progs = g.range(2, 4);
    let accs = g.range(1, 5);
    let world: Vec<AccountData> = (0..accs)
        .map(|a| mk_account(acc(a), prog(g.below(progs)), 10 + a, small_data(g), 5, 5, cheap_codec(g)))
        .collect();
    let mut src = Still { world, bad_subscriptions: HashSet::new(), bad_snapshots: HashSet::new() };
    for p in 0..progs {
        match g.below(5) {
            0 => drop(src.bad_subscriptions.insert(prog(p))),
            1 | 2 => drop(src.bad_snapshots.insert(prog(p))),
            _ => {}
        }
    }
    for a in 0..accs + 1 {
        match g.below(6) {
            0 => drop(src.bad_subscriptions.insert(acc(a))),
            1 => drop(src.bad_snapshots.insert(acc(a))),
            _ => {}
        }
    }
    enum Q {
        Acc(Pubkey, usize),
        Prog(Pubkey, Option<Vec<AccountFilterType>>, usize),
    }
    let mut qs = vec![];
    for _ in 0..g.size(2, 9) {
        let l = g.below(3) as usize;
        if g.chance(1, 3) {
            let k = acc(g.below(accs + 1));
            g.note(|| format!("read {}", short(&k)));
            qs.push(Q::Acc(k, l));
        } else {
            let p = prog(g.below(progs));
            let conds = g.chance(3, 4).then(|| (0..g.size(1, 2)).map(|_| small_cond(g)).collect::<Vec<_>>());
            let f = conds.as_ref().map(|c| spell_all(g, c));
            g.class_if(f.is_some() && src.bad_snapshots.contains(&p), "filtered_retry");
            g.class_if(!src.bad_snapshots.contains(&p) && !src.bad_subscriptions.contains(&p), "loaded");
            g.note(|| format!("query {} {:?}", short(&p), conds));
            qs.push(Q::Prog(p, f, l));
        }
    }
    g.note(|| {
        format!(
            "refused: {:?}, failing snapshots: {:?}",
            src.bad_subscriptions.iter().map(short).collect::<Vec<_>>(),
            src.bad_snapshots.iter().map(short).collect::<Vec<_>>()
        )
    });
    g.nontrivial = g.classes.contains_key("filtered_retry") && g.classes.contains_key("loaded");
    let filters = Arc::new(MutableFilterStore::default());
    let store = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let aod = AccountsOnDemand::new(Arc::new(src), filters, store);
    watch(200, "on-demand storage", |_| {
        for q in &qs {
            match q {
                Q::Acc(k, l) => drop(aod.get_account(*k, cm(*l))),
                Q::Prog(p, f, l) => drop(aod.get_program_accounts(*p, f.clone(), cm(*l))),
            }
        }
        Ok(())
    })
}
