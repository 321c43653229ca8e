//! D06: the on-demand storage in front of a store is the store, as long as nothing has to be loaded
use crate::feed::*;
use crate::gens::*;
use crate::store_props::{acc, damage, prog};
use lite_account_manager_common::account_data::AccountData;
use lite_account_manager_common::account_filter::{AccountFilterType, AccountFilters};
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use pbt::{ensure, fail, Prop, Sub, G, R};
use solana_sdk::pubkey::Pubkey;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "D06",
        subs: vec![Sub::new("twin", 40000, 400000, d06)],
        rule: "the same messages, reads, queries and snapshots (also damaged ones) to a plain store and to one behind the on-demand storage, filters configured up front; non-trivial = a notification reported accounts and a snapshot was loaded that changed something",
        assumptions: &["reads of accounts that the store has, and queries of programs that are configured as a whole"],
    }]
}

#[derive(Default)]
struct Silent {
    contacts: AtomicUsize,
}

impl AccountsSourceInterface for Silent {
    fn subscribe_accounts(&self, _: HashSet<Pubkey>) -> anyhow::Result<()> {
        self.contacts.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.contacts.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn save_snapshot(&self, _: Arc<dyn AccountStorageInterface>, _: AccountFilters) -> anyhow::Result<()> {
        self.contacts.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
}

const PROGS: u64 = 3;

fn d06(g: &mut G) -> R {
    let accs = g.range(1, 5);
    let covered = g.range(1, PROGS);
    let filters: AccountFilters = (0..covered).map(|p| program_filter(prog(p), None)).collect();
    let make = || {
        let f = Arc::new(MutableFilterStore::default());
        f.add_account_filters(&filters);
        f
    };
    let plain = InmemoryAccountStore::new(make());
    let f = make();
    let source = Arc::new(Silent::default());
    let inner = Arc::new(InmemoryAccountStore::new(f.clone()));
    let aod = AccountsOnDemand::new(source.clone(), f, inner.clone());
    let sc = scale(g);
    let mut slots = Slots::new(sc.slot);
    let mut wv = sc.wv;
    let mut snaps: Vec<(Pubkey, Vec<u8>)> = vec![];
    let (mut reported, mut restored) = (false, false);
    let state = |g: &mut G, slot: u64, wv: u64| -> AccountData {
        let lamports = if g.chance(1, 8) { 0 } else { sc.lamports + g.range(1, 9) };
        mk_account(acc(g.below(accs)), prog(g.below(PROGS)), lamports, small_data(g), slot, wv, cheap_codec(g))
    };
    // everything that is readable without loading
    let same = |at: &str| -> R {
        for l in 0..3 {
            for a in 0..accs {
                let want = plain.get_account(acc(a), commitment(l));
                if matches!(want, Ok(Some(_))) {
                    let got = aod.get_account(acc(a), commitment(l));
                    let (x, y) = (got.as_ref().map(|x| x.as_ref().map(St::of)), want.as_ref().map(|x| x.as_ref().map(St::of)));
                    ensure!("read", x == y, "{at}: acc {a} at {} reads {x:?}, the plain store has {y:?}", cname(l));
                } else {
                    let got = inner.get_account(acc(a), commitment(l));
                    ensure!("store", matches!(got, Ok(None)), "{at}: the store has acc {a} at {}, the plain one has not", cname(l));
                }
            }
            for p in 0..covered {
                let got = aod.get_program_accounts(prog(p), None, commitment(l)).map(|v| multiset(&v));
                let want = plain.get_program_accounts(prog(p), None, commitment(l)).map(|v| multiset(&v));
                ensure!("query", got == want, "{at}: program {p} at {}: {got:?}, the plain store has {want:?}", cname(l));
            }
        }
        Ok(())
    };
    let mut done = 0;
    let hi = 30 * g.size as usize;
    while g.more(done, 3, hi) {
        done += 1;
        let what = match g.weighted(&[7, 8, 2, 2, 3, 5]) {
            0 => {
                let s = if slots.v.len() < 2 || g.chance(1, 3) { slots.grow(g, 20) } else { g.below(slots.v.len() as u64) as usize };
                wv += 1;
                let a = state(g, slots.num(s), wv);
                let l = g.weighted(&[8, 1, 1]);
                let x = aod.update_account(a.clone(), commitment(l));
                let y = plain.update_account(a.clone(), commitment(l));
                let what = format!("update {} to {} {}", short(&a.pubkey), show(&Some(St::of(&a))), cname(l));
                ensure!("update", x == y, "{what}: returned {x}, the plain store {y}");
                what
            }
            1 => {
                let s = if slots.v.len() < 2 || g.chance(1, 2) { slots.grow(g, 20) } else { g.below(slots.v.len() as u64) as usize };
                let l = g.below(3) as usize;
                if slots.can_notify(s, l) {
                    slots.notify(s, l);
                }
                let info = slots.info(s);
                let x = multiset(&aod.process_slot_data(info.clone(), commitment(l)));
                let y = multiset(&plain.process_slot_data(info, commitment(l)));
                let what = format!("notify {} {}", slots.num(s), cname(l));
                ensure!("notification", x == y, "{what}: reported {x:?}, the plain store {y:?}");
                reported |= !y.is_empty();
                what
            }
            2 => {
                wv += 1;
                let a = state(g, slots.fnum(), wv);
                aod.initilize_or_update_account(a.clone());
                plain.initilize_or_update_account(a.clone());
                format!("initialize {} to {}", short(&a.pubkey), show(&Some(St::of(&a))))
            }
            3 => {
                let p = prog(g.below(PROGS));
                let x = aod.create_snapshot(p);
                let y = plain.create_snapshot(p);
                let what = format!("snapshot of {}", short(&p));
                match (&x, &y) {
                    (Ok(b), Ok(_)) => snaps.push((p, b.clone())),
                    (Err(x), Err(y)) if x == y => {}
                    _ => return fail("snapshot", format!("{what}: {:?}, the plain store {:?}", x.map(|b| b.len()), y.map(|b| b.len()))),
                }
                what
            }
            4 => {
                // a snapshot of another store, older and newer states
                let mut other = vec![];
                for _ in 0..g.size(0, 3) {
                    wv += 1;
                    let slot = slots.fnum().saturating_sub(g.below(3));
                    other.push(state(g, slot, wv));
                }
                let twin = InmemoryAccountStore::new(make());
                for a in &other {
                    twin.initilize_or_update_account(a.clone());
                }
                let p = prog(g.below(covered));
                if let Ok(b) = twin.create_snapshot(p) {
                    snaps.push((p, b));
                }
                format!("snapshot of another store with {} accounts", other.len())
            }
            _ => {
                if snaps.is_empty() {
                    continue;
                }
                let (p, mut b) = g.pick(&snaps).clone();
                let damaged = g.chance(1, 4);
                if damaged {
                    damage(g, &mut b);
                    // damage within the data of an account is outside of S07
                    if bincode::deserialize::<Vec<AccountData>>(&b).is_ok() {
                        continue;
                    }
                }
                let before = multiset(&plain.get_program_accounts(p, None, commitment(2)).unwrap_or_default());
                let x = aod.load_from_snapshot(p, b.clone());
                let y = plain.load_from_snapshot(p, b);
                let what = format!("load {}snapshot of {}", if damaged { "damaged " } else { "" }, short(&p));
                ensure!("load", x == y, "{what}: {x:?}, the plain store {y:?}");
                restored |= before != multiset(&plain.get_program_accounts(p, None, commitment(2)).unwrap_or_default());
                what
            }
        };
        g.note(|| what.clone());
        same(&what)?;
        let n = source.contacts.load(Ordering::SeqCst);
        ensure!("contacted", n == 0, "{what}: the source was contacted although nothing had to be loaded");
    }
    g.class_if(reported, "reported");
    g.class_if(restored, "restored");
    g.nontrivial = reported && restored;
    Ok(())
}
