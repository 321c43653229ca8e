//! T10: gauges of the token storage
use crate::tok::*;
use crate::token_props::*;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use pbt::{ensure, no_panic, fail, Prop, Sub, G, R};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

pub fn prop() -> Prop {
    Prop {
        id: "T10",
        subs: vec![Sub::new("gauges", 25000, 400000, t10)],
        rule: "random feeds with forks, closings and re-creations, then the snapshot of a program loaded once or twice into an empty store; the gauges of the process, compared with the model after every message; non-trivial = finalization dropped a state of an abandoned fork, and an account was closed",
        assumptions: &["the gauges belong to the process: the cases run one after the other, and what a dropped store counted is subtracted"],
    }
}

const GAUGES: [&str; 4] = [
    "lite_accounts_token_processed_accounts_in_memory",
    "lite_accounts_token_mints_in_memory",
    "lite_account_token_accounts_in_memory",
    "lite_account_token_accounts_deleted_in_memory",
];

/// (unfinalized states, mints, token accounts that are not deleted)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Counts(i64, i64, i64);

fn gauges() -> Counts {
    let mut v = [0i64; 4];
    for f in prometheus::gather() {
        if let Some(i) = GAUGES.iter().position(|n| *n == f.get_name()) {
            v[i] = f.get_metric().iter().map(|m| m.get_gauge().get_value() as i64).sum();
        }
    }
    Counts(v[0], v[1], v[2] - v[3])
}

impl Counts {
    fn since(self, o: Counts) -> Counts {
        Counts(self.0 - o.0, self.1 - o.1, self.2 - o.2)
    }
    fn brief(&self) -> String {
        format!("{} unfinalized states, {} mints, {} token accounts", self.0, self.1, self.2)
    }
}

/// one store at a time moves the gauges
static ONE: Mutex<()> = Mutex::new(());

/// what the gauges showed when the store was made
pub struct Meter(Counts);

impl Meter {
    pub fn check(&self, b: &TBuilt) -> R {
        let mut want = Counts(0, 0, 0);
        for a in &b.accs {
            want.0 += a.pending.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() as i64;
            match a.fin.as_ref().and_then(|f| f.0.live()).map(|s| s.kind()) {
                Some(0) => want.2 += 1,
                Some(1) => want.1 += 1,
                _ => {}
            }
        }
        let got = gauges().since(self.0);
        ensure!("gauges", got == want, "the gauges count {}, the storage holds {}", got.brief(), want.brief());
        Ok(())
    }
}

fn t10(g: &mut G) -> R {
    let p = TProfile {
        close_pct: 25,
        fork_pct: 45,
        lo: 12,
        hi: 36,
        ..quiet_profile(TCheck::Gauges)
    };
    let shape = g.weighted(&[200, 1, 1]);
    let mut b = TBuilt::shaped(g, Arc::new(new_store()), &p, shape);
    let _alone = ONE.lock().unwrap_or_else(|e| e.into_inner());
    b.meter = Some(Meter(gauges()));
    b.run(g, &p)?;
    if g.chance(1, 3) {
        let program = g.below(2) as usize;
        let bytes = take_snapshot(&b, program)?;
        let other = new_store();
        let before = gauges();
        let mut want = Counts(0, 0, 0);
        for v in finalized(&b).values().filter(|v| v.program == token_program(program)) {
            match v.lamports {
                None => want.2 += 1,
                Some(_) if v.data.len() != 355 => want.1 += 1,
                _ => {}
            }
        }
        for times in 1..=g.size(1, 2) {
            match no_panic(|| other.load_from_snapshot(token_program(program), bytes.clone())) {
                Ok(Ok(())) => {}
                r => return fail("snapshot_load", format!("loading a snapshot: {r:?}")),
            }
            let got = gauges().since(before);
            ensure!(
                "gauges_loaded",
                got == want,
                "after a snapshot was loaded {times} times the gauges grew by {}, it holds {}",
                got.brief(),
                want.brief()
            );
        }
    }
    Ok(())
}
