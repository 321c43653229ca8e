//! Feed generator and reference model for account storages: a slot tree, account updates and slot
//! notifications (late, duplicate, skipped, out of order), and the view every commitment should have.
use crate::gens::*;
use lite_account_manager_common::account_data::AccountData;
use lite_account_manager_common::account_filter::AccountFilter;
use lite_account_manager_common::commitment::Commitment;
use lite_account_manager_common::slot_info::SlotInfo;
use pbt::G;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

pub const LEVELS: [Commitment; 3] = [
    Commitment::Processed,
    Commitment::Confirmed,
    Commitment::Finalized,
];

pub fn commitment(l: usize) -> Commitment {
    LEVELS[l]
}
pub fn cname(l: usize) -> &'static str {
    ["processed", "confirmed", "finalized"][l]
}

#[derive(Clone, Debug)]
pub struct SlotNode {
    pub num: u64,
    pub parent: Option<usize>,
    /// effective commitment: directly or as an ancestor of a notified slot
    pub level: usize,
    /// a notification carrying this slot's parent has been sent
    pub notified: bool,
    /// left behind by the finalization of another fork
    pub abandoned: bool,
}

/// the slot tree and what has been announced about it
#[derive(Clone, Debug)]
pub struct Slots {
    pub v: Vec<SlotNode>,
    /// newest finalized slot
    pub f: usize,
}

impl Slots {
    pub fn new(base: u64) -> Self {
        Slots {
            v: vec![SlotNode {
                num: base,
                parent: None,
                level: 2,
                notified: true,
                abandoned: false,
            }],
            f: 0,
        }
    }
    pub fn num(&self, i: usize) -> u64 {
        self.v[i].num
    }
    pub fn last_num(&self) -> u64 {
        self.v.last().unwrap().num
    }
    pub fn fnum(&self) -> u64 {
        self.v[self.f].num
    }
    pub fn is_descendant(&self, mut i: usize, of: usize) -> bool {
        loop {
            if i == of {
                return true;
            }
            match self.v[i].parent {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    pub fn add(&mut self, num: u64, parent: usize) -> usize {
        self.v.push(SlotNode {
            num,
            parent: Some(parent),
            level: 0,
            notified: false,
            abandoned: false,
        });
        self.v.len() - 1
    }
    /// is `of` the slot or one of its ancestors, as far as the parents have been announced
    pub fn reaches(&self, mut i: usize, of: usize) -> bool {
        loop {
            if i == of {
                return true;
            }
            match self.v[i].parent {
                Some(p) if self.v[i].notified => i = p,
                _ => return false,
            }
        }
    }
    /// every slot strictly between i and the finalized root has been announced before
    pub fn ancestors_known(&self, i: usize) -> bool {
        let mut p = self.v[i].parent;
        while let Some(x) = p {
            if self.v[x].num <= self.fnum() {
                return true;
            }
            if !self.v[x].notified {
                return false;
            }
            p = self.v[x].parent;
        }
        true
    }
    pub fn can_notify(&self, i: usize, level: usize) -> bool {
        let n = &self.v[i];
        if n.parent.is_none() {
            return false;
        }
        match level {
            0 => true,
            _ if n.level >= level => true,
            _ => n.num > self.fnum() && self.is_descendant(i, self.f) && self.ancestors_known(i),
        }
    }
    /// commitments reach every ancestor whose descent has been announced
    fn spread(&mut self) {
        for j in (0..self.v.len()).rev() {
            let n = &self.v[j];
            if let (true, Some(p)) = (n.notified, n.parent) {
                let l = n.level;
                self.v[p].level = self.v[p].level.max(l);
            }
        }
    }
    pub fn notify(&mut self, i: usize, level: usize) {
        self.v[i].notified = true;
        if level == 0 {
            // the parent of a slot that was promoted before it was announced is promoted now
            self.spread();
            return;
        }
        self.v[i].level = self.v[i].level.max(level);
        self.spread();
        if level == 2 && self.v[i].num > self.fnum() {
            let from = self.f;
            self.f = i;
            // what lies between two finalized slots and is not on the chain is out of the game; the first slot of the
            // model has not been announced, so nothing is known about the slots after it
            if from != 0 && self.reaches(i, from) {
                let (lo, hi) = (self.v[from].num, self.v[i].num);
                for n in self.v.iter_mut() {
                    n.abandoned |= lo < n.num && n.num < hi && n.level == 0;
                }
            }
        }
    }
    pub fn info(&self, i: usize) -> SlotInfo {
        let slot = self.v[i].num;
        let parent = self.v[i].parent.map(|p| self.v[p].num).unwrap_or(0);
        // the root of a sender may be behind or ahead of what it has reported as finalized
        let root = match slot % 5 {
            0 => 0,
            1 => parent,
            2 => self.fnum().saturating_sub(3),
            3 => self.fnum().max(parent.saturating_sub(2)),
            _ => self.fnum(),
        };
        SlotInfo { slot, parent, root }
    }
    /// slots whose announcements and updates may still arrive
    pub fn live(&self) -> Vec<usize> {
        (0..self.v.len())
            .filter(|i| self.v[*i].num >= self.fnum() && self.v[*i].parent.is_some())
            .collect()
    }
    pub fn grow(&mut self, g: &mut G, fork_pct: u64) -> usize {
        let cands: Vec<usize> = (0..self.v.len())
            .filter(|i| self.v[*i].num >= self.fnum())
            .collect();
        let parent = if g.chance(fork_pct, 100) {
            *g.pick(&cands)
        } else {
            // the newest slot that descends from the finalized one
            *cands
                .iter()
                .rev()
                .find(|i| self.is_descendant(**i, self.f))
                .unwrap()
        };
        let gap = if g.chance(1, 100) { g.range(30, 2000) } else { [1, 1, 1, 2, 3][g.below(5) as usize] };
        let num = self.last_num() + gap;
        self.add(num, parent)
    }
}

/// one account state
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct St {
    pub slot: u64,
    pub wv: u64,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
}

impl St {
    pub fn ver(&self) -> (u64, u64) {
        (self.slot, self.wv)
    }
    pub fn deleted(&self) -> bool {
        self.lamports == 0
    }
    pub fn of(a: &AccountData) -> St {
        let mut data = a.account.data.data();
        if a.account.executable != executable_of(a.account.lamports)
            || a.account.rent_epoch != rent_epoch_of(a.account.lamports)
            || a.account.data.len() != data.len()
        {
            // fields that do not belong to this state: make it unequal to every written state
            data.extend_from_slice(b"(mixed-up fields)");
        }
        St {
            slot: a.updated_slot,
            wv: a.write_version,
            owner: a.account.owner,
            lamports: a.account.lamports,
            data,
        }
    }
}

/// encoding-free filter set
#[derive(Clone, Debug, Default)]
pub struct RefFilters {
    pub all: BTreeSet<Pubkey>,
    pub conds: Vec<(Pubkey, Vec<Cond>)>,
    pub keys: BTreeSet<Pubkey>,
}

impl RefFilters {
    pub fn satisfies(&self, pk: &Pubkey, s: &St) -> bool {
        self.keys.contains(pk)
            || self.all.contains(&s.owner)
            || self
                .conds
                .iter()
                .any(|(p, cs)| *p == s.owner && cs.iter().all(|c| c.holds(&s.data)))
    }
    pub fn build(&self) -> Vec<AccountFilter> {
        let mut v = vec![];
        for p in &self.all {
            v.push(program_filter(*p, None));
        }
        for (p, cs) in &self.conds {
            v.push(program_filter(
                *p,
                Some(
                    cs.iter()
                        .map(|c| match c {
                            Cond::Size(n) => {
                                lite_account_manager_common::account_filter::AccountFilterType::Datasize(*n)
                            }
                            Cond::Mem(o, b) => {
                                lite_account_manager_common::account_filter::AccountFilterType::Memcmp(
                                    lite_account_manager_common::account_filter::MemcmpFilter {
                                        offset: *o,
                                        data: lite_account_manager_common::account_filter::MemcmpFilterData::Bytes(b.clone()),
                                    },
                                )
                            }
                        })
                        .collect(),
                ),
            ));
        }
        if !self.keys.is_empty() {
            v.push(AccountFilter {
                accounts: self.keys.iter().cloned().collect(),
                program_id: None,
                filters: None,
            });
        }
        v
    }
    /// a program query that certainly nothing configured covers
    pub fn certainly_uncovered(&self, program: &Pubkey, conds: Option<&[Cond]>) -> bool {
        if self.all.contains(program) {
            return false;
        }
        let lists: Vec<_> = self.conds.iter().filter(|(p, _)| p == program).collect();
        lists.is_empty() || conds.is_none()
    }
    /// a program query that is one of the configured filters, or narrower
    pub fn certainly_covered(&self, program: &Pubkey, conds: Option<&[Cond]>) -> bool {
        self.all.contains(program)
            || conds.map_or(false, |q| {
                self.conds
                    .iter()
                    .any(|(p, cs)| p == program && cs.iter().all(|c| q.contains(c)))
            })
    }
}

/// reference model of the in-memory account store
#[derive(Clone, Debug)]
pub struct AccModel {
    pub pk: Pubkey,
    pub tracked: bool,
    /// (state, commitment it was sent with, index of its slot)
    pub ups: Vec<(St, usize, usize)>,
    /// version of the last state whose finalization removed the account
    pub floor: Option<(u64, u64)>,
    pub used: BTreeSet<(u64, u64)>,
}

impl AccModel {
    pub fn new(pk: Pubkey) -> Self {
        AccModel {
            pk,
            tracked: false,
            ups: vec![],
            floor: None,
            used: BTreeSet::new(),
        }
    }
    /// the state of this slot was abandoned; the sender contradicts that if it reported a state of the slot as confirmed
    fn lost(&self, slots: &Slots, i: usize) -> bool {
        slots.v[i].abandoned && !self.ups.iter().any(|(s, c, _)| s.slot == slots.num(i) && *c > 0)
    }
    pub fn view(&self, slots: &Slots, level: usize) -> Option<&St> {
        if !self.tracked {
            return None;
        }
        self.ups
            .iter()
            .filter(|(_, c, i)| (level == 0 && !self.lost(slots, *i)) || *c >= level.max(1) || slots.v[*i].level >= level.max(1))
            .map(|(s, _, _)| s)
            .max_by_key(|s| s.ver())
    }
    /// what a reader gets: deleted accounts are not returned
    pub fn read(&self, slots: &Slots, level: usize) -> Option<&St> {
        self.view(slots, level).filter(|s| !s.deleted())
    }
    pub fn settle(&mut self, slots: &Slots, filters: &RefFilters) {
        let lost: Vec<bool> = self.ups.iter().map(|(_, c, i)| *c == 0 && self.lost(slots, *i)).collect();
        let mut lost = lost.into_iter();
        self.ups.retain(|_| !lost.next().unwrap());
        if self.tracked && self.view(slots, 0).is_none() {
            // all states were abandoned
            self.tracked = false;
            self.ups.clear();
        }
        let gone = match (self.view(slots, 2), self.view(slots, 0)) {
            (Some(f), Some(p)) => {
                f.ver() == p.ver() && (f.deleted() || !filters.satisfies(&self.pk, f))
            }
            _ => false,
        };
        if gone {
            let v = self.view(slots, 2).unwrap().ver();
            self.floor = Some(self.floor.map_or(v, |x| x.max(v)));
            self.tracked = false;
            self.ups.clear();
        }
    }
}

pub fn show(s: &Option<St>) -> String {
    match s {
        None => "none".into(),
        Some(s) => format!(
            "(slot {} wv {} owner {} lamports {} data {:?})",
            s.slot,
            s.wv,
            short(&s.owner),
            s.lamports,
            s.data
        ),
    }
}

pub fn short(p: &Pubkey) -> String {
    let s = p.to_string();
    s[..4.min(s.len())].to_string()
}

pub fn multiset(v: &[AccountData]) -> BTreeMap<(Pubkey, u64, u64), Vec<St>> {
    let mut m: BTreeMap<(Pubkey, u64, u64), Vec<St>> = BTreeMap::new();
    for a in v {
        m.entry((a.pubkey, a.updated_slot, a.write_version))
            .or_default()
            .push(St::of(a));
    }
    m
}
