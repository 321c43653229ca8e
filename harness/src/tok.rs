//! Token program accounts: generator, reference encoding, feed model for the token storage.
use crate::feed::*;
use crate::gens::*;
use lite_account_manager_common::account_data::{Account, AccountData};
use pbt::G;
use solana_sdk::account::Account as SolanaAccount;
use solana_sdk::program_option::COption;
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::rent::Rent;
use std::collections::BTreeMap;
use std::sync::Arc;

/// 0 = SPL Token, 1 = Token-2022
pub fn token_program(p: usize) -> Pubkey {
    if p == 0 {
        spl_token::id()
    } else {
        spl_token_2022::id()
    }
}

/// keys of one family share their first four bytes with every second other one
pub fn near_key(family: u8, n: u64) -> Pubkey {
    let mut b = key(family, n).to_bytes();
    let p = key(99, n % 2).to_bytes();
    b[..4].copy_from_slice(&p[..4]);
    Pubkey::new_from_array(b)
}
pub fn mint_key(p: usize, n: u64) -> Pubkey {
    near_key(60 + p as u8, n)
}
pub fn owner_key(n: u64) -> Pubkey {
    near_key(62, n)
}
pub fn token_key(n: u64) -> Pubkey {
    near_key(63, n)
}
pub fn multisig_key(n: u64) -> Pubkey {
    near_key(64, n)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokSpec {
    Token {
        program: usize,
        mint: Pubkey,
        owner: Pubkey,
        amount: u64,
        delegate: Option<(Pubkey, u64)>,
        native: Option<u64>,
        close: Option<Pubkey>,
        /// 0 uninitialized, 1 initialized, 2 frozen
        state: u8,
        ext: Option<Vec<u8>>,
    },
    Mint {
        program: usize,
        authority: Option<Pubkey>,
        supply: u64,
        decimals: u8,
        init: bool,
        freeze: Option<Pubkey>,
        ext: Option<Vec<u8>>,
    },
    Multi {
        program: usize,
        m: u8,
        signers: Vec<Pubkey>,
        init: bool,
    },
}

fn opt_key(g: &mut G) -> Option<Pubkey> {
    g.chance(1, 3).then(|| match g.weighted(&[4, 1]) {
        0 => owner_key(g.below(4)),
        _ => any_key(g),
    })
}

/// TLV tail of an extended Token-2022 account: content is opaque to the storage
fn extension(g: &mut G) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..g.size(0, 2) {
        let ty = g.below(20) as u16;
        let n = g.size(0, 40);
        v.extend_from_slice(&ty.to_le_bytes());
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend(g.blob(n));
    }
    if g.chance(1, 6) {
        v.extend(vec![0; g.size(0, 30)]);
    }
    // an extended account never has the size of a multisig
    if 166 + v.len() == 355 {
        v.push(0);
    }
    v
}

impl TokSpec {
    pub fn token(program: usize, mint: Pubkey, owner: Pubkey, g: &mut G) -> TokSpec {
        TokSpec::Token {
            program,
            mint,
            owner,
            amount: g.edgy_u64(),
            delegate: opt_key(g).map(|k| (k, g.edgy_u64())),
            native: g.chance(1, 5).then(|| g.edgy_u64()),
            close: opt_key(g),
            state: [1, 2, 1, 0][g.weighted(&[4, 2, 1, 1])],
            ext: (program == 1 && g.chance(1, 2)).then(|| extension(g)),
        }
    }
    pub fn mint(program: usize, g: &mut G) -> TokSpec {
        TokSpec::Mint {
            program,
            authority: opt_key(g),
            supply: g.edgy_u64(),
            decimals: g.u8(),
            init: !g.chance(1, 6),
            freeze: opt_key(g),
            ext: (program == 1 && g.chance(1, 2)).then(|| extension(g)),
        }
    }
    pub fn multi(program: usize, g: &mut G) -> TokSpec {
        let n = g.size(1, 11);
        TokSpec::Multi {
            program,
            m: g.range(1, n as u64) as u8,
            signers: (0..n as u64)
                .map(|i| if g.chance(1, 12) { Pubkey::default() } else { owner_key(i) })
                .collect(),
            init: !g.chance(1, 6),
        }
    }
    pub fn kind(&self) -> usize {
        match self {
            TokSpec::Token { .. } => 0,
            TokSpec::Mint { .. } => 1,
            TokSpec::Multi { .. } => 2,
        }
    }
    pub fn program(&self) -> usize {
        match self {
            TokSpec::Token { program, .. } | TokSpec::Mint { program, .. } | TokSpec::Multi { program, .. } => *program,
        }
    }
    pub fn extended(&self) -> bool {
        matches!(self, TokSpec::Token { ext: Some(_), .. } | TokSpec::Mint { ext: Some(_), .. })
    }
    /// the on-chain bytes, written with the token programs' own packing code
    pub fn data(&self) -> Vec<u8> {
        fn co<T>(x: Option<T>) -> COption<T> {
            match x {
                Some(x) => COption::Some(x),
                None => COption::None,
            }
        }
        match self {
            TokSpec::Token {
                program: _,
                mint,
                owner,
                amount,
                delegate,
                native,
                close,
                state,
                ext,
            } => {
                let mut d = vec![0; 165];
                spl_token::state::Account {
                    mint: *mint,
                    owner: *owner,
                    amount: *amount,
                    delegate: co(delegate.map(|x| x.0)),
                    state: match state {
                        0 => spl_token::state::AccountState::Uninitialized,
                        1 => spl_token::state::AccountState::Initialized,
                        _ => spl_token::state::AccountState::Frozen,
                    },
                    is_native: co(*native),
                    delegated_amount: delegate.map(|x| x.1).unwrap_or(0),
                    close_authority: co(*close),
                }
                .pack_into_slice(&mut d);
                if let Some(e) = ext {
                    d.push(2);
                    d.extend_from_slice(e);
                }
                d
            }
            TokSpec::Mint {
                program: _,
                authority,
                supply,
                decimals,
                init,
                freeze,
                ext,
            } => {
                let mut d = vec![0; 82];
                spl_token::state::Mint {
                    mint_authority: co(*authority),
                    supply: *supply,
                    decimals: *decimals,
                    is_initialized: *init,
                    freeze_authority: co(*freeze),
                }
                .pack_into_slice(&mut d);
                if let Some(e) = ext {
                    d.resize(165, 0);
                    d.push(1);
                    d.extend_from_slice(e);
                }
                d
            }
            TokSpec::Multi { m, signers, init, .. } => {
                let mut all = [Pubkey::default(); 11];
                all[..signers.len()].copy_from_slice(signers);
                let mut d = vec![0; 355];
                spl_token::state::Multisig {
                    m: *m,
                    n: signers.len() as u8,
                    is_initialized: *init,
                    signers: all,
                }
                .pack_into_slice(&mut d);
                d
            }
        }
    }
    /// lamports of the account; the storage keeps them for mints and multisigs only
    pub fn lamports(&self, wv: u64) -> u64 {
        match self {
            TokSpec::Token { .. } => Rent::default().minimum_balance(self.data().len()),
            _ => 3_000_000 + wv,
        }
    }
    pub fn account(&self, pk: Pubkey, deleted: bool, slot: u64, wv: u64) -> AccountData {
        let st = if deleted { TokState::Closed(0) } else { TokState::Live(self.clone()) };
        st.account(pk, slot, wv, lite_account_manager_common::account_data::CompressionMethod::None)
    }
    pub fn brief(&self) -> String {
        match self {
            TokSpec::Token { program, mint, owner, amount, ext, .. } => format!(
                "token{} mint {} owner {} amount {amount}{}",
                if *program == 1 { "22" } else { "" },
                tag(mint),
                tag(owner),
                ext.as_ref().map(|e| format!(" ext {}", e.len())).unwrap_or_default()
            ),
            TokSpec::Mint { program, supply, ext, .. } => format!(
                "mint{} supply {supply}{}",
                if *program == 1 { "22" } else { "" },
                ext.as_ref().map(|e| format!(" ext {}", e.len())).unwrap_or_default()
            ),
            TokSpec::Multi { program, m, signers, .. } => format!("multisig{} {m}/{}", if *program == 1 { "22" } else { "" }, signers.len()),
        }
    }
}

/// keys share their beginnings, so show the middle
pub fn tag(p: &Pubkey) -> String {
    let b = p.to_bytes();
    format!("{:02x}{:02x}..{:02x}{:02x}{:02x}", b[0], b[1], b[29], b[30], b[31])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokState {
    Live(TokSpec),
    /// 0: zero lamports, system owned, no data; 1: zero lamports, still token owned, with data; 2: moved to another program
    Closed(u8),
}

impl TokState {
    pub fn live(&self) -> Option<&TokSpec> {
        match self {
            TokState::Live(s) => Some(s),
            TokState::Closed(_) => None,
        }
    }
    pub fn account(
        &self,
        pk: Pubkey,
        slot: u64,
        wv: u64,
        codec: lite_account_manager_common::account_data::CompressionMethod,
    ) -> AccountData {
        let (owner, lamports, data) = match self {
            TokState::Live(s) => (token_program(s.program()), s.lamports(wv), s.data()),
            TokState::Closed(0) => (Pubkey::default(), 0, vec![]),
            TokState::Closed(1) => (spl_token::id(), 0, vec![0; 165]),
            TokState::Closed(_) => (key(70, 0), 5000 + wv, vec![1, 2, 3]),
        };
        AccountData {
            pubkey: pk,
            account: Arc::new(Account::from_solana_account(
                SolanaAccount {
                    lamports,
                    data,
                    owner,
                    executable: false,
                    rent_epoch: u64::MAX,
                },
                codec,
            )),
            updated_slot: slot,
            write_version: wv,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            TokState::Live(s) => s.brief(),
            TokState::Closed(k) => format!("closed ({})", ["no lamports", "no lamports, data left", "moved to another program"][*k as usize]),
        }
    }
}

/// what a reader can compare: key, owner program, data, and lamports of mints and multisigs
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct TokView {
    pub pk: Pubkey,
    pub program: Pubkey,
    pub lamports: Option<u64>,
    pub data: Vec<u8>,
}

impl TokView {
    pub fn of(a: &AccountData) -> TokView {
        let data = a.account.data.data();
        let is_token = data.len() == 165 || (data.len() > 165 && data.len() != 355 && data[165] == 2);
        TokView {
            pk: a.pubkey,
            program: a.account.owner,
            lamports: (!is_token).then_some(a.account.lamports),
            data,
        }
    }
    pub fn want(pk: Pubkey, s: &TokSpec, wv: u64) -> TokView {
        TokView {
            pk,
            program: token_program(s.program()),
            lamports: (s.kind() != 0).then(|| s.lamports(wv)),
            data: s.data(),
        }
    }
    pub fn brief(&self) -> String {
        let d = &self.data;
        let extra = if d.len() >= 165 && d.len() != 355 {
            format!(" mint {} owner {} amount {}", hex(&d[..4]), hex(&d[29..36]), u64::from_le_bytes(d[64..72].try_into().unwrap()))
        } else {
            String::new()
        };
        format!("{} ({} bytes, lamports {:?}, hash {:x}{extra})", tag(&self.pk), d.len(), self.lamports, pbt::hash64(d) & 0xffff)
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn brief_opt(v: &Option<TokView>) -> String {
    v.as_ref().map(|x| x.brief()).unwrap_or("none".into())
}

#[derive(Clone, Debug)]
pub struct TokAcc {
    pub pk: Pubkey,
    pub kind: usize,
    /// unfinalized states by (slot, write version), with the index of their slot
    pub pending: BTreeMap<(u64, u64), (TokState, usize)>,
    /// finalized state
    pub fin: Option<(TokState, u64, u64)>,
    pub moved: bool,
    pub closed_once: bool,
}

impl TokAcc {
    pub fn new(pk: Pubkey, kind: usize) -> TokAcc {
        TokAcc {
            pk,
            kind,
            pending: BTreeMap::new(),
            fin: None,
            moved: false,
            closed_once: false,
        }
    }
    fn newest_where(&self, f: impl Fn(usize) -> bool) -> Option<(&TokState, u64, u64)> {
        self.pending
            .iter()
            .rev()
            .find(|(_, (_, i))| f(*i))
            .map(|((s, w), (st, _))| (st, *s, *w))
    }
    /// (state, slot, write version) seen at a commitment
    pub fn at(&self, slots: &Slots, confirmed: usize, level: usize) -> Option<(&TokState, u64, u64)> {
        let f = slots.fnum();
        let c = slots.num(confirmed);
        if level == 0 {
            if let Some(x) = self.newest_where(|i| slots.num(i) > f.max(c)) {
                return Some(x);
            }
        }
        if level <= 1 && c > f {
            if let Some(x) = self.newest_where(|i| slots.num(i) > f && slots.reaches(confirmed, i)) {
                return Some(x);
            }
        }
        self.fin.as_ref().map(|(s, a, b)| (s, *a, *b))
    }
    pub fn view(&self, slots: &Slots, confirmed: usize, level: usize) -> Option<TokView> {
        self.at(slots, confirmed, level)
            .and_then(|(s, _, w)| s.live().map(|s| TokView::want(self.pk, s, w)))
    }
    pub fn finalize(&mut self, slots: &Slots) {
        let f = slots.f;
        let new = self
            .newest_where(|i| slots.num(i) <= slots.num(f) && slots.is_descendant(f, i))
            .map(|(s, a, b)| (s.clone(), a, b));
        if let Some(n) = new {
            self.fin = Some(n);
        }
        let fnum = slots.fnum();
        self.pending.retain(|_, (_, i)| slots.num(*i) > fnum);
    }
}
