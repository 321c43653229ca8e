//! A04: the simulator as a program: a snapshot, the geyser stream over it, RPC answers
use crate::rpc_props::rpc_filter;
use crate::snapgen::*;
use base64::Engine;
use lam_harness::feed::*;
use lam_harness::gens::*;
use lam_harness::tok::*;
use lam_harness::token_props::*;
use lite_account_manager_common::account_data::AccountData;
use lite_account_manager_common::account_store_interface::AccountStorageInterface;
use pbt::{ensure, fail, no_panic, Fail, Prop, Sub, G, R};
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::str::FromStr;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A04",
        subs: vec![
            Sub::new("served", 4000, 40000, a04_served),
            Sub::new("startup", 1000, 10000, a04_startup),
            Sub::new("duplicates", 600, 6000, a04_duplicates),
        ],
        rule: "the program is started with a generated snapshot archive (token accounts, mints and multisigs of both token programs among accounts of other owners) and a generated stream of account updates and slot notifications; after each message some RPC calls, at the end all accounts at all commitments, queries and snapshots of both programs, are compared with the model; non-trivial = an account of the snapshot was changed by the stream and a slot was confirmed or finalized (served) / an account occurs in account files of several slots (duplicates)",
        assumptions: &[
            "the data of a message is the data of the account, whatever compression the message names",
            "clap, jsonrpsee, the QUIC client and the accounts-db types are stand-ins with the interface the program uses",
        ],
    }]
}

const ARCHIVE: &str = "snapshot.tar.zst";

pub struct Sim {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    dir: Scratch,
    /// the archive cannot be read yet
    early: bool,
    /// messages that were not taken before
    owed: Vec<Value>,
}

impl Drop for Sim {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Sim {
    pub fn start(archive: &[u8], stream: bool) -> Sim {
        let dir = Scratch::new();
        std::fs::write(dir.0.join(ARCHIVE), archive).expect("archive");
        Sim::spawn(dir, stream)
    }
    /// the program reads its archive from a pipe
    pub fn start_empty() -> Sim {
        let dir = Scratch::new();
        let made = Command::new("mkfifo").arg(dir.0.join(ARCHIVE)).status().map_or(false, |s| s.success());
        assert!(made, "mkfifo");
        let mut s = Sim::spawn(dir, true);
        s.early = true;
        s
    }
    /// write the archive into the pipe
    pub fn supply(&mut self, archive: Vec<u8>) -> R {
        let path = self.dir.0.join(ARCHIVE);
        std::thread::spawn(move || {
            if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(path) {
                let _ = f.write_all(&archive);
            }
        });
        self.early = false;
        for m in std::mem::take(&mut self.owed) {
            let v = self.answered(&m, true)?;
            ensure!("stream", v["done"] == json!(true), "message {m} was answered by {v}");
        }
        Ok(())
    }
    fn spawn(dir: Scratch, stream: bool) -> Sim {
        let path = dir.0.join(ARCHIVE);
        let err = std::fs::File::create(dir.0.join("stderr")).expect("stderr");
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("sim-under-test");
        let mut c = Command::new(exe);
        c.arg("--snapshot-archive-path").arg(&path);
        if stream {
            c.args(["--quic-url", "127.0.0.1:1"]);
        }
        let mut child = c
            .env("RUST_LOG", "off")
            .env("RUST_BACKTRACE", "0")
            .current_dir(&dir.0)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .spawn()
            .expect("sim-under-test");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if let Some(v) = l.strip_prefix("@@") {
                    if tx.send(v.to_string()).is_err() {
                        break;
                    }
                }
            }
        });
        Sim { child, stdin, rx, dir, early: false, owed: vec![] }
    }
    fn stderr(&self) -> String {
        let t = std::fs::read(self.dir.0.join("stderr")).unwrap_or_default();
        String::from_utf8_lossy(&t).chars().take(600).collect()
    }
    /// send one line and wait for its answer
    pub fn ask(&mut self, v: &Value) -> Result<Value, Fail> {
        let written = self.send(v);
        self.answered(v, written)
    }
    fn send(&mut self, v: &Value) -> bool {
        writeln!(self.stdin, "{v}").and_then(|_| self.stdin.flush()).is_ok()
    }
    fn answered(&mut self, v: &Value, written: bool) -> Result<Value, Fail> {
        let start = Instant::now();
        loop {
            match self.rx.recv_timeout(Duration::from_millis(250)) {
                Ok(l) => return serde_json::from_str(&l).map_err(|e| Fail { key: "answer".into(), msg: format!("{l}: {e}") }),
                Err(RecvTimeoutError::Disconnected) => {
                    return fail("exited", format!("the program ended while handling {v}: {}", self.stderr()));
                }
                Err(RecvTimeoutError::Timeout) => {
                    let e = self.stderr();
                    if !written || e.contains("panicked at") {
                        return fail("panic", format!("no answer to {v}: {e}"));
                    }
                    if start.elapsed() > Duration::from_secs(60) {
                        return fail("hang", format!("no answer to {v} within 60 s: {e}"));
                    }
                }
            }
        }
    }
    fn rpc(&mut self, method: &str, params: Vec<Value>) -> Result<Result<Value, i64>, Fail> {
        let mut v = self.ask(&json!({"t": "rpc", "method": method, "params": params}))?;
        match v["error"].as_i64() {
            Some(c) => Ok(Err(c)),
            None => Ok(Ok(v["result"].take())),
        }
    }
    fn message(&mut self, m: Value) -> R {
        if self.early {
            // the program may also wait with the stream until the snapshot is loaded
            ensure!("exited", self.send(&m), "the program ended before {m}: {}", self.stderr());
            self.owed.push(m);
            if self.owed.len() == 1 && self.rx.recv_timeout(Duration::from_millis(400)).is_ok() {
                self.owed.clear();
            }
            return Ok(());
        }
        let v = self.ask(&m)?;
        ensure!("stream", v["done"] == json!(true), "message {m} was answered by {v}");
        Ok(())
    }
}

fn decode(shown: &Value) -> Option<Vec<u8>> {
    let z = base64::engine::general_purpose::STANDARD.decode(shown["data"][0].as_str()?).ok()?;
    if shown["data"][1] == json!("base64+zstd") {
        zstd::decode_all(&z[..]).ok()
    } else {
        Some(z)
    }
}

/// what an answer shows of an account
fn view_of(pk: Pubkey, shown: &Value) -> Result<TokView, Fail> {
    let data = decode(shown);
    let owner = shown["owner"].as_str().and_then(|s| Pubkey::from_str(s).ok());
    let (Some(data), Some(program), Some(lamports)) = (data, owner, shown["lamports"].as_u64()) else {
        return fail("answer", format!("account {pk} is shown as {shown}"));
    };
    let is_token = data.len() == 165 || (data.len() > 165 && data.len() != 355 && data[165] == 2);
    Ok(TokView { pk, program, lamports: (!is_token).then_some(lamports), data })
}

fn stored(g: &mut G, a: &AccountData) -> Stored {
    Stored {
        write_version: g.below(1000),
        pubkey: a.pubkey,
        lamports: a.account.lamports,
        rent_epoch: rent_epoch(g),
        owner: a.account.owner,
        executable: a.account.executable,
        hash: [7; 32],
        data: a.account.data.data(),
    }
}

fn rent_epoch(g: &mut G) -> u64 {
    match g.below(3) {
        0 => 0,
        1 => g.below(500),
        _ => u64::MAX,
    }
}

fn message_of(g: &mut G, a: &AccountData) -> Value {
    json!({
        "t": "msg", "kind": "account", "slot": a.updated_slot, "pubkey": a.pubkey.to_string(),
        "owner": a.account.owner.to_string(), "lamports": a.account.lamports,
        "executable": a.account.executable, "rent_epoch": rent_epoch(g),
        "write_version": a.write_version, "compression": g.below(3),
        "data": base64::engine::general_purpose::STANDARD.encode(a.account.data.data()),
    })
}

fn slot_message(slot: u64, parent: u64, level: usize) -> Value {
    json!({"t": "msg", "kind": "slot", "slot": slot, "parent": parent, "commitment": level})
}

/// an archive whose account files hold `accounts`
fn archive(g: &mut G, accounts: Vec<Stored>) -> Vec<u8> {
    let mut files: Vec<AccountFile> = vec![];
    let mut rest = accounts;
    let mut id = 0;
    while !rest.is_empty() {
        let n = g.size(1, 4).min(rest.len());
        files.push(AccountFile::of(90 - g.below(40), id, rest.drain(..n).collect()));
        id += 1;
    }
    archive_of(g, files)
}

fn archive_of(g: &mut G, mut files: Vec<AccountFile>) -> Vec<u8> {
    let slot = 90;
    for f in files.iter_mut() {
        if g.bool() {
            let n = (4096 - f.bytes.len() % 4096) % 4096;
            f.bytes.extend(std::iter::repeat(0).take(n));
        }
    }
    let man = manifest(g, slot, &files, false);
    let mut b = tar::Builder::new(vec![]);
    add_entry(&mut b, "version", b"1.2.0");
    add_dir(&mut b, "snapshots/");
    add_entry(&mut b, "snapshots/status_cache", b"xyz");
    add_entry(&mut b, &format!("snapshots/{slot}/{slot}"), &man);
    add_dir(&mut b, "accounts/");
    for f in &files {
        add_entry(&mut b, &format!("accounts/{}", f.name()), &f.bytes);
    }
    compress(&b.into_inner().unwrap(), 1)
}

struct Run {
    b: TBuilt,
    sim: Sim,
}

enum Step {
    Updated(usize),
    Settled(usize),
    Other,
}

impl Run {
    /// a message of the stream
    fn step(&mut self, g: &mut G, p: &TProfile) -> Result<Step, Fail> {
        if g.chance(6, 14) {
            let a = g.below(self.b.accs.len() as u64) as usize;
            self.update(g, p, a)?;
            return Ok(Step::Updated(a));
        }
        self.step_slots(g, p, 2)
    }
    /// a message about slots, which are confirmed or finalized up to `most`
    fn step_slots(&mut self, g: &mut G, p: &TProfile, most: usize) -> Result<Step, Fail> {
        match g.weighted(&[2, 5, 1]) {
            0 => {
                // processed slots are announced too
                let i = self.b.slots.grow(g, p.fork_pct);
                let info = self.b.slots.info(i);
                g.note(|| format!("slot {} (parent {}) processed", info.slot, info.parent));
                self.sim.message(slot_message(info.slot, info.parent, 0))?;
            }
            1 => {
                let l = g.size(1, most);
                let c: Vec<usize> = (1..self.b.slots.v.len())
                    .filter(|i| self.b.can_notify(*i, l) && self.b.slots.num(*i) > self.b.slots.fnum())
                    .filter(|i| l == 2 || self.b.slots.v[*i].level < 1 || g.chance(1, 6))
                    .collect();
                if c.is_empty() {
                    return Ok(Step::Other);
                }
                let i = *g.pick(&c);
                let info = self.b.slots.info(i);
                self.b.notify(g, i, l);
                self.sim.message(slot_message(info.slot, info.parent, l))?;
                return Ok(Step::Settled(l));
            }
            _ => self.sim.message(json!({"t": "msg", "kind": "other"}))?,
        }
        Ok(Step::Other)
    }
    fn update(&mut self, g: &mut G, p: &TProfile, a: usize) -> R {
        let open = self.b.open();
        let i = if open.is_empty() { self.b.slots.grow(g, p.fork_pct) } else { *g.pick(&open) };
        self.b.log = Some(vec![]);
        self.b.update(g, p, a, i)?;
        for (m, _) in self.b.log.take().unwrap_or_default() {
            if let TMsg::Update(a, _) = m {
                self.sim.message(message_of(g, &a))?;
            }
        }
        Ok(())
    }
    /// what the server answers about an account
    fn answer(&mut self, g: &mut G, a: usize, l: usize) -> Result<Option<TokView>, Fail> {
        let pk = self.b.accs[a].pk;
        let enc = *g.pick(&["base64", "base64+zstd"]);
        let r = self.sim.rpc("getAccountInfo", vec![json!(pk.to_string()), json!({"encoding": enc, "commitment": cname(l)})])?;
        Ok(match r {
            Ok(v) if v["value"].is_null() => None,
            Ok(v) => Some(view_of(pk, &v["value"])?),
            Err(c) => return fail("read_error", format!("getAccountInfo of {} failed with {c}", tag(&pk))),
        })
    }
    fn read(&mut self, g: &mut G, a: usize, l: usize) -> R {
        let pk = self.b.accs[a].pk;
        let got = self.answer(g, a, l)?;
        let want = self.b.accs[a].view(&self.b.slots, self.b.confirmed, l);
        ensure!(
            format!("read_{}", cname(l)),
            got == want,
            "{} at {}: the server answers {}, expected {}",
            tag(&pk),
            cname(l),
            brief_opt(&got),
            brief_opt(&want)
        );
        Ok(())
    }
    fn query(&mut self, g: &mut G) -> R {
        let (program, filters, conds, supported) = self.b.gen_query(g);
        let l = g.below(3) as usize;
        let mut cfg = json!({"encoding": "base64", "commitment": cname(l)});
        if filters.is_some() {
            cfg["filters"] = conds.iter().map(|c| rpc_filter(g, c)).collect();
        }
        let r = self.sim.rpc("getProgramAccounts", vec![json!(program.to_string()), cfg])?;
        let got = match r {
            Ok(v) => {
                let Some(list) = v.as_array() else { return fail("answer", format!("no list: {v}")) };
                let mut views = vec![];
                for x in list {
                    let pk = x["pubkey"].as_str().and_then(|s| Pubkey::from_str(s).ok()).unwrap_or_default();
                    views.push(view_of(pk, &x["account"])?);
                }
                Ok(views)
            }
            Err(c) => Err(format!("error {c}")),
        };
        let was = g.nontrivial;
        let r = self.b.judge_query(g, program, &conds, supported, l, got);
        g.nontrivial = was;
        r
    }
    fn snapshots(&mut self) -> R {
        let keys: Vec<Pubkey> = self.b.accs.iter().map(|a| a.pk).collect();
        let all = finalized(&self.b);
        for p in 0..2 {
            let program = token_program(p);
            let r = self.sim.rpc("getSnapshot", vec![json!(program.to_string())])?;
            let bytes = r.ok().and_then(|v| v.as_str().and_then(|s| base64::engine::general_purpose::STANDARD.decode(s).ok()));
            let Some(bytes) = bytes else {
                return fail("snapshot", format!("getSnapshot of token program {p} gives no snapshot"));
            };
            let fresh = new_store();
            match no_panic(|| fresh.load_from_snapshot(program, bytes)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail("snapshot", format!("the snapshot of the server does not load: {e:?}")),
                Err((m, at)) => return fail("snapshot", format!("loading the snapshot of the server panicked: {m} {at}")),
            }
            let want: BTreeMap<Pubkey, TokView> = all.iter().filter(|(_, v)| v.program == program).map(|(k, v)| (*k, v.clone())).collect();
            check_content(&fresh, &want, &keys, "storage loaded from getSnapshot")?;
        }
        Ok(())
    }
}

/// the accounts of a snapshot, and which of them the program takes
fn content_of(g: &mut G, b: &mut TBuilt, p: &TProfile) -> (Vec<Stored>, Vec<usize>) {
    let mut content = vec![];
    let mut from_snapshot = vec![];
    for a in 0..b.accs.len() {
        if !g.chance(2, 3) {
            continue;
        }
        b.counter += 1;
        let st = b.gen_state(g, a, &TProfile { close_pct: 0, ..*p });
        let pk = b.accs[a].pk;
        let acc = st.account(pk, 0, 0, lite_account_manager_common::account_data::CompressionMethod::None);
        content.push(stored(g, &acc));
        let taken = acc.account.owner == token_program(0);
        g.note(|| format!("snapshot: {} {}{}", tag(&pk), st.brief(), if taken { "" } else { " (of the other token program: not loaded)" }));
        if taken {
            b.store.initilize_or_update_account(acc);
            b.accs[a].fin = Some((st, 0, 0));
            from_snapshot.push(a);
        }
    }
    // accounts of other programs which look like token accounts
    for i in 0..g.size(0, 3) as u64 {
        let mint = b.mints[0].1;
        let st = TokState::Live(TokSpec::token(0, mint, owner_key(i % 3), g));
        let acc = st.account(token_key(30 + i), 0, 0, lite_account_manager_common::account_data::CompressionMethod::None);
        let mut s = stored(g, &acc);
        s.owner = key(70, i);
        content.push(s);
    }
    g.shuffle(&mut content);
    (content, from_snapshot)
}

fn a04_served(g: &mut G) -> R {
    let p = TProfile {
        check: TCheck::None,
        close_pct: 15,
        move_pct: 25,
        fork_pct: 20,
        lo: 2,
        hi: 28,
        sizes: (4, 1, 1),
    };
    let mut b = TBuilt::new(g, Arc::new(new_store()), &p);
    let (content, from_snapshot) = content_of(g, &mut b, &p);
    let bytes = archive(g, content);
    let stream = !g.chance(1, 10);
    let mut r = Run { b, sim: Sim::start(&bytes, stream) };
    // the server answers when the snapshot is loaded
    let n = r.b.accs.len() as u64;
    let a = g.below(n) as usize;
    r.read(g, a, 2)?;
    let mut changed = false;
    let mut settled = false;
    if stream {
        let mut done = 0;
        while g.more(done, p.lo, p.hi) {
            done += 1;
            match r.step(g, &p)? {
                Step::Updated(a) => changed |= from_snapshot.contains(&a),
                Step::Settled(_) => settled = true,
                Step::Other => {}
            }
            for _ in 0..g.size(0, 2) {
                let a = g.below(n) as usize;
                let l = g.below(3) as usize;
                r.read(g, a, l)?;
            }
            if g.chance(1, 3) {
                r.query(g)?;
            }
        }
        if g.bool() {
            let v = r.sim.ask(&json!({"t": "end"}))?;
            ensure!("stream", v["ended"] == json!(true), "the end of the stream was answered by {v}");
        }
    }
    for a in 0..n as usize {
        for l in 0..3 {
            r.read(g, a, l)?;
        }
    }
    for _ in 0..6 {
        r.query(g)?;
    }
    r.snapshots()?;
    g.nontrivial = changed && settled;
    g.class_if(!stream, "without_stream");
    Ok(())
}

/// the stream is ahead of the snapshot: its first messages come before the archive can be read
fn a04_startup(g: &mut G) -> R {
    let p = TProfile { check: TCheck::None, close_pct: 15, move_pct: 25, fork_pct: 20, lo: 1, hi: 14, sizes: (4, 1, 1) };
    let mut b = TBuilt::new(g, Arc::new(new_store()), &p);
    let (content, from_snapshot) = content_of(g, &mut b, &p);
    let bytes = archive(g, content);
    let snapshot: Vec<Option<TokView>> = b.accs.iter().map(|a| a.fin.as_ref().and_then(|(s, _, w)| s.live().map(|s| TokView::want(a.pk, s, *w)))).collect();
    let mut r = Run { b, sim: Sim::start_empty() };
    let n = r.b.accs.len();
    let most = if g.bool() { 2 } else { 1 };
    // accounts the stream finalized before the snapshot was loaded
    let mut ahead = vec![false; n];
    // accounts the stream closed before the program knew them
    let mut closed = vec![false; n];
    let mut changed = false;
    let mut settled = false;
    let mut done = 0;
    let quiet = TProfile { close_pct: 0, ..p };
    let closing = TProfile { close_pct: 100, ..p };
    while g.more(done, p.lo, p.hi) {
        done += 1;
        if g.chance(1, 2) {
            let a = g.below(n as u64) as usize;
            let acc = &r.b.accs[a];
            let known = !acc.pending.is_empty() || ahead[a] && acc.fin.as_ref().map_or(false, |f| f.0.live().is_some());
            if closed[a] {
                continue;
            }
            if known {
                r.update(g, &p, a)?;
            } else if from_snapshot.contains(&a) && !ahead[a] && g.chance(1, 8) {
                r.update(g, &closing, a)?;
                closed[a] = true;
            } else {
                r.update(g, &quiet, a)?;
            }
            changed |= from_snapshot.contains(&a);
            continue;
        }
        let before: Vec<_> = r.b.accs.iter().map(|a| a.fin.clone().map(|f| (f.1, f.2))).collect();
        let s = r.step_slots(g, &p, most)?;
        if let Step::Settled(l) = s {
            settled = true;
            if l == 2 {
                for a in 0..n {
                    ahead[a] |= r.b.accs[a].fin.as_ref().map(|f| (f.1, f.2)) != before[a];
                }
            }
        }
    }
    g.note(|| "the archive can be read".into());
    r.sim.supply(bytes)?;
    g.nontrivial = changed && settled;
    let rest = g.size(0, 8);
    for round in 0..=rest {
        if round > 0 {
            let a = g.below(n as u64) as usize;
            if g.bool() && !closed[a] {
                r.update(g, &p, a)?;
            } else {
                r.step_slots(g, &p, 2)?;
            }
        }
        // what is exact comes first, then what the recorded findings concern
        let odd = |a: &usize| closed[*a] || ahead[*a];
        let order: Vec<usize> = (0..n).filter(|a| !odd(a)).chain((0..n).filter(odd)).collect();
        for a in order {
            let ls: Vec<usize> = if round == rest { vec![0, 1, 2] } else { vec![g.below(3) as usize] };
            for l in ls {
                let Err(mut e) = r.read(g, a, l) else { continue };
                if e.key.starts_with("read_") && odd(&a) {
                    let got = r.answer(g, a, l)?;
                    if got == snapshot[a] && from_snapshot.contains(&a) {
                        e.key = if closed[a] { "closed_before_load" } else { "load_overwrites_stream" }.into();
                    }
                }
                return Err(e);
            }
        }
        if !(0..n).any(|a| odd(&a)) {
            r.query(g)?;
        }
    }
    if !(0..n).any(|a| closed[a] || ahead[a]) {
        r.snapshots()?;
    }
    Ok(())
}

/// an account file of an older slot may still hold an old state of an account
fn a04_duplicates(g: &mut G) -> R {
    let p = TProfile { check: TCheck::None, close_pct: 0, move_pct: 25, fork_pct: 0, lo: 1, hi: 1, sizes: (3, 1, 1) };
    let mut b = TBuilt::new(g, Arc::new(new_store()), &p);
    // in every account file, what it holds of account a
    let n = b.accs.len();
    let mut slots: Vec<u64> = vec![50, 60, 70, 80];
    g.shuffle(&mut slots);
    let mut files: Vec<(u64, Vec<(usize, Option<TokState>)>)> = slots.iter().map(|s| (*s, vec![])).collect();
    for a in 0..n {
        if b.accs[a].kind == 1 && TBuilt::mint_of(&b.accs[a].pk) == 1 {
            continue;
        }
        let copies = g.weighted(&[1, 4, 3]);
        let mut at: Vec<usize> = (0..files.len()).collect();
        g.shuffle(&mut at);
        for f in at.into_iter().take(copies) {
            b.counter += 1;
            let mut st = b.gen_state(g, a, &p);
            let mut tries = 0;
            while st.live().map_or(false, |s| s.program() != 0) && tries < 30 {
                st = b.gen_state(g, a, &p);
                tries += 1;
            }
            if st.live().map_or(false, |s| s.program() != 0) {
                continue;
            }
            let closed = g.chance(1, 6);
            files[f].1.push((a, (!closed).then_some(st)));
        }
    }
    let mut out = vec![];
    for (i, (slot, content)) in files.iter().enumerate() {
        if content.is_empty() {
            continue;
        }
        g.note(|| format!("account file of slot {slot}: {:?}", content.iter().map(|(a, s)| format!("{} {}", tag(&b.accs[*a].pk), s.as_ref().map_or("closed".into(), |s| s.brief()))).collect::<Vec<_>>()));
        let v = content
            .iter()
            .map(|(a, s)| stored(g, &s.clone().unwrap_or(TokState::Closed(0)).account(b.accs[*a].pk, *slot, 0, lite_account_manager_common::account_data::CompressionMethod::None)))
            .collect();
        out.push(AccountFile::of(*slot, i as u64, v));
    }
    let bytes = archive_of(g, out);
    let mut sim = Sim::start(&bytes, false);
    for a in 0..n {
        let pk = b.accs[a].pk;
        // states in the order of the archive
        let all: Vec<(u64, Option<TokView>)> = files
            .iter()
            .flat_map(|(slot, c)| c.iter().filter(|x| x.0 == a).map(|x| (*slot, x.1.as_ref().and_then(|s| s.live()).map(|s| TokView::want(pk, s, 0)))))
            .collect();
        let want = all.iter().max_by_key(|x| x.0).and_then(|x| x.1.clone());
        g.nontrivial |= all.len() > 1;
        let l = g.below(3) as usize;
        let r = sim.rpc("getAccountInfo", vec![json!(pk.to_string()), json!({"encoding": "base64", "commitment": cname(l)})])?;
        let got = match r {
            Ok(v) if v["value"].is_null() => None,
            Ok(v) => Some(view_of(pk, &v["value"])?),
            Err(c) => return fail("read_error", format!("getAccountInfo of {} failed with {c}", tag(&pk))),
        };
        if got != want {
            // the recorded finding is exactly: the live state that comes last in the archive is served
            let last_live = all.iter().rev().find_map(|x| x.1.clone());
            let key = if got == last_live { "stale_copy" } else { "duplicates" };
            return fail(key, format!("{} is answered as {}, the newest state in the snapshot is {}", tag(&pk), brief_opt(&got), brief_opt(&want)));
        }
    }
    Ok(())
}
