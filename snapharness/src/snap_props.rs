//! A01, A02: account files and snapshot archives
use crate::snapgen::*;
use pbt::{ensure, fail, no_panic, Prop, Sub, G, R};
use simlib::snapshot_utils::append_vec::AppendVec;
use simlib::snapshot_utils::archived::ArchiveSnapshotExtractor;
use simlib::snapshot_utils::parallel::{par_iter_append_vecs, AppendVecConsumer};
use simlib::snapshot_utils::unpacked::UnpackedSnapshotExtractor;
use simlib::snapshot_utils::{
    append_vec_iter, AppendVecIterator, ReadProgressTracking, SnapshotError, SnapshotExtractor, SnapshotResult,
};
use solana_sdk::account::ReadableAccount;
use std::io::{Cursor, Read};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            subs: vec![
                Sub::new("accounts", 60000, 600000, a01_accounts),
                Sub::new("bytes", 160000, 1600000, a01_bytes),
                Sub::new("short", 60000, 600000, a01_short),
            ],
            rule: "(accounts) lists of accounts with any fields and data lengths written by an independent writer, read from a file and from readers that deliver any portions, every field compared; (bytes) mutated and arbitrary bytes with any recorded length, compared with an independent parser; (short) readers and files with fewer bytes than recorded, failing readers, missing files; non-trivial = at least two accounts (accounts) / an account before the damage (bytes) / some but not all bytes delivered (short)",
            assumptions: &[
                "StoredMeta, AccountMeta and the constants are stand-ins with the layout of solana-accounts-db 1.18",
                "a recorded length of zero and the value of the executable flag of a byte other than 0 and 1 are not checked",
            ],
        },
        Prop {
            id: "A02",
            subs: vec![
                Sub::new("archive", 20000, 200000, a02_archive),
                Sub::new("truncated", 24000, 240000, a02_truncated),
                Sub::new("damaged", 24000, 240000, a02_damaged),
                Sub::new("unpacked", 9000, 90000, a02_unpacked),
                Sub::new("parallel", 12000, 120000, a02_parallel),
            ],
            rule: "snapshots with generated manifests, account files and other entries in any order, written by an independent writer as .tar.zst (any portions, levels) or directories; unlisted files, missing manifests, account files before the manifest, files shorter than listed; archives cut at any byte; single bytes changed; parallel consumers that fail or take their time; non-trivial = at least two account files were delivered",
            assumptions: &[
                "the types of solana-runtime and solana-accounts-db in the manifest are stand-ins with the serialization of version 1.18",
                "account files of the manifest that a complete archive does not contain at all are not reported by the extractor and not checked",
            ],
        },
    ]
}

/// delivers portions of generated sizes, is interrupted at times, and may fail at the end
struct Portions {
    inner: Cursor<Vec<u8>>,
    sizes: Vec<usize>,
    i: usize,
    fail_at_end: bool,
    interrupt: bool,
}
impl Portions {
    /// (interruptions are left out for archives: zstd and tar hand them on)
    fn new(g: &mut G, bytes: Vec<u8>, fail_at_end: bool, interrupt: bool) -> Portions {
        let n = g.size(0, 5);
        let sizes = (0..n)
            .map(|_| match g.below(3) {
                0 => 0,
                1 => g.size(1, 40),
                _ => g.size(40, 3000),
            })
            .collect();
        Portions { inner: Cursor::new(bytes), sizes, i: 0, fail_at_end, interrupt }
    }
}
impl Read for Portions {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.sizes.is_empty() {
            buf.len()
        } else {
            let n = self.sizes[self.i % self.sizes.len()];
            self.i += 1;
            if n == 0 && self.interrupt && self.i % 7 != 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            n.max(1).min(buf.len())
        };
        let got = self.inner.read(&mut buf[..n])?;
        if got == 0 && n > 0 && self.fail_at_end {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire"));
        }
        Ok(got)
    }
}

fn read_vec(v: &AppendVec) -> Result<Vec<(usize, Stored)>, pbt::Fail> {
    let r = no_panic(|| {
        let mut out = vec![];
        for h in append_vec_iter(v) {
            let Some(s) = h.access() else {
                return Err("an account was iterated that cannot be accessed".to_string());
            };
            let c = s.clone_account();
            // an invalid flag must not be looked at
            let flag = unsafe { *(&s.account_meta.executable as *const bool as *const u8) };
            let st = Stored {
                write_version: s.meta.write_version_obsolete,
                pubkey: s.meta.pubkey,
                lamports: s.account_meta.lamports,
                rent_epoch: s.account_meta.rent_epoch,
                owner: s.account_meta.owner,
                executable: flag == 1,
                hash: s.hash.to_bytes(),
                data: s.data.to_vec(),
            };
            if s.meta.data_len as usize != s.data.len() {
                return Err(format!("data length {} recorded, {} delivered", s.meta.data_len, s.data.len()));
            }
            // what the account takes in the file: the fixed part and the data, up to the next 8-byte boundary
            if s.stored_size != (136 + s.data.len() + 7) / 8 * 8 {
                return Err(format!("an account with {} bytes of data is said to take {} bytes", s.data.len(), s.stored_size));
            }
            if (c.lamports(), c.owner(), c.rent_epoch(), c.data()) != (st.lamports, &st.owner, st.rent_epoch, &st.data[..])
                || (flag < 2 && c.executable() != st.executable)
            {
                return Err(format!("the cloned account differs from {}", st.brief()));
            }
            out.push((s.offset, st));
        }
        Ok(out)
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(m)) => fail("accounts", m),
        Err((msg, at)) => fail("panic", format!("iterating an account file panicked at {at}: {msg}")),
    }
}

fn open_reader(r: &mut impl Read, len: usize, slot: u64) -> Result<std::io::Result<AppendVec>, pbt::Fail> {
    match no_panic(|| AppendVec::new_from_reader(r, len, slot)) {
        Ok(r) => Ok(r),
        Err((msg, at)) => fail("panic", format!("opening an account file panicked at {at}: {msg}")),
    }
}
fn open_file(p: &Path, len: usize, slot: u64) -> Result<std::io::Result<AppendVec>, pbt::Fail> {
    match no_panic(|| AppendVec::new_from_file(p, len, slot)) {
        Ok(r) => Ok(r),
        Err((msg, at)) => fail("panic", format!("opening an account file panicked at {at}: {msg}")),
    }
}

fn same(got: &[(usize, Stored)], want: &[Stored], what: &str) -> R {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return fail("accounts", format!("{what}: account {i} {} is missing, {} accounts delivered", w.brief(), got.len())),
            Some((_, s)) if s != w => return fail("accounts", format!("{what}: account {i} is {:?}, stored was {:?}", s, w)),
            _ => {}
        }
    }
    ensure!("accounts", got.len() == want.len(), "{what}: {} accounts delivered, {} stored", got.len(), want.len());
    Ok(())
}

fn a01_accounts(g: &mut G) -> R {
    let n = g.size(1, 8);
    let accs: Vec<Stored> = (0..n).map(|_| gen_stored(g)).collect();
    g.note(|| format!("{} accounts: {:?}", accs.len(), accs.iter().map(|a| a.brief()).collect::<Vec<_>>()));
    let mut bytes = write_all(&accs);
    // the recorded length may end with the last account or with its padding
    if g.bool() {
        while bytes.len() % 8 != 0 {
            bytes.push(0);
        }
    }
    let len = bytes.len();
    // what follows the recorded length belongs to nobody
    match g.below(3) {
        0 => {}
        1 => bytes.extend(std::iter::repeat(0).take(g.size(1, 300))),
        _ => {
            let later = gen_stored(g);
            later.write(&mut bytes);
        }
    }
    let slot = g.edgy_u64();
    g.nontrivial = n >= 2;
    let file = g.chance(1, 4);
    let v = if file {
        let dir = Scratch::new();
        let p = dir.0.join("1.0");
        std::fs::write(&p, &bytes).unwrap();
        let v = open_file(&p, len, slot)?;
        let cap = bytes.len();
        match v {
            Ok(v) => {
                ensure!("capacity", v.capacity() == cap as u64, "capacity {} of a file of {cap} bytes", v.capacity());
                ensure!("capacity", v.remaining_bytes() == (cap - len) as u64, "{} bytes remain in a file of {cap} with {len} used", v.remaining_bytes());
                v
            }
            Err(e) => return fail("refused", format!("a file of {cap} bytes with {len} recorded was refused: {e}")),
        }
    } else {
        let rest_at = bytes.clone();
        let mut r = Portions::new(g, bytes, false, true);
        match open_reader(&mut r, len, slot)? {
            Ok(v) => {
                // the rest of the stream stays in the stream
                let mut rest = vec![];
                loop {
                    match r.inner.read_to_end(&mut rest) {
                        Ok(_) => break,
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                        Err(e) => return fail("harness", format!("{e}")),
                    }
                }
                ensure!("overread", rest == rest_at[len..], "{} bytes remain in the reader, {} expected", rest.len(), rest_at.len() - len);
                v
            }
            Err(e) => return fail("refused", format!("a reader with {len} bytes recorded was refused: {e}")),
        }
    };
    g.class(if file { "file" } else { "reader" });
    ensure!("slot", v.slot() == slot, "slot {} instead of {slot}", v.slot());
    ensure!("len", v.len() == len && !v.is_empty(), "length {} instead of {len}", v.len());
    let got = read_vec(&v)?;
    same(&got, &accs, if file { "file" } else { "reader" })?;
    // positions
    let want: Vec<usize> = parse(&write_all(&accs)).into_iter().map(|x| x.0).collect();
    let at: Vec<usize> = got.iter().map(|x| x.0).collect();
    ensure!("offset", at == want, "accounts at {at:?}, written at {want:?}");
    for (o, s) in &got {
        match v.get_account(*o) {
            Some((m, _)) => ensure!("offset", m.meta.pubkey == s.pubkey && m.data == &s.data[..], "account at {o} differs when accessed again"),
            None => return fail("offset", format!("account at {o} cannot be accessed again")),
        }
    }
    Ok(())
}

fn a01_bytes(g: &mut G) -> R {
    let n = g.size(0, 4);
    let accs: Vec<Stored> = (0..n).map(|_| gen_stored(g)).collect();
    let mut bytes = write_all(&accs);
    let extra = g.size(0, 200);
    let mut tail = g.blob(extra);
    bytes.append(&mut tail);
    if bytes.is_empty() {
        return Ok(());
    }
    // data lengths and other bytes changed
    for _ in 0..g.size(0, 3) {
        match g.below(3) {
            0 => {
                let i = g.below(bytes.len() as u64) as usize;
                bytes[i] = g.u8();
            }
            1 => {
                let heads: Vec<usize> = parse(&bytes).into_iter().map(|x| x.0).collect();
                if !heads.is_empty() {
                    let at = *g.pick(&heads);
                    let cur = bytes.len() as u64;
                    let v = match g.below(4) {
                        0 => g.edgy_u64(),
                        1 => cur - at as u64,
                        2 => (cur - at as u64).saturating_sub(HEADER as u64) + g.below(3),
                        _ => u64::MAX - (at as u64 + HEADER as u64) + g.below(9),
                    };
                    bytes[at + 8..at + 16].copy_from_slice(&v.to_le_bytes());
                    g.note(|| format!("data length of the account at {at} set to {v}"));
                }
            }
            _ => {
                let n = g.size(1, bytes.len());
                bytes.truncate(n);
            }
        }
    }
    let len = match g.below(3) {
        0 => bytes.len(),
        _ => g.size(1, bytes.len()),
    };
    let want: Vec<(usize, Stored, u8)> = parse(&bytes[..len]);
    g.note(|| format!("{} bytes, {len} recorded, {} accounts fit", bytes.len(), want.len()));
    g.nontrivial = !want.is_empty();
    let file = g.chance(1, 8);
    let v = if file {
        let dir = Scratch::new();
        let p = dir.0.join("1.0");
        std::fs::write(&p, &bytes).unwrap();
        open_file(&p, len, 1)?
    } else {
        open_reader(&mut Portions::new(g, bytes, false, true), len, 1)?
    };
    let v = match v {
        Ok(v) => v,
        Err(e) => return fail("refused", format!("{len} recorded bytes were refused: {e}")),
    };
    let got = read_vec(&v)?;
    ensure!(
        "parsed",
        got.iter().map(|x| (x.0, x.1.clone())).eq(want.iter().map(|x| (x.0, x.1.clone()))),
        "{} accounts at {:?} delivered, {} at {:?} are stored",
        got.len(),
        got.iter().map(|x| x.0).collect::<Vec<_>>(),
        want.len(),
        want.iter().map(|x| x.0).collect::<Vec<_>>()
    );
    // any position may be asked for
    let o = match g.below(3) {
        0 => g.below(len as u64 + 300),
        1 => g.edgy_u64() & !7,
        _ => len as u64 / 8 * 8,
    } as usize;
    if o % 8 == 0 && o < usize::MAX / 2 {
        let r = no_panic(|| v.get_account(o).is_some());
        match r {
            Ok(x) => ensure!(
                "position",
                !x || o + HEADER <= len,
                "an account was found at {o} of {len} recorded bytes"
            ),
            Err((msg, at)) => return fail("panic", format!("get_account({o}) of {len} recorded bytes panicked at {at}: {msg}")),
        }
    }
    Ok(())
}

fn a01_short(g: &mut G) -> R {
    let n = g.size(1, 4);
    let accs: Vec<Stored> = (0..n).map(|_| gen_stored(g)).collect();
    let mut bytes = write_all(&accs);
    let len = bytes.len() + if g.chance(1, 4) { g.size(1, 5000) } else { 0 };
    match g.weighted(&[4, 2, 1, 1]) {
        0 => {
            let cut = g.size(0, bytes.len().min(len - 1));
            bytes.truncate(cut);
            let broken = g.bool();
            g.note(|| format!("reader with {cut} of {len} recorded bytes{}", if broken { ", then an error" } else { "" }));
            g.nontrivial = cut > 0;
            let r = open_reader(&mut Portions::new(g, bytes, broken, true), len, 1)?;
            ensure!("short_accepted", r.is_err(), "a reader with {cut} of {len} recorded bytes was accepted");
        }
        1 => {
            let cut = g.size(1, bytes.len().min(len - 1));
            bytes.truncate(cut);
            g.note(|| format!("file with {cut} of {len} recorded bytes"));
            g.nontrivial = true;
            let dir = Scratch::new();
            let p = dir.0.join("1.0");
            std::fs::write(&p, &bytes).unwrap();
            let r = open_file(&p, len, 1)?;
            ensure!("short_accepted", r.is_err(), "a file with {cut} of {len} recorded bytes was accepted");
        }
        2 => {
            let dir = Scratch::new();
            let p = dir.0.join("1.0");
            std::fs::write(&p, []).unwrap();
            let r = open_file(&p, g.size(0, 1), 1)?;
            ensure!("short_accepted", r.is_err(), "an empty file was accepted");
        }
        _ => {
            let dir = Scratch::new();
            let r = open_file(&dir.0.join("1.0"), len, 1)?;
            ensure!("short_accepted", r.is_err(), "a missing file was accepted");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ A02

#[derive(Debug, PartialEq)]
enum Item {
    Vec { slot: u64, len: usize, accounts: Vec<Stored> },
    Unlisted,
    Err(String),
}

fn item(r: SnapshotResult<AppendVec>) -> Result<Item, pbt::Fail> {
    Ok(match r {
        Ok(v) => Item::Vec {
            slot: v.slot(),
            len: v.len(),
            accounts: read_vec(&v)?.into_iter().map(|x| x.1).collect(),
        },
        Err(SnapshotError::UnexpectedAppendVec) => Item::Unlisted,
        Err(e) => Item::Err(e.to_string()),
    })
}

fn drain(it: AppendVecIterator<'_>, limit: usize) -> Result<Vec<Item>, pbt::Fail> {
    let mut it = it;
    let mut v = vec![];
    loop {
        match no_panic(|| it.next()) {
            Ok(Some(x)) => v.push(item(x)?),
            Ok(None) => return Ok(v),
            Err((msg, at)) => return fail("panic", format!("the iteration of a snapshot panicked at {at}: {msg}")),
        }
        if v.len() > limit {
            return fail("endless", format!("more than {limit} items for a snapshot with fewer files"));
        }
    }
}

fn open(bytes: impl Read + Unpin + 'static) -> Result<SnapshotResult<ArchiveSnapshotExtractor<impl Read + Unpin + 'static>>, pbt::Fail> {
    match no_panic(move || ArchiveSnapshotExtractor::from_reader(bytes)) {
        Ok(r) => Ok(r),
        Err((msg, at)) => fail("panic", format!("opening an archive panicked at {at}: {msg}")),
    }
}

fn brief_items(v: &[Item]) -> Vec<String> {
    v.iter()
        .map(|i| match i {
            Item::Vec { slot, len, accounts } => format!("slot {slot} len {len} {} accounts", accounts.len()),
            Item::Unlisted => "unlisted".into(),
            Item::Err(e) => format!("error {e}"),
        })
        .collect()
}

struct Layout {
    tar: Vec<u8>,
    want: Vec<Item>,
    /// files of the manifest that are not in the archive
    missing: usize,
    early: bool,
    has_manifest: bool,
}

/// an archive with the files in order; `odd` adds unlisted and short files and leaves out files and other things
fn layout(g: &mut G, odd: bool) -> Layout {
    let slot = 1000 + g.below(1 << 30);
    let files = gen_files(g, slot, 5);
    let mut listed = files.clone();
    let mut want = vec![];
    let mut shipped: Vec<(AccountFile, u8)> = files.iter().map(|f| (f.clone(), 0)).collect();
    if odd {
        shipped.retain(|_| !g.chance(1, 8));
        for s in shipped.iter_mut() {
            match g.weighted(&[4, 1, 1]) {
                0 => {}
                1 => {
                    // not in the manifest
                    listed.retain(|f| f.name() != s.0.name());
                    s.1 = 1;
                }
                _ => {
                    // shorter than in the manifest
                    let n = g.size(0, s.0.len - 1);
                    s.0.bytes.truncate(n);
                    s.1 = 2;
                }
            }
        }
    }
    let missing = files.len() - shipped.len();
    g.shuffle(&mut shipped);
    let has_manifest = !(odd && g.chance(1, 10));
    let early = odd && !shipped.is_empty() && g.chance(1, 10);
    let rich = g.bool() && !odd;
    let man = manifest(g, slot, &listed, rich);
    let mut b = tar::Builder::new(vec![]);
    let dirs = g.bool();
    let other = g.bool();
    if other {
        add_entry(&mut b, "version", b"1.2.0");
    }
    if dirs {
        add_dir(&mut b, "snapshots/");
        add_dir(&mut b, &format!("snapshots/{slot}/"));
    }
    if g.bool() {
        let n = g.size(0, 900);
        let blob = g.blob(n);
        add_entry(&mut b, "snapshots/status_cache", &blob);
    }
    let name = |f: &AccountFile| format!("accounts/{}", f.name());
    if early {
        add_entry(&mut b, &name(&shipped[0].0), &shipped[0].0.bytes);
    }
    if has_manifest {
        add_entry(&mut b, &format!("snapshots/{slot}/{slot}"), &man);
    } else if g.bool() {
        // nearly a manifest
        let p = match g.below(4) {
            0 => format!("snapshots/{slot}/{}", slot + 1),
            1 => format!("snapshot/{slot}/{slot}"),
            2 => format!("snapshots/{slot}/{slot}/{slot}"),
            _ => "snapshots/x/x".to_string(),
        };
        add_entry(&mut b, &p, &man);
    }
    if g.bool() {
        let n = g.size(0, 900);
        let blob = g.blob(n);
        add_entry(&mut b, &format!("snapshots/{slot}/state_complete"), &blob);
    }
    if dirs {
        add_dir(&mut b, "accounts/");
    }
    for (f, kind) in shipped.iter().skip(usize::from(early)) {
        add_entry(&mut b, &name(f), &f.bytes);
        if other && g.chance(1, 4) {
            let n = f.name();
            let p = match g.below(10) {
                // nearly the name of an account file
                0 => format!("accounts/{n}.1"),
                1 => format!("accounts/{n}.tmp"),
                2 => format!("accounts/{n}."),
                3 => format!("accounts/x{n}"),
                _ => g.pick(&["accounts/readme", "accounts/12", "accounts/12.", "accounts/.5", "accounts/a.5", "accounts/5.b"]).to_string(),
            };
            add_entry(&mut b, &p, b"something else");
        }
        want.push(match kind {
            0 => Item::Vec { slot: f.slot, len: f.len, accounts: f.accounts.clone() },
            1 => Item::Unlisted,
            _ => Item::Err(String::new()),
        });
    }
    if other {
        add_entry(&mut b, "trailer", b"1");
    }
    g.note(|| {
        format!(
            "snapshot of slot {slot}{}{}, {missing} files missing, files {:?}",
            if has_manifest { "" } else { " without manifest" },
            if early { ", the first account file precedes the manifest" } else { "" },
            shipped
                .iter()
                .map(|(f, k)| format!("{} {} of {} bytes{}", f.name(), f.bytes.len(), f.len, ["", " unlisted", " short"][*k as usize]))
                .collect::<Vec<_>>()
        )
    });
    g.nontrivial = want.iter().filter(|i| matches!(i, Item::Vec { .. })).count() >= 2;
    g.class_if(missing > 0, "missing");
    Layout { tar: b.into_inner().unwrap(), want, missing, early, has_manifest }
}

/// the files in order, and errors after them if files of the manifest are missing
fn matches_want(got: &[Item], want: &[Item], missing: usize) -> R {
    let errors = got.iter().skip(want.len()).filter(|i| matches!(i, Item::Err(_))).count();
    ensure!(
        "silently_missing",
        missing == 0 || got.len() < want.len() || errors > 0,
        "extracted {:?} without error, {missing} files of the manifest are missing",
        brief_items(got)
    );
    let eq = got.len() >= want.len()
        && got.len() - want.len() == errors
        && (missing > 0 || errors == 0)
        && got.iter().zip(want).all(|(a, b)| match (a, b) {
            (Item::Err(_), Item::Err(_)) => true,
            _ => a == b,
        });
    ensure!("extracted", eq, "extracted {:?}, the snapshot holds {:?}", brief_items(got), brief_items(want));
    Ok(())
}

fn a02_archive(g: &mut G) -> R {
    let odd = g.bool();
    let l = layout(g, odd);
    let level = g.size(1, 5) as i32;
    let bytes = compress(&l.tar, level);
    let src = Portions::new(g, bytes.clone(), false, false);
    let by_path = g.chance(1, 10);
    let check = |r: SnapshotResult<()>, want_err: bool| -> R {
        match (r, want_err) {
            (Ok(()), false) => Ok(()),
            (Err(SnapshotError::UnexpectedAppendVec), true) if l.early => Ok(()),
            (Err(SnapshotError::NoSnapshotManifest), true) if !l.early => Ok(()),
            // no manifest was found before the account files
            (Err(SnapshotError::UnexpectedAppendVec), true) if !l.has_manifest && !l.want.is_empty() => Ok(()),
            (Err(e), true) => fail("open_error", format!("an archive that cannot be read was refused with {e:?}")),
            (Err(e), false) => fail("open_error", format!("a good archive was refused: {e:?}")),
            (Ok(()), true) => fail("open_error", "an archive without manifest before its account files was accepted".into()),
        }
    };
    let bad = !l.has_manifest || l.early;
    let got;
    if by_path {
        let dir = Scratch::new();
        let p = dir.0.join("snapshot.tar.zst");
        std::fs::write(&p, &bytes).unwrap();
        match no_panic(|| ArchiveSnapshotExtractor::open(&p)) {
            Ok(Ok(mut x)) => {
                check(Ok(()), bad)?;
                got = drain(x.iter(), 100)?;
            }
            Ok(Err(e)) => return check(Err(e), bad),
            Err((m, at)) => return fail("panic", format!("opening an archive panicked at {at}: {m}")),
        }
    } else {
        match open(src)? {
            Ok(mut x) => {
                check(Ok(()), bad)?;
                got = drain(x.iter(), 100)?;
            }
            Err(e) => return check(Err(e), bad),
        }
    }
    matches_want(&got, &l.want, l.missing)
}

fn a02_truncated(g: &mut G) -> R {
    let l = layout(g, false);
    let level = g.size(1, 5) as i32;
    // either the compressed file is cut, or what was compressed, also between two entries
    let in_tar = g.chance(1, 3);
    let mut bytes = if in_tar { l.tar.clone() } else { compress(&l.tar, level) };
    let cut = match g.below(3) {
        0 if !in_tar => bytes.len() - g.size(1, 20.min(bytes.len() - 1)),
        0 | 1 if in_tar => g.size(0, bytes.len() / 512 - 1) * 512,
        _ => g.size(0, bytes.len() - 1),
    };
    let whole = bytes.len();
    bytes.truncate(cut);
    if in_tar {
        bytes = compress(&bytes, level);
    }
    let broken = g.chance(1, 4) && !in_tar;
    g.note(|| {
        format!(
            "cut at {cut} of {whole} bytes{}{}",
            if in_tar { " before it was compressed" } else { "" },
            if broken { ", then an error" } else { "" }
        )
    });
    g.class_if(in_tar, "cut before compression");
    let src = Portions::new(g, bytes, broken, false);
    g.nontrivial = false;
    match open(src)? {
        Err(_) => Ok(()),
        Ok(mut x) => {
            let got = drain(x.iter(), 100)?;
            let n = got.iter().take_while(|i| matches!(i, Item::Vec { .. })).count();
            ensure!(
                "silently_missing",
                got.len() > n || n == l.want.len(),
                "an archive cut at {cut} of {whole} bytes gave {n} of {} account files and no error",
                l.want.len()
            );
            g.nontrivial = n >= 1;
            for (a, b) in got[..n].iter().zip(&l.want) {
                ensure!("extracted", a == b, "extracted {:?}, the snapshot holds {:?}", brief_items(&got), brief_items(&l.want));
            }
            ensure!("extracted", n <= l.want.len(), "extracted {:?}, the snapshot holds {:?}", brief_items(&got), brief_items(&l.want));
            Ok(())
        }
    }
}

fn a02_damaged(g: &mut G) -> R {
    // any result is fine, but no panic, no endless iteration, and what is not touched stays right
    let l = layout(g, false);
    let mut tar = l.tar.clone();
    let in_tar = g.bool();
    if in_tar {
        for _ in 0..g.size(1, 3) {
            let i = g.below(tar.len() as u64) as usize;
            tar[i] = if g.bool() { tar[i] ^ (1 << g.below(8)) } else { g.u8() };
        }
    }
    let mut bytes = compress(&tar, 1);
    if !in_tar {
        for _ in 0..g.size(1, 3) {
            let i = g.below(bytes.len() as u64) as usize;
            bytes[i] = if g.bool() { bytes[i] ^ (1 << g.below(8)) } else { g.u8() };
        }
    }
    g.note(|| format!("damaged {}", if in_tar { "before compression" } else { "after compression" }));
    g.nontrivial = false;
    if let Ok(mut x) = open(Cursor::new(bytes))? {
        let got = drain(x.iter(), 1000)?;
        g.nontrivial = !got.is_empty();
    }
    Ok(())
}

struct Progress(Arc<AtomicUsize>);
impl ReadProgressTracking for Progress {
    fn new_read_progress_tracker(&self, _path: &Path, rd: Box<dyn Read>, _len: u64) -> SnapshotResult<Box<dyn Read>> {
        self.0.fetch_add(1, Ordering::Relaxed);
        Ok(rd)
    }
}

fn a02_unpacked(g: &mut G) -> R {
    let slot = 1000 + g.below(1 << 30);
    let files = gen_files(g, slot, 5);
    let mut listed = files.clone();
    let mut want: Vec<Item> = vec![];
    let dir = Scratch::new();
    let root = dir.0.join("unpacked");
    let odd = g.bool();
    let status = !(odd && g.chance(1, 8));
    let has_manifest = !(odd && g.chance(1, 8));
    let has_accounts = !(odd && g.chance(1, 8));
    let mut missing = 0;
    let io = |r: std::io::Result<()>| r.unwrap();
    io(std::fs::create_dir_all(root.join("snapshots")));
    if has_accounts {
        io(std::fs::create_dir_all(root.join("accounts")));
        for f in &files {
            if odd && g.chance(1, 8) {
                missing += 1;
                continue;
            }
            let mut bytes = f.bytes.clone();
            let kind = if odd { g.weighted(&[4, 1, 1]) } else { 0 };
            if kind == 1 {
                listed.retain(|x| x.name() != f.name());
            }
            if kind == 2 {
                let n = g.size(0, f.len - 1);
                bytes.truncate(n);
            }
            io(std::fs::write(root.join("accounts").join(f.name()), &bytes));
            want.push(match kind {
                0 => Item::Vec { slot: f.slot, len: f.len, accounts: f.accounts.clone() },
                1 => Item::Unlisted,
                _ => Item::Err(String::new()),
            });
        }
        if g.bool() {
            io(std::fs::write(root.join("accounts").join(*g.pick(&["readme", "12", "12.", "a.5", "12.5.1", "12.5.tmp"])), b"x"));
        }
    }
    if status {
        io(std::fs::write(root.join("snapshots/status_cache"), b"x"));
    }
    if g.bool() {
        io(std::fs::write(root.join("version"), b"1.2.0"));
    }
    let rich = g.bool();
    let man = manifest(g, slot, &listed, rich);
    if has_manifest {
        io(std::fs::create_dir_all(root.join(format!("snapshots/{slot}"))));
        io(std::fs::write(root.join(format!("snapshots/{slot}/{slot}")), &man));
    }
    g.note(|| {
        format!(
            "unpacked snapshot of slot {slot}: status cache {status}, manifest {has_manifest}, accounts {has_accounts}, {missing} files missing, {:?}",
            brief_items(&want)
        )
    });
    g.nontrivial = want.len() >= 2;
    let count = Arc::new(AtomicUsize::new(0));
    let opened = no_panic(|| UnpackedSnapshotExtractor::open(&root, Box::new(Progress(count.clone()))));
    let mut x = match opened {
        Err((m, at)) => return fail("panic", format!("opening a directory panicked at {at}: {m}")),
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            return match e {
                SnapshotError::NoStatusCache if !status => Ok(()),
                SnapshotError::NoSnapshotManifest if status && !has_manifest => Ok(()),
                e => fail("open_error", format!("refused with {e:?}")),
            }
        }
    };
    ensure!("open_error", status && has_manifest, "a directory without status cache or manifest was accepted");
    ensure!("progress", count.load(Ordering::Relaxed) == 1, "the progress tracker was used {} times", count.load(Ordering::Relaxed));
    for round in 0..2 {
        let mut got = drain(x.iter(), 100)?;
        if !has_accounts {
            ensure!(
                "extracted",
                got.len() == 1 && matches!(got[0], Item::Err(_)),
                "extracted {:?} without accounts directory",
                brief_items(&got)
            );
            continue;
        }
        // directories have no order
        let key = |i: &Item| match i {
            Item::Vec { slot, len, accounts } => (0, *slot, *len, format!("{accounts:?}")),
            Item::Unlisted => (1, 0, 0, String::new()),
            Item::Err(_) => (2, 0, 0, String::new()),
        };
        got.sort_by_key(key);
        want.sort_by_key(key);
        matches_want(&got, &want, missing).map_err(|mut f| {
            f.msg = format!("round {round}: {}", f.msg);
            f
        })?;
    }
    Ok(())
}

#[derive(Default)]
struct Seen {
    vecs: Vec<(u64, usize, Vec<Stored>)>,
    consumers: usize,
    running: usize,
    most: usize,
    bad: Option<String>,
}

struct Consumer {
    seen: Arc<Mutex<Seen>>,
    naps: Arc<Vec<u64>>,
    fail_at: Option<usize>,
}

#[async_trait::async_trait]
impl AppendVecConsumer for Consumer {
    async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> {
        let n = {
            let mut s = self.seen.lock().unwrap();
            s.running += 1;
            s.most = s.most.max(s.running);
            match read_vec(&v) {
                Ok(a) => s.vecs.push((v.slot(), v.len(), a.into_iter().map(|x| x.1).collect())),
                Err(f) => s.bad = Some(f.msg),
            }
            s.vecs.len()
        };
        for _ in 0..self.naps.get(n % self.naps.len().max(1)).copied().unwrap_or(0) {
            tokio::task::yield_now().await;
        }
        self.seen.lock().unwrap().running -= 1;
        if self.fail_at == Some(n) {
            anyhow::bail!("consumer failed");
        }
        Ok(())
    }
}

fn a02_parallel(g: &mut G) -> R {
    let slot = 1000;
    let files = gen_files(g, slot, 12);
    let threads = g.size(1, 5);
    let naps: Arc<Vec<u64>> = Arc::new((0..g.size(0, 5)).map(|_| g.below(6)).collect());
    let fail_at = if !files.is_empty() && g.chance(1, 4) { Some(g.size(1, files.len())) } else { None };
    let err_at = if g.chance(1, 4) { Some(g.size(0, files.len())) } else { None };
    let workers = g.size(1, 3);
    g.note(|| {
        format!(
            "{} account files, {threads} at a time, consumer fails at {fail_at:?}, the iterator gives an error at {err_at:?}",
            files.len()
        )
    });
    g.nontrivial = files.len() >= 2 && threads >= 2;
    g.class_if(fail_at.is_some() || err_at.is_some(), "failing");
    let seen = Arc::new(Mutex::new(Seen::default()));
    let mut items: Vec<SnapshotResult<AppendVec>> = vec![];
    for (i, f) in files.iter().enumerate() {
        if err_at == Some(i) {
            items.push(Err(SnapshotError::UnexpectedAppendVec));
        }
        items.push(AppendVec::new_from_reader(&mut &f.bytes[..], f.len, f.slot).map_err(|e| e.into()));
    }
    if err_at == Some(files.len()) {
        items.push(Err(SnapshotError::NoStatusCache));
    }
    let make = {
        let (seen, naps) = (seen.clone(), naps.clone());
        move || {
            seen.lock().unwrap().consumers += 1;
            Consumer { seen: seen.clone(), naps: naps.clone(), fail_at }
        }
    };
    let rt = if workers == 1 {
        tokio::runtime::Builder::new_current_thread().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(workers).build().unwrap()
    };
    let r = no_panic(|| rt.block_on(par_iter_append_vecs(Box::new(items.into_iter()), make, threads)));
    let r = match r {
        Ok(r) => r,
        Err((m, at)) => return fail("panic", format!("par_iter_append_vecs panicked at {at}: {m}")),
    };
    drop(rt);
    let s = seen.lock().unwrap();
    if let Some(m) = &s.bad {
        return fail("accounts", m.clone());
    }
    ensure!("too_many", s.consumers <= threads, "{} consumers were made for {threads} threads", s.consumers);
    ensure!("too_many", s.most <= threads, "{} account files were consumed at a time with {threads} threads", s.most);
    if fail_at.is_some() || err_at.is_some() {
        ensure!("error_lost", r.is_err(), "an error of a consumer or of the snapshot was lost");
        return Ok(());
    }
    if let Err(e) = r {
        return fail("error", format!("failed without reason: {e}"));
    }
    let mut got: Vec<_> = s.vecs.clone();
    let mut want: Vec<_> = files.iter().map(|f| (f.slot, f.len, f.accounts.clone())).collect();
    let key = |x: &(u64, usize, Vec<Stored>)| (x.0, x.1, format!("{:?}", x.2));
    got.sort_by_key(key);
    want.sort_by_key(key);
    ensure!(
        "delivered",
        got == want,
        "delivered {:?}, the snapshot holds {:?}",
        got.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(),
        want.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()
    );
    Ok(())
}
