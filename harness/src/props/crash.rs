//! C14 and C15: crashes and device errors.
use super::files::{as_device_log, load, record, small_image, Scratch, RECORDS};
use super::rw::{check_array, fresh};
use crate::codec::{check_wellformed, crc32, last_lba, read_copy, Guid};
use crate::ctx::{lib, Ctx, Stop, Tier, R};
use crate::dev::{Call, Dev, Ev, Fault, Image, Plan};
use crate::world::*;
use crate::{ensure, viol};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::rc::Rc;
use uuid::Uuid;

type Table = (Guid, BTreeMap<u32, P>);

/// The table recorded by the copy whose header is in block `lba`, if intact.
fn recorded(img: &Image, lb: u64, lba: u64) -> Option<Table> {
    let c = read_copy(img, lb, lba).ok()?;
    Some((c.h.guid, c.entries().into_iter().map(|(k, e)| (k, entry_p(&e))).collect()))
}

fn of(s: &Snap) -> Table {
    (s.guid, no_os(&s.parts))
}

fn describe(t: &Table) -> String {
    format!("{} partitions, GUID {:02x?}", t.1.len(), &t.0[..4])
}

// ---------------------------------------------------------------------- C14

/// What may be on the medium if power is lost after event `k`.
fn crash_state(c: &mut Ctx, base: &Image, evs: &[Ev], k: usize, how: u64) -> Image {
    let durable = evs[..k].iter().rposition(|e| matches!(e, Ev::Flush)).map_or(0, |p| p + 1);
    let mut img = base.clone();
    for e in &evs[..durable] {
        if let Ev::Write { off, data } = e {
            img.put(*off, data);
        }
    }
    let mut pending: Vec<(u64, Rc<Vec<u8>>)> = evs[durable..k]
        .iter()
        .filter_map(|e| match e {
            Ev::Write { off, data } => Some((*off, data.clone())),
            _ => None,
        })
        .collect();
    match how {
        // everything arrived in order
        0 => {}
        // the last one is torn
        1 => {
            if let Some((_, d)) = pending.last_mut() {
                let n = c.rng.below(d.len() as u64 + 1) as usize;
                *d = Rc::new(d[..n].to_vec());
            }
        }
        // only the last one arrived
        2 => {
            let l = pending.pop();
            pending.clear();
            pending.extend(l);
        }
        _ => {
            // any subset in any order, each in part
            let mut out = vec![];
            for (o, d) in pending {
                if c.rng.chance(1, 3) {
                    continue;
                }
                match c.rng.below(4) {
                    0 => {
                        let n = c.rng.below(d.len() as u64 + 1) as usize;
                        out.push((o, Rc::new(d[..n].to_vec())));
                    }
                    1 => {
                        let n = c.rng.below(d.len() as u64 + 1) as usize;
                        out.push((o + n as u64, Rc::new(d[n..].to_vec())));
                    }
                    2 => {
                        // some sectors
                        let mut i = 0;
                        while i < d.len() {
                            let e = (i + 512).min(d.len());
                            if c.rng.chance(1, 2) {
                                out.push((o + i as u64, Rc::new(d[i..e].to_vec())));
                            }
                            i = e;
                        }
                    }
                    _ => out.push((o, d)),
                }
            }
            for i in (1..out.len()).rev() {
                let j = c.rng.below(i as u64 + 1) as usize;
                out.swap(i, j);
            }
            pending = out;
        }
    }
    for (o, d) in pending {
        img.put(o, &d);
    }
    img
}

struct Allowed {
    lb: u64,
    old: Table,
    new: Table,
    stale: Option<Table>,
}

fn judge_state(c: &mut Ctx, a: &Allowed, img: &Image, what: &str) -> R<Table> {
    c.count("crash_states", 1);
    let s = match fresh(c, img, Conf::plain(a.lb)) {
        Ok(s) => of(&s),
        Err(e) => viol!("{what}: the disk does not open: {e}"),
    };
    if s == a.new {
        c.count("crash_states_new", 1);
    } else if s == a.old {
        c.count("crash_states_old", 1);
    } else if Some(&s) == a.stale.as_ref() {
        c.count("crash_states_backup", 1);
    } else {
        viol!(
            "{what}: shows {}, neither the old table ({}) nor the new one ({}): {}",
            describe(&s),
            describe(&a.old),
            describe(&a.new),
            table_diff(&a.new.1, &s.1)
        );
    }
    Ok(s)
}

fn crash_points(c: &mut Ctx, evs: &[Ev], max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=evs.len()).collect();
    if v.len() > max {
        // always around the flushes, and a sample of the others
        let near: Vec<usize> = evs
            .iter()
            .enumerate()
            .filter(|(_, e)| matches!(e, Ev::Flush))
            .flat_map(|(i, _)| [i.saturating_sub(1), i, i + 1])
            .collect();
        let mut keep: Vec<usize> = near;
        keep.extend([0, 1, evs.len()]);
        while keep.len() < max {
            keep.push(c.rng.below(evs.len() as u64 + 1) as usize);
        }
        v = keep;
        v.retain(|k| *k <= evs.len());
        v.sort_unstable();
        v.dedup();
    }
    v
}

fn only_effects(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| matches!(e, Ev::Write { .. } | Ev::Flush)).cloned().collect()
}

fn completed(c: &mut Ctx, img: &Image, lb: u64, new: &Table, ro: bool, what: &str) -> R {
    if let Err(e) = check_wellformed(img, lb, !ro) {
        viol!("{what}: {e}");
    }
    match fresh(c, img, Conf::plain(lb)) {
        Ok(s) => ensure!(&of(&s) == new, "{what}: {}", table_diff(&new.1, &no_os(&s.parts))),
        Err(e) => viol!("{what}: does not open: {e}"),
    }
    Ok(())
}

/// Explore the crashes of one write; `redo` writes the same state again.
fn explore(c: &mut Ctx, a: &Allowed, base: &Image, evs: &[Ev], ro: bool, disk: &Disk, depth: u32) -> R {
    let max = if depth > 0 { 6 } else if c.tier == Tier::Thorough { 60 } else { 24 };
    for k in crash_points(c, evs, max) {
        let tries = if depth > 0 { 2 } else { 5 };
        for how in 0..tries {
            let img = crash_state(c, base, evs, k, how);
            let what = format!("crash after {k} of {} device events (variant {how})", evs.len());
            let seen = judge_state(c, a, &img, &what)?;
            if c.rng.chance(1, 6) {
                // write again
                let dev = Dev::new(img.clone());
                let mut d = lib(|| disk.with_disk_device(dev.share(), true));
                if c.rng.chance(1, 2) {
                    // as another process would: open, edit, write
                    let conf = Conf { writable: true, perm: true, ro_backup: ro, ..Conf::plain(a.lb) };
                    d = match lib(|| conf.config().open_from_device(dev.share())) {
                        Ok(d) => d,
                        Err(e) => viol!("{what}: does not open for writing: {}", gerr(&e)),
                    };
                    let m = a.new.1.iter().map(|(k, p)| (*k, p.to_lib())).collect();
                    lib(|| d.update_guid(Some(Uuid::from_bytes(a.new.0))));
                    if let Err(e) = lib(|| d.update_partitions(m)) {
                        // fewer usable blocks than needed for the arrays
                        if gerr(&e).starts_with("Header(") {
                            continue;
                        }
                        viol!("{what}: repeating the update: {}", gerr(&e));
                    }
                }
                dev.take_log();
                if let Err(e) = lib(|| d.write_inplace()) {
                    viol!("{what}: repeating the write: {}", gerr(&e));
                }
                completed(c, &dev.image(), a.lb, &a.new, ro, &format!("{what}, after repeating the write"))?;
                c.count("repeated_writes", 1);
                if depth == 0 && c.rng.chance(1, 3) && !ro {
                    let log = only_effects(&dev.take_log());
                    let a2 = Allowed { lb: a.lb, old: seen.clone(), new: a.new.clone(), stale: None };
                    explore(c, &a2, &img, &log, ro, disk, 1)
                        .map_err(|e| prefix(e, &format!("{what}, then while repeating")))?;
                    c.count("crashes_while_repeating", 1);
                }
            }
        }
    }
    Ok(())
}

fn prefix(e: Stop, p: &str) -> Stop {
    match e {
        Stop::Violation(m) => Stop::Violation(format!("{p}: {m}")),
        e => e,
    }
}

/// Make the backup an intact copy of another table, as after writes which
/// left it alone.
fn outdate_backup(c: &mut Ctx, img: &mut Image, lb: u64) -> bool {
    let last = last_lba(img.size, lb);
    if recorded(img, lb, 1).is_none() {
        return false;
    }
    let Ok(q) = read_copy(img, lb, last) else { return false };
    let mut h = q.h;
    let at = h.pstart * lb;
    let Some(mut a) = img.get(at, h.n as usize * 128) else { return false };
    let slot = (c.rng.below(u64::from(h.n.min(8))) * 128) as usize;
    if c.rng.chance(1, 2) {
        a[slot..slot + 128].fill(0);
    }
    a[slot] ^= 0x5a;
    a[slot + 16] ^= 0x77;
    h.pcrc = crc32(&a);
    h.crc = h.expected_crc();
    img.put(at, &a);
    img.put(last * lb, &h.encode());
    true
}

pub fn c14(c: &mut Ctx) -> R {
    let b = Bias { writes: 15, damaged: 45, foreign: 30, ro_backup: 12, full: 10, perm: 40, ..Bias::default() };
    if RECORDS && c.rng.chance(1, 8) {
        return c14_file(c);
    }
    let mut w = gen_world(c, b)?;
    let k = c.rng.below(8);
    for _ in 0..k {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        w.step(c, op)?;
    }
    let lb = w.conf.lb;
    if c.rng.chance(1, 6) {
        // a fresh damage under an open disk
        let mut img = w.dev.image();
        let last = last_lba(img.size, lb);
        let at = *c.rng.pick(&[lb, last * lb]);
        damage(&mut c.rng, &mut img, at, 92);
        w.dev.inner.borrow_mut().img = img;
        c.note(format!("damaged at {at} while open"));
    }
    if !w.conf.ro_backup && c.rng.chance(1, 5) {
        let mut img = w.dev.image();
        if outdate_backup(c, &mut img, lb) {
            w.dev.inner.borrow_mut().img = img;
            c.note("the backup copy is an intact, older one".into());
        }
    }
    let pre = w.dev.image();
    let last = last_lba(pre.size, lb);
    let (p, q) = (recorded(&pre, lb, 1), recorded(&pre, lb, last));
    let old = match (&p, &q) {
        (Some(t), _) => t.clone(),
        (None, Some(t)) => t.clone(),
        _ => return Err(Stop::Skip("no intact copy before the write")),
    };
    if w.conf.ro_backup && q.is_none() {
        return Err(Stop::Skip("read-only backup is not intact"));
    }
    if p.is_none() {
        c.count("only_backup_intact", 1);
    } else if q.is_none() {
        c.count("only_primary_intact", 1);
    } else {
        c.count("both_intact", 1);
        if p != q {
            c.count("copies_differ", 1);
        }
    }
    let s = w.snap();
    let base = lib(|| w.d().clone());
    let st = w.step(c, Op::Write)?;
    if !st.ok() {
        return Err(Stop::Skip("refused"));
    }
    let new = (s.guid, s.packed());
    c.nontrivial = new != old;
    c.count("writes_crashed", 1);
    if s.hdr.n > 128 {
        c.count("other_entry_counts", 1);
    }
    let a = Allowed { lb, old, new, stale: if w.conf.ro_backup { q } else { None } };
    let evs = only_effects(&st.evs);
    c.count("write_events", evs.len() as u64);
    explore(c, &a, &pre, &evs, w.conf.ro_backup, &base, 0)?;
    completed(c, &st.img_post, lb, &a.new, w.conf.ro_backup, "the completed write")
}

/// The same for a file opened by path, where only a sync separates writes.
fn c14_file(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let mut img = small_image(c, lb)?;
    let last = last_lba(img.size, lb);
    if c.rng.chance(1, 2) {
        let at = *c.rng.pick(&[lb, last * lb]);
        damage(&mut c.rng, &mut img, at, 92);
    }
    let (p, q) = (recorded(&img, lb, 1), recorded(&img, lb, last));
    let old = match (p, q) {
        (Some(t), _) => t,
        (None, Some(t)) => t,
        _ => return Err(Stop::Skip("no intact copy before the write")),
    };
    let dir = Scratch::new();
    let path = dir.file("disk", &img);
    let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ..Conf::plain(lb) };
    let mut new = None;
    let (r, evs) = record(&path, None, None, || -> R {
        let mut d = match lib(|| conf.config().open(&path)) {
            Ok(d) => d,
            Err(e) => viol!("a file with an intact copy does not open: {}", gerr(&e)),
        };
        let s = snap(&d);
        let t = gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 10, 128, false);
        let m = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
        if let Err(e) = lib(|| d.update_partitions(m)) {
            viol!("update_partitions: {}", gerr(&e));
        }
        if c.rng.chance(1, 2) {
            lib(|| d.update_guid(None));
        }
        let s = snap(&d);
        new = Some((s.guid, s.packed()));
        if let Err(e) = lib(|| d.write_inplace()) {
            viol!("write: {}", gerr(&e));
        }
        Ok(())
    });
    r?;
    let a = Allowed { lb, old, new: new.unwrap(), stale: None };
    c.nontrivial = a.new != a.old;
    c.count("file_writes_crashed", 1);
    let evs = as_device_log(&evs);
    let after = load(&path);
    // an in-memory twin to repeat the write with
    let dev = Dev::new(after.clone());
    let twin = match lib(|| conf.config().open_from_device(dev)) {
        Ok(d) => d,
        Err(e) => viol!("the written file does not open: {}", gerr(&e)),
    };
    explore(c, &a, &img, &evs, false, &twin, 0)
}

// ---------------------------------------------------------------------- C15

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::BrokenPipe,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::ResourceBusy,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionReset,
    ErrorKind::Deadlock,
];

/// EIO, ENOSPC, EINVAL, EROFS, EDQUOT, EBADF, EPERM, EAGAIN, ENOSYS, EOPNOTSUPP, EFBIG, ENXIO
const ERRNOS: &[i32] = &[5, 28, 22, 30, 122, 9, 1, 11, 38, 95, 27, 6];

fn points(c: &mut Ctx, n: u64) -> Vec<u64> {
    let max = if c.tier == Tier::Thorough { 400 } else { 60 };
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..15).chain(n - 15..n).collect();
    while (v.len() as u64) < max {
        v.push(c.rng.below(n));
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn faults(c: &mut Ctx) -> Vec<(Fault, bool)> {
    let k = *c.rng.pick(KINDS);
    vec![
        (Fault::Error(k), false),
        (Fault::Error(k), true),
        (Fault::PartialError, false),
        (Fault::Zero, c.rng.chance(1, 2)),
    ]
}

fn hit_effect(dev: &Dev) -> bool {
    dev.inner.borrow().hits.iter().any(|h| matches!(h, Call::Write | Call::Flush))
}
fn hit_any(dev: &Dev) -> bool {
    !dev.inner.borrow().hits.is_empty()
}

fn flushed(evs: &[Ev]) -> bool {
    match evs.iter().rposition(|e| matches!(e, Ev::Write { .. })) {
        Some(l) => evs[l..].iter().any(|e| matches!(e, Ev::Flush)),
        None => true,
    }
}

fn c15_write(c: &mut Ctx) -> R {
    let b = Bias { writes: 5, damaged: 25, ro_backup: 10, full: 8, foreign: 30, perm: 40, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    let k = c.rng.below(6);
    for _ in 0..k {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        w.step(c, op)?;
    }
    let (lb, ro) = (w.conf.lb, w.conf.ro_backup);
    let s = w.snap();
    let img = w.dev.image();
    let new = (s.guid, s.packed());
    let base = lib(|| w.d().clone());
    let run = |plan: Option<Plan>| -> (Dev, Disk, Result<(), String>) {
        let dev = Dev::new(img.clone());
        let mut d = lib(|| base.with_disk_device(dev.share(), true));
        dev.set_plan(plan);
        let r = lib(|| d.write_inplace()).map_err(|e| gerr(&e));
        (dev, d, r)
    };
    let (dev, _, r) = run(None);
    if r.is_err() {
        return Err(Stop::Skip("refused"));
    }
    let n = dev.calls();
    completed(c, &dev.image(), lb, &new, ro, "without faults")?;
    c.nontrivial = true;
    c.count("writes_enumerated", 1);
    c.count("device_calls_of_writes", n);
    let fs = faults(c);
    for at in points(c, n) {
        for (fault, persistent) in &fs {
            let fault = &match *fault {
                Fault::Error(_) => Fault::Error(*c.rng.pick(KINDS)),
                f => f,
            };
            let (dev, mut d, r) = run(Some(Plan { at, fault: *fault, persistent: *persistent }));
            if !hit_any(&dev) {
                continue;
            }
            c.count("faults_in_writes", 1);
            let what = format!("{fault:?} at device call {at} of {n} (persistent {persistent}), hit {:?}", dev.inner.borrow().hits.first());
            let evs = dev.take_log();
            if r.is_ok() {
                c.count("faults_tolerated", 1);
                ensure!(!hit_effect(&dev), "{what}: write returned success although a write or flush call failed");
                completed(c, &dev.image(), lb, &new, ro, &what)?;
                ensure!(flushed(&evs), "{what}: success without a flush after the last write");
            } else {
                c.count("faults_reported", 1);
            }
            let s2 = snap(&d);
            ensure!(s2.parts == s.parts && s2.guid == s.guid, "{what}: the table in memory changed");
            // the device works again
            dev.set_plan(None);
            dev.take_log();
            if let Err(e) = lib(|| d.write_inplace()) {
                viol!("{what}: repeating the write: {}", gerr(&e));
            }
            completed(c, &dev.image(), lb, &new, ro, &format!("{what}, after repeating the write"))?;
            ensure!(flushed(&dev.take_log()), "{what}: no flush by the repeated write");
        }
    }
    Ok(())
}

fn c15_open(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let f = gen_foreign(&mut c.rng, lb, true, 1);
    let mut img = f.img.clone();
    let last = last_lba(img.size, lb);
    if c.rng.chance(1, 3) {
        // the backup records something else
        let mut h = f.back.clone();
        let t = gen_table(&mut c.rng, h.fu, h.lu, u64::from(h.n.min(8)), h.n, false);
        let mut array = vec![0u8; h.n as usize * 128];
        for (k, p) in &t {
            array[(*k as usize - 1) * 128..*k as usize * 128].copy_from_slice(&super::rw::raw_entry(p).encode());
        }
        h.pcrc = crate::codec::crc32(&array);
        img.put(h.pstart * lb, &array);
        let mut blk = vec![0u8; lb as usize];
        blk[..92].copy_from_slice(&h.encode());
        img.put(h.my * lb, &blk);
    }
    match c.rng.below(4) {
        0 => damage(&mut c.rng, &mut img, lb, 92),
        1 => damage(&mut c.rng, &mut img, last * lb, 92),
        2 => damage(&mut c.rng, &mut img, f.prim.pstart * lb, f.prim.array_bytes()),
        _ => {}
    }
    let tables: Vec<Table> = [recorded(&img, lb, 1), recorded(&img, lb, last)].into_iter().flatten().collect();
    let only_valid = c.rng.chance(1, 4);
    let conf = Conf { only_valid, writable: c.rng.chance(1, 2), ..Conf::plain(lb) };
    c.note(format!("open {} bytes, {} entries, {conf:?}, {} intact copies", img.size, f.prim.n, tables.len()));
    let pos = match c.rng.below(5) {
        0 => lb,
        1 => last * lb,
        2 => *c.rng.pick(&[f.prim.pstart, f.back.pstart]) * lb,
        3 => c.rng.below(img.size),
        _ => 0,
    };
    let run = |plan: Option<Plan>| {
        let dev = Dev::new(img.clone());
        dev.set_plan(plan);
        dev.set_pos(pos);
        let r = lib(|| conf.config().open_from_device(dev.share()));
        (dev, r.map(|d| snap(&d)).map_err(|e| gerr(&e)))
    };
    let (dev, r0) = run(None);
    let n = dev.calls();
    c.nontrivial = true;
    c.count("opens_enumerated", 1);
    for at in points(c, n) {
        for (fault, persistent) in faults(c) {
            let (dev, r) = run(Some(Plan { at, fault, persistent }));
            if !hit_any(&dev) {
                continue;
            }
            c.count("faults_in_opens", 1);
            match r {
                Err(_) => c.count("faults_reported", 1),
                Ok(s) => {
                    c.count("faults_tolerated", 1);
                    if !tables.contains(&of(&s)) {
                        viol!(
                            "{fault:?} at device call {at} of {n}: opened with a table of {} which no intact copy records",
                            s.parts.len()
                        );
                    }
                    if only_valid {
                        ensure!(
                            s.prim.is_ok() && s.back.is_ok(),
                            "{fault:?} at device call {at}: opened without both headers"
                        );
                    }
                    for (h, a) in [(&s.prim, 1), (&s.back, last)] {
                        if let Ok(h) = h {
                            let blk = img.get(a * lb, 92).unwrap();
                            let raw = crate::codec::RawHeader::decode(&blk);
                            ensure!(raw.valid() && H::raw(&raw) == *h, "{fault:?} at device call {at}: a header is reported which is not there");
                        }
                    }
                }
            }
        }
    }
    // short transfers and interruptions
    let dev = Dev::new(img.clone());
    dev.inner.borrow_mut().flaky = c.rng.next() | 1;
    let r = lib(|| conf.config().open_from_device(dev.share()));
    let r = r.map(|d| snap(&d)).map_err(|e| gerr(&e));
    ensure!(r == r0, "with short and interrupted reads: {r:?}\n  otherwise {r0:?}");
    c.count("flaky_opens", 1);
    Ok(())
}

/// The same operations on a steady and on a flaky device.
fn c15_flaky(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let f = gen_foreign(&mut c.rng, lb, true, 128);
    let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ro_backup: c.rng.chance(1, 8), ..Conf::plain(lb) };
    let seed = c.rng.next() | 1;
    let t1 = gen_table(&mut c.rng, f.prim.fu, f.prim.lu, 20, 128, true);
    let t2 = gen_table(&mut c.rng, f.prim.fu, f.prim.lu, 20, 128, true);
    let g = c.rng.guid();
    let boot = c.rng.bytes(440);
    let fresh_create = c.rng.chance(1, 3);
    c.note(format!("flaky device, {} bytes, {conf:?}, {} and {} entries", f.img.size, t1.len(), t2.len()));
    let run = |flaky: u64| -> R<(Vec<String>, Image, Snap)> {
        let dev = Dev::new(f.img.clone());
        dev.inner.borrow_mut().flaky = flaky;
        let mut log = vec![];
        let d = if fresh_create {
            lib(|| conf.config().create_from_device(dev.share(), Some(Uuid::from_bytes(g))))
        } else {
            lib(|| conf.config().open_from_device(dev.share()))
        };
        let mut d = match d {
            Ok(d) => d,
            Err(e) => viol!("does not open (flaky {}): {}", flaky != 0, gerr(&e)),
        };
        for t in [&t1, &t2] {
            let m = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
            log.push(format!("{:?}", lib(|| d.update_partitions(m)).map_err(|e| gerr(&e))));
            lib(|| d.update_guid(Some(Uuid::from_bytes(g))));
            log.push(format!("{:?}", lib(|| d.write_inplace()).map_err(|e| gerr(&e))));
            log.push(format!("{:?}", lib(|| (d.find_free_sectors(), d.find_next_partition_id(), d.calculate_alignment()))));
        }
        let s = snap(&d);
        let mut x = dev.share();
        let mut b = [0u8; 440];
        b.copy_from_slice(&boot);
        lib(|| {
            use gpt::mbr::*;
            log.push(format!("{:?}", write_bootcode(&mut x, &b).map_err(|e| e.kind())));
            log.push(format!("{:?}", write_disk_signature(&mut x, &[1, 2, 3, 4]).map_err(|e| e.kind())));
            log.push(format!("{:?}", read_bootcode(&mut x).map(|b| b.to_vec()).map_err(|e| e.kind())));
            log.push(format!("{:?}", read_disk_signature(&mut x).map_err(|e| e.kind())));
            let m = ProtectiveMBR::with_lb_size(77);
            log.push(format!("{:?}", m.update_conservative(&mut x).is_ok()));
            log.push(format!("{:?}", ProtectiveMBR::from_disk(&mut x, lbs(lb)).map(|m| m.to_bytes().to_vec()).map_err(|e| e.to_string())));
            log.push(format!("{:?}", m.overwrite_lba0(&mut x).is_ok()));
            log.push(format!("{:?}", gpt::header::read_header_from_arbitrary_device(&mut x, lbs(lb)).map(|h| format!("{h:?}")).map_err(|e| herr(&e))));
        });
        Ok((log, dev.image(), s))
    };
    let a = run(0)?;
    let b = run(seed)?;
    for (x, y) in a.0.iter().zip(&b.0) {
        ensure!(x == y, "result on a steady device {x}, with short and interrupted transfers {y}");
    }
    ensure!(a.2 == b.2, "state on a steady device {:?}, with short and interrupted transfers {:?}", a.2, b.2);
    let d = a.1.diff(&b.1);
    ensure!(d.is_empty(), "short and interrupted transfers changed what is on the device: {:?}", &d[..d.len().min(4)]);
    c.nontrivial = true;
    c.count("flaky_histories", 1);
    Ok(())
}

fn c15_mbr(c: &mut Ctx) -> R {
    use gpt::mbr::*;
    let lb = gen_lb(&mut c.rng);
    let n = lb * c.rng.range(1, 4);
    let mut img = Image::new(n, c.rng.next() | 1);
    img.put(510, &[0x55, 0xAA]);
    let which = c.rng.below(7);
    let mut b = [0u8; 440];
    b.copy_from_slice(&c.rng.bytes(440));
    let sig = [c.rng.next() as u8, 2, 3, 4];
    let mut m = lib(|| ProtectiveMBR::with_lb_size(c.rng.next() as u32));
    lib(|| {
        m.set_bootcode(b);
        m.set_disk_signature(sig);
    });
    let start = c.rng.below(n);
    c.note(format!("MBR operation {which} on {n} bytes"));
    let run = |plan: Option<Plan>, flaky: u64| -> (Dev, Result<Vec<u8>, ()>) {
        let dev = Dev::new(img.clone());
        dev.set_pos(start);
        dev.set_plan(plan);
        dev.inner.borrow_mut().flaky = flaky;
        let mut d = dev.share();
        let r = lib(|| match which {
            0 => m.overwrite_lba0(&mut d).map(|n| vec![n as u8]).map_err(|_| ()),
            1 => m.update_conservative(&mut d).map(|n| vec![n as u8]).map_err(|_| ()),
            2 => write_bootcode(&mut d, &b).map(|_| vec![]).map_err(|_| ()),
            3 => write_disk_signature(&mut d, &sig).map(|_| vec![]).map_err(|_| ()),
            4 => read_bootcode(&mut d).map(|b| b.to_vec()).map_err(|_| ()),
            5 => read_disk_signature(&mut d).map(|b| b.to_vec()).map_err(|_| ()),
            _ => ProtectiveMBR::from_disk(&mut d, lbs(lb)).map(|b| b.to_bytes().to_vec()).map_err(|_| ()),
        });
        (dev, r)
    };
    let (dev, r0) = run(None, 0);
    ensure!(r0.is_ok(), "MBR operation {which} failed without faults");
    let after = dev.image();
    let n = dev.calls();
    c.nontrivial = true;
    c.count("mbr_operations_enumerated", 1);
    for at in 0..n {
        for (fault, persistent) in faults(c) {
            let (dev, r) = run(Some(Plan { at, fault, persistent }), 0);
            if !hit_any(&dev) {
                continue;
            }
            c.count("faults_in_mbr_operations", 1);
            let what = format!("MBR operation {which}, {fault:?} at device call {at} of {n}, hit {:?}", dev.inner.borrow().hits.first());
            if r.is_ok() {
                ensure!(!hit_effect(&dev), "{what}: success although a write or flush call failed");
                ensure!(r == r0, "{what}: another result");
                ensure!(dev.image().same(&after), "{what}: success but the device is not as it should be");
                ensure!(flushed(&dev.take_log()), "{what}: success without a flush");
            } else {
                // repeated on the working device
                let d2 = Dev::new(dev.image());
                let mut d = d2.share();
                let ok = lib(|| match which {
                    0 => m.overwrite_lba0(&mut d).is_ok(),
                    1 => m.update_conservative(&mut d).is_ok(),
                    2 => write_bootcode(&mut d, &b).is_ok(),
                    3 => write_disk_signature(&mut d, &sig).is_ok(),
                    _ => true,
                });
                ensure!(ok, "{what}: repeating it fails");
                ensure!(which > 3 || d2.image().same(&after), "{what}: repeating it gives another result");
            }
        }
    }
    let (dev, r) = run(None, c.rng.next() | 1);
    ensure!(r == r0 && dev.image().same(&after), "MBR operation {which}: short and interrupted transfers change the result");
    Ok(())
}

/// Errors of the file system below a disk opened by path.
fn c15_file(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = small_image(c, lb)?;
    let conf = Conf { writable: true, perm: true, ..Conf::plain(lb) };
    let dir = Scratch::new();
    let t = gen_table(&mut c.rng, min_blocks(128, 512), min_blocks(128, 512) + 1, 1, 128, false);
    let _ = t;
    c.note(format!("file of {} bytes, failing writes and syncs", img.size));
    let mut total = (0u64, 0u64);
    for i in 0..200u64 {
        let path = dir.file("disk", &img);
        let (fw, fsn) = match i {
            0 => (None, None),
            i if i <= total.1 => (None, Some(i - 1)),
            i if i <= total.1 + total.0.min(40) => {
                let k = i - total.1 - 1;
                (Some(if total.0 > 40 { c.rng.below(total.0) } else { k }), None)
            }
            _ => break,
        };
        let mut done = None;
        super::files::ERRNO.with(|e| e.set(*c.rng.pick(ERRNOS)));
        let (r, evs) = record(&path, fw, fsn, || -> R {
            let d = match lib(|| conf.config().open(&path)) {
                Ok(d) => Ok(d),
                Err(_) => lib(|| conf.config().create(&path)),
            };
            let mut d = match d {
                Ok(d) => d,
                Err(e) => viol!("create: {}", gerr(&e)),
            };
            lib(|| d.update_guid(Some(Uuid::from_bytes([5; 16]))));
            let s = snap(&d);
            let r = lib(|| d.write_inplace());
            let failed = r.is_err();
            if failed {
                // works again
                if let Err(e) = lib(|| d.write_inplace()) {
                    viol!("repeating the write on a working file: {}", gerr(&e));
                }
            }
            done = Some((failed, s));
            Ok(())
        });
        r?;
        let (failed, s) = done.unwrap();
        let hit = evs.iter().any(|e| matches!(e, super::files::Fev::Fail));
        if i == 0 {
            total = (
                evs.iter().filter(|e| matches!(e, super::files::Fev::Write { .. })).count() as u64,
                evs.iter().filter(|e| matches!(e, super::files::Fev::Sync { .. })).count() as u64,
            );
            ensure!(!failed, "the write failed without faults");
        }
        if hit {
            c.count("faults_in_file_writes", 1);
            ensure!(failed, "the write returned success although write {fw:?} / sync {fsn:?} of the file failed");
        }
        let now = load(&path);
        let new = (s.guid, s.packed());
        completed(c, &now, lb, &new, false, "after the (repeated) write of the file")?;
    }
    c.nontrivial = true;
    Ok(())
}

/// The same for the functions that write to a path themselves.
fn c15_path(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = small_image(c, lb)?;
    let dir = Scratch::new();
    let header = c.rng.chance(1, 2);
    let g = Uuid::from_bytes(c.rng.guid());
    let t = gen_table(&mut c.rng, 40, 60, 1, 128, false);
    let p = match t.values().next() {
        Some(p) => p.to_lib(),
        None => gpt::partition::Partition::zero(),
    };
    let index = c.rng.below(128);
    let run = |path: &std::path::Path| -> bool {
        if header {
            lib(|| gpt::header::write_header(path, Some(g), lbs(lb)).is_ok())
        } else {
            lib(|| p.write(path, index, 2, lbs(lb)).is_ok())
        }
    };
    let what = if header { "write_header" } else { "Partition::write" };
    c.note(format!("{what} by path on a file of {} bytes, failing writes and syncs", img.size));
    let path = dir.file("disk", &img);
    let (r0, evs) = record(&path, None, None, || run(&path));
    if !r0 {
        return Ok(());
    }
    let after = load(&path);
    let writes = evs.iter().filter(|e| matches!(e, super::files::Fev::Write { .. })).count() as u64;
    let syncs = evs.iter().filter(|e| matches!(e, super::files::Fev::Sync { .. })).count() as u64;
    for i in 0..writes + syncs {
        let (fw, fsn) = if i < writes { (Some(i), None) } else { (None, Some(i - writes)) };
        let path = dir.file("disk", &img);
        super::files::ERRNO.with(|e| e.set(*c.rng.pick(ERRNOS)));
        let (r, evs) = record(&path, fw, fsn, || run(&path));
        if evs.iter().any(|e| matches!(e, super::files::Fev::Fail)) {
            c.count("faults_in_writes_by_path", 1);
            ensure!(!r, "{what} returned success although write {fw:?} / sync {fsn:?} of the file failed");
            ensure!(run(&path), "repeating {what} on a working file fails");
        }
        ensure!(load(&path).same(&after), "{what}: after the (repeated) write the file is not as it should be");
    }
    c.nontrivial = true;
    Ok(())
}

pub fn c15(c: &mut Ctx) -> R {
    match c.rng.below(12) {
        0..=4 => c15_write(c),
        5..=7 => c15_open(c),
        8 | 9 => c15_flaky(c),
        10 => c15_mbr(c),
        _ if RECORDS && c.rng.chance(1, 2) => c15_file(c),
        _ if RECORDS => c15_path(c),
        _ => c15_mbr(c),
    }
}

#[allow(dead_code)]
fn unused(_: &[u8]) {
    let _ = check_array;
}
