//! C01, C02, C03, C05, C17: what a write leaves on the device.
use crate::codec::{self, check_wellformed, last_lba, read_copy, RawEntry, RawHeader};
use crate::ctx::{lib, Ctx, R};
use crate::dev::{Dev, Ev, Image};
use crate::world::*;
use crate::{ensure, viol};
use std::collections::BTreeMap;

/// What a fresh, independent open of these contents reports.
pub fn fresh(c: &mut Ctx, img: &Image, conf: Conf) -> Result<Snap, String> {
    let dev = Dev::new(img.clone());
    let pos = c.rng.below(img.size.min(1 << 20).max(1));
    dev.set_pos(pos);
    match lib(|| conf.config().open_from_device(dev)) {
        Ok(d) => Ok(snap(&d)),
        Err(e) => Err(gerr(&e)),
    }
}

fn mark(c: &mut Ctx, st: &Step) {
    c.count("writes_checked", 1);
    if st.pre.n_used() > 0 {
        c.nontrivial = true;
        c.count("written_partitions", u64::from(st.pre.n_used()));
    }
    if st.pre.n_used() > 100 {
        c.count("nearly_full_tables", 1);
    }
    if st.pre.hdr.n > 128 {
        c.count("grown_tables", 1);
    }
    if st.pre.parts.values().any(|p| p.recorded().name != p.name) {
        c.count("names_cut", 1);
    }
}

fn same_table(what: &str, want: (&[u8; 16], &BTreeMap<u32, P>), got: &Snap) -> R {
    let g = no_os(&got.parts);
    if &g != want.1 {
        viol!("{what}: {}", table_diff(want.1, &g));
    }
    ensure!(&got.guid == want.0, "{what}: disk GUID {:02x?}, should be {:02x?}", got.guid, want.0);
    Ok(())
}

pub fn destroy(c: &mut Ctx, img: &mut Image, off: u64, len: u64) {
    let data = match c.rng.below(3) {
        0 => vec![0; len as usize],
        1 => vec![0xff; len as usize],
        _ => c.rng.bytes(len as usize),
    };
    img.put(off, &data);
}

// ---------------------------------------------------------------------- C01

pub fn c01(c: &mut Ctx) -> R {
    let b = Bias { ro_backup: 8, writes: 30, full: 20, vast: true, ..Bias::default() };
    history(c, b, 14, |c, w, st| {
        if !st.wrote() {
            return Ok(());
        }
        mark(c, st);
        let lb = w.conf.lb;
        let want = st.pre.packed();
        let plain = Conf::plain(lb);
        let s = match fresh(c, &st.img_post, plain) {
            Ok(s) => s,
            Err(e) => viol!("the written disk does not open: {e}"),
        };
        same_table("reopened", (&st.pre.guid, &want), &s)?;
        // through the primary copy alone
        let last = last_lba(st.img_post.size, lb);
        let mut img = st.img_post.clone();
        destroy(c, &mut img, last * lb, lb);
        match fresh(c, &img, plain) {
            Ok(s) => same_table("through the primary copy alone", (&st.pre.guid, &want), &s)?,
            Err(e) => viol!("does not open through the primary copy alone: {e}"),
        }
        if !w.conf.ro_backup {
            let mut img = st.img_post.clone();
            destroy(c, &mut img, lb, lb);
            match fresh(c, &img, plain) {
                Ok(s) => same_table("through the backup copy alone", (&st.pre.guid, &want), &s)?,
                Err(e) => viol!("does not open through the backup copy alone: {e}"),
            }
            c.count("read_through_backup", 1);
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------- C02

pub fn raw_entry(p: &P) -> RawEntry {
    let mut name = [0u16; 36];
    for (i, u) in codec::name_units(&p.name).into_iter().enumerate() {
        name[i] = u;
    }
    RawEntry { ty: p.ty, id: p.id, first: p.first, last: p.last, flags: p.flags, name }
}

/// Entries of an array: used partitions packed, the rest blank.
pub fn check_array(t: &BTreeMap<u32, P>, array: &[u8]) -> Result<(), String> {
    let used: Vec<&P> = t.values().filter(|p| p.used()).collect();
    for (i, ch) in array.chunks(128).enumerate() {
        match used.get(i) {
            Some(p) => {
                let mut w = raw_entry(p).encode();
                let mut g = [0u8; 128];
                g[..ch.len()].copy_from_slice(ch);
                // the units behind a terminator carry no meaning
                let n = codec::name_units(&p.name).len();
                if n < 36 {
                    for b in 56 + 2 * n + 2..128 {
                        w[b] = 0;
                        g[b] = 0;
                    }
                }
                if w != g {
                    return Err(format!("entry {}: should be {w:02x?}, is {g:02x?}", i + 1));
                }
            }
            None => {
                if ch.iter().any(|b| *b != 0) {
                    return Err(format!("entry {} should be blank: {ch:02x?}", i + 1));
                }
            }
        }
    }
    if used.len() > array.len() / 128 {
        return Err(format!("{} partitions in {} entries", used.len(), array.len() / 128));
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) -> R {
    let b = Bias { ro_backup: 8, writes: 30, full: 20, perm: 40, vast: true, ..Bias::default() };
    history(c, b, 14, |c, w, st| {
        if !st.wrote() {
            return Ok(());
        }
        mark(c, st);
        let (p, back) = match check_wellformed(&st.img_post, w.conf.lb, !w.conf.ro_backup) {
            Ok(x) => x,
            Err(e) => viol!("not a well-formed GPT: {e}"),
        };
        ensure!(p.h.guid == st.pre.guid, "primary header records GUID {:02x?}", p.h.guid);
        ensure!(p.h.psize == 128, "entry size {}", p.h.psize);
        if let Err(e) = check_array(&st.pre.parts, &p.array) {
            viol!("primary array: {e}");
        }
        if let Some(b) = back {
            if let Err(e) = check_array(&st.pre.parts, &b.array) {
                viol!("backup array: {e}");
            }
            c.count("backup_copies_decoded", 1);
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------- C03

/// The blocks the growth of the arrays from `a` to `n` entries newly covers.
pub fn growth_blocks(lb: u64, last: u64, a: u32, n: u32) -> [(u64, u64); 2] {
    let bl = |k: u32| (u64::from(k) * 128 + lb - 1) / lb;
    [(2 + bl(a), 2 + bl(n)), (last - bl(n), last - bl(a))]
}

/// Spans of blocks, to be asked which of them covers a block.
struct Areas {
    /// ordered by the first block, with the span reaching furthest so far
    v: Vec<(u64, (u64, u64))>,
}

impl Areas {
    fn new(it: impl Iterator<Item = (u64, u64)>) -> Self {
        let mut s: Vec<(u64, u64)> = it.filter(|(a, b)| a <= b).collect();
        s.sort_unstable();
        let mut far = (0, 0);
        let mut v = vec![];
        for (a, b) in s {
            if v.is_empty() || b > far.1 {
                far = (a, b);
            }
            v.push((a, far));
        }
        Areas { v }
    }
    fn at(&self, blk: u64) -> Option<(u64, u64)> {
        let i = self.v.partition_point(|(a, _)| *a <= blk);
        let far = self.v.get(i.checked_sub(1)?)?.1;
        (far.1 >= blk).then_some(far)
    }
}

fn c03_step(c: &mut Ctx, w: &World, st: &Step) -> R {
    for e in &st.evs {
        if let Ev::Oob { off, len } = e {
            viol!("write of {len} bytes at {off} beyond the device of {} bytes", st.img_pre.size);
        }
    }
    if !st.op.is_write() {
        return Ok(());
    }
    if !st.ok() {
        return Ok(());
    }
    mark(c, st);
    let lb = w.conf.lb;
    let last = last_lba(st.img_post.size, lb);
    let mut allowed: Vec<(u64, u64)> = vec![];
    let prim = match read_copy(&st.img_post, lb, 1) {
        Ok(p) => p.h,
        Err(e) => viol!("no primary after the write: {e}"),
    };
    allowed.push((1, 2));
    allowed.push(prim.array_blocks(lb));
    if !w.conf.ro_backup {
        let blk = st.img_post.get(prim.alt.saturating_mul(lb), lb as usize);
        let blk = match blk {
            Some(b) => b,
            None => viol!("the backup header is recorded at block {} of {}", prim.alt, last + 1),
        };
        let back = RawHeader::decode(&blk);
        allowed.push((prim.alt, prim.alt + 1));
        allowed.push(back.array_blocks(lb));
    }
    // the range of usable blocks before and after the write
    let (fu, lu) = (st.pre.hdr.fu, st.pre.hdr.lu);
    let used: Vec<P> = st.pre.used().map(|(_, p)| p.clone()).collect();
    // a truncated disk may have partitions outside of its usable range
    let kept = |p: &&P| w.start != "resized" || p.last <= prim.lu;
    let areas = Areas::new(used.iter().filter(kept).map(|p| (p.first, p.last)));
    for (a, b) in st.img_pre.diff(&st.img_post) {
        // block by block
        let mut o = a;
        while o < b {
            let blk = o / lb;
            let e = ((blk + 1) * lb).min(b);
            let at = format!("bytes {o}..{e} (block {blk} of {}) changed", last + 1);
            ensure!(blk != 0, "{at}: block 0");
            ensure!(blk <= last, "{at}: after the last whole block");
            ensure!(!(prim.fu <= blk && blk <= prim.lu), "{at}: in the usable range {}..={}", prim.fu, prim.lu);
            ensure!(!(fu <= blk && blk <= lu), "{at}: in the usable range {fu}..={lu}");
            ensure!(
                allowed.iter().any(|(x, y)| *x <= blk && blk < *y),
                "{at}: not in a header or an array {allowed:?}"
            );
            if let Some(p) = areas.at(blk) {
                let what = format!("{at}: belongs to partition {}..={}", p.0, p.1);
                let grown = st.pre.hdr.n > w.safe_n
                    && growth_blocks(lb, last, w.safe_n, st.pre.hdr.n)
                        .iter()
                        .any(|(x, y)| *x <= blk && blk < *y);
                if grown {
                    return Err(c.finding("growth-overlap", what));
                }
                viol!("{what}");
            }
            c.count("changed_blocks", 1);
            o = e;
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> R {
    if c.index % 997 == 3 {
        return growth_overlap(c);
    }
    if c.index % 13 == 5 {
        return c03_resized(c);
    }
    let b = Bias { ro_backup: 8, writes: 35, full: 20, perm: 35, foreign: 35, vast: true, ..Bias::default() };
    history(c, b, 14, |c, w, st| c03_step(c, w, st))
}

/// A table on a device that is smaller or larger than the one it was made for.
fn c03_resized(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let huge = c.rng.chance(1, 4);
    let size = gen_size(&mut c.rng, lb, 128, huge);
    let dev = Dev::new(Image::new(size, c.rng.next() | 1));
    let wconf = Conf { writable: true, perm: true, ..Conf::plain(lb) };
    let mut old = create(c, wconf, dev.share())?;
    let s = snap(&old);
    let t = gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 6, 128, false);
    let lt: BTreeMap<u32, gpt::partition::Partition> = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
    if let Err(e) = lib(|| old.update_partitions(lt).and_then(|_| old.write_inplace())) {
        viol!("a first table cannot be written: {}", gerr(&e));
    }
    drop(old);
    let meta = s.hdr.fu * lb;
    // the device changes while the disk is open
    let late = c.rng.chance(1, 3);
    let new = match c.rng.below(6) {
        0 if late => c.rng.below(meta),
        0 => c.rng.range(meta.min(size - 1), size - 1),
        1 => size - 1 - c.rng.below((lb * 70).min(size - meta)),
        2 => meta + c.rng.below(40 * lb),
        3 => size + 1 + c.rng.below(lb * 70),
        4 => size + c.rng.below(1 << 30),
        _ => size + (c.rng.next() >> c.rng.range(20, 60)),
    };
    let mut img = Image::new(new, dev.image().bg);
    img.put(0, &dev.image().get(0, meta.min(new) as usize).unwrap());
    let tail = size.saturating_sub(meta);
    if new > tail {
        // the backup, as far as it is there
        let l = (size.min(new) - tail) as usize;
        let b = dev.image().get(tail, l).unwrap();
        img.put(tail, &b);
    }
    let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ro_backup: c.rng.chance(1, 5), ..Conf::plain(lb) };
    let whole = dev;
    let dev = Dev::new(img);
    let how = if late { ", while open" } else { "" };
    c.note(format!("made for {size} bytes with {} partitions, now {new} bytes{how}, {conf:?}", t.len()));
    let opened = lib(|| {
        if late {
            let mut d = conf.config().open_from_device(whole.share())?;
            drop(d.update_disk_device(dev.share(), true));
            Ok(d)
        } else {
            conf.config().open_from_device(dev.share())
        }
    });
    let disk = match opened {
        Ok(d) => d,
        Err(e) => {
            c.note(format!("does not open: {}", gerr(&e)));
            return Ok(());
        }
    };
    c.count(if new < size { "truncated_disks" } else { "enlarged_disks" }, 1);
    c.nontrivial = true;
    let mut w = World { disk: Some(disk), size: new, dev, conf, safe_n: 128, start: "resized" };
    let b = Bias { writes: 40, foreign: 0, damaged: 0, ..Bias::default() };
    for _ in 0..c.rng.range(1, 6) {
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            Op::Reopen | Op::WriteConsume if late => Op::Write,
            o => o,
        };
        let st = w.step(c, op)?;
        c03_step(c, &w, &st)?;
        if st.op.is_write() {
            c.count(if st.ok() { "resized_written" } else { "resized_refused" }, 1);
            ensure!(st.ok() || st.img_pre.same(&st.img_post), "a refused write changed the device");
        }
        if w.disk.is_none() {
            break;
        }
    }
    Ok(())
}

/// The listed finding: growing the arrays over partitions (always run).
fn growth_overlap(c: &mut Ctx) -> R {
    let lb = 512;
    let img = Image::new(196 * lb, 0x77);
    let dev = Dev::new(img);
    let conf = Conf { writable: true, perm: true, ..Conf::plain(lb) };
    let disk = create(c, conf, dev.share())?;
    let mut w = World { disk: Some(disk), dev, conf, safe_n: 128, size: 196 * lb, start: "create" };
    let mut t = BTreeMap::new();
    for i in 0..129u64 {
        let ty = gen_type(&mut c.rng);
        t.insert(i as u32 + 1, gen_p(&mut c.rng, ty, 34 + i.min(127), 34 + i.min(127)));
    }
    t.remove(&129);
    w.step(c, Op::Update(t.clone()))?;
    let st = w.step(c, Op::Write)?;
    c03_step(c, &w, &st)?;
    // 129 partitions of one block each, from the first usable block on
    let ty = gen_type(&mut c.rng);
    t.remove(&1);
    t.insert(129, gen_p(&mut c.rng, ty, 34, 34));
    t.insert(130, gen_p(&mut c.rng, [0; 16], 35, 35));
    w.step(c, Op::Update(t))?;
    let st = w.step(c, Op::Write)?;
    if !st.ok() {
        return Ok(());
    }
    c03_step(c, &w, &st)
}

// ---------------------------------------------------------------------- C05

pub fn c05(c: &mut Ctx) -> R {
    let b = Bias { ro_backup: 100, writes: 35, full: 25, perm: 50, damaged: 15, foreign: 25, ..Bias::default() };
    let mut first: Option<Image> = None;
    history(c, b, 14, |c, w, st| {
        let lb = w.conf.lb;
        let last = last_lba(st.img_post.size, lb);
        let orig = first.get_or_insert_with(|| st.img_pre.clone());
        // the header block and the array, as recorded or in its customary place
        let mut keep: Vec<(u64, u64)> = vec![(last * lb, lb)];
        let n = st.pre.hdr.n.max(128);
        let a = (u64::from(n) * 128 + lb - 1) / lb;
        if let Some(blk) = orig.get(last * lb, lb as usize) {
            let h = RawHeader::decode(&blk);
            if h.valid() && h.psize == 128 && h.array_bytes() < 1 << 24 {
                let (x, y) = h.array_blocks(lb);
                if y <= last + 1 {
                    keep.push((x * lb, (y - x) * lb));
                    c.count("intact_backups_watched", 1);
                }
            } else if last > a + 2 + a {
                keep.push(((last - a) * lb, a * lb));
            }
        }
        for (o, l) in keep {
            if orig.get(o, l as usize) != st.img_post.get(o, l as usize) {
                viol!("bytes of the read-only backup changed in {o}..{}", o + l);
            }
        }
        if !matches!(st.op, Op::Reopen | Op::WriteConsume) {
            ensure!(
                st.pre.back == st.post.back,
                "the backup header in memory changed: {:?} -> {:?}",
                st.pre.back,
                st.post.back
            );
        }
        if st.wrote() {
            mark(c, st);
            match fresh(c, &st.img_post, Conf::plain(lb)) {
                Ok(s) => {
                    same_table("the primary copy", (&st.pre.guid, &st.pre.packed()), &s)?;
                    ensure!(s.prim.is_ok(), "the primary header is not valid after the write");
                }
                Err(e) => viol!("the written disk does not open: {e}"),
            }
            match read_copy(&st.img_post, lb, 1) {
                Ok(p) => {
                    if let Err(e) = check_array(&st.pre.parts, &p.array) {
                        viol!("primary array: {e}");
                    }
                }
                Err(e) => viol!("the primary copy was not fully written: {e}"),
            }
        } else if st.op.is_write() && w.conf.writable {
            viol!("the write failed");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------- C17

/// Headers made in memory (by creating, or by an edit) are those which a write puts on the
/// device.
fn c17_announced(c: &mut Ctx, w: &World, st: &Step) -> R {
    let last = w.size / w.conf.lb - 1;
    let prim = match &st.post.prim {
        Ok(h) => h,
        Err(e) => viol!("there is no primary header in memory: {e}"),
    };
    ensure!((prim.my, prim.alt) == (1, last), "the primary header in memory is at {} and names {} (last block {last})", prim.my, prim.alt);
    ensure!(st.post.hdr == *prim, "header {:?} but primary header {prim:?}", st.post.hdr);
    if !w.conf.ro_backup {
        let back = match &st.post.back {
            Ok(h) => h,
            Err(e) => viol!("there is no backup header in memory: {e}"),
        };
        ensure!((back.my, back.alt) == (last, 1), "the backup header in memory is at {} and names {} (last block {last})", back.my, back.alt);
        ensure!(
            (prim.n, prim.psize, prim.fu, prim.lu, prim.guid) == (back.n, back.psize, back.fu, back.lu, back.guid),
            "the headers in memory differ: {prim:?} / {back:?}"
        );
    }
    c.count("announced_headers", 1);
    if matches!(st.op, Op::Write) && st.ok() {
        // checksums, and the GUID if it was set since, are only known now
        let bare = |h: &Result<H, String>| h.clone().map(|h| H { crc: 0, pcrc: 0, guid: [0; 16], ..h });
        let pre = (bare(&st.pre.prim), bare(&st.pre.back));
        let post = (bare(&st.post.prim), bare(&st.post.back));
        ensure!(pre.0 == post.0, "primary header before the write {:?}, after {:?}", pre.0, post.0);
        if !w.conf.ro_backup {
            ensure!(pre.1 == post.1, "backup header before the write {:?}, after {:?}", pre.1, post.1);
        }
        c.count("announced_headers_written", 1);
    }
    Ok(())
}

pub fn c17(c: &mut Ctx) -> R {
    let b = Bias { ro_backup: 8, writes: 35, full: 20, perm: 35, vast: true, ..Bias::default() };
    // the headers in memory are those of the next write
    let mut announced: Option<bool> = None;
    history(c, b, 12, |c, w, st| {
        let told = announced.get_or_insert(w.start == "create");
        match st.op {
            Op::Reopen | Op::WriteConsume => *told = false,
            Op::Update(_) if st.ok() => *told = true,
            Op::Write => {}
            _ => *told |= st.pre.prim != st.post.prim,
        }
        if *told {
            c17_announced(c, w, st)?;
        }
        if !st.wrote() {
            return Ok(());
        }
        mark(c, st);
        let lb = w.conf.lb;
        let f = match fresh(c, &st.img_post, Conf::plain(lb)) {
            Ok(s) => s,
            Err(e) => viol!("the written disk does not open: {e}"),
        };
        if matches!(st.op, Op::Write) {
            ensure!(st.post.prim == f.prim, "primary header in memory {:?}, on disk {:?}", st.post.prim, f.prim);
            ensure!(st.post.hdr == f.hdr, "header in memory {:?}, on disk {:?}", st.post.hdr, f.hdr);
            if !w.conf.ro_backup {
                ensure!(st.post.back == f.back, "backup header in memory {:?}, on disk {:?}", st.post.back, f.back);
            }
            ensure!(st.post.guid == f.guid, "GUID in memory {:02x?}, on disk {:02x?}", st.post.guid, f.guid);
            if st.pre.parts != st.post.parts {
                viol!("partitions in memory changed by writing: {}", table_diff(&st.pre.parts, &st.post.parts));
            }
            let want = st.post.packed();
            if no_os(&f.parts) != want {
                viol!("partitions in memory and on disk: {}", table_diff(&want, &no_os(&f.parts)));
            }
            ensure!(st.pre.guid == st.post.guid, "the GUID in memory changed by writing");
            // again
            let d = w.dm();
            if let Err(e) = lib(|| d.write_inplace()) {
                viol!("writing again failed: {}", gerr(&e));
            }
            let again = w.dev.image();
            let df = st.img_post.diff(&again);
            ensure!(df.is_empty(), "writing again changed bytes {:?}", &df[..df.len().min(4)]);
            let s2 = w.snap();
            ensure!(s2 == st.post, "writing again changed the state in memory: {s2:?} / {:?}", st.post);
            c.count("rewrites", 1);
        }
        // open and write back unedited
        let dev = Dev::new(st.img_post.clone());
        let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ..w.conf };
        let mut d = match lib(|| conf.config().open_from_device(dev.share())) {
            Ok(d) => d,
            Err(e) => viol!("the written disk does not open: {}", gerr(&e)),
        };
        if let Err(e) = lib(|| d.write_inplace()) {
            viol!("writing back unedited failed: {}", gerr(&e));
        }
        let df = st.img_post.diff(&dev.image());
        ensure!(df.is_empty(), "opening and writing back changed bytes {:?}", &df[..df.len().min(4)]);
        c.count("unedited_write_backs", 1);
        Ok(())
    })
}
