//! C06 to C10, C23, C24, C28: relations between an edit and its effect.
use super::rw::{check_array, fresh};
use crate::codec::{last_lba, read_copy, Guid};
use crate::ctx::{lib, Ctx, Stop, R};
use crate::dev::{Dev, Ev, Fault, Image, Plan};
use crate::world::*;
use crate::{ensure, viol};
use std::collections::BTreeMap;
use uuid::Uuid;

fn nontrivial(c: &mut Ctx, st: &Step) {
    if st.op.is_edit() {
        c.nontrivial = true;
        c.count(if st.ok() { "edits_granted" } else { "edits_refused" }, 1);
    }
}

/// `post` is `pre` except at `id`.
fn others_kept(pre: &BTreeMap<u32, P>, post: &BTreeMap<u32, P>, id: u32) -> R {
    let mut a = pre.clone();
    let mut b = post.clone();
    a.remove(&id);
    b.remove(&id);
    if a != b {
        viol!("other partitions changed: {}", table_diff(&a, &b));
    }
    Ok(())
}

fn overlap(p: &P, a: u64, b: u64) -> bool {
    p.first.min(p.last) <= b && a <= p.first.max(p.last)
}

/// ceil(size / lb)
fn blocks(size: u64, lb: u64) -> u128 {
    (u128::from(size) + u128::from(lb) - 1) / u128::from(lb)
}

/// The lowest start at which `len` blocks fit into one of the gaps.
fn lowest(g: &[(u64, u64)], len: u128, align: u64) -> Option<u64> {
    g.iter().find_map(|(a, z)| {
        let al = u128::from(align.max(1));
        let s = (u128::from(*a) + al - 1) / al * al;
        (s + len - 1 <= u128::from(*z)).then(|| s as u64)
    })
}

/// May the arrays grow to n entries on this device?
fn can_grow(s: &Snap, size: u64, n: u32) -> bool {
    let n = n.max(128).max(s.hdr.n);
    let lb = s.lb;
    let a = (u64::from(n) * 128 + lb - 1) / lb;
    let last = last_lba(size, lb);
    let fu = s.hdr.fu.max(2 + a);
    let lu = s.hdr.lu.min(last.saturating_sub(a + 1));
    fu <= lu
}

// ---------------------------------------------------------------------- C06

fn c06_step(c: &mut Ctx, w: &World, st: &Step) -> R {
    nontrivial(c, st);
    let id = match (&st.op, &st.res) {
        (Op::Add { .. } | Op::AddAt { .. }, Res::Id(i)) => *i,
        _ => return Ok(()),
    };
    c.count("additions_checked", 1);
    ensure!(id > 0, "the new partition has number 0");
    let p = match st.post.parts.get(&id) {
        Some(p) => p,
        None => viol!("partition {id} was reported but does not exist"),
    };
    if let Some(o) = st.pre.parts.get(&id) {
        ensure!(!o.used(), "used partition {id} was replaced");
    }
    others_kept(&st.pre.parts, &st.post.parts, id)?;
    let (name, ty, flags) = match &st.op {
        Op::Add { name, size, ty, flags, align } => {
            let len = u128::from(p.last) + 1 - u128::from(p.first.min(p.last));
            ensure!(
                p.first <= p.last && len == blocks(*size, w.conf.lb),
                "{size} bytes requested, partition is {}..={}",
                p.first,
                p.last
            );
            if let Some(a) = align {
                ensure!(*a == 0 || p.first % a == 0, "start {} is not a multiple of {a}", p.first);
            }
            (name, ty, flags)
        }
        Op::AddAt { name, id: rid, first, len, ty, flags } => {
            ensure!(id == *rid, "number {rid} requested, {id} given");
            ensure!(
                p.first == *first && u128::from(p.last) + 1 == u128::from(*first) + u128::from(*len),
                "{len} blocks at {first} requested, partition is {}..={}",
                p.first,
                p.last
            );
            (name, ty, flags)
        }
        _ => unreachable!(),
    };
    ensure!(&p.name == name, "name {:?} requested, is {:?}", name, p.name);
    ensure!(&p.ty == ty, "type {ty:02x?} requested, is {:02x?}", p.ty);
    ensure!(p.os == format!("{:?}", type_of(ty).os), "the label of the type changed to {}", p.os);
    ensure!(p.flags == *flags, "flags {flags:#x} requested, are {:#x}", p.flags);
    for (k, o) in st.pre.used() {
        ensure!(!overlap(o, p.first, p.last), "the new partition {}..={} overlaps partition {k} {}..={}", p.first, p.last, o.first, o.last);
    }
    let (fu, lu) = (st.post.hdr.fu, st.post.hdr.lu);
    if p.first < fu || p.last > lu {
        let m = format!("the new partition {}..={} is outside of the usable range {fu}..={lu}", p.first, p.last);
        let pre = st.pre.hdr.fu <= p.first && p.last <= st.pre.hdr.lu;
        if st.post.hdr.n > st.pre.hdr.n && pre {
            return Err(c.finding("growth-overlap", m));
        }
        viol!("{m}");
    }
    // the usable area holds no metadata: if that was so before, the new
    // partition shares no block with a header or an entry array afterwards
    let meta = |s: &Snap| -> Vec<(u64, u64, &'static str)> {
        let mut v = vec![];
        for (h, what) in [(&s.prim, "primary"), (&s.back, "backup")] {
            if let Ok(h) = h {
                let k = (u128::from(h.n) * u128::from(h.psize)).div_ceil(u128::from(s.lb)) as u64;
                v.push((h.my, h.my, what));
                v.push((h.pstart, h.pstart.saturating_add(k).saturating_sub(1), what));
            }
        }
        v
    };
    let sane = meta(&st.pre).iter().all(|(a, b, _)| *b < st.pre.hdr.fu || *a > st.pre.hdr.lu);
    if sane {
        c.count("metadata_overlap_checked", 1);
        for (a, b, what) in meta(&st.post) {
            if a <= p.last && p.first <= b {
                viol!("the new partition {}..={} lies in the {what} metadata {a}..={b}", p.first, p.last);
            }
        }
    }
    Ok(())
}

/// The listed finding: the arrays grow over the new partition (always run).
fn c06_growth(c: &mut Ctx) -> R {
    let lb = 512;
    let dev = Dev::new(Image::new(196 * lb, 0));
    let conf = Conf { writable: true, perm: true, ..Conf::plain(lb) };
    let disk = create(c, conf, dev.share())?;
    let mut w = World { disk: Some(disk), dev, conf, safe_n: 128, size: 196 * lb, start: "create" };
    let mut t = BTreeMap::new();
    for i in 0..128u64 {
        let ty = gen_type(&mut c.rng);
        t.insert(i as u32 + 1, gen_p(&mut c.rng, ty, 35 + i, 35 + i));
    }
    w.step(c, Op::Update(t))?;
    let ty = gen_type(&mut c.rng);
    let st = w.step(c, Op::Add { name: "x".into(), size: 1, ty, flags: 0, align: None })?;
    c06_step(c, &w, &st)
}

pub fn c06(c: &mut Ctx) -> R {
    if c.index % 997 == 3 {
        return c06_growth(c);
    }
    let b = Bias { writes: 8, full: 20, perm: 35, wild: true, ..Bias::default() };
    history(c, b, 25, |c, w, st| c06_step(c, w, st))
}

// ---------------------------------------------------------------------- C07

fn c07_step(c: &mut Ctx, w: &World, st: &Step) -> R {
    nontrivial(c, st);
    let s = &st.pre;
    let g = gaps(s.hdr.fu, s.hdr.lu, &s.parts);
    let used = s.n_used();
    // (room, number free, needed count)
    let (fits, taken, need, start) = match &st.op {
        Op::Add { size, align, .. } => {
            let start = lowest(&g, blocks(*size, s.lb), align.unwrap_or(0));
            let free = (1..=s.hdr.n).find(|i| !s.parts.get(i).map_or(false, |p| p.used()));
            let need = free.unwrap_or_else(|| s.hdr.n.saturating_add(1)).max(used + 1);
            (start.is_some(), false, need, start)
        }
        Op::AddAt { id, first, len, .. } => {
            let z = u128::from(*first) + u128::from(*len) - 1;
            let fits = g.iter().any(|(a, b)| a <= first && z <= u128::from(*b));
            let taken = s.parts.get(id).map_or(false, |p| p.used());
            (fits, taken, (*id).max(used + 1), Some(*first))
        }
        _ => return Ok(()),
    };
    let grows = need > s.hdr.n;
    let count_ok = !grows || (w.conf.perm && can_grow(s, w.size, used + 1));
    if fits && !taken && count_ok {
        c.count("must_be_granted", 1);
        if let Some(e) = st.err() {
            viol!("the request fits (gaps {:?}, {} of {} entries) but was refused: {e}", &g[..g.len().min(8)], used, s.hdr.n);
        }
        if let (Op::Add { size, align, .. }, Res::Id(i)) = (&st.op, &st.res) {
            let p = st.post.parts.get(i);
            let p = match p {
                Some(p) => p,
                None => viol!("partition {i} was reported but does not exist"),
            };
            let mut ok = vec![start];
            if grows {
                // the range may have been reduced first
                let g2 = gaps(st.post.hdr.fu, st.post.hdr.lu, &s.parts);
                ok.push(lowest(&g2, blocks(*size, s.lb), align.unwrap_or(0)));
            }
            ensure!(ok.contains(&Some(p.first)), "placed at {}, the lowest suitable start is {:?}", p.first, start);
            c.count("placements_checked", 1);
        }
        return Ok(());
    }
    c.count("must_be_refused", 1);
    let e = match st.err() {
        Some(e) => e,
        None => viol!("granted although room: {fits}, number taken: {taken}, entry count allows: {count_ok}"),
    };
    let mut apply: Vec<&str> = vec![];
    if !fits {
        apply.push("NotEnoughSpace");
    }
    if taken {
        apply.push("PartitionIdAlreadyUsed");
    }
    if !count_ok {
        apply.extend(["PartitionCountWouldChange", "OverflowPartitionCount"]);
        if w.conf.perm {
            apply.extend(["Header(BackupLbaToEarly)", "NotEnoughSpace", "Header(Overflow)", "Overflow"]);
        }
    }
    ensure!(apply.contains(&e), "refused with {e}, applicable would be {apply:?}");
    Ok(())
}

/// A disk whose usable range has `k` blocks, from `fu` on.
fn small_disk(c: &mut Ctx, lb: u64, fu: u64, k: u64) -> R<World> {
    // own header through the builder of the harness: a foreign layout
    let last = fu + k + 34 + 2;
    let mut f = gen_foreign(&mut c.rng, lb, false, 128);
    f.img = Image::new((last + 1) * lb, 0);
    let a = (128 * 128 + lb - 1) / lb;
    let array = vec![0u8; 128 * 128];
    f.prim.n = 128;
    f.prim.pstart = 2;
    f.prim.alt = last;
    f.prim.fu = fu;
    f.prim.lu = fu + k - 1;
    f.prim.pcrc = crate::codec::crc32(&array);
    f.back = f.prim.clone();
    f.back.my = last;
    f.back.alt = 1;
    f.back.pstart = last - a;
    let mut blk = vec![0u8; lb as usize];
    blk[..92].copy_from_slice(&f.prim.encode());
    f.img.put(lb, &blk);
    blk[..92].copy_from_slice(&f.back.encode());
    f.img.put(last * lb, &blk);
    f.img.put(2 * lb, &array);
    f.img.put((last - a) * lb, &array);
    let conf = Conf { writable: true, ..Conf::plain(lb) };
    let dev = Dev::new(f.img);
    let size = (last + 1) * lb;
    match lib(|| conf.config().open_from_device(dev.share())) {
        Ok(d) => Ok(World { disk: Some(d), dev, conf, safe_n: 128, size, start: "small" }),
        Err(e) => viol!("a well-formed disk does not open: {}", gerr(&e)),
    }
}

/// Occupy the blocks of `mask` with partitions; runs are one partition or
/// one per block.
fn occupy(c: &mut Ctx, w: &mut World, fu: u64, k: u64, mask: u64) -> R {
    let mut t = BTreeMap::new();
    let mut id = 1;
    let mut i = 0;
    while i < k {
        if mask >> i & 1 == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j + 1 < k && mask >> (j + 1) & 1 == 1 && c.rng.chance(1, 2) {
            j += 1;
        }
        let ty = gen_type(&mut c.rng);
        t.insert(id, gen_p(&mut c.rng, ty, fu + i, fu + j));
        id += 1;
        i = j + 1;
    }
    // numbers in an order independent of the position
    let mut v: Vec<P> = t.into_values().collect();
    for i in (1..v.len()).rev() {
        let j = c.rng.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    let t = v.into_iter().enumerate().map(|(i, p)| (i as u32 + 1, p)).collect();
    let st = w.step(c, Op::Update(t))?;
    match st.err() {
        Some(e) => viol!("update_partitions failed: {e}"),
        None => Ok(()),
    }
}

const SMALL: u64 = 7;

pub fn c07(c: &mut Ctx) -> R {
    // every occupancy of a usable range of 7 blocks, every size and alignment
    if c.index < 2 << SMALL {
        let (mask, lb) = (c.index >> 1, if c.index & 1 == 0 { 512 } else { 4096 });
        let fu = 34 + c.rng.below(5);
        let mut w = small_disk(c, lb, fu, SMALL)?;
        occupy(c, &mut w, fu, SMALL, mask)?;
        let base = w.disk.take().unwrap();
        for blocks in 1..=SMALL + 1 {
            for align in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(fu + 3)] {
                for size in [blocks * lb, (blocks - 1) * lb + 1] {
                    w.disk = Some(with_dev(&base, w.dev.share(), true));
                    let ty = gen_type(&mut c.rng);
                    let st = w.step(c, Op::Add { name: "n".into(), size, ty, flags: 0, align })?;
                    c07_step(c, &w, &st).map_err(|e| at(e, &st))?;
                    c06_step(c, &w, &st).map_err(|e| at(e, &st))?;
                }
            }
        }
        for first in fu - 2..fu + SMALL + 2 {
            for len in 1..=SMALL + 1 {
                w.disk = Some(with_dev(&base, w.dev.share(), true));
                let ty = gen_type(&mut c.rng);
                let st = w.step(c, Op::AddAt { name: "n".into(), id: 100, first, len, ty, flags: 0 })?;
                c07_step(c, &w, &st).map_err(|e| at(e, &st))?;
            }
        }
        c.count("exhaustive_occupancies", 1);
        return Ok(());
    }
    let b = Bias { writes: 5, full: 30, perm: 35, wild: true, ..Bias::default() };
    history(c, b, 25, |c, w, st| c07_step(c, w, st))
}

fn at(e: Stop, st: &Step) -> Stop {
    match e {
        Stop::Violation(m) => Stop::Violation(format!("{m}\n  at: {}", st.op.short())),
        e => e,
    }
}

fn with_dev(d: &Disk, dev: Dev, writable: bool) -> Disk {
    lib(|| d.with_disk_device(dev, writable))
}

// ---------------------------------------------------------------------- C08

fn c08_step(c: &mut Ctx, _w: &World, st: &Step) -> R {
    let free: Vec<(u64, u64)> = match &st.query {
        Some(q) => q.free.clone(),
        None => {
            let d = _w.d();
            lib(|| d.find_free_sectors())
        }
    };
    let s = &st.post;
    let want: Vec<(u64, u64)> =
        gaps(s.hdr.fu, s.hdr.lu, &s.parts).iter().map(|(a, z)| (*a, (*z - *a).saturating_add(1))).collect();
    if free != want {
        viol!(
            "usable {}..={}, used {:?}: reported {:?}, free (start, length) is {:?}",
            s.hdr.fu,
            s.hdr.lu,
            s.used().map(|(_, p)| (p.first, p.last)).take(12).collect::<Vec<_>>(),
            &free[..free.len().min(12)],
            &want[..want.len().min(12)]
        );
    }
    c.nontrivial |= s.n_used() > 0;
    c.count("reports_checked", 1);
    match want.len() {
        0 => c.count("full_disks", 1),
        1 => {}
        _ => c.count("several_gaps", 1),
    }
    let u: Vec<&P> = s.used().map(|(_, p)| p).collect();
    if u.len() <= 20 {
        for i in 0..u.len() {
            for j in 0..i {
                if overlap(u[i], u[j].first.min(u[j].last), u[j].first.max(u[j].last)) {
                    c.count("overlapping_pairs", 1);
                }
            }
        }
    }
    if u.iter().any(|p| p.first.max(p.last) > s.hdr.lu || p.first.min(p.last) < s.hdr.fu) {
        c.count("reaching_outside", 1);
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) -> R {
    if c.index < 2 << SMALL {
        let (mask, lb) = (c.index >> 1, if c.index & 1 == 0 { 512 } else { 4096 });
        let fu = 34 + c.rng.below(5);
        let mut w = small_disk(c, lb, fu, SMALL)?;
        occupy(c, &mut w, fu, SMALL, mask)?;
        let st = w.step(c, Op::Query)?;
        c.count("exhaustive_occupancies", 1);
        return c08_step(c, &w, &st);
    }
    if c.index % 4 == 1 {
        // two or three intervals in any relation to each other and to the range
        let lb = 512;
        let fu = 34 + c.rng.below(5);
        let k = c.rng.range(1, 12);
        let mut w = small_disk(c, lb, fu, k)?;
        for _ in 0..12 {
            let mut t = BTreeMap::new();
            let n = c.rng.range(1, 5);
            for i in 0..n {
                let a = fu - 4 + c.rng.below(k + 8);
                let b = fu - 4 + c.rng.below(k + 8);
                let b = if c.rng.chance(1, 12) { u64::MAX } else { b };
                let a = if c.rng.chance(1, 12) { 0 } else { a };
                let (a, b) = if c.rng.chance(19, 20) { (a.min(b), a.max(b)) } else { (a, b) };
                let ty = if c.rng.chance(1, 6) { [0; 16] } else { gen_type(&mut c.rng) };
                t.insert(i as u32 + 1, gen_p(&mut c.rng, ty, a, b));
            }
            let st = w.step(c, Op::Update(t))?;
            c08_step(c, &w, &st)?;
        }
        return Ok(());
    }
    let b = Bias { writes: 8, full: 20, perm: 30, wild: true, ro_backup: 5, ..Bias::default() };
    history(c, b, 25, |c, w, st| c08_step(c, w, st))
}

// ---------------------------------------------------------------------- C09

pub fn c09(c: &mut Ctx) -> R {
    let b = Bias { writes: 12, full: 45, perm: 45, wild: true, vast: true, ..Bias::default() };
    history(c, b, 25, |c, w, st| {
        nontrivial(c, st);
        let (s, t) = (&st.pre, &st.post);
        let next = (1..=t.hdr.n).find(|i| !t.parts.get(i).map_or(false, |p| p.used()));
        let d = w.d();
        let got = lib(|| d.find_next_partition_id());
        ensure!(got == next, "next free number reported {got:?}, is {next:?} ({} entries)", t.hdr.n);
        c.count("next_numbers_checked", 1);
        if next.is_none() {
            c.count("full_entry_arrays", 1);
        }
        let grow = |n: u32| n > s.hdr.n;
        match (&st.op, &st.res) {
            (Op::Add { .. }, Res::Id(i)) => {
                let free = (1..=s.hdr.n).find(|i| !s.parts.get(i).map_or(false, |p| p.used()));
                let want = free.unwrap_or(s.hdr.n + 1);
                ensure!(*i == want, "number {i} given, the lowest free one is {want}");
            }
            (Op::AddAt { id, .. }, Res::Id(i)) => ensure!(i == id, "number {id} requested, {i} given"),
            _ => {}
        }
        if let (Op::Add { .. } | Op::AddAt { .. }, Res::Id(i)) = (&st.op, &st.res) {
            ensure!(!s.parts.get(i).map_or(false, |p| p.used()), "used partition {i} was replaced");
            for (k, p) in s.used() {
                ensure!(t.parts.get(k) == Some(p), "partition {k} was changed");
            }
            ensure!(w.conf.perm || !grow((*i).max(s.n_used() + 1)), "needs more than {} entries but was not refused", s.hdr.n);
        }
        if let Op::Update(m) = &st.op {
            if grow(m.len() as u32) && !w.conf.perm {
                ensure!(
                    st.err() == Some("PartitionCountWouldChange"),
                    "{} entries for a count of {}: not refused with the count error",
                    m.len(),
                    s.hdr.n
                );
                c.count("growth_refused", 1);
            } else if m.len() as u32 <= s.hdr.n {
                ensure!(st.ok(), "an update which fits {} entries was refused", s.hdr.n);
            }
        }
        if let (Op::Add { size, align, .. }, Some(e)) = (&st.op, st.err()) {
            let full = (1..=s.hdr.n).all(|i| s.parts.get(&i).map_or(false, |p| p.used())) || grow(s.n_used() + 1);
            let g = gaps(s.hdr.fu, s.hdr.lu, &s.parts);
            if full && !w.conf.perm && lowest(&g, blocks(*size, s.lb), align.unwrap_or(0)).is_some() {
                ensure!(e == "PartitionCountWouldChange" , "refused with {e} instead of the count error");
                c.count("growth_refused", 1);
            } else if !full {
                ensure!(e != "PartitionCountWouldChange", "refused with the count error while an entry is free");
            }
        }
        if let (Op::AddAt { id, first, len, .. }, Some(e)) = (&st.op, st.err()) {
            let z = u128::from(*first) + u128::from(*len) - 1;
            let fits = gaps(s.hdr.fu, s.hdr.lu, &s.parts).iter().any(|(a, b)| a <= first && z <= u128::from(*b));
            let taken = s.parts.get(id).map_or(false, |p| p.used());
            if fits && !taken && !w.conf.perm && grow((*id).max(s.n_used() + 1)) {
                ensure!(e == "PartitionCountWouldChange", "refused with {e} instead of the count error");
                c.count("growth_refused", 1);
            }
        }
        // the count
        if !matches!(st.op, Op::Reopen) {
            for (a, b) in [
                (Ok(s.hdr.n), Ok(t.hdr.n)),
                (s.prim.as_ref().map(|h| h.n).map_err(|_| ()), t.prim.as_ref().map(|h| h.n).map_err(|_| ())),
                (s.back.as_ref().map(|h| h.n).map_err(|_| ()), t.back.as_ref().map(|h| h.n).map_err(|_| ())),
            ] {
                if let (Ok(a), Ok(b)) = (a, b) {
                    if !w.conf.perm && a != b && !(w.conf.ro_backup || s.hdr.n != a) {
                        viol!("the entry count changed from {a} to {b} without permission");
                    }
                }
            }
            ensure!(w.conf.perm || s.hdr.n == t.hdr.n, "the entry count changed from {} to {} without permission", s.hdr.n, t.hdr.n);
            ensure!(t.hdr.n >= s.hdr.n, "the entry count shrank from {} to {}", s.hdr.n, t.hdr.n);
            if t.hdr.n > s.hdr.n {
                c.count("growths", 1);
            }
        }
        ensure!(t.hdr.n >= 128, "the entry count is {}", t.hdr.n);
        if st.op.is_edit() && st.ok() {
            ensure!(t.n_used() <= t.hdr.n, "{} partitions for a count of {}", t.n_used(), t.hdr.n);
        }
        if st.wrote() {
            match read_copy(&st.img_post, w.conf.lb, 1) {
                Ok(p) => ensure!(p.h.n == s.hdr.n, "the count is {} but {} was recorded", s.hdr.n, p.h.n),
                Err(e) => viol!("no primary after the write: {e}"),
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------- C10

/// A later write on an independent copy works.
fn later_write(c: &mut Ctx, w: &World, s: &Snap, img: &Image) -> R {
    let dev = Dev::new(img.clone());
    let mut d = with_dev(w.d(), dev.share(), true);
    let res = lib(|| d.write_inplace());
    if s.n_used() > s.hdr.n {
        ensure!(res.is_err(), "{} partitions were written into {} entries", s.n_used(), s.hdr.n);
        ensure!(dev.image().same(img), "a write which cannot hold the partitions changed the device");
        return Ok(());
    }
    if let Err(e) = res {
        viol!("a later write fails: {}", gerr(&e));
    }
    match fresh(c, &dev.image(), Conf::plain(w.conf.lb)) {
        Ok(f) => {
            let want = s.packed();
            if no_os(&f.parts) != want {
                viol!("a later write reads back differently: {}", table_diff(&want, &no_os(&f.parts)));
            }
            ensure!(f.guid == s.guid, "a later write records another GUID");
        }
        Err(e) => viol!("after a later write the disk does not open: {e}"),
    }
    c.count("later_writes", 1);
    Ok(())
}

/// Sizes, lengths and numbers which are zero are refused, however, and nothing else happens.
fn argument_error(c: &mut Ctx, w: &mut World) -> R {
    if w.disk.is_none() {
        return Ok(());
    }
    let pre = w.snap();
    let img = w.dev.image();
    let free = lib(|| w.d().find_free_sectors());
    let at = free.first().map_or(pre.hdr.fu, |f| f.0);
    let id = (1..300).find(|i| !pre.parts.contains_key(i)).unwrap_or(7);
    let which = c.rng.below(4);
    let ty = gpt::partition_types::LINUX_FS;
    let align = if c.rng.chance(1, 2) { Some(1 << c.rng.below(12)) } else { None };
    let mut t = w.d().partitions().clone();
    t.insert(0, t.values().next().cloned().unwrap_or_else(gpt::partition::Partition::zero));
    let accepted = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let d = w.dm();
        match which {
            0 => lib(|| d.add_partition("x", 0, ty, 0, align).is_ok()),
            1 => lib(|| d.add_partition_at("x", id, at, 0, ty, 0).is_ok()),
            2 => lib(|| d.add_partition_at("x", 0, at, 1, ty, 0).is_ok()),
            _ => lib(|| d.update_partitions(t).is_ok()),
        }
    }))
    .unwrap_or(false);
    let what = ["a size of zero", "a length of zero", "number zero", "a table with number zero"][which as usize];
    ensure!(!accepted, "{what} is accepted");
    ensure!(w.snap() == pre, "{what}: refused, but the partitions or headers changed");
    ensure!(w.dev.image().same(&img), "{what}: refused, but the device changed");
    c.count("argument_errors", 1);
    later_write(c, w, &pre, &img)
}

/// Writes refused as the device became too small leave everything as it was.
fn c10_shrunk(c: &mut Ctx) -> R {
    let b = Bias { writes: 12, full: 20, perm: 45, ro_backup: 15, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    for _ in 0..c.rng.range(1, 6) {
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            Op::Take | Op::Reopen | Op::WriteConsume => Op::Query,
            o => o,
        };
        w.step(c, op)?;
    }
    let img = w.dev.image();
    let size = match c.rng.below(4) {
        0 => img.size - 1 - c.rng.below(8192.min(img.size - 1)),
        1 => c.rng.below(200_000.min(img.size)),
        2 => c.rng.below(40_000.min(img.size)),
        _ => c.rng.below(img.size),
    };
    // the sizes matter here, not the contents
    let small = Dev::new(Image::new(size, 5));
    let pre = w.snap();
    let before = small.image();
    drop(lib(|| w.dm().update_disk_device(small.share(), true)));
    let edit = c.rng.chance(1, 3);
    c.note(format!("the device is replaced by one of {size} bytes, was {}", img.size));
    let res = lib(|| {
        if edit {
            let t = w.dm().partitions().clone();
            w.dm().update_partitions(t)
        } else {
            w.dm().write_inplace()
        }
    });
    c.nontrivial = true;
    let Err(e) = res else {
        c.count("accepted_on_the_smaller_device", 1);
        return Ok(());
    };
    let e = gerr(&e);
    c.count("refusals_on_a_smaller_device", 1);
    let post = w.snap();
    ensure!(post == pre, "refused with {e}, but the state changed: {pre:?} -> {post:?}");
    ensure!(small.image().same(&before), "refused with {e}, but the device changed");
    later_write(c, &w, &pre, &img)
}

pub fn c10(c: &mut Ctx) -> R {
    if c.index % 19 == 7 {
        return c10_shrunk(c);
    }
    let b = Bias { writes: 12, full: 40, perm: 45, wild: true, readonly: 25, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    let n = c.rng.range(1, 20);
    for _ in 0..n {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        // the device may fail while an edit asks for its size
        let mut faulty = false;
        if op.is_edit() && c.rng.chance(1, 3) {
            faulty = true;
            let plan = Plan {
                at: c.rng.below(4),
                fault: Fault::Error(std::io::ErrorKind::Other),
                persistent: c.rng.chance(1, 2),
            };
            w.dev.set_plan(Some(plan));
        }
        let st = w.step(c, op);
        let hits = w.dev.inner.borrow().hits.len();
        w.dev.set_plan(None);
        let st = st?;
        if hits > 0 {
            c.count("device_faults_in_edits", 1);
        }
        nontrivial(c, &st);
        let nothing = matches!(st.res, Res::OptId(None));
        if st.err().is_some() || nothing {
            let r = (|| -> R {
                if matches!(st.op, Op::Reopen) {
                    return Ok(());
                }
                c.count("refusals_checked", 1);
                ensure!(st.pre.guid == st.post.guid, "the GUID changed");
                if st.pre.parts != st.post.parts {
                    viol!("the partitions changed: {}", table_diff(&st.pre.parts, &st.post.parts));
                }
                ensure!(st.pre == st.post, "headers changed: {:?} -> {:?}", st.pre, st.post);
                ensure!(st.img_pre.same(&st.img_post), "the device changed");
                ensure!(st.device_writes() == 0, "the device was written");
                later_write(c, &w, &st.post, &st.img_post)
            })();
            r.map_err(|e| at(e, &st))?;
            let _ = faulty;
        }
        if c.rng.chance(1, 12) {
            argument_error(c, &mut w)?;
        }
        if st.op.is_write() && w.conf.writable && st.pre.n_used() > st.pre.hdr.n {
            ensure!(!st.ok(), "{} partitions were written into {} entries", st.pre.n_used(), st.pre.hdr.n);
        }
        w.safe_n = w.safe_n.min(w.snap().hdr.n);
    }
    Ok(())
}

// ---------------------------------------------------------------------- C23

fn random_guid(what: &str, g: &Guid) -> R {
    ensure!(g != &[0; 16], "{what}: the generated GUID is nil");
    ensure!(g[6] >> 4 == 4 && g[8] >> 6 == 2, "{what}: generated GUID {g:02x?} is not a random (version 4) one");
    Ok(())
}

pub fn c23(c: &mut Ctx) -> R {
    let b = Bias { writes: 30, ro_backup: 8, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    let mut made: Vec<Guid> = std::mem::take(&mut c.generated);
    let n = c.rng.range(1, 18);
    for _ in 0..n {
        let s = w.snap();
        let op = match c.rng.below(6) {
            0 => {
                let g = c.rng.guid();
                Op::SetGuid(Some(*c.rng.pick(&[g, g, [0; 16], [0xff; 16], [9; 16]])))
            }
            1 => Op::SetGuid(None),
            _ => gen_op(&mut c.rng, &s, &b),
        };
        let st = w.step(c, op)?;
        made.append(&mut c.generated);
        let r = (|| -> R {
            match &st.op {
                Op::SetGuid(Some(g)) => {
                    c.nontrivial = true;
                    c.count("guids_set", 1);
                    ensure!(&st.post.guid == g, "GUID {g:02x?} set, reported {:02x?}", st.post.guid);
                    ensure!(st.pre.parts == st.post.parts, "setting the GUID changed the partitions");
                }
                Op::SetGuid(None) => {
                    c.nontrivial = true;
                    c.count("guids_generated", 1);
                    random_guid("update_guid", &st.post.guid)?;
                    made.push(st.post.guid);
                }
                Op::Reopen => {}
                _ => ensure!(
                    st.pre.guid == st.post.guid,
                    "the GUID changed from {:02x?} to {:02x?}",
                    st.pre.guid,
                    st.post.guid
                ),
            }
            if let (Op::Add { .. } | Op::AddAt { .. }, Res::Id(i)) = (&st.op, &st.res) {
                let p = &st.post.parts[i];
                random_guid("a new partition", &p.id)?;
                made.push(p.id);
                c.count("partition_guids_generated", 1);
            }
            if st.wrote() {
                let lb = w.conf.lb;
                let copies: &[(&str, u64)] = if w.conf.ro_backup {
                    &[("primary", 1)]
                } else {
                    &[("primary", 1), ("backup", last_lba(st.img_post.size, lb))]
                };
                for (what, at) in copies {
                    match read_copy(&st.img_post, lb, *at) {
                        Ok(h) => ensure!(
                            h.h.guid == st.pre.guid,
                            "GUID {:02x?} in memory, the {what} header records {:02x?}",
                            st.pre.guid,
                            h.h.guid
                        ),
                        Err(e) => viol!("{what} copy after a write: {e}"),
                    }
                }
                ensure!(st.post.hdr.guid == st.post.guid, "header() reports GUID {:02x?} after a write", st.post.hdr.guid);
                // the partition GUIDs persist
                let ids: Vec<Guid> = st.pre.used().map(|(_, p)| p.id).collect();
                match fresh(c, &st.img_post, Conf::plain(lb)) {
                    Ok(f) => {
                        let got: Vec<Guid> = f.parts.values().map(|p| p.id).collect();
                        ensure!(ids == got, "partition GUIDs {ids:02x?} read back as {got:02x?}");
                        ensure!(f.guid == st.pre.guid, "disk GUID reads back as {:02x?}", f.guid);
                    }
                    Err(e) => viol!("the written disk does not open: {e}"),
                }
                c.count("writes_checked", 1);
            } else if !matches!(st.op, Op::Reopen) {
                // nothing else changes the GUID of a partition
                for (k, p) in &st.post.parts {
                    if let (Some(o), false) = (st.pre.parts.get(k), matches!(st.op, Op::Update(_) | Op::AddAt { .. } | Op::Add { .. })) {
                        ensure!(o.id == p.id, "the GUID of partition {k} changed");
                    }
                }
            }
            Ok(())
        })();
        r.map_err(|e| at(e, &st))?;
    }
    // other places which generate
    let b = lib(|| gpt::header::HeaderBuilder::new().backup_lba(1 << 20).build(w.conf.lbs()));
    if let Ok(h) = b {
        let g = *h.disk_guid.as_bytes();
        random_guid("HeaderBuilder::new", &g)?;
        made.push(g);
    }
    let size = w.size;
    let conf = Conf { writable: true, ..w.conf };
    for g in [None, Some(c.rng.guid()), Some([0; 16])] {
        let d = lib(|| conf.config().create_from_device(Dev::new(Image::new(size, 0)), g.map(Uuid::from_bytes)));
        let d = match d {
            Ok(d) => d,
            Err(e) => viol!("create_from_device failed: {}", gerr(&e)),
        };
        let s = snap(&d);
        match g {
            Some(g) => {
                ensure!(s.guid == g, "created with GUID {g:02x?}, reported {:02x?}", s.guid);
                ensure!(s.hdr.guid == g, "created with GUID {g:02x?}, the header has {:02x?}", s.hdr.guid);
            }
            None => {
                random_guid("create_from_device", &s.guid)?;
                made.push(s.guid);
            }
        }
    }
    let mut sorted = made.clone();
    sorted.sort_unstable();
    for p in sorted.windows(2) {
        ensure!(p[0] != p[1], "GUID {:02x?} was generated twice", p[0]);
    }
    c.generated = made;
    Ok(())
}

// ---------------------------------------------------------------------- C24

/// Edit and write `w` for a while without judging the steps.
fn disturb(c: &mut Ctx, w: &mut World, k: u64, write: bool) -> R {
    let b = Bias { writes: 15, wild: false, ..Bias::default() };
    for _ in 0..k {
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            // keep the disk object itself
            Op::CloneSwap | Op::Reopen | Op::WriteConsume => Op::Query,
            Op::Write if !write => Op::Query,
            o => o,
        };
        w.step(c, op)?;
    }
    if write {
        w.step(c, Op::Write)?;
    }
    Ok(())
}

fn debug_of(d: &Disk) -> String {
    lib(|| format!("{d:?}"))
}

pub fn c24(c: &mut Ctx) -> R {
    let b = Bias { writes: 15, readonly: 20, perm: 40, ro_backup: 20, full: 25, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    let k = c.rng.below(8);
    disturb(c, &mut w, k, false)?;
    let base = w.snap();
    let dbg = debug_of(w.d());
    let img = w.dev.image();
    w.dev.take_log();
    c.nontrivial = !base.parts.is_empty();
    let kind = c.rng.below(3);
    let writable = if kind == 0 { w.conf.writable } else { c.rng.chance(2, 3) };
    c.note(format!("copy kind {kind}, writable {writable}, {} partitions", base.parts.len()));
    // make the copy on its own device of the same size
    let (copy, cdev, cimg) = match kind {
        0 => {
            let d = lib(|| w.d().clone());
            let dev = lib(|| d.device_ref()).share();
            ensure!(!std::rc::Rc::ptr_eq(&dev.inner, &w.dev.inner), "the clone shares the device");
            let i = dev.image();
            ensure!(i.same(&img), "the device of a clone differs");
            (d, dev, i)
        }
        1 => {
            let other = match c.rng.below(3) {
                0 => Image::new(img.size, 0),
                1 => Image::new(img.size, c.rng.next() | 1),
                _ => img.clone(),
            };
            let dev = Dev::new(other.clone());
            (with_dev(w.d(), dev.share(), writable), dev, other)
        }
        _ => {
            let other = match c.rng.below(2) {
                0 => Image::new(img.size, c.rng.next() | 1),
                _ => img.clone(),
            };
            let dev = Dev::new(other.clone());
            let mut d = lib(|| w.d().clone());
            let tmp = lib(|| d.device_ref()).share();
            let timg = tmp.image();
            let given = dev.share();
            let got = lib(|| d.update_disk_device(given, writable));
            ensure!(std::rc::Rc::ptr_eq(&got.inner, &tmp.inner), "update_disk_device returned another device");
            ensure!(got.image().same(&timg), "the returned device was changed");
            ensure!(!got.take_log().iter().any(|e| matches!(e, Ev::Write { .. })), "the returned device was written");
            (d, dev, other)
        }
    };
    c.count("copies_made", 1);
    let cs = snap(&copy);
    ensure!(cs == base, "the copy differs: {cs:?} / {base:?}");
    // the details of the error of an unreadable header are not kept
    let want_dbg = if writable == w.conf.writable && !dbg.contains("Io(") { dbg.clone() } else { String::new() };
    if !want_dbg.is_empty() {
        let d = debug_of(&copy);
        ensure!(d == want_dbg, "the copy reports {d}\n  the original {want_dbg}");
    }
    ensure!(cdev.image().same(&cimg), "copying changed the other device");
    ensure!(w.dev.image().same(&img), "copying changed the original device");
    let conf = Conf { writable, ..w.conf };
    let mut cw = World { disk: Some(copy), dev: cdev, conf, safe_n: w.safe_n, size: w.size, start: "copy" };
    // the configuration is carried over: writability, growth, read-only backup
    {
        let st = {
            let probe_dev = Dev::new(cimg.clone());
            let d = with_dev(cw.d(), probe_dev.share(), writable);
            let mut p = World { disk: Some(d), dev: probe_dev, conf, safe_n: w.safe_n, size: w.size, start: "probe" };
            let grow: BTreeMap<u32, P> =
                (1..=base.hdr.n + 1).map(|i| (i, gen_p(&mut c.rng, [0; 16], 0, 0))).collect();
            let keep = p.snap().parts;
            let st = p.step(c, Op::Update(grow))?;
            let refused = st.err() == Some("PartitionCountWouldChange");
            ensure!(refused != w.conf.perm, "permission to change the count is {} but growth was {:?}", w.conf.perm, st.res);
            if st.ok() {
                p.step(c, Op::Update(keep))?;
            }
            let st = p.step(c, Op::Write)?;
            ensure!(st.ok() == writable, "made with writable {writable}: write gave {:?}", st.res);
            if w.conf.ro_backup {
                let last = last_lba(cimg.size, conf.lb) * conf.lb;
                ensure!(
                    cimg.get(last, conf.lb as usize) == p.dev.image().get(last, conf.lb as usize),
                    "a copy with a read-only backup wrote the backup header"
                );
            }
            st
        };
        let _ = st;
    }
    if writable && base.n_used() <= base.hdr.n {
        // written to the other device it reads back with the same table
        let dev = Dev::new(cimg.clone());
        let mut d = with_dev(cw.d(), dev.share(), true);
        if let Err(e) = lib(|| d.write_inplace()) {
            viol!("writing to the other device failed: {}", gerr(&e));
        }
        match fresh(c, &dev.image(), Conf::plain(conf.lb)) {
            Ok(f) => {
                let want = base.packed();
                if no_os(&f.parts) != want {
                    viol!("from the other device: {}", table_diff(&want, &no_os(&f.parts)));
                }
                ensure!(f.guid == base.guid, "from the other device: GUID {:02x?}", f.guid);
            }
            Err(e) => viol!("the other device does not open: {e}"),
        }
        c.count("written_to_other_devices", 1);
    }
    // independence, both ways
    let k = c.rng.range(1, 8);
    disturb(c, &mut cw, k, true)?;
    let s = w.snap();
    ensure!(s == base, "edits on the copy changed the original: {s:?} / {base:?}");
    ensure!(debug_of(w.d()) == dbg, "edits on the copy changed the original's configuration");
    ensure!(w.dev.image().same(&img), "edits on the copy changed the original's device");
    ensure!(
        !w.dev.take_log().iter().any(|e| matches!(e, Ev::Write { .. } | Ev::Oob { .. })),
        "edits on the copy wrote to the original's device"
    );
    let (cs, ci) = (cw.snap(), cw.dev.image());
    let cdbg = debug_of(cw.d());
    cw.dev.take_log();
    let k = c.rng.range(1, 8);
    disturb(c, &mut w, k, true)?;
    let s = cw.snap();
    ensure!(s == cs, "edits on the original changed the copy: {s:?} / {cs:?}");
    ensure!(debug_of(cw.d()) == cdbg, "edits on the original changed the copy's configuration");
    ensure!(cw.dev.image().same(&ci), "edits on the original changed the copy's device");
    // replacing and taking the device
    let di = w.dev.image();
    w.dev.take_log();
    let spare = Dev::new(Image::new(w.size, 0));
    let d = w.dm();
    let given = spare.share();
    let old = lib(|| d.update_disk_device(given, false));
    ensure!(std::rc::Rc::ptr_eq(&old.inner, &w.dev.inner), "update_disk_device returned another device");
    ensure!(
        !old.take_log().iter().any(|e| matches!(e, Ev::Write { .. } | Ev::Oob { .. })) && old.image().same(&di),
        "update_disk_device changed the previous device"
    );
    ensure!(spare.take_log().is_empty(), "update_disk_device used the new device");
    let d = w.dm();
    match lib(|| d.write_inplace()).map_err(|e| gerr(&e)) {
        Err(e) if e == "ReadOnly" => {}
        r => viol!("given a device as not writable, the write gave {r:?}"),
    }
    let d = w.disk.take().unwrap();
    let t = lib(|| d.take_device());
    ensure!(std::rc::Rc::ptr_eq(&t.inner, &spare.inner), "take_device returned another device");
    Ok(())
}

// ---------------------------------------------------------------------- C28

pub fn c28(c: &mut Ctx) -> R {
    let b = Bias { writes: 20, full: 10, wild: true, ro_backup: 8, vast: true, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    let n = c.rng.range(1, 22);
    for _ in 0..n {
        let s = w.snap();
        let ids: Vec<u32> = s.parts.keys().copied().collect();
        let op = match c.rng.below(8) {
            0 | 1 if !ids.is_empty() => Op::Remove(*c.rng.pick(&ids)),
            2 if !ids.is_empty() => {
                let i = *c.rng.pick(&ids);
                Op::RemoveGuid(s.parts[&i].id)
            }
            3 if s.hdr.fu <= s.hdr.lu => {
                // several partitions with the same GUID
                let mut t = gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 8, s.hdr.n, true);
                let g = c.rng.guid();
                for p in t.values_mut() {
                    if c.rng.chance(1, 2) {
                        p.id = g;
                    }
                }
                if c.rng.chance(1, 6) {
                    for p in t.values_mut() {
                        if c.rng.chance(1, 2) {
                            p.id = [0; 16];
                        }
                    }
                }
                Op::Update(t)
            }
            _ => gen_op(&mut c.rng, &s, &b),
        };
        let st = w.step(c, op)?;
        let r = (|| -> R {
            let (pre, post) = (&st.pre.parts, &st.post.parts);
            let mut want = pre.clone();
            match (&st.op, &st.res) {
                (Op::Remove(i), r) => {
                    let had = want.remove(i).is_some();
                    let exp = Res::OptId(if had { Some(*i) } else { None });
                    ensure!(*r == exp, "returned {r:?}, should be {exp:?}");
                    c.nontrivial |= had;
                    c.count(if had { "removed" } else { "nothing_to_remove" }, 1);
                }
                (Op::RemoveGuid(g), r) => {
                    let holders: Vec<u32> = pre.iter().filter(|(_, p)| &p.id == g).map(|(k, _)| *k).collect();
                    let first = holders.first().copied();
                    if let Some(i) = first {
                        want.remove(&i);
                    }
                    ensure!(*r == Res::OptId(first), "returned {r:?}, should be {first:?}");
                    c.nontrivial |= first.is_some();
                    c.count(if first.is_some() { "removed_by_guid" } else { "no_such_guid" }, 1);
                    if holders.len() > 1 {
                        c.count("shared_guids", 1);
                    }
                }
                (Op::Take, Res::Table(t)) => {
                    if t != pre {
                        viol!("taking the partitions: {}", table_diff(pre, t));
                    }
                    want.clear();
                    c.count("tables_taken", 1);
                }
                (Op::Update(t), Res::Unit) => {
                    want = t
                        .iter()
                        .map(|(k, p)| (*k, P { os: format!("{:?}", type_of(&p.ty).os), ..p.clone() }))
                        .collect();
                    c.nontrivial = true;
                    c.count("tables_installed", 1);
                }
                _ => {
                    if st.wrote() {
                        let lb = w.conf.lb;
                        let last = last_lba(st.img_post.size, lb);
                        let mut at = vec![1];
                        if !w.conf.ro_backup {
                            at.push(last);
                        }
                        for a in at {
                            match read_copy(&st.img_post, lb, a) {
                                Ok(h) => {
                                    if let Err(e) = check_array(pre, &h.array) {
                                        viol!("array of the header in block {a}: {e}");
                                    }
                                }
                                Err(e) => viol!("after a write: {e}"),
                            }
                        }
                        c.count("writes_checked", 1);
                    }
                    return Ok(());
                }
            }
            if &want != post {
                viol!("{}", table_diff(&want, post));
            }
            ensure!(st.pre.guid == st.post.guid, "the disk GUID changed");
            let d = w.d();
            let free: Vec<(u64, u64)> = lib(|| d.find_free_sectors());
            let exp: Vec<(u64, u64)> = gaps(st.post.hdr.fu, st.post.hdr.lu, post)
                .iter()
                .map(|(a, z)| (*a, (*z - *a).saturating_add(1)))
                .collect();
            ensure!(free == exp, "free afterwards: {free:?}, should be {exp:?}");
            Ok(())
        })();
        r.map_err(|e| at(e, &st))?;
    }
    Ok(())
}
