//! C11, C12, C13, C27: damaged, hostile and foreign disks.
use gpt::partition::PartitionAttributes;
use super::rw::{check_array, fresh};
use crate::codec::{self, check_wellformed, crc32, last_lba, read_copy, Guid, RawEntry, RawHeader};
use crate::ctx::{lib, mem_mark, mem_peak_since, Ctx, Stop, R};
use crate::dev::{Dev, Image};
use crate::prng::Rng;
use crate::world::*;
use crate::{ensure, viol};
use std::collections::BTreeMap;

/// A valid disk whose two copies may record different tables.
struct TwoCopies {
    img: Image,
    lb: u64,
    prim: RawHeader,
    back: RawHeader,
    pt: BTreeMap<u32, P>,
    bt: BTreeMap<u32, P>,
}

fn put_header(img: &mut Image, lb: u64, h: &RawHeader) {
    let mut blk = vec![0u8; lb as usize];
    blk[..92].copy_from_slice(&h.encode());
    img.put(h.my * lb, &blk);
}

fn two_copies(c: &mut Ctx, small: bool, differ: bool) -> TwoCopies {
    let lb = gen_lb(&mut c.rng);
    let mut f = gen_foreign_any(&mut c.rng, lb, !small, 1, !small);
    if f.prim.n > 1000 {
        c.count("thousands_of_entries", 1);
    }
    while small && f.prim.n > 300 {
        f = gen_foreign(&mut c.rng, lb, false, 1);
    }
    let mut pt = f.table();
    let mut bt = pt.clone();
    if differ && f.prim.n > 1 && c.rng.chance(1, 4) {
        // the primary copy is of a time with fewer entries
        f.prim.n = match c.rng.below(3) {
            0 => f.prim.n - 1,
            1 => f.prim.n.min(128),
            _ => c.rng.range(1, u64::from(f.prim.n)) as u32,
        };
        let array = f.img.get(f.prim.pstart * lb, f.prim.array_bytes() as usize).unwrap();
        f.prim.pcrc = crc32(&array);
        f.prim.crc = f.prim.expected_crc();
        put_header(&mut f.img, lb, &f.prim);
        pt.retain(|k, _| *k <= f.prim.n);
        c.count("entry_counts_differ", 1);
    }
    if differ {
        // an older table in the backup
        let n = f.back.n;
        let t = gen_table(&mut c.rng, f.back.fu, f.back.lu, u64::from(n.min(8)), n, false);
        let mut array = vec![0u8; n as usize * 128];
        bt.clear();
        for (k, p) in t {
            let e: RawEntry = super::rw::raw_entry(&p);
            array[(k as usize - 1) * 128..k as usize * 128].copy_from_slice(&e.encode());
            bt.insert(k, entry_p(&e));
        }
        f.back.pcrc = crc32(&array);
        if c.rng.chance(1, 3) {
            f.back.guid = c.rng.guid();
        }
        f.back.crc = f.back.expected_crc();
        f.img.put(f.back.pstart * lb, &array);
        put_header(&mut f.img, lb, &f.back);
    }
    c.note(format!(
        "disk of {} bytes, block {lb}, {} entries, {}/{} recorded in primary/backup{}",
        f.img.size,
        f.prim.n,
        pt.len(),
        bt.len(),
        if differ { ", which differ" } else { "" }
    ));
    TwoCopies { img: f.img, lb, prim: f.prim, back: f.back, pt, bt }
}

/// (header as it was, array as it was)
fn intact(orig: &Image, img: &Image, lb: u64, h: &RawHeader) -> (bool, bool) {
    let same = |off: u64, len: usize| orig.get(off, len) == img.get(off, len);
    (same(h.my * lb, 92), same(h.pstart * lb, h.array_bytes() as usize))
}

// ---------------------------------------------------------------------- C11

fn c11_judge(c: &mut Ctx, t: &TwoCopies, img: &Image) -> R {
    let (ph, pa) = intact(&t.img, img, t.lb, &t.prim);
    let (bh, ba) = intact(&t.img, img, t.lb, &t.back);
    c.count("damaged_disks", 1);
    if !ph || !pa || !bh || !ba {
        c.nontrivial = true;
    }
    for only_valid in [false, true] {
        let writable = c.rng.chance(1, 2);
        let conf = Conf { only_valid, writable, ..Conf::plain(t.lb) };
        let how = format!("primary header/array intact {ph}/{pa}, backup {bh}/{ba}, both required {only_valid}");
        match fresh(c, img, conf) {
            Err(_) => {
                c.count("rejected", 1);
                ensure!(!(ph && pa && bh && ba), "an undamaged disk was rejected");
            }
            Ok(s) => {
                c.count("accepted", 1);
                ensure!(ph || s.prim.is_err(), "{how}: the damaged primary header is reported valid");
                ensure!(bh || s.back.is_err(), "{how}: the damaged backup header is reported valid");
                if only_valid {
                    ensure!(ph && bh, "{how}: opened with a damaged header");
                    ensure!(s.prim.is_ok() && s.back.is_ok(), "{how}: opened, but not with both copies reported valid");
                }
                let got = no_os(&s.parts);
                let from_p = ph && pa && got == t.pt && (s.guid == t.prim.guid);
                let from_b = bh && ba && got == t.bt && (s.guid == t.back.guid);
                if !from_p && !from_b {
                    ensure!((ph && pa) || (bh && ba), "{how}: opened without an intact copy, {} partitions", got.len());
                    let d = if ph && pa { table_diff(&t.pt, &got) } else { table_diff(&t.bt, &got) };
                    viol!("{how}: the table is not as recorded in an intact copy: {d}; GUID {:02x?}", s.guid);
                }
                if from_b && !from_p {
                    c.count("tables_from_backup", 1);
                }
            }
        }
        // the low-level readers
        if !only_valid {
            let mut d = Dev::new(img.clone());
            let h = lib(|| gpt::header::read_header_from_arbitrary_device(&mut d, lbs(t.lb)));
            match h {
                Ok(h) => {
                    ensure!(ph, "{how}: read_header_from_arbitrary_device accepts the header");
                    let r = lib(|| gpt::partition::file_read_partitions(&mut d, &h, lbs(t.lb)));
                    match r {
                        Ok(p) => {
                            ensure!(pa, "{how}: file_read_partitions accepts the array");
                            ensure!(no_os(&table(&p)) == t.pt, "{how}: file_read_partitions gives another table");
                        }
                        Err(e) => ensure!(!pa, "{how}: file_read_partitions: {e}"),
                    }
                }
                Err(e) => ensure!(!ph, "{how}: read_header_from_arbitrary_device: {}", herr(&e)),
            }
        }
    }
    Ok(())
}

/// Valid headers that record a checksum close to that of their array, but not it.
fn c11_near(c: &mut Ctx, bit: u64) -> R {
    let mut t = two_copies(c, true, true);
    let which = if bit < 64 { 1 + bit / 32 } else { c.rng.range(1, 3) };
    let mask: u32 = match c.rng.below(5) {
        _ if bit < 64 => 1 << (bit % 32),
        0 => 0xFFFF << (16 * c.rng.below(2)),
        1 => (c.rng.range(1, 255) as u32) << (8 * c.rng.below(4)),
        2 => 0xFFFF_FFFF,
        3 => t.prim.pcrc.max(1), // records zero
        _ => 1 << c.rng.below(32),
    };
    let mut img = t.img.clone();
    for (k, h) in [(1, &mut t.prim), (2, &mut t.back)] {
        if which & k != 0 {
            h.pcrc ^= mask;
            h.crc = h.expected_crc();
            put_header(&mut img, t.lb, h);
        }
    }
    c.note(format!("array checksum of {} wrong by {mask:#x}, header checksums right", ["primary", "backup", "both"][which as usize - 1]));
    c.count("near_array_checksums", 1);
    c.nontrivial = true;
    for only_valid in [false, true] {
        match fresh(c, &img, Conf { only_valid, ..Conf::plain(t.lb) }) {
            Err(_) => c.count("rejected", 1),
            Ok(s) => {
                ensure!(!only_valid || (s.prim.is_ok() && s.back.is_ok()), "both required and opened, but one is reported invalid");
                ensure!(which != 3, "opened although neither copy has the checksum of its array right");
                let got = no_os(&s.parts);
                let (want, g) = if which == 1 { (&t.bt, t.back.guid) } else { (&t.pt, t.prim.guid) };
                ensure!(&got == want && s.guid == g, "the table is not that of the intact copy: {}", table_diff(want, &got));
            }
        }
    }
    for (k, h) in [(1, &t.prim), (2, &t.back)] {
        let mut d = Dev::new(img.clone());
        let mut lh = match lib(|| gpt::header::read_header_from_arbitrary_device(&mut d, lbs(t.lb))) {
            Ok(h) => h,
            Err(e) => viol!("a header with a correct checksum is reported invalid: {}", herr(&e)),
        };
        lh.part_start = h.pstart;
        lh.crc32_parts = h.pcrc;
        lh.num_parts = h.n;
        let r = lib(|| gpt::partition::file_read_partitions(&mut d, &lh, lbs(t.lb)));
        ensure!(r.is_ok() == (which & k == 0), "file_read_partitions of copy {k}: {:?}", r.map(|p| p.len()));
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R {
    let differ = c.rng.chance(2, 3);
    let bits = 92 * 8;
    if c.index < 2 * bits {
        // every bit of both headers
        let t = two_copies(c, true, differ);
        let (which, bit) = (c.index / bits, c.index % bits);
        let base = if which == 0 { t.lb } else { t.back.my * t.lb };
        let mut img = t.img.clone();
        let o = base + bit / 8;
        let mut b = img.get(o, 1).unwrap();
        b[0] ^= 1 << (bit % 8);
        img.put(o, &b);
        c.note(format!("bit {} of byte {} of the {} header", bit % 8, bit / 8, ["primary", "backup"][which as usize]));
        c.count("single_header_bits", 1);
        return c11_judge(c, &t, &img);
    }
    if (2 * bits..2 * bits + 64).contains(&c.index) || c.rng.chance(1, 16) {
        return c11_near(c, c.index.wrapping_sub(2 * bits));
    }
    let t = two_copies(c, false, differ);
    let mut img = t.img.clone();
    let lb = t.lb;
    let areas = [
        (t.prim.my * lb, 92),
        (t.back.my * lb, 92),
        (t.prim.pstart * lb, t.prim.array_bytes()),
        (t.back.pstart * lb, t.back.array_bytes()),
    ];
    match c.rng.below(12) {
        0 => {
            // a wrong signature under a correct checksum
            let which = c.rng.chance(1, 2);
            let mut h = if which { t.prim.clone() } else { t.back.clone() };
            match c.rng.below(4) {
                0 => h.sig = *b"efi part",
                1 => h.sig[7] = 0,
                2 => h.sig = [0; 8],
                _ => h.sig[c.rng.below(8) as usize] ^= 1 << c.rng.below(8),
            }
            c.note(format!("signature {:02x?} with a correct checksum ({which})", h.sig));
            c.count("wrong_signatures", 1);
            put_header(&mut img, lb, &h);
        }
        1 => {
            // an entry of another table in place of this one's
            let which = c.rng.chance(1, 2);
            let (h, n) = if which { (&t.prim, t.prim.n) } else { (&t.back, t.back.n) };
            let k = c.rng.below(u64::from(n));
            let ty = gen_type(&mut c.rng);
            let p = gen_p(&mut c.rng, ty, t.prim.fu, t.prim.fu);
            img.put(h.pstart * lb + k * 128, &super::rw::raw_entry(&p).encode());
            c.note(format!("entry {} replaced ({which})", k + 1));
        }
        2 => {
            // the last bytes of the arrays
            let which = c.rng.chance(1, 2);
            let h = if which { &t.prim } else { &t.back };
            let o = h.pstart * lb + h.array_bytes() - 1;
            let mut b = img.get(o, 1).unwrap();
            b[0] ^= 1 << c.rng.below(8);
            img.put(o, &b);
            c.note(format!("last byte of an array ({which})"));
        }
        3 => {
            // the header and array of a copy, never the other
            let i = c.rng.below(2) as usize;
            for k in [i, i + 2] {
                if c.rng.chance(2, 3) {
                    damage(&mut c.rng, &mut img, areas[k].0, areas[k].1);
                    c.note(format!("damage in area {k}"));
                }
            }
        }
        4 => {
            // exchange two entries
            let h = if c.rng.chance(1, 2) { &t.prim } else { &t.back };
            let (a, b) = (c.rng.below(u64::from(h.n)), c.rng.below(u64::from(h.n)));
            let o = |i: u64| h.pstart * lb + i * 128;
            let (x, y) = (img.get(o(a), 128).unwrap(), img.get(o(b), 128).unwrap());
            img.put(o(a), &y);
            img.put(o(b), &x);
            c.note(format!("entries {} and {} exchanged", a + 1, b + 1));
        }
        _ => {
            for (k, a) in areas.iter().enumerate() {
                if c.rng.chance(2, 5) {
                    damage(&mut c.rng, &mut img, a.0, a.1);
                    c.note(format!("damage in area {k}"));
                }
            }
        }
    }
    c11_judge(c, &t, &img)
}

// ---------------------------------------------------------------------- C12

pub fn c12(c: &mut Ctx) -> R {
    let own = c.rng.chance(1, 2);
    let hurt_primary = c.rng.chance(3, 4);
    let (img, lb, prim, back, pt) = if own {
        // written by this library
        let b = Bias { foreign: 0, damaged: 0, ro_backup: 0, perm: 40, full: 25, ..Bias::default() };
        let mut w = gen_world(c, b)?;
        let k = c.rng.below(6);
        for _ in 0..k {
            let s = w.snap();
            let op = gen_op(&mut c.rng, &s, &b);
            w.step(c, op)?;
        }
        let st = w.step(c, Op::Write)?;
        ensure!(st.ok(), "the write failed: {:?}", st.res);
        let lb = w.conf.lb;
        match check_wellformed(&st.img_post, lb, true) {
            Ok((p, b)) => (st.img_post.clone(), lb, p.h, b.unwrap().h, st.pre.packed()),
            Err(e) => viol!("not two valid copies after a write: {e}"),
        }
    } else {
        // the copies may have got different, then the intact one counts
        let differ = c.rng.chance(1, 3);
        let mut t = two_copies(c, false, differ);
        if differ && t.back.lu - t.back.fu > 20 && c.rng.chance(1, 2) {
            t.back.fu += c.rng.below(9);
            t.back.lu -= c.rng.below(9);
            t.back.crc = t.back.expected_crc();
            put_header(&mut t.img, t.lb, &t.back);
            c.count("usable_ranges_differ", 1);
        }
        (t.img, t.lb, t.prim, t.back, if hurt_primary { t.bt } else { t.pt })
    };
    if !pt.is_empty() {
        c.nontrivial = true;
    }
    // damage one copy
    let h = if hurt_primary { &prim } else { &back };
    let kept = if hurt_primary { &back } else { &prim };
    let mut bad = img.clone();
    let header_area = (h.my * lb, 92u64);
    let array_area = (h.pstart * lb, h.array_bytes());
    let what = c.rng.below(6);
    match what {
        0 => damage(&mut c.rng, &mut bad, header_area.0, header_area.1),
        1 => damage(&mut c.rng, &mut bad, array_area.0, array_area.1),
        2 => {
            damage(&mut c.rng, &mut bad, header_area.0, header_area.1);
            damage(&mut c.rng, &mut bad, array_area.0, array_area.1);
        }
        3 => super::rw::destroy(c, &mut bad, header_area.0, lb),
        4 => super::rw::destroy(c, &mut bad, array_area.0, array_area.1),
        _ => {
            // the whole area of the copy
            if hurt_primary {
                let n = prim.array_blocks(lb).1 * lb;
                super::rw::destroy(c, &mut bad, 0, n);
            } else {
                super::rw::destroy(c, &mut bad, back.pstart * lb, (back.my + 1 - back.pstart) * lb);
            }
        }
    }
    let (hh, ha) = intact(&img, &bad, lb, h);
    if hh && ha {
        return Ok(()); // destroyed by what was there already
    }
    let which = if hurt_primary { "primary" } else { "backup" };
    c.note(format!("{which} damaged (kind {what}), header intact {hh}, array intact {ha}"));
    c.count(if hurt_primary { "primary_damaged" } else { "backup_damaged" }, 1);
    if hurt_primary && hh && !ha {
        c.count("only_primary_array_damaged", 1);
    }
    if hurt_primary && !hh {
        c.count("primary_header_damaged", 1);
    }
    // opens with the full table
    let writable = c.rng.chance(1, 2);
    let s = match fresh(c, &bad, Conf { writable, ..Conf::plain(lb) }) {
        Ok(s) => s,
        Err(e) => viol!("{which} copy damaged, the other intact: does not open: {e}"),
    };
    if no_os(&s.parts) != pt {
        viol!("{which} copy damaged, the other intact: {}", table_diff(&pt, &no_os(&s.parts)));
    }
    ensure!(s.guid == kept.guid, "{which} copy damaged: GUID {:02x?}", s.guid);
    ensure!(
        (s.hdr.fu, s.hdr.lu, s.hdr.n) == (kept.fu, kept.lu, kept.n),
        "{which} copy damaged: header {:?}",
        s.hdr
    );
    match fresh(c, &bad, Conf { only_valid: true, ..Conf::plain(lb) }) {
        Ok(_) if !hh => viol!("opened although both headers were required and the {which} one is damaged"),
        _ => {}
    }
    // a write restores both
    let dev = Dev::new(bad.clone());
    let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ..Conf::plain(lb) };
    let mut d = match lib(|| conf.config().open_from_device(dev.share())) {
        Ok(d) => d,
        Err(e) => viol!("does not open: {}", gerr(&e)),
    };
    let mut s2 = snap(&d);
    let mut edited = false;
    if c.rng.chance(1, 2) {
        // an edit in between
        let mut w = World { disk: Some(d), dev: dev.share(), conf, safe_n: s2.hdr.n, size: bad.size, start: "damaged" };
        let b = Bias { writes: 0, wild: false, ..Bias::default() };
        for _ in 0..c.rng.range(1, 3) {
            let s = w.snap();
            match gen_op(&mut c.rng, &s, &b) {
                o @ (Op::Add { .. } | Op::AddAt { .. } | Op::Remove(_) | Op::Update(_)) => {
                    w.step(c, o)?;
                    edited = true;
                }
                _ => {}
            }
        }
        d = w.disk.take().unwrap();
        s2 = snap(&d);
    }
    let r = if c.rng.chance(1, 2) {
        lib(|| d.write_inplace())
    } else {
        lib(|| d.write().map(|_| ()))
    };
    if let Err(e) = r {
        viol!("the repairing write failed: {}", gerr(&e));
    }
    let img2 = dev.image();
    let (p2, b2) = match check_wellformed(&img2, lb, true) {
        Ok((p, b)) => (p, b.unwrap()),
        Err(e) => viol!("after the repairing write: {e}"),
    };
    for (a, w) in [(&p2.array, "primary"), (&b2.array, "backup")] {
        if let Err(e) = check_array(&s2.parts, a) {
            viol!("after the repairing write, {w} array: {e}");
        }
    }
    let want = s2.packed();
    match fresh(c, &img2, Conf { only_valid: true, ..Conf::plain(lb) }) {
        Ok(s) => {
            if no_os(&s.parts) != want {
                viol!("after the repairing write: {}", table_diff(&want, &no_os(&s.parts)));
            }
            ensure!(s.prim.is_ok() && s.back.is_ok(), "after the repairing write a header is not valid");
        }
        Err(e) => viol!("after the repairing write the disk is not fully valid: {e}"),
    }
    if !edited {
        let w1: Vec<P> = pt.values().filter(|p| p.used()).map(|p| p.recorded()).collect();
        let w2: Vec<P> = want.values().cloned().collect();
        ensure!(w1 == w2, "the repairing write changed the table");
        for (h, what) in [(&p2.h, "primary"), (&b2.h, "backup")] {
            ensure!(
                (h.fu, h.lu, h.n, h.guid) == (kept.fu, kept.lu, kept.n, kept.guid),
                "the repairing write changed the {what} header: usable {}..={} (was {}..={}), {} entries (was {})",
                h.fu,
                h.lu,
                kept.fu,
                kept.lu,
                h.n,
                kept.n
            );
        }
        c.count("repaired_headers_compared", 1);
    }
    c.count("repairs", 1);
    Ok(())
}

// ---------------------------------------------------------------------- C13

pub fn extreme(r: &mut Rng, near: u64) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - r.below(3),
        3 => i64::MAX as u64 - r.below(2) + r.below(3),
        4 => 1 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(1),
        6 => u64::MAX / 512 - 1 + r.below(3),
        7 => u64::MAX / 4096 - 1 + r.below(3),
        8 => near.wrapping_add(r.below(5)).wrapping_sub(2),
        _ => r.next() >> r.below(64),
    }
}

pub fn extreme32(r: &mut Rng, near: u32) -> u32 {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - r.below(3) as u32,
        3 => 1 << r.below(32),
        4 => (1u32 << r.below(32)).wrapping_sub(1),
        5 => 33_554_431 + r.below(3) as u32, // n * 128 crosses 2^32
        6 => near.wrapping_add(r.below(5) as u32).wrapping_sub(2),
        7 => *r.pick(&[127u32, 128, 129, 64, 92, 256, 136, 4096]),
        _ => (r.next() >> r.range(32, 63)) as u32,
    }
}

fn hostile_header(r: &mut Rng, h: &mut RawHeader, img: &Image, lb: u64, fix_array: bool) {
    let last = last_lba(img.size, lb);
    let k = r.range(1, 4);
    for _ in 0..k {
        match r.below(13) {
            0 => h.major = extreme32(r, 1) as u16,
            1 => h.minor = extreme32(r, 0) as u16,
            2 => h.hsize = extreme32(r, 92),
            3 => h.reserved = extreme32(r, 0),
            4 => h.my = extreme(r, last),
            5 => h.alt = extreme(r, last),
            6 => h.fu = extreme(r, h.fu),
            7 => h.lu = extreme(r, h.lu),
            8 => h.guid = if r.chance(1, 2) { [0; 16] } else { [0xff; 16] },
            9 => h.pstart = extreme(r, h.pstart),
            10 => h.n = extreme32(r, h.n),
            11 => h.psize = extreme32(r, 128),
            _ => h.sig[r.below(8) as usize] = r.next() as u8,
        }
    }
    if fix_array {
        // make the checksum of the array right where it points to
        let len = h.array_bytes();
        let off = h.pstart.checked_mul(lb);
        if let (Some(o), true) = (off, len <= img.size) {
            if let Some(a) = img.get(o, len as usize) {
                h.pcrc = crc32(&a);
            }
        }
    }
}

/// Contents for an opening attempt.
pub fn hostile_image(c: &mut Ctx, lb: u64) -> Image {
    let kind = c.rng.below(8);
    let kind = if cfg!(miri) { kind % 4 + 2 } else { kind };
    if kind == 0 {
        let n = match c.rng.below(5) {
            0 => c.rng.below(600),
            1 => lb * c.rng.below(6),
            2 => lb * 3 - 1 + c.rng.below(3),
            3 => c.rng.below(40_000),
            _ => lb + c.rng.below(92 + 2),
        };
        let b = c.rng.bytes(n as usize);
        let mut img = Image::from_bytes(&b);
        // often with the signature in place
        for at in [lb, (n / lb).saturating_sub(1) * lb] {
            if c.rng.chance(1, 2) && at + 8 <= n {
                img.put(at, b"EFI PART");
            }
        }
        c.note(format!("{n} random bytes"));
        return img;
    }
    let f = loop {
        let f = gen_foreign(&mut c.rng, lb, false, 1);
        if f.img.size < 8 << 20 && (f.prim.n < 200 || !cfg!(miri)) && (!cfg!(miri) || f.prim.n < 20) {
            break f;
        }
    };
    let mut img = f.img.clone();
    // hostile entries
    let mut prim = f.prim.clone();
    let mut back = f.back.clone();
    if c.rng.chance(1, 2) {
        let n = prim.n as usize;
        let mut a = img.get(prim.pstart * lb, n * 128).unwrap();
        for _ in 0..c.rng.range(1, 6) {
            let k = c.rng.below(n as u64) as usize;
            let mut name = [0u16; 36];
            if c.rng.chance(1, 2) {
                for u in name.iter_mut() {
                    *u = c.rng.next() as u16;
                }
            } else {
                for u in name.iter_mut() {
                    *u = 0xD800 + c.rng.below(0x900) as u16;
                }
            }
            let e = RawEntry {
                ty: if c.rng.chance(1, 5) { [0; 16] } else { gen_type(&mut c.rng) },
                id: c.rng.guid(),
                first: extreme(&mut c.rng, prim.fu),
                last: extreme(&mut c.rng, prim.lu),
                flags: c.rng.next(),
                name,
            };
            a[k * 128..k * 128 + 128].copy_from_slice(&e.encode());
        }
        img.put(prim.pstart * lb, &a);
        img.put(back.pstart * lb, &a);
        prim.pcrc = crc32(&a);
        back.pcrc = prim.pcrc;
        c.note("hostile entries".into());
        put_header(&mut img, lb, &prim);
        put_header(&mut img, lb, &back);
    }
    match kind {
        1 | 2 => {
            for _ in 0..c.rng.range(1, 20) {
                let o = match c.rng.below(4) {
                    0 => lb + c.rng.below(92),
                    1 => back.my * lb + c.rng.below(92),
                    2 => prim.pstart * lb + c.rng.below(prim.array_bytes()),
                    _ => c.rng.below(img.size),
                };
                let b = c.rng.next() as u8;
                img.put(o, &[b]);
            }
            c.note("valid disk with random bytes changed".into());
        }
        3 => {
            // another length: cut or extended
            let n = match c.rng.below(4) {
                0 => c.rng.below(img.size),
                1 => img.size + c.rng.below(3 * lb),
                2 => lb * c.rng.below(6),
                _ => img.size.saturating_sub(c.rng.below(3 * lb)),
            };
            let keep = img.get(0, n.min(img.size) as usize).unwrap();
            img = Image::new(n, 0);
            img.put(0, &keep);
            if c.rng.chance(1, 2) && n > lb {
                let mut h = back.clone();
                h.my = last_lba(n, lb);
                if (h.my + 1) * lb <= n {
                    put_header(&mut img, lb, &h);
                }
            }
            c.note(format!("length changed to {n}"));
        }
        _ => {
            let fix = c.rng.chance(3, 4);
            let which = c.rng.range(1, 3);
            if which & 1 != 0 {
                hostile_header(&mut c.rng, &mut prim, &img, lb, fix);
                let mut blk = vec![0u8; lb as usize];
                blk[..92].copy_from_slice(&prim.encode());
                img.put(lb, &blk);
                c.note(format!("{prim:?}"));
            }
            if which & 2 != 0 {
                hostile_header(&mut c.rng, &mut back, &img, lb, fix);
                let mut blk = vec![0u8; lb as usize];
                blk[..92].copy_from_slice(&back.encode());
                let at = last_lba(img.size, lb) * lb;
                img.put(at, &blk);
                c.note(format!("{back:?}"));
            }
            if c.rng.chance(1, 4) {
                // only the backup is left
                let z = vec![0; lb as usize];
                img.put(lb, &z);
            }
        }
    }
    img
}

fn budget(size: u64, extra: u64) -> u64 {
    20_000 + (size + extra) / 8
}

pub fn mbr_ops(c: &mut Ctx, img: &Image) -> R {
    use gpt::mbr::*;
    let lb = gen_lb(&mut c.rng);
    let mut d = Dev::new(img.clone());
    d.inner.borrow_mut().budget = 1000;
    let pos = c.rng.below(1 << 20);
    d.set_pos(pos);
    let _ = lib(|| read_bootcode(&mut d).is_ok());
    let _ = lib(|| read_disk_signature(&mut d).is_ok());
    let r = lib(|| ProtectiveMBR::from_disk(&mut d, lbs(lb)));
    let mut m = match r {
        Ok(m) => m,
        Err(e) => {
            lib(|| {
                let _ = format!("{e} {e:?}");
            });
            lib(ProtectiveMBR::new)
        }
    };
    for i in [0usize, 3, 4, 5, usize::MAX, c.rng.below(8) as usize] {
        let p = lib(|| m.partition(i));
        if let Some(p) = p {
            lib(|| m.set_partition(c.rng.below(8) as usize, p));
        }
    }
    lib(|| {
        let _ = format!("{m:?}");
        let _ = m.to_bytes();
        let _ = m.overwrite_lba0(&mut d).is_ok();
        let _ = m.update_conservative(&mut d).is_ok();
        let _ = write_bootcode(&mut d, m.bootcode()).is_ok();
        let _ = write_disk_signature(&mut d, m.disk_signature()).is_ok();
    });
    let n = match c.rng.below(4) {
        0 => 512,
        1 => 4096,
        _ => c.rng.below(5000) as usize,
    };
    let mut b = c.rng.bytes(n);
    if n > 512 && c.rng.chance(1, 2) || n == 512 {
        b[510] = 0x55;
        b[511] = 0xAA;
    }
    let _ = lib(|| ProtectiveMBR::from_bytes(&b, lbs(lb)).is_ok());
    let k = c.rng.below(40) as usize;
    let pr = c.rng.bytes(k);
    let _ = lib(|| PartRecord::from_bytes(&pr).is_ok());
    c.count("mbr_inputs", 1);
    if d.inner.borrow().budget_hit {
        viol!("an MBR operation made more than 1000 device calls");
    }
    Ok(())
}

pub fn c13(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = hostile_image(c, lb);
    c.nontrivial = true;
    mbr_ops(c, &img)?;
    if !cfg!(miri) && c.rng.chance(1, 40) {
        by_path(c, &img, lb)?;
    }
    let conf = Conf {
        lb: if c.rng.chance(9, 10) { lb } else { 4608 - lb },
        writable: true,
        only_valid: c.rng.chance(1, 6),
        ro_backup: c.rng.chance(1, 6),
        perm: c.rng.chance(1, 2),
    };
    c.note(format!("open {} bytes with {conf:?}", img.size));
    let dev = Dev::new(img.clone());
    dev.inner.borrow_mut().logging = false;
    dev.inner.borrow_mut().budget = budget(img.size, 0);
    let mark = mem_mark();
    let opened = lib(|| conf.config().open_from_device(dev.share()));
    let used = mem_peak_since(mark) as u64;
    c.count("opened_or_refused", 1);
    ensure!(!dev.inner.borrow().budget_hit, "opening made more than {} device calls", budget(img.size, 0));
    ensure!(used < (4 << 20) + 64 * img.size, "opening {} bytes took {used} bytes of memory", img.size);
    let disk = match opened {
        Ok(d) => d,
        Err(e) => {
            lib(|| {
                let _ = format!("{e} {e:?}");
            });
            if !c.rng.chance(1, 4) {
                return Ok(());
            }
            // create on it instead
            c.note("does not open, create".into());
            match lib(|| conf.config().create_from_device(dev.share(), None)) {
                Ok(d) => d,
                Err(_) => return Ok(()),
            }
        }
    };
    c.count("hostile_disks_opened", 1);
    let mut w = World { disk: Some(disk), dev, conf, safe_n: 0, size: img.size, start: "hostile" };
    let b = Bias { writes: 20, wild: true, ..Bias::default() };
    let n = c.rng.range(2, if cfg!(miri) { 6 } else { 14 });
    for i in 0..n {
        let s = w.snap();
        let op = if i == 0 { Op::Query } else { gen_op(&mut c.rng, &s, &b) };
        {
            let mut i = w.dev.inner.borrow_mut();
            i.calls = 0;
            i.budget = budget(img.size, u64::from(s.hdr.n.min(1 << 20)) * 1024 + 4096 * s.parts.len() as u64);
        }
        let lim = w.dev.inner.borrow().budget;
        let mark = mem_mark();
        let st = w.step(c, op.clone());
        let used = mem_peak_since(mark) as u64;
        if w.dev.inner.borrow().budget_hit {
            viol!("{} made more than {lim} device calls", op.short());
        }
        let cap = (16 << 20) + 200 * img.size;
        ensure!(used < cap, "{} took {used} bytes of memory on a device of {} bytes", op.short(), img.size);
        match st {
            Ok(st) => {
                c.count("operations_on_hostile_disks", 1);
                if let Res::Err(_) = st.res {
                    c.count("refused_on_hostile_disks", 1);
                }
            }
            // other judgements are not the subject here
            Err(Stop::Violation(_)) => return Ok(()),
            Err(e) => return Err(e),
        }
        if w.disk.is_none() {
            return Ok(());
        }
        // partitions with any numbers
        let v: Vec<u32> = w.d().partitions().keys().copied().take(6).collect();
        for k in v {
            let p = w.d().partitions()[&k].clone();
            for l in [512, 4096] {
                lib(|| {
                    let _ = p.sectors_len().is_ok();
                    let _ = p.bytes_len(lbs(l)).is_ok();
                    let _ = p.bytes_start(lbs(l)).is_ok();
                    let _ = format!("{p} {p:?} {}", p.is_used());
                });
            }
        }
    }
    Ok(())
}

fn by_path(c: &mut Ctx, img: &Image, lb: u64) -> R {
    let dir = super::files::Scratch::new();
    let path = dir.file("disk", img);
    let conf = Conf { writable: true, ..Conf::plain(lb) };
    let h = lib(|| gpt::header::read_header(&path, lbs(lb)));
    if let Ok(h) = h {
        let _ = lib(|| gpt::partition::read_partitions(&path, &h, lbs(lb)).is_ok());
    }
    let _ = lib(|| gpt::disk::read_disk(&path).is_ok());
    if let Ok(mut d) = lib(|| conf.config().open(&path)) {
        let _ = lib(|| d.write_inplace().is_ok());
    }
    let _ = lib(|| gpt::header::write_header(&path, None, lbs(lb)).is_ok());
    c.count("files", 1);
    Ok(())
}

// ---------------------------------------------------------------------- C27

/// Names this library cannot represent are shown with U+FFFD.
fn expect(f: &Foreign) -> BTreeMap<u32, P> {
    f.table()
}

pub fn c27(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let mut f = gen_foreign_any(&mut c.rng, lb, true, 1, true);
    if c.rng.chance(1, 6) {
        f.odd(&mut c.rng, lb);
        c.count("disks_with_odd_entries", 1);
    }
    if f.prim.n > 1000 {
        c.count("arrays_of_more_than_1000_entries", 1);
    }
    c.note(format!(
        "{} bytes, block {lb}, {} entries at {}/{}, usable {}..={}, recorded {:?}",
        f.img.size,
        f.prim.n,
        f.prim.pstart,
        f.back.pstart,
        f.prim.fu,
        f.prim.lu,
        f.entries.keys().collect::<Vec<_>>()
    ));
    let want = expect(&f);
    c.nontrivial = !want.is_empty();
    c.count("foreign_disks", 1);
    c.count("foreign_entries", want.len() as u64);
    let conf = Conf {
        lb,
        writable: true,
        only_valid: c.rng.chance(1, 3),
        ro_backup: c.rng.chance(1, 8),
        perm: c.rng.chance(1, 2),
    };
    let dev = Dev::new(f.img.clone());
    let pos = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.below(f.img.size),
        _ => f.img.size.saturating_add(c.rng.below(1000)),
    };
    dev.set_pos(pos);
    let disk = match lib(|| conf.config().open_from_device(dev.share())) {
        Ok(d) => d,
        Err(e) => viol!("does not open (device at {pos}): {}", gerr(&e)),
    };
    let s = snap(&disk);
    ensure!(s.prim.as_ref() == Ok(&H::raw(&f.prim)), "primary header {:?}, recorded {:?}", s.prim, f.prim);
    ensure!(s.back.as_ref() == Ok(&H::raw(&f.back)), "backup header {:?}, recorded {:?}", s.back, f.back);
    ensure!(s.guid == f.prim.guid, "GUID {:02x?}, recorded {:02x?}", s.guid, f.prim.guid);
    ensure!(s.lb == lb, "block size {}", s.lb);
    if no_os(&s.parts) != want {
        viol!("{}", table_diff(&want, &no_os(&s.parts)));
    }
    let named = [PartitionAttributes::PLATFORM, PartitionAttributes::EFI, PartitionAttributes::BOOTABLE].map(|a| a.bits());
    ensure!(named == [1, 2, 4], "the named attribute bits are {named:x?}");
    for (k, p) in &s.parts {
        ensure!(p.os == format!("{:?}", type_of(&p.ty).os), "partition {k} has the label {}", p.os);
    }
    // the same through the read-only functions
    if f.prim.n < 300 {
        let d = dev.share();
        let mut d2 = d;
        let h = lib(|| gpt::header::read_header_from_arbitrary_device(&mut d2, lbs(lb)));
        match h {
            Ok(h) => ensure!(H::of(&h) == H::raw(&f.prim), "read_header_from_arbitrary_device gives {h:?}"),
            Err(e) => viol!("read_header_from_arbitrary_device: {}", herr(&e)),
        }
    }
    // operations which do not concern a partition leave it alone
    let mut w = World { disk: Some(disk), dev, conf, safe_n: f.prim.n, size: f.img.size, start: "foreign" };
    let b = Bias { writes: 25, wild: false, ..Bias::default() };
    let mut model: Vec<P> = vec![]; // used, in order
    let mut unused: BTreeMap<u32, P> = BTreeMap::new();
    let split = |t: &BTreeMap<u32, P>| -> (Vec<P>, BTreeMap<u32, P>) {
        (
            t.values().filter(|p| p.used()).map(|p| p.no_os()).collect(),
            t.iter().filter(|(_, p)| !p.used()).map(|(k, p)| (*k, p.no_os())).collect(),
        )
    };
    let mut cur = no_os(&s.parts);
    let _ = (&mut model, &mut unused);
    for _ in 0..c.rng.range(1, 10) {
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            Op::Take => Op::Query,
            Op::Update(_) if c.rng.chance(2, 3) => Op::Query,
            o => o,
        };
        let st = w.step(c, op)?;
        let post = no_os(&st.post.parts);
        let (h0, h1) = (&st.pre.hdr, &st.post.hdr);
        if !matches!(st.op, Op::Reopen | Op::WriteConsume) && (h0 != h1 || st.wrote()) {
            // only the arrays at their new places narrow the usable range
            let a = (u64::from(h1.n) * 128 + lb - 1) / lb;
            let last = last_lba(f.img.size, lb);
            let want = (h0.fu.max(2 + a), h0.lu.min((last - a).saturating_sub(1)));
            ensure!(
                (h1.fu, h1.lu) == want || (h1.fu, h1.lu) == (h0.fu, h0.lu),
                "after {}: usable range {}..={} with {} entries, was {}..={} with {}",
                st.op.short(),
                h1.fu,
                h1.lu,
                h1.n,
                h0.fu,
                h0.lu,
                h0.n
            );
            c.count("usable_ranges_kept", 1);
        }
        match (&st.op, &st.res) {
            (Op::Update(t), Res::Unit) => cur = no_os(t),
            (Op::Add { .. } | Op::AddAt { .. }, Res::Id(i)) => {
                if let Some(p) = post.get(i) {
                    cur.insert(*i, p.clone());
                }
            }
            (Op::Remove(i), Res::OptId(Some(_))) => {
                cur.remove(i);
            }
            (Op::RemoveGuid(_), Res::OptId(Some(i))) => {
                cur.remove(i);
            }
            (Op::WriteConsume, Res::Unit) | (Op::Reopen, _) => {
                if st.wrote() {
                    cur = packed(&cur);
                    c.count("writes_of_foreign_tables", 1);
                } else if st.err().is_none() {
                    // abandoned: back to what is recorded
                    let ok = match read_copy(&st.img_post, lb, 1) {
                        Ok(p) => p,
                        Err(e) => viol!("{e}"),
                    };
                    cur = ok.entries().into_iter().map(|(k, e)| (k, entry_p(&e))).collect();
                } else {
                    viol!("the disk no longer opens: {:?}", st.res);
                }
            }
            _ => {}
        }
        if post != cur {
            viol!("after {}: {}", st.op.short(), table_diff(&cur, &post));
        }
        if st.wrote() {
            // recorded values of every partition
            match read_copy(&st.img_post, lb, 1) {
                Ok(p) => {
                    let got: Vec<P> = p.entries().iter().map(|(_, e)| entry_p(e)).collect();
                    let (want, _) = split(&packed(&cur));
                    ensure!(got == want, "recorded after the write: {got:?}, should be {want:?}");
                }
                Err(e) => viol!("after the write: {e}"),
            }
            c.count("writes_of_foreign_tables", 1);
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused_guid(_: &Guid) -> Guid {
    codec::swap_guid(&[0; 16])
}
