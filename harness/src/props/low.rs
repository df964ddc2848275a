//! The parts below the disk object: MBR, header construction, single entries,
//! arithmetic. C18, C20, C25, C26.
use super::dmg::{extreme, extreme32};
use super::files::{load, Scratch};
use super::rw::raw_entry;
use crate::codec::{crc32, last_lba, read_copy, RawHeader};
use crate::ctx::{lib, Ctx, R};
use crate::dev::{Dev, Ev, Image};
use crate::prng::Rng;
use crate::world::*;
use crate::{ensure, viol};
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderBuilder};
use gpt::mbr::*;
use gpt::partition::Partition;
use std::collections::BTreeMap;
use uuid::Uuid;

// ---------------------------------------------------------------------- C18

fn record_fields(p: &PartRecord) -> Vec<u8> {
    let mut v = vec![
        p.boot_indicator,
        p.start_head,
        p.start_sector,
        p.start_track,
        p.os_type,
        p.end_head,
        p.end_sector,
        p.end_track,
    ];
    v.extend_from_slice(&p.lb_start.to_le_bytes());
    v.extend_from_slice(&p.lb_size.to_le_bytes());
    v
}

fn record_of(b: &[u8]) -> PartRecord {
    PartRecord {
        boot_indicator: b[0],
        start_head: b[1],
        start_sector: b[2],
        start_track: b[3],
        os_type: b[4],
        end_head: b[5],
        end_sector: b[6],
        end_track: b[7],
        lb_start: u32::from_le_bytes([b[8], b[9], b[10], b[11]]),
        lb_size: u32::from_le_bytes([b[12], b[13], b[14], b[15]]),
    }
}

/// The bytes of a record: often blank, nearly blank or protective.
fn some_record(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![0; 16];
    match r.below(6) {
        0 => {}
        1 => b[r.below(16) as usize] = r.range(1, 255) as u8,
        2 => {
            b.copy_from_slice(&[0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF]);
            if r.chance(1, 2) {
                b[r.below(16) as usize] ^= 1 << r.below(8);
            }
        }
        3 => {
            b = r.bytes(16);
            // a field is blank
            let (from, to) = *r.pick(&[(0, 1), (1, 4), (4, 5), (5, 8), (8, 12), (12, 16), (8, 16)]);
            b[from..to].fill(0);
        }
        _ => b = r.bytes(16),
    }
    b
}

fn c18_codec(c: &mut Ctx) -> R {
    // one record
    let b = some_record(&mut c.rng);
    let p = match lib(|| PartRecord::from_bytes(&b)) {
        Ok(p) => p,
        Err(e) => viol!("a partition record of 16 bytes is rejected: {e}"),
    };
    ensure!(p == record_of(&b), "record {b:02x?} decoded as {p:?}");
    ensure!(record_fields(&p) == b, "record {b:02x?} decoded as {p:?}");
    let back = lib(|| p.to_bytes());
    ensure!(back[..] == b[..], "record {b:02x?} is encoded as {back:02x?}");
    for n in [0usize, 1, 15, 17, 32, c.rng.below(64) as usize] {
        if n != 16 {
            let b = c.rng.bytes(n);
            ensure!(lib(|| PartRecord::from_bytes(&b)).is_err(), "a record of {n} bytes is accepted");
        }
    }
    ensure!(lib(|| PartRecord::zero().to_bytes()) == [0; 16], "zero record");
    let size = *c.rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, u32::MAX - c.rng.clone().below(5) as u32, 1 << 31, c.rng.clone().next() as u32, c.rng.clone().next() as u32 >> 12]);
    for (s, want) in [(Some(size), size), (None, u32::MAX)] {
        let b = lib(|| PartRecord::new_protective(s).to_bytes());
        let mut w = [0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0, 0, 0, 0];
        w[12..].copy_from_slice(&want.to_le_bytes());
        ensure!(b == w, "protective record for {s:?}: {b:02x?}");
    }
    c.count("records_checked", 1);

    // a whole sector
    let lb = gen_lb(&mut c.rng);
    let mut b = c.rng.bytes(lb as usize);
    for i in 0..4 {
        b[446 + 16 * i..462 + 16 * i].copy_from_slice(&some_record(&mut c.rng));
    }
    if c.rng.chance(1, 3) {
        b[444..446].fill(0);
    }
    let sig = match c.rng.below(6) {
        0 => [c.rng.next() as u8, 0xAA],
        1 => [0x55, c.rng.next() as u8],
        2 => {
            let mut s = [0x55, 0xAA];
            s[c.rng.below(2) as usize] ^= 1 << c.rng.below(8);
            s
        }
        3 => [0xAA, 0x55],
        _ => [0x55, 0xAA],
    };
    b[510..512].copy_from_slice(&sig);
    let good = sig == [0x55, 0xAA];
    let m = lib(|| ProtectiveMBR::from_bytes(&b, lbs(lb)));
    ensure!(m.is_ok() == good, "signature {sig:02x?}: accepted {}", m.is_ok());
    let other = if lb == 512 { 4096 } else { 512 };
    for n in [0, 16, 511, 513, lb as usize - 1, lb as usize + 1, other as usize, c.rng.below(5000) as usize] {
        if n != lb as usize {
            let mut b = c.rng.bytes(n);
            if n >= 512 {
                b[510] = 0x55;
                b[511] = 0xAA;
            }
            ensure!(lib(|| ProtectiveMBR::from_bytes(&b, lbs(lb))).is_err(), "{n} bytes accepted as an MBR of {lb}");
        }
    }
    c.count("sectors_checked", 1);
    let Ok(mut m) = m else {
        c.count("signatures_rejected", 1);
        return Ok(());
    };
    let mut want = b[..512].to_vec();
    check_mbr(&m, &want, "decoded")?;
    // setters
    for _ in 0..c.rng.below(6) {
        match c.rng.below(3) {
            0 => {
                let mut x = [0; 440];
                x.copy_from_slice(&c.rng.bytes(440));
                lib(|| {
                    m.set_bootcode(x);
                });
                want[..440].copy_from_slice(&x);
            }
            1 => {
                let mut x = [0; 4];
                x.copy_from_slice(&c.rng.bytes(4));
                lib(|| {
                    m.set_disk_signature(x);
                });
                want[440..444].copy_from_slice(&x);
            }
            _ => {
                let i = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 255, usize::MAX]);
                let x = some_record(&mut c.rng);
                let r = lib(|| m.set_partition(i, record_of(&x)));
                if i < 4 {
                    let at = 446 + 16 * i..462 + 16 * i;
                    ensure!(
                        r.map(|p| record_fields(&p)) == Some(want[at.clone()].to_vec()),
                        "set_partition({i}) returned {r:?}, the record was {:02x?}",
                        &want[at]
                    );
                    want[at].copy_from_slice(&x);
                } else {
                    ensure!(r.is_none(), "set_partition({i}) returned {r:?}");
                }
            }
        }
        check_mbr(&m, &want, "after a change")?;
    }
    // fresh ones
    for (m, s) in [(lib(ProtectiveMBR::new), u32::MAX), (lib(ProtectiveMBR::default), u32::MAX), (lib(|| ProtectiveMBR::with_lb_size(size)), size)] {
        let mut w = vec![0; 512];
        w[446..462].copy_from_slice(&[0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0, 0, 0, 0]);
        w[458..462].copy_from_slice(&s.to_le_bytes());
        w[510] = 0x55;
        w[511] = 0xAA;
        check_mbr(&m, &w, "new")?;
    }
    Ok(())
}

fn check_mbr(m: &ProtectiveMBR, want: &[u8], what: &str) -> R {
    let enc = lib(|| m.to_bytes());
    if let Some(i) = (0..512).find(|i| enc[*i] != want[*i]) {
        viol!("{what}: byte {i} encoded as {:02x}, should be {:02x}", enc[i], want[i]);
    }
    ensure!(lib(|| *m.bootcode()) == want[..440], "{what}: boot code");
    ensure!(lib(|| *m.disk_signature()) == want[440..444], "{what}: disk signature");
    for i in [0usize, 1, 2, 3, 4, 5, 1 << 32, usize::MAX] {
        let p = lib(|| m.partition(i)).map(|p| record_fields(&p));
        let w = if i < 4 { Some(want[446 + 16 * i..462 + 16 * i].to_vec()) } else { None };
        ensure!(p == w, "{what}: partition({i}) is {p:02x?}, should be {w:02x?}");
    }
    Ok(())
}

fn c18_device(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let n = match c.rng.below(3) {
        0 => lb,
        1 => lb * c.rng.range(1, 4) + c.rng.below(lb),
        _ => lb + c.rng.below(10_000),
    };
    let n = if c.rng.chance(1, 6) { 512 } else { n };
    let mut img = Image::new(n, c.rng.next() | 1);
    let good = c.rng.chance(3, 4);
    if good {
        img.put(510, &[0x55, 0xAA]);
    }
    let dev = Dev::new(img.clone());
    if c.rng.chance(1, 4) {
        dev.inner.borrow_mut().flaky = c.rng.next() | 1;
    }
    let mut d = dev.share();
    let mut raw = c.rng.bytes(512);
    for i in 0..4 {
        raw[446 + 16 * i..462 + 16 * i].copy_from_slice(&some_record(&mut c.rng));
    }
    let mut m = lib(ProtectiveMBR::new);
    let mut boot = [0; 440];
    boot.copy_from_slice(&raw[..440]);
    let mut sig = [0; 4];
    sig.copy_from_slice(&raw[440..444]);
    lib(|| {
        m.set_bootcode(boot);
        m.set_disk_signature(sig);
        for i in 0..4 {
            m.set_partition(i, record_of(&raw[446 + 16 * i..462 + 16 * i]));
        }
    });
    let mut whole = raw.clone();
    whole[444..446].fill(0);
    whole[510] = 0x55;
    whole[511] = 0xAA;
    let mut want = img.clone();
    for _ in 0..c.rng.range(1, 6) {
        let pos = match c.rng.below(5) {
            0 => 0,
            1 => n,
            2 => n + c.rng.below(1 << 40),
            3 => c.rng.below(520),
            _ => c.rng.below(n),
        };
        dev.set_pos(pos);
        dev.take_log();
        let which = c.rng.below(7);
        c.note(format!("MBR operation {which} on {n} bytes (block size {lb}) from position {pos}"));
        let now = want.get(0, 512).unwrap();
        let io = |e: std::io::Error| format!("{e}");
        let me = |e: MBRError| format!("{e}");
        let r: Result<(), String> = match which {
            0 => {
                want.put(0, &whole);
                match lib(|| m.overwrite_lba0(&mut d)).map_err(me) {
                    Ok(512) => Ok(()),
                    Ok(k) => viol!("overwrite_lba0 reports {k} bytes"),
                    Err(e) => Err(e),
                }
            }
            1 => {
                want.put(446, &whole[446..512]);
                match lib(|| m.update_conservative(&mut d)).map_err(me) {
                    Ok(66) => Ok(()),
                    Ok(k) => viol!("update_conservative reports {k} bytes"),
                    Err(e) => Err(e),
                }
            }
            2 => {
                want.put(0, &boot);
                lib(|| write_bootcode(&mut d, &boot)).map_err(io)
            }
            3 => {
                want.put(440, &sig);
                lib(|| write_disk_signature(&mut d, &sig)).map_err(io)
            }
            4 => match lib(|| read_bootcode(&mut d)).map_err(io) {
                Ok(b) => {
                    ensure!(b[..] == now[..440], "read_bootcode returned other bytes than block 0 has");
                    Ok(())
                }
                Err(e) => Err(e),
            },
            5 => match lib(|| read_disk_signature(&mut d)).map_err(io) {
                Ok(b) => {
                    ensure!(b[..] == now[440..444], "read_disk_signature returned {b:02x?}, block 0 has {:02x?}", &now[440..444]);
                    Ok(())
                }
                Err(e) => Err(e),
            },
            _ => {
                let r = lib(|| ProtectiveMBR::from_disk(&mut d, lbs(lb)));
                let signed = now[510..512] == [0x55, 0xAA];
                match (r, signed && n >= lb) {
                    (Ok(m), true) => check_mbr(&m, &now, "read from the device")?,
                    (Err(_), false) => {
                        c.count("signatures_rejected", 1);
                        if n < lb {
                            continue;
                        }
                    }
                    (Ok(_), false) => viol!("from_disk accepted signature {:02x?}", &now[510..512]),
                    (Err(e), true) => viol!("from_disk: {e}"),
                }
                Ok(())
            }
        };
        if let Err(e) = r {
            viol!("the operation failed: {e}");
        }
        let got = dev.image();
        let df = want.diff(&got);
        ensure!(df.is_empty(), "the device differs from what it should be in bytes {:?}", &df[..df.len().min(4)]);
        ensure!(dev.pos() == pos, "the device was at {pos} and is at {}", dev.pos());
        ensure!(!dev.take_log().iter().any(|e| matches!(e, Ev::Oob { .. })), "wrote beyond the end");
        c.count("device_operations_checked", 1);
        if which < 4 {
            c.count("device_writes_checked", 1);
        }
    }
    Ok(())
}

pub fn c18(c: &mut Ctx) -> R {
    c.nontrivial = true;
    let k = c.rng.next();
    c.note(format!("content {k:016x}"));
    c18_codec(c)?;
    c18_device(c)
}

// ---------------------------------------------------------------------- C20

fn judge_layout(h: &Header, lb: u64) -> Result<(), String> {
    let arr = (u128::from(h.num_parts) * u128::from(h.part_size) + u128::from(lb) - 1) / u128::from(lb);
    let (my, alt, fu, lu, ps) = (
        u128::from(h.current_lba),
        u128::from(h.backup_lba),
        u128::from(h.first_usable),
        u128::from(h.last_usable),
        u128::from(h.part_start),
    );
    if fu > lu {
        return Err(format!("first usable block {fu} after the last {lu}"));
    }
    if my < alt {
        if ps <= my || ps + arr > fu {
            return Err(format!("array {ps}..{} does not fit between the header in {my} and {fu}", ps + arr));
        }
        if lu >= alt {
            return Err(format!("usable range ends at {lu}, the backup header is in {alt}"));
        }
    } else {
        if ps <= lu || ps + arr > my {
            return Err(format!("array {ps}..{} does not fit between {lu} and the header in {my}", ps + arr));
        }
        if fu <= alt {
            return Err(format!("usable range starts at {fu}, the primary header is in {alt}"));
        }
    }
    Ok(())
}

fn any_u64(r: &mut Rng, near: u64) -> u64 {
    match r.below(4) {
        0 => extreme(r, near),
        1 => near.wrapping_add(r.below(7)).wrapping_sub(3),
        2 => r.below(200),
        _ => r.next() >> r.below(64),
    }
}

pub fn c20(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let sane = c.rng.chance(1, 2);
    let r = &mut c.rng;
    let from = r.chance(1, 2);
    let mut plba = 1u64;
    let mut primary = true;
    let (mut bak, mut fu, mut lu, mut n, mut ps) = (0u64, 0u64, 0u64, 128u32, 128u32);
    let mut guid = None;
    let mut b;
    let mut note = String::new();
    if from {
        let g = r.guid();
        let last = if sane { r.range(1, 1 << 45) >> r.below(40) } else { any_u64(r, u64::MAX) };
        let mut h = Header {
            signature: if r.chance(1, 2) { "EFI PART".into() } else { "x".into() },
            revision: (r.next() as u16, r.next() as u16),
            header_size_le: r.next() as u32,
            crc32: r.next() as u32,
            reserved: r.next() as u32,
            current_lba: 1,
            backup_lba: last,
            first_usable: r.below(200),
            last_usable: last.saturating_sub(r.below(200)),
            disk_guid: Uuid::from_bytes(g),
            part_start: r.next() >> r.below(64),
            num_parts: r.below(300) as u32,
            part_size: 128,
            crc32_parts: 0,
        };
        if !sane {
            h.current_lba = any_u64(r, 1);
            h.first_usable = any_u64(r, 34);
            h.last_usable = any_u64(r, last);
            h.num_parts = extreme32(r, 128);
            h.part_size = extreme32(r, 128);
        }
        if r.chance(1, 3) {
            std::mem::swap(&mut h.current_lba, &mut h.backup_lba);
        }
        note.push_str(&format!("from {:?}", H::of(&h)));
        b = lib(|| HeaderBuilder::from_header(&h));
        plba = h.current_lba.min(h.backup_lba);
        bak = h.current_lba.max(h.backup_lba);
        primary = h.current_lba < h.backup_lba;
        fu = h.first_usable;
        lu = h.last_usable;
        n = h.num_parts;
        ps = h.part_size;
        guid = Some(g);
    } else {
        b = lib(HeaderBuilder::new);
    }
    let mut was_set = false;
    for _ in 0..r.range(if from { 0 } else { 2 }, 8) {
        match r.below(8) {
            0 => {
                primary = r.chance(1, 2);
                lib(|| {
                    b.primary(primary);
                });
                note.push_str(&format!(" primary({primary})"));
            }
            1 => {
                let g = r.guid();
                guid = Some(g);
                lib(|| {
                    b.disk_guid(Uuid::from_bytes(g));
                });
            }
            2 | 3 => {
                bak = if sane { r.range(0, 1 << 45) >> r.below(40) } else { any_u64(r, plba) };
                lib(|| {
                    b.backup_lba(bak);
                });
                note.push_str(&format!(" backup_lba({bak})"));
            }
            4 => {
                fu = if sane { r.below(200) } else { any_u64(r, bak) };
                lib(|| {
                    b.first_usable(fu);
                });
                note.push_str(&format!(" first_usable({fu})"));
            }
            5 => {
                lu = if sane { bak.saturating_sub(r.below(200)) } else { any_u64(r, bak) };
                lib(|| {
                    b.last_usable(lu);
                });
                note.push_str(&format!(" last_usable({lu})"));
            }
            6 => {
                let x = if sane { r.below(1000) as u32 } else { extreme32(r, 128) };
                n = x.max(128);
                was_set = true;
                lib(|| {
                    b.num_parts(x);
                });
                note.push_str(&format!(" num_parts({x})"));
            }
            _ => {
                ps = if sane { *r.pick(&[128u32, 128, 256, 64, 512, 4096]) } else { extreme32(r, 128) };
                lib(|| {
                    b.part_size(ps);
                });
                note.push_str(&format!(" part_size({ps})"));
            }
        }
    }
    c.note(format!("{note}, block size {lb}"));
    c.nontrivial = true;
    if was_set {
        c.count("counts_set", 1);
    }
    // what these requests mean, exactly
    let arr = (u128::from(n) * u128::from(ps) + u128::from(lb) - 1) / u128::from(lb);
    let min_fu = u128::from(plba) + 1 + arr;
    let max_lu = i128::try_from(u128::from(bak)).unwrap() - 1 - i128::try_from(arr).unwrap();
    let want_fu = u128::from(fu).max(min_fu);
    let want_lu = if lu == 0 { max_lu } else { max_lu.min(i128::from(lu)) };
    let feasible = plba <= bak && max_lu > 0 && want_lu >= 0 && want_fu <= want_lu as u128;
    let h = match lib(|| b.build(lbs(lb))) {
        Ok(h) => h,
        Err(e) => {
            let _ = format!("{e}");
            ensure!(
                !(feasible && bak < 1 << 62),
                "refused ({e}) although everything fits: usable range {want_fu}..={want_lu}"
            );
            c.count("refused", 1);
            return Ok(());
        }
    };
    c.count("built", 1);
    c.note(format!("{:?}", H::of(&h)));
    ensure!(
        (h.signature.as_str(), h.revision, h.header_size_le, h.reserved) == ("EFI PART", (1, 0), 92, 0),
        "wrong constants in {h:?}"
    );
    let pos = if primary { (plba, bak) } else { (bak, plba) };
    ensure!((h.current_lba, h.backup_lba) == pos, "positions {}, {} instead of {pos:?}", h.current_lba, h.backup_lba);
    ensure!(h.num_parts == n, "{} entries instead of {n}", h.num_parts);
    ensure!(h.part_size == ps, "entry size {} instead of {ps}", h.part_size);
    if was_set {
        ensure!(h.num_parts >= 128, "entry count {}", h.num_parts);
    }
    match guid {
        Some(g) => ensure!(*h.disk_guid.as_bytes() == g, "another GUID"),
        None => c.generated.push(*h.disk_guid.as_bytes()),
    }
    if let Err(e) = judge_layout(&h, lb) {
        viol!("{e}");
    }
    if u128::from(fu) >= min_fu {
        c.count("limits_kept", 1);
        ensure!(h.first_usable == fu, "first usable block {} although {fu} leaves enough room", h.first_usable);
    }
    if lu != 0 && i128::from(lu) <= max_lu {
        c.count("limits_kept", 1);
        ensure!(h.last_usable == lu, "last usable block {} although {lu} leaves enough room", h.last_usable);
    }
    // again, and rebuilt
    let h2 = match lib(|| b.build(lbs(lb))) {
        Ok(h) => h,
        Err(e) => viol!("building again fails: {e}"),
    };
    ensure!(h2 == h, "building again gives {h2:?} after {h:?}");
    for flip in [false, true] {
        let p = primary != flip;
        let r = lib(|| {
            let mut b = HeaderBuilder::from_header(&h);
            if flip || c.rng.chance(1, 2) {
                b.primary(p);
            }
            b.build(lbs(lb))
        });
        let m = match r {
            Ok(m) => m,
            Err(e) => viol!("rebuilding {h:?} fails: {e}"),
        };
        let pos = if p { (plba, bak) } else { (bak, plba) };
        ensure!(
            (m.disk_guid, m.num_parts, m.part_size, m.first_usable, m.last_usable, m.current_lba, m.backup_lba)
                == (h.disk_guid, h.num_parts, h.part_size, h.first_usable, h.last_usable, pos.0, pos.1),
            "rebuilt as {m:?} from {h:?}"
        );
        if let Err(e) = judge_layout(&m, lb) {
            viol!("rebuilt: {e}");
        }
        c.count("rebuilt", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------- C25

fn any_p(r: &mut Rng) -> P {
    let ty = if r.chance(1, 6) { [0; 16] } else { gen_type(r) };
    let (a, b) = (r.next() >> r.below(64), r.next() >> r.below(64));
    gen_p(r, ty, a, b)
}

fn entry_bytes(p: &P, size: usize) -> Vec<u8> {
    let mut v = raw_entry(p).encode().to_vec();
    v.resize(size, 0);
    v
}

fn diff_text(a: &Image, b: &Image) -> String {
    let d = a.diff(b);
    format!("{:?}", &d[..d.len().min(4)])
}

fn c25_entries(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let many = c.rng.chance(1, 6);
    let n = 40_000 + c.rng.below(if many { 600_000 } else { 60_000 });
    let img = Image::new(n, c.rng.next() | 1);
    let dev = Dev::new(img.clone());
    if c.rng.chance(1, 4) {
        dev.inner.borrow_mut().flaky = c.rng.next() | 1;
    }
    let mut want = img;
    for _ in 0..c.rng.range(1, 5) {
        let esize = *c.rng.pick(&[128u32, 128, 128, 256, 136, 512]);
        let start = c.rng.below(n / lb + 1);
        let start = if many { start / 8 } else { start };
        let idx = c.rng.below(if many { 1030 } else { 130 });
        let pos = c.rng.below(n);
        dev.set_pos(pos);
        let off = start * lb + idx * u64::from(esize);
        let mut d = dev.share();
        if c.rng.chance(1, 2) {
            let p = any_p(&mut c.rng);
            c.note(format!("entry {idx} of {esize} bytes at block {start}: {p:?}"));
            let r = lib(|| p.to_lib().write_to_device(&mut d, idx, start, lbs(lb), esize));
            if off + u64::from(esize) <= n {
                if let Err(e) = r {
                    viol!("write_to_device: {e}");
                }
                want.put(off, &entry_bytes(&p, esize as usize));
                c.count("entries_written", 1);
            } else {
                ensure!(r.is_err(), "an entry at byte {off} of a device of {n} bytes");
                settle(&mut want, &dev, off)?;
            }
        } else {
            let k = match many {
                true => c.rng.below(2000),
                false => c.rng.below(30),
            };
            if k > 128 {
                c.count("long_runs_cleared", 1);
            }
            c.note(format!("clear {k} entries of {esize} bytes from {idx} at block {start}"));
            let r = lib(|| Partition::write_zero_entries_to_device(&mut d, idx, k, start, lbs(lb), esize));
            let len = k * u64::from(esize);
            if len == 0 || off + len <= n {
                if let Err(e) = r {
                    viol!("write_zero_entries_to_device: {e}");
                }
                if len > 0 {
                    want.put(off, &vec![0; len as usize]);
                }
                c.count("entries_cleared", k);
            } else {
                ensure!(r.is_err(), "entries {off}+{len} on a device of {n} bytes");
                settle(&mut want, &dev, off)?;
            }
        }
        let now = dev.image();
        ensure!(now.same(&want), "bytes {} are not as they should be", diff_text(&want, &now));
    }
    Ok(())
}

/// After a failure at the end of the device: nothing before the entry changed.
fn settle(want: &mut Image, dev: &Dev, off: u64) -> R {
    let now = dev.image();
    for (a, b) in want.diff(&now) {
        ensure!(a >= off, "bytes {a}..{b} changed, the entry is at {off}");
    }
    *want = now;
    Ok(())
}

fn some_disk(c: &mut Ctx, lb: u64) -> Image {
    let f = loop {
        let f = gen_foreign(&mut c.rng, lb, false, 1);
        if f.img.size < 4 << 20 {
            break f;
        }
    };
    let mut img = f.img.clone();
    let last = last_lba(img.size, lb);
    match c.rng.below(6) {
        0 => damage(&mut c.rng, &mut img, lb, 92),
        1 => damage(&mut c.rng, &mut img, last * lb, 92),
        2 => {
            let z = vec![0; lb as usize];
            img.put(lb, &z);
        }
        3 => damage(&mut c.rng, &mut img, f.prim.pstart * lb, f.prim.array_bytes()),
        _ => {}
    }
    img
}

fn c25_read(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = some_disk(c, lb);
    c.note(format!("disk of {} bytes, block size {lb}", img.size));
    let conf = Conf::plain(lb);
    let dev = Dev::new(img.clone());
    let pos = if c.rng.chance(1, 3) { img.size + c.rng.below(1000) } else { c.rng.below(img.size) };
    dev.set_pos(pos);
    if c.rng.chance(1, 3) {
        dev.inner.borrow_mut().flaky = c.rng.next() | 1;
    }
    let mut d = dev.share();
    let opened = open_image(&img, conf);
    let h = lib(|| gpt::header::read_header_from_arbitrary_device(&mut d, lbs(lb)));
    ensure!(dev.pos() == pos, "reading a header moved the device from {pos} to {}", dev.pos());
    let by_own = read_copy(&img, lb, 1);
    let prim_ok = {
        let b = img.get(lb, 92).unwrap();
        RawHeader::decode(&b).valid()
    };
    ensure!(h.is_ok() == prim_ok, "reading the header: {:?}, its checksum is right: {prim_ok}", h.as_ref().map(H::of).map_err(herr));
    let dir = Scratch::new();
    let path = dir.file("disk", &img);
    let hp = lib(|| gpt::header::read_header(&path, lbs(lb)));
    match (&h, &hp) {
        (Ok(a), Ok(b)) => ensure!(a == b, "header by path {b:?}, from the device {a:?}"),
        (Err(a), Err(b)) => ensure!(herr(a) == herr(b), "header by path: {b}, from the device: {a}"),
        _ => viol!("header by path {:?}, from the device {:?}", hp.is_ok(), h.is_ok()),
    }
    if let Ok(o) = &opened {
        c.count("headers_compared", 1);
        let s = snap(o);
        if prim_ok && by_own.is_ok() {
            ensure!(s.prim == Ok(H::of(h.as_ref().unwrap())), "opening reports {:?}, reading gives {h:?}", s.prim);
        }
        if !prim_ok {
            ensure!(s.prim == Err(herr(h.as_ref().unwrap_err()).into()), "opening reports {:?}, reading gives {h:?}", s.prim);
        }
        // the table, through each header opening reports
        for h in [s.prim.is_ok().then(|| lib(|| o.primary_header().unwrap().clone())), s.back.is_ok().then(|| lib(|| o.backup_header().unwrap().clone()))].into_iter().flatten() {
            let own = read_copy(&img, lb, h.current_lba);
            let pos = c.rng.below(img.size);
            dev.set_pos(pos);
            let mut d = dev.share();
            let a = lib(|| gpt::partition::file_read_partitions(&mut d, &h, lbs(lb)));
            let b = lib(|| gpt::partition::read_partitions(&path, &h, lbs(lb)));
            ensure!(a.is_ok() == own.is_ok(), "reading the table of {h:?}: {a:?}, it is intact: {}", own.is_ok());
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    ensure!(a == b, "the table by path differs from the one from the device");
                    let (a, t) = (table(&a), s.parts.clone());
                    ensure!(a == t, "reading and opening differ: {}", table_diff(&t, &a));
                    c.count("tables_compared", 1);
                }
                (Err(_), Err(_)) => {}
                _ => viol!("the table by path and from the device differ"),
            }
        }
    } else {
        c.count("not_opened", 1);
    }
    // read_disk: as opening with the default configuration
    let a = lib(|| gpt::disk::read_disk(&path));
    let b = open_image(&img, Conf::plain(512));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (snap(&a), snap(&b));
            ensure!(a == b, "read_disk gives {a:?}, opening {b:?}");
            c.count("disks_compared", 1);
        }
        (Err(a), Err(b)) => ensure!(gerr(&a) == b, "read_disk fails with {a}, opening with {b}"),
        (a, b) => viol!("read_disk: {:?}, opening: {:?}", a.is_ok(), b.is_ok()),
    }
    ensure!(load(&path).same(&img) && dev.image().same(&img), "reading modified the disk");
    Ok(())
}

fn c25_header(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let blocks = c.rng.range(6, 90);
    let size = blocks * lb + c.rng.below(lb);
    let img = Image::new(size, c.rng.next() | 1);
    let r = &mut c.rng;
    let near = |r: &mut Rng| match r.below(6) {
        0 => blocks - 1,
        1 => 1,
        2 => blocks + r.below(3),
        3 if r.chance(1, 4) => u64::MAX - r.below(3),
        _ => r.below(blocks),
    };
    let mut h = Header {
        signature: "EFI PART".into(),
        revision: (1, 0),
        header_size_le: 92,
        crc32: r.next() as u32,
        reserved: 0,
        current_lba: near(r),
        backup_lba: near(r),
        first_usable: r.next() >> r.below(64),
        last_usable: r.next() >> r.below(64),
        disk_guid: Uuid::from_bytes(r.guid()),
        part_start: near(r),
        num_parts: r.below(60) as u32,
        part_size: 128,
        crc32_parts: r.next() as u32,
    };
    if r.chance(1, 6) {
        h.backup_lba = h.current_lba;
    }
    let as_primary = r.chance(1, 2);
    let dev = Dev::new(img.clone());
    dev.set_pos(r.below(size));
    if r.chance(1, 4) {
        dev.inner.borrow_mut().flaky = r.next() | 1;
    }
    c.note(format!("write {} {:?} on {blocks} blocks of {lb}", if as_primary { "primary" } else { "backup" }, H::of(&h)));
    let role = if as_primary { h.current_lba < h.backup_lba } else { h.current_lba > h.backup_lba };
    let before = h.clone();
    let mut d = dev.share();
    let res = lib(|| if as_primary { h.write_primary(&mut d, lbs(lb)) } else { h.write_backup(&mut d, lbs(lb)) });
    let now = dev.image();
    if !role {
        ensure!(res.is_err(), "written although this is not its role");
        ensure!(now.same(&img), "refused, but the device changed");
        c.count("roles_refused", 1);
        return Ok(());
    }
    let alen = u64::from(h.num_parts) * 128;
    let array = h.part_start.checked_mul(lb).and_then(|o| img.get(o, alen as usize));
    let fits = h.current_lba < blocks;
    if h.num_parts == 0 && array.is_none() {
        return Ok(()); // where nothing begins is of no consequence
    }
    match (res, array.filter(|_| fits)) {
        (Ok(k), Some(a)) => {
            ensure!(k as u64 == lb, "reports {k} bytes written");
            let mut raw = RawHeader {
                sig: *b"EFI PART",
                minor: 0,
                major: 1,
                hsize: 92,
                crc: 0,
                reserved: 0,
                my: before.current_lba,
                alt: before.backup_lba,
                fu: before.first_usable,
                lu: before.last_usable,
                guid: *before.disk_guid.as_bytes(),
                pstart: before.part_start,
                n: before.num_parts,
                psize: 128,
                pcrc: crc32(&a),
            };
            raw.crc = raw.expected_crc();
            let mut want = img.clone();
            let mut blk = raw.encode().to_vec();
            blk.resize(lb as usize, 0);
            want.put(h.current_lba * lb, &blk);
            ensure!(now.same(&want), "the device is not as it should be in {}", diff_text(&want, &now));
            ensure!(H::of(&h) == H::raw(&raw), "in memory {h:?}, on the device {raw:?}");
            c.count("headers_written", 1);
        }
        (Err(_), None) => {
            // at most the beginning of a block at the end of the device
            for (a, b) in img.diff(&now) {
                ensure!(a / lb == h.current_lba && b <= size, "refused, but bytes {a}..{b} changed");
            }
            c.count("impossible_refused", 1);
        }
        (Ok(_), None) => viol!("success although the header or its array lies outside of the device"),
        (Err(e), Some(_)) => viol!("{e}"),
    }
    Ok(())
}

fn c25_path(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let dir = Scratch::new();
    let min = min_blocks(128, lb);
    let blocks = if c.rng.chance(1, 5) { c.rng.below(min + 1) } else { min + 1 + c.rng.below(200) };
    #[cfg(not(miri))]
    let huge = c.rng.chance(1, 4);
    #[cfg(miri)]
    let huge = false;
    let blocks = match huge {
        // at and beyond 2^31 and 2^32 blocks or bytes
        true => {
            let edge = *c.rng.pick(&[(1 << 31) / lb, (1 << 32) / lb, 1 << 31, 1 << 32, (1u64 << 43) / lb]);
            (edge + c.rng.below(5) - 2).min((1 << 43) / lb)
        }
        false => blocks,
    };
    let size = blocks * lb + c.rng.below(lb);
    let img = Image::new(size, if huge || c.rng.chance(1, 4) { 0 } else { c.rng.next() | 1 });
    #[cfg(not(miri))]
    let (path, load): (_, fn(&std::path::Path) -> Image) = match huge {
        true => match super::files::huge_file(&dir, "disk", size) {
            Some(p) => (p, super::files::load_huge),
            None => return Err(crate::ctx::Stop::Skip("no files of that size here")),
        },
        false => (dir.file("disk", &img), load),
    };
    #[cfg(miri)]
    let path = dir.file("disk", &img);
    c.count("huge_files", u64::from(huge));
    let g = c.rng.chance(2, 3).then(|| c.rng.guid());
    c.note(format!("write_header on a file of {size} bytes, block size {lb}, guid {g:02x?}"));
    let mut want = img.clone();
    match lib(|| gpt::header::write_header(&path, g.map(Uuid::from_bytes), lbs(lb))) {
        Ok(got) => {
            let now = load(&path);
            let got = *got.as_bytes();
            match g {
                Some(g) => ensure!(g == got, "returned {got:02x?} instead of the GUID given"),
                None => {
                    ensure!(got[6] >> 4 == 4 && got[8] >> 6 == 2, "generated {got:02x?}");
                    c.generated.push(got);
                }
            }
            let blk = now.get(lb, lb as usize).unwrap();
            want.put(lb, &blk);
            ensure!(now.same(&want), "more than block 1 changed: {}", diff_text(&want, &now));
            let t = match read_copy(&now, lb, 1) {
                Ok(t) => t,
                Err(e) => viol!("the header written is not valid: {e}"),
            };
            let h = &t.h;
            ensure!(blk[92..].iter().all(|b| *b == 0), "the remainder of the block is not zero");
            ensure!(h.guid == got, "on disk {:02x?}, returned {got:02x?}", h.guid);
            ensure!(
                (h.my, h.alt, h.major, h.minor, h.hsize, h.reserved, h.psize) == (1, last_lba(size, lb), 1, 0, 92, 0, 128) && h.n >= 128,
                "header {h:?}"
            );
            let a = h.array_blocks(lb);
            ensure!(a.0 >= 2 && a.1 <= h.fu && h.fu <= h.lu && h.lu < h.alt, "layout of {h:?}");
            match lib(|| gpt::header::read_header(&path, lbs(lb))) {
                Ok(x) => ensure!(H::of(&x) == H::raw(h), "read back as {x:?}"),
                Err(e) => viol!("the header written does not read back: {e}"),
            }
            c.count("headers_by_path", 1);
        }
        Err(e) => {
            ensure!(blocks < min, "write_header on {blocks} blocks: {e}");
            ensure!(load(&path).same(&img), "refused, but the file changed");
            c.count("too_small", 1);
        }
    }
    want = load(&path);
    // paths that name no file: refused, and nothing appears there
    if c.rng.chance(1, 3) {
        let gone = dir.dir.join("missing");
        match c.rng.below(3) {
            0 => ensure!(lib(|| any_p(&mut c.rng).to_lib().write(&gone, 0, 2, lbs(lb))).is_err(), "an entry was written to a missing file"),
            1 => ensure!(lib(|| gpt::header::write_header(&gone, None, lbs(lb))).is_err(), "a header was written to a missing file"),
            _ => ensure!(lib(|| gpt::header::read_header(&gone, lbs(lb))).is_err(), "a header was read from a missing file"),
        }
        ensure!(!gone.exists(), "the missing file was created");
        c.count("missing_files", 1);
    }
    // one entry by path
    let p = any_p(&mut c.rng);
    let idx = match c.rng.below(4) {
        0 if !huge || c.rng.chance(1, 4) => c.rng.below(size / 128 + 2),
        _ => c.rng.below(128),
    };
    let start = c.rng.below(if idx > 128 { blocks / 2 + 1 } else { blocks + 2 });
    let off = start * lb + idx * 128;
    c.note(format!("entry {idx} at block {start} by path: {p:?}"));
    let r = lib(|| p.to_lib().write(&path, idx, start, lbs(lb)));
    if off + 128 <= size {
        if let Err(e) = r {
            viol!("Partition::write: {e}");
        }
        want.put(off, &entry_bytes(&p, 128));
        let now = load(&path);
        ensure!(now.same(&want), "bytes {} are not as they should be", diff_text(&want, &now));
        c.count("entries_by_path", 1);
    }
    Ok(())
}

pub fn c25(c: &mut Ctx) -> R {
    c.nontrivial = true;
    match c.rng.below(8) {
        0 | 1 => c25_entries(c),
        2..=4 => c25_read(c),
        5 | 6 => c25_header(c),
        _ => c25_path(c),
    }
}

// ---------------------------------------------------------------------- C26

fn c26_lengths(c: &mut Ctx) -> R {
    for _ in 0..20 {
        let r = &mut c.rng;
        let a = any_u64(r, u64::MAX);
        let b = any_u64(r, a);
        let lb = gen_lb(r);
        let mut p = gen_p(r, [1; 16], a, b);
        p.name = String::new();
        c.note(format!("{a}..={b} in blocks of {lb}"));
        let p = p.to_lib();
        let fit = |v: u128| u64::try_from(v).ok();
        let blocks = if b >= a { fit(u128::from(b) - u128::from(a) + 1) } else { None };
        let bytes = if b >= a { fit((u128::from(b) - u128::from(a) + 1) * u128::from(lb)) } else { None };
        let start = fit(u128::from(a) * u128::from(lb));
        let got = lib(|| (p.sectors_len().ok(), p.bytes_len(lbs(lb)).ok(), p.bytes_start(lbs(lb)).ok()));
        ensure!(
            got == (blocks, bytes, start),
            "partition {a}..={b}: sectors_len, bytes_len, bytes_start are {got:?}, exactly {:?}",
            (blocks, bytes, start)
        );
        c.count("values_checked", 3);
        c.count("must_be_errors", [blocks, bytes, start].iter().filter(|v| v.is_none()).count() as u64);
    }
    Ok(())
}

/// A device that takes everything anywhere and remembers where.
#[derive(Debug, Default)]
struct Anywhere {
    pos: u64,
    writes: Vec<(u64, u64)>,
}

impl std::io::Read for Anywhere {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        b.fill(0);
        self.pos = self.pos.wrapping_add(b.len() as u64);
        Ok(b.len())
    }
}

impl std::io::Write for Anywhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            self.writes.push((self.pos, b.len() as u64));
        }
        self.pos = self.pos.wrapping_add(b.len() as u64);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl std::io::Seek for Anywhere {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match s {
            std::io::SeekFrom::Start(p) => p,
            std::io::SeekFrom::End(o) => u64::MAX.wrapping_add(o as u64),
            std::io::SeekFrom::Current(o) => self.pos.wrapping_add(o as u64),
        };
        Ok(self.pos)
    }
}

fn c26_offsets(c: &mut Ctx) -> R {
    let size = match c.rng.below(3) {
        0 => i64::MAX as u64,
        1 => 1 << 40,
        _ => 100_000 + c.rng.below(1 << 20),
    };
    let dev = Dev::new(Image::new(size, 0));
    for _ in 0..12 {
        let r = &mut c.rng;
        let lb = gen_lb(r);
        let esize = *r.pick(&[128u32, 128, 256, 512, 4096]);
        // offsets around something interesting
        let target = match r.below(6) {
            0 => 1u128 << 64,
            1 => u128::from(size),
            2 => 1 << 63,
            3 => (1u128 << 64) + u128::from(r.next() >> r.below(64)),
            _ => u128::from(r.next() >> r.below(64)),
        };
        let idx = if r.chance(1, 2) { r.below(1 << 20) } else { any_u64(r, u64::MAX / u64::from(esize)) };
        let start = match u64::try_from(target.saturating_sub(u128::from(idx) * u128::from(esize)) / u128::from(lb)) {
            Ok(s) => s.saturating_add(r.below(5)).saturating_sub(2),
            Err(_) => any_u64(r, u64::MAX / lb),
        };
        let off = u128::from(start) * u128::from(lb) + u128::from(idx) * u128::from(esize);
        let clear = r.chance(1, 3);
        let k = if clear { r.range(1, 40) } else { 1 };
        let len = u128::from(esize) * u128::from(k);
        let p = gen_p(r, gen_type(&mut r.clone()), 1, 2);
        c.note(format!("entry {idx} of {esize} bytes, array at block {start} of {lb}, {k} entries, clear {clear}"));
        dev.set_pos(0);
        let before = dev.image();
        let mut d = dev.share();
        let res = lib(|| {
            if clear {
                Partition::write_zero_entries_to_device(&mut d, idx, k, start, lbs(lb), esize)
            } else {
                p.to_lib().write_to_device(&mut d, idx, start, lbs(lb), esize)
            }
        });
        let after = dev.image();
        c.count("offsets_checked", 1);
        if off + len <= u128::from(size) {
            if let Err(e) = res {
                viol!("at byte {off}: {e}");
            }
            let data = if clear { vec![0; len as usize] } else { entry_bytes(&p, esize as usize) };
            let mut want = before.clone();
            want.put(off as u64, &data);
            ensure!(after.same(&want), "the entry belongs to byte {off}, changed: {}", diff_text(&before, &after));
            c.count("entries_placed", 1);
        } else {
            ensure!(res.is_err(), "success for an entry at byte {off} of {size}");
            for (a, b) in before.diff(&after) {
                ensure!(u128::from(a) >= off, "the entry belongs to byte {off}, changed {a}..{b}");
            }
            if off > u128::from(u64::MAX) {
                c.count("must_be_errors", 1);
                ensure!(before.same(&after), "the offset {off} does not fit, but {} changed", diff_text(&before, &after));
            }
        }
        // the same on a device that has every offset
        let mut d = Anywhere::default();
        let res = lib(|| {
            if clear {
                Partition::write_zero_entries_to_device(&mut d, idx, k, start, lbs(lb), esize)
            } else {
                p.to_lib().write_to_device(&mut d, idx, start, lbs(lb), esize)
            }
        });
        if off > u128::from(u64::MAX) {
            ensure!(res.is_err(), "the offset {off} does not fit, but success, written: {:?}", d.writes);
            ensure!(d.writes.is_empty(), "the offset {off} does not fit, but written: {:?}", d.writes);
        } else if off + len <= 1 << 64 {
            if let Err(e) = res {
                viol!("the offset {off} fits, but {e}");
            }
            let mut at = off;
            for (o, l) in &d.writes {
                ensure!(u128::from(*o) == at, "the entry belongs to byte {off}, written: {:?}", d.writes);
                at += u128::from(*l);
            }
            ensure!(at == off + len, "the entry belongs to {off}..{}, written: {:?}", off + len, d.writes);
        }
        // start afresh where the device was hit
        let clean = Image::new(size, 0);
        dev.inner.borrow_mut().img = clean;
    }
    Ok(())
}

fn c26_alignment(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let size = (1u64 << 40) * lb;
    let dev = Dev::new(Image::new(size, 0));
    let conf = Conf { perm: true, ..Conf::plain(lb) };
    let mut d = create(c, conf, dev)?;
    for _ in 0..10 {
        let r = &mut c.rng;
        let k = r.below(5);
        let base = r.below(14);
        let mut t = BTreeMap::new();
        for i in 0..k {
            let first = match r.below(5) {
                0 => 0,
                1 => u64::MAX << r.below(64),
                2 => r.next() >> r.below(64),
                _ => (r.next() >> 20) << (base + r.below(2)),
            };
            let ty = if r.chance(1, 5) { [0; 16] } else { gen_type(r) };
            t.insert(1 + 3 * i as u32, gen_p(r, ty, first, first));
        }
        let starts: Vec<u64> = t.values().filter(|p| p.used()).map(|p| p.first).collect();
        c.note(format!("partitions at {starts:?} and {} unused", t.len() - starts.len()));
        let m = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
        if let Err(e) = lib(|| d.update_partitions(m)) {
            viol!("update_partitions: {}", gerr(&e));
        }
        let got = lib(|| d.calculate_alignment());
        let mut want = 2048u64;
        while starts.iter().any(|s| s % want != 0) {
            want /= 2;
        }
        let ok = if t.is_empty() {
            got == 0
        } else if starts.is_empty() {
            got == 0 || got == 2048
        } else {
            got == want
        };
        ensure!(ok, "alignment {got} for partitions starting at {starts:?}");
        c.count("alignments_checked", 1);
    }
    Ok(())
}

fn c26_block_sizes(c: &mut Ctx) -> R {
    let check = |v: u64| -> R {
        let r = lib(|| LogicalBlockSize::try_from(v));
        match (r, v) {
            (Ok(LogicalBlockSize::Lb512), 512) | (Ok(LogicalBlockSize::Lb4096), 4096) => {}
            (Err(_), v) if v != 512 && v != 4096 => {}
            (r, v) => viol!("block size {v} converts to {r:?}"),
        }
        Ok(())
    };
    if c.index == 0 {
        for v in 0..70_000 {
            check(v)?;
        }
        for i in 0..64 {
            for k in 0..64 {
                for base in [0, 512, 4096] {
                    check(base ^ (1 << i) ^ (1 << k))?;
                }
            }
        }
        c.count("block_sizes_checked", 82_288);
    }
    for _ in 0..50 {
        let v = match c.rng.below(4) {
            0 => (c.rng.next() << 13) + *c.rng.pick(&[512u64, 4096]),
            1 => 1 << c.rng.below(64),
            2 => any_u64(&mut c.rng, 4096),
            _ => u64::from_be_bytes(c.rng.pick(&[512u64, 4096]).to_le_bytes()),
        };
        check(v)?;
    }
    c.count("block_sizes_checked", 50);
    for (l, v) in [(LogicalBlockSize::Lb512, 512u64), (LogicalBlockSize::Lb4096, 4096)] {
        let got = lib(|| (l.as_u64(), l.as_usize() as u64, u64::from(l), usize::from(l) as u64, format!("{l}")));
        ensure!(got == (v, v, v, v, v.to_string()), "{l:?} converts to {got:?}");
    }
    ensure!(gpt::disk::DEFAULT_SECTOR_SIZE == LogicalBlockSize::Lb512, "default block size");
    Ok(())
}

pub fn c26(c: &mut Ctx) -> R {
    c.nontrivial = true;
    match c.index % 4 {
        0 => {
            c26_block_sizes(c)?;
            c26_lengths(c)
        }
        1 => c26_lengths(c),
        2 => c26_offsets(c),
        _ => c26_alignment(c),
    }
}
