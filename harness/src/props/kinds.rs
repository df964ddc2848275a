//! Type registry (C19); histories of every kind for C21 and C22.
use super::dmg::{self, hostile_image};
use super::files::Scratch;
use super::registry::registry;
use super::{edit, low, rw};
use crate::codec::{self, last_lba, swap_guid, Guid};
use crate::ctx::{lib, Ctx, Stop, Tier, R};
use crate::dev::{Call, Dev, Fault, Image, Plan};
use crate::prng::Rng;
use crate::world::*;
use crate::{ensure, viol};
use gpt::partition_types::{OperatingSystem, Type};
use gpt::{DiskDeviceObject, GptConfig, GptDisk};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::str::FromStr;
use uuid::Uuid;

// ---------------------------------------------------------------------- C19

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn hyphenated(g: &Guid) -> String {
    let h = hex(g);
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

fn own_parse(s: &str) -> Guid {
    let d: Vec<u8> = s.bytes().filter(|b| *b != b'-').map(|b| (b as char).to_digit(16).unwrap() as u8).collect();
    let mut g = [0; 16];
    for i in 0..16 {
        g[i] = d[2 * i] << 4 | d[2 * i + 1];
    }
    g
}

fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// every accepted notation of a GUID, the letter case of its digits varied
fn notations(r: &mut Rng, g: &Guid) -> Vec<String> {
    let h = hyphenated(g);
    vec![
        h.to_ascii_uppercase(),
        h.clone(),
        recase(r, &h),
        recase(r, &hex(g)),
        hex(g),
        hex(g).to_ascii_uppercase(),
        format!("{{{}}}", recase(r, &h)),
        format!("{{{}}}", h.to_ascii_uppercase()),
        format!("urn:uuid:{}", recase(r, &h)),
        format!("urn:uuid:{}", h.to_ascii_uppercase()),
    ]
}

fn judge_text(text: &str, g: &Guid, os: &OperatingSystem) -> R {
    for (how, t) in [("from_str", lib(|| Type::from_str(text))), ("from_name", lib(|| Type::from_name(text)))] {
        match t {
            Ok(t) => ensure!(
                t.guid.as_bytes() == g && t.os == *os,
                "{how}({text:?}) gives {t:?}, should be {} {os:?}",
                hyphenated(g)
            ),
            Err(e) => viol!("{how}({text:?}) fails: {e}"),
        }
    }
    Ok(())
}

fn judge_guid(c: &mut Ctx, g: &Guid, os: &OperatingSystem) -> R {
    for t in notations(&mut c.rng, g) {
        judge_text(&t, g, os)?;
        c.count("texts_resolved", 1);
    }
    let t = lib(|| Type::from(Uuid::from_bytes(*g)));
    ensure!(t.guid.as_bytes() == g && t.os == *os, "Type::from({}) gives {t:?}, should be {os:?}", hyphenated(g));
    Ok(())
}

/// The type found in an entry on disk.
fn judge_on_disk(c: &mut Ctx, gs: &[(Guid, OperatingSystem)]) -> R {
    let lb = gen_lb(&mut c.rng);
    let dev = Dev::new(Image::new((min_blocks(128, lb) + 200) * lb, 0));
    let conf = Conf { writable: true, ..Conf::plain(lb) };
    let mut d = create(c, conf, dev.share())?;
    if let Err(e) = lib(|| d.write_inplace()) {
        viol!("writing an empty table: {}", gerr(&e));
    }
    drop(d);
    let mut img = dev.image();
    let last = last_lba(img.size, lb);
    let mut prim = codec::RawHeader::decode(&img.get(lb, 92).unwrap());
    let mut back = codec::RawHeader::decode(&img.get(last * lb, 92).unwrap());
    let mut a = vec![0u8; prim.array_bytes() as usize];
    for (i, (g, _)) in gs.iter().enumerate() {
        let at = i * 128;
        a[at..at + 16].copy_from_slice(&swap_guid(g));
        a[at + 16..at + 32].copy_from_slice(&c.rng.guid());
        let b = prim.fu + i as u64;
        a[at + 32..at + 40].copy_from_slice(&b.to_le_bytes());
        a[at + 40..at + 48].copy_from_slice(&b.to_le_bytes());
    }
    for h in [&mut prim, &mut back] {
        h.pcrc = codec::crc32(&a);
        img.put(h.pstart * lb, &a);
        img.put(h.my * lb, &h.encode());
    }
    let d = match open_image(&img, Conf::plain(lb)) {
        Ok(d) => d,
        Err(e) => viol!("a disk with these types does not open: {e}"),
    };
    let parts = lib(|| d.partitions().clone());
    for (i, (g, os)) in gs.iter().enumerate() {
        match parts.get(&(i as u32 + 1)) {
            Some(p) => ensure!(
                p.part_type_guid.guid.as_bytes() == g && p.part_type_guid.os == *os,
                "type {} on disk is read as {:?}, should be {os:?}",
                hyphenated(g),
                p.part_type_guid
            ),
            None => viol!("the entry of type {} is not read", hyphenated(g)),
        }
        c.count("types_read_from_disk", 1);
    }
    Ok(())
}

/// Replaces one character by something that is like it for sloppy comparison.
fn fold_alikes(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let alike = |c: char| match c {
        'i' | 'I' => Some('\u{131}'),
        's' | 'S' => Some('\u{17f}'),
        'k' | 'K' => Some('\u{212a}'),
        'a'..='z' | 'A'..='Z' | '0'..='9' => char::from_u32(c as u32 + 0xfee0),
        '-' => Some('\u{2010}'),
        _ => None,
    };
    let special: Vec<usize> = (0..v.len()).filter(|i| "iskISK".contains(v[*i])).collect();
    let i = match special.is_empty() || r.chance(1, 4) {
        true => r.below(v.len() as u64) as usize,
        false => *r.pick(&special),
    };
    match alike(v[i]) {
        Some(c) => v[i] = c,
        None => v.push('\u{e9}'),
    }
    v.into_iter().collect()
}

pub fn c19(c: &mut Ctx) -> R {
    let reg = registry();
    c.nontrivial = true;
    let n = reg.len() as u64;
    if c.index < n {
        let (name, guid, os, t) = &reg[c.index as usize];
        c.note(format!("{name}"));
        let g = own_parse(guid);
        ensure!(t.guid.as_bytes() == &g && t.os == *os, "{name} is {t:?}, published: {guid} {os:?}");
        for s in [name.to_string(), name.to_ascii_lowercase(), recase(&mut c.rng, name), recase(&mut c.rng, name)] {
            judge_text(&s, &g, os)?;
            c.count("names_resolved", 1);
        }
        judge_guid(c, &g, os)?;
        c.count("known_types", 1);
        return Ok(());
    }
    if c.index == n {
        // all of them on one disk
        let gs: Vec<_> = reg.iter().map(|(_, g, o, _)| (own_parse(g), o.clone())).filter(|(g, _)| *g != [0; 16]).collect();
        c.note("every known type on disk".into());
        return judge_on_disk(c, &gs);
    }
    if c.index == n + 1 {
        let d = lib(Type::default);
        ensure!(d.guid.is_nil() && d.os == OperatingSystem::None, "the default type is {d:?}");
    }
    // any GUID, often close to a known one
    let known: Vec<Guid> = reg.iter().map(|(_, g, _, _)| own_parse(g)).collect();
    let mut list = vec![];
    for _ in 0..c.rng.range(1, 12) {
        let g = match c.rng.below(5) {
            0 => c.rng.guid(),
            1 => {
                let mut g = *c.rng.pick(&known);
                g[c.rng.below(16) as usize] ^= 1 << c.rng.below(8);
                g
            }
            2 => swap_guid(c.rng.pick(&known)),
            3 => {
                let mut g = *c.rng.pick(&known);
                g.reverse();
                g
            }
            _ => *c.rng.pick(&known),
        };
        let os = match known.iter().position(|k| *k == g) {
            Some(i) => reg[i].2.clone(),
            None => OperatingSystem::None,
        };
        c.note(hyphenated(&g));
        judge_guid(c, &g, &os)?;
        if !known.contains(&g) {
            c.count("unknown_types", 1);
        }
        if g != [0; 16] {
            list.push((g, os));
        }
    }
    if c.rng.chance(1, 4) {
        judge_on_disk(c, &list)?;
    }
    // what is neither
    for _ in 0..10 {
        let (name, guid, _, _) = c.rng.pick(&reg).clone();
        let s = match c.rng.below(15) {
            9 => format!("{name} "),
            10 => name.replace('_', if c.rng.chance(1, 2) { "-" } else { " " }),
            11 => {
                // letters that become ASCII in the other case
                let n = if c.rng.chance(1, 2) { name.to_ascii_lowercase() } else { name.to_string() };
                fold_alikes(&mut c.rng, &n)
            }
            12 => fold_alikes(&mut c.rng, &guid.to_ascii_lowercase()),
            13 => name.chars().map(|ch| char::from_u32(ch as u32 + 0xfee0).unwrap()).collect(),
            14 => format!("{name}\u{0}"),
            0 => String::new(),
            1 => format!("{name}_"),
            2 => format!(" {name}"),
            3 => name[..name.len() - 1].to_string(),
            4 => guid[..35].to_string(),
            5 => format!("{guid}0"),
            6 => {
                let mut b = guid.as_bytes().to_vec();
                let i = c.rng.below(36) as usize;
                b[i] = *c.rng.pick(b"gGxX_ zZ:/");
                String::from_utf8(b).unwrap()
            }
            7 => {
                let n = c.rng.below(50) as usize;
                (0..n).map(|_| *c.rng.pick(&['Q', 'z', '-', '{', '}', '\u{0}', 'é', '9', '\u{1F600}'])).collect()
            }
            _ => format!("{name}\n{guid}"),
        };
        let upper = s.to_ascii_uppercase();
        if reg.iter().any(|(n, g, _, _)| upper == *n || upper == *g) {
            continue;
        }
        let digits = s.bytes().filter(|b| b.is_ascii_hexdigit()).count();
        if digits == 32 {
            // might be another notation of a GUID
            continue;
        }
        for r in [lib(|| Type::from_str(&s)), lib(|| Type::from_name(&s))] {
            ensure!(r.is_err(), "{s:?} is neither a name nor a GUID but gives {r:?}");
        }
        c.count("garbage_rejected", 1);
    }
    // notations which are nearly right
    let (name, guid, _, _) = c.rng.pick(&reg).clone();
    let g = recase(&mut c.rng, guid);
    let simple = guid.replace('-', "");
    for s in [
        format!("{{{g}"),
        format!("{g}}}"),
        format!("}}{g}{{"),
        format!("({g})"),
        format!("<{g}>"),
        format!("\"{g}\""),
        format!("{{{{{g}}}}}"),
        format!("{{{name}}}"),
        format!("urn:uuid:{name}"),
        format!("urn:uuid:urn:uuid:{g}"),
        format!("urn:uuid:{{{g}}}"),
        format!("urn:{g}"),
        format!("uuid:{g}"),
        format!("0x{simple}"),
        format!("{simple}-"),
        format!("-{simple}"),
        format!("{}--{}", &guid[..8], &guid[9..]),
        format!("{}{}", &guid[..8], &guid[9..]),
        format!("{g},"),
        format!("{g}\n"),
        format!("\t{g}"),
    ] {
        for r in [lib(|| Type::from_str(&s)), lib(|| Type::from_name(&s))] {
            ensure!(r.is_err(), "{s:?} is neither a name nor a GUID but gives {r:?}");
        }
        c.count("near_notations_rejected", 1);
    }
    Ok(())
}

// -------------------------------------------------- histories of every kind

/// A device whose answers are wrong.
struct Liar {
    d: Dev,
    r: Rng,
}

impl std::fmt::Debug for Liar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Liar")
    }
}

impl Read for Liar {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.r.below(12) {
            // nothing transferred
            0 => Ok(buf.len()),
            1 => Ok(buf.len() + 1 + self.r.below(5) as usize),
            2 => Ok(usize::MAX),
            3 => {
                let n = self.d.read(buf)?;
                Ok((n + self.r.below(9) as usize).min(buf.len()))
            }
            _ => self.d.read(buf),
        }
    }
}

impl Write for Liar {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.r.below(12) {
            0 => Ok(buf.len()),
            1 => Ok(buf.len() + 1 + self.r.below(5) as usize),
            2 => Ok(usize::MAX),
            _ => self.d.write(buf),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.d.flush()
    }
}

impl Seek for Liar {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let n = self.d.seek(to)?;
        match self.r.below(10) {
            0 => Ok(self.r.next() >> self.r.below(64)),
            1 => Ok(u64::MAX),
            _ => Ok(n),
        }
    }
}

/// Bytes of what the library hands out as text.
fn texts<D>(d: &GptDisk<D>) -> R {
    let bad = |what: &str, s: &str| -> R {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            viol!("{what} is not valid UTF-8: {:02x?}", s.as_bytes());
        }
        Ok(())
    };
    for p in lib(|| d.partitions()).values() {
        bad("a partition name", &p.name)?;
    }
    for h in [lib(|| d.primary_header()), lib(|| d.backup_header())].into_iter().flatten() {
        bad("a header signature", &h.signature)?;
    }
    Ok(())
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

fn state(c: &mut Ctx, w: &World) {
    if cfg!(miri) {
        return;
    }
    let s = hash(&format!("{:?}", w.snap()));
    c.note(format!("state {s:016x}"));
}

fn bias() -> Bias {
    Bias { readonly: 5, damaged: 25, wild: true, full: if cfg!(miri) { 0 } else { 3 }, small_foreign: true, huge: !cfg!(miri), foreign: if cfg!(miri) { 80 } else { 20 }, ..Bias::default() }
}

fn k_history(c: &mut Ctx) -> R {
    let b = bias();
    let mut w = gen_world(c, b)?;
    w.dev.inner.borrow_mut().peek = true;
    for _ in 0..c.rng.range(1, if cfg!(miri) { 3 } else { 10 }) {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        w.step(c, op)?;
        texts(w.d())?;
        state(c, &w);
    }
    done(w)
}

fn done(w: World) -> R {
    let World { disk, dev, .. } = w;
    drop(disk);
    unshared(&dev)
}

fn unshared(dev: &Dev) -> R {
    let n = Rc::strong_count(&dev.inner);
    ensure!(n == 1, "the device is leaked: {} references are left", n - 1);
    Ok(())
}

fn k_hostile(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = hostile_image(c, lb);
    let conf = Conf {
        lb: if c.rng.chance(1, 10) { 4608 - lb } else { lb },
        writable: true,
        only_valid: c.rng.chance(1, 5),
        ro_backup: c.rng.chance(1, 4),
        perm: c.rng.chance(1, 3),
    };
    let dev = Dev::new(img.clone());
    {
        let mut i = dev.inner.borrow_mut();
        i.peek = true;
        i.budget = 200_000 + img.size;
    }
    match lib(|| conf.config().open_from_device(dev.share())) {
        Err(e) => {
            c.note(gerr(&e));
            unshared(&dev)
        }
        Ok(d) => {
            texts(&d)?;
            let mut w = World { disk: Some(d), dev, conf, safe_n: 0, size: img.size, start: "hostile" };
            for _ in 0..c.rng.range(1, 5) {
                let s = w.snap();
                let op = gen_op(&mut c.rng, &s, &bias());
                if matches!(op, Op::Reopen | Op::WriteConsume) {
                    continue;
                }
                w.step(c, op)?;
                texts(w.d())?;
                state(c, &w);
            }
            done(w)
        }
    }
}

fn k_faulty(c: &mut Ctx) -> R {
    let b = bias();
    let mut w = gen_world(c, b)?;
    w.dev.inner.borrow_mut().peek = true;
    for _ in 0..c.rng.range(1, if cfg!(miri) { 2 } else { 6 }) {
        let fault = *c.rng.pick(&[
            Fault::Error(io::ErrorKind::Other),
            Fault::Error(io::ErrorKind::UnexpectedEof),
            Fault::Interrupted,
            Fault::Short,
            Fault::Zero,
            Fault::PartialError,
        ]);
        let plan = Plan { at: c.rng.below(30), fault, persistent: !matches!(fault, Fault::Interrupted) && c.rng.chance(1, 3) };
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            Op::Reopen | Op::WriteConsume => Op::Write,
            o => o,
        };
        c.note(format!("{plan:?}"));
        w.dev.set_plan(Some(plan));
        w.step(c, op)?;
        state(c, &w);
        if c.rng.chance(1, 3) {
            // opening and creating on it, too
            let conf = w.conf;
            w.dev.set_plan(Some(plan));
            let r = lib(|| conf.config().open_from_device(w.dev.share())).map(|d| snap(&d));
            c.note(format!("open {:?}", r.map(|s| s.n_used()).map_err(|e| gerr(&e))));
            w.dev.set_plan(Some(plan));
            let r = lib(|| conf.config().create_from_device(w.dev.share(), Some(Uuid::from_bytes([1; 16])))).map(|d| snap(&d));
            c.note(format!("create {:?}", r.map(|s| s.n_used()).map_err(|e| gerr(&e))));
        }
        w.dev.set_plan(None);
        let s = w.snap();
        let op = match gen_op(&mut c.rng, &s, &b) {
            Op::Reopen | Op::WriteConsume => Op::Query,
            o => o,
        };
        w.step(c, op)?;
        texts(w.d())?;
        state(c, &w);
    }
    k_half_opened(c, &mut w)?;
    done(w)
}

/// Opened while one copy could not be read: the disk keeps the error, until it is
/// replaced by a write or an edit.
fn k_half_opened(c: &mut Ctx, w: &mut World) -> R {
    let conf = Conf { writable: true, only_valid: false, ..w.conf };
    for _ in 0..2 {
        let at = c.rng.below(12);
        let kind = *c.rng.pick(&[io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::InvalidInput]);
        w.dev.set_plan(Some(Plan { at, fault: Fault::Error(kind), persistent: false }));
        let r = lib(|| conf.config().open_from_device(w.dev.share()));
        w.dev.set_plan(None);
        let mut d = match r {
            Ok(d) => d,
            Err(e) => {
                c.note(format!("not opened: {}", gerr(&e)));
                continue;
            }
        };
        let lost = d.primary_header().is_err() || d.backup_header().is_err();
        c.count("half_opened", u64::from(lost));
        texts(&d)?;
        let what = c.rng.below(4);
        let r = match what {
            0 => {
                let t = d.partitions().clone();
                lib(|| d.update_partitions(t))
            }
            1 => lib(|| d.clone().write_inplace()),
            2 => lib(|| d.with_disk_device(w.dev.share(), true).write().map(|_| ())),
            _ => Ok(()),
        };
        let r2 = lib(|| d.write_inplace());
        c.note(format!("half opened {at} {kind:?} {what}: {:?} {:?}", r.map_err(|e| gerr(&e)), r2.map_err(|e| gerr(&e))));
        texts(&d)?;
    }
    Ok(())
}

/// Its panics are allowed: the contract of Read and Write is broken.
fn k_liar(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let f = loop {
        let f = gen_foreign(&mut c.rng, lb, false, 1);
        if f.img.size < 4 << 20 && (!cfg!(miri) || f.prim.n < 20) {
            break f;
        }
    };
    let dev = Dev::new(f.img.clone());
    dev.inner.borrow_mut().peek = true;
    let conf = Conf { writable: true, perm: c.rng.chance(1, 2), ..Conf::plain(lb) };
    let seed = c.rng.next();
    let liar = Liar { d: dev.share(), r: Rng::new(seed) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut out = vec![];
        // sometimes opened honestly
        let d = if seed % 3 == 0 {
            lib(|| conf.config().open_from_device(liar))
        } else {
            lib(|| conf.config().open_from_device(dev.share())).map(|d| lib(|| d.with_disk_device(liar, true)))
        };
        let mut d = match d {
            Ok(d) => d,
            Err(e) => return Ok(vec![gerr(&e)]),
        };
        for i in 0..4u64 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                lib(|| match (seed >> (8 + 2 * i)) % 4 {
                    0 => d.write_inplace().map_err(|e| gerr(&e)),
                    1 => d
                        .add_partition("x", lb, gpt::partition_types::LINUX_FS, 0, None)
                        .map(|_| ())
                        .map_err(|e| gerr(&e)),
                    2 => {
                        let t = d.partitions().clone();
                        d.update_partitions(t).map_err(|e| gerr(&e))
                    }
                    _ => {
                        let dev = d.device_mut();
                        gpt::mbr::ProtectiveMBR::from_disk(dev, lbs(lb)).map(|_| ()).map_err(|_| "mbr".into())
                    }
                })
            }));
            out.push(format!("{:?}", r.map_err(|_| "panicked")));
            texts(&d)?;
        }
        let _ = lib(|| format!("{d:?}"));
        let n = snap(&d);
        out.push(format!("{:016x}", hash(&format!("{n:?}"))));
        Ok(out)
    }));
    match r {
        Ok(r) => {
            for l in r? {
                c.note(l);
            }
        }
        Err(_) => c.note("panicked".into()),
    }
    c.count("lying_devices", 1);
    unshared(&dev)
}

fn k_short(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let n = match c.rng.below(3) {
        0 => c.rng.below(5) * lb,
        1 => c.rng.below(5 * lb),
        _ => (c.rng.range(1, 80) * lb).saturating_sub(c.rng.below(3)),
    };
    let img = Image::new(n, c.rng.next() | 1);
    c.note(format!("{n} bytes, block size {lb}"));
    let conf = Conf { writable: true, ro_backup: c.rng.chance(1, 4), ..Conf::plain(lb) };
    let dev = Dev::new(img);
    dev.inner.borrow_mut().peek = true;
    dev.set_pos(c.rng.below(10_000));
    let r = lib(|| conf.config().open_from_device(dev.share())).map(|d| snap(&d).n_used()).map_err(|e| gerr(&e));
    c.note(format!("open {r:?}"));
    match lib(|| conf.config().create_from_device(dev.share(), Some(Uuid::from_bytes([9; 16])))) {
        Ok(d) => {
            let mut w = World { disk: Some(d), dev: dev.share(), conf, safe_n: 128, size: n, start: "short" };
            for _ in 0..3 {
                let s = w.snap();
                let op = gen_op(&mut c.rng, &s, &bias());
                if matches!(op, Op::WriteConsume | Op::Reopen) {
                    continue;
                }
                w.step(c, op)?;
                state(c, &w);
            }
            drop(w);
        }
        Err(e) => c.note(format!("create {}", gerr(&e))),
    }
    // a disk moved to a device it does not fit
    let big = Dev::new(Image::new((min_blocks(128, lb) + 100) * lb, 0));
    let mut d = create(c, conf, big.share())?;
    let old = lib(|| d.update_disk_device(dev.share(), true));
    drop(old);
    let r = lib(|| d.write_inplace()).map_err(|e| gerr(&e));
    c.note(format!("write to the short device {r:?}"));
    let r = lib(|| d.add_partition("p", lb, gpt::partition_types::EFI, 0, None)).map_err(|e| gerr(&e));
    c.note(format!("add {r:?}"));
    drop(d);
    unshared(&big)?;
    unshared(&dev)
}

fn k_copies(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let f = loop {
        let f = gen_foreign(&mut c.rng, lb, false, 1);
        if f.img.size < 4 << 20 && (!cfg!(miri) || f.prim.n < 20) {
            break f;
        }
    };
    let mut img = f.img.clone();
    if c.rng.chance(1, 2) {
        let at = if c.rng.chance(1, 2) { lb } else { f.back.my * lb };
        damage(&mut c.rng, &mut img, at, 92);
    }
    let dev = Dev::new(img.clone());
    let conf = Conf { writable: true, perm: true, ..Conf::plain(lb) };
    let mut out = vec![];
    {
        // as a trait object
        let b: DiskDeviceObject<'_> = Box::new(dev.share());
        match lib(|| conf.config().open_from_device(b)) {
            Ok(mut d) => {
                out.push(format!("{:?}", lib(|| d.remove_partition(1))));
                out.push(format!("{:?}", lib(|| d.write_inplace()).map_err(|e| gerr(&e))));
                let old = lib(|| d.update_disk_device(Box::new(io::Cursor::new(vec![0u8; 100])), false));
                drop(old);
                out.push(format!("{:?}", lib(|| d.write_inplace()).map_err(|e| gerr(&e))));
                texts(&d)?;
            }
            Err(e) => out.push(gerr(&e)),
        }
    }
    {
        // borrowed
        let mut own = dev.share();
        match lib(|| conf.config().open_from_device(&mut own)) {
            Ok(d) => {
                let n = lib(|| d.with_disk_device(dev.clone(), true));
                let mut m = lib(|| n.clone());
                drop(n);
                out.push(format!("{:?}", lib(|| d.write()).map(|_| ()).map_err(|e| gerr(&e))));
                let t = lib(|| m.take_partitions());
                out.push(format!("{:?}", lib(|| m.update_partitions(t)).map_err(|e| gerr(&e))));
                out.push(format!("{:?}", lib(|| m.write_inplace()).map_err(|e| gerr(&e))));
                let old = lib(|| m.update_disk_device(dev.clone(), true));
                unshared(&old)?;
                let last = lib(|| m.take_device());
                unshared(&last)?;
            }
            Err(e) => out.push(gerr(&e)),
        }
    }
    for o in out {
        c.note(o);
    }
    c.count("copies_and_borrows", 1);
    unshared(&dev)
}

fn k_files(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = super::files::small_image(c, lb)?;
    let dir = Scratch::new();
    let path = dir.file("disk", &img);
    let conf = Conf { writable: c.rng.chance(4, 5), perm: true, ..Conf::plain(lb) };
    c.note(format!("file of {} bytes, {conf:?}", img.size));
    let d = match lib(|| conf.config().open(&path)) {
        Ok(d) => Ok(d),
        Err(e) => {
            c.note(gerr(&e));
            lib(|| conf.config().create(&path))
        }
    };
    match d {
        Ok(mut d) => {
            let r = lib(|| d.add_partition("file", lb, gpt::partition_types::BASIC, 1, Some(8))).map_err(|e| gerr(&e));
            c.note(format!("add {r:?}"));
            let r = lib(|| d.write_inplace()).map_err(|e| gerr(&e));
            c.note(format!("write {r:?}"));
            c.note(format!("state {:016x}", hash(&format!("{:?}", snap(&d)))));
            texts(&d)?;
            let copy = lib(|| d.with_disk_device(Dev::new(img.clone()), true));
            drop(d);
            let r = lib(|| copy.write()).map(|d| hash(&format!("{:?}", d.image().get(0, 4096)))).map_err(|e| gerr(&e));
            c.note(format!("copy {r:?}"));
        }
        Err(e) => c.note(gerr(&e)),
    }
    let g = lib(|| gpt::header::write_header(&path, None, lbs(lb))).map(|u| u.to_string()).map_err(|e| herr(&e).to_string());
    c.note(format!("write_header {g:?}"));
    let r = lib(|| gpt::disk::read_disk(&path)).map(|d| hash(&format!("{:?}", snap(&d)))).map_err(|e| gerr(&e));
    c.note(format!("read_disk {r:?}"));
    let b = if cfg!(miri) { vec![] } else { std::fs::read(&path).unwrap() };
    c.note(format!("contents {:08x}", codec::crc32(&b)));
    Ok(())
}

/// The monitors of other properties as workloads; their verdicts are noted.
fn k_other(c: &mut Ctx) -> R {
    let which = c.rng.below(if cfg!(miri) { 5 } else { 9 });
    let r = match which {
        0 => low::c18(c),
        1 => low::c20(c),
        2 => low::c26(c),
        3 => low::c25(c),
        4 => dmg::mbr_ops(c, &Image::new(c.rng.clone().below(5000), 7)),
        5 => edit::c28(c),
        6 => edit::c23(c),
        7 => rw::c17(c),
        _ => edit::c24(c),
    };
    if let Err(Stop::Violation(m)) = &r {
        c.note(format!("verdict of another monitor: {}", m.lines().next().unwrap_or("")));
        return Ok(());
    }
    r
}

/// One history of some kind.
pub fn any_kind(c: &mut Ctx) -> R {
    c.nontrivial = true;
    let k = if cfg!(miri) { c.index % 10 } else { c.rng.below(12) };
    let name = ["history", "hostile", "faulty", "liar", "short", "copies", "files", "other"];
    let k = match k {
        0 | 8 | 10 => 0,
        1 => 1,
        2 | 11 => 2,
        k @ 3..=6 => k as usize,
        _ => 7,
    };
    c.note(format!("kind: {}", name[k]));
    let kinds: [&'static str; 8] = [
        "histories",
        "hostile_disks",
        "failing_devices",
        "lying_devices_used",
        "short_devices",
        "copies",
        "files",
        "low_level_functions",
    ];
    c.count(kinds[k], 1);
    match k {
        0 => k_history(c),
        1 => k_hostile(c),
        2 => k_faulty(c),
        3 => k_liar(c),
        4 => k_short(c),
        5 => k_copies(c),
        6 => k_files(c),
        _ => k_other(c),
    }
}

/// Only undefined behaviour, invalid text and leaked devices count here.
pub fn c22(c: &mut Ctx) -> R {
    let _ = (Tier::Quick, Call::Read, GptConfig::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| any_kind(c)));
    match r {
        Ok(Err(Stop::Violation(m))) if m.contains("UTF-8") || m.contains("leaked") => Err(Stop::Violation(m)),
        Ok(Err(Stop::Violation(m))) => {
            c.note(format!("judged elsewhere: {m}"));
            c.count("judged_elsewhere", 1);
            Ok(())
        }
        Ok(r) => r,
        Err(p) => {
            let last = crate::ctx::LAST_PANIC.with(|p| p.borrow_mut().take());
            match last {
                Some((m, true)) => {
                    c.note(format!("panicked: {m}"));
                    c.count("panics_judged_elsewhere", 1);
                    Ok(())
                }
                other => {
                    crate::ctx::LAST_PANIC.with(|p| *p.borrow_mut() = other);
                    std::panic::resume_unwind(p)
                }
            }
        }
    }
}
