//! Histories: snapshots of the library's observable state, operations on it,
//! generators for start states and arguments.
use crate::codec::{self, last_lba, swap_guid, utf16, Guid, RawEntry, RawHeader};
use crate::ctx::{lib, Ctx, Stop, R};
use crate::dev::{Dev, Ev, Image};
use crate::prng::Rng;
use crate::viol;
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderError};
use gpt::partition::Partition;
use gpt::partition_types::Type;
use gpt::{GptConfig, GptDisk, GptError};
use std::collections::BTreeMap;
use std::str::FromStr;
use uuid::Uuid;

pub type Disk = GptDisk<Dev>;

// ---------------------------------------------------------------- snapshots

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P {
    pub ty: Guid,
    pub id: Guid,
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    pub name: String,
    pub os: String,
}

impl P {
    pub fn of(p: &Partition) -> P {
        P {
            ty: *p.part_type_guid.guid.as_bytes(),
            id: *p.part_guid.as_bytes(),
            first: p.first_lba,
            last: p.last_lba,
            flags: p.flags,
            name: p.name.clone(),
            os: format!("{:?}", p.part_type_guid.os),
        }
    }
    pub fn used(&self) -> bool {
        self.ty != [0; 16]
    }
    pub fn to_lib(&self) -> Partition {
        Partition {
            part_type_guid: type_of(&self.ty),
            part_guid: Uuid::from_bytes(self.id),
            first_lba: self.first,
            last_lba: self.last,
            flags: self.flags,
            name: self.name.clone(),
        }
    }
    /// as it must be found after it was recorded (the label is not recorded)
    pub fn recorded(&self) -> P {
        P { name: codec::name_recorded(&self.name), os: String::new(), ..self.clone() }
    }
    pub fn no_os(&self) -> P {
        P { os: String::new(), ..self.clone() }
    }
}

pub fn type_of(g: &Guid) -> Type {
    Type::from(Uuid::from_bytes(*g))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct H {
    pub sig: String,
    pub rev: (u16, u16),
    pub hsize: u32,
    pub crc: u32,
    pub reserved: u32,
    pub my: u64,
    pub alt: u64,
    pub fu: u64,
    pub lu: u64,
    pub guid: Guid,
    pub pstart: u64,
    pub n: u32,
    pub psize: u32,
    pub pcrc: u32,
}

impl H {
    pub fn of(h: &Header) -> H {
        H {
            sig: h.signature.clone(),
            rev: h.revision,
            hsize: h.header_size_le,
            crc: h.crc32,
            reserved: h.reserved,
            my: h.current_lba,
            alt: h.backup_lba,
            fu: h.first_usable,
            lu: h.last_usable,
            guid: *h.disk_guid.as_bytes(),
            pstart: h.part_start,
            n: h.num_parts,
            psize: h.part_size,
            pcrc: h.crc32_parts,
        }
    }
    pub fn raw(h: &RawHeader) -> H {
        H {
            sig: String::from_utf8_lossy(&h.sig).into_owned(),
            rev: (h.major, h.minor),
            hsize: h.hsize,
            crc: h.crc,
            reserved: h.reserved,
            my: h.my,
            alt: h.alt,
            fu: h.fu,
            lu: h.lu,
            guid: h.guid,
            pstart: h.pstart,
            n: h.n,
            psize: h.psize,
            pcrc: h.pcrc,
        }
    }
}

pub fn herr(e: &HeaderError) -> &'static str {
    match e {
        HeaderError::Io(_) => "Io",
        HeaderError::InvalidGptSignature => "InvalidGptSignature",
        HeaderError::InvalidCRC32Checksum => "InvalidCRC32Checksum",
        HeaderError::MissingBackupLba => "MissingBackupLba",
        HeaderError::BackupLbaToEarly => "BackupLbaToEarly",
        HeaderError::WritingToWrongLba => "WritingToWrongLba",
        HeaderError::Overflow(_) => "Overflow",
        HeaderError::ToSmallForBackup => "ToSmallForBackup",
        _ => "other",
    }
}

pub fn gerr(e: &GptError) -> String {
    match e {
        GptError::Io(e) => format!("Io({:?})", e.kind()),
        GptError::Header(e) => format!("Header({})", herr(e)),
        GptError::CreatingInitializedDisk => "CreatingInitializedDisk".into(),
        GptError::Overflow(_) => "Overflow".into(),
        GptError::NotEnoughSpace => "NotEnoughSpace".into(),
        GptError::ReadOnly => "ReadOnly".into(),
        GptError::OverflowPartitionCount => "OverflowPartitionCount".into(),
        GptError::PartitionCountWouldChange => "PartitionCountWouldChange".into(),
        GptError::PartitionIdAlreadyUsed => "PartitionIdAlreadyUsed".into(),
        _ => "other".into(),
    }
}

/// Everything observable in memory.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub guid: Guid,
    pub prim: Result<H, String>,
    pub back: Result<H, String>,
    pub hdr: H,
    pub parts: BTreeMap<u32, P>,
    pub lb: u64,
}

pub fn table(p: &BTreeMap<u32, Partition>) -> BTreeMap<u32, P> {
    p.iter().map(|(k, v)| (*k, P::of(v))).collect()
}

pub fn snap<D>(d: &GptDisk<D>) -> Snap {
    let (guid, prim, back, hdr, parts, lb) = lib(|| {
        (
            *d.guid().as_bytes(),
            d.primary_header().cloned(),
            d.backup_header().cloned(),
            d.header().clone(),
            d.partitions().clone(),
            d.logical_block_size().as_u64(),
        )
    });
    Snap {
        guid,
        prim: prim.map(|h| H::of(&h)).map_err(|e| herr(&e).to_string()),
        back: back.map(|h| H::of(&h)).map_err(|e| herr(&e).to_string()),
        hdr: H::of(&hdr),
        parts: table(&parts),
        lb,
    }
}

impl Snap {
    pub fn used(&self) -> impl Iterator<Item = (&u32, &P)> {
        self.parts.iter().filter(|(_, p)| p.used())
    }
    pub fn n_used(&self) -> u32 {
        self.used().count() as u32
    }
    /// The table as it must read back after a write: packed from 1.
    pub fn packed(&self) -> BTreeMap<u32, P> {
        packed(&self.parts)
    }
}

pub fn packed(t: &BTreeMap<u32, P>) -> BTreeMap<u32, P> {
    t.values()
        .filter(|p| p.used())
        .enumerate()
        .map(|(i, p)| (i as u32 + 1, p.recorded()))
        .collect()
}

pub fn no_os(t: &BTreeMap<u32, P>) -> BTreeMap<u32, P> {
    t.iter().map(|(k, p)| (*k, p.no_os())).collect()
}

/// First difference of two tables, for messages.
pub fn table_diff(a: &BTreeMap<u32, P>, b: &BTreeMap<u32, P>) -> String {
    for (k, p) in a {
        match b.get(k) {
            None => return format!("partition {k} {p:?} is missing"),
            Some(q) if q != p => return format!("partition {k}: expected {p:?}, found {q:?}"),
            _ => {}
        }
    }
    for (k, p) in b {
        if !a.contains_key(k) {
            return format!("unexpected partition {k} {p:?}");
        }
    }
    "none".into()
}

/// Maximal free runs [first, last] of the usable range, by own arithmetic.
pub fn gaps(fu: u64, lu: u64, parts: &BTreeMap<u32, P>) -> Vec<(u64, u64)> {
    // mark every boundary, then sweep elementary segments
    if fu > lu {
        return vec![];
    }
    let (lo, hi) = (u128::from(fu), u128::from(lu) + 1);
    let ivs: Vec<(u128, u128)> = parts
        .values()
        .filter(|p| p.used())
        .map(|p| {
            (
                u128::from(p.first.min(p.last)),
                u128::from(p.first.max(p.last)) + 1,
            )
        })
        .collect();
    // number of partitions covering each elementary segment
    let mut delta: BTreeMap<u128, i64> = BTreeMap::new();
    delta.insert(lo, 0);
    delta.insert(hi, 0);
    for (a, b) in ivs {
        let (a, b) = (a.clamp(lo, hi), b.clamp(lo, hi));
        if a < b {
            *delta.entry(a).or_insert(0) += 1;
            *delta.entry(b).or_insert(0) -= 1;
        }
    }
    let mut out: Vec<(u64, u64)> = vec![];
    let mut depth = 0;
    let pts: Vec<(u128, i64)> = delta.into_iter().collect();
    for w in pts.windows(2) {
        depth += w[0].1;
        if depth == 0 {
            let (a, b) = (w[0].0 as u64, (w[1].0 - 1) as u64);
            match out.last_mut() {
                Some(l) if u128::from(l.1) + 1 == u128::from(a) => l.1 = b,
                _ => out.push((a, b)),
            }
        }
    }
    out
}

// --------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub enum Op {
    Add { name: String, size: u64, ty: Guid, flags: u64, align: Option<u64> },
    AddAt { name: String, id: u32, first: u64, len: u64, ty: Guid, flags: u64 },
    Remove(u32),
    RemoveGuid(Guid),
    Take,
    Update(BTreeMap<u32, P>),
    SetGuid(Option<Guid>),
    /// all queries at once
    Query,
    Write,
    /// write() consuming the disk, then open the device again
    WriteConsume,
    /// abandon changes and open again
    Reopen,
    CloneSwap,
    /// go on with a copy made for the same device
    CopySwap,
}

impl Op {
    pub fn is_write(&self) -> bool {
        matches!(self, Op::Write | Op::WriteConsume)
    }
    pub fn is_edit(&self) -> bool {
        matches!(
            self,
            Op::Add { .. } | Op::AddAt { .. } | Op::Remove(_) | Op::RemoveGuid(_) | Op::Update(_)
        )
    }
    pub fn short(&self) -> String {
        match self {
            Op::Update(t) => {
                let l: Vec<String> = t
                    .iter()
                    .take(12)
                    .map(|(k, p)| format!("{k}:{}{}..{}", if p.used() { "" } else { "unused " }, p.first, p.last))
                    .collect();
                format!("update_partitions({} entries: {})", t.len(), l.join(" "))
            }
            o => format!("{o:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Id(u32),
    OptId(Option<u32>),
    Table(BTreeMap<u32, P>),
    Err(String),
}

#[derive(Clone, Debug)]
#[allow(dead_code)]
pub struct QueryOut {
    pub free: Vec<(u64, u64)>,
    pub next: Option<u32>,
    pub align: u64,
}

pub struct Step {
    pub op: Op,
    pub res: Res,
    pub pre: Snap,
    pub post: Snap,
    pub img_pre: Image,
    pub img_post: Image,
    pub evs: Vec<Ev>,
    pub query: Option<QueryOut>,
}

impl Step {
    pub fn ok(&self) -> bool {
        !matches!(self.res, Res::Err(_))
    }
    pub fn wrote(&self) -> bool {
        self.op.is_write() && self.ok()
    }
    pub fn err(&self) -> Option<&str> {
        match &self.res {
            Res::Err(e) => Some(e),
            _ => None,
        }
    }
    pub fn device_writes(&self) -> usize {
        self.evs.iter().filter(|e| matches!(e, Ev::Write { .. })).count()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Conf {
    pub lb: u64,
    pub writable: bool,
    pub only_valid: bool,
    pub ro_backup: bool,
    pub perm: bool,
}

impl Conf {
    pub fn lbs(&self) -> LogicalBlockSize {
        lbs(self.lb)
    }
    pub fn config(&self) -> GptConfig {
        lib(|| {
            GptConfig::new()
                .writable(self.writable)
                .logical_block_size(self.lbs())
                .only_valid_headers(self.only_valid)
                .readonly_backup(self.ro_backup)
                .change_partition_count(self.perm)
        })
    }
    pub fn plain(lb: u64) -> Conf {
        Conf { lb, writable: false, only_valid: false, ro_backup: false, perm: false }
    }
}

pub fn lbs(lb: u64) -> LogicalBlockSize {
    if lb == 512 {
        LogicalBlockSize::Lb512
    } else {
        LogicalBlockSize::Lb4096
    }
}

pub struct World {
    pub disk: Option<Disk>,
    pub dev: Dev,
    pub conf: Conf,
    /// entry count for which the arrays are known not to reach into partitions
    pub safe_n: u32,
    pub size: u64,
    pub start: &'static str,
}

impl World {
    pub fn d(&self) -> &Disk {
        self.disk.as_ref().unwrap()
    }
    pub fn dm(&mut self) -> &mut Disk {
        self.disk.as_mut().unwrap()
    }
    pub fn snap(&self) -> Snap {
        snap(self.d())
    }

    pub fn step(&mut self, c: &mut Ctx, op: Op) -> R<Step> {
        c.note(op.short());
        let pre = self.snap();
        if c.rng.chance(1, 6) {
            // the position of the device is up to its owner
            let p = match c.rng.below(5) {
                0 => 0,
                1 => self.size,
                2 => self.size.saturating_add(c.rng.below(1 << 20)).min(i64::MAX as u64),
                3 => c.rng.below(self.size.max(1)),
                _ => c.rng.below(100_000),
            };
            self.dev.set_pos(p);
            c.note(format!("device moved to {p}"));
        }
        let img_pre = self.dev.image();
        self.dev.take_log();
        let mut query = None;
        let res = match &op {
            Op::Add { name, size, ty, flags, align } => {
                let t = type_of(ty);
                let d = self.dm();
                match lib(|| d.add_partition(name, *size, t, *flags, *align)) {
                    Ok(i) => Res::Id(i),
                    Err(e) => Res::Err(gerr(&e)),
                }
            }
            Op::AddAt { name, id, first, len, ty, flags } => {
                let t = type_of(ty);
                let d = self.dm();
                match lib(|| d.add_partition_at(name, *id, *first, *len, t, *flags)) {
                    Ok(i) => Res::Id(i),
                    Err(e) => Res::Err(gerr(&e)),
                }
            }
            Op::Remove(i) => {
                let d = self.dm();
                Res::OptId(lib(|| d.remove_partition(*i)))
            }
            Op::RemoveGuid(g) => {
                let d = self.dm();
                Res::OptId(lib(|| d.remove_partition_by_guid(Uuid::from_bytes(*g))))
            }
            Op::Take => {
                let d = self.dm();
                Res::Table(table(&lib(|| d.take_partitions())))
            }
            Op::Update(t) => {
                let m: BTreeMap<u32, Partition> = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
                let d = self.dm();
                match lib(|| d.update_partitions(m)) {
                    Ok(()) => Res::Unit,
                    Err(e) => Res::Err(gerr(&e)),
                }
            }
            Op::SetGuid(g) => {
                let d = self.dm();
                lib(|| d.update_guid(g.map(Uuid::from_bytes)));
                Res::Unit
            }
            Op::Query => {
                let d = self.d();
                let q = lib(|| QueryOut {
                    free: d.find_free_sectors(),
                    next: d.find_next_partition_id(),
                    align: d.calculate_alignment(),
                });
                lib(|| {
                    let _ = format!("{d:?}");
                    for p in d.partitions().values() {
                        let _ = format!("{p}");
                    }
                    let _ = format!("{}", d.header());
                });
                query = Some(q);
                Res::Unit
            }
            Op::Write => {
                let d = self.dm();
                match lib(|| d.write_inplace()) {
                    Ok(()) => Res::Unit,
                    Err(e) => Res::Err(gerr(&e)),
                }
            }
            Op::WriteConsume => {
                let d = self.disk.take().unwrap();
                let back = lib(|| d.clone()); // to go on with after a refusal
                let res = match lib(|| d.write()) {
                    Ok(dev) => {
                        if !std::rc::Rc::ptr_eq(&dev.inner, &self.dev.inner) {
                            viol!("write() returned a different device");
                        }
                        let img_post = self.dev.image();
                        let evs = self.dev.take_log();
                        let conf = self.conf;
                        let disk = lib(|| conf.config().open_from_device(dev));
                        match disk {
                            Ok(d) => self.disk = Some(d),
                            Err(e) => viol!("after a successful write() the device does not open: {}", gerr(&e)),
                        }
                        let post = self.snap();
                        return Ok(Step { op, res: Res::Unit, pre, post, img_pre, img_post, evs, query });
                    }
                    Err(e) => Res::Err(gerr(&e)),
                };
                // the clone has its own device, bring the state back to ours
                let dev = self.dev.share();
                let mut b = back;
                let w = self.conf.writable;
                lib(|| b.update_disk_device(dev, w));
                self.disk = Some(b);
                res
            }
            Op::Reopen => {
                let d = self.disk.take().unwrap();
                let dev = lib(|| d.take_device());
                let conf = self.conf;
                match lib(|| conf.config().open_from_device(dev)) {
                    Ok(d) => {
                        self.disk = Some(d);
                        self.safe_n = self.safe_n.min(self.snap().hdr.n);
                        Res::Unit
                    }
                    Err(e) => {
                        // nothing was ever written to this device
                        let dev = self.dev.share();
                        self.disk = Some(create(c, self.conf, dev)?);
                        Res::Err(gerr(&e))
                    }
                }
            }
            Op::CopySwap => {
                let dev = self.dev.share();
                let w = self.conf.writable;
                let old = self.disk.take().unwrap();
                self.disk = Some(lib(|| old.with_disk_device(dev, w)));
                Res::Unit
            }
            Op::CloneSwap => {
                let copy = lib(|| self.d().clone());
                let mut copy = copy;
                let dev = self.dev.share();
                let w = self.conf.writable;
                let own = lib(|| copy.update_disk_device(dev, w));
                if !own.image().same(&img_pre) {
                    viol!("the device of a clone differs from the original");
                }
                self.disk = Some(copy);
                Res::Unit
            }
        };
        let post = self.snap();
        let img_post = self.dev.image();
        let evs = self.dev.take_log();
        c.note(match &res {
            Res::Table(t) => format!("-> table of {}", t.len()),
            r => format!("-> {r:?}"),
        });
        c.count("operations", 1);
        Ok(Step { op, res, pre, post, img_pre, img_post, evs, query })
    }
}

pub fn create(c: &mut Ctx, conf: Conf, dev: Dev) -> R<Disk> {
    let g = match c.rng.below(20) {
        0 => Some([0; 16]),
        1 => Some([0xFF; 16]),
        2..=9 => Some(c.rng.guid()),
        _ => None,
    };
    match lib(|| conf.config().create_from_device(dev, g.map(Uuid::from_bytes))) {
        Ok(d) => {
            let got = *lib(|| *d.guid()).as_bytes();
            match g {
                Some(g) if g != got => viol!("created with GUID {g:02x?} but has {got:02x?}"),
                None => c.generated.push(got),
                _ => {}
            }
            Ok(d)
        }
        Err(e) => viol!("create_from_device on a device of {:?} failed: {}", conf, gerr(&e)),
    }
}

pub fn open_image(img: &Image, conf: Conf) -> Result<Disk, String> {
    let dev = Dev::new(img.clone());
    lib(|| conf.config().open_from_device(dev)).map_err(|e| gerr(&e))
}

// --------------------------------------------------------------- generators

/// blocks a minimal disk for n entries needs
pub fn min_blocks(n: u64, lb: u64) -> u64 {
    let a = (n * 128 + lb - 1) / lb;
    1 + 1 + a + 1 + a + 1
}

pub fn gen_lb(r: &mut Rng) -> u64 {
    if r.chance(2, 3) {
        512
    } else {
        4096
    }
}

/// Size in bytes of a disk that holds at least n entries.
pub fn gen_size(r: &mut Rng, lb: u64, n: u64, huge: bool) -> u64 {
    let min = min_blocks(n, lb);
    let blocks = match r.below(if cfg!(miri) { 4 } else { 12 }) {
        0 => min,
        1 => min + r.below(4),
        2 | 3 => min + r.below(20),
        4 | 5 => min + 20 + r.below(200),
        6 | 7 => min + r.below(5000),
        8 => min + (1 << 15) + r.below(1 << 15),
        9 if huge => (1 << 32) - 3 + r.below(7),
        10 if huge => 1 << r.range(20, 50),
        11 if huge => (i64::MAX as u64 / lb) - r.below(5),
        _ => min + r.below(1000),
    };
    let blocks = blocks.max(min);
    let tail = if r.chance(1, 4) { r.below(lb) } else { 0 };
    (blocks * lb).saturating_add(tail).min(i64::MAX as u64)
}

pub fn gen_name(r: &mut Rng) -> String {
    let pool: &[&str] = &[
        "", "a", "boot", "EFI System", "\u{0}", "a\u{0}b", "\u{FFFD}", "\u{FFFF}", "\u{FEFF}x", "ü", "Ω",
        "\u{1F600}", "\u{10FFFF}", "日本語", "a\u{301}", "\u{7f}", "\n", "\"\\", "\u{D7FF}\u{E000}",
    ];
    match r.below(10) {
        0 => String::new(),
        1..=3 => r.pick(pool).to_string(),
        4 => {
            // around the limit of 36 units
            let n = r.range(33, 40);
            (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect()
        }
        5 => {
            // an astral character around the limit
            let n = r.range(32, 37);
            let mut s: String = (0..n).map(|i| char::from(b'A' + (i % 26) as u8)).collect();
            s.push_str("\u{1F980}\u{1F980}\u{1F980}");
            s
        }
        6 => {
            let n = r.range(1, 80);
            (0..n)
                .map(|_| match r.below(4) {
                    0 => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
                    1 => char::from_u32(r.range(0xA0, 0xD7FF) as u32).unwrap(),
                    2 => char::from_u32(r.range(0xE000, 0xFFFF) as u32).unwrap(),
                    _ => char::from_u32(r.range(0x10000, 0x10FFFF) as u32).unwrap(),
                })
                .collect()
        }
        7 => {
            let mut s: String = r.pick(pool).to_string();
            s.push_str(r.pick(pool));
            s.push('\u{0}');
            s.push_str(r.pick(pool));
            s
        }
        _ => format!("part{}", r.below(1000)),
    }
}

pub const KNOWN_TYPES: &[&str] = &[
    "C12A7328-F81F-11D2-BA4B-00A0C93EC93B",
    "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7",
    "0FC63DAF-8483-4772-8E79-3D69D8477DE4",
    "21686148-6449-6E6F-744E-656564454649",
    "0657FD6D-A4AB-43C4-84E5-0933C84B4F4F",
    "48465300-0000-11AA-AA11-00306543ECAC",
];

pub fn parse_guid(s: &str) -> Guid {
    *Uuid::from_str(s).unwrap().as_bytes()
}

pub fn gen_type(r: &mut Rng) -> Guid {
    if r.chance(2, 3) {
        parse_guid(r.pick(KNOWN_TYPES))
    } else {
        let mut g = r.guid();
        if r.chance(1, 8) {
            // differs from "unused" in one bit only
            g = [0; 16];
            g[r.below(16) as usize] = 1 << r.below(8);
        }
        if g == [0; 16] {
            g[0] = 1;
        }
        g
    }
}

pub fn gen_flags(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => 0,
        1 => 1 << r.below(64),
        2 => u64::MAX,
        _ => r.next(),
    }
}

/// A table whose used partitions are disjoint and inside [fu, lu].
pub fn gen_table(r: &mut Rng, fu: u64, lu: u64, max_parts: u64, max_slot: u32, unused: bool) -> BTreeMap<u32, P> {
    let mut t = BTreeMap::new();
    let k = if max_parts == 0 { 0 } else { r.below(max_parts + 1) };
    let mut ivs: Vec<(u64, u64)> = vec![];
    // cut the range at sorted random points
    let mut cuts: Vec<u64> = (0..2 * k)
        .map(|_| {
            if r.chance(1, 3) {
                (fu + r.below((lu - fu).min(40) + 1)).min(lu)
            } else {
                r.range(fu, lu)
            }
        })
        .collect();
    cuts.sort_unstable();
    let mut next = fu;
    for w in cuts.chunks(2) {
        let (a, b) = (w[0].max(next), w[1].max(next));
        if a > lu || b > lu {
            break;
        }
        let a = if r.chance(1, 4) { next } else { a };
        ivs.push((a, b));
        if b == lu {
            break;
        }
        next = b + 1;
    }
    for (a, b) in ivs {
        let slot = if r.chance(1, 2) {
            match (1..=max_slot).find(|i| !t.contains_key(i)) {
                Some(s) => s,
                None => break,
            }
        } else {
            r.range(1, u64::from(max_slot)) as u32
        };
        if t.contains_key(&slot) {
            continue;
        }
        let ty = gen_type(r);
        t.insert(slot, gen_p(r, ty, a, b));
    }
    if unused {
        for _ in 0..r.below(3) {
            let slot = r.range(1, u64::from(max_slot)) as u32;
            if !t.contains_key(&slot) {
                let (a, b) = (r.range(fu, lu), r.range(fu, lu));
                let mut p = gen_p(r, [0; 16], a.min(b), a.max(b));
                if r.chance(1, 2) {
                    // an entry of no type with only some of the fields left
                    let keep = r.below(32);
                    if keep & 1 == 0 {
                        p.id = [0; 16];
                    }
                    if keep & 2 == 0 {
                        p.first = 0;
                    }
                    if keep & 4 == 0 {
                        p.last = p.first;
                    }
                    if keep & 8 == 0 {
                        p.flags = 0;
                    }
                    if keep & 16 == 0 {
                        p.name = String::new();
                    }
                }
                t.insert(slot, p);
            }
        }
    }
    t
}

pub fn gen_p(r: &mut Rng, ty: Guid, a: u64, b: u64) -> P {
    P {
        ty,
        id: match r.below(36) {
            0..=2 => [7; 16],
            3 => [0; 16],
            4 => [0xFF; 16],
            _ => r.guid(),
        },
        first: a,
        last: b,
        flags: gen_flags(r),
        name: gen_name(r),
        os: String::new(),
    }
}

/// Any table at all: overlapping, inverted, outside of everything.
pub fn gen_wild_table(r: &mut Rng, s: &Snap, max: u64) -> BTreeMap<u32, P> {
    let mut t = BTreeMap::new();
    for _ in 0..r.below(max + 1) {
        let slot = match r.below(6) {
            0 => r.range(1, u64::from(u32::MAX)) as u32,
            1 => s.hdr.n.max(1),
            _ => r.range(1, 20) as u32,
        };
        let (a, b) = (gen_lba(r, s), gen_lba(r, s));
        let (a, b) = if r.chance(5, 6) { (a.min(b), a.max(b)) } else { (a, b) };
        let ty = if r.chance(1, 5) { [0; 16] } else { gen_type(r) };
        t.insert(slot, gen_p(r, ty, a, b));
    }
    t
}

/// A block number near something interesting.
pub fn gen_lba(r: &mut Rng, s: &Snap) -> u64 {
    let base = match r.below(10) {
        0 => 0,
        1 => s.hdr.fu,
        2 => s.hdr.lu,
        3 => s.hdr.my.max(s.hdr.alt),
        4 => u64::MAX,
        5 => r.next() >> r.below(64),
        6 | 7 => {
            let v: Vec<u64> = s.parts.values().flat_map(|p| [p.first, p.last]).collect();
            if v.is_empty() {
                s.hdr.fu
            } else {
                *r.pick(&v)
            }
        }
        _ => {
            if s.hdr.fu <= s.hdr.lu {
                r.range(s.hdr.fu, s.hdr.lu)
            } else {
                s.hdr.fu
            }
        }
    };
    match r.below(4) {
        0 => base.wrapping_add(r.below(4)),
        1 => base.wrapping_sub(r.below(4)),
        _ => base,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Bias {
    pub huge: bool,
    /// permission to change the entry count, in percent
    pub perm: u64,
    pub ro_backup: u64,
    pub readonly: u64,
    pub foreign: u64,
    pub damaged: u64,
    pub wild: bool,
    pub unused: bool,
    /// percent of steps that write
    pub writes: u64,
    /// prefer nearly full entry arrays
    pub full: u64,
    pub small_foreign: bool,
    /// now and then a table of more than 65536 entries
    pub vast: bool,
}

impl Default for Bias {
    fn default() -> Self {
        Bias {
            huge: true,
            perm: 30,
            ro_backup: 10,
            readonly: 0,
            foreign: 20,
            damaged: 10,
            wild: false,
            unused: true,
            writes: 25,
            full: 15,
            small_foreign: false,
            vast: false,
        }
    }
}

/// A well-formed GPT as some other tool might lay it out.
pub struct Foreign {
    pub img: Image,
    pub prim: RawHeader,
    pub back: RawHeader,
    pub entries: BTreeMap<u32, RawEntry>,
}

pub fn gen_foreign(r: &mut Rng, lb: u64, huge: bool, min_n: u32) -> Foreign {
    gen_foreign_any(r, lb, huge, min_n, false)
}

/// With `vast` sometimes of thousands of entries.
pub fn gen_foreign_any(r: &mut Rng, lb: u64, huge: bool, min_n: u32, vast: bool) -> Foreign {
    let n: u32 = match r.below(10) {
        _ if cfg!(miri) => r.range(1, 12) as u32,
        _ if vast && r.chance(1, 100) => 1000 + (r.below(32_000) >> r.below(5)) as u32,
        0 => r.range(1, 8) as u32,
        1 => r.range(100, 127) as u32,
        2 => 129,
        3 => r.range(130, 300) as u32,
        4 => 256,
        5 => r.range(500, 1000) as u32,
        _ => 128,
    };
    let n = n.max(min_n);
    let a = (u64::from(n) * 128 + lb - 1) / lb;
    // room for odd positions and for this library's own layout (128 entries)
    let own = (u64::from(n.max(128)) * 128 + lb - 1) / lb;
    let pgap = if r.chance(1, 3) { r.range(1, 70) } else { 0 };
    let bgap = if r.chance(1, 3) { r.range(1, 70) } else { 0 };
    let slack = (2 + pgap + a).max(2 + own) + 3 + (bgap + a + 1).max(own + 1);
    let mut blocks = slack + gen_size(r, lb, 128, huge) / lb;
    if blocks > i64::MAX as u64 / lb {
        blocks = i64::MAX as u64 / lb;
    }
    let tail = if r.chance(1, 4) { r.below(lb) } else { 0 };
    let size = (blocks * lb).saturating_add(tail).min(i64::MAX as u64);
    let last = last_lba(size, lb);
    let pstart = 2 + pgap;
    let bstart = last - a - bgap;
    let mut fu = pstart + a;
    let mut lu = bstart - 1;
    // usually the usable range leaves room for the standard array, sometimes more
    match r.below(3) {
        0 => {
            fu = fu.max(2 + own);
            lu = lu.min(last - own - 1);
        }
        1 => {
            fu = fu.max(2 + own);
            lu = lu.min(last - own - 1);
            if lu - fu > 3000 && r.chance(1, 2) {
                fu = fu.max(2048);
            }
            if lu - fu > 40 {
                lu -= r.below(20);
            }
        }
        _ => {}
    }
    let mut img = Image::new(size, if r.chance(1, 2) { r.next() | 1 } else { 0 });
    let guid = r.guid();
    let t = gen_table(r, fu, lu, (u64::from(n)).min(12), n, true);
    let mut entries = BTreeMap::new();
    let mut array = vec![0u8; n as usize * 128];
    for (slot, p) in &t {
        let mut name = [0u16; 36];
        for (i, u) in utf16(&p.name).into_iter().take(36).enumerate() {
            name[i] = u;
        }
        match r.below(6) {
            0 => {
                for u in name.iter_mut() {
                    *u = r.next() as u16;
                }
            }
            1 => name[r.below(36) as usize] = 0xD800 + r.below(0x800) as u16,
            2 => {
                // rubbish behind the terminator
                let z = r.below(30) as usize;
                name[z] = 0;
                for u in name[z + 1..].iter_mut() {
                    *u = r.next() as u16;
                }
            }
            _ => {}
        }
        let e = RawEntry { ty: p.ty, id: p.id, first: p.first, last: p.last, flags: p.flags, name };
        let raw = e.encode();
        array[(*slot as usize - 1) * 128..*slot as usize * 128].copy_from_slice(&raw);
        entries.insert(*slot, e);
    }
    let mut prim = RawHeader {
        sig: *b"EFI PART",
        minor: 0,
        major: 1,
        hsize: 92,
        crc: 0,
        reserved: 0,
        my: 1,
        alt: last,
        fu,
        lu,
        guid,
        pstart,
        n,
        psize: 128,
        pcrc: codec::crc32(&array),
    };
    prim.crc = prim.expected_crc();
    let mut back = prim.clone();
    back.my = last;
    back.alt = 1;
    back.pstart = bstart;
    back.crc = back.expected_crc();
    let mut zero = vec![0u8; lb as usize];
    zero[..92].copy_from_slice(&prim.encode());
    img.put(lb, &zero);
    zero[..92].copy_from_slice(&back.encode());
    img.put(last * lb, &zero);
    img.put(pstart * lb, &array);
    img.put(bstart * lb, &array);
    // protective MBR
    let mut mbr = [0u8; 512];
    mbr[446 + 4] = 0xEE;
    mbr[446 + 8..446 + 12].copy_from_slice(&1u32.to_le_bytes());
    mbr[446 + 12..446 + 16].copy_from_slice(&(last.min(u64::from(u32::MAX)) as u32).to_le_bytes());
    mbr[510] = 0x55;
    mbr[511] = 0xAA;
    img.put(0, &mbr);
    Foreign { img, prim, back, entries }
}

impl Foreign {
    /// Entries with values that no careful tool would write.
    pub fn odd(&mut self, r: &mut Rng, lb: u64) {
        let keys: Vec<u32> = self.entries.keys().copied().collect();
        if keys.is_empty() {
            return;
        }
        let last = self.prim.alt;
        for _ in 0..r.range(1, 3) {
            let other = self.entries[r.pick(&keys)].clone();
            let k = *r.pick(&keys);
            let e = self.entries.get_mut(&k).unwrap();
            let any = |r: &mut Rng| match r.below(8) {
                0 | 1 => 0,
                2 => 1,
                3 => r.below(40),
                4 => u64::MAX - r.below(3),
                5 => last.saturating_sub(r.below(40)),
                6 => last + r.below(40),
                _ => r.next() >> r.below(64),
            };
            match r.below(7) {
                0 => e.first = any(r),
                1 => e.last = any(r),
                2 => std::mem::swap(&mut e.first, &mut e.last),
                3 => (e.first, e.last) = (any(r), any(r)),
                4 => e.id = if r.chance(1, 3) { [0; 16] } else { other.id },
                5 => (e.first, e.last) = (other.first, other.last),
                _ => e.ty = other.ty,
            }
        }
        let mut array = vec![0u8; self.prim.n as usize * 128];
        for (slot, e) in &self.entries {
            array[(*slot as usize - 1) * 128..*slot as usize * 128].copy_from_slice(&e.encode());
        }
        let crc = codec::crc32(&array);
        for h in [&mut self.prim, &mut self.back] {
            self.img.put(h.pstart * lb, &array);
            h.pcrc = crc;
            h.crc = h.expected_crc();
            self.img.put(h.my * lb, &h.encode());
        }
    }
    pub fn table(&self) -> BTreeMap<u32, P> {
        self.entries
            .iter()
            .filter(|(_, e)| e.encode().iter().any(|b| *b != 0))
            .map(|(k, e)| (*k, entry_p(e)))
            .collect()
    }
}

pub fn entry_p(e: &RawEntry) -> P {
    P {
        ty: e.ty,
        id: e.id,
        first: e.first,
        last: e.last,
        flags: e.flags,
        name: codec::utf16_lossy(e.name_units()),
        os: String::new(),
    }
}

/// Damage some bytes of [off, off+len), never leaving them as they were.
pub fn damage(r: &mut Rng, img: &mut Image, off: u64, len: u64) {
    let k = match r.below(3) {
        0 => 1,
        1 => r.range(1, 16.min(len)),
        _ => r.range(1, len),
    };
    let at = off + r.below(len - k + 1);
    let old = img.get(at, k as usize).unwrap();
    let mut new = match r.below(4) {
        0 => vec![0; k as usize],
        1 => vec![0xff; k as usize],
        2 => r.bytes(k as usize),
        _ => {
            let mut v = old.clone();
            v[0] ^= 1 << r.below(8);
            v
        }
    };
    if new == old {
        new[(k - 1) as usize] ^= 1 << r.below(8);
    }
    img.put(at, &new);
}

/// Make a start state.
pub fn gen_world(c: &mut Ctx, b: Bias) -> R<World> {
    let lb = gen_lb(&mut c.rng);
    let pct = |r: &mut Rng, p: u64| r.below(100) < p;
    let conf = Conf {
        lb,
        writable: !pct(&mut c.rng, b.readonly),
        only_valid: false,
        ro_backup: pct(&mut c.rng, b.ro_backup),
        perm: pct(&mut c.rng, b.perm),
    };
    // both copies are kept valid in these histories
    let mut conf = Conf { only_valid: !conf.ro_backup && c.rng.chance(1, 6), ..conf };
    if pct(&mut c.rng, b.foreign) {
        let min = if b.small_foreign { 1 } else { 128 };
        let f = gen_foreign_any(&mut c.rng, lb, b.huge, min, b.vast);
        let dev = Dev::new(f.img.clone());
        let pos = c.rng.below(f.img.size.min(100_000));
        dev.set_pos(pos);
        c.note(format!(
            "open foreign disk: {} bytes, {conf:?}, {} entries at {}/{}, usable {}..={}, {} used",
            f.img.size, f.prim.n, f.prim.pstart, f.back.pstart, f.prim.fu, f.prim.lu, f.entries.len()
        ));
        c.count("foreign_disks", 1);
        let disk = match lib(|| conf.config().open_from_device(dev.share())) {
            Ok(d) => d,
            Err(e) => viol!("a well-formed disk does not open: {}", gerr(&e)),
        };
        return Ok(World { disk: Some(disk), size: f.img.size, dev, conf, safe_n: f.prim.n, start: "foreign" });
    }
    let size = gen_size(&mut c.rng, lb, 128, b.huge);
    let bg = if c.rng.chance(1, 2) { c.rng.next() | 1 } else { 0 };
    let mut dev = Dev::new(Image::new(size, bg));
    let kind = c.rng.below(4);
    if kind == 0 {
        c.note(format!("create on {size} bytes (background {}), {conf:?}", bg != 0));
        let disk = create(c, conf, dev.share())?;
        return Ok(World { disk: Some(disk), size, dev, conf, safe_n: 128, start: "create" });
    }
    // something written earlier by this library
    let wconf = Conf { writable: true, ro_backup: false, perm: true, only_valid: false, lb };
    let mut old = create(c, wconf, dev.share())?;
    let s = snap(&old);
    let many = pct(&mut c.rng, b.full);
    let t = if many {
        let room = (s.hdr.lu - s.hdr.fu + 1).min(128);
        let k = c.rng.range(room.saturating_sub(4).max(1), room);
        let mut t = BTreeMap::new();
        for i in 0..k {
            let ty = gen_type(&mut c.rng);
            t.insert(i as u32 + 1, gen_p(&mut c.rng, ty, s.hdr.fu + i, s.hdr.fu + i));
        }
        t
    } else {
        gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 10, 128, false)
    };
    let lt: BTreeMap<u32, Partition> = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
    let nt = t.len();
    match lib(|| old.update_partitions(lt).and_then(|_| old.write_inplace())) {
        Ok(()) => {}
        Err(e) => viol!("a first table cannot be written: {}", gerr(&e)),
    }
    drop(old);
    let mut start = "own";
    if pct(&mut c.rng, b.damaged) {
        let mut img = dev.image();
        let last = last_lba(size, lb);
        let (p, q) = (c.rng.below(3), c.rng.chance(1, 2));
        let what = match (p, q) {
            (0, true) => (lb, 92),
            (0, false) => (2 * lb, 128 * 128),
            (1, _) => (last * lb, 92),
            (_, true) => (lb, lb),
            (_, false) => ((last * lb) - 128 * 128, 128 * 128),
        };
        // a hole of zeros may be hit: use the image's own bytes to decide
        damage(&mut c.rng, &mut img, what.0, what.1);
        c.note(format!("damaged near byte {}", what.0));
        dev = Dev::new(img);
        start = "damaged";
        conf.only_valid = false;
    }
    dev.take_log();
    let (disk, how) = if kind == 1 {
        (create(c, conf, dev.share())?, "create over")
    } else {
        match lib(|| conf.config().open_from_device(dev.share())) {
            Ok(d) => (d, "open"),
            Err(e) => viol!("a disk with an intact copy does not open ({start}): {}", gerr(&e)),
        }
    };
    c.note(format!("{how} disk of {size} bytes with {nt} partitions ({start}), {conf:?}"));
    Ok(World { disk: Some(disk), size, dev, conf, safe_n: 128, start })
}

/// The next operation of a history.
pub fn gen_op(r: &mut Rng, s: &Snap, b: &Bias) -> Op {
    if r.below(100) < b.writes {
        return match r.below(5) {
            0 => Op::WriteConsume,
            _ => Op::Write,
        };
    }
    let g = gaps(s.hdr.fu, s.hdr.lu, &s.parts);
    let lb = u128::from(s.lb);
    match r.below(20) {
        0..=5 => {
            let size = match r.below(9) {
                0 => 1,
                1 => s.lb - 1 + r.below(3),
                2 => r.next() >> r.below(64),
                3 => u64::MAX - r.below(3),
                4 | 5 => r.range(1, 20) * s.lb,
                _ if g.is_empty() => s.lb,
                _ => {
                    // exactly a gap, or a little more or less
                    let (a, z) = *r.pick(&g);
                    let bytes = (u128::from(z - a) + 1) * lb;
                    let d = [0i128, 1, -1, s.lb as i128, -(s.lb as i128), 1 - s.lb as i128];
                    let v = bytes as i128 + *r.pick(&d);
                    v.clamp(1, u64::MAX as i128) as u64
                }
            };
            let align = match r.below(8) {
                0..=2 => None,
                3 => Some(r.below(10)),
                4 => Some(1 << r.below(64)),
                5 => Some(2048),
                6 if !g.is_empty() => {
                    let (a, z) = *r.pick(&g);
                    Some(r.range(a, z))
                }
                _ => Some(r.next() >> r.below(64)),
            };
            Op::Add { name: gen_name(r), size: size.max(1), ty: gen_type(r), flags: gen_flags(r), align }
        }
        6..=9 => {
            let id = match r.below(8) {
                0 => s.hdr.n,
                1 => s.hdr.n.saturating_add(1 + r.below(3) as u32),
                2 if !s.parts.is_empty() => {
                    let v: Vec<u32> = s.parts.keys().copied().collect();
                    *r.pick(&v)
                }
                3 => r.range(1, u64::from(u32::MAX)) as u32,
                4 => u32::MAX,
                _ => r.range(1, 140) as u32,
            };
            let (first, len) = if g.is_empty() || r.chance(1, 4) {
                let a = gen_lba(r, s);
                let len = match r.below(4) {
                    0 => 1,
                    1 => u64::MAX - r.below(2),
                    2 => gen_lba(r, s),
                    _ => r.range(1, 50),
                };
                (a, len)
            } else {
                let (a, z) = *r.pick(&g);
                let first = match r.below(5) {
                    0 => a,
                    1 => z,
                    2 => a.wrapping_sub(1),
                    3 => z.wrapping_add(1),
                    _ => r.range(a, z),
                };
                let room = z.wrapping_sub(first).wrapping_add(1);
                let len = match r.below(6) {
                    0 => 1,
                    1 => room,
                    2 => room.wrapping_add(1),
                    3 => room.wrapping_sub(1),
                    4 => r.range(1, 50),
                    _ => {
                        if room > 0 && room < 1 << 60 {
                            r.range(1, room)
                        } else {
                            room
                        }
                    }
                };
                (first, len)
            };
            Op::AddAt { name: gen_name(r), id: id.max(1), first, len: len.max(1), ty: gen_type(r), flags: gen_flags(r) }
        }
        10 | 11 => {
            let v: Vec<u32> = s.parts.keys().copied().collect();
            if v.is_empty() || r.chance(1, 4) {
                Op::Remove(r.below(140) as u32)
            } else {
                Op::Remove(*r.pick(&v))
            }
        }
        12 => {
            let v: Vec<Guid> = s.parts.values().map(|p| p.id).collect();
            if v.is_empty() || r.chance(1, 4) {
                let mut g = r.guid();
                if !v.is_empty() && r.chance(1, 2) {
                    // nearly right
                    g = *r.pick(&v);
                    g[r.below(16) as usize] ^= 1;
                }
                Op::RemoveGuid(g)
            } else {
                Op::RemoveGuid(*r.pick(&v))
            }
        }
        13 => Op::Query,
        14 => Op::SetGuid(match r.below(18) {
            0 => Some([0; 16]),
            1 => Some([0xFF; 16]),
            2 => Some(s.guid),
            3..=11 => Some(r.guid()),
            _ => None,
        }),
        15 if r.chance(1, 2) => Op::CopySwap,
        15 => Op::CloneSwap,
        16 => Op::Reopen,
        17 if r.chance(1, 3) => Op::Take,
        17 | 18 => {
            let slots = if r.chance(1, 5) { s.hdr.n.saturating_add(10) } else { s.hdr.n.max(1) };
            if r.chance(1, 6) {
                // many entries
                let k = if b.vast && s.hdr.lu.saturating_sub(s.hdr.fu) > 60_000 && r.chance(1, 40) {
                    // more than 16 bits count
                    r.range(65_530, 66_000) as u32
                } else if r.chance(1, 3) {
                    // about as many as there are entries
                    s.hdr.n.min(1200).saturating_sub(2).max(1) + r.below(4) as u32
                } else {
                    r.range(1, 200) as u32
                };
                let mut t = BTreeMap::new();
                // sometimes hardly any is unused
                let (un, of) = *r.pick(&[(1, 2), (1, 2), (1, 100), (0, 1)]);
                for i in 0..k {
                    let ty = if r.chance(un, of) { [0; 16] } else { gen_type(r) };
                    let at = s.hdr.fu.saturating_add(u64::from(i));
                    if at <= s.hdr.lu {
                        t.insert(i + 1, gen_p(r, ty, at, at));
                    } else {
                        t.insert(i + 1, gen_p(r, [0; 16], at, at));
                    }
                }
                return Op::Update(t);
            }
            if b.wild && r.chance(1, 2) {
                Op::Update(gen_wild_table(r, s, 8))
            } else if s.hdr.fu <= s.hdr.lu {
                Op::Update(gen_table(r, s.hdr.fu, s.hdr.lu, 10, slots, b.unused))
            } else {
                Op::Query
            }
        }
        _ => Op::Query,
    }
}

/// Run a history, handing each step to the monitor.
pub fn history(
    c: &mut Ctx,
    b: Bias,
    max_steps: u64,
    mut mon: impl FnMut(&mut Ctx, &mut World, &Step) -> R,
) -> R {
    let mut w = gen_world(c, b)?;
    let n = c.rng.range(1, max_steps);
    for _ in 0..n {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        let st = w.step(c, op)?;
        match mon(c, &mut w, &st) {
            Err(Stop::Violation(m)) => {
                return Err(Stop::Violation(format!("{m}\n  at: {}\n  result: {:?}", st.op.short(), short_res(&st.res))))
            }
            r => r?,
        }
        w.safe_n = w.safe_n.min(w.snap().hdr.n);
    }
    // the device must not be leaked
    let World { disk, dev, .. } = w;
    drop(disk);
    if std::rc::Rc::strong_count(&dev.inner) != 1 {
        viol!("the device is still referenced after the disk was dropped");
    }
    Ok(())
}

fn short_res(r: &Res) -> String {
    let mut s = format!("{r:?}");
    if s.len() > 200 {
        s = s.chars().take(200).collect();
    }
    s
}

#[allow(dead_code)]
pub fn disk_guid_bytes(g: &Guid) -> Guid {
    swap_guid(g)
}
