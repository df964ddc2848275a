//! Independent GPT/MBR encoder and decoder, written from the UEFI rules; it
//! shares nothing with the crate under test.
use crate::dev::Image;

pub type Guid = [u8; 16];

/// CRC-32 (ISO-HDLC), table driven.
pub fn crc32(data: &[u8]) -> u32 {
    const fn table() -> [u32; 256] {
        let mut t = [0u32; 256];
        let mut i = 0;
        while i < 256 {
            let mut c = i as u32;
            let mut k = 0;
            while k < 8 {
                c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
                k += 1;
            }
            t[i] = c;
            i += 1;
        }
        t
    }
    static T: [u32; 256] = table();
    let mut c = !0u32;
    for b in data {
        c = T[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// text order <-> mixed-endian disk order (an involution)
pub fn swap_guid(g: &Guid) -> Guid {
    let mut o = *g;
    o[0..4].reverse();
    o[4..6].reverse();
    o[6..8].reverse();
    o
}

fn u16_at(b: &[u8], o: usize) -> u16 {
    u16::from(b[o]) | u16::from(b[o + 1]) << 8
}
fn u32_at(b: &[u8], o: usize) -> u32 {
    (0..4).fold(0, |a, i| a | u32::from(b[o + i]) << (8 * i))
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    (0..8).fold(0, |a, i| a | u64::from(b[o + i]) << (8 * i))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawHeader {
    pub sig: [u8; 8],
    pub minor: u16,
    pub major: u16,
    pub hsize: u32,
    pub crc: u32,
    pub reserved: u32,
    pub my: u64,
    pub alt: u64,
    pub fu: u64,
    pub lu: u64,
    pub guid: Guid,
    pub pstart: u64,
    pub n: u32,
    pub psize: u32,
    pub pcrc: u32,
}

impl RawHeader {
    pub fn decode(b: &[u8]) -> Self {
        let mut sig = [0; 8];
        sig.copy_from_slice(&b[..8]);
        let mut g = [0; 16];
        g.copy_from_slice(&b[56..72]);
        RawHeader {
            sig,
            minor: u16_at(b, 8),
            major: u16_at(b, 10),
            hsize: u32_at(b, 12),
            crc: u32_at(b, 16),
            reserved: u32_at(b, 20),
            my: u64_at(b, 24),
            alt: u64_at(b, 32),
            fu: u64_at(b, 40),
            lu: u64_at(b, 48),
            guid: swap_guid(&g),
            pstart: u64_at(b, 72),
            n: u32_at(b, 80),
            psize: u32_at(b, 84),
            pcrc: u32_at(b, 88),
        }
    }
    fn raw(&self) -> [u8; 92] {
        let mut b = [0; 92];
        b[..8].copy_from_slice(&self.sig);
        b[8..10].copy_from_slice(&self.minor.to_le_bytes());
        b[10..12].copy_from_slice(&self.major.to_le_bytes());
        b[12..16].copy_from_slice(&self.hsize.to_le_bytes());
        b[16..20].copy_from_slice(&self.crc.to_le_bytes());
        b[20..24].copy_from_slice(&self.reserved.to_le_bytes());
        b[24..32].copy_from_slice(&self.my.to_le_bytes());
        b[32..40].copy_from_slice(&self.alt.to_le_bytes());
        b[40..48].copy_from_slice(&self.fu.to_le_bytes());
        b[48..56].copy_from_slice(&self.lu.to_le_bytes());
        b[56..72].copy_from_slice(&swap_guid(&self.guid));
        b[72..80].copy_from_slice(&self.pstart.to_le_bytes());
        b[80..84].copy_from_slice(&self.n.to_le_bytes());
        b[84..88].copy_from_slice(&self.psize.to_le_bytes());
        b[88..92].copy_from_slice(&self.pcrc.to_le_bytes());
        b
    }
    /// The checksum these fields should carry.
    pub fn expected_crc(&self) -> u32 {
        let mut h = self.clone();
        h.crc = 0;
        crc32(&h.raw())
    }
    /// Encode with a correct checksum.
    pub fn encode(&self) -> [u8; 92] {
        let mut h = self.clone();
        h.crc = self.expected_crc();
        h.raw()
    }
    pub fn valid(&self) -> bool {
        &self.sig == b"EFI PART" && self.crc == self.expected_crc()
    }
    pub fn array_bytes(&self) -> u64 {
        u64::from(self.n) * u64::from(self.psize)
    }
    /// blocks of the array, [from, to)
    pub fn array_blocks(&self, lb: u64) -> (u64, u64) {
        (self.pstart, self.pstart.saturating_add((self.array_bytes() + lb - 1) / lb))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawEntry {
    pub ty: Guid,
    pub id: Guid,
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    pub name: [u16; 36],
}

impl RawEntry {
    pub fn decode(b: &[u8]) -> Self {
        let mut t = [0; 16];
        t.copy_from_slice(&b[..16]);
        let mut i = [0; 16];
        i.copy_from_slice(&b[16..32]);
        let mut name = [0; 36];
        for (k, c) in name.iter_mut().enumerate() {
            *c = u16_at(b, 56 + 2 * k);
        }
        RawEntry {
            ty: swap_guid(&t),
            id: swap_guid(&i),
            first: u64_at(b, 32),
            last: u64_at(b, 40),
            flags: u64_at(b, 48),
            name,
        }
    }
    pub fn encode(&self) -> [u8; 128] {
        let mut b = [0; 128];
        b[..16].copy_from_slice(&swap_guid(&self.ty));
        b[16..32].copy_from_slice(&swap_guid(&self.id));
        b[32..40].copy_from_slice(&self.first.to_le_bytes());
        b[40..48].copy_from_slice(&self.last.to_le_bytes());
        b[48..56].copy_from_slice(&self.flags.to_le_bytes());
        for (k, c) in self.name.iter().enumerate() {
            b[56 + 2 * k..58 + 2 * k].copy_from_slice(&c.to_le_bytes());
        }
        b
    }
    pub fn name_units(&self) -> &[u16] {
        let n = self.name.iter().position(|c| *c == 0).unwrap_or(36);
        &self.name[..n]
    }
}

/// UTF-16 encoding of a string, own implementation.
pub fn utf16(s: &str) -> Vec<u16> {
    let mut v = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            v.push(c as u16);
        } else {
            v.push(0xD800 + ((c - 0x10000) >> 10) as u16);
            v.push(0xDC00 + ((c - 0x10000) & 0x3ff) as u16);
        }
    }
    v
}

/// Decode UTF-16, unpaired surrogates become U+FFFD.
pub fn utf16_lossy(u: &[u16]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < u.len() {
        let a = u32::from(u[i]);
        if !(0xD800..0xE000).contains(&a) {
            s.push(char::from_u32(a).unwrap());
        } else if a < 0xDC00
            && i + 1 < u.len()
            && (0xDC00..0xE000).contains(&u32::from(u[i + 1]))
        {
            let b = u32::from(u[i + 1]);
            s.push(char::from_u32(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)).unwrap());
            i += 1;
        } else {
            s.push('\u{FFFD}');
        }
        i += 1;
    }
    s
}

/// The units of a name which can be recorded: up to the first NUL, at most 36,
/// only whole characters.
pub fn name_units(s: &str) -> Vec<u16> {
    let mut v = utf16(s);
    if let Some(p) = v.iter().position(|c| *c == 0) {
        v.truncate(p);
    }
    v.truncate(36);
    if matches!(v.last(), Some(0xD800..=0xDBFF)) {
        v.pop();
    }
    v
}

/// What a name reads back as after it was recorded.
pub fn name_recorded(s: &str) -> String {
    utf16_lossy(&name_units(s))
}

/// One copy (header plus array) of a table found on a device.
#[derive(Clone, Debug)]
pub struct TableCopy {
    pub h: RawHeader,
    pub block: Vec<u8>,
    pub array: Vec<u8>,
}

impl TableCopy {
    /// non blank entries by number
    pub fn entries(&self) -> Vec<(u32, RawEntry)> {
        self.array
            .chunks(128)
            .enumerate()
            .filter(|(_, c)| c.iter().any(|b| *b != 0))
            .map(|(i, c)| (i as u32 + 1, RawEntry::decode(c)))
            .collect()
    }
}

/// Read the copy whose header is in block `lba`.
pub fn read_copy(img: &Image, lb: u64, lba: u64) -> Result<TableCopy, String> {
    let off = lba.checked_mul(lb).ok_or("header position overflows")?;
    let block = img
        .get(off, lb as usize)
        .ok_or_else(|| format!("no block {lba} for a header"))?;
    let h = RawHeader::decode(&block);
    if &h.sig != b"EFI PART" {
        return Err(format!("block {lba}: signature {:?}", h.sig));
    }
    if h.crc != h.expected_crc() {
        return Err(format!(
            "block {lba}: header checksum {:08x}, should be {:08x}",
            h.crc,
            h.expected_crc()
        ));
    }
    if h.psize != 128 {
        return Err(format!("block {lba}: entry size {}", h.psize));
    }
    let aoff = h
        .pstart
        .checked_mul(lb)
        .ok_or("array position overflows")?;
    if h.array_bytes() > 64 << 20 {
        return Err(format!("block {lba}: array of {} entries", h.n));
    }
    let array = img
        .get(aoff, h.array_bytes() as usize)
        .ok_or_else(|| format!("block {lba}: array at {} outside of the device", h.pstart))?;
    if crc32(&array) != h.pcrc {
        return Err(format!(
            "block {lba}: array checksum {:08x}, should be {:08x}",
            h.pcrc,
            crc32(&array)
        ));
    }
    Ok(TableCopy { h, block, array })
}

/// Last whole block of the device.
pub fn last_lba(size: u64, lb: u64) -> u64 {
    (size / lb).saturating_sub(1)
}

/// Judge a device as a well-formed GPT by the UEFI rules.
pub fn check_wellformed(img: &Image, lb: u64, want_backup: bool) -> Result<(TableCopy, Option<TableCopy>), String> {
    let p = read_copy(img, lb, 1).map_err(|e| format!("primary: {e}"))?;
    let last = last_lba(img.size, lb);
    check_header(&p, lb).map_err(|e| format!("primary: {e}"))?;
    if p.h.my != 1 {
        return Err(format!("primary header says it is in block {}", p.h.my));
    }
    if p.h.alt <= 1 || p.h.alt > last {
        return Err(format!("primary header names block {} as the backup, last block is {last}", p.h.alt));
    }
    let pa = p.h.array_blocks(lb);
    if p.h.fu > p.h.lu {
        return Err(format!("usable range {}..={} is empty", p.h.fu, p.h.lu));
    }
    let outside = |a: (u64, u64), what: &str| -> Result<(), String> {
        if a.0 <= p.h.lu && a.1 > p.h.fu {
            return Err(format!("{what} array {:?} overlaps the usable range {}..={}", a, p.h.fu, p.h.lu));
        }
        for (b, w) in [(0, "block 0"), (1, "the primary header"), (p.h.alt, "the backup header")] {
            if a.0 <= b && b < a.1 {
                return Err(format!("{what} array {a:?} overlaps {w}"));
            }
        }
        if a.1 > last + 1 {
            return Err(format!("{what} array {a:?} ends after the last block {last}"));
        }
        Ok(())
    };
    outside(pa, "primary")?;
    for (b, w) in [(0, "block 0"), (1, "the primary header"), (p.h.alt, "the backup header")] {
        if p.h.fu <= b && b <= p.h.lu {
            return Err(format!("usable range {}..={} contains {w}", p.h.fu, p.h.lu));
        }
    }
    if !want_backup {
        return Ok((p, None));
    }
    let b = read_copy(img, lb, p.h.alt).map_err(|e| format!("backup: {e}"))?;
    check_header(&b, lb).map_err(|e| format!("backup: {e}"))?;
    if b.h.my != p.h.alt || b.h.alt != 1 {
        return Err(format!("backup header in block {} says my {} alternate {}", p.h.alt, b.h.my, b.h.alt));
    }
    if (b.h.fu, b.h.lu, b.h.guid, b.h.n, b.h.psize, b.h.pcrc)
        != (p.h.fu, p.h.lu, p.h.guid, p.h.n, p.h.psize, p.h.pcrc)
    {
        return Err(format!("headers disagree: {:?} / {:?}", p.h, b.h));
    }
    let ba = b.h.array_blocks(lb);
    outside(ba, "backup")?;
    if ba.0 < pa.1 && pa.0 < ba.1 {
        return Err(format!("the arrays overlap: {pa:?} {ba:?}"));
    }
    if p.array != b.array {
        return Err("the arrays differ".into());
    }
    Ok((p, Some(b)))
}

fn check_header(c: &TableCopy, _lb: u64) -> Result<(), String> {
    let h = &c.h;
    if (h.major, h.minor) != (1, 0) {
        return Err(format!("revision {}.{}", h.major, h.minor));
    }
    if h.hsize != 92 {
        return Err(format!("header size {}", h.hsize));
    }
    if h.reserved != 0 {
        return Err(format!("reserved field {}", h.reserved));
    }
    if c.block[92..].iter().any(|b| *b != 0) {
        return Err("remainder of the header block is not zero".into());
    }
    Ok(())
}
