//! Instrumented block device: sparse contents over a zero or patterned
//! background, event log, fault plan.
use crate::prng::mix;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const PAGE: u64 = 4096;
type Page = [u8; PAGE as usize];

/// Contents of a device, cheap to clone (pages are shared until written).
#[derive(Clone)]
pub struct Image {
    pub size: u64,
    /// 0: zeros, otherwise the seed of the background pattern
    pub bg: u64,
    pages: BTreeMap<u64, Rc<Page>>,
}

impl Image {
    pub fn new(size: u64, bg: u64) -> Self {
        Image { size, bg, pages: BTreeMap::new() }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut i = Image::new(b.len() as u64, 0);
        i.put(0, b);
        i
    }
    fn bg_page(bg: u64, no: u64) -> Page {
        let mut p = [0u8; PAGE as usize];
        if cfg!(miri) {
            p.fill(bg as u8);
        } else if bg != 0 {
            let mut x = mix(bg ^ mix(no));
            for c in p.chunks_mut(8) {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                c.copy_from_slice(&(x ^ (x >> 29)).to_le_bytes());
            }
        }
        p
    }
    fn page(&self, no: u64) -> Rc<Page> {
        match self.pages.get(&no) {
            Some(p) => p.clone(),
            None => Rc::new(Self::bg_page(self.bg, no)),
        }
    }
    /// Read inside the device; bytes beyond the end are not touched.
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.size {
            return 0;
        }
        let n = (buf.len() as u64).min(self.size - off) as usize;
        let mut done = 0;
        while done < n {
            let o = off + done as u64;
            let (no, po) = (o / PAGE, (o % PAGE) as usize);
            let k = (PAGE as usize - po).min(n - done);
            match self.pages.get(&no) {
                Some(p) => buf[done..done + k].copy_from_slice(&p[po..po + k]),
                None if self.bg == 0 => buf[done..done + k].fill(0),
                None => {
                    buf[done..done + k].copy_from_slice(&Self::bg_page(self.bg, no)[po..po + k])
                }
            }
            done += k;
        }
        n
    }
    /// Write inside the device.
    pub fn put(&mut self, off: u64, data: &[u8]) {
        assert!(off.checked_add(data.len() as u64).map_or(false, |e| e <= self.size));
        let bg = self.bg;
        let mut done = 0;
        while done < data.len() {
            let o = off + done as u64;
            let (no, po) = (o / PAGE, (o % PAGE) as usize);
            let k = (PAGE as usize - po).min(data.len() - done);
            let p = self
                .pages
                .entry(no)
                .or_insert_with(|| Rc::new(Self::bg_page(bg, no)));
            Rc::make_mut(p)[po..po + k].copy_from_slice(&data[done..done + k]);
            done += k;
        }
    }
    pub fn get(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if off.checked_add(len as u64)? > self.size {
            return None;
        }
        let mut v = vec![0; len];
        assert_eq!(self.read_at(off, &mut v), len);
        Some(v)
    }
    /// Byte ranges [from, to) where the two contents differ, merged.
    pub fn diff(&self, other: &Image) -> Vec<(u64, u64)> {
        let mut out: Vec<(u64, u64)> = vec![];
        if self.size != other.size {
            let (a, b) = (self.size.min(other.size), self.size.max(other.size));
            out.push((a, b));
        }
        let common = self.size.min(other.size);
        let mut nos: Vec<u64> = self.pages.keys().chain(other.pages.keys()).copied().collect();
        nos.sort_unstable();
        nos.dedup();
        for no in nos {
            if let (Some(a), Some(b)) = (self.pages.get(&no), other.pages.get(&no)) {
                if Rc::ptr_eq(a, b) {
                    continue;
                }
            }
            let (a, b) = (self.page(no), other.page(no));
            if a == b {
                continue;
            }
            for i in 0..PAGE as usize {
                if a[i] != b[i] {
                    let o = no * PAGE + i as u64;
                    if o >= common {
                        break;
                    }
                    match out.last_mut() {
                        Some(l) if l.1 == o => l.1 = o + 1,
                        _ => out.push((o, o + 1)),
                    }
                }
            }
        }
        out
    }
    pub fn same(&self, other: &Image) -> bool {
        self.diff(other).is_empty()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Read { off: u64, len: usize },
    Write { off: u64, data: Rc<Vec<u8>> },
    /// attempt to write beyond the end of the device
    Oob { off: u64, len: usize },
    Seek(u64),
    Flush,
    Fault(Call),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Error(io::ErrorKind),
    Interrupted,
    /// transfer only some of the bytes
    Short,
    /// transfer nothing: read/write return 0
    Zero,
    /// write some of the bytes, then report an error on the same call
    PartialError,
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub at: u64,
    pub fault: Fault,
    pub persistent: bool,
}

#[derive(Clone)]
pub struct Inner {
    pub img: Image,
    pub pos: u64,
    pub log: Vec<Ev>,
    pub logging: bool,
    pub calls: u64,
    pub plan: Option<Plan>,
    /// the calls the plan hit
    pub hits: Vec<Call>,
    /// if non zero: seed of random short transfers and interruptions
    pub flaky: u64,
    pub budget: u64,
    pub budget_hit: bool,
    /// look at the contents of the buffers before filling them
    pub peek: bool,
    pub peeked: u64,
}

pub struct Dev {
    pub inner: Rc<RefCell<Inner>>,
}

impl Dev {
    pub fn new(img: Image) -> Self {
        Dev {
            inner: Rc::new(RefCell::new(Inner {
                img,
                pos: 0,
                log: vec![],
                logging: true,
                calls: 0,
                plan: None,
                hits: vec![],
                flaky: 0,
                budget: u64::MAX,
                budget_hit: false,
                peek: false,
                peeked: 0,
            })),
        }
    }
    /// Another handle to the same device.
    pub fn share(&self) -> Dev {
        Dev { inner: self.inner.clone() }
    }
    pub fn image(&self) -> Image {
        self.inner.borrow().img.clone()
    }
    pub fn take_log(&self) -> Vec<Ev> {
        std::mem::take(&mut self.inner.borrow_mut().log)
    }
    pub fn set_plan(&self, plan: Option<Plan>) {
        let mut i = self.inner.borrow_mut();
        i.calls = 0;
        i.hits.clear();
        i.plan = plan;
    }
    pub fn calls(&self) -> u64 {
        self.inner.borrow().calls
    }
    pub fn pos(&self) -> u64 {
        self.inner.borrow().pos
    }
    pub fn set_pos(&self, p: u64) {
        self.inner.borrow_mut().pos = p;
    }
}

impl Clone for Dev {
    /// An independent device with the same contents.
    fn clone(&self) -> Self {
        Dev { inner: Rc::new(RefCell::new(self.inner.borrow().clone())) }
    }
}

impl fmt::Debug for Dev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Dev")
    }
}

thread_local! {
    /// number and running hash of the writes and flushes of all devices
    static EVENTS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}
fn event(off: u64, data: &[u8]) {
    EVENTS.with(|e| {
        let (n, mut h) = e.get();
        h = mix(h ^ off).wrapping_add(data.len() as u64);
        for b in data.iter().take(if cfg!(miri) { 0 } else { usize::MAX }) {
            h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
        e.set((n + 1, h));
    });
}
pub fn reset_events() {
    EVENTS.with(|e| e.set((0, 0)));
}
pub fn events() -> (u64, u64) {
    EVENTS.with(|e| e.get())
}

enum Act {
    Go,
    Limit(usize),
    Fail(io::Error),
    PartialFail,
}

impl Inner {
    fn enter(&mut self, c: Call, len: usize) -> Act {
        let n = self.calls;
        self.calls += 1;
        if self.calls > self.budget {
            self.budget_hit = true;
            return Act::Fail(io::Error::new(io::ErrorKind::Other, "device call budget exceeded"));
        }
        if let Some(p) = self.plan {
            if n == p.at || (p.persistent && n > p.at) {
                let applies = match p.fault {
                    Fault::Error(_) => true,
                    Fault::Interrupted => c != Call::Seek && c != Call::Flush,
                    Fault::Short => (c == Call::Read || c == Call::Write) && len > 1,
                    Fault::Zero => (c == Call::Read || c == Call::Write) && len > 0,
                    Fault::PartialError => true,
                };
                if applies {
                    self.hits.push(c);
                    if self.logging {
                        self.log.push(Ev::Fault(c));
                    }
                    return match p.fault {
                        Fault::Error(k) => Act::Fail(io::Error::new(k, "injected")),
                        Fault::Interrupted => {
                            Act::Fail(io::Error::new(io::ErrorKind::Interrupted, "injected"))
                        }
                        Fault::Short => Act::Limit(1 + (mix(n) % (len as u64 - 1)) as usize),
                        Fault::Zero => Act::Limit(0),
                        Fault::PartialError if c == Call::Write => Act::PartialFail,
                        Fault::PartialError => {
                            Act::Fail(io::Error::new(io::ErrorKind::Other, "injected"))
                        }
                    };
                }
            }
        }
        if self.flaky != 0 && (c == Call::Read || c == Call::Write) {
            self.flaky = mix(self.flaky);
            match self.flaky % 4 {
                0 => {
                    return Act::Fail(io::Error::new(io::ErrorKind::Interrupted, "interrupted"))
                }
                1 | 2 if len > 1 => {
                    return Act::Limit(1 + (mix(self.flaky) % (len as u64 - 1)) as usize)
                }
                _ => {}
            }
        }
        Act::Go
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        if i.peek {
            // a comparison reads every byte, and is quick in an interpreter too
            static ZERO: Page = [0; PAGE as usize];
            for b in buf.chunks(PAGE as usize) {
                i.peeked = i.peeked.wrapping_add(u64::from(*b == ZERO[..b.len()]));
            }
        }
        let lim = match i.enter(Call::Read, buf.len()) {
            Act::Go => buf.len(),
            Act::Limit(n) => n,
            Act::Fail(e) => return Err(e),
            Act::PartialFail => unreachable!(),
        };
        let off = i.pos;
        let n = i.img.read_at(off, &mut buf[..lim]);
        i.pos += n as u64;
        if i.logging {
            i.log.push(Ev::Read { off, len: n });
        }
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        let (lim, fail) = match i.enter(Call::Write, buf.len()) {
            Act::Go => (buf.len(), false),
            Act::Limit(n) => (n, false),
            Act::Fail(e) => return Err(e),
            Act::PartialFail => (buf.len() / 2, true),
        };
        let off = i.pos;
        let room = i.img.size.saturating_sub(off);
        if lim as u64 > room && i.logging {
            i.log.push(Ev::Oob { off, len: lim });
        }
        let n = (lim as u64).min(room) as usize;
        if n > 0 {
            i.img.put(off, &buf[..n]);
            i.pos += n as u64;
            event(off, &buf[..n]);
            if i.logging {
                i.log.push(Ev::Write { off, data: Rc::new(buf[..n].to_vec()) });
            }
        }
        if fail {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut i = self.inner.borrow_mut();
        match i.enter(Call::Flush, 0) {
            Act::Fail(e) => return Err(e),
            _ => {}
        }
        event(u64::MAX, &[]);
        if i.logging {
            i.log.push(Ev::Flush);
        }
        Ok(())
    }
}

impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut i = self.inner.borrow_mut();
        match i.enter(Call::Seek, 0) {
            Act::Fail(e) => return Err(e),
            _ => {}
        }
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => i.img.size.checked_add_signed(d),
            SeekFrom::Current(d) => i.pos.checked_add_signed(d),
        };
        let new = new.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "bad seek"))?;
        i.pos = new;
        if i.logging {
            i.log.push(Ev::Seek(new));
        }
        Ok(new)
    }
}
