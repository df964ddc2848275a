//! Disks opened by path: recording of the file operations of this process,
//! C04 and C16.
use super::rw::fresh;
use crate::codec::check_wellformed;
use crate::ctx::{lib, Ctx, R};
use crate::dev::{Dev, Ev, Image};
use crate::world::*;
use crate::{ensure, viol};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------ scratch files

pub struct Scratch {
    pub dir: PathBuf,
}

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("vh-s-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch { dir }
    }
    /// A file with these contents.
    pub fn file(&self, name: &str, img: &Image) -> PathBuf {
        let p = self.dir.join(name);
        assert!(img.size <= 64 << 20, "too big for a file");
        fs::write(&p, img.get(0, img.size as usize).unwrap()).expect("write a scratch file");
        p
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

pub fn load(p: &Path) -> Image {
    Image::from_bytes(&fs::read(p).expect("read a scratch file"))
}

/// A file of any size, almost all of it a hole. None if the file system cannot.
#[cfg(not(miri))]
pub fn huge_file(dir: &Scratch, name: &str, size: u64) -> Option<PathBuf> {
    let p = dir.dir.join(name);
    let f = fs::File::create(&p).expect("create a scratch file");
    f.set_len(size).ok()?;
    let (e, m) = (data_extents(&f, size), f.metadata().ok()?);
    (e.map_or(false, |e| e.is_empty()) && m.len() == size).then_some(p)
}

#[cfg(not(miri))]
fn data_extents(f: &fs::File, size: u64) -> Option<Vec<(u64, u64)>> {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn lseek64(fd: i32, off: i64, whence: i32) -> i64;
    }
    let mut v = vec![];
    let mut at = 0;
    while at < size {
        // SEEK_DATA, SEEK_HOLE
        let a = unsafe { lseek64(f.as_raw_fd(), at as i64, 3) };
        if a < 0 {
            // no more data is ENXIO
            return (std::io::Error::last_os_error().raw_os_error() == Some(6)).then_some(v);
        }
        let b = unsafe { lseek64(f.as_raw_fd(), a, 4) };
        if b <= a || v.len() > 1000 {
            return None;
        }
        v.push((a as u64, b as u64));
        at = b as u64;
    }
    Some(v)
}

/// The contents of such a file.
#[cfg(not(miri))]
pub fn load_huge(p: &Path) -> Image {
    use std::os::unix::fs::FileExt;
    let f = fs::File::open(p).expect("read a scratch file");
    let size = f.metadata().expect("size of a scratch file").len();
    let mut img = Image::new(size, 0);
    for (a, b) in data_extents(&f, size).expect("extents of a scratch file") {
        assert!(b - a < 64 << 20, "too much data in a scratch file");
        let mut buf = vec![0; (b - a) as usize];
        f.read_exact_at(&mut buf, a).expect("read a scratch file");
        img.put(a, &buf);
    }
    img
}

// ---------------------------------------------------------------- recording

#[derive(Clone, Debug, PartialEq)]
pub enum Fev {
    Open { fd: i32, flags: i32 },
    Write { fd: i32, off: u64, data: Rc<Vec<u8>> },
    Truncate { fd: i32 },
    Sync { fd: i32 },
    Fail,
}

pub struct Rec {
    path: Vec<u8>,
    real: PathBuf,
    fds: Vec<i32>,
    pub evs: Vec<Fev>,
    /// fail the n-th write or sync
    pub fail_write: Option<u64>,
    pub fail_sync: Option<u64>,
    pub writes: u64,
    pub syncs: u64,
}

impl Rec {
    /// Whether this is the file, also if opened another way or duplicated.
    fn is_tracked(&self, fd: i32) -> bool {
        self.fds.contains(&fd) || matches!(fs::read_link(format!("/proc/self/fd/{fd}")), Ok(p) if p == self.real)
    }
}

thread_local! {
    /// the error number of the calls that fail (EIO)
    pub static ERRNO: std::cell::Cell<i32> = const { std::cell::Cell::new(5) };
    static REC: RefCell<Option<Rec>> = const { RefCell::new(None) };
}

thread_local! {
    static RANDOM: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

/// Replace the randomness the library asks the system for.
pub fn deterministic(seed: Option<u64>) {
    RANDOM.with(|r| r.set(seed));
}

pub const RECORDS: bool = cfg!(not(any(feature = "plain", miri)));

/// Record what happens to this file while `f` runs.
pub fn record<T>(path: &Path, fail_write: Option<u64>, fail_sync: Option<u64>, f: impl FnOnce() -> T) -> (T, Vec<Fev>) {
    REC.with(|r| {
        *r.borrow_mut() = Some(Rec {
            path: path.as_os_str().as_encoded_bytes().to_vec(),
            real: path.canonicalize().unwrap_or_else(|_| path.to_owned()),
            fds: vec![],
            evs: vec![],
            fail_write,
            fail_sync,
            writes: 0,
            syncs: 0,
        })
    });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            REC.with(|r| *r.borrow_mut() = None);
        }
    }
    let _off = Off;
    let v = f();
    let evs = REC.with(|r| r.borrow_mut().as_mut().map(|r| std::mem::take(&mut r.evs)).unwrap_or_default());
    (v, evs)
}

/// Start a new log without forgetting the open files.
pub fn cut() -> Vec<Fev> {
    REC.with(|r| r.borrow_mut().as_mut().map(|r| std::mem::take(&mut r.evs)).unwrap_or_default())
}

#[cfg(not(any(feature = "plain", miri)))]
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod interpose {
    //! The arguments are passed the same way as those of the C declarations.
    use super::*;
    use std::ffi::CStr;

    extern "C" {
        fn __errno_location() -> *mut i32;
    }

    /// The C library's `syscall`, so that the source of randomness can be
    /// replaced too.
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == GETRANDOM {
            if let Some(k) = random(a as *mut u8, b as usize) {
                return k;
            }
        }
        let r: i64;
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => r,
            in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _,
            options(nostack),
        );
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
        syscall(GETRANDOM, buf as i64, n as i64, flags as i64, 0, 0, 0) as isize
    }
    unsafe fn random(buf: *mut u8, n: usize) -> Option<i64> {
        RANDOM
            .try_with(|s| {
                let mut x = s.get()?;
                for i in 0..n {
                    x = crate::prng::mix(x.wrapping_add(0x9e37_79b9_7f4a_7c15));
                    *buf.add(i) = x as u8;
                }
                s.set(Some(x));
                Some(n as i64)
            })
            .ok()
            .flatten()
    }
    const GETRANDOM: i64 = 318;

    const OPENAT: i64 = 257;
    const CLOSE: i64 = 3;
    const WRITE: i64 = 1;
    const WRITEV: i64 = 20;
    const PWRITE: i64 = 18;
    const LSEEK: i64 = 8;
    const FTRUNCATE: i64 = 77;

    fn with<T>(f: impl FnOnce(&mut Rec) -> Option<T>) -> Option<T> {
        REC.try_with(|r| match r.try_borrow_mut() {
            Ok(mut r) => r.as_mut().and_then(f),
            Err(_) => None,
        })
        .ok()
        .flatten()
    }
    fn tracked(fd: i32) -> bool {
        with(|r| r.is_tracked(fd).then_some(())).is_some()
    }
    unsafe fn eio() -> i64 {
        *__errno_location() = super::ERRNO.with(|e| e.get());
        -1
    }

    unsafe fn opened(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
        let fd = syscall(OPENAT, dir as i64, path as i64, flags as i64, mode as i64, 0, 0) as i32;
        if fd >= 0 {
            let p = CStr::from_ptr(path as *const _).to_bytes();
            with(|r| {
                if r.path == p || r.is_tracked(fd) {
                    r.fds.push(fd);
                    r.evs.push(Fev::Open { fd, flags });
                }
                Some(())
            });
        }
        fd
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
        opened(-100, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
        opened(-100, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        with(|r| {
            r.fds.retain(|f| *f != fd);
            Some(())
        });
        syscall(CLOSE, fd as i64, 0, 0, 0, 0, 0) as i32
    }
    fn wrote(fd: i32, off: u64, data: &[u8]) {
        with(|r| {
            r.evs.push(Fev::Write { fd, off, data: Rc::new(data.to_vec()) });
            Some(())
        });
    }
    fn refuse_write() -> bool {
        with(|r| {
            let n = r.writes;
            r.writes += 1;
            if r.fail_write == Some(n) {
                r.evs.push(Fev::Fail);
                return Some(());
            }
            None
        })
        .is_some()
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        if !tracked(fd) {
            return syscall(WRITE, fd as i64, buf as i64, n as i64, 0, 0, 0) as isize;
        }
        if refuse_write() {
            return eio() as isize;
        }
        let off = syscall(LSEEK, fd as i64, 0, 1, 0, 0, 0);
        let k = syscall(WRITE, fd as i64, buf as i64, n as i64, 0, 0, 0) as isize;
        if k > 0 {
            wrote(fd, off as u64, std::slice::from_raw_parts(buf, k as usize));
        }
        k
    }
    #[repr(C)]
    pub struct IoVec {
        base: *const u8,
        len: usize,
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
        if !tracked(fd) {
            return syscall(WRITEV, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as isize;
        }
        if refuse_write() {
            return eio() as isize;
        }
        let off = syscall(LSEEK, fd as i64, 0, 1, 0, 0, 0);
        let k = syscall(WRITEV, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as isize;
        if k > 0 {
            let mut all = vec![];
            for v in std::slice::from_raw_parts(iov, cnt as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(v.base, v.len));
            }
            wrote(fd, off as u64, &all[..k as usize]);
        }
        k
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
        if tracked(fd) && refuse_write() {
            return eio() as isize;
        }
        let k = syscall(PWRITE, fd as i64, buf as i64, n as i64, off, 0, 0) as isize;
        if k > 0 && tracked(fd) {
            wrote(fd, off as u64, std::slice::from_raw_parts(buf, k as usize));
        }
        k
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
        let k = syscall(FTRUNCATE, fd as i64, len, 0, 0, 0, 0) as i32;
        if tracked(fd) {
            with(|r| {
                r.evs.push(Fev::Truncate { fd });
                Some(())
            });
        }
        k
    }
    /// Recorded only: nothing here depends on the scratch files being durable.
    unsafe fn sync(fd: i32) -> i32 {
        let fail = with(|r| {
            if !r.is_tracked(fd) {
                return None;
            }
            let n = r.syncs;
            r.syncs += 1;
            if r.fail_sync == Some(n) {
                r.evs.push(Fev::Fail);
                return Some(());
            }
            r.evs.push(Fev::Sync { fd });
            None
        });
        if fail.is_some() {
            return eio() as i32;
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
        sync(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
        sync(fd)
    }
}

/// The log of a file as a log of a device: only a sync makes data durable.
pub fn as_device_log(evs: &[Fev]) -> Vec<Ev> {
    evs.iter()
        .filter_map(|e| match e {
            Fev::Write { off, data, .. } => Some(Ev::Write { off: *off, data: data.clone() }),
            Fev::Sync { .. } => Some(Ev::Flush),
            _ => None,
        })
        .collect()
}

fn first_unsynced(evs: &[Fev]) -> Option<String> {
    let last = evs.iter().rposition(|e| matches!(e, Fev::Write { .. } | Fev::Truncate { .. }))?;
    if evs[last..].iter().any(|e| matches!(e, Fev::Sync { .. })) {
        return None;
    }
    match &evs[last] {
        Fev::Write { off, data, .. } => Some(format!("{} bytes written at {off}", data.len())),
        e => Some(format!("{e:?}")),
    }
}

/// A small disk image: fresh, written by this library or foreign.
pub fn small_image(c: &mut Ctx, lb: u64) -> R<Image> {
    let size = (min_blocks(128, lb) + c.rng.range(3, if cfg!(miri) { 12 } else { 300 })) * lb + if c.rng.chance(1, 4) { c.rng.below(lb) } else { 0 };
    let img = match c.rng.below(3) {
        0 => Image::new(size, c.rng.next() | 1),
        1 => {
            let dev = Dev::new(Image::new(size, 0));
            let conf = Conf { writable: true, ..Conf::plain(lb) };
            let mut d = create(c, conf, dev.share())?;
            let s = snap(&d);
            let t = gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 10, 128, false);
            let m = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
            if let Err(e) = lib(|| d.update_partitions(m).and_then(|_| d.write_inplace())) {
                viol!("a first table cannot be written: {}", gerr(&e));
            }
            dev.image()
        }
        _ => loop {
            let f = gen_foreign(&mut c.rng, lb, false, if cfg!(miri) { 1 } else { 128 });
            if f.img.size < 4 << 20 {
                break f.img;
            }
        },
    };
    Ok(img)
}

// ---------------------------------------------------------------------- C04

fn c04_files(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let img = small_image(c, lb)?;
    let dir = Scratch::new();
    let path = dir.file("disk", &img);
    let writable = c.rng.chance(1, 2);
    let conf = Conf {
        lb,
        writable,
        perm: c.rng.chance(1, 2),
        only_valid: c.rng.chance(1, 4),
        ro_backup: c.rng.chance(1, 4),
    };
    if c.rng.chance(1, 8) {
        // nothing there
        let none = path.with_file_name("none");
        let ok = [
            lib(|| conf.config().open(&none).is_ok()),
            lib(|| conf.config().create(&none).is_ok()),
            lib(|| gpt::disk::read_disk(&none).is_ok()),
            lib(|| gpt::header::read_header(&none, lbs(lb)).is_ok()),
        ];
        ensure!(ok == [false; 4], "open, create, read_disk, read_header succeed without a file: {ok:?}");
        ensure!(!none.exists(), "a file appeared without a write, {conf:?}");
        c.count("missing_files", 1);
    }
    c.note(format!("file of {} bytes, {conf:?}", img.size));
    c.nontrivial = true;
    c.count("files", 1);
    let (r, evs) = record(&path, None, None, || -> R<bool> {
        let mut opened = true;
        let d = match lib(|| conf.config().open(&path)) {
            Ok(d) => Some(d),
            Err(_) => {
                opened = false;
                lib(|| conf.config().create(&path)).ok()
            }
        };
        if c.rng.chance(1, 2) {
            let _ = lib(|| gpt::disk::read_disk(&path).is_ok());
            if let Ok(h) = lib(|| gpt::header::read_header(&path, lbs(lb))) {
                let _ = lib(|| gpt::partition::read_partitions(&path, &h, lbs(lb)).is_ok());
            }
        }
        if let Some(mut d) = d {
            lib(|| {
                let _ = d.add_partition("x", 512, type_of(&gen_type(&mut c.rng)), 0, None);
                d.update_guid(None);
                let _ = d.update_partitions(BTreeMap::new());
                d.remove_partition(1);
                let _ = format!("{d:?}");
            });
            if !writable {
                let r = lib(|| d.write_inplace()).map_err(|e| gerr(&e));
                ensure!(r == Err("ReadOnly".into()), "write on a disk opened without writable: {r:?}");
                match c.rng.below(3) {
                    0 => {
                        let r = lib(|| d.write().map(|_| ())).map_err(|e| gerr(&e));
                        ensure!(r == Err("ReadOnly".into()), "write on a disk opened without writable: {r:?}");
                    }
                    1 => {
                        lib(|| d.take_device());
                    }
                    _ => {}
                }
            }
        }
        Ok(opened)
    });
    r?;
    for e in &evs {
        match e {
            Fev::Open { flags, .. } => {
                c.count("opens_observed", 1);
                if !writable {
                    ensure!(flags & 3 == 0, "a file was opened with flags {flags:#o} without the writable option");
                }
                ensure!(flags & 0o1000 == 0, "a file was opened with O_TRUNC");
            }
            Fev::Write { off, data, .. } => viol!("{} bytes were written at {off} without a write", data.len()),
            Fev::Truncate { .. } => viol!("the file was truncated"),
            _ => {}
        }
    }
    ensure!(load(&path).same(&img), "the file changed without a write");
    // a file which cannot be opened for writing can be read
    Ok(())
}

pub fn c04(c: &mut Ctx) -> R {
    if RECORDS && c.rng.chance(1, 12) {
        return c04_files(c);
    }
    let b = Bias { readonly: 45, writes: 20, perm: 40, full: 15, wild: true, ..Bias::default() };
    let mut w = gen_world(c, b)?;
    // opening and creating
    let img0 = w.dev.image();
    let log = w.dev.take_log();
    if w.start != "create" && !log.iter().all(|e| !matches!(e, Ev::Write { .. })) {
        viol!("opening or creating wrote to the device");
    }
    if w.start == "create" {
        ensure!(!log.iter().any(|e| matches!(e, Ev::Write { .. })), "creating wrote to the device");
    }
    let mut expect = img0;
    let n = c.rng.range(1, 16);
    for _ in 0..n {
        let s = w.snap();
        let op = gen_op(&mut c.rng, &s, &b);
        let st = w.step(c, op)?;
        let at = format!("{} -> {:?}", st.op.short(), st.err());
        if st.op.is_write() && w.conf.writable {
            expect = st.img_post.clone();
            c.count("permitted_writes", 1);
            continue;
        }
        c.nontrivial = true;
        if st.op.is_write() {
            c.count("refused_writes", 1);
            ensure!(st.err() == Some("ReadOnly"), "write on a disk which is not writable: {:?}", st.res);
        } else {
            c.count("operations_without_write", 1);
        }
        if st.evs.iter().any(|e| matches!(e, Ev::Write { .. } | Ev::Oob { .. })) || !st.img_post.same(&expect) {
            viol!("the device was written by {at}");
        }
    }
    // other uses of the device
    let d = w.disk.take().unwrap();
    let clone = if c.rng.chance(1, 2) { Some(lib(|| d.clone())) } else { None };
    drop(clone);
    // copies for another device, with their own permission
    if c.rng.chance(1, 2) {
        let spare = Dev::new(expect.clone());
        let may = c.rng.chance(1, 3);
        let how = c.rng.below(2);
        let mut copy = lib(|| {
            if how == 0 {
                d.with_disk_device(spare.share(), may)
            } else {
                let mut copy = d.clone();
                drop(copy.update_disk_device(spare.share(), may));
                copy
            }
        });
        let at = format!("a copy made with writable {may} (variant {how}) of a disk with writable {}", w.conf.writable);
        if c.rng.chance(1, 2) {
            lib(|| copy.update_guid(None));
        }
        ensure!(spare.take_log().iter().all(|e| !matches!(e, Ev::Write { .. } | Ev::Oob { .. })), "{at} wrote before being asked to");
        if !may {
            c.count("copies_without_permission", 1);
            let r = lib(|| copy.write_inplace()).map_err(|e| gerr(&e));
            ensure!(r == Err("ReadOnly".into()), "{at}: write returned {r:?}");
            ensure!(
                spare.take_log().iter().all(|e| !matches!(e, Ev::Write { .. } | Ev::Oob { .. })) && spare.image().same(&expect),
                "{at} modified its device"
            );
        }
        lib(|| drop(copy));
    }
    if c.rng.chance(1, 2) {
        let dev = lib(|| d.take_device());
        drop(dev);
    } else {
        lib(|| drop(d));
    }
    let mut dev = w.dev.share();
    let _ = lib(|| gpt::header::read_header_from_arbitrary_device(&mut dev, w.conf.lbs()));
    let _ = lib(|| gpt::mbr::ProtectiveMBR::from_disk(&mut dev, w.conf.lbs()).is_ok());
    let _ = lib(|| gpt::mbr::read_bootcode(&mut dev).is_ok() && gpt::mbr::read_disk_signature(&mut dev).is_ok());
    if w.dev.take_log().iter().any(|e| matches!(e, Ev::Write { .. } | Ev::Oob { .. })) || !w.dev.image().same(&expect) {
        viol!("the device was written by dropping the disk, taking the device or reading");
    }
    Ok(())
}

// ---------------------------------------------------------------------- C16

fn c16_files(c: &mut Ctx) -> R {
    let lb = gen_lb(&mut c.rng);
    let mut img = small_image(c, lb)?;
    if c.rng.chance(1, 4) {
        // one of the copies is damaged
        let k = c.rng.below(3);
        let (from, len) = *[(lb, 92), (2 * lb, 128 * 128), (crate::codec::last_lba(img.size, lb) * lb, 92)].get(k as usize).unwrap();
        damage(&mut c.rng, &mut img, from, len);
        c.note(format!("damaged near byte {from}"));
        c.count("damaged_files", 1);
    }
    let dir = Scratch::new();
    let path = dir.file("disk", &img);
    let conf = Conf { writable: true, ro_backup: c.rng.chance(1, 6), perm: c.rng.chance(1, 2), ..Conf::plain(lb) };
    // storage which fails to sync once
    let bad = c.rng.chance(1, 4).then(|| c.rng.below(8));
    c.note(format!("file of {} bytes, {conf:?}, failing sync {bad:?}", img.size));
    let (r, _) = record(&path, None, bad, || -> R {
        let how = c.rng.below(2);
        let d = match lib(|| conf.config().open(&path)) {
            Ok(d) if how == 0 => Ok(d),
            _ => lib(|| conf.config().create(&path)),
        };
        let mut d = match d {
            Ok(d) => d,
            Err(e) => viol!("create failed: {}", gerr(&e)),
        };
        let mut synced_open = false;
        for e in cut() {
            if let Fev::Open { flags, .. } = e {
                synced_open = flags & 0o10000 != 0;
            }
        }
        for i in 0..c.rng.range(1, 5) {
            let s = snap(&d);
            match c.rng.below(4) {
                0 => {
                    let t = gen_table(&mut c.rng, s.hdr.fu, s.hdr.lu, 10, 128, false);
                    let m = t.iter().map(|(k, p)| (*k, p.to_lib())).collect();
                    let _ = lib(|| d.update_partitions(m).is_ok());
                }
                1 => {
                    let _ = lib(|| d.add_partition("x", 1, type_of(&[3; 16]), 0, None).is_ok());
                }
                2 => lib(|| d.update_guid(None)),
                _ => {}
            }
            if c.rng.chance(1, 6) {
                let f = fs::OpenOptions::new().read(true).write(true).open(&path).expect("open the scratch file");
                drop(lib(|| d.update_disk_device(f, true)));
                synced_open = false;
                c.count("files_replaced", 1);
                c.note("the device is replaced by another handle of the file".into());
            }
            let s = snap(&d);
            cut();
            let consume = c.rng.chance(1, 5);
            let mut kept = None;
            let mut file = None;
            let r = if consume {
                lib(|| d.write()).map(|f| file = Some(f))
            } else {
                let r = lib(|| d.write_inplace());
                kept = Some(d);
                r
            };
            let evs = cut();
            c.nontrivial = true;
            if evs.iter().any(|e| matches!(e, Fev::Fail)) {
                c.count("failed_syncs", 1);
                ensure!(r.is_err(), "write {i} returned success although syncing the file failed");
                d = match kept {
                    Some(d) => d,
                    None => return Ok(()),
                };
                continue;
            }
            if let Err(e) = r {
                viol!("write {i} failed: {}", gerr(&e));
            }
            c.count("file_writes_checked", 1);
            c.count("file_writes_observed", evs.iter().filter(|e| matches!(e, Fev::Write { .. })).count() as u64);
            c.count("syncs_observed", evs.iter().filter(|e| matches!(e, Fev::Sync { .. })).count() as u64);
            if let Some(what) = first_unsynced(&evs) {
                ensure!(synced_open, "write {i} returned success, but {what} were not synced");
            }
            let now = load(&path);
            ensure!(now.size == img.size, "the size of the file changed to {}", now.size);
            match fresh(c, &now, Conf::plain(lb)) {
                Ok(f) => ensure!(no_os(&f.parts) == s.packed(), "write {i} returned success but the file has another table"),
                Err(e) => viol!("the file does not open after write {i}: {e}"),
            }
            drop(file);
            d = match kept {
                Some(d) => d,
                None => return Ok(()),
            };
        }
        Ok(())
    });
    r
}

/// The functions that write parts of block 0.
fn c16_mbr(c: &mut Ctx) -> R {
    let dev = Dev::new(Image::new(512 + c.rng.below(20_000), c.rng.next() | 1));
    if c.rng.chance(1, 4) {
        dev.inner.borrow_mut().flaky = c.rng.next() | 1;
    }
    let mut d = dev.share();
    let mut m = lib(gpt::mbr::ProtectiveMBR::new);
    for _ in 0..c.rng.range(1, 5) {
        let which = c.rng.below(4);
        let mut boot = [0; 440];
        boot.copy_from_slice(&c.rng.bytes(440));
        lib(|| {
            m.set_bootcode(boot);
        });
        dev.set_pos(c.rng.below(30_000));
        dev.take_log();
        c.note(format!("MBR write {which}"));
        let r = match which {
            0 => lib(|| m.overwrite_lba0(&mut d)).map(drop).map_err(|e| e.to_string()),
            1 => lib(|| m.update_conservative(&mut d)).map(drop).map_err(|e| e.to_string()),
            2 => lib(|| gpt::mbr::write_bootcode(&mut d, &boot)).map_err(|e| e.to_string()),
            _ => lib(|| gpt::mbr::write_disk_signature(&mut d, &[boot[0], boot[1], boot[2], boot[3]])).map_err(|e| e.to_string()),
        };
        if let Err(e) = r {
            viol!("MBR write {which} failed: {e}");
        }
        let evs = dev.take_log();
        if let Some(last) = evs.iter().rposition(|e| matches!(e, Ev::Write { .. })) {
            ensure!(
                evs[last..].iter().any(|e| matches!(e, Ev::Flush)),
                "MBR write {which} returned success without a flush after the last byte was written"
            );
            c.nontrivial = true;
            c.count("mbr_writes_checked", 1);
        }
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) -> R {
    if RECORDS && c.rng.chance(1, 6) {
        return c16_files(c);
    }
    if c.rng.chance(1, 20) {
        return c16_mbr(c);
    }
    let b = Bias { writes: 45, ro_backup: 10, full: 15, ..Bias::default() };
    history(c, b, 12, |c, w, st| {
        if !st.wrote() {
            return Ok(());
        }
        c.nontrivial = true;
        c.count("device_writes_checked", 1);
        let last = st.evs.iter().rposition(|e| matches!(e, Ev::Write { .. }));
        let last = match last {
            Some(l) => l,
            None => {
                // only right if nothing had to be written
                if let Err(e) = check_wellformed(&st.img_post, w.conf.lb, !w.conf.ro_backup) {
                    viol!("success was returned without writing: {e}");
                }
                return Ok(());
            }
        };
        ensure!(
            st.evs[last..].iter().any(|e| matches!(e, Ev::Flush)),
            "success was returned without a flush after the last byte was written"
        );
        c.count("flushes_observed", st.evs.iter().filter(|e| matches!(e, Ev::Flush)).count() as u64);
        Ok(())
    })
}
