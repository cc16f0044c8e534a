//! Simulated storage: every file below /sim/ lives here, as a volatile view plus what is durable plus the
//! writes that are still in flight; faults are injected at the planned operation counts.
use crate::plan::Fault;
use crate::raw;
use crate::rng::{mix, Rng};
use crate::sched::{self, sim};
use crate::shm::*;
use core::ptr::addr_of_mut;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;

const FD0: i32 = 100_000;
#[derive(Clone, Copy, PartialEq, Eq)]
enum Cls {
    Open,
    Read,
    Write,
    Sync,
    Other,
}
struct PW {
    off: usize,
    data: Vec<u8>,
}
#[derive(Default)]
struct Ino {
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<PW>,
    path: String,
    linked: bool,
}
#[derive(Clone)]
struct Fd {
    ino: usize,
    of: usize, // open file description
    direct: bool,
}
struct Of {
    pos: usize,
    flags: i32,
}
struct FaultSt {
    f: Fault,
    seen: u64,
}
pub struct Vfs {
    names: BTreeMap<String, usize>,
    inos: Vec<Ino>,
    fds: BTreeMap<i32, Fd>,
    ofs: Vec<Of>,
    dirs: BTreeSet<String>,
    faults: Vec<FaultSt>,
    next_fd: i32,
    seed: u64,
    crash_mode: i64,
    lat: u64,
    io_n: u64,
    dirstreams: BTreeMap<usize, (Vec<String>, usize)>,
    pub faults_on: bool,
    pub strict_fsync: bool,
}
static mut V: Option<Vfs> = None;
#[allow(static_mut_refs)]
pub fn v() -> &'static mut Vfs {
    unsafe { (*addr_of_mut!(V)).as_mut().unwrap() }
}
/// Called in the child before the simulation starts (image: that of the previous phase, or empty).
pub fn init(seed: u64, faults: &[Fault], phase: u32, crash_mode: i64, lat: u64, load_image: bool) {
    let mut vf = Vfs {
        names: BTreeMap::new(),
        inos: vec![],
        fds: BTreeMap::new(),
        ofs: vec![],
        dirs: BTreeSet::new(),
        faults: faults.iter().filter(|f| f.phase == phase).map(|f| FaultSt { f: f.clone(), seen: 0 }).collect(),
        next_fd: FD0,
        seed: mix(seed ^ (phase as u64) << 32),
        crash_mode,
        lat,
        io_n: 0,
        dirstreams: BTreeMap::new(),
        faults_on: true,
        strict_fsync: false,
    };
    vf.dirs.insert("/sim".into());
    vf.dirs.insert("/sim/cwd".into());
    if load_image {
        for (p, d) in image_files() {
            vf.put(&p, d);
        }
    }
    unsafe { V = Some(vf) };
}
/// The files of the crash image currently in shared memory.
pub fn image_files() -> Vec<(String, Vec<u8>)> {
    let h = shm();
    let b = &h.img[..h.img_len as usize];
    let mut out = vec![];
    let mut i = 0;
    let rd = |i: &mut usize| {
        let v = u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap()) as usize;
        *i += 8;
        v
    };
    while i < b.len() {
        let n = rd(&mut i);
        let p = String::from_utf8_lossy(&b[i..i + n]).into_owned();
        i += n;
        let n = rd(&mut i);
        out.push((p, b[i..i + n].to_vec()));
        i += n;
    }
    out
}
fn img_push(p: &str, d: &[u8]) {
    let h = shm();
    let mut n = h.img_len as usize;
    if n + 16 + p.len() + d.len() > IMG_CAP {
        sched::finish(OUT_HARNESS, "harness", "crash image too large");
    }
    let mut w = |b: &[u8]| {
        h.img[n..n + b.len()].copy_from_slice(b);
        n += b.len();
    };
    w(&(p.len() as u64).to_le_bytes());
    w(p.as_bytes());
    w(&(d.len() as u64).to_le_bytes());
    w(d);
    h.img_len = n as u64;
}
fn splice(v: &mut Vec<u8>, off: usize, d: &[u8]) {
    if d.is_empty() {
        return;
    }
    if v.len() < off + d.len() {
        v.resize(off + d.len(), 0);
    }
    v[off..off + d.len()].copy_from_slice(d);
}
/// Power loss: what survives goes to the shared image and the process ends.
pub fn crash_now() -> ! {
    stat(ST_CRASH, 1);
    save_image(v().crash_mode);
    sched::finish(OUT_CRASHED, "crash", "");
}
/// mode 0 only durable, 1 everything, 2 random subset of the unsynced writes, torn at 512-byte sectors,
/// 3 a prefix of the unsynced writes with the last one torn; for log files (.log) 2 and 3 both mean a prefix
/// of the unsynced writes, cut at any byte; 5 like 2, but a page is written as a whole or not at all
pub fn save_image(mode: i64) {
    let vf = v();
    let mut r = Rng::stream(vf.seed, 77);
    shm().img_len = 0;
    for (p, &i) in vf.names.iter() {
        let ino = &vf.inos[i];
        if mode == 1 {
            img_push(p, &ino.data);
            continue;
        }
        let mut d = ino.durable.clone();
        // an append-only log loses a suffix: the kept part ends between two writes or at any byte of one
        let mode = if mode >= 2 && p.ends_with(".log") { 4 } else { mode };
        match mode {
            4 => {
                let n = ino.pending.len();
                if n > 0 {
                    let keep = r.below(n as u64 + 1) as usize;
                    for w in &ino.pending[..keep] {
                        stat(ST_KEPT, 1);
                        splice(&mut d, w.off, &w.data);
                    }
                    if keep < n {
                        let w = &ino.pending[keep];
                        let k = if r.below(4) == 0 { 0 } else { r.below(w.data.len() as u64 + 1) as usize };
                        stat(if k == 0 { ST_LOST } else { ST_TORN }, 1);
                        splice(&mut d, w.off, &w.data[..k]);
                        stat(ST_LOST, (n - keep - 1) as u64);
                    }
                }
            }
            2 | 5 => {
                let unit = if mode == 2 { 512 } else { 4096 };
                for w in &ino.pending {
                    match r.below(4) {
                        0 => stat(ST_LOST, 1),
                        1 => {
                            stat(ST_TORN, 1);
                            let mut o = 0;
                            while o < w.data.len() {
                                let e = (((w.off + o) / unit + 1) * unit - w.off).min(w.data.len());
                                if r.below(2) == 0 {
                                    splice(&mut d, w.off + o, &w.data[o..e]);
                                }
                                o = e;
                            }
                        }
                        _ => {
                            stat(ST_KEPT, 1);
                            splice(&mut d, w.off, &w.data)
                        }
                    }
                }
            }
            3 => {
                let n = ino.pending.len();
                if n > 0 {
                    let keep = r.below(n as u64 + 1) as usize;
                    for w in &ino.pending[..keep] {
                        stat(ST_KEPT, 1);
                        splice(&mut d, w.off, &w.data);
                    }
                    if keep < n {
                        let w = &ino.pending[keep];
                        stat(ST_TORN, 1);
                        let secs = w.data.len().div_ceil(512) as u64;
                        let k = (r.below(secs + 1) * 512).min(w.data.len() as u64) as usize;
                        splice(&mut d, w.off, &w.data[..k]);
                        stat(ST_LOST, (n - keep - 1) as u64);
                    }
                }
            }
            _ => stat(ST_LOST, ino.pending.len() as u64),
        }
        img_push(p, &d);
    }
}
impl Vfs {
    pub fn put(&mut self, p: &str, d: Vec<u8>) {
        let i = match self.names.get(p) {
            Some(&i) => i,
            None => {
                self.inos.push(Ino { path: p.to_string(), linked: true, ..Default::default() });
                self.names.insert(p.to_string(), self.inos.len() - 1);
                self.add_dirs(p);
                self.inos.len() - 1
            }
        };
        self.inos[i].durable = d.clone();
        self.inos[i].data = d;
        self.inos[i].pending.clear();
    }
    fn add_dirs(&mut self, p: &str) {
        let mut q = p;
        while let Some(k) = q.rfind('/') {
            q = &q[..k];
            if q.is_empty() {
                break;
            }
            self.dirs.insert(q.to_string());
        }
    }
    pub fn cached(&self, p: &str) -> Option<Vec<u8>> {
        self.names.get(p).map(|&i| self.inos[i].data.clone())
    }
    pub fn durable(&self, p: &str) -> Option<Vec<u8>> {
        self.names.get(p).map(|&i| self.inos[i].durable.clone())
    }
    pub fn pending(&self) -> usize {
        self.inos.iter().map(|i| i.pending.len()).sum()
    }
}
enum Act {
    None,
    Err(i32),
    Short(usize),
    CrashMid(usize),
    SyncLoss,
    CrashAfter,
}
/// Latency, scheduling and fault decision of one operation.
fn enter(c: Cls, path: &str, len: usize) -> Act {
    let vf = v();
    vf.io_n += 1;
    stat(ST_VFS_BASE + c as usize, 1);
    let n = vf.io_n;
    let mut lat = 0;
    if vf.lat > 0 && c != Cls::Other {
        let h = mix(vf.seed ^ mix(n ^ ((sched::me() as u64) << 40)));
        lat = vf.lat / 4 + h % (2 * vf.lat);
        if c == Cls::Sync {
            lat *= 3;
        }
    }
    let mut act = Act::None;
    if vf.faults_on {
        for fs in vf.faults.iter_mut() {
            let f = &fs.f;
            let m = match f.k.as_str() {
                "eio_r" | "short_r" => c == Cls::Read,
                "eio_w" | "short_w" | "enospc" => c == Cls::Write,
                "eio_s" => c == Cls::Sync,
                "eintr" => c == Cls::Read || c == Cls::Write,
                "lat" => c != Cls::Other,
                "open_fail" => c == Cls::Open,
                "crash" => c == Cls::Write || c == Cls::Sync,
                _ => false,
            };
            if !m || !(f.file.is_empty() || path.ends_with(f.file.as_str())) {
                continue;
            }
            fs.seen += 1;
            if f.k == "enospc" {
                if fs.seen > f.n && (f.arg <= 0 || fs.seen <= f.n + f.arg as u64) {
                    stat(ST_ENOSPC, 1);
                    act = Act::Err(libc::ENOSPC);
                }
                continue;
            }
            // EIO faults may hit a burst of `arg` consecutive operations
            let burst = if f.k == "eio_r" || f.k == "eio_w" { f.arg.max(1) as u64 } else { 1 };
            if fs.seen <= f.n || fs.seen > f.n + burst {
                continue;
            }
            match f.k.as_str() {
                "eio_r" => {
                    stat(ST_EIO_R, 1);
                    act = Act::Err(libc::EIO)
                }
                "eio_w" => {
                    stat(ST_EIO_W, 1);
                    act = Act::Err(libc::EIO)
                }
                "eio_s" => {
                    stat(ST_EIO_S, 1);
                    act = if f.arg == 1 { Act::SyncLoss } else { Act::Err(libc::EIO) }
                }
                "short_r" if len > 1 => {
                    stat(ST_SHORT_R, 1);
                    act = Act::Short((len * (f.arg.clamp(1, 99) as usize) / 100).max(1))
                }
                "short_w" if len > 1 => {
                    stat(ST_SHORT_W, 1);
                    act = Act::Short((len * (f.arg.clamp(1, 99) as usize) / 100).max(1))
                }
                "eintr" => {
                    stat(ST_EINTR, 1);
                    act = Act::Err(libc::EINTR)
                }
                "lat" => {
                    stat(ST_LAT, 1);
                    lat += f.arg.max(0) as u64
                }
                "open_fail" => {
                    stat(ST_OPEN_FAIL, 1);
                    act = Act::Err(libc::EMFILE)
                }
                "crash" => match f.arg {
                    0 => crash_now(),
                    1 => act = Act::CrashAfter,
                    k => act = Act::CrashMid((len as i64 * (k.clamp(2, 99)) / 100) as usize),
                },
                _ => {}
            }
        }
    }
    if lat > 0 {
        sched::sleep_ns(lat);
    } else {
        sched::point(false);
    }
    act
}
fn err(e: i32) -> isize {
    unsafe { raw::set_errno(e) };
    -1
}
unsafe fn path_of(p: *const libc::c_char) -> String {
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    // normalise duplicate and trailing slashes and "."
    let mut out = String::new();
    for c in s.split('/') {
        if c.is_empty() || c == "." {
            continue;
        }
        out.push('/');
        out.push_str(c);
    }
    if s.starts_with('/') {
        out
    } else {
        format!("/sim/cwd{}", out)
    }
}
fn simfd(fd: i32) -> bool {
    fd >= FD0
}
fn open_impl(path: *const libc::c_char, flags: i32) -> i32 {
    let p = unsafe { path_of(path) };
    if !p.starts_with("/sim") {
        return err(libc::ENOENT) as i32;
    }
    if let Act::Err(e) = enter(Cls::Open, &p, 0) {
        return err(e) as i32;
    }
    let vf = v();
    if vf.dirs.contains(&p) {
        if flags & libc::O_ACCMODE != libc::O_RDONLY {
            return err(libc::EISDIR) as i32;
        }
        return err(libc::EISDIR) as i32;
    }
    let ino = match vf.names.get(&p) {
        Some(&i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST) as i32;
            }
            if flags & libc::O_TRUNC != 0 {
                let n = &mut vf.inos[i];
                n.data.clear();
                n.durable.clear();
                n.pending.clear();
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return err(libc::ENOENT) as i32;
            }
            let dir = &p[..p.rfind('/').unwrap_or(0)];
            if !vf.dirs.contains(dir) {
                return err(libc::ENOENT) as i32;
            }
            vf.inos.push(Ino { path: p.clone(), linked: true, ..Default::default() });
            vf.names.insert(p.clone(), vf.inos.len() - 1);
            vf.inos.len() - 1
        }
    };
    vf.ofs.push(Of { pos: 0, flags });
    let fd = vf.next_fd;
    vf.next_fd += 1;
    vf.fds.insert(fd, Fd { ino, of: vf.ofs.len() - 1, direct: flags & libc::O_DIRECT != 0 });
    fd
}
/// A short transfer under direct I/O ends on a sector boundary.
fn short(k: usize, len: usize, direct: bool) -> usize {
    let k = k.min(len);
    if !direct {
        return k;
    }
    match k / 512 * 512 {
        0 if len > 512 => 512,
        0 => len,
        k => k,
    }
}
fn write_at(fd: i32, buf: *const u8, len: usize, off: Option<usize>) -> isize {
    let Some(f) = v().fds.get(&fd).cloned() else { return err(libc::EBADF) };
    if v().ofs[f.of].flags & libc::O_ACCMODE == libc::O_RDONLY {
        return err(libc::EBADF);
    }
    if f.direct && (len % 512 != 0 || buf as usize % 512 != 0 || off.unwrap_or(v().ofs[f.of].pos) % 512 != 0) {
        return err(libc::EINVAL);
    }
    let path = v().inos[f.ino].path.clone();
    let act = enter(Cls::Write, &path, len);
    let mut n = len;
    match act {
        Act::Err(e) => return err(e),
        Act::Short(k) => n = short(k, len, f.direct),
        Act::CrashMid(k) => n = k.min(len),
        _ => {}
    }
    let vf = v();
    let of = &mut vf.ofs[f.of];
    let ino = &mut vf.inos[f.ino];
    let o = match off {
        Some(o) => o,
        None => {
            if of.flags & libc::O_APPEND != 0 {
                of.pos = ino.data.len();
            }
            of.pos
        }
    };
    let d = unsafe { core::slice::from_raw_parts(buf, n) }.to_vec();
    sched::trace_mix(hash(&d) ^ o as u64);
    splice(&mut ino.data, o, &d);
    if n > 0 {
        ino.pending.push(PW { off: o, data: d });
    }
    if off.is_none() {
        of.pos = o + n;
    }
    if matches!(act, Act::CrashMid(_) | Act::CrashAfter) {
        crash_now();
    }
    n as isize
}
fn hash(d: &[u8]) -> u64 {
    let mut h = d.len() as u64;
    for c in d.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
    }
    h
}
fn read_at(fd: i32, buf: *mut u8, len: usize, off: Option<usize>) -> isize {
    let Some(f) = v().fds.get(&fd).cloned() else { return err(libc::EBADF) };
    if f.direct && (len % 512 != 0 || buf as usize % 512 != 0 || off.unwrap_or(v().ofs[f.of].pos) % 512 != 0) {
        return err(libc::EINVAL);
    }
    let path = v().inos[f.ino].path.clone();
    let mut n = len;
    match enter(Cls::Read, &path, len) {
        Act::Err(e) => return err(e),
        Act::Short(k) => n = short(k, len, f.direct),
        _ => {}
    }
    let vf = v();
    let of = &mut vf.ofs[f.of];
    let ino = &vf.inos[f.ino];
    let o = off.unwrap_or(of.pos);
    let n = n.min(ino.data.len().saturating_sub(o));
    if n > 0 {
        unsafe { core::ptr::copy_nonoverlapping(ino.data.as_ptr().add(o), buf, n) };
    }
    if off.is_none() {
        of.pos = o + n;
    }
    n as isize
}
fn sync_fd(fd: i32) -> i32 {
    let Some(f) = v().fds.get(&fd).cloned() else { return err(libc::EBADF) as i32 };
    let path = v().inos[f.ino].path.clone();
    let before = v().inos[f.ino].pending.len();
    let act = enter(Cls::Sync, &path, 0);
    let ino = &mut v().inos[f.ino];
    match act {
        Act::Err(e) => return err(e) as i32,
        Act::SyncLoss => {
            // the kernel reports the error once and forgets that the pages were dirty
            ino.pending.clear();
            return err(libc::EIO) as i32;
        }
        Act::CrashMid(_) => {
            let k = before.min(ino.pending.len()) / 2;
            for w in ino.pending.drain(..k) {
                splice(&mut ino.durable, w.off, &w.data);
            }
            crash_now();
        }
        _ => {}
    }
    // writes issued before the call are durable now; later ones may be (here: are not) covered
    let k = before.min(ino.pending.len());
    for w in ino.pending.drain(..k) {
        splice(&mut ino.durable, w.off, &w.data);
    }
    if matches!(act, Act::CrashAfter) {
        crash_now();
    }
    0
}
unsafe fn fill_stat(st: *mut libc::stat64, len: usize, dir: bool, ino: usize) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<libc::stat64>());
    (*st).st_size = len as i64;
    (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_ino = ino as u64 + 2;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = len.div_ceil(512) as i64;
    (*st).st_mtime = 1_700_000_000;
}
fn stat_path(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    let p = unsafe { path_of(p) };
    enter(Cls::Other, &p, 0);
    let vf = v();
    unsafe {
        if let Some(&i) = vf.names.get(&p) {
            fill_stat(st, vf.inos[i].data.len(), false, i);
            0
        } else if vf.dirs.contains(&p) {
            fill_stat(st, 4096, true, 100_000);
            0
        } else {
            err(libc::ENOENT) as i32
        }
    }
}
macro_rules! pass {
    ($n:expr $(, $a:expr)*) => {{
        let a = [$($a as usize),*, 0, 0, 0, 0, 0, 0];
        raw::ret_errno(raw::sc6($n, a[0], a[1], a[2], a[3], a[4], a[5]))
    }};
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if !sim() {
        return pass!(libc::SYS_open, p, flags, mode) as i32;
    }
    open_impl(p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim() && simfd(fd) {
        enter(Cls::Other, "", 0);
        return if v().fds.remove(&fd).is_some() { 0 } else { err(libc::EBADF) as i32 };
    }
    pass!(libc::SYS_close, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if sim() && simfd(fd) {
        return read_at(fd, b, n, None);
    }
    pass!(libc::SYS_read, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if sim() {
        if simfd(fd) {
            return write_at(fd, b, n, None);
        }
        return n as isize; // stdout and stderr of the simulated process are swallowed
    }
    pass!(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim() {
        let mut t = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if simfd(fd) {
                let r = write_at(fd, v.iov_base as *const u8, v.iov_len, None);
                if r < 0 {
                    return if t > 0 { t } else { r };
                }
                t += r;
                if (r as usize) < v.iov_len {
                    break;
                }
            } else {
                t += v.iov_len as isize;
            }
        }
        return t;
    }
    pass!(libc::SYS_writev, fd, iov, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim() && simfd(fd) {
        let mut t = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            let r = read_at(fd, v.iov_base as *mut u8, v.iov_len, None);
            if r < 0 {
                return if t > 0 { t } else { r };
            }
            t += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return t;
    }
    pass!(libc::SYS_readv, fd, iov, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    if sim() && simfd(fd) {
        return read_at(fd, b, n, Some(o as usize));
    }
    pass!(libc::SYS_pread64, fd, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    pread64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
    if sim() && simfd(fd) {
        return write_at(fd, b, n, Some(o as usize));
    }
    pass!(libc::SYS_pwrite64, fd, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
    pwrite64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, wh: i32) -> i64 {
    if sim() && simfd(fd) {
        let vf = v();
        let Some(f) = vf.fds.get(&fd).cloned() else { return err(libc::EBADF) as i64 };
        let len = vf.inos[f.ino].data.len() as i64;
        let of = &mut vf.ofs[f.of];
        let b = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => of.pos as i64,
            _ => len,
        };
        if b + o < 0 {
            return err(libc::EINVAL) as i64;
        }
        of.pos = (b + o) as usize;
        let r = of.pos as i64;
        sched::point(false);
        return r;
    }
    pass!(libc::SYS_lseek, fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, wh: i32) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if sim() && simfd(fd) {
        return sync_fd(fd);
    }
    pass!(libc::SYS_fsync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if sim() && simfd(fd) {
        return sync_fd(fd);
    }
    pass!(libc::SYS_fdatasync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if sim() && simfd(fd) {
        enter(Cls::Other, "", 0);
        let vf = v();
        let Some(f) = vf.fds.get(&fd).cloned() else { return err(libc::EBADF) as i32 };
        let ino = &mut vf.inos[f.ino];
        let n = n as usize;
        ino.data.resize(n, 0);
        // metadata operations are taken to be durable at once, and ordered before later writes
        ino.durable.resize(n, 0);
        for w in ino.pending.iter_mut() {
            let keep = n.saturating_sub(w.off).min(w.data.len());
            w.data.truncate(keep);
        }
        return 0;
    }
    pass!(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: i32, mode: i32, o: i64, n: i64) -> i32 {
    if sim() && simfd(fd) {
        return err(libc::EOPNOTSUPP) as i32;
    }
    pass!(libc::SYS_fallocate, fd, mode, o, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut libc::stat64) -> i32 {
    if sim() && simfd(fd) {
        enter(Cls::Other, "", 0);
        let vf = v();
        let Some(f) = vf.fds.get(&fd).cloned() else { return err(libc::EBADF) as i32 };
        fill_stat(st, vf.inos[f.ino].data.len(), false, f.ino);
        return 0;
    }
    pass!(libc::SYS_fstat, fd, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    if sim() {
        return stat_path(p, st);
    }
    pass!(libc::SYS_stat, p, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    if sim() {
        return stat_path(p, st);
    }
    pass!(libc::SYS_lstat, p, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const libc::c_char, flags: i32, mask: u32, b: *mut libc::c_void) -> i32 {
    if sim() {
        if p.is_null() || b.is_null() {
            return err(libc::EFAULT) as i32; // the standard library probes for the call this way
        }
        let mut st: libc::stat64 = core::mem::zeroed();
        let r = if *p == 0 && flags & libc::AT_EMPTY_PATH != 0 { fstat64(d, &mut st) } else { stat_path(p, &mut st) };
        if r != 0 {
            return r;
        }
        let x = b as *mut libc::statx;
        core::ptr::write_bytes(x as *mut u8, 0, core::mem::size_of::<libc::statx>());
        (*x).stx_mask = libc::STATX_BASIC_STATS;
        (*x).stx_blksize = st.st_blksize as u32;
        (*x).stx_nlink = st.st_nlink as u32;
        (*x).stx_mode = st.st_mode as u16;
        (*x).stx_ino = st.st_ino;
        (*x).stx_size = st.st_size as u64;
        (*x).stx_blocks = st.st_blocks as u64;
        (*x).stx_mtime.tv_sec = st.st_mtime;
        return 0;
    }
    pass!(libc::SYS_statx, d, p, flags, mask, b) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const libc::c_char, m: i32) -> i32 {
    if sim() {
        let mut st: libc::stat64 = core::mem::zeroed();
        return stat_path(p, &mut st);
    }
    pass!(libc::SYS_access, p, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    if sim() {
        let p = path_of(p);
        enter(Cls::Other, &p, 0);
        return match v().names.remove(&p) {
            Some(i) => {
                v().inos[i].linked = false;
                0
            }
            None => err(libc::ENOENT) as i32,
        };
    }
    pass!(libc::SYS_unlink, p) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    if sim() {
        let (a, b) = (path_of(a), path_of(b));
        enter(Cls::Other, &a, 0);
        return match v().names.remove(&a) {
            Some(i) => {
                v().inos[i].path = b.clone();
                v().names.insert(b, i);
                0
            }
            None => err(libc::ENOENT) as i32,
        };
    }
    pass!(libc::SYS_rename, a, b) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, m: u32) -> i32 {
    if sim() {
        let p = path_of(p);
        enter(Cls::Other, &p, 0);
        if !p.starts_with("/sim") {
            return err(libc::EACCES) as i32;
        }
        if v().dirs.contains(&p) || v().names.contains_key(&p) {
            return err(libc::EEXIST) as i32;
        }
        let dir = &p[..p.rfind('/').unwrap_or(0)];
        if !v().dirs.contains(dir) {
            return err(libc::ENOENT) as i32;
        }
        v().dirs.insert(p);
        return 0;
    }
    pass!(libc::SYS_mkdir, p, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const libc::c_char) -> i32 {
    if sim() {
        let p = path_of(p);
        return if v().dirs.remove(&p) { 0 } else { err(libc::ENOENT) as i32 };
    }
    pass!(libc::SYS_rmdir, p) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    if sim() && simfd(fd) {
        let vf = v();
        let Some(f) = vf.fds.get(&fd).cloned() else { return err(libc::EBADF) as i32 };
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let n = vf.next_fd;
                vf.next_fd += 1;
                vf.fds.insert(n, f);
                n
            }
            libc::F_GETFL => vf.ofs[f.of].flags,
            _ => 0,
        };
    }
    pass!(libc::SYS_fcntl, fd, cmd, arg) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl64(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if sim() && simfd(fd) {
        return 0;
    }
    pass!(libc::SYS_flock, fd, op) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: i32, _o: i64, _n: i64, _a: i32) -> i32 {
    if sim() && simfd(fd) {
        return 0;
    }
    0
}
impl Vfs {
    #[allow(dead_code)]
    fn unused(&mut self) {
        self.dirstreams.clear();
        let _ = self.inos.iter().filter(|i| i.linked).count();
    }
}
