//! libc seam: the simulator's own definitions of the C functions through which
//! std, getrandom and rpassword reach the kernel. While a simulated task
//! executes library code (ACTIVE) they are answered by the simulated world;
//! otherwise they are passed to the kernel unchanged.
#![allow(clippy::missing_safety_doc)]
use crate::cov::ACTIVE;
use crate::sched;
use crate::tape::{draw, pick};
use crate::world::{w, F};
use libc::*;
use std::ffi::CStr;

pub const FD0: c_int = 1000;
/// A spin in which the library keeps calling the environment without bound.
pub static mut SEAM_LIMIT: u64 = 400_000;
pub static mut SEAM_CALLS: u64 = 0;

#[derive(Clone, Debug)]
pub enum Kind {
    File { name: String, pos: usize, append: bool, readable: bool, writable: bool },
    TtyIn,
    Urandom,
    Random,
    /// another descriptor of a standard stream
    Std(c_int),
}
static mut FDS: Vec<Option<Kind>> = Vec::new();

#[allow(static_mut_refs)]
fn fds() -> &'static mut Vec<Option<Kind>> {
    unsafe { &mut FDS }
}

/// Leaves "library code" mode while simulator code runs on the same thread.
pub struct Off(bool);
impl Off {
    pub fn new() -> Off {
        let o = ACTIVE.get();
        ACTIVE.set(false);
        Off(o)
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        ACTIVE.set(self.0);
    }
}

/// Entry of every seam: counts, detects spinning, offers a preemption point.
pub fn seam() {
    unsafe {
        SEAM_CALLS += 1;
        if SEAM_CALLS > SEAM_LIMIT {
            crate::node::die("unbounded work: endless calls into the environment");
        }
    }
    w().tick(100);
    crate::node::crash_point();
    sched::seam_point();
}

macro_rules! sim {
    ($cond:expr, $body:expr) => {
        if $cond {
            let off = Off::new();
            seam();
            #[allow(clippy::redundant_closure_call)]
            let r: Result<i64, c_int> = (|| $body)();
            drop(off);
            match r {
                Ok(v) => return v as _,
                Err(e) => {
                    *__errno_location() = e;
                    return -1;
                }
            }
        }
    };
}

pub unsafe fn raw(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
fn active() -> bool {
    ACTIVE.get()
}
fn ours(fd: c_int) -> bool {
    fd >= FD0 || ((0..=2).contains(&fd) && active())
}

// ---------------------------------------------------------------- descriptors

fn alloc_fd(k: Kind) -> i64 {
    let t = fds();
    for (i, s) in t.iter_mut().enumerate() {
        if s.is_none() {
            *s = Some(k);
            return FD0 as i64 + i as i64;
        }
    }
    t.push(Some(k));
    FD0 as i64 + t.len() as i64 - 1
}
pub fn open_fds() -> usize {
    fds().iter().filter(|x| x.is_some()).count()
}
fn kind(fd: c_int) -> Result<&'static mut Kind, c_int> {
    fds().get_mut((fd - FD0) as usize).and_then(|x| x.as_mut()).ok_or(EBADF)
}

/// What a path is called in the simulated file system. Names that are not text stay distinct from
/// each other and from every name that is.
pub fn path_name(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.into(),
        Err(_) => format!("\0raw:{}", b.escape_ascii()),
    }
}
fn do_open(path: &str, flags: c_int) -> Result<i64, c_int> {
    let w = w();
    let r = do_open_(path, flags);
    w.ev(|| format!("open({path:?}, {flags:#x}) = {r:?}"), 0x10 ^ r.unwrap_or(-1) as u64);
    w.effect(|| format!("open {path}{}", if flags & (O_ACCMODE | O_CREAT | O_TRUNC) != 0 && path != "/dev/tty" { " for writing" } else { "" }));
    r
}
fn do_open_(path: &str, flags: c_int) -> Result<i64, c_int> {
    let w = w();
    match path {
        "/dev/tty" => {
            if !w.tty_present {
                w.tty_faults += 1;
                return Err(ENXIO);
            }
            if w.fault(F::TtyOpenError) {
                w.tty_faults += 1;
                return Err(pick(&[ENXIO, EIO, ENOENT, EACCES, EMFILE]));
            }
            return Ok(alloc_fd(Kind::TtyIn));
        }
        "/dev/urandom" | "/dev/random" => {
            if w.ent_down || w.ent_calls >= w.ent_fail_at {
                w.ent_failed += 1;
                return Err(ENOENT);
            }
            if w.fault(F::RngError) {
                w.ent_failed += 1;
                return Err(pick(&[ENOENT, EMFILE, EACCES]));
            }
            if w.fault(F::RngInterrupted) {
                return Err(EINTR);
            }
            return Ok(alloc_fd(if path == "/dev/random" { Kind::Random } else { Kind::Urandom }));
        }
        _ => {}
    }
    let acc = flags & O_ACCMODE;
    let exists = w.files.contains_key(path);
    if !exists && flags & O_CREAT == 0 {
        return Err(ENOENT);
    }
    if exists && flags & O_EXCL != 0 && flags & O_CREAT != 0 {
        return Err(EEXIST);
    }
    if w.fault(F::FsOpenError) {
        w.fs_hard += 1;
        return Err(pick(&[EACCES, EIO, EMFILE, ENFILE, ELOOP, ENOMEM]));
    }
    if !exists {
        w.files.insert(path.into(), Default::default());
    } else if flags & O_TRUNC != 0 && acc != O_RDONLY {
        w.files.get_mut(path).unwrap().data.clear();
    }
    Ok(alloc_fd(Kind::File {
        name: path.into(),
        pos: 0,
        append: flags & O_APPEND != 0,
        readable: acc != O_WRONLY,
        writable: acc != O_RDONLY,
    }))
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<i64, c_int> {
    let w = w();
    if fd == 0 {
        return Ok(0);
    }
    let r = match kind(fd)? {
        Kind::File { name, pos, readable, .. } => {
            if !*readable {
                return Err(EBADF);
            }
            let name = name.clone();
            let p = at.unwrap_or(*pos);
            if w.fault(F::FsReadInterrupted) {
                return Err(EINTR);
            }
            if w.fault(F::FsReadError) {
                w.fs_hard += 1;
                return Err(pick(&[EIO, ENOMEM, EISDIR, EAGAIN, ESTALE, EOVERFLOW]));
            }
            let data = &w.files.get(&name).ok_or(EIO)?.data;
            let avail = data.len().saturating_sub(p);
            let mut n = avail.min(buf.len());
            if n > 1 && w.fault(F::FsShortRead) {
                n = 1 + draw(n as u64 - 1) as usize;
            }
            let data = &w.files.get(&name).unwrap().data;
            if n > 0 {
                buf[..n].copy_from_slice(&data[p..p + n]);
            }
            if at.is_none() {
                *pos += n;
            }
            Ok(n as i64)
        }
        Kind::TtyIn => {
            if w.fault(F::TtyInterrupted) {
                w.tty_faults += 1;
                return Err(EINTR);
            }
            if w.fault(F::TtyReadError) {
                w.tty_faults += 1;
                return Err(pick(&[EIO, EAGAIN, ENXIO]));
            }
            // a terminal does not end inside a character
            let inside = w.tty_in.get(w.tty_pos).is_some_and(|b| b & 0xc0 == 0x80);
            if !inside && w.fault(F::TtyEof) {
                w.tty_eof_seen += 1;
                return Ok(0);
            }
            if w.tty_pos >= w.tty_in.len() || buf.is_empty() {
                w.tty_eof_seen += 1;
                return Ok(0);
            }
            let avail = w.tty_in.len() - w.tty_pos;
            let n = avail.min(buf.len());
            // canonical mode hands out at most one line
            let n = w.tty_in[w.tty_pos..w.tty_pos + n].iter().position(|c| *c == b'\n').map(|x| x + 1).unwrap_or(n);
            let bytes = w.tty_in[w.tty_pos..w.tty_pos + n].to_vec();
            buf[..n].copy_from_slice(&bytes);
            if w.tty_echo {
                w.tty_echoed += n as u64;
                w.out[3].extend_from_slice(&bytes);
            }
            w.tty_pos += n;
            Ok(n as i64)
        }
        Kind::Std(_) => Ok(0),
        Kind::Urandom | Kind::Random => {
            let r = w.entropy(buf);
            if r < 0 {
                Err(-r as c_int)
            } else {
                Ok(r)
            }
        }
    };
    w.ev(|| format!("read(fd {fd}, {}) = {r:?}", buf.len()), 0x20 ^ r.unwrap_or(-1) as u64);
    r
}

const HARD: [c_int; 6] = [EIO, ENOSPC, EPIPE, EAGAIN, EFBIG, ENXIO];

fn stream_write(i: usize, data: &[u8]) -> Result<usize, c_int> {
    let w = w();
    let (intr, short, err, zero) = match i {
        1 => (Some(F::OutInterrupted), Some(F::OutShortWrite), F::OutError, Some(F::OutZero)),
        2 => (None, Some(F::ErrShortWrite), F::ErrError, None),
        _ => (None, None, F::TtyWriteError, None),
    };
    if w.out_broken[i] != 0 {
        w.out_err_seen[i] += 1;
        return Err(w.out_broken[i]);
    }
    if data.is_empty() {
        return Ok(0);
    }
    if let Some(f) = intr {
        if w.fault(f) {
            return Err(EINTR);
        }
    }
    if w.fault(err) {
        let e = pick(&HARD);
        // broken for good, or a single failure
        if draw(2) == 0 {
            w.out_broken[i] = e;
        }
        w.out_err_seen[i] += 1;
        if i == 3 {
            w.tty_faults += 1;
        }
        return Err(e);
    }
    if let Some(f) = zero {
        if w.fault(f) {
            w.out_err_seen[i] += 1;
            return Ok(0);
        }
    }
    let mut n = data.len();
    if let Some(f) = short {
        if n > 1 && w.fault(f) {
            n = 1 + draw(n as u64 - 1) as usize;
        }
    }
    w.out[i].extend_from_slice(&data[..n]);
    Ok(n)
}

fn do_write(fd: c_int, data: &[u8], at: Option<usize>) -> Result<i64, c_int> {
    let w = w();
    let r: Result<i64, c_int> = if fd == 1 || fd == 2 {
        stream_write(fd as usize, data).map(|n| n as i64)
    } else if fd == 0 {
        Err(EBADF)
    } else {
        match kind(fd)? {
            Kind::TtyIn => stream_write(3, data).map(|n| n as i64),
            Kind::Std(0) => Err(EBADF),
            Kind::Std(k) => stream_write(*k as usize, data).map(|n| n as i64),
            Kind::Urandom | Kind::Random => Ok(data.len() as i64),
            Kind::File { name, pos, append, writable, .. } => {
                if !*writable {
                    return Err(EBADF);
                }
                if w.fault(F::FsWriteInterrupted) {
                    return Err(EINTR);
                }
                if w.fault(F::FsWriteError) {
                    w.fs_hard += 1;
                    return Err(pick(&[ENOSPC, EIO, EFBIG, EDQUOT, EROFS]));
                }
                let mut n = data.len();
                if n > 1 && w.fault(F::FsShortWrite) {
                    n = 1 + draw(n as u64 - 1) as usize;
                }
                w.out[0].extend_from_slice(data);
                let f = w.files.entry(name.clone()).or_default();
                let p = at.unwrap_or(if *append { f.data.len() } else { *pos });
                if f.data.len() < p + n {
                    f.data.resize(p + n, 0);
                }
                f.data[p..p + n].copy_from_slice(&data[..n]);
                if at.is_none() {
                    *pos = p + n;
                }
                Ok(n as i64)
            }
        }
    };
    if w.trace_on {
        w.ev(|| format!("write(fd {fd}, {} bytes {:?}) = {r:?}", data.len(), crate::world::preview(data)), 0);
    } else {
        w.ev(String::new, 0);
    }
    w.log_hash ^= (data.len() as u64) << 20 ^ r.unwrap_or(-1) as u64;
    r
}

unsafe fn sl<'a>(p: *const c_void, n: size_t) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
unsafe fn slm<'a>(p: *mut c_void, n: size_t) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(p as *mut u8, n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    sim!(ours(fd), do_read(fd, slm(buf, n), None));
    ret(raw(SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    sim!(ours(fd), do_read(fd, slm(buf, n), Some(off as usize)));
    ret(raw(SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    sim!(ours(fd), {
        let mut r = Ok(0);
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                r = do_read(fd, slm(v.iov_base, v.iov_len), None);
                break;
            }
        }
        r
    });
    ret(raw(SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    sim!(ours(fd), do_write(fd, sl(buf, n), None));
    ret(raw(SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    sim!(ours(fd), do_write(fd, sl(buf, n), Some(off as usize)));
    ret(raw(SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    sim!(ours(fd), {
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(sl(v.iov_base, v.iov_len));
        }
        do_write(fd, &all, None)
    });
    ret(raw(SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    sim!(active(), {
        let p = path_name(CStr::from_ptr(path).to_bytes());
        do_open(&p, flags)
    });
    ret(raw(SYS_openat, AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    sim!(active(), {
        let p = path_name(CStr::from_ptr(path).to_bytes());
        do_open(&p, flags)
    });
    ret(raw(SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        let off = Off::new();
        if let Some(s) = fds().get_mut((fd - FD0) as usize) {
            *s = None;
        }
        w().ev(|| format!("close(fd {fd})"), 0x33);
        drop(off);
        return 0;
    }
    ret(raw(SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, wh: c_int) -> off64_t {
    sim!(ours(fd), {
        let w = w();
        let r = match fd {
            0..=2 => Err(ESPIPE),
            _ => match kind(fd)? {
                Kind::File { name, pos, .. } => {
                    if w.fault(F::FsSeekError) {
                        w.fs_soft += 1;
                        Err(pick(&[EIO, ESPIPE, EOVERFLOW]))
                    } else {
                        let len = w.files.get(name).map(|f| f.data.len()).unwrap_or(0) as i64;
                        let base = match wh {
                            SEEK_SET => 0,
                            SEEK_CUR => *pos as i64,
                            SEEK_END => len,
                            _ => return_einval(),
                        };
                        if base < 0 || base + o < 0 {
                            Err(EINVAL)
                        } else {
                            *pos = (base + o) as usize;
                            Ok(*pos as i64)
                        }
                    }
                }
                _ => Err(ESPIPE),
            },
        };
        w.ev(|| format!("lseek(fd {fd}, {o}, {wh}) = {r:?}"), 0x44 ^ r.unwrap_or(-1) as u64);
        r
    });
    ret(raw(SYS_lseek, fd as usize, o as usize, wh as usize, 0, 0, 0)) as off64_t
}
fn return_einval() -> i64 {
    -1
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, wh: c_int) -> off_t {
    lseek64(fd, o, wh)
}

fn stat_of(fd: c_int, path: Option<String>) -> Result<(u32, i64), c_int> {
    let w = w();
    let name = match path {
        Some(p) => p,
        None => match fd {
            0..=2 => return Ok((S_IFIFO | 0o600, 0)),
            _ => match kind(fd)? {
                Kind::File { name, .. } => name.clone(),
                _ => return Ok((S_IFCHR | 0o600, 0)),
            },
        },
    };
    let len = w.files.get(&name).ok_or(ENOENT)?.data.len() as i64;
    // special files report sizes that have nothing to do with their content
    let len = if w.fault(F::FsStatLies) { pick(&[0, 1, 4096, 3]) } else { len };
    Ok((S_IFREG | 0o600, len))
}
unsafe fn fill_stat(b: *mut stat64, v: (u32, i64)) -> Result<i64, c_int> {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<stat64>());
    (*b).st_mode = v.0;
    (*b).st_size = v.1;
    (*b).st_blksize = 4096;
    (*b).st_nlink = 1;
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat64) -> c_int {
    sim!(ours(fd), stat_of(fd, None).and_then(|v| fill_stat(b, v)));
    ret(raw(SYS_fstat, fd as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat64) -> c_int {
    sim!(active(), {
        let n = path_name(CStr::from_ptr(p).to_bytes());
        stat_of(-1, Some(n)).and_then(|v| fill_stat(b, v))
    });
    ret(raw(SYS_stat, p as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat64) -> c_int {
    sim!(active(), {
        let n = path_name(CStr::from_ptr(p).to_bytes());
        stat_of(-1, Some(n)).and_then(|v| fill_stat(b, v))
    });
    ret(raw(SYS_lstat, p as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    sim!(active() || dir >= FD0, {
        let n = if p.is_null() { String::new() } else { path_name(CStr::from_ptr(p).to_bytes()) };
        let v = if n.is_empty() { stat_of(dir, None) } else { stat_of(-1, Some(n)) };
        v.map(|(mode, len)| {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*b).stx_mask = STATX_BASIC_STATS;
            (*b).stx_mode = mode as u16;
            (*b).stx_size = len as u64;
            (*b).stx_blksize = 4096;
            (*b).stx_nlink = 1;
            0
        })
    });
    ret(raw(SYS_statx, dir as usize, p as usize, fl as usize, mask as usize, b as usize, 0)) as c_int
}
fn sync_fd(fd: c_int) -> Result<i64, c_int> {
    let w = w();
    if let Kind::File { name, .. } = kind(fd)? {
        if w.fault(F::FsWriteError) {
            w.fs_hard += 1;
            return Err(EIO);
        }
        if let Some(f) = w.files.get_mut(name) {
            f.durable = Some(f.data.clone());
        }
    }
    w.ev(|| format!("fsync(fd {fd})"), 0x55);
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sim!(fd >= FD0, sync_fd(fd));
    ret(raw(SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sim!(fd >= FD0, sync_fd(fd));
    ret(raw(SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    sim!(fd >= FD0, {
        if let Kind::File { name, .. } = kind(fd)? {
            if let Some(f) = w().files.get_mut(name) {
                f.data.resize(n as usize, 0);
            }
        }
        Ok(0)
    });
    ret(raw(SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as c_int
}
// in-kernel copies are refused, so that std falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    sim!(active(), Err(EINVAL));
    ret(raw(SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, f as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sim!(active(), Err(EINVAL));
    ret(raw(SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    sim!(active(), Err(EINVAL));
    ret(raw(SYS_splice, a as usize, b as usize, c as usize, d as usize, n, f as usize))
}
fn do_dup(fd: c_int) -> Result<i64, c_int> {
    let k = if fd <= 2 { Kind::Std(fd) } else { kind(fd)?.clone() };
    let n = alloc_fd(k);
    w().ev(|| format!("dup({fd}) = {n}"), 0x34);
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    sim!(ours(fd), do_dup(fd));
    ret(raw(SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    sim!(ours(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC), do_dup(fd));
    if fd >= FD0 {
        return 0;
    }
    ret(raw(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if ours(fd) {
        *__errno_location() = ENOTTY;
        return -1;
    }
    ret(raw(SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, to: c_int) -> c_int {
    sim!(active(), {
        if w().fault(F::RngInterrupted) {
            Err(EINTR)
        } else {
            let mut k = 0;
            for i in 0..n as usize {
                let q = &mut *p.add(i);
                q.revents = q.events;
                k += 1;
            }
            Ok(k)
        }
    });
    ret(raw(SYS_poll, p as usize, n as usize, to as usize, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- terminal

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if ours(fd) {
        let off = Off::new();
        let r = matches!(kind(fd), Ok(Kind::TtyIn)) && fd >= FD0 && !w().fault(F::TtyNotATty);
        drop(off);
        if !r {
            *__errno_location() = ENOTTY;
        }
        return r as c_int;
    }
    let mut t = [0u8; 64];
    (raw(SYS_ioctl, fd as usize, TCGETS as usize, t.as_mut_ptr() as usize, 0, 0, 0) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut termios) -> c_int {
    sim!(ours(fd), {
        if w().fault(F::TtyAttrError) {
            w().tty_faults += 1;
            Err(pick(&[EIO, ENOTTY, EINTR]))
        } else {
            std::ptr::write_bytes(t as *mut u8, 0, std::mem::size_of::<termios>());
            (*t).c_lflag = ICANON | ISIG | if w().tty_echo { ECHO } else { 0 };
            w().ev(|| "tcgetattr".into(), 0x61);
            Ok(0)
        }
    });
    *__errno_location() = ENOTTY;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _act: c_int, t: *const termios) -> c_int {
    sim!(ours(fd), {
        if w().fault(F::TtyAttrError) {
            w().tty_faults += 1;
            Err(pick(&[EIO, ENOTTY, EINTR]))
        } else {
            w().tty_echo = (*t).c_lflag & ECHO != 0;
            let e = w().tty_echo;
            w().ev(|| format!("tcsetattr echo={e}"), 0x62 ^ e as u64);
            Ok(0)
        }
    });
    *__errno_location() = ENOTTY;
    -1
}

// ---------------------------------------------------------------- clock

unsafe fn do_clock(id: clockid_t, t: *mut timespec) {
    let off = Off::new();
    seam();
    match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE | CLOCK_TAI => {
            let (s, n) = w().clock_real();
            (*t).tv_sec = s;
            (*t).tv_nsec = n;
        }
        _ => {
            w().tick(50);
            (*t).tv_sec = (w().mono / 1_000_000_000) as i64;
            (*t).tv_nsec = (w().mono % 1_000_000_000) as i64;
        }
    }
    drop(off);
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, t: *mut timespec) -> c_int {
    if active() {
        do_clock(id, t);
        return 0;
    }
    ret(raw(SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, z: *mut c_void) -> c_int {
    if active() {
        let mut ts: timespec = std::mem::zeroed();
        do_clock(CLOCK_REALTIME, &mut ts);
        (*t).tv_sec = ts.tv_sec;
        (*t).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    ret(raw(SYS_gettimeofday, t as usize, z as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn do_sleep(t: *const timespec) {
    let off = Off::new();
    seam();
    let ns = ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64);
    w().tick(ns.min(1 << 60));
    w().ev(|| format!("sleep {ns}ns"), ns);
    sched::yield_now();
    drop(off);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int {
    if active() {
        do_sleep(t);
        return 0;
    }
    ret(raw(SYS_nanosleep, t as usize, r as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, t: *const timespec, r: *mut timespec) -> c_int {
    if active() {
        do_sleep(t);
        return 0;
    }
    -raw(SYS_clock_nanosleep, c as usize, fl as usize, t as usize, r as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let off = Off::new();
        seam();
        sched::yield_now();
        drop(off);
        return 0;
    }
    raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- entropy, futex

unsafe fn do_getrandom(buf: *mut c_void, n: usize) -> Result<i64, c_int> {
    let w = w();
    if w.ent_nosys != 0 {
        w.ev(|| "getrandom: not available".into(), 0x78);
        return Err(w.ent_nosys);
    }
    if n == 0 {
        // availability probe
        return Ok(0);
    }
    let r = w.entropy(slm(buf, n));
    if r < 0 {
        Err(-r as c_int)
    } else {
        Ok(r)
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    sim!(active(), do_getrandom(buf, n));
    ret(raw(SYS_getrandom, buf as usize, n, fl as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    sim!(active(), {
        let mut done = 0;
        loop {
            match do_getrandom((buf as *mut u8).add(done) as *mut c_void, n - done) {
                Ok(k) => done += k as usize,
                Err(EINTR) => {}
                Err(e) => break Err(e),
            }
            if done >= n {
                break Ok(0);
            }
        }
    });
    let r = ret(raw(SYS_getrandom, buf as usize, n, 0, 0, 0, 0));
    if r == n as isize {
        0
    } else {
        -1
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        match nr {
            SYS_getrandom => sim!(true, do_getrandom(a as *mut c_void, b)),
            SYS_futex => {
                let off = Off::new();
                seam();
                let r = sched::futex(a as *const u32, b as c_int, c as u32, d as *const timespec);
                drop(off);
                return match r {
                    Ok(v) => v,
                    Err(e) => {
                        *__errno_location() = e;
                        -1
                    }
                };
            }
            _ => {}
        }
    }
    ret(raw(nr, a, b, c, d, e, f)) as c_long
}

unsafe fn next_sym(name: &CStr) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut pthread_mutex_t) -> c_int {
    if active() {
        let off = Off::new();
        seam();
        loop {
            let r = pthread_mutex_trylock(m);
            if r != EBUSY {
                drop(off);
                return r;
            }
            sched::block_on(m as usize, None);
        }
    }
    static mut P: *mut c_void = std::ptr::null_mut();
    if P.is_null() {
        P = next_sym(c"pthread_mutex_lock");
    }
    let f: extern "C" fn(*mut pthread_mutex_t) -> c_int = std::mem::transmute(P);
    f(m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut pthread_mutex_t) -> c_int {
    static mut P: *mut c_void = std::ptr::null_mut();
    if P.is_null() {
        P = next_sym(c"pthread_mutex_unlock");
    }
    let f: extern "C" fn(*mut pthread_mutex_t) -> c_int = std::mem::transmute(P);
    let r = f(m);
    if active() {
        let off = Off::new();
        sched::wake(m as usize, usize::MAX);
        drop(off);
    }
    r
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Spawn {
    f: Start,
    arg: *mut c_void,
    id: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Spawn) };
    sched::task_begin(s.id);
    ACTIVE.set(true);
    let r = (s.f)(s.arg);
    ACTIVE.set(false);
    sched::task_end();
    r
}
/// Threads the library itself starts become simulated tasks.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    at: *const pthread_attr_t,
    f: Start,
    arg: *mut c_void,
) -> c_int {
    static mut P: *mut c_void = std::ptr::null_mut();
    if P.is_null() {
        P = next_sym(c"pthread_create");
    }
    let real: extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(P);
    if active() {
        let off = Off::new();
        let id = sched::new_task();
        let r = real(t, at, trampoline, Box::into_raw(Box::new(Spawn { f, arg, id })) as *mut c_void);
        if r == 0 {
            sched::set_thread(id, *t);
        }
        drop(off);
        return r;
    }
    real(t, at, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if active() {
        let off = Off::new();
        sched::join_thread(t);
        drop(off);
    }
    static mut P: *mut c_void = std::ptr::null_mut();
    if P.is_null() {
        P = next_sym(c"pthread_join");
    }
    let f: extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(P);
    f(t, r)
}

// ---------------------------------------------------------------- process

/// Environment variables: unset, or whatever an attacker or a careless
/// deployment has put there.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if active() {
        let off = Off::new();
        let n = CStr::from_ptr(name).to_string_lossy().into_owned();
        let w = w();
        w.ev(|| format!("getenv({n})"), 0x91 ^ w.env_mode);
        let v: Option<&CStr> = match w.env_mode {
            _ if n.starts_with("RUST_") => None,
            0 => None,
            1 => Some(c"1"),
            2 => Some(c""),
            3 => Some(c"true"),
            4 => Some(c"0"),
            5 => Some(c"yes"),
            _ => Some(c"/tmp/x"),
        };
        if v.is_some() {
            w.note(F::EnvVariable);
        }
        drop(off);
        return v.map(|v| v.as_ptr() as *mut c_char).unwrap_or(std::ptr::null_mut());
    }
    let f: extern "C" fn(*const c_char) -> *mut c_char = std::mem::transmute(next_sym(c"getenv"));
    f(name)
}
/// Calls with effects the library has no business with: refused and recorded.
macro_rules! refused {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if active() {
                let off = Off::new();
                w().ev(|| format!("{} refused", stringify!($name)), 0x99);
                w().effect(|| format!("call of {}", stringify!($name)));
                drop(off);
                *__errno_location() = EPERM;
                return -1;
            }
            let f: extern "C" fn($($t),*) -> $r = std::mem::transmute(next_sym(
                CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes())));
            f($($a),*)
        }
    )* };
}
refused! {
    unlink(a: *const c_char) -> c_int;
    unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int;
    rename(a: *const c_char, b: *const c_char) -> c_int;
    renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int;
    link(a: *const c_char, b: *const c_char) -> c_int;
    symlink(a: *const c_char, b: *const c_char) -> c_int;
    mkdir(a: *const c_char, m: mode_t) -> c_int;
    rmdir(a: *const c_char) -> c_int;
    chmod(a: *const c_char, m: mode_t) -> c_int;
    chdir(a: *const c_char) -> c_int;
    socket(a: c_int, b: c_int, c: c_int) -> c_int;
    execve(a: *const c_char, b: *const *const c_char, c: *const *const c_char) -> c_int;
    execvp(a: *const c_char, b: *const *const c_char) -> c_int;
    setenv(a: *const c_char, b: *const c_char, o: c_int) -> c_int;
    unsetenv(a: *const c_char) -> c_int;
}

#[no_mangle]
pub unsafe extern "C" fn raise(sig: c_int) -> c_int {
    if active() {
        let off = Off::new();
        w().ev(|| format!("raise({sig})"), sig as u64);
        w().probe("raised a signal");
        drop(off);
        return 0;
    }
    let pid = raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    let tid = raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
    ret(raw(SYS_tgkill, pid as usize, tid as usize, sig as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if crate::node::in_node() {
        crate::node::die("process abort");
    }
    let pid = raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    loop {
        raw(SYS_kill, pid as usize, SIGKILL as usize, 0, 0, 0, 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if active() {
        crate::node::die("process exit");
    }
    let f: extern "C" fn(c_int) -> ! = std::mem::transmute(next_sym(c"exit"));
    f(code)
}

// ---------------------------------------------------------------- key derivation

/// Called by the (patched) scrypt crate before it does any work.
#[no_mangle]
pub unsafe extern "C" fn dst_kdf(
    pass: *const u8,
    pass_len: usize,
    salt: *const u8,
    salt_len: usize,
    log_n: u8,
    r: u32,
    p: u32,
    out: *mut u8,
    out_len: usize,
) -> bool {
    if !active() {
        return false;
    }
    let off = Off::new();
    seam();
    let wd = w();
    wd.kdf_calls += 1;
    wd.kdf_last = vec![log_n as u64, r as u64, p as u64];
    wd.ev(|| format!("scrypt(log_n={log_n}, r={r}, p={p})"), log_n as u64 ^ (r as u64) << 8 ^ (p as u64) << 20);
    let n = 1u128 << log_n;
    let work = n * r as u128 * p as u128;
    let mem = 128 * r as u128 * (n + p as u128);
    // libsodium's most expensive preset needs 2^23 block operations and 1 GiB
    if work > 1 << 27 || mem > (3u128 << 30) / 2 {
        crate::node::die("unbounded work: key derivation cost beyond any supported setting");
    }
    let mut stub = !wd.kdf_real;
    if wd.kdf_real && work > 1 << 20 {
        stub = true;
    }
    if stub {
        let pass = std::slice::from_raw_parts(pass, pass_len);
        let salt = std::slice::from_raw_parts(salt, salt_len);
        let o = std::slice::from_raw_parts_mut(out, out_len);
        crate::oracle::kdf_stub(pass, salt, log_n, r, p, o);
    } else {
        wd.probe("real scrypt executed");
    }
    drop(off);
    stub
}
