//! Trait seam: data sources and destinations handed to the library.
use crate::gen;
use crate::seams::{seam, Off};
use crate::tape::{draw, pick};
use crate::world::{w, F};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData,
    ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected,
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::WriteZero,
    ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::AlreadyExists, ErrorKind::AddrInUse,
    ErrorKind::ConnectionRefused, ErrorKind::AddrNotAvailable,
];
pub const ERRNOS: &[i32] = &[
    libc::EIO, libc::EAGAIN, libc::ETIMEDOUT, libc::ECONNRESET, libc::ESTALE, libc::ENOSPC, libc::EPIPE, libc::EISDIR,
    libc::ENODEV, libc::EBADF, libc::EINVAL, libc::ENXIO, libc::EREMOTEIO, libc::EOVERFLOW, libc::ENODATA, libc::ESPIPE,
];
pub fn hard_error() -> io::Error {
    let n = KINDS.len() as u64;
    match draw(3) {
        0 => io::Error::new(KINDS[draw(n) as usize], "injected"),
        1 => KINDS[draw(n) as usize].into(),
        _ => io::Error::from_raw_os_error(pick(ERRNOS)),
    }
}
pub fn interrupted() -> io::Error {
    match draw(3) {
        0 => ErrorKind::Interrupted.into(),
        1 => io::Error::from_raw_os_error(libc::EINTR),
        _ => io::Error::new(ErrorKind::Interrupted, "signal"),
    }
}

/// A simulated data source.
pub struct Src {
    pub data: Vec<u8>,
    /// content of the second and later passes, if it changes in between
    pub later: Option<Vec<u8>>,
    pub pos: u64,
    pub start: u64,
    pub pass: u32,
    mode: u64,
    fixed: u64,
    reads: u64,
    pub eof_seen: u32,
    pub seeks: u32,
    /// scheduled hard error: (pass, offset, persistent)
    pub err_at: Option<(u32, u64, bool)>,
    pub seek_err_at: Option<u32>,
    pub hard: u64,
    pub hard_text: String,
    /// bytes handed out in the current pass
    pub delivered: u64,
    high: u64,
    ended: bool,
    /// something the source does before its n-th read: wait for another
    /// thread, or use the library itself
    pub hook: Option<(u64, Box<dyn FnMut()>)>,
}
impl Src {
    pub fn new(data: Vec<u8>) -> Src {
        Src {
            data,
            later: None,
            pos: 0,
            start: 0,
            pass: 0,
            mode: 0,
            fixed: 0,
            reads: 0,
            eof_seen: 0,
            seeks: 0,
            err_at: None,
            seek_err_at: None,
            hard: 0,
            hard_text: String::new(),
            delivered: 0,
            high: 0,
            ended: false,
            hook: None,
        }
    }
    /// A source that is not at its beginning when handed over.
    pub fn at(mut self, start: u64) -> Src {
        self.pos = start;
        self.start = start;
        self
    }
    pub fn len(&self) -> u64 {
        self.data.len() as u64
    }
    /// Choose how the source splits its content into reads.
    pub fn chunked(mut self) -> Src {
        let w = w();
        if w.enabled(F::SrcShortRead) && w.budget > 0 {
            self.mode = draw(8);
            self.fixed = match self.mode {
                1 => 1,
                2 => 1 + gen::near_dict() % 70000,
                5 => 127 + draw(3),
                _ => 0,
            };
            if self.mode != 0 {
                w.note(F::SrcShortRead);
            }
        }
        self
    }
    fn cur(&self) -> &Vec<u8> {
        match &self.later {
            Some(l) if self.pass > 0 => l,
            _ => &self.data,
        }
    }
    fn read_(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let w = w();
        if self.pos < self.high {
            // reading again what was read before: another pass over the data
            self.pass += 1;
            self.delivered = 0;
            self.ended = false;
            self.high = self.pos;
        }
        if self.ended {
            // end of stream is final
            return Ok(0);
        }
        if w.fault(F::SrcInterrupted) {
            return Err(interrupted());
        }
        if let Some((p, o, persist)) = self.err_at {
            if p == self.pass && self.pos >= o {
                self.hard += 1;
                if !persist {
                    self.err_at = None;
                }
                w.note(F::SrcError);
                let e = hard_error();
                self.hard_text = format!("{e:?}");
                return Err(e);
            }
        }
        if w.fault(F::SrcError) {
            self.hard += 1;
            let e = hard_error();
            self.hard_text = format!("{e:?}");
            return Err(e);
        }
        self.reads += 1;
        let total = self.cur().len() as u64;
        let mut avail = total.saturating_sub(self.pos);
        if let Some((p, o, _)) = self.err_at {
            if p == self.pass && o > self.pos {
                avail = avail.min(o - self.pos);
            }
        }
        let max = avail.min(buf.len() as u64);
        let mut n = max;
        if self.reads < 1500 && max > 1 {
            n = match self.mode {
                0 => max,
                1 | 2 | 5 => self.fixed,
                3 => 1 + draw(64.min(max)),
                4 => 1 + draw(max),
                6 => max - 1,
                _ => 1 + gen::near_dict() % max,
            }
            .clamp(1, max);
        }
        let (p, n) = (self.pos as usize, n as usize);
        if n > 0 {
            buf[..n].copy_from_slice(&self.cur()[p..p + n]);
        } else if !buf.is_empty() {
            self.eof_seen += 1;
            self.ended = true;
        }
        self.pos += n as u64;
        self.high = self.pos;
        self.delivered += n as u64;
        Ok(n)
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _o = Off::new();
        seam();
        match &mut self.hook {
            Some((0, _)) => (self.hook.take().unwrap().1)(),
            Some((n, _)) => *n -= 1,
            None => {}
        }
        let r = self.read_(buf);
        let p = self.pos;
        w().ev(
            || format!("source.read({}) = {:?} (now at {p})", buf.len(), r.as_ref().map_err(|e| e.to_string())),
            0x81 ^ (buf.len() as u64) << 8 ^ r.as_ref().map(|n| *n as u64).unwrap_or(u64::MAX),
        );
        r
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let _o = Off::new();
        seam();
        self.seeks += 1;
        let w = w();
        let r = if self.seek_err_at == Some(self.seeks) {
            w.note(F::SrcSeekError);
            self.hard += 1;
            let e = hard_error();
            self.hard_text = format!("{e:?}");
            Err(e)
        } else if w.fault(F::SrcSeekError) {
            self.hard += 1;
            let e = hard_error();
            self.hard_text = format!("{e:?}");
            Err(e)
        } else {
            let len = self.cur().len() as i64;
            let t = match to {
                SeekFrom::Start(x) => x as i64,
                SeekFrom::Current(x) => self.pos as i64 + x,
                SeekFrom::End(x) => len + x,
            };
            if t < 0 {
                Err(ErrorKind::InvalidInput.into())
            } else {
                if self.pos != t as u64 {
                    self.ended = false;
                }
                self.pos = t as u64;
                Ok(self.pos)
            }
        };
        w.ev(|| format!("source.seek({to:?}) = {:?}", r.as_ref().map_err(|e| e.to_string())), 0x82 ^ self.pos << 8);
        r
    }
}

/// A simulated destination. `cache` models a destination that only accepts
/// bytes for good when flushed.
pub struct Dst {
    pub name: &'static str,
    /// bytes accepted for good
    pub got: Vec<u8>,
    pub pending: Vec<u8>,
    pub buffered: bool,
    pub broken: bool,
    pub hard: u64,
    pub flushes: u64,
    pub writes: u64,
    pub capacity: u64,
    /// number of bytes covered by the last successful flush
    pub synced: usize,
    /// everything ever offered
    pub seen: Vec<u8>,
    /// as in `Src`, before the n-th write
    pub hook: Option<(u64, Box<dyn FnMut()>)>,
}
impl Dst {
    pub fn new(name: &'static str) -> Dst {
        let w = w();
        let buffered = w.fault(F::DstBuffered);
        Dst { name, got: vec![], pending: vec![], buffered, broken: false, hard: 0, flushes: 0, writes: 0, capacity: u64::MAX, synced: 0, seen: vec![], hook: None }
    }
    fn write_(&mut self, d: &[u8]) -> io::Result<usize> {
        let w = w();
        self.writes += 1;
        self.seen.extend_from_slice(d);
        if self.broken {
            self.hard += 1;
            return Err(io::Error::from_raw_os_error(libc::EPIPE));
        }
        if w.fault(F::DstInterrupted) {
            return Err(interrupted());
        }
        if w.fault(F::DstError) {
            self.hard += 1;
            self.broken = draw(2) == 0;
            return Err(hard_error());
        }
        if d.is_empty() {
            return Ok(0);
        }
        if w.fault(F::DstWriteZero) {
            self.hard += 1;
            return Ok(0);
        }
        let mut n = d.len();
        if n > 1 && w.fault(F::DstShortWrite) {
            n = 1 + draw(n as u64 - 1) as usize;
        }
        let room = self.capacity.saturating_sub((self.got.len() + self.pending.len()) as u64);
        if room == 0 {
            self.hard += 1;
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        n = n.min(room as usize);
        if self.buffered {
            self.pending.extend_from_slice(&d[..n]);
        } else {
            self.got.extend_from_slice(&d[..n]);
        }
        Ok(n)
    }
    fn flush_(&mut self) -> io::Result<()> {
        let w = w();
        self.flushes += 1;
        if self.broken {
            self.hard += 1;
            return Err(io::Error::from_raw_os_error(libc::EPIPE));
        }
        if w.fault(F::DstFlushError) {
            self.hard += 1;
            // what was buffered is lost
            self.pending.clear();
            return Err(hard_error());
        }
        let p = std::mem::take(&mut self.pending);
        self.got.extend_from_slice(&p);
        self.synced = self.got.len();
        Ok(())
    }
}
impl Write for Dst {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        let _o = Off::new();
        seam();
        match &mut self.hook {
            Some((0, _)) => (self.hook.take().unwrap().1)(),
            Some((n, _)) => *n -= 1,
            None => {}
        }
        let r = self.write_(d);
        let n = self.name;
        w().ev(
            || format!("{n}.write({}) = {:?}", d.len(), r.as_ref().map_err(|e| e.to_string())),
            0x91 ^ (d.len() as u64) << 8 ^ r.as_ref().map(|n| *n as u64).unwrap_or(u64::MAX),
        );
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let _o = Off::new();
        seam();
        let r = self.flush_();
        let n = self.name;
        w().ev(|| format!("{n}.flush() = {:?}", r.as_ref().map_err(|e| e.to_string())), 0x92 ^ r.is_ok() as u64);
        r
    }
}
