//! Simulated streams, sinks and disk.
use crate::{Fault, SimPanic, sched};
use std::cell::Cell;
use std::io::{self, Read, Write};

/// Byte stream delivered in pieces, with interruptions, and possibly a failure at a byte position.
pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: usize,
    /// every n-th read call is interrupted first (0 = never)
    pub eintr_every: u32,
    pub fail_at: Option<(usize, Fault)>,
    pub id: u64,
    pub calls: u32,
    pub pending_eintr: bool,
    pub fired: bool,
    pub eintrs: u32,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        SimReader { data, pos: 0, chunk: usize::MAX, eintr_every: 0, fail_at: None, id: 0, calls: 0, pending_eintr: false, fired: false, eintrs: 0 }
    }
}
pub fn io_fault(k: Fault, id: u64) -> io::Error {
    match k {
        Fault::Io => io::Error::new(io::ErrorKind::ConnectionReset, format!("sim-io-{id}")),
        Fault::Cancel => io::Error::new(io::ErrorKind::TimedOut, format!("sim-cancel-{id}")),
        _ => io::Error::new(io::ErrorKind::Other, format!("sim-{k:?}-{id}")),
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::point("read");
        self.calls += 1;
        if self.eintr_every > 0 && !self.pending_eintr && self.calls % self.eintr_every == 0 {
            self.pending_eintr = true;
            self.eintrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.pending_eintr = false;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut lim = self.data.len();
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at.min(lim) {
                self.fired = true;
                return match k {
                    Fault::Eof => Ok(0),
                    Fault::Panic => std::panic::panic_any(SimPanic(self.id)),
                    _ => Err(io_fault(k, self.id)),
                };
            }
            lim = lim.min(at);
        }
        let n = buf.len().min(self.chunk.max(1)).min(lim - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Byte sink with short writes, interruptions, and a failure at a byte position.
#[derive(Default)]
pub struct SimWriter {
    pub got: Vec<u8>,
    pub chunk: usize,
    pub eintr_every: u32,
    pub fail_at: Option<(usize, Fault)>,
    pub id: u64,
    pub calls: u32,
    pub fired: bool,
    pub eintrs: u32,
    pub shorts: u32,
    /// the failure passes: what comes after it is accepted
    pub heals: bool,
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::point("write");
        self.calls += 1;
        if self.eintr_every > 0 && self.calls % (self.eintr_every + 1) == 0 {
            self.eintrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if self.chunk > 0 && n > self.chunk {
            n = self.chunk;
            self.shorts += 1;
        }
        if let (Some((at, k)), false) = (self.fail_at, self.heals && self.fired) {
            let room = at.saturating_sub(self.got.len());
            if room == 0 && !buf.is_empty() {
                self.fired = true;
                return match k {
                    Fault::Eof => Ok(0), // full: accepts nothing
                    Fault::Panic => std::panic::panic_any(SimPanic(self.id)),
                    _ => Err(io_fault(k, self.id)),
                };
            }
            n = n.min(room);
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// `fmt::Write` sink that fails when it is full.
pub struct SimFmt {
    pub got: String,
    pub cap: usize,
    pub panic_id: Option<u64>,
    pub fired: Cell<bool>,
    /// the failure passes: what comes after it is accepted
    pub heals: bool,
}
impl SimFmt {
    pub fn new(cap: usize) -> Self {
        SimFmt { got: String::new(), cap, panic_id: None, fired: Cell::new(false), heals: false }
    }
}
impl std::fmt::Write for SimFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::point("fmt");
        if self.got.len() + s.len() > self.cap && !(self.heals && self.fired.get()) {
            // accept the part that fits (a torn write), then fail
            let mut k = self.cap.saturating_sub(self.got.len());
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
            self.fired.set(true);
            if let Some(id) = self.panic_id {
                std::panic::panic_any(SimPanic(id));
            }
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// An append-only simulated disk: writes sit in a volatile cache until `sync`; a crash keeps any prefix of the
/// unsynced bytes, possibly with a garbled sector.
#[derive(Default, Clone)]
pub struct SimDisk {
    pub durable: Vec<u8>,
    pub cache: Vec<u8>,
}
impl SimDisk {
    pub fn append(&mut self, b: &[u8]) {
        self.cache.extend_from_slice(b);
    }
    pub fn sync(&mut self) {
        self.durable.append(&mut self.cache);
    }
    /// crash: `keep` bytes of the cache survive
    pub fn crash(&mut self, keep: usize) {
        let k = keep.min(self.cache.len());
        let tail: Vec<u8> = self.cache.drain(..).take(k).collect();
        self.durable.extend_from_slice(&tail);
    }
    pub fn flip(&mut self, pos: usize, bit: u8) {
        if let Some(b) = self.durable.get_mut(pos) {
            *b ^= 1 << (bit & 7);
        }
    }
}
