//! Instrumented readers and writers.

use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};

/// Error payload by which an injected fault is recognised again.
#[derive(Debug)]
pub struct Injected(pub u64);

impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}

impl std::error::Error for Injected {}

pub fn fault(kind: ErrorKind, id: u64) -> io::Error {
    io::Error::new(kind, Injected(id))
}

pub const FAULT_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::InvalidInput,
    ErrorKind::StorageFull,
];

/// Limit of stream calls in one case; reaching it means the library loops.
pub const CALL_LIMIT: u64 = 5_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Whole,
    One,
    Random,
}

/// Writer which records what it gets, splits, interrupts and fails on demand.
pub struct W {
    pub out: Vec<u8>,
    pub chunk: Chunk,
    pub interrupt: bool,
    /// fail when this many bytes have been accepted
    pub fail_at: Option<usize>,
    pub fail_kind: ErrorKind,
    /// instead of failing, accept zero bytes
    pub zero: bool,
    /// failing means panicking
    pub throws: bool,
    pub fail_id: u64,
    pub failed: u64,
    pub calls: u64,
    /// flushing, which coding does not ask for, fails
    pub no_flush: bool,
    pub rng: Rng,
}

/// What the user's streams panic with, when they are to.
pub struct Thrown;

impl W {
    pub fn new() -> W {
        W {
            out: Vec::new(),
            chunk: Chunk::Whole,
            interrupt: false,
            fail_at: None,
            fail_kind: ErrorKind::Other,
            zero: false,
            throws: false,
            fail_id: 0,
            failed: 0,
            calls: 0,
            no_flush: false,
            rng: Rng::new(0),
        }
    }
    pub fn chunked(r: &mut Rng) -> W {
        let mut w = W::new();
        w.chunk = *r.pick(&[Chunk::Whole, Chunk::One, Chunk::Random]);
        w.interrupt = r.chance(1, 2);
        w.rng = Rng::new(r.u64());
        w
    }
}

impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > CALL_LIMIT {
            panic!("monitor: stream call limit reached");
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.rng.chance(1, 3) {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = match self.chunk {
            Chunk::Whole => b.len(),
            Chunk::One => 1,
            Chunk::Random => self.rng.range(1, b.len()),
        };
        if let Some(at) = self.fail_at {
            if self.out.len() >= at {
                self.failed += 1;
                if self.throws {
                    std::panic::resume_unwind(Box::new(Thrown));
                }
                if self.zero {
                    return Ok(0);
                }
                return Err(fault(self.fail_kind, self.fail_id));
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.no_flush {
            return Err(fault(self.fail_kind, self.fail_id));
        }
        Ok(())
    }
}

/// Reader over a byte string which fragments, interrupts and fails on demand.
pub struct Rd<'d> {
    pub data: &'d [u8],
    pub pos: usize,
    pub chunk: Chunk,
    pub interrupt: bool,
    pub fail_at: Option<usize>,
    pub fail_kind: ErrorKind,
    pub fail_id: u64,
    pub failed: u64,
    /// failing means panicking
    pub throws: bool,
    pub calls: u64,
    pub rng: Rng,
}

impl<'d> Rd<'d> {
    pub fn new(data: &'d [u8]) -> Rd<'d> {
        Rd {
            data,
            pos: 0,
            chunk: Chunk::Whole,
            interrupt: false,
            fail_at: None,
            fail_kind: ErrorKind::Other,
            fail_id: 0,
            failed: 0,
            throws: false,
            calls: 0,
            rng: Rng::new(0),
        }
    }
    pub fn chunked(data: &'d [u8], r: &mut Rng) -> Rd<'d> {
        let mut x = Rd::new(data);
        x.chunk = *r.pick(&[Chunk::Whole, Chunk::One, Chunk::Random]);
        x.interrupt = r.chance(1, 2);
        x.rng = Rng::new(r.u64());
        x
    }
}

impl<'d> Read for Rd<'d> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > CALL_LIMIT {
            panic!("monitor: stream call limit reached");
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.rng.chance(1, 3) {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.data.len() - self.pos;
        let mut n = match self.chunk {
            Chunk::Whole => b.len(),
            Chunk::One => 1,
            Chunk::Random => self.rng.range(1, b.len()),
        };
        if let Some(at) = self.fail_at {
            if self.pos >= at {
                self.failed += 1;
                if self.throws {
                    std::panic::resume_unwind(Box::new(Thrown));
                }
                return Err(fault(self.fail_kind, self.fail_id));
            }
            n = n.min(at - self.pos);
        }
        n = n.min(left);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
