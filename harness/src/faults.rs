//! Fault-injecting sources and sinks.
use std::io::{self, BufRead, ErrorKind, Read, Write};

/// A sink that fails after a number of bytes, accepts small pieces, or interrupts.
pub struct Sink {
    pub data: Vec<u8>,
    /// Byte position at which the sink fails.
    pub limit: usize,
    pub kind: ErrorKind,
    /// The failure happens only once.
    pub transient: bool,
    pub failed: usize,
    /// Accept at most so many bytes per call; 0 for all.
    pub piece: usize,
    /// Every so many calls an Interrupted error; 0 for never.
    pub interrupt: usize,
    pub zero: bool,
    pub calls: usize,
}

impl Sink {
    pub fn new() -> Self {
        Sink { data: vec![], limit: usize::MAX, kind: ErrorKind::Other, transient: false, failed: 0, piece: 0, interrupt: 0, zero: false, calls: 0 }
    }
    pub fn failing(limit: usize) -> Self {
        Sink { limit, ..Sink::new() }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.piece > 0 {
            n = n.min(self.piece);
        }
        if self.data.len() + n > self.limit && !(self.transient && self.failed > 0) {
            if self.data.len() >= self.limit {
                self.failed += 1;
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(self.kind, "injected"));
            }
            n = self.limit - self.data.len();
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A source that delivers its bytes in chosen chunks and fails at a byte position.
pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub limit: usize,
    pub kind: ErrorKind,
    pub transient: bool,
    pub failed: usize,
    /// Sizes of chunks, used cyclically.
    pub chunks: Vec<usize>,
    pub interrupt: usize,
    cur: usize,
    left: usize,
    calls: usize,
    pub served: usize,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], chunks: Vec<usize>) -> Self {
        Source {
            data,
            pos: 0,
            limit: usize::MAX,
            kind: ErrorKind::Other,
            transient: false,
            failed: 0,
            chunks,
            interrupt: 0,
            cur: 0,
            left: 0,
            calls: 0,
            served: 0,
        }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl<'a> BufRead for Source<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.pos >= self.limit && !(self.transient && self.failed > 0) {
            self.failed += 1;
            return Err(io::Error::new(self.kind, "injected"));
        }
        if self.left == 0 {
            self.left = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.cur % self.chunks.len()].max(1) };
            self.cur += 1;
        }
        let mut end = self.data.len().min(self.pos.saturating_add(self.left));
        if !(self.transient && self.failed > 0) {
            end = end.min(self.limit);
        }
        self.served = self.served.max(end);
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.left -= n.min(self.left);
    }
}
