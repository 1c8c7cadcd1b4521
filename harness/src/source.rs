//! Input sources that deliver bytes on a chosen schedule.

use std::io::{self, BufRead, Read};

/// `chunks`: sizes of successive reads; 0 stands for an interrupted read. When
/// they are used up the rest is delivered at once. `fail`: after the last byte
/// the source fails instead of ending.
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    end: usize,
    chunks: Vec<i64>,
    next: usize,
    fail: Option<io::ErrorKind>,
}

/// How a source or a sink fails.
pub fn failure(name: &str) -> io::ErrorKind {
    use io::ErrorKind::*;
    for k in [NotFound, PermissionDenied, ConnectionReset, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput,
              InvalidData, TimedOut, WriteZero, UnexpectedEof, OutOfMemory, Unsupported] {
        if format!("{k:?}") == name {
            return k;
        }
    }
    Other
}

impl Source {
    pub fn new(data: Vec<u8>, chunks: Vec<i64>, fail: Option<io::ErrorKind>) -> Source {
        Source { data, pos: 0, end: 0, chunks, next: 0, fail }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let available = self.fill_buf()?;
        let n = available.len().min(buf.len());
        buf[..n].copy_from_slice(&available[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Source {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos == self.end {
            if self.next < self.chunks.len() {
                let n = self.chunks[self.next];
                self.next += 1;
                if n <= 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                self.end = (self.pos + n as usize).min(self.data.len());
            } else {
                self.end = self.data.len();
            }
            if let (true, Some(kind)) = (self.pos == self.end, self.fail) {
                return Err(io::Error::new(kind, "source failed"));
            }
        }
        Ok(&self.data[self.pos..self.end])
    }

    fn consume(&mut self, n: usize) {
        assert!(self.pos + n <= self.end, "consumed more than was available");
        self.pos += n;
    }
}
