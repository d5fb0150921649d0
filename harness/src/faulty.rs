//! Readers and writers with a symbolic fault schedule.
use crate::sx;
use std::io::{self, Read, Write};

/// deviations from "do everything asked" per run
pub const DEV: usize = if cfg!(feature = "deep") { 3 } else { 2 };

pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// the stream ends (or fails) here
    pub stop: usize,
    /// fail instead of ending
    pub fail: bool,
    dev: usize,
    calls: usize,
}
impl<'a> Reader<'a> {
    pub fn pieces(data: &'a [u8]) -> Self {
        Reader {
            data,
            pos: 0,
            stop: data.len(),
            fail: false,
            dev: DEV,
            calls: 0,
        }
    }
    /// with one deviation fewer
    pub fn fewer(data: &'a [u8]) -> Self {
        let mut r = Reader::pieces(data);
        r.dev -= 1;
        r
    }
    pub fn stops(data: &'a [u8], stop: usize, fail: bool) -> Self {
        Reader {
            data,
            pos: 0,
            stop,
            fail,
            dev: 0,
            calls: 0,
        }
    }
}
impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = (self.stop - self.pos).min(buf.len());
        if n == 0 {
            if self.fail {
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
            return Ok(0);
        }
        self.calls += 1;
        // of a long stream, only the first calls and the last bytes deviate
        if self.dev > 0 && (self.calls < 12 || self.data.len() - self.pos < 6) {
            match sx::pick(4) {
                0 => {
                    self.dev -= 1;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                1 if n > 1 => {
                    self.dev -= 1;
                    n = 1;
                }
                2 if n > 2 => {
                    self.dev -= 1;
                    n -= 1;
                }
                3 => {}
                _ => sx::assume(false),
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct Writer {
    pub got: Vec<u8>,
    /// accepts no byte beyond this many
    pub limit: usize,
    /// refuse with an error (otherwise by accepting nothing)
    pub fail: bool,
    dev: usize,
    calls: usize,
    /// length of the encoding expected
    len: usize,
}
impl Writer {
    pub fn pieces(len: usize) -> Self {
        Writer {
            got: Vec::new(),
            limit: usize::MAX,
            fail: false,
            dev: DEV,
            calls: 0,
            len,
        }
    }
    /// with one deviation fewer
    pub fn fewer(len: usize) -> Self {
        let mut w = Writer::pieces(len);
        w.dev -= 1;
        w
    }
    pub fn full(limit: usize, fail: bool) -> Self {
        Writer {
            got: Vec::new(),
            limit,
            fail,
            dev: 0,
            calls: 0,
            len: 0,
        }
    }
}
impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.limit - self.got.len());
        if n == 0 {
            if self.fail {
                return Err(io::Error::from(io::ErrorKind::StorageFull));
            }
            return Ok(0);
        }
        self.calls += 1;
        if self.dev > 0 && (self.calls < 12 || self.got.len() + 6 > self.len) {
            match sx::pick(4) {
                0 => {
                    self.dev -= 1;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                1 if n > 1 => {
                    self.dev -= 1;
                    n = 1;
                }
                2 if n > 2 => {
                    self.dev -= 1;
                    n -= 1;
                }
                3 => {}
                _ => sx::assume(false),
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
