//! The simulated disk and the simulated streams (reader/writer arguments of the library's codecs).

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DiskFault {
    /// the process dies inside the next write, after `at` (mod length+1) bytes reached the file
    CrashInWrite { at: usize },
    /// the disk is full after `at` bytes of the next write
    NoSpace { at: usize },
    /// I/O error after `at` bytes of the next write
    Eio { at: usize },
    /// the next sync fails
    SyncFails,
    /// the next write is taken in small pieces with interruptions
    Short { seed: u64 },
}

#[derive(Default, Clone)]
pub struct File {
    /// what a crash cannot take away
    pub durable: Vec<u8>,
    /// written but not synced
    pub pending: Vec<u8>,
}

impl File {
    pub fn sync(&mut self) {
        let p = std::mem::take(&mut self.pending);
        self.durable.extend_from_slice(&p);
    }
    pub fn crash(&mut self, keep: usize, zeros: bool) {
        let n = self.pending.len();
        if n > 0 {
            let k = keep % (n + 1);
            let p = std::mem::take(&mut self.pending);
            self.durable.extend_from_slice(&p[..k]);
            if zeros {
                // the length became durable, the data did not
                self.durable.resize(self.durable.len() + (n - k), 0);
            }
        }
    }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum WriteEnd {
    Fine,
    NoSpace,
    Eio,
    Crashed,
}

pub struct SimWriter<'a> {
    pub out: &'a mut Vec<u8>,
    pub limit: Option<(usize, WriteEnd)>,
    pub done: usize,
    pub rng: Option<Rng>,
    pub interrupts: u64,
    pub shorts: u64,
    pub hit: WriteEnd,
    pub zero_writes: bool,
    /// fails but once
    pub passing: bool,
}

impl<'a> SimWriter<'a> {
    pub fn new(out: &'a mut Vec<u8>) -> Self {
        SimWriter {
            out,
            limit: None,
            done: 0,
            rng: None,
            interrupts: 0,
            shorts: 0,
            hit: WriteEnd::Fine,
            zero_writes: false,
            passing: false,
        }
    }
}

impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(r) = &mut self.rng {
            if r.pm(150) {
                self.interrupts += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if r.coin() {
                n = 1 + r.below(n);
                if n < buf.len() {
                    self.shorts += 1;
                }
            }
        }
        if let Some((at, how)) = self.limit {
            if self.done >= at {
                self.hit = how;
                if self.passing {
                    self.limit = None;
                }
                return match how {
                    WriteEnd::NoSpace if self.zero_writes => Ok(0),
                    WriteEnd::NoSpace => Err(io::Error::new(io::ErrorKind::Other, "no space")),
                    _ => Err(io::Error::new(io::ErrorKind::Other, "I/O error")),
                };
            }
            n = n.min(at - self.done);
        }
        self.out.extend_from_slice(&buf[..n]);
        self.done += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub rng: Option<Rng>,
    /// fail when this many bytes were delivered
    pub fail_at: Option<usize>,
    /// the failure happens once and the stream goes on after it
    pub once: bool,
    pub interrupts: u64,
    pub failed: u64,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        SimReader {
            data,
            pos: 0,
            rng: None,
            fail_at: None,
            once: false,
            interrupts: 0,
            failed: 0,
        }
    }
    pub fn chunked(data: &'a [u8], seed: u64) -> Self {
        let mut s = Self::new(data);
        s.rng = Some(Rng::new(seed));
        s
    }
}

impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(r) = &mut self.rng {
            if r.pm(50) {
                self.interrupts += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if n > 1 {
                n = 1 + r.below(n);
            }
        }
        if let Some(k) = self.fail_at {
            if self.pos >= k {
                self.failed += 1;
                if self.once {
                    self.fail_at = None;
                }
                return Err(io::Error::new(io::ErrorKind::Other, "I/O error"));
            }
            n = n.min(k - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
