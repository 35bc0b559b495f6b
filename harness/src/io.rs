//! Readers and writers that are short, interrupted or fail.

use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Result, Write};

#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// hand over at most this many bytes (at least 1)
    Chunk(usize),
    Interrupt,
    Fail,
}

pub struct ScriptReader<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub script: &'a [Step],
    pub step: usize,
}

impl<'a> ScriptReader<'a> {
    pub fn new(data: &'a [u8], script: &'a [Step]) -> Self {
        ScriptReader { data, at: 0, script, step: 0 }
    }
    /// Whether someone reading until the end of file must meet a failure.
    pub fn must_fail(len: usize, script: &[Step], max_chunk: usize) -> Option<bool> {
        // Chunks larger than the caller's buffer make the position depend on the caller.
        let mut at = 0;
        for s in script {
            match s {
                Step::Chunk(n) => {
                    if at == len {
                        return Some(false);
                    }
                    if *n > max_chunk {
                        return None;
                    }
                    at = (at + n).min(len);
                }
                Step::Interrupt => {}
                Step::Fail => return Some(true),
            }
        }
        Some(false)
    }
    pub fn failed(&self) -> bool {
        self.script[..self.step].contains(&Step::Fail)
    }
}

impl Read for ScriptReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let step = self.script.get(self.step).cloned();
        self.step = (self.step + 1).min(self.script.len());
        let max = match step {
            None => usize::MAX,
            Some(Step::Chunk(n)) => n.max(1),
            Some(Step::Interrupt) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Step::Fail) => return Err(Error::new(ErrorKind::Other, "injected read failure")),
        };
        let n = max.min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A writer that accepts what its script says, then fails for good or accepts everything.
pub struct ScriptWriter<'a> {
    pub out: Vec<u8>,
    pub script: &'a [Step],
    pub step: usize,
    /// fail (for good) once this many bytes were accepted
    pub limit: Option<usize>,
    /// at the limit: accept nothing (Ok(0)) instead of an error
    pub zero: bool,
    pub failures: usize,
}

impl<'a> ScriptWriter<'a> {
    pub fn new(script: &'a [Step], limit: Option<usize>, zero: bool) -> Self {
        ScriptWriter { out: vec![], script, step: 0, limit, zero, failures: 0 }
    }
}

impl Write for ScriptWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.script.is_empty() {
            // cycle through the script
            let s = &self.script[self.step % self.script.len()];
            self.step += 1;
            match s {
                Step::Chunk(k) => n = n.min((*k).max(1)),
                // never two interruptions for one byte of progress without end
                Step::Interrupt if self.step % 4 != 0 => {
                    return Err(Error::from(ErrorKind::Interrupted))
                }
                Step::Interrupt => {}
                Step::Fail => {
                    self.failures += 1;
                    return Err(Error::new(ErrorKind::Other, "injected write failure"));
                }
            }
        }
        if let Some(l) = self.limit {
            let room = l - self.out.len();
            if room == 0 {
                self.failures += 1;
                return if self.zero {
                    Ok(0)
                } else {
                    Err(Error::new(ErrorKind::Other, "injected write failure"))
                };
            }
            n = n.min(room);
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
