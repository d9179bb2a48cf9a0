//! Simulated transport ends: the Read and Write given to the library.
use crate::ctx::{Ctx, StepBudget};
use crate::source::Source;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Write};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum RStep {
    /// deliver at most n bytes
    Chunk(usize),
    /// transient: must be retried by the caller
    Eintr,
    /// permanent failure of that kind (repeats)
    Fail(ErrorKind),
    /// failure once, data continues afterwards
    FailOnce(ErrorKind),
}

#[derive(Default, Clone, Debug)]
pub struct RStats {
    pub reads: u64,
    pub eintr: u64,
    pub short: u64,
    pub failed: u64,
    pub after_fail: u64,
    pub eof_seen: bool,
    pub delivered: usize,
}

/// A reader that follows a script: a list of (offset-independent) steps drawn
/// beforehand; when the script ends, `tail` chunks until the end of data.
pub struct SimReader {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub script: Vec<RStep>,
    pub i: usize,
    pub tail: usize,
    pub stats: Rc<RefCell<RStats>>,
    pub budget: u64,
    /// fail with this kind when this offset is reached
    pub fail_at: Option<(usize, ErrorKind, bool)>,
}

pub fn budget_for(len: usize) -> u64 {
    4 * len as u64 + 4096
}

impl SimReader {
    pub fn new(data: Rc<Vec<u8>>) -> Self {
        let budget = budget_for(data.len());
        SimReader {
            data,
            pos: 0,
            script: vec![],
            i: 0,
            tail: usize::MAX,
            stats: Default::default(),
            budget,
            fail_at: None,
        }
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut st = self.stats.borrow_mut();
        st.reads += 1;
        if st.reads > self.budget {
            drop(st);
            std::panic::panic_any(StepBudget);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if st.failed > 0 {
            st.after_fail += 1;
        }
        let mut max = self.data.len() - self.pos;
        if let Some((off, kind, once)) = self.fail_at {
            if self.pos >= off {
                st.failed += 1;
                if once {
                    self.fail_at = None;
                }
                return Err(Error::new(kind, "simulated device error"));
            }
            max = max.min(off - self.pos);
        }
        let step = if self.i < self.script.len() {
            let s = self.script[self.i].clone();
            self.i += 1;
            s
        } else {
            RStep::Chunk(self.tail)
        };
        match step {
            RStep::Eintr => {
                st.eintr += 1;
                Err(Error::from(ErrorKind::Interrupted))
            },
            RStep::Fail(k) => {
                st.failed += 1;
                self.i -= 1;
                Err(Error::new(k, "simulated device error"))
            },
            RStep::FailOnce(k) => {
                st.failed += 1;
                Err(Error::new(k, "simulated device error"))
            },
            RStep::Chunk(n) => {
                let n = n.max(1).min(buf.len()).min(max);
                if n < buf.len() && n < self.data.len() - self.pos {
                    st.short += 1;
                }
                if self.pos == self.data.len() {
                    st.eof_seen = true;
                }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                st.delivered = self.pos;
                Ok(n)
            },
        }
    }
}

pub const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
];

/// Draws a delivery plan: fragmentation and EINTR, no data change.
pub fn draw_delivery(s: &mut Source, len: usize) -> (Vec<RStep>, usize, usize) {
    let cap = match s.us(6) {
        0 => 8192,
        1 => 1,
        2 => s.range(2, 90) as usize,
        3 => s.range(2, 8) as usize,
        4 => s.range(91, 4096) as usize,
        _ => s.range(4097, 70000) as usize,
    };
    let style = s.us(5);
    let n = match style {
        0 => 0,
        _ => s.range(0, 60) as usize,
    };
    let mut script = Vec::new();
    for _ in 0..n {
        let st = match s.us(6) {
            0 => RStep::Chunk(usize::MAX),
            1 => RStep::Chunk(1),
            2 => RStep::Chunk(s.range(1, 100) as usize),
            3 => RStep::Eintr,
            4 => RStep::Chunk(s.range(1, (len as i64).max(2)) as usize),
            _ => RStep::Chunk(s.range(1, 8) as usize),
        };
        script.push(st);
    }
    let tail = match s.us(5) {
        0 => usize::MAX,
        1 => 1,
        2 => s.range(2, 7) as usize,
        3 => s.range(8, 200) as usize,
        _ => s.range(200, 9000) as usize,
    };
    (script, tail, cap)
}

pub fn record_delivery(ctx: &mut Ctx, st: &RStats) {
    ctx.fault_n("short_read", st.short);
    ctx.fault_n("read_eintr", st.eintr);
    ctx.fault_n("read_error", st.failed);
}

// ------------------------------------------------------------------ writer

#[derive(Clone, Debug, PartialEq)]
pub enum WStep {
    Chunk(usize),
    Eintr,
    /// from now on every write fails
    Fail(ErrorKind),
    /// accepts nothing (Ok(0)) from now on
    Zero,
}

#[derive(Default, Clone, Debug)]
pub struct WState {
    pub out: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub eintr: u64,
    pub short: u64,
    pub failed: u64,
    pub zero: u64,
    pub flush_failed: u64,
    /// bytes offered after the first failure
    pub writes_after_fail: u64,
}

pub struct SimWriter {
    pub st: Rc<RefCell<WState>>,
    pub script: Vec<WStep>,
    pub i: usize,
    pub tail: usize,
    /// that offset, what happens there, and whether it happens once only
    /// (the device works again afterwards)
    pub fail_at: Option<(usize, WStep, bool)>,
    pub flush_once: bool,
    pub flush_fail: Option<ErrorKind>,
    pub budget: u64,
}

impl SimWriter {
    pub fn new() -> Self {
        SimWriter {
            st: Default::default(),
            script: vec![],
            i: 0,
            tail: usize::MAX,
            fail_at: None,
            flush_once: false,
            flush_fail: None,
            budget: 20_000_000,
        }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut st = self.st.borrow_mut();
        st.writes += 1;
        if st.writes > self.budget {
            drop(st);
            std::panic::panic_any(StepBudget);
        }
        if st.failed > 0 || st.zero > 0 {
            st.writes_after_fail += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut max = buf.len();
        if let Some((off, step, once)) = self.fail_at.clone() {
            if st.out.len() >= off {
                if once {
                    self.fail_at = None;
                }
                match step {
                    WStep::Zero => {
                        st.zero += 1;
                        return Ok(0);
                    },
                    WStep::Fail(k) => {
                        st.failed += 1;
                        return Err(Error::new(k, "simulated device error"));
                    },
                    _ => {},
                }
            } else {
                max = max.min(off - st.out.len());
            }
        }
        let step = if self.i < self.script.len() {
            let s = self.script[self.i].clone();
            self.i += 1;
            s
        } else {
            WStep::Chunk(self.tail)
        };
        match step {
            WStep::Eintr => {
                st.eintr += 1;
                Err(Error::from(ErrorKind::Interrupted))
            },
            WStep::Fail(k) => {
                st.failed += 1;
                self.i -= 1;
                Err(Error::new(k, "simulated device error"))
            },
            WStep::Zero => {
                st.zero += 1;
                self.i -= 1;
                Ok(0)
            },
            WStep::Chunk(n) => {
                let n = n.max(1).min(max);
                if n < buf.len() {
                    st.short += 1;
                }
                st.out.extend_from_slice(&buf[..n]);
                Ok(n)
            },
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut st = self.st.borrow_mut();
        st.flushes += 1;
        if let Some(k) = self.flush_fail {
            st.flush_failed += 1;
            if self.flush_once {
                self.flush_fail = None;
            }
            return Err(Error::new(k, "simulated flush error"));
        }
        Ok(())
    }
}
