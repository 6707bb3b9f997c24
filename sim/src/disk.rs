//! The simulated medium and the simulated stream.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// Stored bytes. Everything outside of the segments and below the length reads as zero.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Disk {
    pub segs: Vec<(u64, Vec<u8>)>,
    pub len: u64,
}

impl Disk {
    pub fn from_bytes(b: Vec<u8>) -> Self {
        let len = b.len() as u64;
        Disk { segs: vec![(0, b)], len }
    }
    pub fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize {
        if pos >= self.len || buf.is_empty() {
            return 0;
        }
        let n = std::cmp::min(buf.len() as u64, self.len - pos) as usize;
        let end = pos + n as u64;
        if let [(0, bytes)] = self.segs.as_slice() {
            if bytes.len() as u64 >= end {
                buf[..n].copy_from_slice(&bytes[pos as usize..pos as usize + n]);
                return n;
            }
        }
        buf[..n].fill(0);
        for (start, bytes) in &self.segs {
            let stop = start + bytes.len() as u64;
            if stop <= pos || *start >= end {
                continue;
            }
            let a = pos.max(*start);
            let b = end.min(stop);
            buf[(a - pos) as usize..(b - pos) as usize]
                .copy_from_slice(&bytes[(a - start) as usize..(b - start) as usize]);
        }
        n
    }
    pub fn get(&self, pos: u64, n: usize) -> Option<Vec<u8>> {
        let mut v = vec![0; n];
        if self.read_at(pos, &mut v) == n {
            Some(v)
        } else {
            None
        }
    }
    /// Overwrite stored bytes, adding a segment where there is none.
    pub fn write(&mut self, pos: u64, data: &[u8]) {
        let mut fresh: Vec<(u64, Vec<u8>)> = vec![];
        for (i, byte) in data.iter().enumerate() {
            let p = pos + i as u64;
            if let Some((start, bytes)) =
                self.segs.iter_mut().find(|(s, b)| *s <= p && p < s + b.len() as u64)
            {
                bytes[(p - *start) as usize] = *byte;
            } else if let Some((_, bytes)) = fresh.last_mut().filter(|(s, b)| s + b.len() as u64 == p) {
                bytes.push(*byte);
            } else {
                fresh.push((p, vec![*byte]));
            }
        }
        self.segs.extend(fresh);
        self.len = self.len.max(pos + data.len() as u64);
        self.segs.sort_by_key(|s| s.0);
    }
    pub fn add(&mut self, pos: u64, bytes: Vec<u8>) {
        self.len = self.len.max(pos + bytes.len() as u64);
        if !bytes.is_empty() {
            self.segs.push((pos, bytes));
            self.segs.sort_by_key(|s| s.0);
        }
    }
    /// Places that hold data, for damage.
    pub fn stored(&self) -> u64 {
        self.segs.iter().map(|s| s.1.len() as u64).sum()
    }
    /// The position of the k-th stored byte.
    pub fn nth(&self, mut k: u64) -> u64 {
        for (start, b) in &self.segs {
            if k < b.len() as u64 {
                return start + k;
            }
            k -= b.len() as u64;
        }
        self.len
    }
}

/// What can happen at a stream call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// A read delivers at most this many bytes.
    Short(u32),
    /// A read is interrupted and asks to be retried.
    Intr,
    /// A read, seek, or position query fails with the kind of this index.
    Fail(u8),
    /// A read reports the end of the file although there is more.
    Eof,
    /// The client dies in the middle of the call: it unwinds.
    Die,
}

/// What a dying client unwinds with.
pub struct Dead;

impl Fault {
    pub fn hard(&self) -> bool {
        matches!(self, Fault::Fail(_) | Fault::Eof | Fault::Die)
    }
}

pub const KINDS: &[(&str, ErrorKind)] = &[
    ("timed_out", ErrorKind::TimedOut),
    ("would_block", ErrorKind::WouldBlock),
    ("connection_reset", ErrorKind::ConnectionReset),
    ("permission_denied", ErrorKind::PermissionDenied),
    ("invalid_data", ErrorKind::InvalidData),
    ("broken_pipe", ErrorKind::BrokenPipe),
    ("unexpected_eof", ErrorKind::UnexpectedEof),
    ("not_found", ErrorKind::NotFound),
    ("invalid_input", ErrorKind::InvalidInput),
    ("unsupported", ErrorKind::Unsupported),
    ("out_of_memory", ErrorKind::OutOfMemory),
    ("write_zero", ErrorKind::WriteZero),
    ("connection_aborted", ErrorKind::ConnectionAborted),
    ("not_connected", ErrorKind::NotConnected),
    ("already_exists", ErrorKind::AlreadyExists),
    ("eio", ErrorKind::Other), // a raw operating-system error; see `fail`
    ("other", ErrorKind::Other),
    ("seek_interrupted", ErrorKind::Interrupted), // for seeks and position queries only
];
pub const KIND_EIO: u8 = 15;
pub const KIND_SEEK_INTR: u8 = 17;

pub fn fail(kind: u8) -> Error {
    if kind == KIND_EIO {
        return Error::from_raw_os_error(5);
    }
    let (name, k) = KINDS[kind as usize];
    Error::new(k, format!("injected {name}"))
}

pub fn fault_kind(f: &Fault) -> Option<ErrorKind> {
    match f {
        Fault::Fail(k) => Some(fail(*k).kind()),
        Fault::Eof => Some(ErrorKind::UnexpectedEof),
        _ => None,
    }
}

pub fn fault_name(f: &Fault) -> &'static str {
    match f {
        Fault::Short(_) => "short_read",
        Fault::Intr => "interrupted_read",
        Fault::Fail(k) => KINDS[*k as usize].0,
        Fault::Eof => "premature_eof",
        Fault::Die => "client_killed",
    }
}

/// How the stream behaves during one request.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Plan {
    /// No read delivers more than this many bytes; zero means no limit.
    pub chunk: u32,
    /// Every read is interrupted once in this many reads; zero means never.
    pub intr: u32,
    /// Events by the index of the stream call within the request, sorted.
    pub events: Vec<(u32, Fault)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallKind {
    Read,
    Seek,
    Tell,
}

/// What the stream saw during one request.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub calls: u64,
    pub reads: u64,
    pub bytes: u64,
    pub fired: Vec<(u32, Fault)>,
    pub soft: u64,
    pub runaway: bool,
    pub kinds: Option<Vec<CallKind>>,
}

pub static RUNAWAY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(5_000_000);

/// Called before every stream call: the point where another client may get to run.
pub type Yield = Arc<dyn Fn() + Send + Sync>;

pub struct Tape {
    pub disk: Arc<Mutex<Disk>>,
    pub pos: u64,
    pub plan: Plan,
    next: usize,
    read_index: u64,
    pub trace: Trace,
    pub limit: u64,
    pub hook: Option<Yield>,
}

impl Tape {
    pub fn new(disk: Arc<Mutex<Disk>>) -> Self {
        Tape {
            disk,
            pos: 0,
            plan: Plan::default(),
            next: 0,
            read_index: 0,
            trace: Trace::default(),
            limit: RUNAWAY.load(std::sync::atomic::Ordering::Relaxed),
            hook: None,
        }
    }
    pub fn begin(&mut self, plan: &Plan, record: bool) {
        self.plan = plan.clone();
        self.next = 0;
        self.read_index = 0;
        self.trace = Trace { kinds: if record { Some(vec![]) } else { None }, ..Trace::default() };
    }
    /// Account for the call and find what happens to it.
    fn call(&mut self, kind: CallKind, empty: bool) -> Result<Option<Fault>> {
        if let Some(hook) = self.hook.clone() {
            hook();
        }
        let index = self.trace.calls as u32;
        self.trace.calls += 1;
        if let Some(ref mut kinds) = self.trace.kinds {
            kinds.push(kind);
        }
        if self.trace.calls > self.limit {
            self.trace.runaway = true;
            return Err(Error::new(ErrorKind::Other, "the simulation ran away"));
        }
        let mut result = None;
        while self.next < self.plan.events.len() && self.plan.events[self.next].0 <= index {
            let (at, fault) = self.plan.events[self.next];
            self.next += 1;
            if at != index {
                continue;
            }
            let applies = match fault {
                Fault::Short(_) | Fault::Intr | Fault::Eof => kind == CallKind::Read && !empty,
                Fault::Die => true,
                Fault::Fail(k) => k != KIND_SEEK_INTR || kind != CallKind::Read,
            };
            if applies && result.is_none() {
                self.trace.fired.push((index, fault));
                result = Some(fault);
            }
        }
        if result == Some(Fault::Die) {
            std::panic::resume_unwind(Box::new(Dead));
        }
        Ok(result)
    }
}

impl Read for Tape {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let _aside = crate::work::aside();
        let fault = self.call(CallKind::Read, buf.is_empty())?;
        self.trace.reads += 1;
        self.read_index += 1;
        let mut n = buf.len();
        match fault {
            Some(Fault::Fail(k)) => return Err(fail(k)),
            Some(Fault::Intr) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Fault::Eof) => return Ok(0),
            Some(Fault::Die) => unreachable!(),
            Some(Fault::Short(k)) => n = n.min(k.max(1) as usize),
            None => {}
        }
        if self.plan.intr > 1 && self.read_index % self.plan.intr as u64 == 1 && !buf.is_empty() {
            self.trace.soft += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.plan.chunk > 0 && n > self.plan.chunk as usize {
            n = self.plan.chunk as usize;
            self.trace.soft += 1;
        }
        let n = self.disk.lock().unwrap_or_else(|e| e.into_inner()).read_at(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        self.trace.bytes += n as u64;
        Ok(n)
    }
}

impl Seek for Tape {
    fn seek(&mut self, from: SeekFrom) -> Result<u64> {
        let _aside = crate::work::aside();
        let kind = if from == SeekFrom::Current(0) { CallKind::Tell } else { CallKind::Seek };
        match self.call(kind, false)? {
            Some(Fault::Fail(k)) => return Err(fail(k)),
            _ => {}
        }
        let len = self.disk.lock().unwrap_or_else(|e| e.into_inner()).len;
        let target = match from {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => len.checked_add_signed(d),
        };
        match target {
            // A file refuses positions that do not fit into a signed 64-bit number.
            Some(p) if p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}
