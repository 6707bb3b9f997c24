//! A scenario: everything one simulated execution consists of, and its execution.

use crate::alloc;
use crate::disk::{Disk, Fault, Plan, Tape, Trace, Yield, KINDS};
use crate::dump::Toks;
use crate::refm::Kind;
use crate::tables::{self, Dir, Value, T};

use opentype::{File, Font};

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{BufReader, ErrorKind, Read, Result, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Open the file from its start: as a file, or as a font.
    Open(bool),
    Exists(T),
    Position(T),
    Take(T),
    /// Read something at a position.
    ReadAt(u64, Kind),
    /// Read something from where the stream is.
    ReadNext(Kind),
    /// Leave the stream elsewhere.
    Seek(u64),
    /// The stored bytes change.
    Patch(usize, u64, Vec<u8>),
    /// The file is cut or extended.
    SetLen(usize, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub client: usize,
    pub op: Op,
    pub plan: Plan,
    /// Do not walk what is returned.
    pub blind: bool,
}
impl Step {
    pub fn new(client: usize, op: Op) -> Self {
        Step { client, op, plan: Plan::default(), blind: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Client {
    pub disk: usize,
    /// The capacity of the buffer in front of the stream; none if zero.
    pub buffer: u32,
    /// Use the font that another client opened.
    pub shares: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub disks: Vec<Disk>,
    pub clients: Vec<Client>,
    pub steps: Vec<Step>,
    /// Each client runs in a thread of its own.
    pub threads: bool,
    /// Who runs, and for how many stream calls. Afterwards, each runs to its end in turn.
    pub slices: Vec<(u8, u16)>,
    /// What the operating system gives when asked for randomness.
    pub aux: Vec<u64>,
}

impl Scenario {
    pub fn new(prop: &str) -> Self {
        Scenario {
            prop: prop.into(),
            disks: vec![],
            clients: vec![],
            steps: vec![],
            threads: false,
            slices: vec![],
            aux: vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// A change of the environment.
    Done,
    /// There is no font to ask, or nothing to ask with.
    Skipped,
    Bool(bool),
    /// Opened, with the number of fonts.
    Opened(usize),
    /// Positioned, if the table is there.
    At(bool),
    Absent,
    Val(Toks),
    /// A value that was not walked.
    Some,
    /// The kinds are those of the error and what it wraps.
    Err(Vec<ErrorKind>, String),
    Panic(String),
}
impl Res {
    pub fn class(&self) -> &'static str {
        match self {
            Res::Done => "done",
            Res::Skipped => "skipped",
            Res::Bool(true) => "true",
            Res::Bool(false) => "false",
            Res::Opened(_) => "opened",
            Res::At(true) => "at",
            Res::At(false) => "nowhere",
            Res::Absent => "absent",
            Res::Val(_) => "value",
            Res::Some => "some",
            Res::Err(..) => "error",
            Res::Panic(_) => "panic",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Res::Val(v) => {
                let head: Vec<String> = v.iter().take(12).map(|(l, n)| format!("{l}={n}")).collect();
                format!("a value of {} parts ({}{})", v.len(), head.join(" "), if v.len() > 12 { " ..." } else { "" })
            }
            Res::Err(k, m) => format!("an error ({:?}: {m})", k.first()),
            Res::Panic(m) => format!("a panic ({m})"),
            r => r.class().to_string(),
        }
    }
}

/// A result in one line, complete but for what it is made of.
pub fn brief(r: &Res) -> String {
    match r {
        Res::Val(v) => {
            let mut h = crate::rng::Hash::new();
            for (l, n) in v {
                h.str(l);
                h.add(*n as u64);
            }
            format!("value {} {:016x}", v.len(), h.0)
        }
        Res::Err(k, m) => format!("error {k:?} {}", m.replace('\n', " ")),
        Res::Panic(m) => format!("panic {}", m.replace('\n', " ")),
        r => r.class().to_string(),
    }
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub res: Res,
    pub trace: Trace,
    /// Where the stream is before and after, if it can be told.
    pub before: u64,
    pub pos: u64,
    pub peak: u64,
    /// Edges of the control flow taken, where they are counted.
    pub work: u64,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn hook_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let text = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            MESSAGE.with(|m| *m.borrow_mut() = format!("{text} at {at}"));
        } else {
            old(info);
        }
    }));
}
/// Run something that may panic.
pub fn quietly<V, F: FnOnce() -> V>(f: F) -> std::result::Result<V, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| MESSAGE.with(|m| m.borrow().clone()))
}

pub enum Stream {
    Plain(Tape),
    Buffered(BufReader<Tape>),
}
impl Stream {
    pub fn new(tape: Tape, buffer: u32) -> Self {
        if buffer == 0 {
            Stream::Plain(tape)
        } else {
            Stream::Buffered(BufReader::with_capacity(buffer as usize, tape))
        }
    }
    fn tape(&mut self) -> &mut Tape {
        match self {
            Stream::Plain(t) => t,
            Stream::Buffered(b) => b.get_mut(),
        }
    }
    /// Without any faults and without being seen.
    fn quietly_seek(&mut self, pos: u64) {
        self.tape().begin(&Plan::default(), false);
        let hook = self.tape().hook.take();
        let _ = self.seek(SeekFrom::Start(pos));
        self.tape().hook = hook;
    }
    fn forget(&mut self) {
        if let Stream::Buffered(_) = self {
            let pos = self.quietly_tell();
            if pos <= i64::MAX as u64 {
                self.quietly_seek(pos);
            }
        }
    }
    fn quietly_tell(&mut self) -> u64 {
        let hook = self.tape().hook.take();
        let trace = std::mem::take(&mut self.tape().trace);
        let plan = std::mem::take(&mut self.tape().plan);
        let r = self.stream_position().unwrap_or(u64::MAX);
        self.tape().trace = trace;
        self.tape().plan = plan;
        self.tape().hook = hook;
        r
    }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        match self {
            Stream::Plain(t) => t.read(b),
            Stream::Buffered(t) => t.read(b),
        }
    }
}
impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        match self {
            Stream::Plain(t) => t.seek(p),
            Stream::Buffered(t) => t.seek(p),
        }
    }
    fn stream_position(&mut self) -> Result<u64> {
        match self {
            Stream::Plain(t) => t.stream_position(),
            Stream::Buffered(t) => t.stream_position(),
        }
    }
}

/// The kinds of an error and of everything it wraps.
fn kinds(e: &std::io::Error) -> Vec<ErrorKind> {
    let mut v = vec![e.kind()];
    let mut next: Option<&(dyn std::error::Error + 'static)> = e.get_ref().map(|x| x as _);
    let mut depth = 0;
    while let Some(x) = next {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            v.push(io.kind());
            next = io.get_ref().map(|x| x as _);
        } else {
            next = x.source();
        }
        depth += 1;
        if depth > 20 {
            break;
        }
    }
    v
}

struct Owned {
    font: Option<Font>,
    dir: Option<Dir>,
}

/// One client at work. The font is its own or that of another.
fn perform(
    step: &Step,
    stream: &mut Stream,
    font: Option<&Font>,
    dir: Option<&Dir>,
    disk: &Arc<Mutex<Disk>>,
    record: bool,
) -> (Obs, Option<Owned>) {
    let mut opened = None;
    // What the request needs is read aside.
    let mut given = None;
    match step.op {
        Op::Take(t) => {
            let aside = disk.clone();
            given = match dir {
                Some(dir) if !t.needs().is_empty() => quietly(|| tables::given(t, &mut Tape::new(aside), dir)).ok().flatten(),
                _ if t.needs().is_empty() => Some(Default::default()),
                _ => None,
            };
        }
        Op::Open(_) => stream.quietly_seek(0),
        Op::ReadAt(p, _) | Op::Seek(p) => stream.quietly_seek(p),
        _ => {}
    }
    let before = stream.quietly_tell();
    stream.tape().begin(&step.plan, record);
    alloc::begin();
    crate::work::set(0);
    let result = quietly(|| -> Result<std::result::Result<Value, Res>> {
        Ok(match &step.op {
            Op::Open(whole) => {
                let dir = Dir::parse(&disk.lock().unwrap_or_else(|e| e.into_inner()));
                let font = if *whole {
                    let mut file = File::read(stream)?;
                    let n = file.fonts.len();
                    if n == 0 {
                        return Ok(Err(Res::Opened(0)));
                    }
                    if n > 1 {
                        return Ok(Err(Res::Opened(n)));
                    }
                    file.fonts.remove(0)
                } else {
                    Font::read(stream)?
                };
                opened = Some(Owned { font: Some(font), dir });
                Err(Res::Opened(1))
            }
            Op::Exists(t) => match font {
                Some(font) => Err(Res::Bool(tables::exists(font, *t))),
                None => Err(Res::Skipped),
            },
            Op::Position(t) => match font {
                Some(font) => Err(Res::At(tables::position(font, *t, stream)?.is_some())),
                None => Err(Res::Skipped),
            },
            Op::Take(t) => match (font, &given) {
                (Some(font), Some(given)) => match tables::take(font, *t, stream, given)? {
                    Some(v) => Ok(v),
                    None => Err(Res::Absent),
                },
                _ => Err(Res::Skipped),
            },
            Op::ReadAt(_, kind) | Op::ReadNext(kind) => Ok(tables::read_kind(*kind, stream)?),
            _ => Err(Res::Done),
        })
    });
    let work = crate::work::get();
    let peak = alloc::peak();
    let trace = std::mem::take(&mut stream.tape().trace);
    let pos = stream.quietly_tell();
    let res = match result {
        Err(_) if trace.fired.iter().any(|f| f.1 == Fault::Die) => {
            Res::Err(vec![ErrorKind::Other], "the client was killed".into())
        }
        Err(message) => Res::Panic(message),
        Ok(Err(e)) => Res::Err(kinds(&e), e.to_string()),
        Ok(Ok(Err(res))) => res,
        Ok(Ok(Ok(value))) => {
            if step.blind {
                Res::Some
            } else {
                match quietly(|| value.dump()) {
                    Ok(v) => Res::Val(v),
                    Err(m) => Res::Panic(format!("while walking what was returned: {m}")),
                }
            }
        }
    };
    (Obs { res, trace, before, pos, peak, work }, opened)
}

/// How many calls a stream endures.
pub fn runaway() -> u64 {
    crate::disk::RUNAWAY.load(std::sync::atomic::Ordering::Relaxed)
}

fn environment(step: &Step, disks: &[Arc<Mutex<Disk>>]) -> Option<Obs> {
    match &step.op {
        Op::Patch(d, p, b) => disks[*d].lock().unwrap_or_else(|e| e.into_inner()).write(*p, b),
        Op::SetLen(d, n) => disks[*d].lock().unwrap_or_else(|e| e.into_inner()).len = *n,
        _ => return None,
    }
    Some(Obs { res: Res::Done, trace: Trace::default(), before: 0, pos: 0, peak: 0, work: 0 })
}

/// Execute a scenario, in a thread that has done nothing before, with the randomness it prescribes.
pub fn run(s: &Scenario) -> Vec<Obs> {
    crate::entropy::set(s.aux.first().copied().unwrap_or(0));
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(scope, || run_here(s))
            .unwrap()
            .join()
            .unwrap()
    })
}

pub fn run_here(s: &Scenario) -> Vec<Obs> {
    let record = false;
    let disks: Vec<Arc<Mutex<Disk>>> = s.disks.iter().map(|d| Arc::new(Mutex::new(d.clone()))).collect();
    if s.threads {
        return run_threads(s, &disks);
    }
    let mut streams: Vec<Stream> =
        s.clients.iter().map(|c| Stream::new(Tape::new(disks[c.disk].clone()), c.buffer)).collect();
    let mut fonts: Vec<Owned> = s.clients.iter().map(|_| Owned { font: None, dir: None }).collect();
    let mut all = vec![];
    for step in &s.steps {
        if let Some(o) = environment(step, &disks) {
            // What a buffer in front of the stream still holds is the buffer's affair.
            for stream in streams.iter_mut() {
                stream.forget();
            }
            all.push(o);
            continue;
        }
        let c = step.client;
        let owner = s.clients[c].shares.unwrap_or(c);
        let disk = &disks[s.clients[c].disk];
        let (o, opened) =
            perform(step, &mut streams[c], fonts[owner].font.as_ref(), fonts[owner].dir.as_ref(), disk, record);
        if let Some(opened) = opened {
            fonts[c] = opened;
        }
        all.push(o);
    }
    all
}

// Threads, one of which runs at a time, as the scenario says.

struct Turn {
    current: usize,
    left: u32,
    next: usize,
    alive: Vec<bool>,
    switches: u64,
}
struct Scheduler {
    turn: Mutex<Turn>,
    wake: Condvar,
    slices: Vec<(u8, u16)>,
}
impl Scheduler {
    fn advance(&self, t: &mut Turn) {
        let n = t.alive.len();
        loop {
            if t.next < self.slices.len() {
                let (c, k) = self.slices[t.next];
                t.next += 1;
                let c = c as usize % n;
                if t.alive[c] && k > 0 {
                    if t.current != c {
                        t.switches += 1;
                    }
                    t.current = c;
                    t.left = k as u32;
                    return;
                }
            } else {
                if let Some(c) = (0..n).find(|c| t.alive[*c]) {
                    t.current = c;
                    t.left = u32::MAX;
                }
                return;
            }
        }
    }
    /// Before every stream call of a client.
    fn point(&self, me: usize) {
        let mut t = self.turn.lock().unwrap_or_else(|e| e.into_inner());
        while t.current != me {
            t = self.wake.wait(t).unwrap_or_else(|e| e.into_inner());
        }
        if t.left == 0 {
            self.advance(&mut t);
            if t.current != me {
                self.wake.notify_all();
                while t.current != me {
                    t = self.wake.wait(t).unwrap_or_else(|e| e.into_inner());
                }
            }
        }
        t.left = t.left.saturating_sub(1);
    }
    fn leave(&self, me: usize) {
        let mut t = self.turn.lock().unwrap_or_else(|e| e.into_inner());
        while t.current != me {
            t = self.wake.wait(t).unwrap_or_else(|e| e.into_inner());
        }
        t.alive[me] = false;
        self.advance(&mut t);
        self.wake.notify_all();
    }
}

// Whether a font may be shared by threads is the library's choice, and nothing here depends on it.
struct Probe<V>(std::marker::PhantomData<V>);
trait Fallback {
    fn shareable(&self) -> bool {
        false
    }
}
impl<V> Fallback for &Probe<V> {}
impl<V: Sync> Probe<V> {
    fn shareable(&self) -> bool {
        true
    }
}
#[derive(Clone, Copy)]
struct Force<V>(V);
// Only used if the probe has shown that the font is `Sync`.
unsafe impl<V> Send for Force<V> {}
unsafe impl<V> Sync for Force<V> {}
impl<V: Copy> Force<V> {
    fn get(&self) -> V {
        self.0
    }
}

fn run_threads(s: &Scenario, disks: &[Arc<Mutex<Disk>>]) -> Vec<Obs> {
    let n = s.clients.len();
    let shareable = {
        let p = Probe::<Font>(std::marker::PhantomData);
        #[allow(clippy::needless_borrow)]
        (&p).shareable()
    };
    let mut results: BTreeMap<usize, Obs> = BTreeMap::new();
    // The steps at the beginning that open fonts are taken before the threads start.
    let mut fonts: Vec<Owned> = s.clients.iter().map(|_| Owned { font: None, dir: None }).collect();
    let mut first = 0;
    while first < s.steps.len() {
        let step = &s.steps[first];
        if let Some(o) = environment(step, disks) {
            results.insert(first, o);
        } else if matches!(step.op, Op::Open(_)) {
            let c = step.client;
            let disk = &disks[s.clients[c].disk];
            let mut stream = Stream::new(Tape::new(disk.clone()), s.clients[c].buffer);
            let (o, opened) = perform(step, &mut stream, None, None, disk, false);
            if let Some(opened) = opened {
                fonts[c] = opened;
            }
            results.insert(first, o);
        } else {
            break;
        }
        first += 1;
    }
    let scheduler = Arc::new(Scheduler {
        turn: Mutex::new(Turn { current: 0, left: 0, next: 0, alive: vec![true; n], switches: 0 }),
        wake: Condvar::new(),
        slices: s.slices.clone(),
    });
    scheduler.advance(&mut scheduler.turn.lock().unwrap());
    let collected: Mutex<Vec<(usize, Obs)>> = Mutex::new(vec![]);
    std::thread::scope(|scope| {
        for c in 0..n {
            let owner = s.clients[c].shares.unwrap_or(c);
            let dir = fonts[owner].dir.clone();
            let font = Force(fonts[owner].font.as_ref());
            let scheduler = scheduler.clone();
            let collected = &collected;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let disk = &disks[s.clients[c].disk];
                    let mut tape = Tape::new(disk.clone());
                    // A font that may not be shared is opened again.
                    let mut own = None;
                    let mut font = if shareable { font.get() } else { None };
                    if !shareable {
                        own = quietly(|| Font::read(&mut Tape::new(disk.clone())).ok()).ok().flatten();
                    }
                    if font.is_none() {
                        font = own.as_ref();
                    }
                    let hook: Yield = {
                        let scheduler = scheduler.clone();
                        Arc::new(move || scheduler.point(c))
                    };
                    tape.hook = Some(hook);
                    let mut stream = Stream::new(tape, s.clients[c].buffer);
                    for (i, step) in s.steps.iter().enumerate().skip(first) {
                        if step.client != c || matches!(step.op, Op::Patch(..) | Op::SetLen(..) | Op::Open(_)) {
                            continue;
                        }
                        // Each request waits for its turn even if it makes no stream call.
                        scheduler.point(c);
                        let (o, _) = perform(step, &mut stream, font, dir.as_ref(), disk, false);
                        collected.lock().unwrap().push((i, o));
                    }
                    scheduler.leave(c);
                })
                .unwrap();
        }
    });
    results.extend(collected.into_inner().unwrap());
    (0..s.steps.len())
        .map(|i| {
            results.remove(&i).unwrap_or(Obs {
                res: Res::Skipped,
                trace: Trace::default(),
                before: 0,
                pos: 0,
                peak: 0,
                work: 0,
            })
        })
        .collect()
}

// Text.

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

pub fn kind_text(k: &Kind) -> String {
    use Kind::*;
    let p: Vec<u64> = match *k {
        GsubType(t) | GposType(t) => vec![t as u64],
        Bases(n) | LigatureArray(n) | Mark2s(n) => vec![n as u64],
        Pair1s(a, b) => vec![a as u64, b as u64],
        Single(p, f) => vec![p, f as u64],
        Mark1(p) | Connection(p) => vec![p],
        Mark2(p, n) | Base(p, n) | Component(p, n) => vec![p, n as u64],
        Pair1(p, a, b) | Pair2(p, a, b) => vec![p, a as u64, b as u64],
        Pair2s(p, n, a, b) => vec![p, n as u64, a as u64, b as u64],
        _ => vec![],
    };
    let mut s = k.name().to_string();
    for v in p {
        s += &format!(",{v}");
    }
    s
}
pub fn kind_parse(s: &str) -> Option<Kind> {
    use Kind::*;
    let mut it = s.split(',');
    let name = it.next()?;
    let p: Vec<u64> = it.map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let w = |i: usize| p.get(i).map(|v| *v as u16);
    for k in [Gsub, Gpos, Gdef, Cpal, Fvar, Scripts, Features, GsubLookups, GposLookups, Coverage, Class, Correction, Context, Chained, Store, Attachments, Carets, MarkSets, Anchor, MarkArray] {
        if k.name() == name {
            return Some(k);
        }
    }
    Some(match name {
        "gsub_type" => GsubType(w(0)?),
        "gpos_type" => GposType(w(0)?),
        "bases" => Bases(w(0)?),
        "ligature_array" => LigatureArray(w(0)?),
        "mark2s" => Mark2s(w(0)?),
        "pair1s" => Pair1s(w(0)?, w(1)?),
        "single" => Single(*p.first()?, w(1)?),
        "mark1" => Mark1(*p.first()?),
        "connection" => Connection(*p.first()?),
        "mark2" => Mark2(*p.first()?, w(1)?),
        "base" => Base(*p.first()?, w(1)?),
        "component" => Component(*p.first()?, w(1)?),
        "pair1" => Pair1(*p.first()?, w(1)?, w(2)?),
        "pair2" => Pair2(*p.first()?, w(1)?, w(2)?),
        "pair2s" => Pair2s(*p.first()?, w(1)?, w(2)?, w(3)?),
        _ => return None,
    })
}
fn table_parse(s: &str) -> Option<T> {
    tables::ALL.iter().copied().find(|t| t.label() == s)
}

pub fn op_text(o: &Op) -> String {
    match o {
        Op::Open(w) => format!("open {}", if *w { "file" } else { "font" }),
        Op::Exists(t) => format!("exists {}", t.label()),
        Op::Position(t) => format!("position {}", t.label()),
        Op::Take(t) => format!("take {}", t.label()),
        Op::ReadAt(p, k) => format!("read_at {p} {}", kind_text(k)),
        Op::ReadNext(k) => format!("read_next {}", kind_text(k)),
        Op::Seek(p) => format!("seek {p}"),
        Op::Patch(d, p, b) => format!("patch {d} {p} {}", hex(b)),
        Op::SetLen(d, n) => format!("set_len {d} {n}"),
    }
}
fn op_parse(w: &[&str]) -> Option<Op> {
    Some(match (*w.first()?, w.len()) {
        ("open", 2) => Op::Open(w[1] == "file"),
        ("exists", 2) => Op::Exists(table_parse(w[1])?),
        ("position", 2) => Op::Position(table_parse(w[1])?),
        ("take", 2) => Op::Take(table_parse(w[1])?),
        ("read_at", 3) => Op::ReadAt(w[1].parse().ok()?, kind_parse(w[2])?),
        ("read_next", 2) => Op::ReadNext(kind_parse(w[1])?),
        ("seek", 2) => Op::Seek(w[1].parse().ok()?),
        ("patch", 4) => Op::Patch(w[1].parse().ok()?, w[2].parse().ok()?, unhex(w[3])?),
        ("set_len", 3) => Op::SetLen(w[1].parse().ok()?, w[2].parse().ok()?),
        _ => return None,
    })
}
pub fn fault_text(f: &Fault) -> String {
    match f {
        Fault::Short(n) => format!("short={n}"),
        Fault::Intr => "intr".into(),
        Fault::Eof => "eof".into(),
        Fault::Die => "die".into(),
        Fault::Fail(k) => format!("fail={}", KINDS[*k as usize].0),
    }
}
fn fault_parse(s: &str) -> Option<Fault> {
    if let Some(n) = s.strip_prefix("short=") {
        return Some(Fault::Short(n.parse().ok()?));
    }
    if let Some(n) = s.strip_prefix("fail=") {
        return Some(Fault::Fail(KINDS.iter().position(|k| k.0 == n)? as u8));
    }
    match s {
        "intr" => Some(Fault::Intr),
        "eof" => Some(Fault::Eof),
        "die" => Some(Fault::Die),
        _ => None,
    }
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = format!("property {}\n", self.prop);
        for d in &self.disks {
            s += &format!("disk {}\n", d.len);
            for (p, b) in &d.segs {
                s += &format!("seg {p} {}\n", hex(b));
            }
        }
        for c in &self.clients {
            s += &format!("client {} {} {}\n", c.disk, c.buffer, c.shares.map(|x| x.to_string()).unwrap_or("-".into()));
        }
        if self.threads {
            s += "threads\n";
        }
        for (c, k) in &self.slices {
            s += &format!("slice {c} {k}\n");
        }
        if !self.aux.is_empty() {
            let v: Vec<String> = self.aux.iter().map(|x| x.to_string()).collect();
            s += &format!("aux {}\n", v.join(" "));
        }
        for t in &self.steps {
            s += &format!("step {} {}", t.client, op_text(&t.op));
            if t.plan.chunk > 0 {
                s += &format!(" | chunk {}", t.plan.chunk);
            }
            if t.plan.intr > 0 {
                s += &format!(" | intr {}", t.plan.intr);
            }
            if t.blind {
                s += " | blind";
            }
            for (i, f) in &t.plan.events {
                s += &format!(" | at {i} {}", fault_text(f));
            }
            s += "\n";
        }
        s
    }
    pub fn parse(text: &str) -> Option<Scenario> {
        let mut s = Scenario::new("");
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first().copied() {
                Some("property") => s.prop = w.get(1)?.to_string(),
                Some("disk") => s.disks.push(Disk { segs: vec![], len: w.get(1)?.parse().ok()? }),
                Some("seg") => {
                    let d = s.disks.last_mut()?;
                    d.segs.push((w.get(1)?.parse().ok()?, unhex(w.get(2)?)?));
                }
                Some("client") => s.clients.push(Client {
                    disk: w.get(1)?.parse().ok()?,
                    buffer: w.get(2)?.parse().ok()?,
                    shares: w.get(3).and_then(|x| x.parse().ok()),
                }),
                Some("threads") => s.threads = true,
                Some("slice") => s.slices.push((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?)),
                Some("aux") => s.aux = w[1..].iter().map(|x| x.parse().ok()).collect::<Option<_>>()?,
                Some("step") => {
                    let mut parts = line.split(" | ");
                    let head: Vec<&str> = parts.next()?.split_whitespace().collect();
                    let mut step = Step::new(head.get(1)?.parse().ok()?, op_parse(&head[2..])?);
                    for p in parts {
                        let w: Vec<&str> = p.split_whitespace().collect();
                        match *w.first()? {
                            "chunk" => step.plan.chunk = w.get(1)?.parse().ok()?,
                            "intr" => step.plan.intr = w.get(1)?.parse().ok()?,
                            "blind" => step.blind = true,
                            "at" => step.plan.events.push((w.get(1)?.parse().ok()?, fault_parse(w.get(2)?)?)),
                            _ => return None,
                        }
                    }
                    s.steps.push(step);
                }
                _ => {}
            }
        }
        let n = s.clients.len();
        if s.clients.iter().any(|c| c.disk >= s.disks.len() || c.shares.map_or(false, |x| x >= n)) {
            return None;
        }
        for t in &s.steps {
            let d = match t.op {
                Op::Patch(d, ..) | Op::SetLen(d, _) => d,
                _ => 0,
            };
            if t.client >= n || d >= s.disks.len() {
                return None;
            }
        }
        Some(s)
    }
}
