//! What each request of a scenario must return, followed along with the stored bytes.

use crate::disk::{fault_kind, Disk, Fault};
use crate::dump::Toks;
use crate::refm::{self, Cfg, Kind};
use crate::scen::{Client, Obs, Op, Res, Scenario, Step};
use crate::tables::{self, Dir, Exp, Sum, T};

use std::collections::BTreeSet;
use std::io::ErrorKind;
use std::rc::Rc;

/// The switches this program was compiled with.
pub const CFG: Cfg = Cfg {
    dirs: cfg!(feature = "ignore-incomplete-directories"),
    marks: cfg!(feature = "ignore-incomplete-marks"),
    sums: cfg!(feature = "ignore-invalid-checksums"),
};

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Done,
    Opened,
    Err(&'static str),
    Bool(bool),
    At(bool),
    AtOrErr,
    Absent,
    Val(Rc<Toks>),
    ValOrErr(Rc<Toks>),
    /// Nothing can be said.
    Any,
}

/// What the reference says besides the value.
#[derive(Clone, Default)]
pub struct Notes {
    pub units: u64,
    pub end: u64,
    pub exact: bool,
    /// The bytes end, and nothing else is wrong.
    pub cut: bool,
    pub malformed: bool,
    pub vague: bool,
    pub budget: bool,
    pub zero_width: u64,
    pub idle: u64,
    pub null_lists: u64,
    pub null_marks: u64,
    pub bad_sum: bool,
    pub size: u64,
}

pub struct At<'a> {
    pub i: usize,
    pub step: &'a Step,
    pub obs: &'a Obs,
    pub disk: &'a Rc<Disk>,
    pub disks: &'a [Rc<Disk>],
    pub dir: Option<&'a Dir>,
    pub at_open: Option<&'a Rc<Disk>>,
    /// What happened to the disk after the font was opened.
    pub since: &'a [Op],
    pub disk_index: usize,
}

#[derive(Clone)]
struct Opened {
    dir: Dir,
    disk: Rc<Disk>,
    since: Vec<Op>,
    version: u64,
}

pub struct Model<'a> {
    s: &'a Scenario,
    memo: Vec<((u64, u64, Op), (Want, Notes))>,
    pub reach: BTreeSet<&'static str>,
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Scenario) -> Self {
        Model { s, memo: vec![], reach: BTreeSet::new() }
    }

    /// Visit all steps with what is stored at the time.
    pub fn walk<V, F: FnMut(&mut Self, &At, (u64, u64)) -> Option<V>>(&mut self, obs: &[Obs], mut f: F) -> Option<V> {
        let s = self.s;
        let mut disks: Vec<Rc<Disk>> = s.disks.iter().map(|d| Rc::new(d.clone())).collect();
        let mut versions: Vec<u64> = (0..disks.len() as u64).collect();
        let mut next = disks.len() as u64;
        let mut fonts: Vec<Option<Opened>> = vec![None; s.clients.len()];
        for (i, (step, o)) in s.steps.iter().zip(obs).enumerate() {
            match &step.op {
                Op::Patch(d, p, b) => {
                    if o.res != Res::Done {
                        continue;
                    }
                    Rc::make_mut(&mut disks[*d]).write(*p, b);
                    versions[*d] = next;
                    next += 1;
                    for (c, font) in fonts.iter_mut().enumerate() {
                        if s.clients[c].disk == *d {
                            if let Some(font) = font {
                                font.since.push(step.op.clone());
                            }
                        }
                    }
                    continue;
                }
                Op::SetLen(d, n) => {
                    if o.res != Res::Done {
                        continue;
                    }
                    Rc::make_mut(&mut disks[*d]).len = *n;
                    versions[*d] = next;
                    next += 1;
                    for (c, font) in fonts.iter_mut().enumerate() {
                        if s.clients[c].disk == *d {
                            if let Some(font) = font {
                                font.since.push(step.op.clone());
                            }
                        }
                    }
                    continue;
                }
                _ => {}
            }
            let c = step.client;
            let d = s.clients[c].disk;
            let owner = s.clients[c].shares.unwrap_or(c);
            let font = fonts[owner].clone();
            // A font over another medium means nothing here.
            let same = s.clients[owner].disk == d;
            let at = At {
                i,
                step,
                obs: o,
                disk: &disks[d],
                disks: &disks,
                dir: font.as_ref().filter(|_| same).map(|f| &f.dir),
                at_open: font.as_ref().map(|f| &f.disk),
                since: font.as_ref().map(|f| f.since.as_slice()).unwrap_or(&[]),
                disk_index: d,
            };
            let key = (versions[d], font.as_ref().map(|f| f.version).unwrap_or(u64::MAX));
            if let Some(v) = f(self, &at, key) {
                return Some(v);
            }
            if let (Op::Open(_), Res::Opened(1)) = (&step.op, &o.res) {
                fonts[c] = Dir::parse(&disks[d]).map(|dir| Opened {
                    dir,
                    disk: disks[d].clone(),
                    since: vec![],
                    version: versions[d],
                });
            }
        }
        None
    }

    pub fn want(&mut self, at: &At, key: (u64, u64)) -> (Want, Notes) {
        let mut op = at.step.op.clone();
        if let Op::ReadNext(k) = op {
            if at.obs.before > i64::MAX as u64 {
                return (Want::Any, Notes::default());
            }
            op = Op::ReadAt(at.obs.before, k);
        }
        let key = (key.0, key.1, op.clone());
        if let Some((_, v)) = self.memo.iter().find(|m| m.0 == key) {
            return v.clone();
        }
        let v = want(at.dir, at.disk, &op, CFG, Some(&self.s.disks[at.disk_index]), &mut self.reach);
        self.memo.push((key, v.clone()));
        v
    }
}

fn noted(o: &refm::Outcome) -> Notes {
    Notes {
        units: o.units,
        end: o.end,
        exact: o.result.is_ok() && !o.vague,
        cut: matches!(o.result, Err(refm::Bad::Eof)) && !o.vague && !o.malformed,
        malformed: o.malformed,
        vague: o.vague,
        budget: matches!(o.result, Err(refm::Bad::Budget)),
        zero_width: o.zero_width,
        idle: o.idle,
        null_lists: o.null_lists,
        null_marks: o.null_marks,
        bad_sum: false,
        size: 0,
    }
}

fn from(e: Exp) -> Want {
    match e {
        Exp::Absent => Want::Absent,
        Exp::Val(v) => Want::Val(Rc::new(v)),
        Exp::Err(w) => Want::Err(w),
        Exp::ValOrErr(v) => Want::ValOrErr(Rc::new(v)),
        Exp::Any => Want::Any,
    }
}

pub fn want(
    dir: Option<&Dir>,
    disk: &Disk,
    op: &Op,
    cfg: Cfg,
    original: Option<&Disk>,
    reach: &mut BTreeSet<&'static str>,
) -> (Want, Notes) {
    let mut n = Notes::default();
    let w = match op {
        Op::Open(_) => {
            if Dir::parse(disk).is_some() {
                Want::Opened
            } else {
                n.cut = cut_open(disk);
                Want::Err("the signature is not supported or the directory is cut short")
            }
        }
        Op::Exists(t) => match dir {
            Some(dir) => Want::Bool(dir.find(*t).is_some()),
            None => Want::Any,
        },
        Op::Position(t) => match dir {
            Some(dir) => match dir.find(*t) {
                None => Want::At(false),
                Some(e) => {
                    n.size = e.size as u64;
                    if cfg.sums {
                        Want::At(true)
                    } else {
                        match tables::checksum(disk, e) {
                            Sum::Match => Want::At(true),
                            Sum::Mismatch => {
                                n.bad_sum = true;
                                Want::Err("the checksum does not match")
                            }
                            Sum::Cut => {
                                n.cut = countable(e);
                                Want::Err("the table is cut short")
                            }
                            Sum::Padding => Want::AtOrErr,
                            Sum::Huge => huge(disk, e),
                        }
                    }
                }
            },
            None => Want::Any,
        },
        Op::Take(t) => match dir {
            Some(dir) => take(dir, disk, *t, cfg, original, &mut n, reach),
            None => Want::Any,
        },
        Op::ReadAt(p, k) => {
            let o = refm::decode(disk, *p, *k, cfg);
            n = noted(&o);
            reach.extend(o.reach.iter());
            from(tables::from_outcome(&o))
        }
        Op::ReadNext(_) => Want::Any,
        Op::Seek(_) | Op::Patch(..) | Op::SetLen(..) => Want::Done,
    };
    (w, n)
}

fn cut_open(disk: &Disk) -> bool {
    // Certainly a matter of the end: a supported signature, and not enough behind it.
    match disk.get(0, 4) {
        None => true,
        Some(h) => [&[0, 1, 0, 0][..], b"OTTO", b"true", b"typ1"].contains(&&h[..]),
    }
}

/// Whether the size can be rounded up to whole words.
fn countable(e: &tables::Entry) -> bool {
    e.size < u32::MAX - 3
}
fn huge(disk: &Disk, e: &tables::Entry) -> Want {
    if e.offset as u64 + e.size as u64 > disk.len {
        Want::Err("the table is cut short")
    } else {
        Want::Any
    }
}

fn take(
    dir: &Dir,
    disk: &Disk,
    t: T,
    cfg: Cfg,
    original: Option<&Disk>,
    n: &mut Notes,
    reach: &mut BTreeSet<&'static str>,
) -> Want {
    let Some(e) = dir.find(t) else { return Want::Absent };
    let mut maybe = false;
    let summed = tables::checksum(disk, e);
    let bad_sum = summed == Sum::Mismatch;
    if !cfg.sums {
        match summed {
            Sum::Huge => {
                n.cut = e.offset as u64 + e.size as u64 > disk.len && countable(e);
                n.size = e.size as u64;
                n.budget = true;
                return huge(disk, e);
            }
            Sum::Mismatch => {
                n.bad_sum = true;
                n.size = e.size as u64;
                return Want::Err("the checksum does not match");
            }
            Sum::Cut => {
                n.cut = countable(e);
                n.size = e.size as u64;
                return Want::Err("the table is cut short");
            }
            Sum::Padding => maybe = true,
            _ => {}
        }
    }
    let w = match t.own() {
        Some(kind) => {
            let o = refm::decode(disk, e.offset as u64, kind, cfg);
            *n = noted(&o);
            reach.extend(o.reach.iter());
            reach.insert(t.label());
            from(tables::from_outcome(&o))
        }
        // The dependencies are not meant for tables with arbitrary damage.
        None if original.map_or(false, |o| changed(dir, o, disk, t)) => {
            n.budget = true;
            return Want::Any;
        }
        None => {
            reach.insert(t.label());
            from(tables::expect_at(dir, disk, e.offset as u64, t, cfg))
        }
    };
    n.size = e.size as u64;
    n.bad_sum = bad_sum;
    match w {
        Want::Val(v) if maybe => Want::ValOrErr(v),
        w => w,
    }
}

/// How what was observed differs from what must be.
pub fn differs(want: &Want, res: &Res) -> Option<(&'static str, String)> {
    let no = |class, what: String| Some((class, format!("{what}, but returned {}", res.show())));
    match (want, res) {
        (_, Res::Skipped) => None,
        (_, Res::Panic(_)) => no("panic", "must not panic".into()),
        (Want::Any, _) | (Want::Done, _) => None,
        (Want::Opened, Res::Opened(1)) => None,
        (Want::Opened, Res::Err(..)) => no("error", "must open".into()),
        (Want::Opened, _) => no("fonts", "must have one font".into()),
        (Want::Err(_), Res::Err(..)) => None,
        (Want::Err(w), _) => no("no-error", format!("must fail as {w}")),
        (Want::Bool(a), Res::Bool(b)) if a == b => None,
        (Want::Bool(a), _) => no("exists", format!("must be {a}")),
        (Want::At(a), Res::At(b)) if a == b => None,
        (Want::At(true), Res::Err(..)) => no("error", "must be found".into()),
        (Want::At(a), _) => no("position", format!("must be {}", if *a { "found" } else { "reported as absent" })),
        (Want::AtOrErr, Res::At(true) | Res::Err(..)) => None,
        (Want::AtOrErr, _) => no("position", "must be found or fail".into()),
        (Want::Absent, Res::Absent) => None,
        (Want::Absent, _) => no("presence", "must be reported as absent".into()),
        (Want::Val(_) | Want::ValOrErr(_), Res::Some) => None,
        (Want::ValOrErr(_), Res::Err(..)) => None,
        (Want::Val(a) | Want::ValOrErr(a), Res::Val(b)) => {
            if **a == *b {
                return None;
            }
            let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let show = |v: &Toks| v.get(k).map(|(l, n)| format!("{l}={n}")).unwrap_or("nothing".into());
            Some((
                "value",
                format!(
                    "must return {} at part {k} of {}, but returned {} at part {k} of {}",
                    show(a),
                    a.len(),
                    show(b),
                    b.len()
                ),
            ))
        }
        (Want::Val(_), Res::Err(..)) => no("error", "must return a value".into()),
        (Want::Val(_) | Want::ValOrErr(_), Res::Absent) => no("presence", "must return a value".into()),
        (Want::Val(_) | Want::ValOrErr(_), _) => no("shape", "must return a value".into()),
    }
}

pub fn hard_fired(o: &Obs) -> Vec<(u32, Fault)> {
    o.trace.fired.iter().filter(|f| f.1.hard()).copied().collect()
}
pub fn fired_kinds(o: &Obs) -> Vec<ErrorKind> {
    hard_fired(o).iter().filter_map(|f| fault_kind(&f.1)).collect()
}

/// The same request on its own: by the only client, on a healthy stream, right after opening.
pub fn isolated(s: &Scenario, at: &At) -> Scenario {
    let mut n = Scenario::new(&s.prop);
    n.aux = s.aux.clone();
    n.clients = vec![Client { disk: 0, buffer: 0, shares: None }];
    let op = match &at.step.op {
        Op::ReadNext(k) => Op::ReadAt(at.obs.before, *k),
        op => op.clone(),
    };
    match op {
        Op::Exists(_) | Op::Position(_) | Op::Take(_) => {
            n.disks = vec![(**at.at_open.unwrap_or(at.disk)).clone()];
            n.steps.push(Step::new(0, Op::Open(false)));
            for o in at.since {
                n.steps.push(Step::new(
                    0,
                    match o {
                        Op::Patch(_, p, b) => Op::Patch(0, *p, b.clone()),
                        Op::SetLen(_, l) => Op::SetLen(0, *l),
                        o => o.clone(),
                    },
                ));
            }
        }
        _ => n.disks = vec![(**at.disk).clone()],
    }
    let mut step = Step::new(0, op);
    step.blind = at.step.blind;
    n.steps.push(step);
    n
}

pub fn kind_of(op: &Op) -> Option<Kind> {
    match op {
        Op::ReadAt(_, k) | Op::ReadNext(k) => Some(*k),
        Op::Take(t) => t.own(),
        _ => None,
    }
}

/// Whether a table, or what is needed to read it, was overwritten.
fn changed(dir: &Dir, before: &Disk, now: &Disk, t: T) -> bool {
    let one = |t: T| match dir.find(t) {
        Some(e) => {
            let n = (e.size as usize).min(4 << 20);
            let (mut x, mut y) = (vec![0; n], vec![0; n]);
            let k = before.read_at(e.offset as u64, &mut x).min(now.read_at(e.offset as u64, &mut y));
            x[..k] != y[..k]
        }
        None => false,
    };
    one(t) || t.needs().iter().any(|n| one(*n))
}
