//! What is simulated for each property, and how what was observed is judged.

use crate::disk::{Disk, Fault, Plan, KINDS, KIND_SEEK_INTR};
use crate::gen::{self, Case, Lay, Style, INLINE};
use crate::model::{self, differs, fired_kinds, hard_fired, At, Model, Want, CFG};
use crate::refm::{self, Kind, Rule};
use crate::rng::Rng;
use crate::scen::{self, Client, Obs, Op, Res, Scenario, Step};
use crate::tables::{self, FontFile, Opts, ALL, OWN, T};

use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub text: String,
}

#[derive(Default)]
pub struct Verdict {
    pub violation: Option<Violation>,
    /// The run did what the property is about.
    pub nontrivial: bool,
    pub reach: BTreeSet<&'static str>,
}

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18",
];

// Pieces.

fn soft_plan(r: &mut Rng, calls: u64) -> Plan {
    let mut p = Plan::default();
    let mode = r.below(6);
    if mode == 0 {
        return p;
    }
    if mode & 1 == 1 {
        p.chunk = r.pick(&[1, 1, 2, 3, 5, 7, 16]);
    }
    if mode & 2 == 2 {
        p.intr = r.pick(&[2, 2, 3, 5]);
    }
    if mode & 4 == 4 {
        let n = r.range(1, 6);
        for _ in 0..n {
            let f = if r.pct(50) { Fault::Short(r.range(1, 3) as u32) } else { Fault::Intr };
            p.events.push((r.below(calls.max(1)) as u32, f));
        }
        p.events.sort_by_key(|e| e.0);
        p.events.dedup_by_key(|e| e.0);
    }
    p
}

fn hard_fault(r: &mut Rng) -> Fault {
    if r.pct(25) {
        Fault::Eof
    } else if r.pct(10) {
        Fault::Fail(KIND_SEEK_INTR)
    } else {
        Fault::Fail(r.below(KINDS.len() as u64 - 1) as u8)
    }
}

/// A plan with failures, given how many calls the request makes when all is well.
fn hard_plan(r: &mut Rng, calls: u64) -> Plan {
    let mut p = if r.pct(35) { soft_plan(r, calls) } else { Plan::default() };
    let n = if r.pct(80) { 1 } else { r.range(2, 4) };
    let calls = calls.max(1);
    // Slow delivery makes for more calls.
    let span = if p.chunk > 0 || p.intr > 0 { calls * 2 } else { calls };
    for _ in 0..n {
        let at = match r.below(8) {
            0 => 0,
            1 => calls - 1,
            2 => r.below(calls.min(12)),
            3 => calls - 1 - r.below(calls.min(12)),
            _ => r.below(span),
        };
        p.events.push((at as u32, hard_fault(r)));
    }
    p.events.sort_by_key(|e| e.0);
    p.events.dedup_by_key(|e| e.0);
    p
}

/// The same for clients that may as well die.
fn deadly_plan(r: &mut Rng, calls: u64) -> Plan {
    let mut p = hard_plan(r, calls);
    if r.pct(20) {
        let n = p.events.len();
        if let Some(e) = p.events.get_mut(r.idx(n.max(1))) {
            e.1 = Fault::Die;
        }
    }
    p
}

fn buffer(r: &mut Rng) -> u32 {
    if r.pct(75) {
        0
    } else {
        r.pick(&[1, 2, 3, 7, 16, 64, 512, 8192])
    }
}

fn client(s: &mut Scenario, disk: Disk, buffer: u32) -> usize {
    s.disks.push(disk);
    s.clients.push(Client { disk: s.disks.len() - 1, buffer, shares: None });
    s.clients.len() - 1
}

/// How many stream calls each step makes when all is well.
fn calls(s: &Scenario) -> Vec<u64> {
    let mut quiet = s.clone();
    quiet.threads = false;
    for t in quiet.steps.iter_mut() {
        t.plan = Plan::default();
    }
    scen::run_here(&quiet).iter().map(|o| o.trace.calls).collect()
}

const LAYOUT: [Kind; 6] =
    [Kind::Gsub, Kind::Gpos, Kind::Scripts, Kind::Features, Kind::GsubLookups, Kind::GposLookups];

/// What the table properties read directly.
fn direct_kind(r: &mut Rng, prop: &str) -> Kind {
    match prop {
        "C10" => r.pick(&LAYOUT),
        "C11" => match r.below(8) {
            0 => Kind::Coverage,
            1 => Kind::Class,
            2 => Kind::Correction,
            3 => Kind::Context,
            4 => Kind::Chained,
            5 => Kind::GsubType(r.pick(&[5, 6])),
            6 => Kind::GposType(r.pick(&[7, 8])),
            _ => r.pick(&[Kind::Context, Kind::Chained, Kind::Correction]),
        },
        "C12" => match r.below(10) {
            0..=6 => Kind::GsubType(r.range(1, 8) as u16),
            7 => Kind::Gsub,
            _ => Kind::GsubLookups,
        },
        "C13" => match r.below(14) {
            0..=7 => Kind::GposType(r.range(1, 9) as u16),
            8 => Kind::Anchor,
            9 => Kind::MarkArray,
            10 => {
                let n = if r.below(40) == 0 { r.range(200, 0xFFFF) } else { r.below(5) } as u16;
                match r.below(3) {
                    0 => Kind::Bases(n),
                    1 => Kind::LigatureArray(n),
                    _ => Kind::Mark2s(n),
                }
            }
            11 => Kind::Pair1s(r.below(256) as u16, if r.pct(30) { 0 } else { r.below(256) as u16 }),
            12 => Kind::Gpos,
            _ => Kind::GposLookups,
        },
        "C14" => match r.below(8) {
            0..=2 => Kind::Gdef,
            3 | 4 => Kind::Store,
            5 => Kind::Attachments,
            6 => Kind::Carets,
            _ => Kind::MarkSets,
        },
        "C15" => Kind::Cpal,
        "C16" => Kind::Fvar,
        _ => any_kind(r),
    }
}
fn any_kind(r: &mut Rng) -> Kind {
    let p = r.pick(&["C10", "C11", "C11", "C12", "C13", "C13", "C14", "C15", "C16"]);
    direct_kind(r, p)
}

fn style(r: &mut Rng) -> Style {
    Style::new(r)
}
fn flawed_style(r: &mut Rng, pct: u64) -> Style {
    let mut s = Style::new(r);
    if r.pct(pct) {
        s.null_lists = r.pct(60);
        s.null_marks = r.pct(60);
    }
    s
}

/// Whether a property is about structures of a kind.
fn fits(prop: &str, k: Kind) -> bool {
    use Kind::*;
    match prop {
        "C10" => matches!(k, Gsub | Gpos | Scripts | Features | GsubLookups | GposLookups),
        "C11" => matches!(k, Coverage | Class | GsubType(5 | 6) | GposType(7 | 8)),
        "C12" => matches!(k, Gsub | GsubLookups | GsubType(_)),
        "C13" => matches!(k, Gpos | GposLookups | GposType(_) | MarkArray | Bases(_) | LigatureArray(_) | Mark2s(_)),
        "C14" => matches!(k, Gdef | Store | Attachments | Carets | MarkSets),
        "C15" => k == Cpal,
        "C16" => k == Fvar,
        _ => true,
    }
}

fn a_case(r: &mut Rng, prop: &str, s: &Style) -> Case {
    let base = gen::any_base(r);
    if s.real > 0 && r.below(s.real) == 0 {
        if let Some(c) = crate::real::case(r, |k| fits(prop, k), base) {
            return c;
        }
    }
    let lay = Lay::new(r);
    if (prop == "C13" && r.pct(25)) || (!("C10".."C17").contains(&prop) && r.pct(15)) {
        let w = r.below(INLINE);
        gen::inline_case(r, w, s, base, lay)
    } else {
        let k = direct_kind(r, prop);
        gen::case(r, k, s, base, lay)
    }
}

fn case_steps(c: usize, case: &Case) -> Vec<Step> {
    let mut v = vec![Step::new(c, Op::ReadAt(case.pos, case.kind))];
    for k in &case.more {
        v.push(Step::new(c, Op::ReadNext(*k)));
    }
    v
}

fn table_of(prop: &str) -> &'static [T] {
    match prop {
        "C10" | "C11" => &[T::Gsub, T::Gpos],
        "C12" => &[T::Gsub],
        "C13" => &[T::Gpos],
        "C14" => &[T::Gdef],
        "C15" => &[T::Cpal],
        "C16" => &[T::Fvar],
        _ => &OWN,
    }
}

fn a_font(r: &mut Rng, style: &Style) -> FontFile {
    let mut o = Opts::new(r);
    o.style = Style { bulk: 10 * style.bulk, ..style.clone() };
    tables::font(r, &o)
}
fn font_with(r: &mut Rng, style: &Style, must: &[T]) -> FontFile {
    let mut o = Opts::new(r);
    o.style = Style { bulk: 10 * style.bulk, ..style.clone() };
    let mut v = tables::choose(r);
    v.truncate(r.idx(5));
    for t in must {
        if !v.contains(t) {
            v.push(*t);
        }
    }
    r.shuffle(&mut v);
    o.tables = Some(v);
    tables::font(r, &o)
}

fn request(r: &mut Rng, font: &FontFile) -> Op {
    let present = font.present();
    let t = if !present.is_empty() && r.pct(85) {
        let k = r.idx(present.len());
        present[k]
    } else {
        r.pick(&ALL)
    };
    match r.below(10) {
        0 => Op::Exists(t),
        1 => Op::Position(t),
        _ => Op::Take(t),
    }
}

/// Where to damage: the stored bytes of a region.
fn damage(r: &mut Rng, disk: &mut Disk, low: u64, high: u64) {
    let high = high.min(disk.len);
    if low >= high {
        return;
    }
    let stored: Vec<(u64, u64)> = disk
        .segs
        .iter()
        .map(|(p, b)| (*p.max(&low), (*p + b.len() as u64).min(high)))
        .filter(|(a, b)| a < b)
        .collect();
    if stored.is_empty() {
        return;
    }
    let (a, b) = stored[r.idx(stored.len())];
    let p = match r.below(4) {
        0 => a + r.below((b - a).min(16)),
        1 => b - 1 - r.below((b - a).min(8)),
        _ => r.range(a, b - 1),
    };
    let even = p - (p - low) % 2;
    match r.below(12) {
        0 => {
            let old = disk.get(p, 1).unwrap()[0];
            disk.write(p, &[old ^ (1 << r.below(8))]);
        }
        1 => {
            let b = [r.u8()];
            disk.write(p, &b);
        }
        2..=6 => {
            let v = match r.below(8) {
                0 => 0,
                1 => 0xFFFF,
                2 => 0x8000,
                3 => 0x7FFF,
                4 => r.below(8) as u16,
                5 => {
                    let old = disk.get(even, 2).map(|b| u16::from_be_bytes([b[0], b[1]])).unwrap_or(0);
                    if r.pct(50) {
                        old.wrapping_add(1)
                    } else {
                        old.wrapping_sub(1)
                    }
                }
                _ => r.u16(),
            };
            clipped(disk, even, &v.to_be_bytes(), high);
        }
        7 => {
            let v = r.pick(&[0u32, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0x10000, 0xFFFF_FFFE]);
            clipped(disk, even, &v.to_be_bytes(), high);
        }
        8 => {
            let n = r.range(2, 5) as usize;
            clipped(disk, even, &vec![0xFF; 2 * n], high);
        }
        9 => {
            let n = r.range(1, 24) as usize;
            let b = r.bytes(n);
            clipped(disk, p, &b, high);
        }
        10 => {
            let n = r.range(1, 24) as usize;
            clipped(disk, p, &vec![0; n], high);
        }
        _ => {
            let from = r.range(a, b - 1);
            let n = r.range(1, 16).min(b - from) as usize;
            if let Some(x) = disk.get(from, n) {
                clipped(disk, p, &x, high);
            }
        }
    }
}
/// Some counts, close to one another, promise more than there is.
fn inflate(r: &mut Rng, disk: &mut Disk, counts: &[u64]) {
    let i = r.idx(counts.len());
    let n = r.range(1, 4) as usize;
    for p in counts.iter().skip(i.saturating_sub(r.idx(3))).take(n) {
        if r.pct(20) {
            continue;
        }
        let v = match r.below(8) {
            0 => 0xFFFF,
            1 => 0x7FFF,
            2 => 0x8000,
            3 => r.range(16_000, 33_000) as u16,
            4 => r.range(33_000, 0xFFFF) as u16,
            5 => r.range(300, 3000) as u16,
            6 => r.range(1, 20) as u16,
            _ => r.u16(),
        };
        disk.write(*p, &v.to_be_bytes());
    }
}
/// Make one list long, and make sure that there is plenty to read for it.
fn prolong(r: &mut Rng, case: &mut Case, counts: &[u64]) {
    if counts.is_empty() {
        return;
    }
    let n = match r.below(4) {
        0 => r.range(300, 5000),
        1 => 0xFFFF,
        _ => r.range(5000, 0xFFFF),
    };
    let p = counts[r.idx(counts.len())];
    back(r, case, p, n);
}
/// Give the list with the count at a position a length and the data for it.
fn back(r: &mut Rng, case: &mut Case, p: u64, n: u64) {
    let width = r.range(1, 24);
    let from = case.disk.segs.iter().map(|(p, b)| p + b.len() as u64).max().unwrap_or(p);
    let from = match r.below(3) {
        // What follows makes way.
        0 => p + 2 + 2 * r.below(4),
        1 => p + 2,
        _ => from,
    };
    let fill: Vec<u8> = match r.below(4) {
        0 => vec![0, r.below(4) as u8],
        1 => vec![0, 1, 0, r.below(4) as u8],
        _ => vec![0, 0],
    };
    let b: Vec<u8> = fill.iter().copied().cycle().take(((n + 8) * width) as usize & !1).collect();
    case.disk.segs = crop(&case.disk, from);
    case.disk.add(from, b);
    case.disk.write(p, &(n as u16).to_be_bytes());
}
/// What precedes a position.
fn crop(disk: &Disk, end: u64) -> Vec<(u64, Vec<u8>)> {
    (disk.segs.iter())
        .filter(|(p, _)| *p < end)
        .map(|(p, b)| (*p, b[..b.len().min((end - p) as usize)].to_vec()))
        .collect()
}
fn clipped(disk: &mut Disk, p: u64, b: &[u8], high: u64) {
    let n = (b.len() as u64).min(high.saturating_sub(p)) as usize;
    if n > 0 {
        disk.write(p, &b[..n]);
    }
}
/// The same as steps.
fn as_patches(c: usize, before: &Disk, after: &Disk, disk: usize) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    for (p, b) in &after.segs {
        let mut old = vec![0; b.len()];
        let known = before.read_at(*p, &mut old);
        let differs = |k: usize| k >= known || old[k] != b[k];
        let mut k = 0;
        while k < b.len() {
            if differs(k) {
                let start = k;
                while k < b.len() && k - start < 64 && differs(k) {
                    k += 1;
                }
                v.push(Step::new(c, Op::Patch(disk, p + start as u64, b[start..k].to_vec())));
            } else {
                k += 1;
            }
        }
    }
    v
}

// Scenarios.

pub fn generate(prop: &str, r: &mut Rng) -> Scenario {
    match prop {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => c09(r),
        "C17" => c17(r),
        "C18" => c18(r),
        p => stored(p, r),
    }
}

/// Reads of any kind from healthy files.
fn reads(r: &mut Rng, prop: &str, style: &Style) -> Scenario {
    let mut s = Scenario::new(prop);
    if r.pct(50) {
        let n = r.range(1, 2);
        let mut queues = vec![];
        for _ in 0..n {
            let case = a_case(r, prop, style);
            let b = buffer(r);
            let c = client(&mut s, case.disk.clone(), b);
            let mut q = vec![];
            let again = r.range(1, 2);
            for _ in 0..again {
                q.extend(case_steps(c, &case));
            }
            queues.push(q);
        }
        merge(r, &mut s, queues);
    } else {
        let font = a_font(r, style);
        let b = buffer(r);
        let c = client(&mut s, font.disk.clone(), b);
        s.steps.push(Step::new(c, Op::Open(r.pct(50))));
        let n = r.range(1, 5);
        for _ in 0..n {
            if r.pct(15) {
                let to = r.below(font.disk.len + 10);
                s.steps.push(Step::new(c, Op::Seek(to)));
            }
            let op = request(r, &font);
            s.steps.push(Step::new(c, op));
        }
    }
    s
}

/// Interleave what clients do, keeping the order of each.
fn merge(r: &mut Rng, s: &mut Scenario, mut queues: Vec<Vec<Step>>) {
    for q in queues.iter_mut() {
        q.reverse();
    }
    loop {
        let left: Vec<usize> = (0..queues.len()).filter(|i| !queues[*i].is_empty()).collect();
        if left.is_empty() {
            return;
        }
        let k = left[r.idx(left.len())];
        let step = queues[k].pop().unwrap();
        s.steps.push(step);
    }
}

/// The same request with a failure at each of its calls in turn.
fn sweep(r: &mut Rng, prop: &str, st: &Style) -> Scenario {
    let mut s = Scenario::new(prop);
    let op = if r.pct(75) {
        let case = a_case(r, prop, st);
        let b = if r.pct(92) { 0 } else { buffer(r) };
        client(&mut s, case.disk.clone(), b);
        Op::ReadAt(case.pos, case.kind)
    } else {
        let font = a_font(r, st);
        client(&mut s, font.disk.clone(), 0);
        s.steps.push(Step::new(0, Op::Open(r.pct(50))));
        request(r, &font)
    };
    s.steps.push(Step::new(0, op.clone()));
    let n = calls(&s).pop().unwrap();
    if n == 0 {
        return s;
    }
    let at: Vec<u64> = if n <= 40 {
        (0..n).collect()
    } else {
        // Some in a row, some anywhere.
        let from = r.below(n - 16);
        let mut at: Vec<u64> = (from..from + 16).collect();
        at.extend((0..16).map(|_| r.below(n)));
        at
    };
    let same = if r.pct(60) { Some(hard_fault(r)) } else { None };
    for at in at {
        let mut t = Step::new(0, op.clone());
        let f = same.clone().unwrap_or_else(|| hard_fault(r));
        t.plan.events.push((at as u32, f));
        s.steps.push(t);
    }
    if r.pct(50) {
        s.steps.push(Step::new(0, op));
    }
    s
}

fn c01(r: &mut Rng) -> Scenario {
    let st = style(r);
    if r.pct(40) {
        return sweep(r, "C01", &st);
    }
    if r.pct(12) {
        // The end of the file comes early for good.
        let mut s = reads(r, "C01", &st);
        let d = s.disks[0].clone();
        let at = d.nth(r.below(d.stored().max(1)));
        let cut = Step::new(0, Op::SetLen(0, at));
        let k = r.idx(s.steps.len() + 1);
        s.steps.insert(k, cut);
        for t in s.steps.iter_mut() {
            if r.pct(30) {
                t.plan = soft_plan(r, 60);
            }
        }
        return s;
    }
    let mut s = reads(r, "C01", &st);
    let n = calls(&s);
    // Some of the requests fail and are tried again.
    let mut steps = vec![];
    for (t, n) in s.steps.iter().zip(n) {
        if matches!(t.op, Op::Seek(_)) || n == 0 {
            steps.push(t.clone());
            continue;
        }
        let fails = if r.pct(70) { r.range(1, 3) } else { 0 };
        for _ in 0..fails {
            let mut f = t.clone();
            f.plan = hard_plan(r, n);
            if let Op::ReadNext(_) = f.op {
                // Where the stream is after a failure is open.
                steps.push(f);
                break;
            }
            steps.push(f);
        }
        if fails == 0 || !matches!(t.op, Op::ReadNext(_)) {
            steps.push(t.clone());
        }
    }
    s.steps = steps;
    s
}

fn c02(r: &mut Rng) -> Scenario {
    let st = flawed_style(r, 10);
    let mut s = reads(r, "C02", &st);
    if r.pct(25) {
        // Errors must not depend on the delivery either.
        let k = s.disks.len();
        let d = &mut s.disks[r.idx(k)];
        if r.pct(40) {
            let at = d.nth(r.below(d.stored().max(1)));
            d.len = at;
        } else {
            // The dependencies are not meant to be tested.
            let own: Vec<(u64, u64)> = match tables::Dir::parse(d) {
                Some(dir) => {
                    let own = dir.entries.iter().filter(|e| T::from_tag(&e.tag).map_or(true, |t| t.own().is_some()));
                    own.map(|e| (e.offset as u64, e.offset as u64 + e.size as u64)).collect()
                }
                None => vec![(0, d.len)],
            };
            if !own.is_empty() {
                let (a, b) = own[r.idx(own.len())];
                damage(r, d, a, b);
            }
        }
        if unsafe_to_read(&s) {
            return c02(r);
        }
    }
    let n = calls(&s);
    for (t, n) in s.steps.iter_mut().zip(n) {
        t.plan = soft_plan(r, n);
    }
    s
}

/// Whether reading may take more than is worth simulating.
fn unsafe_to_read(s: &Scenario) -> bool {
    let mut m = Model::new(s);
    let quiet: Vec<Obs> = s
        .steps
        .iter()
        .map(|t| Obs {
            res: match t.op {
                Op::Patch(..) | Op::SetLen(..) | Op::Seek(_) => Res::Done,
                Op::Open(_) => Res::Opened(1),
                _ => Res::Skipped,
            },
            trace: Default::default(),
            before: u64::MAX,
            pos: 0,
            peak: 0,
            work: 0,
        })
        .collect();
    m.walk(&quiet, |m, at, key| {
        let (_, n) = m.want(at, key);
        let stored: u64 = at.disk.stored();
        if n.budget || n.units > 60_000 + 4 * stored || n.zero_width > 20_000 {
            Some(())
        } else {
            None
        }
    })
    .is_some()
}

/// The edges of the control flow that may be taken where so many stream calls may be made.
fn work_bound(calls: u64, idle: u64) -> u64 {
    20_000 + 32 * calls + 256 * idle
}
fn measure(work: u64, bound: u64, idle: u64, res: &Res, op: &Op) {
    use std::sync::atomic::{AtomicU64, Ordering};
    static MOST: AtomicU64 = AtomicU64::new(0);
    let permille = work * 1000 / work_bound(bound, idle);
    if permille > MOST.fetch_max(permille, Ordering::Relaxed) {
        eprintln!("work {work} calls {bound} idle {idle} permille {permille} {op:?} {}", res.class());
    }
}

/// Hundreds of requests for little, most of which may fail, and what comes after.
fn long_history(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C03");
    let mut st = style(r);
    st.bulk = 0;
    st.real = 0;
    let n = r.range(70, 400);
    let failing = r.pick(&[0, 50, 95, 100]);
    let op = if r.pct(65) {
        let mut case = a_case(r, "C03", &st);
        while case.disk.stored() > 1000 {
            case = a_case(r, "C03", &st);
        }
        client(&mut s, case.disk.clone(), 0);
        Op::ReadAt(case.pos, case.kind)
    } else {
        let t = r.pick(&OWN);
        let font = font_with(r, &st, &[t]);
        client(&mut s, font.disk.clone(), 0);
        s.steps.push(Step::new(0, Op::Open(r.pct(50))));
        Op::Take(t)
    };
    s.steps.push(Step::new(0, op.clone()));
    let k = calls(&s).pop().unwrap();
    if k > 600 {
        return long_history(r);
    }
    // The same failure, or any.
    let same = if r.pct(50) { Some(deadly_plan(r, k)) } else { None };
    for _ in 0..n {
        let mut t = Step::new(0, op.clone());
        if k > 0 && r.pct(failing) {
            t.plan = same.clone().unwrap_or_else(|| deadly_plan(r, k));
        }
        s.steps.push(t);
    }
    s.steps.push(Step::new(0, op));
    if unsafe_to_read(&s) {
        return long_history(r);
    }
    s
}

fn c03(r: &mut Rng) -> Scenario {
    if r.pct(2) {
        return long_history(r);
    }
    let mut s = Scenario::new("C03");
    let st = style(r);
    let mut fonts: Vec<FontFile> = {
        let n = if r.pct(60) { 1 } else { 2 };
        (0..n).map(|_| a_font(r, &st)).collect()
    };
    let mut odd = false;
    for f in fonts.iter_mut() {
        if r.pct(10) {
            namesake(r, f);
            odd = true;
        }
    }
    for f in &fonts {
        s.disks.push(f.disk.clone());
    }
    let threads = r.pct(30);
    let n = if threads { r.range(2, 4) } else { r.range(1, 4) } as usize;
    let mut queues = vec![];
    let mut opens = vec![];
    for c in 0..n {
        let d = if c < fonts.len() { c } else { r.idx(fonts.len()) };
        let shares = if c >= fonts.len() && r.pct(60) { Some(d) } else { None };
        s.clients.push(Client { disk: d, buffer: buffer(r), shares });
        let mut q = vec![];
        if shares.is_none() {
            opens.push(Step::new(c, Op::Open(r.pct(50))));
        }
        // A few tables, again and again, in any order.
        let k = r.range(1, 3);
        let some: Vec<Op> = (0..k).map(|_| request(r, &fonts[d])).collect();
        let k = r.range(2, 7);
        for _ in 0..k {
            if r.pct(15) {
                q.push(Step::new(c, Op::Seek(r.below(s.disks[d].len + 20))));
            }
            if r.pct(10) {
                // Something else reads on the same stream.
                if let Some(e) = pick_own(r, &fonts[d]) {
                    q.push(Step::new(c, Op::ReadAt(e.1, e.0)));
                }
            }
            let op = if r.pct(75) {
                let i = r.idx(some.len());
                some[i].clone()
            } else {
                request(r, &fonts[d])
            };
            q.push(Step::new(c, op));
        }
        queues.push(q);
    }
    s.steps.extend(opens);
    merge(r, &mut s, queues);
    if odd && unsafe_to_read(&s) {
        return c03(r);
    }
    // The contents change under the reader.
    if !threads && r.pct(30) {
        let d = r.idx(fonts.len());
        let mut changed = s.disks[d].clone();
        let e = &fonts[d].dir.entries;
        if !e.is_empty() {
            let e = e[r.idx(e.len())];
            damage(r, &mut changed, e.offset as u64, e.offset as u64 + e.size as u64);
            let there = as_patches(0, &s.disks[d], &changed, d);
            let back = as_patches(0, &changed, &s.disks[d], d);
            let a = r.idx(s.steps.len() + 1);
            let b = a + r.idx(s.steps.len() + 1 - a);
            let tail = s.steps.split_off(b);
            let middle = s.steps.split_off(a);
            s.steps.extend(there);
            s.steps.extend(middle);
            s.steps.extend(back);
            s.steps.extend(tail);
            if unsafe_to_read(&s) {
                return c03(r);
            }
        }
    }
    let n = calls(&s);
    let mut steps = vec![];
    for (t, n) in s.steps.iter().zip(n) {
        let mut t = t.clone();
        if n > 0 && r.pct(35) && !matches!(t.op, Op::Open(_)) {
            let mut f = t.clone();
            f.plan = deadly_plan(r, n);
            steps.push(f);
        }
        if r.pct(25) {
            t.plan = soft_plan(r, n);
        }
        steps.push(t);
    }
    s.steps = steps;
    if threads {
        s.threads = true;
        let k = r.range(5, 60);
        for _ in 0..k {
            let c = r.below(n_clients(&s)) as u8;
            let len = match r.below(4) {
                0 => r.range(1, 2),
                1 => r.range(1, 30),
                _ => r.range(1, 8),
            } as u16;
            s.slices.push((c, len));
        }
    }
    s
}
fn n_clients(s: &Scenario) -> u64 {
    s.clients.len() as u64
}
fn pick_own(r: &mut Rng, f: &FontFile) -> Option<(Kind, u64)> {
    let v: Vec<(Kind, u64)> = f
        .dir
        .entries
        .iter()
        .filter_map(|e| Some((T::from_tag(&e.tag)?.own()?, e.offset as u64)))
        .collect();
    if v.is_empty() {
        None
    } else {
        let k = r.idx(v.len());
        Some(v[k])
    }
}

fn c04(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C04");
    let st = style(r);
    let mut font = loop {
        let f = a_font(r, &st);
        if !f.present().is_empty() {
            break f;
        }
    };
    let missum = r.pct(10);
    let b = buffer(r);
    let c = client(&mut s, font.disk.clone(), b);
    let mut c2 = c;
    if r.pct(25) {
        s.clients.push(Client { disk: 0, buffer: buffer(r), shares: if r.pct(50) { Some(0) } else { None } });
        c2 = 1;
    }
    let present = font.present();
    let t = present[r.idx(present.len())];
    if missum {
        let i = font.dir.entries.iter().position(|e| e.tag == t.tag()).unwrap();
        missummed(r, &mut font, i);
        s.disks[0] = font.disk.clone();
    }
    let e = *font.dir.find(t).unwrap();
    let requests = |r: &mut Rng, s: &mut Scenario, n: u64| {
        for _ in 0..n {
            let op = match r.below(8) {
                0 => Op::Position(t),
                1 => request(r, &font),
                _ => Op::Take(t),
            };
            let who = if c2 != c && r.pct(40) { c2 } else { c };
            let mut step = Step::new(who, op);
            if r.pct(25) {
                step.plan = soft_plan(r, 60);
            }
            s.steps.push(step);
        }
    };
    let open = |r: &mut Rng, s: &mut Scenario| {
        s.steps.push(Step::new(c, Op::Open(r.pct(50))));
        if c2 != c && s.clients[c2].shares.is_none() {
            s.steps.push(Step::new(c2, Op::Open(r.pct(50))));
        }
    };
    let late = r.pct(70);
    if late {
        open(r, &mut s);
        let n = r.below(3);
        requests(r, &mut s, n);
    }
    let mut now = font.disk.clone();
    let rounds = r.range(1, 3);
    for _ in 0..rounds {
        let mut next = now.clone();
        let (from, to) = (e.offset as u64, e.offset as u64 + e.size as u64);
        let outside = r.pct(30);
        if outside {
            // Next to the table, in another table, or anywhere but in the directory.
            match r.below(4) {
                0 => damage(r, &mut next, to, to + 8),
                1 => damage(r, &mut next, from.saturating_sub(8).max(12), from),
                2 => {
                    let o = font.dir.entries[r.idx(font.dir.entries.len())];
                    damage(r, &mut next, o.offset as u64, o.offset as u64 + o.size as u64)
                }
                _ => {
                    let high = next.len;
                    damage(r, &mut next, 12 + 16 * font.dir.entries.len() as u64, high)
                }
            }
        } else if e.size > 0 {
            let k = if r.pct(80) { 1 } else { r.range(2, 3) };
            for _ in 0..k {
                match r.below(6) {
                    0 => {
                        let p = from + r.below(e.size as u64);
                        let old = next.get(p, 1).map(|b| b[0]).unwrap_or(0);
                        next.write(p, &[old ^ (1 << r.below(8))]);
                    }
                    1 => {
                        // The last bytes, which may be a part of a word.
                        let p = to - 1 - r.below((e.size as u64).min(4));
                        let old = next.get(p, 1).map(|b| b[0]).unwrap_or(0);
                        next.write(p, &[old ^ (1 << r.below(8))]);
                    }
                    2 => {
                        let w = from + r.below((e.size as u64).min(16));
                        let old = next.get(w, 1).map(|b| b[0]).unwrap_or(0);
                        next.write(w, &[!old]);
                    }
                    3 => {
                        // Two changes that make up for one another in a bytewise sum.
                        let p = from + r.below(e.size as u64);
                        let q = from + r.below(e.size as u64);
                        let x = next.get(p, 1).map(|b| b[0]).unwrap_or(0);
                        let y = next.get(q, 1).map(|b| b[0]).unwrap_or(0);
                        next.write(p, &[y]);
                        next.write(q, &[x]);
                    }
                    _ => damage(r, &mut next, from, to),
                }
            }
        }
        let steps = as_patches(c, &now, &next, 0);
        s.steps.extend(steps);
        now = next;
        if !late {
            open(r, &mut s);
        }
        let n = r.range(1, 4);
        requests(r, &mut s, n);
        if r.pct(40) {
            // Restored.
            let steps = as_patches(c, &now, &font.disk, 0);
            s.steps.extend(steps);
            now = font.disk.clone();
            let n = r.range(1, 2);
            requests(r, &mut s, n);
        }
    }
    if unsafe_to_read(&s) {
        return c04(r);
    }
    if r.pct(15) {
        let n = calls(&s);
        for (t, n) in s.steps.iter_mut().zip(n) {
            if n > 0 && r.pct(25) {
                t.plan = deadly_plan(r, n);
            }
        }
    }
    s
}

fn c05(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C05");
    let st = style(r);
    let direct = r.pct(55);
    if direct {
        let case = a_case(r, "C05", &st);
        s.disks = vec![case.disk.clone(), case.disk.clone()];
        s.clients.push(Client { disk: 1, buffer: buffer(r), shares: None });
        let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
        // Sometimes at each of the last bytes in turn.
        let row = r.pct(40);
        let n = if row { r.range(8, 30) } else { r.range(2, 8) };
        for i in 0..n {
            let cut = match r.below(4) {
                _ if row => o.high.saturating_sub(i + 1),
                0 => case.pos + r.below(40),
                1 => o.high.saturating_sub(r.below(12)),
                _ => {
                    let d = &case.disk;
                    d.nth(r.below(d.stored().max(1)))
                }
            };
            s.steps.push(Step::new(0, Op::SetLen(1, cut.min(case.disk.len))));
            let mut t = Step::new(0, Op::ReadAt(case.pos, case.kind));
            if r.pct(30) {
                t.plan = soft_plan(r, 60);
            }
            s.steps.push(t);
        }
        if r.pct(30) {
            s.steps.push(Step::new(0, Op::SetLen(1, case.disk.len)));
            s.steps.push(Step::new(0, Op::ReadAt(case.pos, case.kind)));
        }
    } else {
        let font = a_font(r, &st);
        s.disks = vec![font.disk.clone(), font.disk.clone()];
        s.clients.push(Client { disk: 1, buffer: buffer(r), shares: None });
        let n = r.range(1, 4);
        let early = r.pct(30);
        if !early {
            s.steps.push(Step::new(0, Op::Open(r.pct(50))));
        }
        for _ in 0..n {
            let e = &font.dir.entries;
            let cut = match r.below(5) {
                0 => 12 + r.below(16 * e.len() as u64 + 1),
                1 | 2 if !e.is_empty() => {
                    let e = e[r.idx(e.len())];
                    e.offset as u64 + r.below(e.size as u64 + 5)
                }
                3 if !e.is_empty() => {
                    let e = e[r.idx(e.len())];
                    (e.offset as u64 + e.size as u64 + 3).saturating_sub(r.below(8))
                }
                _ => {
                    let d = &font.disk;
                    d.nth(r.below(d.stored()))
                }
            };
            s.steps.push(Step::new(0, Op::SetLen(1, cut.min(font.disk.len))));
            if early || r.pct(20) {
                s.steps.push(Step::new(0, Op::Open(r.pct(50))));
            }
            let k = r.range(1, 4);
            for _ in 0..k {
                let mut t = Step::new(0, request(r, &font));
                if r.pct(25) {
                    t.plan = soft_plan(r, 60);
                }
                s.steps.push(t);
            }
        }
    }
    s
}

fn c06(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C06");
    let st = flawed_style(r, 20);
    match r.below(10) {
        0 => {
            // Anything at all.
            let n = r.below(200) as usize;
            let mut b = r.bytes(n);
            if r.pct(50) {
                for x in b.iter_mut() {
                    if r.pct(60) {
                        *x = r.below(4) as u8;
                    }
                }
            }
            if r.pct(50) && n > 12 {
                b[..4].copy_from_slice(&r.pick(&[[0, 1, 0, 0], *b"OTTO", *b"ttcf"]));
                b[4] = 0;
                b[5] = r.below(10) as u8;
                for i in 0..b[5] as usize {
                    if 12 + 16 * i + 16 <= n {
                        let t = r.pick(&OWN);
                        b[12 + 16 * i..16 + 16 * i].copy_from_slice(&t.tag());
                        let o = (r.below(n as u64 + 8) as u32).to_be_bytes();
                        b[20 + 16 * i..24 + 16 * i].copy_from_slice(&o);
                    }
                }
            }
            let c = client(&mut s, Disk::from_bytes(b), 0);
            s.steps.push(Step::new(c, Op::Open(r.pct(50))));
            for t in OWN {
                s.steps.push(Step::new(c, Op::Take(t)));
            }
            let k = any_kind(r);
            s.steps.push(Step::new(c, Op::ReadAt(r.below(n as u64 + 1), k)));
        }
        1..=3 => {
            let t = r.pick(&OWN);
            let mut font = font_with(r, &st, &[t]);
            let k = r.range(1, 5);
            for _ in 0..k {
                if r.pct(15) {
                    let high = 12 + 16 * font.dir.entries.len() as u64;
                    damage(r, &mut font.disk, 0, high);
                } else {
                    let e = *font.dir.find(t).unwrap();
                    damage(r, &mut font.disk, e.offset as u64, e.offset as u64 + e.size as u64);
                }
            }
            if r.pct(6) {
                // The directory has an extreme extent.
                let i = font.dir.entries.iter().position(|e| e.tag == t.tag()).unwrap() as u64;
                let v = match r.below(3) {
                    0 => u32::MAX - r.below(8) as u32,
                    1 => (1 << 31) + r.below(8) as u32 - 4,
                    _ => u32::MAX - font.disk.len as u32 + r.below(8) as u32,
                };
                font.disk.write(12 + 16 * i + r.pick(&[8, 12, 12]), &v.to_be_bytes());
            }
            // The checksums are right in spite of that.
            if r.pct(85) {
                if let Some(dir) = tables::Dir::parse(&font.disk) {
                    font.dir = dir;
                    let sane = font.dir.entries.len() < 100 && font.dir.entries.iter().all(|e| e.size < 1 << 20);
                    if sane {
                        font.resum();
                    }
                }
            }
            if r.pct(15) {
                let d = &mut font.disk;
                d.len = d.nth(r.below(d.stored()));
            }
            let c = client(&mut s, font.disk.clone(), 0);
            s.steps.push(Step::new(c, Op::Open(r.pct(50))));
            for x in OWN {
                if x == t || r.pct(20) {
                    s.steps.push(Step::new(c, Op::Exists(x)));
                    s.steps.push(Step::new(c, Op::Take(x)));
                }
            }
        }
        _ => {
            if r.pct(4) {
                // One of the lists is long.
                let mut st = style(r);
                st.zero = 0;
                for _ in 0..6 {
                    let mut case = a_case(r, "C06", &st);
                    let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
                    prolong(r, &mut case, &o.counts);
                    let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
                    s.disks.clear();
                    s.clients.clear();
                    let c = client(&mut s, case.disk.clone(), 0);
                    s.steps = case_steps(c, &case);
                    if o.units > 10_000 && !unsafe_to_read(&s) {
                        return s;
                    }
                }
                return c06(r);
            }
            let mut case = a_case(r, "C06", &st);
            let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
            let (low, high) = if o.low < o.high { (o.low, o.high) } else { (case.pos, case.pos + 8) };
            let k = r.range(1, 6);
            if !o.counts.is_empty() && r.pct(25) {
                inflate(r, &mut case.disk, &o.counts);
            }
            for _ in 0..k {
                // A field that decides how the rest is read, or anything.
                damage(r, &mut case.disk, low, high);
            }
            if r.pct(20) {
                let d = &mut case.disk;
                d.len = d.nth(r.below(d.stored().max(1)));
            }
            let c = client(&mut s, case.disk.clone(), 0);
            s.steps.extend(case_steps(c, &case));
        }
    }
    if unsafe_to_read(&s) {
        return c06(r);
    }
    if r.pct(20) {
        for t in s.steps.iter_mut() {
            t.plan = soft_plan(r, 60);
        }
    }
    s
}

fn c07(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C07");
    let mut st = style(r);
    st.zero = 0;
    if r.below(150) == 0 {
        // A list of thousands of parts, many of which are the same.
        st.bulk = 1;
        st.vast = true;
        st.null = st.null.min(30);
        for _ in 0..8 {
            let kind = any_kind(r);
            let lay = Lay::near(r);
            let mut case = gen::case(r, kind, &st, 0, lay);
            let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
            if !(20_000..1_500_000).contains(&o.units) {
                continue;
            }
            if r.pct(20) {
                let d = &mut case.disk;
                d.len = d.len.min(r.range(o.low, o.high));
            }
            let c = client(&mut s, case.disk.clone(), 0);
            s.steps.extend(case_steps(c, &case));
            s.steps[0].blind = true;
            return s;
        }
        return c07(r);
    }
    match r.below(10) {
        0 => {
            // The directory promises more than there is.
            let mut font = a_font(r, &st);
            let n = font.dir.entries.len() as u64;
            let k = r.range(1, 3);
            for _ in 0..k {
                match r.below(4) {
                    0 => clipped(&mut font.disk, 4, &r.u16().to_be_bytes(), u64::MAX),
                    _ if n > 0 => {
                        let i = r.below(n);
                        let v = match r.below(6) {
                            0 => 0xFFFF_FFFC,
                            1 => 0xFFFF_FFFF,
                            2 => 0x7FFF_FFFF,
                            3 => 0x8000_0000,
                            4 => 0x1000_0000,
                            _ => r.u32(),
                        };
                        clipped(&mut font.disk, 12 + 16 * i + 12, &v.to_be_bytes(), u64::MAX);
                    }
                    _ => {}
                }
            }
            if font.disk.len > 1 << 20 {
                return c07(r);
            }
            let c = client(&mut s, font.disk.clone(), 0);
            s.steps.push(Step::new(c, Op::Open(r.pct(50))));
            for x in font.present() {
                if x.own().is_some() {
                    s.steps.push(Step::new(c, Op::Take(x)));
                }
                s.steps.push(Step::new(c, Op::Position(x)));
            }
        }
        k => {
            let font = k <= 2;
            let base = if r.pct(60) { 0 } else { r.below(500) };
            let lay = Lay::near(r);
            let kind = if font { r.pick(&[Kind::Gsub, Kind::Gpos, Kind::Gdef, Kind::Cpal, Kind::Fvar]) } else { any_kind(r) };
            let mut case =
                if !font && r.pct(10) { let w = r.below(INLINE); gen::inline_case(r, w, &st, base, lay) } else { gen::case(r, kind, &st, base, lay) };
            let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
            let (low, high) = if o.low < o.high { (o.low, o.high) } else { (case.pos, case.pos + 8) };
            let k = r.range(1, 3);
            let backed = !o.counts.is_empty() && r.pct(8);
            if backed {
                // A list that the file holds, next to others that it does not.
                let p = r.pick(&o.counts);
                let n = r.range(200, 4000);
                back(r, &mut case, p, n);
                let mut near: Vec<u64> = refm::decode(&case.disk, case.pos, case.kind, CFG).counts;
                near.extend(&o.counts);
                near.retain(|q| *q != p && q.abs_diff(p) < 20);
                if near.is_empty() {
                    near = o.counts.clone();
                }
                for _ in 0..r.range(1, 2) {
                    let v = r.pick(&[0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0xC000]);
                    case.disk.write(r.pick(&near), &u16::to_be_bytes(v));
                }
            } else if !o.counts.is_empty() && r.pct(40) {
                inflate(r, &mut case.disk, &o.counts);
            }
            let k = if backed { r.below(2) } else { k };
            for _ in 0..k {
                let p = low + 2 * r.below((high - low).div_ceil(2));
                let n = r.pick(&[1, 1, 1, 2, 2, 4]) as usize;
                let v: Vec<u8> = match r.below(5) {
                    0 => vec![0xFF; 2 * n],
                    1 => [0x7F, 0xFF].repeat(n),
                    2 => [0x80, 0x00].repeat(n),
                    3 => [0xFF, 0xF0].repeat(n),
                    _ => [r.u8() | 0x40, r.u8()].repeat(n),
                };
                clipped(&mut case.disk, p, &v, high.max(p + 2));
            }
            if !backed && r.pct(60) {
                let d = &mut case.disk;
                d.len = d.len.min(r.range(low, high));
            }
            if font {
                // As the only table of a font.
                let from = case.pos;
                let n = case.disk.len.saturating_sub(from).min(60_000);
                let b = case.disk.get(from, n as usize).unwrap_or_default();
                let t = *OWN.iter().find(|t| t.own() == Some(kind)).unwrap();
                let mut f = vec![0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
                f.extend(t.tag());
                f.extend(tables::sum_bytes(&t.tag(), &b).to_be_bytes());
                f.extend(28u32.to_be_bytes());
                f.extend((b.len() as u32).to_be_bytes());
                f.extend(&b);
                let pad = (4 - f.len() % 4) % 4;
                f.extend(vec![0; pad]);
                let c = client(&mut s, Disk::from_bytes(f), 0);
                s.steps.push(Step::new(c, Op::Open(r.pct(50))));
                s.steps.push(Step::new(c, Op::Take(t)));
            } else {
                let c = client(&mut s, case.disk.clone(), 0);
                s.steps.extend(case_steps(c, &case));
            }
        }
    }
    if unsafe_to_hold(&s) {
        return c07(r);
    }
    for t in s.steps.iter_mut() {
        t.blind = true;
        if r.pct(10) {
            t.plan = soft_plan(r, 60);
        }
    }
    s
}
/// Whether reading certainly takes long, or runs into what is known.
fn unsafe_to_hold(s: &Scenario) -> bool {
    unsafe_to_read(s)
}

fn c08(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C08");
    let st = style(r);
    let mut font = a_font(r, &st);
    match r.below(12) {
        0 => {
            // Other signatures.
            let v: [u8; 4] = match r.below(6) {
                0 => *b"ttcf",
                1 => [0, 2, 0, 0],
                2 => *b"OTTP",
                3 => *b"wOFF",
                4 => r.pick(&[[0, 1, 0, 1], [0, 0, 0, 1], *b"True", *b"typ2", *b"TRUE", [0, 0, 0, 0], *b"wOF2", *b"true"]),
                _ => r.u32().to_be_bytes(),
            };
            font.disk.write(0, &v);
        }
        1 => {
            // The directory is cut.
            let n = 12 + 16 * font.dir.entries.len() as u64;
            font.disk.len = r.below(n + 2);
        }
        2 => {
            // More entries than there are.
            let n = font.dir.entries.len() as u16;
            let m = if r.pct(50) { n + r.below(4) as u16 } else { r.below(n as u64 + 1) as u16 };
            font.disk.write(4, &m.to_be_bytes());
        }
        3 => {
            // Many tables of unknown kinds, with a known one somewhere.
            let n = r.range(1, 400) as usize;
            let t = r.pick(&ALL);
            let at = r.idx(n);
            let mut d = vec![0u8, 1, 0, 0];
            d.extend((n as u16).to_be_bytes());
            d.extend(r.bytes(6));
            for i in 0..n {
                if i == at {
                    d.extend(t.tag());
                } else {
                    let mut g = r.u32().to_be_bytes();
                    if T::from_tag(&g).is_some() {
                        g = *b"none";
                    }
                    d.extend(g);
                }
                d.extend(0u32.to_be_bytes());
                d.extend(r.u32().to_be_bytes());
                d.extend(0u32.to_be_bytes());
            }
            font.disk = Disk::from_bytes(d);
            font.dir = tables::Dir::parse(&font.disk).unwrap();
        }
        4 => namesake(r, &mut font),
        5 if !font.dir.entries.is_empty() => {
            // A tag is off by one bit.
            let n = font.dir.entries.len() as u64;
            let i = r.below(n);
            let p = 12 + 16 * i + r.below(4);
            let old = font.disk.get(p, 1).unwrap()[0];
            font.disk.write(p, &[old ^ (1 << r.below(8))]);
        }
        _ => {}
    }
    let b = buffer(r);
    let c = client(&mut s, font.disk.clone(), b);
    s.steps.push(Step::new(c, Op::Open(r.pct(50))));
    let n = r.range(2, 8);
    for _ in 0..n {
        let t = if r.pct(50) { r.pick(&ALL) } else { let p = font.present(); if p.is_empty() { r.pick(&ALL) } else { p[r.idx(p.len())] } };
        let op = match r.below(5) {
            0 | 1 => Op::Exists(t),
            2 => Op::Position(t),
            _ => Op::Take(t),
        };
        s.steps.push(Step::new(c, op));
    }
    if r.pct(20) {
        s.steps.push(Step::new(c, Op::Open(r.pct(50))));
        for t in ALL {
            s.steps.push(Step::new(c, Op::Exists(t)));
        }
    }
    if unsafe_to_read(&s) {
        return c08(r);
    }
    // Failures and retries.
    if r.pct(50) {
        let n = calls(&s);
        let mut steps = vec![];
        for (t, n) in s.steps.iter().zip(n) {
            if n > 0 && r.pct(40) {
                let mut f = t.clone();
                f.plan = deadly_plan(r, n);
                steps.push(f);
            }
            let mut t = t.clone();
            if r.pct(20) {
                t.plan = soft_plan(r, n);
            }
            steps.push(t);
        }
        s.steps = steps;
    }
    s
}

/// A checksum is recorded that may look special, but is not that of the table.
fn missummed(r: &mut Rng, font: &mut FontFile, i: usize) {
    let e = &font.dir.entries;
    let old = e[i].checksum;
    let v = match r.below(10) {
        0..=2 => 0,
        3 => 0xFFFF_FFFF,
        4 => old.swap_bytes(),
        5 => old.wrapping_add(1),
        6 => 0xB1B0_AFBA_u32.wrapping_sub(old),
        7 => e[r.idx(e.len())].checksum,
        8 => !old,
        _ => old.wrapping_neg(),
    };
    font.disk.write(12 + 16 * i as u64 + 4, &v.to_be_bytes());
    font.dir = tables::Dir::parse(&font.disk).unwrap();
}

/// Two entries with one tag.
fn namesake(r: &mut Rng, font: &mut FontFile) {
    let n = font.dir.entries.len() as u64;
    if n > 1 {
        let (a, b) = (r.below(n), r.below(n));
        let tag = font.dir.entries[a as usize].tag;
        font.disk.write(12 + 16 * b, &tag);
        font.dir = tables::Dir::parse(&font.disk).unwrap();
    }
}

fn c09(r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C09");
    let st = style(r);
    let base = gen::any_base(r);
    let lay = Lay::new(r);
    let w = r.below(INLINE);
    let case = gen::inline_case(r, w, &st, base, lay);
    let b = buffer(r);
    let c = client(&mut s, case.disk.clone(), b);
    s.steps = case_steps(c, &case);
    // From each of them on, after a failure.
    if r.pct(40) {
        let n = calls(&s);
        let mut steps = vec![];
        let mut f = s.steps[0].clone();
        f.plan = deadly_plan(r, n[0]);
        steps.push(f);
        steps.extend(s.steps.clone());
        s.steps = steps;
    }
    let n = calls(&s);
    for (t, n) in s.steps.iter_mut().zip(n) {
        if t.plan == Plan::default() && r.pct(50) {
            t.plan = soft_plan(r, n);
        }
    }
    s
}

/// The properties about what the tables hold.
fn stored(prop: &str, r: &mut Rng) -> Scenario {
    let mut s = Scenario::new(prop);
    let mut st = flawed_style(r, if CFG.dirs || CFG.marks { 15 } else { 0 });
    st.bulk = 60;
    let tables = table_of(prop);
    if r.pct(70) {
        let n = if r.pct(80) { 1 } else { 2 };
        let mut queues = vec![];
        for _ in 0..n {
            let mut case = a_case(r, prop, &st);
            if r.pct(25) {
                // Other bytes are as good, as long as they can be read.
                let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
                let k = r.range(1, 3);
                for _ in 0..k {
                    if o.low < o.high {
                        damage(r, &mut case.disk, o.low, o.high);
                    }
                }
            }
            let b = buffer(r);
            let c = client(&mut s, case.disk.clone(), b);
            queues.push(case_steps(c, &case));
        }
        merge(r, &mut s, queues);
    } else {
        let t = r.pick(tables);
        let font = font_with(r, &st, &[t]);
        let b = buffer(r);
        let c = client(&mut s, font.disk.clone(), b);
        s.steps.push(Step::new(c, Op::Open(r.pct(50))));
        s.steps.push(Step::new(c, Op::Take(t)));
        if r.pct(30) {
            s.steps.push(Step::new(c, Op::Seek(r.below(1000))));
            s.steps.push(Step::new(c, Op::Take(t)));
        }
    }
    if unsafe_to_read(&s) {
        return stored(prop, r);
    }
    if r.pct(60) {
        let n = calls(&s);
        for (t, n) in s.steps.iter_mut().zip(n) {
            t.plan = soft_plan(r, n);
        }
    }
    s
}

fn violate(r: &mut Rng, disk: &Disk, d: &refm::Disc) -> Option<Vec<u8>> {
    let old = disk.get(d.pos, d.width as usize)?;
    let whole = old.iter().fold(0u64, |a, b| a << 8 | *b as u64);
    let top = if d.width == 4 { 0xFFFF_FFFFu64 } else { 0xFFFF };
    let v = match d.rule {
        Rule::OneOf(set) => match r.below(6) {
            0 => 0,
            1 => top,
            2 => whole ^ (1 << r.below(8 * d.width as u64)),
            3 => (whole + r.range(1, 3)) & top,
            4 => {
                let k = set[r.idx(set.len())] as u64;
                (k + r.pick(&[1, 0x100, 0x8000, 0x1_0000, 0x1_0001])) & top
            }
            _ => r.u64() & top,
        },
        Rule::Without(bits) => {
            let on: Vec<u32> = (0..32).filter(|b| bits >> b & 1 == 1).collect();
            if on.is_empty() {
                return None;
            }
            let mut v = whole;
            let n = if r.pct(75) { 1 } else { r.range(2, 3) };
            for _ in 0..n {
                v |= 1 << on[r.idx(on.len())];
            }
            v
        }
        Rule::NonZero => 0,
        Rule::Range => {
            // The start exceeds the end.
            let end = disk.get(d.pos + 2, 2)?;
            let end = u16::from_be_bytes([end[0], end[1]]);
            if end == 0xFFFF {
                return None;
            }
            match r.below(3) {
                0 => end as u64 + 1,
                1 => 0xFFFF,
                _ => r.range(end as u64 + 1, 0xFFFF),
            }
        }
        Rule::Palette(base) => {
            let w = |p: u64| disk.get(p, 2).map(|b| u16::from_be_bytes([b[0], b[1]]) as u64);
            let entries = w(base + 2)?;
            let colors = w(base + 6)?;
            // The first index that goes beyond.
            if colors + 1 < entries {
                return None;
            }
            match r.below(3) {
                0 => colors + 1 - entries,
                1 => 0xFFFF,
                _ => r.range((colors + 1 - entries).min(0xFFFF), 0xFFFF),
            }
        }
    };
    let b = v.to_be_bytes()[8 - d.width as usize..].to_vec();
    if b == old || v > top {
        return None;
    }
    Some(b)
}

fn c17(r: &mut Rng) -> Scenario {
    for _ in 0..200 {
        let mut s = Scenario::new("C17");
        let st = style(r);
        let font = r.pct(30);
        if font {
            let t = r.pick(&OWN);
            let f = font_with(r, &st, &[t]);
            let (i, e) = f.dir.entries.iter().enumerate().find(|(_, e)| e.tag == t.tag()).map(|(i, e)| (i, *e)).unwrap();
            let o = refm::decode(&f.disk, e.offset as u64, t.own().unwrap(), CFG);
            if o.discs.is_empty() || o.vague || o.result.is_err() {
                continue;
            }
            let d = o.discs[r.idx(o.discs.len())];
            let Some(b) = violate(r, &f.disk, &d) else { continue };
            let mut bad = f.clone();
            bad.disk.write(d.pos, &b);
            if d.pos < e.offset as u64 || d.pos + b.len() as u64 > e.offset as u64 + e.size as u64 {
                continue;
            }
            let o = refm::decode(&bad.disk, e.offset as u64, t.own().unwrap(), CFG);
            if o.vague || !matches!(o.result, Err(refm::Bad::Malformed(_))) {
                continue;
            }
            bad.resum();
            let sum = bad.disk.get(12 + 16 * i as u64 + 4, 4).unwrap();
            let old = f.disk.get(12 + 16 * i as u64 + 4, 4).unwrap();
            let was = f.disk.get(d.pos, b.len()).unwrap();
            let buf = buffer(r);
            let c = client(&mut s, f.disk.clone(), buf);
            let reads = |r: &mut Rng, s: &mut Scenario, n: u64| {
                s.steps.push(Step::new(c, Op::Open(r.pct(50))));
                for _ in 0..n {
                    let mut x = Step::new(c, Op::Take(t));
                    if r.pct(40) {
                        x.plan = soft_plan(r, 60);
                    }
                    s.steps.push(x);
                }
            };
            if r.pct(50) {
                reads(r, &mut s, 1);
            }
            s.steps.push(Step::new(c, Op::Patch(0, d.pos, b)));
            s.steps.push(Step::new(c, Op::Patch(0, 12 + 16 * i as u64 + 4, sum)));
            let n = r.range(1, 3);
            reads(r, &mut s, n);
            s.steps.push(Step::new(c, Op::Patch(0, d.pos, was)));
            s.steps.push(Step::new(c, Op::Patch(0, 12 + 16 * i as u64 + 4, old)));
            reads(r, &mut s, 1);
            if unsafe_to_read(&s) {
                continue;
            }
            return s;
        }
        let case = a_case(r, "C17", &st);
        let o = refm::decode(&case.disk, case.pos, case.kind, CFG);
        if o.discs.is_empty() || o.vague || o.result.is_err() {
            continue;
        }
        // Rare fields as often as common ones.
        let mut names: Vec<&str> = o.discs.iter().map(|d| d.what).collect();
        names.sort();
        names.dedup();
        let name = names[r.idx(names.len())];
        let some: Vec<_> = o.discs.iter().filter(|d| d.what == name).collect();
        let d = *some[r.idx(some.len())];
        let Some(b) = violate(r, &case.disk, &d) else { continue };
        let mut bad = case.disk.clone();
        bad.write(d.pos, &b);
        let o = refm::decode(&bad, case.pos, case.kind, CFG);
        if o.vague || !matches!(o.result, Err(refm::Bad::Malformed(_))) {
            continue;
        }
        let was = case.disk.get(d.pos, b.len()).unwrap();
        let buf = buffer(r);
        let c = client(&mut s, case.disk.clone(), buf);
        let reads = |r: &mut Rng, s: &mut Scenario, n: u64| {
            for _ in 0..n {
                let mut x = Step::new(c, Op::ReadAt(case.pos, case.kind));
                if r.pct(40) {
                    x.plan = soft_plan(r, 60);
                }
                s.steps.push(x);
            }
        };
        if r.pct(50) {
            reads(r, &mut s, 1);
        }
        s.steps.push(Step::new(c, Op::Patch(0, d.pos, b)));
        let n = r.range(1, 3);
        reads(r, &mut s, n);
        s.steps.push(Step::new(c, Op::Patch(0, d.pos, was)));
        reads(r, &mut s, 1);
        if unsafe_to_read(&s) {
            continue;
        }
        return s;
    }
    // The simplest: a class of an unknown format.
    let mut s = Scenario::new("C17");
    let c = client(&mut s, Disk::from_bytes(vec![0, 3, 0, 0, 0, 0]), 0);
    s.steps.push(Step::new(c, Op::ReadAt(0, Kind::Class)));
    s
}

fn c18(r: &mut Rng) -> Scenario {
    // The same whatever the switches: nothing here may depend on them.
    let mut s = Scenario::new("C18");
    let st = flawed_style(r, 60);
    if r.pct(50) {
        let kind = match r.below(4) {
            0 => Kind::Gsub,
            1 => Kind::Gpos,
            2 => Kind::GposType(r.pick(&[4, 5, 6])),
            _ => any_kind(r),
        };
        let base = gen::any_base(r);
        let lay = Lay::new(r);
        let case = if r.pct(15) {
            gen::inline_case(r, 1, &st, base, lay)
        } else if r.pct(15) {
            gen::case(r, Kind::MarkArray, &st, base, lay)
        } else {
            gen::case(r, kind, &st, base, lay)
        };
        let b = buffer(r);
        let c = client(&mut s, case.disk.clone(), b);
        s.steps = case_steps(c, &case);
    } else {
        let mut font = if r.pct(60) {
            let t = r.pick(&[T::Gsub, T::Gpos]);
            font_with(r, &st, &[t])
        } else {
            a_font(r, &st)
        };
        let n = font.dir.entries.len();
        if n > 0 && r.pct(50) {
            // A wrong checksum, or damage that makes it wrong.
            let k = r.range(1, 2);
            for _ in 0..k {
                let i = r.idx(n);
                let e = font.dir.entries[i];
                if r.pct(20) {
                    missummed(r, &mut font, i);
                } else if r.pct(60) {
                    let p = 12 + 16 * i as u64 + 4 + r.below(4);
                    let old = font.disk.get(p, 1).unwrap()[0];
                    font.disk.write(p, &[old ^ (1 << r.below(8))]);
                } else if T::from_tag(&e.tag).map_or(true, |t| t.own().is_some()) {
                    damage(r, &mut font.disk, e.offset as u64, e.offset as u64 + e.size as u64);
                }
            }
        }
        if r.pct(10) {
            let d = &mut font.disk;
            d.len = d.nth(r.below(d.stored()));
        }
        let b = buffer(r);
        let c = client(&mut s, font.disk.clone(), b);
        s.steps.push(Step::new(c, Op::Open(r.pct(50))));
        let k = r.range(2, 5);
        for _ in 0..k {
            let op = request(r, &font);
            s.steps.push(Step::new(c, op));
        }
    }
    // Budgets by the most lenient reading, so that all builds run the same.
    let lenient = refm::Cfg { dirs: true, marks: true, sums: true };
    let mut reach = BTreeSet::new();
    let dir = tables::Dir::parse(&s.disks[0]);
    for t in &s.steps {
        let (_, n) = model::want(dir.as_ref(), &s.disks[0], &t.op, lenient, None, &mut reach);
        if n.budget || n.zero_width > 20_000 {
            return c18(r);
        }
    }
    let mut steps = vec![];
    for t in &s.steps {
        if r.pct(25) && !matches!(t.op, Op::Open(_) | Op::ReadNext(_)) {
            let mut f = t.clone();
            f.plan = hard_plan(r, 40);
            steps.push(f);
        }
        let mut t = t.clone();
        if r.pct(25) {
            t.plan = soft_plan(r, 60);
        }
        steps.push(t);
    }
    s.steps = steps;
    s
}

// Verdicts.

fn violation(at: &At, class: &str, text: &str) -> Option<Violation> {
    Some(Violation {
        class: class.to_string(),
        text: format!("step {} ({}): {text}", at.i, scen::op_text(&at.step.op)),
    })
}
fn panicked(at: &At) -> Option<Violation> {
    match &at.obs.res {
        Res::Panic(m) => violation(at, "panic", &format!("panicked: {m}")),
        _ => None,
    }
}
/// A stream failure must surface.
fn surfaced(at: &At) -> Option<Violation> {
    let hard = hard_fired(at.obs);
    if hard.is_empty() || at.obs.res == Res::Skipped {
        return None;
    }
    let kinds = fired_kinds(at.obs);
    let name = crate::disk::fault_name(&hard[0].1);
    match &at.obs.res {
        Res::Err(k, m) => {
            // Some tables of the dependencies wrap errors; this is beyond this library.
            let wraps = matches!(at.step.op, Op::Take(t) if t.own().is_none());
            let fine = if wraps { k.iter().any(|k| kinds.contains(k)) } else { kinds.contains(&k[0]) };
            if fine {
                None
            } else {
                violation(at, "kind", &format!("the stream failed at call {} ({name}), but the error is {:?} ({m})", hard[0].0, k[0]))
            }
        }
        Res::Panic(m) => violation(at, "panic", &format!("the stream failed at call {} ({name}), and it panicked: {m}", hard[0].0)),
        res => violation(at, "swallowed", &format!("the stream failed at call {} ({name}), but it returned {}", hard[0].0, res.show())),
    }
}

pub fn judge(s: &Scenario, obs: &[Obs]) -> Verdict {
    let mut v = Verdict::default();
    let mut m = Model::new(s);
    let mut nontrivial = false;
    let prop = s.prop.as_str();
    let strict = !CFG.sums;
    // What only depends on a second execution.
    if prop == "C02" {
        return c02_judge(s, obs);
    }
    let vast = |(t, o): (&Step, &Obs)| matches!(t.op, Op::Take(t) if t.own().is_none()) && o.trace.runaway;
    if s.steps.iter().zip(obs).any(vast) {
        // A table of the dependencies that is too large to be read to its end.
        return v;
    }
    let mut values = 0;
    let found = m.walk(obs, |m, at, key| {
        let o = at.obs;
        let hard = !hard_fired(o).is_empty();
        let soft = !o.trace.fired.is_empty() || o.trace.soft > 0;
        if o.trace.runaway && prop != "C06" {
            let (_, n) = m.want(at, key);
            if n.budget || 80 * (n.units + n.zero_width) > scen::runaway() {
                // The stream gave up on something that is as large as it seems.
                return None;
            }
        }
        match prop {
            "C01" => {
                if hard {
                    nontrivial = true;
                    return surfaced(at);
                }
                if let Res::Panic(_) = o.res {
                    return panicked(at);
                }
                // The natural end of the file.
                let (w, n) = m.want(at, key);
                if n.cut && o.res != Res::Skipped && matches!(w, Want::Err(_)) {
                    let own = !matches!(at.step.op, Op::Take(t) if t.own().is_none());
                    nontrivial = true;
                    match &o.res {
                        Res::Err(k, msg) => {
                            let eof = std::io::ErrorKind::UnexpectedEof;
                            if (own && k[0] != eof) || !k.contains(&eof) {
                                return violation(at, "kind", &format!("the file ends early, but the error is {:?} ({msg})", k[0]));
                            }
                        }
                        res => return violation(at, "swallowed", &format!("the file ends early, but it returned {}", res.show())),
                    }
                }
                None
            }
            "C03" => {
                if hard {
                    nontrivial = true;
                    return panicked(at);
                }
                let (w, _) = m.want(at, key);
                if s.threads || at.i > 1 {
                    nontrivial = true;
                }
                let (class, text) = differs(&w, &o.res)?;
                // On its own it must be otherwise, or this is no matter of history.
                match alone(&model::isolated(s, at)) {
                    Some(same) if same == scen::brief(&o.res) => None,
                    _ => violation(at, class, &text),
                }
            }
            "C04" => {
                if !strict || hard {
                    return None;
                }
                let (w, n) = m.want(at, key);
                if n.bad_sum {
                    nontrivial = true;
                    if !matches!(o.res, Res::Err(..) | Res::Skipped) {
                        return violation(at, "accepted", &format!("the checksum does not match, but it returned {}", o.res.show()));
                    }
                    return None;
                }
                if !at.since.is_empty() {
                    nontrivial = true;
                }
                let (class, text) = differs(&w, &o.res)?;
                if !matches!(w, Want::Val(_) | Want::ValOrErr(_) | Want::At(_)) {
                    return None;
                }
                // The table is as recorded: compare with the file before any damage to the rest.
                let mut alone = model::isolated(s, at);
                alone.disks = vec![s.disks[at.disk_index].clone()];
                alone.steps.retain(|t| !matches!(t.op, Op::Patch(..) | Op::SetLen(..)));
                let dir = tables::Dir::parse(&alone.disks[0])?;
                if Some(&dir) != at.dir {
                    return None;
                }
                let (before, _) = model::want(Some(&dir), &alone.disks[0], &at.step.op, CFG, None, &mut m.reach);
                if before != w || scen::run(&alone).pop()?.res == o.res {
                    return None;
                }
                violation(at, class, &format!("there is damage, but not to the table: {text}"))
            }
            "C05" => {
                if hard {
                    return None;
                }
                if let Res::Panic(_) = o.res {
                    return panicked(at);
                }
                // Disk 1 is disk 0, cut.
                if at.disk_index != 1 || s.disks.len() < 2 {
                    return None;
                }
                let whole = &at.disks[0];
                if at.disk.segs != whole.segs || at.disk.len > whole.len {
                    return None;
                }
                if at.disk.len < whole.len && o.res != Res::Skipped {
                    nontrivial = true;
                }
                if let Res::Err(..) | Res::Skipped = o.res {
                    return None;
                }
                let whole_dir = tables::Dir::parse(whole);
                if !matches!(at.step.op, Op::Open(_) | Op::ReadAt(..)) && whole_dir.as_ref() != at.dir {
                    return None;
                }
                let (w, _) = model::want(at.dir, whole, &at.step.op, CFG, None, &mut m.reach);
                let (class, text) = differs(&w, &o.res)?;
                let mut alone = model::isolated(s, at);
                alone.disks = vec![(**whole).clone()];
                alone.steps.retain(|t| !matches!(t.op, Op::Patch(..) | Op::SetLen(..)));
                let complete = scen::run(&alone).pop()?.res;
                if complete == o.res {
                    return None;
                }
                if let Res::Err(..) = complete {
                    return violation(at, "made-up", &format!("the complete file gives an error, the cut one does not: {text}"));
                }
                violation(at, class, &format!("the file is cut at {}: {text}", at.disk.len))
            }
            "C06" => {
                if let Res::Panic(_) = o.res {
                    return panicked(at);
                }
                if let Op::Take(t) = at.step.op {
                    if t.own().is_none() {
                        return None;
                    }
                }
                if let Res::Val(_) | Res::Err(..) = o.res {
                    nontrivial = true;
                }
                let plain = at.step.plan == Plan::default() && s.clients[at.step.client].buffer == 0;
                if !plain || hard {
                    return None;
                }
                // Directories may be searched.
                let mut idle = at.dir.map_or(0, |d| d.entries.len() as u64);
                let bound = match at.step.op {
                    Op::Open(_) => {
                        let n = at.disk.get(4, 2).map(|b| u16::from_be_bytes([b[0], b[1]]) as u64).unwrap_or(0);
                        let n = n.min(at.disk.len / 16 + 1);
                        64 + 64 * (n + 1)
                    }
                    Op::Exists(_) => 64,
                    _ => {
                        let (_, n) = m.want(at, key);
                        if n.budget {
                            return None;
                        }
                        idle += n.idle;
                        let size = if n.size > at.disk.len { at.disk.len } else { n.size };
                        64 + 16 * (n.units + n.zero_width) + 2 * size
                    }
                };
                let edges = work_bound(bound, idle);
                if std::env::var("SIM_MEASURE").is_ok() {
                    measure(o.work, bound, idle, &o.res, &at.step.op);
                }
                if o.work > edges {
                    return violation(at, "time", &format!("{} steps of work, more than the {edges} that what it visits allows", o.work));
                }
                if o.trace.calls > bound {
                    return violation(at, "work", &format!("{} stream calls, more than the {bound} that what it visits allows", o.trace.calls));
                }
                None
            }
            "C07" => {
                let own = !matches!(at.step.op, Op::Take(t) if t.own().is_none());
                if !own {
                    return None;
                }
                let (_, n) = m.want(at, key);
                if n.budget {
                    return None;
                }
                if let Res::Panic(p) = &o.res {
                    if p.contains("capacity overflow") || p.contains("memory") {
                        return violation(at, "capacity", &format!("asked for impossible memory: {p}"));
                    }
                }
                nontrivial |= o.trace.bytes > 0;
                let bound = ALLOWANCE + FACTOR * o.trace.bytes + 512 * n.zero_width + 64 * n.idle;
                if o.peak > bound {
                    return violation(
                        at,
                        "memory",
                        &format!("held {} bytes after the stream had delivered {} (at most {bound})", o.peak, o.trace.bytes),
                    );
                }
                None
            }
            "C08" => {
                if hard {
                    nontrivial = true;
                    return panicked(at);
                }
                let (w, n) = m.want(at, key);
                if let Res::Bool(_) | Res::At(_) | Res::Absent | Res::Val(_) | Res::Opened(_) = o.res {
                    nontrivial = true;
                }
                if let (Op::Position(t), Res::At(true), Some(dir)) = (&at.step.op, &o.res, at.dir) {
                    if let Some(e) = dir.find(*t) {
                        if o.pos != e.offset as u64 {
                            return violation(at, "position", &format!("the table is at {}, but the stream is at {}", e.offset, o.pos));
                        }
                    }
                }
                let (class, text) = differs(&w, &o.res)?;
                if n.bad_sum {
                    // A matter of checksums.
                    return None;
                }
                if let Op::Take(t) = at.step.op {
                    let e = at.dir.and_then(|d| d.find(t));
                    if let Some(e) = e {
                        // What is at that position, read directly?
                        if matches!(o.res, Res::Val(_) | Res::Err(..)) {
                            let direct = direct(at, t, e.offset as u64);
                            let same = match (&direct, &o.res) {
                                (Some(Ok(a)), Res::Val(b)) => a == b,
                                (Some(Err(())), Res::Err(..)) => true,
                                (None, _) => true,
                                _ => false,
                            };
                            if same {
                                return None;
                            }
                        }
                    }
                }
                violation(at, class, &text)
            }
            "C09" => {
                let kind = model::kind_of(&at.step.op)?;
                if !kind.inline() || hard {
                    return None;
                }
                let (_, n) = m.want(at, key);
                if !n.exact {
                    return None;
                }
                if let Res::Val(_) | Res::Some = o.res {
                    nontrivial = true;
                    if o.pos != n.end {
                        return violation(at, "position", &format!("the record ends at {}, but the stream is left at {}", n.end, o.pos));
                    }
                }
                None
            }
            "C17" => {
                if hard {
                    return panicked(at);
                }
                let (w, n) = m.want(at, key);
                match (&w, &o.res) {
                    (Want::Err(what), Res::Val(_) | Res::Some | Res::Panic(_) | Res::Absent) if n.malformed => {
                        nontrivial = true;
                        violation(at, "accepted", &format!("what is stored is wrong ({what}), but it returned {}", o.res.show()))
                    }
                    (Want::Err(_), Res::Err(..)) if n.malformed => {
                        nontrivial = true;
                        None
                    }
                    (Want::Val(_), Res::Err(..)) => {
                        // Before or after: everything is in order.
                        violation(at, "rejected", &format!("what is stored is in order, but it returned {}", o.res.show()))
                    }
                    _ => None,
                }
            }
            "C18" => {
                if hard {
                    return surfaced(at);
                }
                let (w, n) = m.want(at, key);
                if n.null_lists + n.null_marks > 0 || n.bad_sum {
                    nontrivial = true;
                }
                let (class, text) = differs(&w, &o.res)?;
                // The same under all switches, and no flaw: nothing they name.
                if n.null_lists + n.null_marks == 0 && !n.bad_sum && !peers_differ(&model::isolated(s, at), &scen::brief(&o.res)) {
                    return None;
                }
                violation(at, class, &text)
            }
            // What tables hold.
            _ => {
                if hard {
                    return panicked(at);
                }
                let (w, _) = m.want(at, key);
                match (&w, &o.res) {
                    (Want::Val(_), Res::Val(_)) => {
                        values += 1;
                        nontrivial |= values > 0 && (soft || values > 0);
                    }
                    // Whether wrong fields are accepted is the matter of another property.
                    (Want::Err(_), _) if !matches!(o.res, Res::Panic(_)) => {
                        let cut = m.want(at, key).1.cut;
                        if !cut || matches!(o.res, Res::Err(..)) {
                            return None;
                        }
                    }
                    _ => {}
                }
                let (class, text) = differs(&w, &o.res)?;
                violation(at, class, &text)
            }
        }
    });
    v.violation = found;
    v.nontrivial = nontrivial;
    v.reach = std::mem::take(&mut m.reach);
    v
}

/// Bounds of memory.
pub const ALLOWANCE: u64 = 64 << 20;
pub const FACTOR: u64 = 2048;

fn c02_judge(s: &Scenario, obs: &[Obs]) -> Verdict {
    let mut v = Verdict::default();
    if s.steps.iter().any(|t| t.plan.events.iter().any(|e| e.1.hard())) {
        return v;
    }
    let mut quiet = s.clone();
    for t in quiet.steps.iter_mut() {
        t.plan = Plan::default();
    }
    for c in quiet.clients.iter_mut() {
        c.buffer = 0;
    }
    let other = scen::run(&quiet);
    for (i, ((a, b), t)) in obs.iter().zip(&other).zip(&s.steps).enumerate() {
        v.nontrivial |= (!a.trace.fired.is_empty() || a.trace.soft > 0) && !matches!(a.res, Res::Skipped);
        if b.trace.runaway || a.trace.runaway && 8 * (b.trace.calls + b.trace.bytes) > scen::runaway() {
            // Too much to be delivered slowly.
            return v;
        }
        let same = match (&a.res, &b.res) {
            (Res::Err(x, m), Res::Err(y, n)) => x == y && m == n,
            (x, y) => x == y,
        };
        if !same {
            v.violation = Some(Violation {
                class: format!("{}-{}", b.res.class(), a.res.class()),
                text: format!(
                    "step {i} ({}): all at once it returned {}, in pieces {}",
                    scen::op_text(&t.op),
                    b.res.show(),
                    a.res.show()
                ),
            });
            return v;
        }
        let inline = model::kind_of(&t.op).map(|k| k.inline()).unwrap_or(false);
        if (inline && matches!(a.res, Res::Val(_)) || matches!(a.res, Res::At(true))) && a.pos != b.pos {
            v.violation = Some(Violation {
                class: "position".into(),
                text: format!(
                    "step {i} ({}): all at once the stream was left at {}, in pieces at {}",
                    scen::op_text(&t.op),
                    b.pos,
                    a.pos
                ),
            });
            return v;
        }
    }
    v
}

fn direct(at: &At, t: T, offset: u64) -> Option<Result<crate::dump::Toks, ()>> {
    use crate::disk::Tape;
    use std::sync::{Arc, Mutex};
    let disk = Arc::new(Mutex::new((**at.disk).clone()));
    let r = scen::quietly(|| match t.own() {
        Some(kind) => {
            let mut tape = Tape::new(disk.clone());
            use std::io::Seek;
            tape.seek(std::io::SeekFrom::Start(offset)).ok()?;
            Some(tables::read_kind(kind, &mut tape).map(|v| v.dump()).map_err(|_| ()))
        }
        None => {
            let given = tables::given(t, &mut Tape::new(disk.clone()), at.dir?)?;
            let mut tape = Tape::new(disk.clone());
            let v = tables::dependency(t, &mut tape, offset, &given).map(|v| v.dump()).map_err(|_| ());
            (!tape.trace.runaway).then_some(v)
        }
    });
    r.ok().flatten()
}

/// The last result of a scenario in a process that has done nothing else.
fn alone(s: &Scenario) -> Option<String> {
    let exe = std::env::current_exe().ok()?;
    elsewhere(exe.to_str()?, s)
}
fn elsewhere(exe: &str, s: &Scenario) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut child = Command::new(exe)
        .arg("isolated")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    child.stdin.take()?.write_all(s.text().as_bytes()).ok()?;
    let out = child.wait_with_output().ok()?;
    if !out.status.success() {
        return None;
    }
    Some(String::from_utf8_lossy(&out.stdout).trim().to_string())
}
/// Whether the programs built with other switches return something else.
fn peers_differ(s: &Scenario, mine: &str) -> bool {
    let Ok(peers) = std::env::var("SIM_PEERS") else { return true };
    peers.split(',').filter(|p| !p.is_empty()).any(|p| elsewhere(p, s).as_deref() != Some(mine))
}
