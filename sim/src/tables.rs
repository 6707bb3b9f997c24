//! The table kinds of a font, and fonts made of them.

use crate::disk::Disk;
use crate::dump::{Dump, Toks};
use crate::gen::{self, Gen, Lay, Style};
use crate::refm::{self, Cfg, Kind};
use crate::rng::{Hash, Rng};

use opentype::postscript::compact1::font_set::{character_id_keyed, FontSet, Record as CffRecord};
use opentype::postscript::compact1::Operations;
use opentype::tables::{ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution};
use opentype::tape;
use opentype::truetype::tables as tt;
use opentype::Font;

use std::io::SeekFrom;

pub type IoResult<T> = std::io::Result<T>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Cff,
    Cpal,
    Gdef,
    Gpos,
    Gsub,
    Os2,
    Cmap,
    Fvar,
    Glyf,
    Head,
    Hhea,
    Hmtx,
    Loca,
    Maxp,
    Name,
    Post,
}
pub const ALL: [T; 16] = [
    T::Cff,
    T::Cpal,
    T::Gdef,
    T::Gpos,
    T::Gsub,
    T::Os2,
    T::Cmap,
    T::Fvar,
    T::Glyf,
    T::Head,
    T::Hhea,
    T::Hmtx,
    T::Loca,
    T::Maxp,
    T::Name,
    T::Post,
];
pub const OWN: [T; 5] = [T::Cpal, T::Gdef, T::Gpos, T::Gsub, T::Fvar];

impl T {
    pub fn tag(self) -> [u8; 4] {
        match self {
            T::Cff => *b"CFF ",
            T::Cpal => *b"CPAL",
            T::Gdef => *b"GDEF",
            T::Gpos => *b"GPOS",
            T::Gsub => *b"GSUB",
            T::Os2 => *b"OS/2",
            T::Cmap => *b"cmap",
            T::Fvar => *b"fvar",
            T::Glyf => *b"glyf",
            T::Head => *b"head",
            T::Hhea => *b"hhea",
            T::Hmtx => *b"hmtx",
            T::Loca => *b"loca",
            T::Maxp => *b"maxp",
            T::Name => *b"name",
            T::Post => *b"post",
        }
    }
    pub fn from_tag(tag: &[u8]) -> Option<T> {
        ALL.iter().copied().find(|t| t.tag() == *tag)
    }
    pub fn label(self) -> &'static str {
        match self {
            T::Cff => "CFF",
            T::Cpal => "CPAL",
            T::Gdef => "GDEF",
            T::Gpos => "GPOS",
            T::Gsub => "GSUB",
            T::Os2 => "OS2",
            T::Cmap => "cmap",
            T::Fvar => "fvar",
            T::Glyf => "glyf",
            T::Head => "head",
            T::Hhea => "hhea",
            T::Hmtx => "hmtx",
            T::Loca => "loca",
            T::Maxp => "maxp",
            T::Name => "name",
            T::Post => "post",
        }
    }
    pub fn own(self) -> Option<Kind> {
        match self {
            T::Cpal => Some(Kind::Cpal),
            T::Gdef => Some(Kind::Gdef),
            T::Gpos => Some(Kind::Gpos),
            T::Gsub => Some(Kind::Gsub),
            T::Fvar => Some(Kind::Fvar),
            _ => None,
        }
    }
    /// Tables that are needed to read this one.
    pub fn needs(self) -> &'static [T] {
        match self {
            T::Hmtx => &[T::Hhea, T::Maxp],
            T::Loca => &[T::Head, T::Maxp],
            T::Glyf => &[T::Loca, T::Head, T::Maxp],
            _ => &[],
        }
    }
}

// Values of the dependencies, flattened.

fn text(label: &'static str, s: &str, o: &mut Toks) {
    let mut h = Hash::new();
    h.str(s);
    o.push((label, h.0 as i64));
}
fn debug<V: std::fmt::Debug>(v: &V) -> Toks {
    let s = format!("{v:?}");
    let mut o = vec![("length", s.len() as i64)];
    text("text", &s, &mut o);
    o
}
fn operations(v: &Operations, o: &mut Toks) {
    let mut all: Vec<String> = v.0.iter().map(|p| format!("{p:?}")).collect();
    all.sort();
    text("operations", &all.join("\n"), o);
}
fn cff(v: &FontSet) -> Toks {
    let mut o = vec![];
    text("header", &format!("{:?}", v.header), &mut o);
    text("names", &format!("{:?}", v.names), &mut o);
    text("strings", &format!("{:?}", v.strings), &mut o);
    text("subroutines", &format!("{:?}", v.subroutines), &mut o);
    text("encodings", &format!("{:?}", v.encodings), &mut o);
    text("character_strings", &format!("{:?}", v.character_strings), &mut o);
    text("character_sets", &format!("{:?}", v.character_sets), &mut o);
    for x in &v.operations {
        operations(x, &mut o);
    }
    for r in &v.records {
        match r {
            CffRecord::CharacterNameKeyed(r) => {
                operations(&r.operations, &mut o);
                text("local", &format!("{:?}", r.subroutines), &mut o);
            }
            CffRecord::CharacterIDKeyed(character_id_keyed::Record { operations: all, records, encoding, .. }) => {
                for x in all {
                    operations(x, &mut o);
                }
                for r in records {
                    operations(&r.operations, &mut o);
                    text("local", &format!("{:?}", r.subroutines), &mut o);
                }
                text("encoding", &format!("{encoding:?}"), &mut o);
            }
        }
    }
    o
}

/// What the library returned, not flattened yet.
pub enum Value {
    Cff(FontSet),
    Cpal(ColorPalettes),
    Gdef(GlyphDefinition),
    Gpos(GlyphPositioning),
    Gsub(GlyphSubstitution),
    Os2(tt::WindowsMetrics),
    Cmap(tt::CharacterMapping),
    Fvar(FontVariations),
    Glyf(tt::GlyphData),
    Head(tt::FontHeader),
    Hhea(tt::HorizontalHeader),
    Hmtx(tt::HorizontalMetrics),
    Loca(tt::GlyphMapping),
    Maxp(tt::MaximumProfile),
    Name(tt::Names),
    Post(tt::PostScript),
    Other(Box<dyn FnOnce() -> Toks + Send>),
}
impl Value {
    pub fn dump(self) -> Toks {
        let mut o = vec![];
        match self {
            Value::Cff(v) => return cff(&v),
            Value::Cpal(v) => v.dump("", &mut o),
            Value::Gdef(v) => v.dump("", &mut o),
            Value::Gpos(v) => v.dump("", &mut o),
            Value::Gsub(v) => v.dump("", &mut o),
            Value::Os2(v) => return debug(&v),
            Value::Cmap(v) => return debug(&v),
            Value::Fvar(v) => v.dump("", &mut o),
            Value::Glyf(v) => return debug(&v),
            Value::Head(v) => return debug(&v),
            Value::Hhea(v) => return debug(&v),
            Value::Hmtx(v) => return debug(&v),
            Value::Loca(v) => return debug(&v),
            Value::Maxp(v) => return debug(&v),
            Value::Name(v) => return debug(&v),
            Value::Post(v) => return debug(&v),
            Value::Other(f) => return f(),
        }
        o
    }
}

/// What is needed to read some tables.
#[derive(Default)]
pub struct Given {
    pub head: Option<tt::FontHeader>,
    pub hhea: Option<tt::HorizontalHeader>,
    pub maxp: Option<tt::MaximumProfile>,
    pub loca: Option<tt::GlyphMapping>,
}

/// Read a table as the dependencies do, from its place in the directory.
pub fn dependency<R: tape::Read>(t: T, tape: &mut R, at: u64, given: &Given) -> IoResult<Value> {
    let missing = || std::io::Error::new(std::io::ErrorKind::Other, "nothing to read with");
    tape.seek(SeekFrom::Start(at))?;
    Ok(match t {
        T::Cff => Value::Cff(tape::Read::take(tape)?),
        T::Os2 => Value::Os2(tape::Read::take(tape)?),
        T::Cmap => Value::Cmap(tape::Read::take(tape)?),
        T::Head => Value::Head(tape::Read::take(tape)?),
        T::Hhea => Value::Hhea(tape::Read::take(tape)?),
        T::Maxp => Value::Maxp(tape::Read::take(tape)?),
        T::Name => Value::Name(tape::Read::take(tape)?),
        T::Post => Value::Post(tape::Read::take(tape)?),
        T::Glyf => Value::Glyf(tape::Read::take_given(tape, given.loca.as_ref().ok_or_else(missing)?)?),
        T::Hmtx => Value::Hmtx(tape::Read::take_given(
            tape,
            (given.hhea.as_ref().ok_or_else(missing)?, given.maxp.as_ref().ok_or_else(missing)?),
        )?),
        T::Loca => Value::Loca(tape::Read::take_given(
            tape,
            (given.head.as_ref().ok_or_else(missing)?, given.maxp.as_ref().ok_or_else(missing)?),
        )?),
        _ => return Err(missing()),
    })
}

/// Read what is needed to read a table, on a stream of its own.
pub fn given<R: tape::Read>(t: T, tape: &mut R, dir: &Dir) -> Option<Given> {
    let mut g = Given::default();
    for need in t.needs().iter().rev() {
        let e = dir.find(*need)?;
        match dependency(*need, tape, e.offset as u64, &g).ok()? {
            Value::Head(v) => g.head = Some(v),
            Value::Hhea(v) => g.hhea = Some(v),
            Value::Maxp(v) => g.maxp = Some(v),
            Value::Loca(v) => g.loca = Some(v),
            _ => {}
        }
    }
    Some(g)
}

/// Read a table through the font.
pub fn take<R: tape::Read>(font: &Font, t: T, tape: &mut R, g: &Given) -> IoResult<Option<Value>> {
    Ok(match t {
        T::Cff => font.take(tape)?.map(Value::Cff),
        T::Cpal => font.take(tape)?.map(Value::Cpal),
        T::Gdef => font.take(tape)?.map(Value::Gdef),
        T::Gpos => font.take(tape)?.map(Value::Gpos),
        T::Gsub => font.take(tape)?.map(Value::Gsub),
        T::Os2 => font.take(tape)?.map(Value::Os2),
        T::Cmap => font.take(tape)?.map(Value::Cmap),
        T::Fvar => font.take(tape)?.map(Value::Fvar),
        T::Head => font.take(tape)?.map(Value::Head),
        T::Hhea => font.take(tape)?.map(Value::Hhea),
        T::Maxp => font.take(tape)?.map(Value::Maxp),
        T::Name => font.take(tape)?.map(Value::Name),
        T::Post => font.take(tape)?.map(Value::Post),
        T::Glyf => font.take_given::<R, tt::GlyphData>(tape, g.loca.as_ref().unwrap())?.map(Value::Glyf),
        T::Hmtx => font
            .take_given::<R, tt::HorizontalMetrics>(tape, (g.hhea.as_ref().unwrap(), g.maxp.as_ref().unwrap()))?
            .map(Value::Hmtx),
        T::Loca => font
            .take_given::<R, tt::GlyphMapping>(tape, (g.head.as_ref().unwrap(), g.maxp.as_ref().unwrap()))?
            .map(Value::Loca),
    })
}

macro_rules! each(($t:expr, $m:ident) => (match $t {
    T::Cff => $m!(FontSet),
    T::Cpal => $m!(ColorPalettes),
    T::Gdef => $m!(GlyphDefinition),
    T::Gpos => $m!(GlyphPositioning),
    T::Gsub => $m!(GlyphSubstitution),
    T::Os2 => $m!(tt::WindowsMetrics),
    T::Cmap => $m!(tt::CharacterMapping),
    T::Fvar => $m!(FontVariations),
    T::Glyf => $m!(tt::GlyphData),
    T::Head => $m!(tt::FontHeader),
    T::Hhea => $m!(tt::HorizontalHeader),
    T::Hmtx => $m!(tt::HorizontalMetrics),
    T::Loca => $m!(tt::GlyphMapping),
    T::Maxp => $m!(tt::MaximumProfile),
    T::Name => $m!(tt::Names),
    T::Post => $m!(tt::PostScript),
}));
pub fn exists(font: &Font, t: T) -> bool {
    macro_rules! m(($t:ty) => (font.exists::<$t>()));
    each!(t, m)
}
pub fn position<R: tape::Read>(font: &Font, t: T, tape: &mut R) -> IoResult<Option<()>> {
    macro_rules! m(($t:ty) => (font.position::<R, $t>(tape)));
    each!(t, m)
}

/// Read something directly.
pub fn read_kind<R: tape::Read>(kind: Kind, tape: &mut R) -> IoResult<Value> {
    use opentype::layout as l;
    use opentype::tables::{glyph_definition as gdef, glyph_positioning as gpos, glyph_substitution as gsub};
    use tape::Read;
    macro_rules! other(($v:expr) => ({
        let v = $v;
        Value::Other(Box::new(move || { let mut o = vec![]; v.dump("", &mut o); o }))
    }));
    macro_rules! plain(($t:ty) => (other!(Read::take::<$t>(tape)?)));
    macro_rules! given(($t:ty, $p:expr) => (other!(Read::take_given::<$t>(tape, $p)?)));
    let flag = gpos::Flags;
    Ok(match kind {
        Kind::Gsub => Value::Gsub(Read::take(tape)?),
        Kind::Gpos => Value::Gpos(Read::take(tape)?),
        Kind::Gdef => Value::Gdef(Read::take(tape)?),
        Kind::Cpal => Value::Cpal(Read::take(tape)?),
        Kind::Fvar => Value::Fvar(Read::take(tape)?),
        Kind::Scripts => plain!(l::Scripts),
        Kind::Features => plain!(l::Features),
        Kind::GsubLookups => plain!(l::Lookups<gsub::Type>),
        Kind::GposLookups => plain!(l::Lookups<gpos::Type>),
        Kind::Coverage => plain!(l::Coverage),
        Kind::Class => plain!(l::Class),
        Kind::Correction => plain!(l::Correction),
        Kind::Context => plain!(l::Context),
        Kind::Chained => plain!(l::ChainedContext),
        Kind::GsubType(t) => given!(gsub::Type, t),
        Kind::GposType(t) => given!(gpos::Type, t),
        Kind::Store => plain!(opentype::variations::item::Store),
        Kind::Attachments => plain!(gdef::Attachments),
        Kind::Carets => plain!(gdef::Ligatures),
        Kind::MarkSets => plain!(gdef::Marks),
        Kind::Anchor => plain!(gpos::Anchor),
        Kind::MarkArray => plain!(gpos::Mark1s),
        Kind::Bases(n) => given!(gpos::Bases, n),
        Kind::LigatureArray(n) => given!(gpos::Ligatures, n),
        Kind::Mark2s(n) => given!(gpos::Mark2s, n),
        Kind::Pair1s(a, b) => given!(gpos::Pair1s, (flag(a), flag(b))),
        Kind::Single(p, a) => given!(gpos::Single, (p, flag(a))),
        Kind::Mark1(p) => given!(gpos::Mark1, p),
        Kind::Mark2(p, n) => given!(gpos::Mark2, (p, n)),
        Kind::Base(p, n) => given!(gpos::Base, (p, n)),
        Kind::Component(p, n) => given!(gpos::Component, (p, n)),
        Kind::Connection(p) => given!(gpos::Connection, p),
        Kind::Pair1(p, a, b) => given!(gpos::Pair1, (p, flag(a), flag(b))),
        Kind::Pair2(p, a, b) => given!(gpos::Pair2, (p, flag(a), flag(b))),
        Kind::Pair2s(p, n, a, b) => given!(gpos::Pair2s, (p, n, flag(a), flag(b))),
    })
}

// The reference of a directory.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Entry {
    pub tag: [u8; 4],
    pub checksum: u32,
    pub offset: u32,
    pub size: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Dir {
    pub entries: Vec<Entry>,
}
impl Dir {
    /// Read the directory; nothing if the file is not a font that is supported, or is cut.
    pub fn parse(d: &Disk) -> Option<Dir> {
        let h = d.get(0, 12)?;
        if ![&[0, 1, 0, 0][..], b"OTTO", b"true", b"typ1"].contains(&&h[..4]) {
            return None;
        }
        let n = u16::from_be_bytes([h[4], h[5]]);
        let mut entries = vec![];
        for i in 0..n as u64 {
            let e = d.get(12 + 16 * i, 16)?;
            let w = |k: usize| u32::from_be_bytes(e[k..k + 4].try_into().unwrap());
            entries.push(Entry { tag: e[..4].try_into().unwrap(), checksum: w(4), offset: w(8), size: w(12) });
        }
        Some(Dir { entries })
    }
    pub fn find(&self, t: T) -> Option<&Entry> {
        self.entries.iter().find(|e| e.tag == t.tag())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sum {
    Match,
    Mismatch,
    /// The bytes of the table itself are not all there.
    Cut,
    /// Only the padding after the table is not all there.
    Padding,
    Huge,
}
/// Compare a table with its checksum.
pub fn checksum(d: &Disk, e: &Entry) -> Sum {
    if e.size > 4 << 20 {
        // The end comes soon, or there is a lot to read.
        let (from, to) = (e.offset as u64, e.offset as u64 + e.size as u64);
        let soon = to > d.len && d.len.saturating_sub(from) <= 4 << 20;
        return if soon { Sum::Cut } else { Sum::Huge };
    }
    let Some(mut b) = d.get(e.offset as u64, e.size as usize) else { return Sum::Cut };
    while b.len() % 4 != 0 {
        b.push(0);
    }
    let mut sum = 0u32;
    for (i, w) in b.chunks_exact(4).enumerate() {
        if e.tag == *b"head" && i == 2 {
            continue;
        }
        sum = sum.wrapping_add(u32::from_be_bytes(w.try_into().unwrap()));
    }
    if sum != e.checksum {
        return Sum::Mismatch;
    }
    if d.len < e.offset as u64 + b.len() as u64 {
        return Sum::Padding;
    }
    Sum::Match
}
pub fn sum_bytes(tag: &[u8; 4], b: &[u8]) -> u32 {
    let mut sum = 0u32;
    for (i, c) in b.chunks(4).enumerate() {
        let mut w = [0; 4];
        w[..c.len()].copy_from_slice(c);
        if !(tag == b"head" && i == 2) {
            sum = sum.wrapping_add(u32::from_be_bytes(w));
        }
    }
    sum
}

/// What a request must return.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Absent,
    Val(Toks),
    Err(&'static str),
    /// A value as given, or an error.
    ValOrErr(Toks),
    /// No panic is all that can be said.
    Any,
}

/// What a request for a table must return, given the directory and what is stored now.
pub fn expect(dir: &Dir, disk: &Disk, t: T, cfg: Cfg) -> Exp {
    let Some(e) = dir.find(t) else { return Exp::Absent };
    let mut maybe = false;
    if !cfg.sums {
        match checksum(disk, e) {
            Sum::Match => {}
            Sum::Mismatch => return Exp::Err("the checksum does not match"),
            Sum::Cut => return Exp::Err("the table is cut short"),
            Sum::Padding => maybe = true,
            Sum::Huge => {
                if e.offset as u64 + e.size as u64 > disk.len {
                    return Exp::Err("the table is cut short");
                }
                return Exp::Any;
            }
        }
    }
    let value = expect_at(dir, disk, e.offset as u64, t, cfg);
    match value {
        Exp::Val(v) if maybe => Exp::ValOrErr(v),
        v => v,
    }
}

pub fn expect_at(dir: &Dir, disk: &Disk, at: u64, t: T, cfg: Cfg) -> Exp {
    if let Some(kind) = t.own() {
        let o = refm::decode(disk, at, kind, cfg);
        return from_outcome(&o);
    }
    let shared = std::sync::Arc::new(std::sync::Mutex::new(disk.clone()));
    let got = crate::scen::quietly(|| {
        let mut quiet = crate::disk::Tape::new(shared);
        let g = given(t, &mut quiet, dir)?;
        let v = dependency(t, &mut quiet, at, &g).map(|v| v.dump());
        Some((v, quiet.trace.runaway))
    });
    match got {
        // There is too much of it to tell.
        Ok(Some((_, true))) => Exp::Any,
        Ok(Some((Ok(v), _))) => Exp::Val(v),
        Ok(Some((Err(_), _))) => Exp::Err("the dependency refuses it"),
        _ => Exp::Any,
    }
}

pub fn from_outcome(o: &refm::Outcome) -> Exp {
    match &o.result {
        // What is certainly wrong stays wrong whatever the vague parts mean.
        Err(refm::Bad::Budget) => Exp::Any,
        Err(refm::Bad::Eof) if o.vague => Exp::Any,
        Err(refm::Bad::Malformed(_)) if o.vague => Exp::Any,
        Err(refm::Bad::Eof) => Exp::Err("the file ends"),
        Err(refm::Bad::Malformed(w)) => Exp::Err(w),
        Ok(_) if o.vague => Exp::Any,
        Ok(v) => Exp::Val(v.clone()),
    }
}

// Fonts.

struct B(Vec<u8>);
impl B {
    fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    fn u16(&mut self, v: u16) {
        self.0.extend(v.to_be_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.0.extend(v.to_be_bytes());
    }
    fn any16(&mut self, r: &mut Rng, n: usize) {
        for _ in 0..n {
            self.u16(r.u16());
        }
    }
}

/// What the tables of one font agree on.
#[derive(Clone, Debug)]
pub struct Shape {
    pub glyphs: u16,
    pub metrics: u16,
    pub long: bool,
    /// Offsets of glyphs.
    pub locations: Vec<u32>,
    pub glyf: Vec<u8>,
}
impl Shape {
    pub fn new(r: &mut Rng) -> Self {
        let glyphs = 1 + r.below(6) as u16;
        let metrics = 1 + r.below(glyphs as u64) as u16;
        let long = r.pct(50);
        let mut glyf = B(vec![]);
        let mut locations = vec![0];
        for _ in 0..glyphs {
            match r.below(4) {
                0 => {}
                1 => {
                    // A composite of one component.
                    glyf.u16(0xFFFF);
                    glyf.any16(r, 4);
                    glyf.u16(if r.pct(50) { 0x0001 } else { 0x0003 });
                    glyf.u16(r.below(glyphs as u64) as u16);
                    glyf.any16(r, 2);
                }
                _ => {
                    let points = 1 + r.below(4) as u16;
                    glyf.u16(1);
                    glyf.any16(r, 4);
                    glyf.u16(points - 1);
                    let k = r.below(4) as u16;
                    glyf.u16(k);
                    let b = r.bytes(k as usize);
                    glyf.0.extend(b);
                    for _ in 0..points {
                        glyf.u8(0x01 | 0x02 | 0x04 | if r.pct(50) { 0x10 } else { 0 });
                    }
                    let b = r.bytes(2 * points as usize);
                    glyf.0.extend(b);
                }
            }
            while glyf.0.len() % 4 != 0 {
                glyf.u8(0);
            }
            locations.push(glyf.0.len() as u32);
        }
        if glyf.0.is_empty() {
            glyf.u32(0);
        }
        Shape { glyphs, metrics, long, locations, glyf: glyf.0 }
    }
}

fn index(items: &[Vec<u8>]) -> Vec<u8> {
    let mut b = B(vec![]);
    b.u16(items.len() as u16);
    if items.is_empty() {
        return b.0;
    }
    b.u8(2);
    let mut at = 1;
    b.u16(at);
    for i in items {
        at += i.len() as u16;
        b.u16(at);
    }
    for i in items {
        b.0.extend(i);
    }
    b.0
}

fn cff_bytes(r: &mut Rng, s: &Shape) -> Vec<u8> {
    let int = |v: i32| {
        let mut b = vec![0x1d];
        b.extend(v.to_be_bytes());
        b
    };
    let names = index(&[r.bytes(6).iter().map(|b| b'A' + b % 26).collect()]);
    let n = r.idx(3);
    let strings: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(3)).collect();
    let strings = index(&strings);
    let n = r.idx(3);
    let subs: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(2)).collect();
    let subs = index(&subs);
    let chars: Vec<Vec<u8>> = (0..s.glyphs).map(|_| {
        let n = 1 + r.idx(4);
        r.bytes(n)
    }).collect();
    let chars = index(&chars);
    let local = r.pct(50);
    let custom = r.pct(50);
    let mut private = vec![];
    private.extend(int(r.u16() as i32));
    private.push(0x0A); // StdHW
    if local {
        // The length of the dictionary itself.
        let size = private.len() as i32 + 6;
        private.extend(int(size));
        private.push(0x13);
    }
    let locals = index(&[r.bytes(3), r.bytes(1)]);
    // All numbers take five bytes, so that the sizes do not depend on the values.
    let dict = |c: i32, set: i32, p: i32| {
        let mut d = int(c);
        d.push(0x11);
        d.extend(int(set));
        d.push(0x0F);
        d.extend(int(private.len() as i32));
        d.extend(int(p));
        d.push(0x12);
        d
    };
    let head = 4 + names.len() + index(&[dict(0, 0, 0)]).len() + strings.len() + subs.len();
    let set_at = head + chars.len();
    let set = {
        let mut b = vec![0u8];
        for i in 1..s.glyphs {
            b.extend(i.to_be_bytes());
        }
        b
    };
    let p_at = set_at + set.len();
    let mut b = vec![1, 0, 4, 2];
    b.extend(names);
    b.extend(index(&[dict(head as i32, if custom { set_at as i32 } else { 0 }, p_at as i32)]));
    b.extend(strings);
    b.extend(subs);
    b.extend(chars);
    b.extend(set);
    b.extend(private);
    b.extend(locals);
    b
}

/// The bytes of a table.
pub fn bytes(r: &mut Rng, t: T, s: &Shape, style: &Style) -> Vec<u8> {
    if let Some(k) = t.own() {
        if style.real > 0 && r.below(style.real) == 0 {
            if let Some(x) = crate::real::pick(r, |y| y == k) {
                return x.bytes.to_vec();
            }
        }
    }
    let mut b = B(vec![]);
    match t {
        T::Cff => return cff_bytes(r, s),
        T::Os2 => {
            let v = r.below(6) as u16;
            b.u16(v);
            b.any16(r, 3);
            b.u16(r.pick(&[0, 2, 4, 8, 0x104]));
            b.any16(r, 11);
            let x = r.bytes(10 + 16 + 4);
            b.0.extend(x);
            b.u16(r.below(0x400) as u16);
            b.any16(r, 7);
            let more = [0, 8, 18, 18, 18, 22][v as usize];
            let x = r.bytes(more);
            b.0.extend(x);
        }
        T::Cmap => {
            let n = r.idx(3);
            b.u16(0);
            b.u16(n as u16);
            let mut subs: Vec<Vec<u8>> = vec![];
            for _ in 0..n {
                let mut c = B(vec![]);
                match r.below(4) {
                    0 => {
                        c.u16(6);
                        let k = r.below(5) as u16;
                        c.u16(10 + 2 * k);
                        c.u16(0);
                        c.u16(r.below(1000) as u16);
                        c.u16(k);
                        c.any16(r, k as usize);
                    }
                    1 => {
                        c.u16(12);
                        c.u16(0);
                        let k = r.below(3) as u32;
                        c.u32(16 + 12 * k);
                        c.u32(0);
                        c.u32(k);
                        for _ in 0..3 * k {
                            c.u32(r.u32());
                        }
                    }
                    2 => {
                        // Segments without arrays of glyphs.
                        c.u16(4);
                        c.u16(32);
                        c.u16(0);
                        c.u16(4);
                        c.any16(r, 3);
                        c.u16(100);
                        c.u16(0xFFFF);
                        c.u16(0);
                        c.u16(50);
                        c.u16(0xFFFF);
                        c.any16(r, 2);
                        c.u16(0);
                        c.u16(0);
                    }
                    _ => {
                        c.u16(14);
                        let k = r.below(3) as u32;
                        c.u32(10 + 11 * k);
                        c.u32(k);
                        let x = r.bytes(11 * k as usize);
                        c.0.extend(x);
                    }
                }
                subs.push(c.0);
            }
            let mut at = 4 + 8 * n;
            for c in &subs {
                b.u16(r.pick(&[0, 1, 3]));
                b.u16(r.below(11) as u16);
                b.u32(at as u32);
                at += c.len();
            }
            for c in subs {
                b.0.extend(c);
            }
        }
        T::Glyf => return s.glyf.clone(),
        T::Head => {
            b.u32(0x10000);
            b.u32(r.u32());
            b.u32(r.u32());
            b.u32(0x5F0F3CF5);
            b.u16(r.u16() & 0x7FFF);
            b.any16(r, 1);
            let x = r.bytes(24);
            b.0.extend(x);
            b.u16(r.below(0x80) as u16);
            b.any16(r, 2);
            b.u16(s.long as u16);
            b.u16(0);
        }
        T::Hhea => {
            b.u32(0x10000);
            b.any16(r, 15);
            b.u16(s.metrics);
        }
        T::Hmtx => b.any16(r, s.metrics as usize + s.glyphs as usize),
        T::Loca => {
            for l in &s.locations {
                if s.long {
                    b.u32(*l);
                } else {
                    b.u16((*l / 2) as u16);
                }
            }
        }
        T::Maxp => {
            if r.pct(50) {
                b.u32(0x5000);
                b.u16(s.glyphs);
            } else {
                b.u32(0x10000);
                b.u16(s.glyphs);
                b.any16(r, 13);
            }
        }
        T::Name => {
            let format = r.below(2) as u16;
            let n = r.below(4) as u16;
            let tags = if format == 1 { r.below(3) as u16 } else { 0 };
            b.u16(format);
            b.u16(n);
            let start = 6 + 12 * n + if format == 1 { 2 + 4 * tags } else { 0 };
            let gap = r.below(3) as u16;
            b.u16(start + gap);
            let mut at = 0;
            let mut data = vec![];
            for _ in 0..n {
                let k = 2 * r.below(5) as u16;
                b.u16(3);
                b.u16(1);
                b.u16(0x409);
                b.u16(r.below(26) as u16);
                b.u16(k);
                b.u16(at);
                at += k;
                let x = r.bytes(k as usize);
                data.extend(x);
            }
            if format == 1 {
                b.u16(tags);
                for _ in 0..tags {
                    b.u16(0);
                    b.u16(0);
                }
            }
            let x = r.bytes(gap as usize);
            b.0.extend(x);
            b.0.extend(data);
        }
        T::Post => {
            let v = r.below(3) as u32 + 1;
            b.u32(v << 16);
            b.u32(r.u32());
            b.any16(r, 2);
            for _ in 0..5 {
                b.u32(r.u32());
            }
            if v == 2 {
                b.u16(s.glyphs);
                let mut names = vec![];
                for _ in 0..s.glyphs {
                    if r.pct(50) {
                        b.u16(r.below(258) as u16);
                    } else {
                        b.u16(258 + names.len() as u16);
                        let k = r.below(5) as usize;
                        names.push((0..k).map(|_| b'a' + r.below(26) as u8).collect::<Vec<u8>>());
                    }
                }
                for n in names {
                    b.u8(n.len() as u8);
                    b.0.extend(n);
                }
            }
        }
        T::Cpal | T::Gdef | T::Gpos | T::Gsub | T::Fvar => loop {
            let mut g = Gen::new(r, style.clone());
            let root = g.root(t.own().unwrap());
            let nodes = std::mem::take(&mut g.nodes);
            let lay = Lay::near(r);
            if let Some(d) = gen::place(r, &nodes, root, 0, lay) {
                if d.len < 40_000 {
                    return d.get(0, d.len as usize).unwrap();
                }
            }
        },
    }
    b.0
}

/// How a font is put together.
#[derive(Clone)]
pub struct Opts {
    pub style: Style,
    /// Which tables, if decided.
    pub tables: Option<Vec<T>>,
    /// Far placements.
    pub far: bool,
    /// Tables one right after another, with padding only.
    pub tight: bool,
}
impl Opts {
    pub fn new(r: &mut Rng) -> Self {
        Opts { style: Style::new(r), tables: None, far: r.pct(20), tight: r.pct(40) }
    }
}

#[derive(Clone)]
pub struct FontFile {
    pub disk: Disk,
    pub dir: Dir,
}
impl FontFile {
    pub fn present(&self) -> Vec<T> {
        self.dir.entries.iter().filter_map(|e| T::from_tag(&e.tag)).collect()
    }
    /// Record the checksums of what is stored.
    pub fn resum(&mut self) {
        for i in 0..self.dir.entries.len() {
            let e = self.dir.entries[i];
            if let Some(b) = self.disk.get(e.offset as u64, e.size as usize) {
                let sum = sum_bytes(&e.tag, &b);
                self.dir.entries[i].checksum = sum;
                self.disk.write(12 + 16 * i as u64 + 4, &sum.to_be_bytes());
            }
        }
    }
}

/// Choose tables together with those needed to read them.
pub fn choose(r: &mut Rng) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let n = r.range(0, 9);
    for _ in 0..n {
        let t = if r.pct(45) { r.pick(&OWN) } else { r.pick(&ALL) };
        if r.pct(92) {
            v.extend(t.needs());
        }
        v.push(t);
    }
    if r.pct(8) {
        v.extend(ALL);
    }
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v
}

pub fn font(r: &mut Rng, o: &Opts) -> FontFile {
    let shape = Shape::new(r);
    let tables = match &o.tables {
        Some(v) => v.clone(),
        None => choose(r),
    };
    let mut items: Vec<([u8; 4], Vec<u8>)> = vec![];
    for t in &tables {
        items.push((t.tag(), bytes(r, *t, &shape, &o.style)));
    }
    // Tables of other kinds, some with tags that look alike.
    let extra = r.below(4);
    for _ in 0..extra {
        let near: &[&[u8; 4]] = &[b"gsub", b"GPOs", b"GDEf", b"CPAM", b"FVAR", b"CFF2", b"OS/3", b"Cmap", b"heae", b" CFF", b"BUSG", b"cmaq", b"hmtw", b"DSIG", b"gasp", b"GLYF", b"\0\0\0\0", b"kern"];
        let tag = *r.pick(near);
        if items.iter().any(|i| i.0 == tag) {
            continue;
        }
        let n = r.below(30) as usize;
        items.push((tag, r.bytes(n)));
    }
    match r.below(3) {
        0 => items.sort(),
        _ => r.shuffle(&mut items),
    }
    let header = 12 + 16 * items.len() as u64;
    let mut order: Vec<usize> = (0..items.len()).collect();
    r.shuffle(&mut order);
    let mut entries: Vec<Entry> = items.iter().map(|i| Entry { tag: i.0, checksum: sum_bytes(&i.0, &i.1), offset: 0, size: i.1.len() as u32 }).collect();
    let mut disk = Disk::default();
    let mut cursor = header;
    let mut buffer: Vec<u8> = vec![0; header as usize];
    let mut start = 0u64;
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    let mut far_budget = 3;
    for i in order {
        let mut skip = 0;
        if !o.tight {
            skip = match r.below(5) {
                0 => r.below(7),
                1 => r.below(60),
                _ => 0,
            };
        }
        let unaligned = !o.tight && r.pct(25);
        if o.far && far_budget > 0 && r.pct(25) && cursor < 0xFFFF_0000 {
            far_budget -= 1;
            let target = match r.below(5) {
                0 => r.pick(&[0x7FFF_FFF0u64, 0x8000_0000, 0xFFFE_0000, 0x1_0000, 0xFFFF]),
                1 => r.range(cursor, 0xFFFE_0000.max(cursor)),
                _ => cursor + r.below(0x20000),
            };
            if target >= cursor && target <= 0xFFFF_0000 {
                segs.push((start, std::mem::take(&mut buffer)));
                start = target;
                cursor = target;
            }
        }
        let size = items[i].1.len() as u64;
        let mut at = cursor + skip;
        if !unaligned {
            at = at.div_ceil(4) * 4;
        }
        let fill = r.bytes((at - cursor) as usize);
        if o.tight {
            buffer.extend(vec![0; fill.len()]);
        } else {
            buffer.extend(fill);
        }
        entries[i].offset = at as u32;
        buffer.extend(&items[i].1);
        cursor = at + size;
    }
    // The end: padded, and perhaps more.
    let pad = (4 - cursor % 4) % 4 + 3 * (r.pct(50) as u64);
    buffer.extend(vec![0; pad as usize]);
    if !r.pct(30) {
        let k = 4 + r.idx(40);
        let b = r.bytes(k);
        buffer.extend(b);
    } else {
        // The checksum of an unaligned table at the end is read in whole words.
        buffer.extend([0; 4]);
    }
    segs.push((start, buffer));
    let mut head = B(vec![]);
    let signature: [u8; 4] = *r.pick(&[&[0u8, 1, 0, 0], b"OTTO", b"true", b"typ1"]);
    head.0.extend(signature);
    head.u16(items.len() as u16);
    head.any16(r, 3);
    for e in &entries {
        head.0.extend(e.tag);
        head.u32(e.checksum);
        head.u32(e.offset);
        head.u32(e.size);
    }
    segs[0].1[..head.0.len()].copy_from_slice(&head.0);
    for (p, b) in segs {
        disk.add(p, b);
    }
    FontFile { disk, dir: Dir { entries } }
}

