//! The reference model: an independent reading of the stored bytes by the OpenType specification.

use crate::disk::Disk;
use crate::dump::Toks;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cfg {
    pub dirs: bool,
    pub marks: bool,
    pub sums: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// The file ends.
    Eof,
    /// A field does not hold what it must.
    Malformed(&'static str),
    /// Too much to visit.
    Budget,
}
pub type R<T> = Result<T, Bad>;

/// A field that decides how the rest is read, or must have a particular value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rule {
    /// One of the values.
    OneOf(&'static [u32]),
    /// None of the bits.
    Without(u32),
    NonZero,
    /// Start of a device range; the end follows.
    Range,
    /// A palette index: the entry count is 2, the colour count 6 bytes after the start of the table.
    Palette(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Disc {
    pub pos: u64,
    pub width: u8,
    pub rule: Rule,
    pub what: &'static str,
}

/// What can be read directly from a position.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Gsub,
    Gpos,
    Gdef,
    Cpal,
    Fvar,
    Scripts,
    Features,
    GsubLookups,
    GposLookups,
    Coverage,
    Class,
    Correction,
    Context,
    Chained,
    GsubType(u16),
    GposType(u16),
    Store,
    Attachments,
    Carets,
    MarkSets,
    Anchor,
    MarkArray,
    Bases(u16),
    LigatureArray(u16),
    Mark2s(u16),
    Pair1s(u16, u16),
    /// Inline records, with the position their offsets count from.
    Single(u64, u16),
    Mark1(u64),
    Mark2(u64, u16),
    Base(u64, u16),
    Component(u64, u16),
    Connection(u64),
    Pair1(u64, u16, u16),
    Pair2(u64, u16, u16),
    Pair2s(u64, u16, u16, u16),
}

impl Kind {
    pub fn inline(&self) -> bool {
        use Kind::*;
        matches!(
            self,
            Single(..) | Mark1(..) | Mark2(..) | Base(..) | Component(..) | Connection(..) | Pair1(..) | Pair2(..) | Pair2s(..)
        )
    }
    pub fn name(&self) -> &'static str {
        use Kind::*;
        match self {
            Gsub => "GSUB",
            Gpos => "GPOS",
            Gdef => "GDEF",
            Cpal => "CPAL",
            Fvar => "fvar",
            Scripts => "scripts",
            Features => "features",
            GsubLookups => "gsub_lookups",
            GposLookups => "gpos_lookups",
            Coverage => "coverage",
            Class => "class",
            Correction => "correction",
            Context => "context",
            Chained => "chained",
            GsubType(_) => "gsub_type",
            GposType(_) => "gpos_type",
            Store => "store",
            Attachments => "attachments",
            Carets => "carets",
            MarkSets => "mark_sets",
            Anchor => "anchor",
            MarkArray => "mark_array",
            Bases(_) => "bases",
            LigatureArray(_) => "ligature_array",
            Mark2s(_) => "mark2s",
            Pair1s(..) => "pair1s",
            Single(..) => "single",
            Mark1(..) => "mark1",
            Mark2(..) => "mark2",
            Base(..) => "base",
            Component(..) => "component",
            Connection(..) => "connection",
            Pair1(..) => "pair1",
            Pair2(..) => "pair2",
            Pair2s(..) => "pair2s",
        }
    }
}

pub struct Ref<'a> {
    disk: &'a Disk,
    pub pos: u64,
    pub cfg: Cfg,
    pub toks: Toks,
    /// Stored fields visited and jumps made, errors or not.
    pub units: u64,
    pub budget: u64,
    pub err: Option<Bad>,
    /// A required offset is null, which no property speaks about.
    pub vague: bool,
    /// Something, perhaps not the first, does not hold what it must.
    pub malformed: bool,
    /// Records without any stored bytes.
    pub zero_width: u64,
    /// Rows of no records.
    pub idle: u64,
    pub discs: Vec<Disc>,
    pub keep: bool,
    /// The flaws the leniency switches name.
    pub null_lists: u64,
    pub null_marks: u64,
    /// Where the bytes visited end.
    pub high: u64,
    pub low: u64,
    /// Distinct features of the layout seen, for the measure of reach.
    pub reach: std::collections::BTreeSet<&'static str>,
    /// Where the counts and sizes are.
    pub counts: Vec<u64>,
}

pub struct Outcome {
    pub result: R<Toks>,
    pub end: u64,
    pub units: u64,
    pub vague: bool,
    pub malformed: bool,
    pub zero_width: u64,
    /// Rows of no records.
    pub idle: u64,
    pub discs: Vec<Disc>,
    pub null_lists: u64,
    pub null_marks: u64,
    pub low: u64,
    pub high: u64,
    pub reach: std::collections::BTreeSet<&'static str>,
    pub counts: Vec<u64>,
}

pub const BUDGET: u64 = 600_000;
pub const ZERO_WIDTH: u64 = 150_000;
/// The most rows without records that the reference decoder goes through.
const IDLE: u64 = 2_000_000;

pub fn decode(disk: &Disk, pos: u64, kind: Kind, cfg: Cfg) -> Outcome {
    decode_with(disk, pos, kind, cfg, BUDGET, true)
}

pub fn decode_with(disk: &Disk, pos: u64, kind: Kind, cfg: Cfg, budget: u64, keep: bool) -> Outcome {
    let mut r = Ref {
        disk,
        pos,
        cfg,
        toks: vec![],
        units: 0,
        budget,
        err: None,
        vague: false,
        malformed: false,
        zero_width: 0,
        idle: 0,
        discs: vec![],
        keep,
        null_lists: 0,
        null_marks: 0,
        low: u64::MAX,
        high: 0,
        reach: Default::default(),
        counts: vec![],
    };
    let result = r.kind(kind);
    if let Err(Bad::Malformed(_)) = result {
        r.malformed = true;
    }
    let result = match (result, r.err) {
        (Err(Bad::Budget), _) => Err(Bad::Budget),
        (_, Some(bad)) => Err(bad),
        (Err(bad), _) => Err(bad),
        _ => Ok(std::mem::take(&mut r.toks)),
    };
    Outcome {
        result,
        end: r.pos,
        units: r.units,
        vague: r.vague,
        malformed: r.malformed,
        zero_width: r.zero_width,
        idle: r.idle,
        discs: r.discs,
        null_lists: r.null_lists,
        null_marks: r.null_marks,
        low: r.low,
        high: r.high,
        reach: r.reach,
        counts: r.counts,
    }
}

impl<'a> Ref<'a> {
    /// Remember that something does not hold what it must, and go on.
    fn bad(&mut self, what: &'static str) {
        self.malformed = true;
        self.err.get_or_insert(Bad::Malformed(what));
    }
    fn unit(&mut self) -> R<()> {
        self.units += 1;
        if self.units > self.budget || self.zero_width > ZERO_WIDTH {
            return Err(Bad::Budget);
        }
        Ok(())
    }
    fn raw(&mut self, n: usize) -> R<u64> {
        self.unit()?;
        let mut b = [0u8; 8];
        if self.pos > i64::MAX as u64 || self.disk.read_at(self.pos, &mut b[8 - n..]) != n {
            return Err(Bad::Eof);
        }
        self.low = self.low.min(self.pos);
        self.pos += n as u64;
        self.high = self.high.max(self.pos);
        Ok(u64::from_be_bytes(b))
    }
    fn put(&mut self, label: &'static str, v: i64) {
        if self.keep {
            self.toks.push((label, v));
        }
    }
    fn u8(&mut self, label: &'static str) -> R<u8> {
        let v = self.raw(1)? as u8;
        self.put(label, v as i64);
        Ok(v)
    }
    fn u16(&mut self, label: &'static str) -> R<u16> {
        if (label.ends_with("count") || label.ends_with("size")) && self.counts.len() < 500 {
            self.counts.push(self.pos);
        }
        let v = self.raw(2)? as u16;
        self.put(label, v as i64);
        Ok(v)
    }
    fn i16(&mut self, label: &'static str) -> R<i16> {
        let v = self.raw(2)? as u16 as i16;
        self.put(label, v as i64);
        Ok(v)
    }
    fn u32(&mut self, label: &'static str) -> R<u32> {
        let v = self.raw(4)? as u32;
        self.put(label, v as i64);
        Ok(v)
    }
    fn i32(&mut self, label: &'static str) -> R<i32> {
        let v = self.raw(4)? as u32 as i32;
        self.put(label, v as i64);
        Ok(v)
    }
    fn peek16(&mut self) -> R<u16> {
        let p = self.pos;
        let v = self.raw(2)? as u16;
        self.pos = p;
        Ok(v)
    }
    fn peek32(&mut self) -> R<u32> {
        let p = self.pos;
        let v = self.raw(4)? as u32;
        self.pos = p;
        Ok(v)
    }
    fn array16(&mut self, label: &'static str, n: u64) -> R<Vec<u16>> {
        self.put(label, n as i64);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.u16(label)?);
        }
        Ok(v)
    }
    fn array32(&mut self, label: &'static str, n: u64) -> R<Vec<u32>> {
        self.put(label, n as i64);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.u32(label)?);
        }
        Ok(v)
    }
    fn disc(&mut self, pos: u64, width: u8, rule: Rule, what: &'static str) {
        if self.discs.len() < 4000 {
            self.discs.push(Disc { pos, width, rule, what });
        }
    }
    /// A 16-bit field with a fixed set of values.
    fn fixed(&mut self, label: &'static str, set: &'static [u32], what: &'static str) -> R<u16> {
        let p = self.pos;
        let v = self.u16(label)?;
        self.disc(p, 2, Rule::OneOf(set), what);
        if !set.contains(&(v as u32)) {
            return Err(Bad::Malformed(what));
        }
        Ok(v)
    }
    /// Go elsewhere; what is wrong there is remembered, and the rest is still visited.
    fn at<F: FnOnce(&mut Self) -> R<()>>(&mut self, pos: u64, f: F) -> R<()> {
        self.unit()?;
        let back = self.pos;
        self.pos = pos;
        let result = f(self);
        self.pos = back;
        match result {
            Err(Bad::Budget) => Err(Bad::Budget),
            Err(bad) => {
                if let Bad::Malformed(_) = bad {
                    self.malformed = true;
                }
                self.err.get_or_insert(bad);
                Ok(())
            }
            Ok(()) => Ok(()),
        }
    }
    /// A part that must be there.
    fn must<F: FnOnce(&mut Self) -> R<()>>(&mut self, base: u64, offset: u64, f: F) -> R<()> {
        if offset == 0 {
            self.vague = true;
        }
        self.at(base + offset, f)
    }
    /// A part that need not be there.
    fn may<F: FnOnce(&mut Self) -> R<()>>(&mut self, base: u64, offset: u64, f: F) -> R<()> {
        if offset == 0 {
            self.unit()?;
            self.put("some", 0);
            self.reach.insert("null_optional");
            return Ok(());
        }
        self.put("some", 1);
        self.at(base + offset, f)
    }
    /// Several parts that must be there.
    fn each<F: Fn(&mut Self) -> R<()>>(&mut self, label: &'static str, base: u64, offsets: &[u16], f: F) -> R<()> {
        self.put(label, offsets.len() as i64);
        for o in offsets {
            self.must(base, *o as u64, &f)?;
        }
        Ok(())
    }

    fn kind(&mut self, kind: Kind) -> R<()> {
        use Kind::*;
        match kind {
            Gsub => self.directory(false),
            Gpos => self.directory(true),
            Gdef => self.gdef(),
            Cpal => self.cpal(),
            Fvar => self.fvar(),
            Scripts => self.scripts(),
            Features => self.features(),
            GsubLookups => self.lookups(false),
            GposLookups => self.lookups(true),
            Coverage => self.coverage(),
            Class => self.class(),
            Correction => self.correction(),
            Context => self.context(),
            Chained => self.chained(),
            GsubType(t) => self.gsub_type(t),
            GposType(t) => self.gpos_type(t),
            Store => self.store(),
            Attachments => self.attachments(),
            Carets => self.carets(),
            MarkSets => self.mark_sets(),
            Anchor => self.anchor(),
            MarkArray => self.mark_array(),
            Bases(n) | Mark2s(n) => self.bases(n),
            LigatureArray(n) => self.ligature_array(n),
            Pair1s(a, b) => {
                self.flags_ok(a)?;
                self.flags_ok(b)?;
                self.pair_set(a, b)
            }
            Single(base, f) => self.single(base, f),
            Mark1(base) => self.mark1(base),
            Mark2(base, n) | Base(base, n) | Component(base, n) => self.anchors(base, n),
            Connection(base) => self.connection(base),
            Pair1(base, a, b) => self.pair1(base, a, b),
            Pair2(base, a, b) => self.pair2(base, a, b),
            Pair2s(base, n, a, b) => {
                self.put("records", n as i64);
                for _ in 0..n {
                    self.pair2(base, a, b)?;
                }
                Ok(())
            }
        }
    }

    // Common layout.

    fn directory(&mut self, gpos: bool) -> R<()> {
        let base = self.pos;
        let major = self.u16("major_version")?;
        let minor = self.u16("minor_version")?;
        self.disc(base, 4, Rule::OneOf(&[0x10000, 0x10001]), "directory version");
        if major != 1 || minor > 1 {
            return Err(Bad::Malformed("directory version"));
        }
        let s = self.u16("script_offset")? as u64;
        let f = self.u16("feature_offset")? as u64;
        let l = self.u16("lookup_offset")? as u64;
        let v = if minor == 1 {
            self.u32("variation_offset")? as u64
        } else {
            self.put("variation_offset", 0);
            0
        };
        self.reach.insert(if minor == 1 { "directory_1.1" } else { "directory_1.0" });
        for o in [s, f, l] {
            if o == 0 {
                self.null_lists += 1;
                if !self.cfg.dirs {
                    self.bad("null list");
                }
            }
        }
        if s == 0 {
            self.put("count", 0);
            self.put("headers", 0);
            self.put("records", 0);
            self.put("get", u32::from_be_bytes(*b"zzzz") as i64);
            self.put("some", 0);
        } else {
            self.at(base + s, |r| r.scripts())?;
        }
        if f == 0 {
            self.put("count", 0);
            self.put("headers", 0);
            self.put("records", 0);
            self.put("get", u32::from_be_bytes(*b"zzzz") as i64);
            self.put("some", 0);
        } else {
            self.at(base + f, |r| r.features())?;
        }
        if l == 0 {
            self.put("count", 0);
            self.put("offsets", 0);
            self.put("records", 0);
        } else {
            self.at(base + l, |r| r.lookups(gpos))?;
        }
        self.may(base, v, |r| {
            r.reach.insert("feature_variations");
            r.fixed("major_version", &[1], "feature-variations version")?;
            r.fixed("minor_version", &[0], "feature-variations version")?;
            r.u32("count")?;
            Ok(())
        })
    }

    fn headers(&mut self, label: &'static str, n: u16) -> R<Vec<(u32, u16)>> {
        self.put(label, n as i64);
        let mut v = vec![];
        for _ in 0..n {
            let t = self.u32("tag")?;
            let o = self.u16("offset")?;
            v.push((t, o));
        }
        Ok(v)
    }

    /// Look records up by tag: the tokens of each are known by their range.
    fn gets(&mut self, headers: &[(u32, u16)], ranges: &[(usize, usize)]) {
        if !self.keep {
            return;
        }
        let mut queries = vec![];
        for (i, (t, _)) in headers.iter().take(200).enumerate() {
            queries.push(*t);
            queries.push((t & 0xFFFF_FF00) | ((t & 0xFF) + 1) & 0xFF);
            if i < 20 {
                queries.push(t ^ 0x2020_2020);
                queries.push(t ^ 0x2000_0000);
                queries.push(t.wrapping_add(0x0100_0000));
                queries.push((t & 0xFFFF_FF00) | if t & 0xFF == 0x20 { 0 } else { 0x20 });
            }
        }
        queries.push(u32::from_be_bytes(*b"zzzz"));
        for q in queries {
            self.put("get", q as i64);
            match headers.iter().position(|h| h.0 == q) {
                Some(i) if i < ranges.len() => {
                    self.put("some", 1);
                    self.put("found", i as i64);
                    let _ = ranges;
                    self.reach.insert("get_hit");
                }
                _ => self.put("some", 0),
            }
        }
    }

    fn scripts(&mut self) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let headers = self.headers("headers", n)?;
        self.put("records", n as i64);
        let mut ranges = vec![];
        for h in &headers {
            let a = self.toks.len();
            self.must(base, h.1 as u64, |r| r.script())?;
            ranges.push((a, self.toks.len()));
        }
        self.gets(&headers, &ranges);
        Ok(())
    }
    fn script(&mut self) -> R<()> {
        let base = self.pos;
        let d = self.u16("default_language_offset")?;
        let n = self.u16("language_count")?;
        let headers = self.headers("language_headers", n)?;
        self.may(base, d as u64, |r| r.language())?;
        self.put("language_records", n as i64);
        let mut ranges = vec![];
        for h in &headers {
            let a = self.toks.len();
            self.must(base, h.1 as u64, |r| r.language())?;
            ranges.push((a, self.toks.len()));
        }
        self.gets(&headers, &ranges);
        Ok(())
    }
    fn language(&mut self) -> R<()> {
        self.fixed("lookup_order_offset", &[0], "lookup order")?;
        self.u16("required_feature_index")?;
        let n = self.u16("feature_index_count")?;
        self.array16("feature_indices", n as u64)?;
        Ok(())
    }
    fn features(&mut self) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let headers = self.headers("headers", n)?;
        self.put("records", n as i64);
        let mut ranges = vec![];
        for h in &headers {
            let a = self.toks.len();
            self.must(base, h.1 as u64, |r| {
                let p = r.u16("parameter_offset")?;
                let n = r.u16("lookup_index_count")?;
                r.array16("lookup_indices", n as u64)?;
                // The parameters are not interpreted: they are present or absent.
                if p > 0 {
                    r.unit()?;
                    r.put("some", 1);
                    r.put("parameters", 0);
                } else {
                    r.put("some", 0);
                }
                Ok(())
            })?;
            ranges.push((a, self.toks.len()));
        }
        self.gets(&headers, &ranges);
        Ok(())
    }
    fn lookups(&mut self, gpos: bool) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.each("records", base, &offsets, |r| r.lookup(gpos))
    }
    fn lookup(&mut self, gpos: bool) -> R<()> {
        let base = self.pos;
        let t = self.u16("type")?;
        let p = self.pos;
        let f = self.u16("flags")?;
        self.disc(p, 2, Rule::Without(0x00E0), "lookup flags");
        if f & 0x00E0 != 0 {
            return Err(Bad::Malformed("lookup flags"));
        }
        self.put("bits", (f & 0x1F) as i64);
        let n = self.u16("table_count")?;
        let offsets = self.array16("table_offsets", n as u64)?;
        if f & 0x10 != 0 {
            self.put("some", 1);
            self.u16("mark_filtering_set")?;
            self.reach.insert("mark_filtering_set");
        } else {
            self.put("some", 0);
        }
        if n > 0 {
            let set: &'static [u32] = if gpos { &[1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[1, 2, 3, 4, 5, 6, 7, 8] };
            self.disc(base, 2, Rule::OneOf(set), "lookup type");
        }
        self.each("tables", base, &offsets, |r| if gpos { r.gpos_type(t) } else { r.gsub_type(t) })
    }

    fn coverage(&mut self) -> R<()> {
        let p = self.pos;
        let f = self.peek16()?;
        self.disc(p, 2, Rule::OneOf(&[1, 2]), "coverage format");
        self.put("variant", f as i64);
        match f {
            1 => {
                self.reach.insert("coverage_1");
                self.u16("format")?;
                let n = self.u16("glyph_count")?;
                self.array16("glyph_ids", n as u64)?;
            }
            2 => {
                self.reach.insert("coverage_2");
                self.u16("format")?;
                self.ranges()?;
            }
            _ => return Err(Bad::Malformed("coverage format")),
        }
        Ok(())
    }
    fn ranges(&mut self) -> R<()> {
        let n = self.u16("record_count")?;
        self.put("records", n as i64);
        for _ in 0..n {
            self.u16("start_glyph_id")?;
            self.u16("end_glyph_id")?;
            self.u16("index")?;
        }
        Ok(())
    }
    fn class(&mut self) -> R<()> {
        let p = self.pos;
        let f = self.peek16()?;
        self.disc(p, 2, Rule::OneOf(&[1, 2]), "class format");
        self.put("variant", f as i64);
        match f {
            1 => {
                self.reach.insert("class_1");
                self.u16("format")?;
                self.u16("start_glyph_id")?;
                let n = self.u16("glyph_count")?;
                self.array16("indices", n as u64)?;
            }
            2 => {
                self.reach.insert("class_2");
                self.u16("format")?;
                self.ranges()?;
            }
            _ => return Err(Bad::Malformed("class format")),
        }
        Ok(())
    }
    fn correction(&mut self) -> R<()> {
        let base = self.pos;
        let a = self.raw(2)? as u16;
        let b = self.raw(2)? as u16;
        let f = self.raw(2)? as u16;
        self.disc(base + 4, 2, Rule::OneOf(&[1, 2, 3, 0x8000]), "correction format");
        match f {
            1..=3 => {
                self.reach.insert(["device_1", "device_2", "device_3"][f as usize - 1]);
                self.put("variant", 1);
                self.put("start_size", a as i64);
                self.put("end_size", b as i64);
                self.put("format", f as i64);
                self.disc(base, 4, Rule::Range, "device range");
                if a > b {
                    return Err(Bad::Malformed("device range"));
                }
                // Each word packs as many values as fit at 2, 4, or 8 bits.
                let values = (b - a) as u64 + 1;
                let per_word = [8, 4, 2][f as usize - 1];
                self.array16("deltas", values.div_ceil(per_word))?;
            }
            0x8000 => {
                self.reach.insert("variation_index");
                self.put("variant", 2);
                self.put("outer_index", a as i64);
                self.put("inner_index", b as i64);
                self.put("format", f as i64);
            }
            _ => return Err(Bad::Malformed("correction format")),
        }
        Ok(())
    }

    fn coverages(&mut self, label: &'static str, base: u64, offsets: &[u16]) -> R<()> {
        self.each(label, base, offsets, |r| r.coverage())
    }
    fn actions(&mut self, n: u16) -> R<()> {
        self.put("actions", n as i64);
        for _ in 0..n {
            self.u16("position_index")?;
            self.u16("lookup_index")?;
        }
        Ok(())
    }
    fn nonzero(&mut self, label: &'static str, what: &'static str) -> R<u16> {
        let p = self.pos;
        let n = self.u16(label)?;
        self.disc(p, 2, Rule::NonZero, what);
        if n == 0 {
            self.bad(what);
        }
        Ok(n)
    }
    /// A set of rules; the label of the input sequence tells glyphs from classes.
    fn rules(&mut self, label: &'static str) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.each("records", base, &offsets, |r| {
            let n = r.nonzero("glyph_count", "rule length")?;
            let k = r.u16("action_count")?;
            r.array16(label, (n as u64).saturating_sub(1))?;
            r.actions(k)
        })
    }
    fn chained_rules(&mut self, labels: [&'static str; 3]) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.each("records", base, &offsets, |r| {
            let n = r.u16("backward_glyph_count")?;
            r.array16(labels[0], n as u64)?;
            let n = r.nonzero("glyph_count", "rule length")?;
            r.array16(labels[1], (n as u64).saturating_sub(1))?;
            let n = r.u16("forward_glyph_count")?;
            r.array16(labels[2], n as u64)?;
            let n = r.u16("action_count")?;
            r.actions(n)
        })
    }
    fn context(&mut self) -> R<()> {
        let base = self.pos;
        let f = self.peek16()?;
        self.disc(base, 2, Rule::OneOf(&[1, 2, 3]), "context format");
        self.put("variant", f as i64);
        match f {
            1 => {
                self.reach.insert("context_1");
                self.u16("format")?;
                let c = self.u16("coverage_offset")?;
                let n = self.u16("record_count")?;
                let offsets = self.array16("record_offsets", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.put("records", n as i64);
                for o in offsets {
                    if o == 0 {
                        self.reach.insert("null_rule_set");
                        self.unit()?;
                        self.put("count", 0);
                        self.put("offsets", 0);
                        self.put("records", 0);
                    } else {
                        self.at(base + o as u64, |r| r.rules("glyph_ids"))?;
                    }
                }
            }
            2 => {
                self.reach.insert("context_2");
                self.u16("format")?;
                let c = self.u16("coverage_offset")?;
                let k = self.u16("class_offset")?;
                let n = self.u16("record_count")?;
                let offsets = self.array16("record_offsets", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.must(base, k as u64, |r| r.class())?;
                self.put("records", n as i64);
                for o in offsets {
                    self.may(base, o as u64, |r| r.rules("indices"))?;
                }
            }
            3 => {
                self.reach.insert("context_3");
                self.u16("format")?;
                let n = self.u16("glyph_count")?;
                let k = self.u16("action_count")?;
                let offsets = self.array16("coverage_offsets", n as u64)?;
                self.actions(k)?;
                self.coverages("coverages", base, &offsets)?;
            }
            _ => return Err(Bad::Malformed("context format")),
        }
        Ok(())
    }
    fn chained(&mut self) -> R<()> {
        let base = self.pos;
        let f = self.peek16()?;
        self.disc(base, 2, Rule::OneOf(&[1, 2, 3]), "chained context format");
        self.put("variant", f as i64);
        match f {
            1 => {
                self.reach.insert("chained_1");
                self.u16("format")?;
                let c = self.u16("coverage_offset")?;
                let n = self.u16("record_count")?;
                let offsets = self.array16("record_offsets", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.put("records", n as i64);
                for o in offsets {
                    if o == 0 {
                        self.reach.insert("null_rule_set");
                        self.unit()?;
                        self.put("count", 0);
                        self.put("offsets", 0);
                        self.put("records", 0);
                    } else {
                        self.at(base + o as u64, |r| {
                            r.chained_rules(["backward_glyph_ids", "glyph_ids", "forward_glyph_ids"])
                        })?;
                    }
                }
            }
            2 => {
                self.reach.insert("chained_2");
                self.u16("format")?;
                let c = self.u16("coverage_offset")?;
                let b = self.u16("backward_class_offset")?;
                let k = self.u16("class_offset")?;
                let a = self.u16("forward_class_offset")?;
                let n = self.u16("record_count")?;
                let offsets = self.array16("record_offsets", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.must(base, b as u64, |r| r.class())?;
                self.must(base, k as u64, |r| r.class())?;
                self.must(base, a as u64, |r| r.class())?;
                self.put("records", n as i64);
                for o in offsets {
                    self.may(base, o as u64, |r| {
                        r.chained_rules(["backward_indices", "indices", "forward_indices"])
                    })?;
                }
            }
            3 => {
                self.reach.insert("chained_3");
                self.u16("format")?;
                let n = self.u16("backward_glyph_count")?;
                let b = self.array16("backward_coverage_offsets", n as u64)?;
                let n = self.u16("glyph_count")?;
                let c = self.array16("coverage_offsets", n as u64)?;
                let n = self.u16("forward_glyph_count")?;
                let a = self.array16("forward_coverage_offsets", n as u64)?;
                let n = self.u16("action_count")?;
                self.actions(n)?;
                self.coverages("backward_coverages", base, &b)?;
                self.coverages("coverages", base, &c)?;
                self.coverages("forward_coverages", base, &a)?;
            }
            _ => return Err(Bad::Malformed("chained context format")),
        }
        Ok(())
    }

    // Substitution.

    fn gsub_type(&mut self, t: u16) -> R<()> {
        self.put("variant", t as i64);
        let base = self.pos;
        match t {
            1 => {
                let f = self.peek16()?;
                self.disc(base, 2, Rule::OneOf(&[1, 2]), "single-substitution format");
                self.put("variant", f as i64);
                match f {
                    1 => {
                        self.reach.insert("gsub_1.1");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        self.i16("delta_glyph_id")?;
                        self.must(base, c as u64, |r| r.coverage())?;
                    }
                    2 => {
                        self.reach.insert("gsub_1.2");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        let n = self.u16("glyph_count")?;
                        self.array16("glyph_ids", n as u64)?;
                        self.must(base, c as u64, |r| r.coverage())?;
                    }
                    _ => return Err(Bad::Malformed("single-substitution format")),
                }
                Ok(())
            }
            2 | 3 | 4 => {
                self.reach.insert(["gsub_2", "gsub_3", "gsub_4"][t as usize - 2]);
                self.fixed("format", &[1], "substitution format")?;
                let c = self.u16("coverage_offset")?;
                let n = self.u16("record_count")?;
                let offsets = self.array16("record_offsets", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.each("records", base, &offsets, |r| {
                    if t == 4 {
                        return r.ligature_set();
                    }
                    let n = r.u16("glyph_count")?;
                    r.array16("glyph_ids", n as u64)?;
                    Ok(())
                })
            }
            5 => self.context(),
            6 => self.chained(),
            7 => {
                self.reach.insert("gsub_7");
                self.extension()
            }
            8 => {
                self.reach.insert("gsub_8");
                self.fixed("format", &[1], "reverse-substitution format")?;
                let c = self.u16("coverage_offset")?;
                let n = self.u16("backward_glyph_count")?;
                let b = self.array16("backward_coverage_offsets", n as u64)?;
                let n = self.u16("forward_glyph_count")?;
                let a = self.array16("forward_coverage_offsets", n as u64)?;
                let n = self.u16("glyph_count")?;
                self.array16("glyph_ids", n as u64)?;
                self.must(base, c as u64, |r| r.coverage())?;
                self.coverages("backward_coverages", base, &b)?;
                self.coverages("forward_coverages", base, &a)
            }
            _ => Err(Bad::Malformed("lookup type")),
        }
    }
    fn extension(&mut self) -> R<()> {
        self.fixed("format", &[1], "extension format")?;
        self.u16("r#type")?;
        self.u32("offset")?;
        Ok(())
    }
    fn ligature_set(&mut self) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.each("records", base, &offsets, |r| {
            r.u16("glyph_id")?;
            let n = r.nonzero("glyph_count", "ligature length")?;
            r.array16("glyph_ids", (n as u64).saturating_sub(1))?;
            Ok(())
        })
    }

    // Positioning.

    fn gpos_type(&mut self, t: u16) -> R<()> {
        self.put("variant", t as i64);
        let base = self.pos;
        match t {
            1 => {
                let f = self.peek16()?;
                self.disc(base, 2, Rule::OneOf(&[1, 2]), "single-adjustment format");
                self.put("variant", f as i64);
                match f {
                    1 => {
                        self.reach.insert("gpos_1.1");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        let v = self.value_flags("value_flags")?;
                        self.single(base, v)?;
                        self.must(base, c as u64, |r| r.coverage())?;
                    }
                    2 => {
                        self.reach.insert("gpos_1.2");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        let v = self.value_flags("value_flags")?;
                        let n = self.u16("value_count")?;
                        self.put("values", n as i64);
                        for _ in 0..n {
                            if v == 0 {
                                self.zero_width += 1;
                                self.reach.insert("zero_width_value");
                            }
                            self.single(base, v)?;
                        }
                        self.must(base, c as u64, |r| r.coverage())?;
                    }
                    _ => return Err(Bad::Malformed("single-adjustment format")),
                }
                Ok(())
            }
            2 => {
                let f = self.peek16()?;
                self.disc(base, 2, Rule::OneOf(&[1, 2]), "pair-adjustment format");
                self.put("variant", f as i64);
                match f {
                    1 => {
                        self.reach.insert("gpos_2.1");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        let a = self.value_flags("value1_flags")?;
                        let b = self.value_flags("value2_flags")?;
                        let n = self.u16("record_count")?;
                        let offsets = self.array16("record_offsets", n as u64)?;
                        self.must(base, c as u64, |r| r.coverage())?;
                        self.each("records", base, &offsets, |r| r.pair_set(a, b))?;
                    }
                    2 => {
                        self.reach.insert("gpos_2.2");
                        self.u16("format")?;
                        let c = self.u16("coverage_offset")?;
                        let a = self.value_flags("value1_flags")?;
                        let b = self.value_flags("value2_flags")?;
                        let k1 = self.u16("class1_offset")?;
                        let k2 = self.u16("class2_offset")?;
                        let n1 = self.u16("class1_count")?;
                        let n2 = self.u16("class2_count")?;
                        self.put("records", n1 as i64);
                        let mut result = Ok(());
                        if n2 == 0 {
                            self.idle += n1 as u64;
                            if self.idle > IDLE {
                                return Err(Bad::Budget);
                            }
                        }
                        'outer: for _ in 0..n1 {
                            self.put("records", n2 as i64);
                            for _ in 0..n2 {
                                result = self.pair2(base, a, b);
                                if result.is_err() {
                                    break 'outer;
                                }
                            }
                        }
                        match result {
                            Err(Bad::Budget) => return Err(Bad::Budget),
                            Err(bad) => {
                                self.err.get_or_insert(bad);
                            }
                            _ => {}
                        }
                        self.must(base, c as u64, |r| r.coverage())?;
                        self.must(base, k1 as u64, |r| r.class())?;
                        self.must(base, k2 as u64, |r| r.class())?;
                    }
                    _ => return Err(Bad::Malformed("pair-adjustment format")),
                }
                Ok(())
            }
            3 => {
                self.reach.insert("gpos_3");
                self.fixed("format", &[1], "cursive format")?;
                let c = self.u16("coverage_offset")?;
                let n = self.u16("connection_count")?;
                self.put("connections", n as i64);
                for _ in 0..n {
                    self.connection(base)?;
                }
                self.must(base, c as u64, |r| r.coverage())
            }
            4 | 5 | 6 => {
                self.reach.insert(["gpos_4", "gpos_5", "gpos_6"][t as usize - 4]);
                let l: [&'static str; 8] = match t {
                    4 => ["mark_coverage_offset", "base_coverage_offset", "marks_offset", "bases_offset", "", "", "", ""],
                    5 => ["mark_coverage_offset", "ligature_coverage_offset", "marks_offset", "ligatures_offset", "", "", "", ""],
                    _ => ["mark1_coverage_offset", "mark2_coverage_offset", "mark1s_offset", "mark2s_offset", "", "", "", ""],
                };
                self.fixed("format", &[1], "attachment format")?;
                let c1 = self.u16(l[0])?;
                let c2 = self.u16(l[1])?;
                let n = self.u16("mark_class_count")?;
                let m = self.u16(l[2])?;
                let o = self.u16(l[3])?;
                self.must(base, c1 as u64, |r| r.coverage())?;
                self.must(base, c2 as u64, |r| r.coverage())?;
                self.must(base, m as u64, |r| r.mark_array())?;
                self.must(base, o as u64, |r| if t == 5 { r.ligature_array(n) } else { r.bases(n) })
            }
            7 => self.context(),
            8 => self.chained(),
            9 => {
                self.reach.insert("gpos_9");
                self.extension()
            }
            _ => Err(Bad::Malformed("lookup type")),
        }
    }
    fn flags_ok(&mut self, f: u16) -> R<()> {
        if f & 0xFF00 != 0 {
            return Err(Bad::Malformed("value format"));
        }
        Ok(())
    }
    fn value_flags(&mut self, label: &'static str) -> R<u16> {
        let p = self.pos;
        let f = self.u16(label)?;
        self.disc(p, 2, Rule::Without(0xFF00), "value format");
        self.flags_ok(f)?;
        self.put("bits", f as i64);
        Ok(f)
    }
    fn single(&mut self, base: u64, f: u16) -> R<()> {
        self.unit()?;
        let labels = ["x_placement", "y_placement", "x_advance", "y_advance"];
        for (i, l) in labels.iter().enumerate() {
            if f & (1 << i) != 0 {
                self.put("some", 1);
                self.i16(l)?;
            } else {
                self.put("some", 0);
            }
        }
        let labels = [
            "x_placement_correction_offset",
            "y_placement_correction_offset",
            "x_advance_correction_offset",
            "y_advance_correction_offset",
        ];
        let mut offsets = [0; 4];
        for (i, l) in labels.iter().enumerate() {
            if f & (0x10 << i) != 0 {
                self.put("some", 1);
                offsets[i] = self.u16(l)?;
            } else {
                self.put("some", 0);
            }
        }
        for o in offsets {
            self.may(base, o as u64, |r| r.correction())?;
        }
        Ok(())
    }
    fn pair_set(&mut self, a: u16, b: u16) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        self.put("records", n as i64);
        for _ in 0..n {
            self.pair1(base, a, b)?;
        }
        Ok(())
    }
    fn pair1(&mut self, base: u64, a: u16, b: u16) -> R<()> {
        self.u16("glyph2_id")?;
        self.maybe_single(base, a)?;
        self.maybe_single(base, b)
    }
    fn pair2(&mut self, base: u64, a: u16, b: u16) -> R<()> {
        if a == 0 && b == 0 {
            self.zero_width += 1;
            self.reach.insert("zero_width_pair");
            if self.zero_width > ZERO_WIDTH {
                return Err(Bad::Budget);
            }
        }
        self.maybe_single(base, a)?;
        self.maybe_single(base, b)
    }
    fn maybe_single(&mut self, base: u64, f: u16) -> R<()> {
        if f == 0 {
            self.put("some", 0);
            return Ok(());
        }
        self.put("some", 1);
        self.single(base, f)
    }
    fn connection(&mut self, base: u64) -> R<()> {
        let a = self.u16("start_anchor_offset")?;
        let b = self.u16("end_anchor_offset")?;
        self.may(base, a as u64, |r| r.anchor())?;
        self.may(base, b as u64, |r| r.anchor())
    }
    fn anchor(&mut self) -> R<()> {
        let base = self.pos;
        let f = self.peek16()?;
        self.disc(base, 2, Rule::OneOf(&[1, 2, 3]), "anchor format");
        self.put("variant", f as i64);
        if !(1..=3).contains(&f) {
            return Err(Bad::Malformed("anchor format"));
        }
        self.reach.insert(["anchor_1", "anchor_2", "anchor_3"][f as usize - 1]);
        self.u16("format")?;
        self.i16("x")?;
        self.i16("y")?;
        if f == 2 {
            self.u16("index")?;
        }
        if f == 3 {
            let a = self.u16("x_correction_offset")?;
            let b = self.u16("y_correction_offset")?;
            self.may(base, a as u64, |r| r.correction())?;
            self.may(base, b as u64, |r| r.correction())?;
        }
        Ok(())
    }
    fn mark_array(&mut self) -> R<()> {
        let base = self.pos;
        let n = self.u16("count")?;
        self.put("records", n as i64);
        for _ in 0..n {
            self.mark1(base)?;
        }
        Ok(())
    }
    fn mark1(&mut self, base: u64) -> R<()> {
        self.u16("class_id")?;
        let o = self.u16("anchor_offset")?;
        if o == 0 {
            self.null_marks += 1;
            if !self.cfg.marks {
                self.bad("null mark anchor");
            }
            // The default is an anchor of format 1 with zero fields.
            self.put("variant", 1);
            self.put("format", 0);
            self.put("x", 0);
            self.put("y", 0);
            return Ok(());
        }
        self.at(base + o as u64, |r| r.anchor())
    }
    fn anchors(&mut self, base: u64, n: u16) -> R<()> {
        self.unit()?;
        if n == 0 {
            self.zero_width += 1;
            self.reach.insert("zero_width_anchors");
        }
        let offsets = self.array16("anchor_offsets", n as u64)?;
        self.put("anchors", n as i64);
        for o in offsets {
            self.may(base, o as u64, |r| r.anchor())?;
        }
        Ok(())
    }
    fn bases(&mut self, n: u16) -> R<()> {
        let base = self.pos;
        let k = self.u16("count")?;
        self.put("records", k as i64);
        for _ in 0..k {
            self.anchors(base, n)?;
        }
        Ok(())
    }
    fn ligature_array(&mut self, n: u16) -> R<()> {
        let base = self.pos;
        let k = self.u16("count")?;
        let offsets = self.array16("offsets", k as u64)?;
        self.each("records", base, &offsets, |r| {
            let base = r.pos;
            let k = r.u16("count")?;
            r.put("components", k as i64);
            for _ in 0..k {
                r.anchors(base, n)?;
            }
            Ok(())
        })
    }

    // Definition.

    fn gdef(&mut self) -> R<()> {
        let base = self.pos;
        let v = self.peek32()?;
        self.disc(base, 4, Rule::OneOf(&[0x10000, 0x10002, 0x10003]), "definition version");
        let variant = match v {
            0x10000 => 1,
            0x10002 => 2,
            0x10003 => 3,
            _ => return Err(Bad::Malformed("definition version")),
        };
        self.reach.insert(["gdef_1.0", "gdef_1.2", "gdef_1.3"][variant - 1]);
        self.put("variant", variant as i64);
        self.u16("major_version")?;
        self.u16("minor_version")?;
        let g = self.u16("glyph_class_offset")?;
        let a = self.u16("attachment_offset")?;
        let l = self.u16("ligature_offset")?;
        let m = self.u16("mark_class_offset")?;
        let s = if variant >= 2 { self.u16("mark_offset")? } else { 0 };
        let i = if variant >= 3 { self.u32("variation_offset")? } else { 0 };
        self.may(base, g as u64, |r| r.class())?;
        self.may(base, a as u64, |r| r.attachments())?;
        self.may(base, l as u64, |r| r.carets())?;
        self.may(base, m as u64, |r| r.class())?;
        self.may(base, s as u64, |r| r.mark_sets())?;
        self.may(base, i as u64, |r| r.store())
    }
    fn attachments(&mut self) -> R<()> {
        let base = self.pos;
        self.reach.insert("attachments");
        let c = self.u16("coverage_offset")?;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.must(base, c as u64, |r| r.coverage())?;
        self.each("records", base, &offsets, |r| {
            let n = r.u16("index_count")?;
            r.array16("indices", n as u64)?;
            Ok(())
        })
    }
    fn carets(&mut self) -> R<()> {
        let base = self.pos;
        let c = self.u16("coverage_offset")?;
        let n = self.u16("count")?;
        let offsets = self.array16("offsets", n as u64)?;
        self.must(base, c as u64, |r| r.coverage())?;
        self.each("records", base, &offsets, |r| {
            let base = r.pos;
            let n = r.u16("caret_count")?;
            let offsets = r.array16("caret_offsets", n as u64)?;
            r.each("carets", base, &offsets, |r| r.caret())
        })
    }
    fn caret(&mut self) -> R<()> {
        let base = self.pos;
        let f = self.peek16()?;
        self.disc(base, 2, Rule::OneOf(&[1, 2, 3]), "caret format");
        self.put("variant", f as i64);
        if !(1..=3).contains(&f) {
            return Err(Bad::Malformed("caret format"));
        }
        self.reach.insert(["caret_1", "caret_2", "caret_3"][f as usize - 1]);
        self.u16("format")?;
        if f == 2 {
            self.u16("index")?;
            return Ok(());
        }
        self.i16("coordinate")?;
        if f == 3 {
            let o = self.u16("correction_offset")?;
            self.must(base, o as u64, |r| r.correction())?;
        }
        Ok(())
    }
    fn mark_sets(&mut self) -> R<()> {
        let base = self.pos;
        self.reach.insert("mark_sets");
        self.fixed("format", &[1], "mark-set format")?;
        let n = self.u16("count")?;
        let offsets = self.array32("coverage_offsets", n as u64)?;
        self.put("coverages", n as i64);
        for o in offsets {
            self.must(base, o as u64, |r| r.coverage())?;
        }
        Ok(())
    }
    fn store(&mut self) -> R<()> {
        let base = self.pos;
        self.reach.insert("store");
        self.fixed("format", &[1], "item-store format")?;
        self.u32("region_offset")?;
        let n = self.u16("count")?;
        let offsets = self.array32("offsets", n as u64)?;
        self.put("records", n as i64);
        for o in offsets {
            self.must(base, o as u64, |r| {
                let items = r.u16("item_count")? as u64;
                let words = r.u16("short_delta_count")? as u64;
                let regions = r.u16("region_count")? as u64;
                r.array16("region_indices", regions)?;
                let n = items * (words + regions);
                r.put("deltas", n as i64);
                if n > 0 {
                    r.reach.insert("item_deltas");
                }
                if r.pos.saturating_add(n) > r.disk.len {
                    // A reader may find that out only after it has read everything there is.
                    if r.disk.len.saturating_sub(r.pos) > 1 << 20 {
                        return Err(Bad::Budget);
                    }
                    return Err(Bad::Eof);
                }
                for _ in 0..n {
                    r.u8("deltas")?;
                }
                Ok(())
            })?;
        }
        Ok(())
    }

    // Colours and variations.

    fn cpal(&mut self) -> R<()> {
        let base = self.pos;
        let v = self.peek16()?;
        self.disc(base, 2, Rule::OneOf(&[0, 1]), "palette version");
        if v > 1 {
            return Err(Bad::Malformed("palette version"));
        }
        self.reach.insert(["cpal_0", "cpal_1"][v as usize]);
        self.put("variant", v as i64);
        self.u16("version")?;
        let entries = self.u16("entry_count")? as usize;
        let palettes = self.u16("palette_count")?;
        let count = self.u16("color_count")? as usize;
        let offset = self.u32("color_offset")?;
        let p = self.pos;
        let indices = self.array16("color_indices", palettes as u64)?;
        for (i, index) in indices.iter().enumerate() {
            self.disc(p + 2 * i as u64, 2, Rule::Palette(base), "palette index");
            if *index as usize + entries > count {
                self.bad("palette index");
            }
        }
        self.put("colors", count as i64);
        let mut colors: Vec<[u8; 4]> = vec![];
        if offset == 0 {
            self.vague = true;
        }
        let f = |r: &mut Self| {
            for _ in 0..count {
                let b = r.u8("blue")?;
                let g = r.u8("green")?;
                let d = r.u8("red")?;
                let a = r.u8("alpha")?;
                colors.push([b, g, d, a]);
            }
            Ok(())
        };
        self.at(base + offset as u64, f)?;
        if self.err.is_some() || !self.keep {
            return Ok(());
        }
        let mut budget = 200_000usize;
        let mut n = 0;
        for index in &indices {
            self.put("palette", n);
            n += 1;
            let mut k = 0;
            for e in 0..entries {
                let c = colors[*index as usize + e];
                for (l, v) in ["blue", "green", "red", "alpha"].iter().zip(c) {
                    self.put(l, v as i64);
                }
                k += 1;
                budget = budget.saturating_sub(1);
                if budget == 0 {
                    break;
                }
            }
            self.put("entries", k);
            if budget == 0 {
                self.put("cut", 1);
                break;
            }
        }
        self.put("palettes", n);
        Ok(())
    }
    fn fvar(&mut self) -> R<()> {
        let base = self.pos;
        self.fixed("major_version", &[1], "variations version")?;
        self.u16("minor_version")?;
        let o = self.u16("axis_offset")? as u64;
        self.fixed("reserved", &[2], "variations reserved field")?;
        let axes = self.u16("axis_count")? as u64;
        let axis = self.u16("axis_size")? as u64;
        let instances = self.u16("instance_count")? as u64;
        let instance = self.u16("instance_size")? as u64;
        if o == 0 || (axes > 0 && axis < 20) || (instances > 0 && instance < 4 + 4 * axes) {
            self.vague = true;
        }
        self.put("axis_records", axes as i64);
        for i in 0..axes {
            self.at(base + o + i * axis, |r| {
                r.u32("tag")?;
                r.i32("min_value")?;
                r.i32("default_value")?;
                r.i32("max_value")?;
                let p = r.pos;
                let f = r.u16("flags")?;
                r.disc(p, 2, Rule::Without(0xFFFE), "axis flags");
                if f & 0xFFFE != 0 {
                    return Err(Bad::Malformed("axis flags"));
                }
                r.put("bits", f as i64);
                r.u16("name_id")?;
                Ok(())
            })?;
        }
        let named = instance >= 4 * axes + 6;
        self.put("instance_records", instances as i64);
        for i in 0..instances {
            self.at(base + o + axes * axis + i * instance, |r| {
                r.u16("subfamily_name_id")?;
                let p = r.pos;
                let f = r.u16("flags")?;
                r.disc(p, 2, Rule::Without(0xFFFF), "instance flags");
                if f != 0 {
                    return Err(Bad::Malformed("instance flags"));
                }
                r.put("coordinates", axes as i64);
                for _ in 0..axes {
                    r.i32("coordinates")?;
                }
                if named {
                    r.reach.insert("instance_name");
                    r.u16("postscript_name_id")?;
                } else {
                    r.reach.insert("instance_no_name");
                    r.put("postscript_name_id", 0xFFFF);
                }
                Ok(())
            })?;
        }
        Ok(())
    }
}
