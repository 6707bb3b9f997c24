//! Generated tables: graphs of nodes, laid out anywhere on the simulated medium.

use crate::disk::Disk;
use crate::refm::Kind;
use crate::rng::{mix, Rng};
use crate::tags;

#[derive(Clone, Default)]
pub struct Node {
    pub b: Vec<u8>,
    /// Place in the bytes, width of the offset, target.
    pub links: Vec<(usize, u8, usize)>,
}

impl Node {
    fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    fn u16(&mut self, v: u16) {
        self.b.extend(v.to_be_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.b.extend(v.to_be_bytes());
    }
    fn l16(&mut self, target: usize) {
        self.links.push((self.b.len(), 2, target));
        self.u16(0);
    }
    fn l32(&mut self, target: usize) {
        self.links.push((self.b.len(), 4, target));
        self.u32(0);
    }
    fn m16(&mut self, target: Option<usize>) {
        match target {
            Some(t) => self.l16(t),
            None => self.u16(0),
        }
    }
    /// Words, which may follow a pattern.
    fn words(&mut self, r: &mut Rng, n: usize) {
        let pattern = if n > 1 { r.below(16) } else { 99 };
        let mut v = if pattern < 4 { r.u16() } else { 0 };
        for _ in 0..n {
            match pattern {
                0 | 4 => self.u16(v),
                1 | 2 => {
                    self.u16(v);
                    v = v.wrapping_add(if pattern == 1 { 1 } else { r.below(3) as u16 });
                }
                3 => {
                    self.u16(v);
                    v = v.wrapping_sub(1);
                }
                _ => self.u16(r.u16()),
            }
        }
    }
    /// Ranges of glyphs in order, often next to each other, with indices that go on or classes that repeat.
    fn ranges(&mut self, r: &mut Rng, n: usize, classes: bool) {
        if !r.pct(35) {
            return self.words(r, 3 * n);
        }
        let (mut at, mut index) = (r.below(600) as u16, 0u16);
        let (gap, wide) = (r.pick(&[0, 1, 3, 90]), r.pick(&[1, 2, 9, 300]));
        for _ in 0..n {
            at = at.wrapping_add(r.below(gap + 1) as u16);
            let last = at.wrapping_add(r.below(wide) as u16);
            self.u16(at);
            self.u16(last);
            if classes {
                index = if r.pct(40) { index } else { r.below(5) as u16 };
                self.u16(index);
            } else {
                self.u16(index);
                index = index.wrapping_add(last.wrapping_sub(at)).wrapping_add(1);
            }
            at = last.wrapping_add(1);
        }
    }
}

/// What the generator is allowed to do and inclined to do in one run.
#[derive(Clone)]
pub struct Style {
    /// Percentage of optional parts that are absent.
    pub null: u64,
    /// Percentage of parts that are shared.
    pub share: u64,
    /// Inclination towards larger arrays.
    pub big: u64,
    /// Null lists and null mark anchors are allowed.
    pub null_lists: bool,
    pub null_marks: bool,
    /// Percentage of records that take no bytes.
    pub zero: u64,
    /// One array in so many runs is of a size that real fonts hardly have; none if zero.
    pub bulk: u64,
    /// What is very large is of thousands of parts, and these are not small either.
    pub vast: bool,
    /// One table or part of a table in so many is that of a real font; none if zero.
    pub real: u64,
}

impl Style {
    pub fn new(r: &mut Rng) -> Self {
        Style {
            null: r.pick(&[0, 10, 30, 60, 90]),
            share: r.pick(&[0, 0, 20, 60]),
            big: r.pick(&[0, 0, 1, 3]),
            null_lists: false,
            null_marks: false,
            zero: r.pick(&[0, 3, 10]),
            bulk: 100,
            vast: false,
            real: 30,
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub s: Style,
    pub nodes: Vec<Node>,
    coverages: Vec<usize>,
    classes: Vec<usize>,
    corrections: Vec<usize>,
    anchors: Vec<usize>,
    /// An upper bound on the bytes, kept low enough for 16-bit offsets.
    room: i64,
    /// How many counts are left before the one of the array that is very large.
    bulk: Option<u64>,
    bulked: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, s: Style) -> Self {
        let room = match r.below(10) {
            0 => 12_000,
            1 | 2 => 4000,
            _ => 1200,
        };
        let skip = r.pick(&[1, 3, 8, 20]);
        let bulk = if s.bulk > 0 && r.below(s.bulk) == 0 { Some(r.below(skip)) } else { None };
        Gen {
            r,
            s,
            nodes: vec![],
            coverages: vec![],
            classes: vec![],
            corrections: vec![],
            anchors: vec![],
            room,
            bulk,
            bulked: false,
        }
    }
    fn add(&mut self, n: Node) -> usize {
        self.room -= n.b.len() as i64;
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    /// A count.
    fn n(&mut self, small: u64) -> usize {
        self.upto(small, 0xFFFF)
    }
    fn upto(&mut self, small: u64, most: u64) -> usize {
        match self.bulk {
            Some(0) => {
                self.bulk = None;
                self.bulked = true;
                let n = match self.r.below(100) {
                    _ if self.s.vast => self.r.range(2500, 9000),
                    0..=9 => self.r.pick(&[255, 256, 257, 258]),
                    10..=64 => self.r.range(200, 2500),
                    65..=68 => self.r.pick(&[0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xFFFF]),
                    69..=84 => self.r.range(2500, 12_000),
                    85..=93 => self.r.range(8000, 33_000),
                    _ => self.r.range(16_000, 0xFFFF),
                };
                if n > 5000 && !self.s.vast && self.r.pct(50) {
                    // Parts could not be reached.
                    self.s.null = 100;
                }
                return n.min(most) as usize;
            }
            Some(k) => self.bulk = Some(k - 1),
            None => {}
        }
        let n = if self.s.vast && self.bulked && self.r.pct(40) {
            self.r.range(8, 60).min(most)
        } else if self.room < 0 {
            self.r.below(2)
        } else if self.r.pct(self.s.big * 3) {
            self.r.range(small, small * 12 + 20)
        } else {
            self.r.below(small + 1)
        };
        n as usize
    }
    fn nul(&mut self) -> bool {
        self.r.pct(self.s.null)
    }
    fn shared(&mut self, pool: fn(&Self) -> &Vec<usize>) -> Option<usize> {
        if (self.r.pct(self.s.share) && !pool(self).is_empty()) || (self.bulked && pool(self).len() >= 6) {
            let p = pool(self);
            let k = p.len();
            let i = self.r.idx(k);
            return Some(pool(self)[i]);
        }
        None
    }

    /// A part of an array; those of very large arrays are shared.
    fn part<F: FnOnce(&mut Self) -> usize>(&mut self, made: &mut Vec<usize>, f: F) -> usize {
        if self.bulked && made.len() >= 6 {
            return self.r.pick(made);
        }
        let i = f(self);
        made.push(i);
        i
    }

    pub fn coverage(&mut self) -> usize {
        if let Some(i) = self.shared(|g| &g.coverages) {
            return i;
        }
        let mut o = Node::default();
        if self.r.pct(50) {
            o.u16(1);
            let n = self.n(5);
            o.u16(n as u16);
            o.words(self.r, n);
        } else {
            o.u16(2);
            let n = self.n(4);
            o.u16(n as u16);
            o.ranges(self.r, n, false);
        }
        let i = self.add(o);
        self.coverages.push(i);
        i
    }
    pub fn class(&mut self) -> usize {
        if let Some(i) = self.shared(|g| &g.classes) {
            return i;
        }
        let mut o = Node::default();
        if self.r.pct(50) {
            o.u16(1);
            o.u16(self.r.u16());
            let n = self.n(5);
            o.u16(n as u16);
            o.words(self.r, n);
        } else {
            o.u16(2);
            let n = self.n(4);
            o.u16(n as u16);
            o.ranges(self.r, n, true);
        }
        let i = self.add(o);
        self.classes.push(i);
        i
    }
    pub fn correction(&mut self) -> usize {
        if let Some(i) = self.shared(|g| &g.corrections) {
            return i;
        }
        let mut o = Node::default();
        if self.r.pct(70) {
            let format = self.r.range(1, 3);
            let start = match self.r.below(6) {
                0 => 0,
                1 => 0xFFFF - self.r.below(40),
                2 => self.r.u16() as u64,
                _ => self.r.range(6, 30),
            };
            // Sizes around the boundaries of words.
            let per = 16 >> format;
            let values = match self.r.below(8) {
                0 => 1,
                1 | 2 => per * self.r.range(1, 4),
                3 => per * self.r.range(1, 4) + 1,
                4 => (per * self.r.range(1, 4)).max(2) - 1,
                5 if self.s.big > 0 && self.room > 0 => self.r.range(1, 400),
                _ => self.r.range(1, 24),
            };
            let end = (start + values - 1).min(0xFFFF);
            let values = end - start + 1;
            o.u16(start as u16);
            o.u16(end as u16);
            o.u16(format as u16);
            let words = values.div_ceil(per) as usize;
            o.words(self.r, words);
        } else {
            o.u16(self.r.u16());
            o.u16(self.r.u16());
            o.u16(0x8000);
        }
        let i = self.add(o);
        self.corrections.push(i);
        i
    }
    fn opt_correction(&mut self) -> Option<usize> {
        if self.nul() {
            None
        } else {
            Some(self.correction())
        }
    }
    pub fn anchor(&mut self) -> usize {
        if let Some(i) = self.shared(|g| &g.anchors) {
            return i;
        }
        let mut o = Node::default();
        let f = self.r.range(1, 3);
        o.u16(f as u16);
        o.words(self.r, 2);
        match f {
            2 => o.u16(self.r.u16()),
            3 => {
                for _ in 0..2 {
                    let c = self.opt_correction();
                    o.m16(c);
                }
            }
            _ => {}
        }
        let i = self.add(o);
        self.anchors.push(i);
        i
    }
    fn opt_anchor(&mut self) -> Option<usize> {
        if self.nul() {
            None
        } else {
            Some(self.anchor())
        }
    }

    fn actions(&mut self, o: &mut Node, n: usize) {
        o.words(self.r, 2 * n);
    }
    fn rule_set(&mut self) -> usize {
        let n = self.n(2);
        let mut o = Node::default();
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| {
                let mut u = Node::default();
                let k = 1 + g.upto(3, 0xFFFE);
                let a = g.n(2);
                u.u16(k as u16);
                u.u16(a as u16);
                u.words(g.r, k - 1);
                g.actions(&mut u, a);
                g.add(u)
            });
            o.l16(i);
        }
        self.add(o)
    }
    fn chained_rule_set(&mut self) -> usize {
        let n = self.n(2);
        let mut o = Node::default();
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| {
                let mut u = Node::default();
                let k = g.n(3);
                u.u16(k as u16);
                u.words(g.r, k);
                let k = 1 + g.upto(3, 0xFFFE);
                u.u16(k as u16);
                u.words(g.r, k - 1);
                let k = g.n(3);
                u.u16(k as u16);
                u.words(g.r, k);
                let a = g.n(2);
                u.u16(a as u16);
                g.actions(&mut u, a);
                g.add(u)
            });
            o.l16(i);
        }
        self.add(o)
    }
    pub fn context(&mut self) -> usize {
        let mut o = Node::default();
        let f = self.r.range(1, 3) as u16;
        o.u16(f);
        if f == 3 {
            let n = self.n(3);
            let a = self.n(3);
            o.u16(n as u16);
            o.u16(a as u16);
            for _ in 0..n {
                let c = self.coverage();
                o.l16(c);
            }
            self.actions(&mut o, a);
        } else {
            let c = self.coverage();
            o.l16(c);
            if f == 2 {
                let c = self.class();
                o.l16(c);
            }
            let n = self.n(3);
            o.u16(n as u16);
            let mut made = vec![];
            for _ in 0..n {
                let t = if self.nul() { None } else { Some(self.part(&mut made, |g| g.rule_set())) };
                o.m16(t);
            }
        }
        self.add(o)
    }
    pub fn chained(&mut self) -> usize {
        let mut o = Node::default();
        let f = self.r.range(1, 3) as u16;
        o.u16(f);
        if f == 3 {
            for _ in 0..3 {
                let n = self.n(2);
                o.u16(n as u16);
                for _ in 0..n {
                    let c = self.coverage();
                    o.l16(c);
                }
            }
            let a = self.n(3);
            o.u16(a as u16);
            self.actions(&mut o, a);
        } else {
            let c = self.coverage();
            o.l16(c);
            if f == 2 {
                for _ in 0..3 {
                    let c = self.class();
                    o.l16(c);
                }
            }
            let n = self.n(3);
            o.u16(n as u16);
            let mut made = vec![];
            for _ in 0..n {
                let t = if self.nul() { None } else { Some(self.part(&mut made, |g| g.chained_rule_set())) };
                o.m16(t);
            }
        }
        self.add(o)
    }

    fn extension(&mut self) -> usize {
        let mut o = Node::default();
        o.u16(1);
        o.u16(self.r.u16());
        o.u32(self.r.u32());
        self.add(o)
    }
    fn glyphs(&mut self) -> usize {
        let n = self.n(4);
        let mut o = Node::default();
        o.u16(n as u16);
        o.words(self.r, n);
        self.add(o)
    }
    fn ligature_set(&mut self) -> usize {
        let k = self.n(3);
        let mut s = Node::default();
        s.u16(k as u16);
        let mut made = vec![];
        for _ in 0..k {
            let i = self.part(&mut made, |g| {
                let mut u = Node::default();
                u.u16(g.r.u16());
                let m = 1 + g.upto(4, 0xFFFE);
                u.u16(m as u16);
                u.words(g.r, m - 1);
                g.add(u)
            });
            s.l16(i);
        }
        self.add(s)
    }
    pub fn gsub(&mut self, t: u16) -> usize {
        let mut o = Node::default();
        match t {
            1 => {
                let f = self.r.range(1, 2) as u16;
                o.u16(f);
                let c = self.coverage();
                o.l16(c);
                if f == 1 {
                    o.u16(self.r.u16());
                } else {
                    let n = self.n(6);
                    o.u16(n as u16);
                    o.words(self.r, n);
                }
            }
            2..=4 => {
                o.u16(1);
                let c = self.coverage();
                o.l16(c);
                let n = self.n(3);
                o.u16(n as u16);
                let mut made = vec![];
                for _ in 0..n {
                    let i = self.part(&mut made, |g| if t == 4 { g.ligature_set() } else { g.glyphs() });
                    o.l16(i);
                }
            }
            5 => return self.context(),
            6 => return self.chained(),
            7 => return self.extension(),
            _ => {
                o.u16(1);
                let c = self.coverage();
                o.l16(c);
                for _ in 0..2 {
                    let n = self.n(3);
                    o.u16(n as u16);
                    for _ in 0..n {
                        let c = self.coverage();
                        o.l16(c);
                    }
                }
                let n = self.n(4);
                o.u16(n as u16);
                o.words(self.r, n);
            }
        }
        self.add(o)
    }

    pub fn value_flags(&mut self) -> u16 {
        if self.r.pct(self.s.zero) {
            return 0;
        }
        match self.r.below(5) {
            0 => 1 << self.r.below(8),
            1 => self.r.pick(&[0xFF, 0x0F, 0xF0, 0x05, 0x44, 0x11]),
            _ => self.r.range(1, 255) as u16,
        }
    }
    fn single(&mut self, o: &mut Node, f: u16) {
        let zero = self.r.below(12);
        for i in 0..4 {
            if f & (1 << i) != 0 {
                // Values that change nothing are values as well.
                o.u16(if zero == 0 || zero == 1 && i != 2 { 0 } else { self.r.u16() });
            }
        }
        for i in 4..8 {
            if f & (1 << i) != 0 {
                let c = self.opt_correction();
                o.m16(c);
            }
        }
    }
    fn pair(&mut self, o: &mut Node, a: u16, b: u16) {
        self.single(o, a);
        self.single(o, b);
    }
    fn mark1(&mut self, o: &mut Node) {
        o.u16(self.r.u16());
        if self.s.null_marks && self.r.pct(40) {
            o.u16(0);
        } else {
            let a = self.anchor();
            o.l16(a);
        }
    }
    fn anchors(&mut self, o: &mut Node, n: usize) {
        for _ in 0..n {
            let a = self.opt_anchor();
            o.m16(a);
        }
    }
    pub fn mark_array(&mut self) -> usize {
        let mut o = Node::default();
        let n = self.n(3);
        o.u16(n as u16);
        for _ in 0..n {
            self.mark1(&mut o);
        }
        self.add(o)
    }
    fn mark_classes(&mut self) -> usize {
        if self.r.pct(self.s.zero) {
            0
        } else {
            1 + self.upto(3, 0xFFFE)
        }
    }
    /// Prepare for records of many classes.
    fn wide(&mut self, classes: usize) {
        if classes > 100 {
            self.bulk = None;
            self.bulked = true;
        }
        if classes > 5000 {
            self.s.null = 100;
        }
    }
    pub fn bases(&mut self, classes: usize) -> usize {
        self.wide(classes);
        let mut o = Node::default();
        let n = if classes > 2000 { 1 + self.r.below(2) as usize } else { self.upto(3, if classes > 8 { 3 } else { 12_000 }) };
        o.u16(n as u16);
        for _ in 0..n {
            self.anchors(&mut o, classes);
        }
        self.add(o)
    }
    pub fn ligature_array(&mut self, classes: usize) -> usize {
        self.wide(classes);
        let n = if classes > 2000 { 1 + self.r.below(2) as usize } else { self.n(3) };
        let mut o = Node::default();
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| {
                let k = if classes > 2000 { 1 + g.r.below(2) as usize } else { g.upto(3, if classes > 8 { 3 } else { 12_000 }) };
                let mut u = Node::default();
                u.u16(k as u16);
                for _ in 0..k {
                    g.anchors(&mut u, classes);
                }
                g.add(u)
            });
            o.l16(i);
        }
        self.add(o)
    }
    pub fn pair_set(&mut self, a: u16, b: u16) -> usize {
        let k = self.upto(3, 12_000);
        let mut u = Node::default();
        u.u16(k as u16);
        let ordered = self.r.pct(35);
        let mut glyph = self.r.below(300) as u16;
        for _ in 0..k {
            u.u16(if ordered { glyph } else { self.r.u16() });
            glyph = glyph.wrapping_add(self.r.below(4) as u16);
            self.pair(&mut u, a, b);
        }
        self.add(u)
    }
    pub fn gpos(&mut self, t: u16) -> usize {
        let mut o = Node::default();
        match t {
            1 => {
                let f = self.r.range(1, 2) as u16;
                o.u16(f);
                let c = self.coverage();
                o.l16(c);
                let v = self.value_flags();
                o.u16(v);
                if f == 1 {
                    self.single(&mut o, v);
                } else {
                    let n = self.upto(4, 12_000);
                    let far = n * 2 * v.count_ones() as usize > 50_000;
                    let mut v = v;
                    if far {
                        v &= 0x0F;
                        o.b[4..6].copy_from_slice(&v.to_be_bytes());
                    }
                    o.u16(n as u16);
                    for _ in 0..n {
                        self.single(&mut o, v);
                    }
                    if far && o.b.len() > 1000 {
                        // The coverage is among the records.
                        o.links.clear();
                        let p = 8 + self.r.idx(o.b.len().min(0x10000) - 100);
                        o.b[2..4].copy_from_slice(&(p as u16).to_be_bytes());
                        o.b[p..p + 8].copy_from_slice(&[0, 1, 0, 2, 0, 3, 1, 4]);
                    }
                }
            }
            2 => {
                let f = self.r.range(1, 2) as u16;
                o.u16(f);
                let c = self.coverage();
                o.l16(c);
                let a = self.value_flags();
                let b = if self.r.pct(40) { 0 } else { self.value_flags() };
                o.u16(a);
                o.u16(b);
                if f == 1 {
                    let n = self.n(3);
                    o.u16(n as u16);
                    let mut made = vec![];
                    for _ in 0..n {
                        let i = self.part(&mut made, |g| g.pair_set(a, b));
                        o.l16(i);
                    }
                } else {
                    let c = self.class();
                    o.l16(c);
                    let c = self.class();
                    o.l16(c);
                    let mut n = self.upto(3, 0xFFFF);
                    let mut m = self.upto(3, 0xFFFF);
                    if n * m > 20_000 {
                        let k = self.r.below(2) as usize;
                        if n > m {
                            m = k;
                        } else {
                            n = k;
                        }
                    }
                    let (mut a, mut b) = (a, b);
                    let far = n * m * 2 * (a.count_ones() + b.count_ones()) as usize > 50_000;
                    if far {
                        // The classes and the coverage are among the records.
                        a &= 0x0F;
                        b &= 0x0F;
                        o.b[4..6].copy_from_slice(&a.to_be_bytes());
                        o.b[6..8].copy_from_slice(&b.to_be_bytes());
                    }
                    o.u16(n as u16);
                    o.u16(m as u16);
                    for _ in 0..n * m {
                        self.pair(&mut o, a, b);
                    }
                    if far && o.b.len() > 1000 {
                        o.links.clear();
                        let parts = [
                            (2, vec![0u8, 1, 0, 2, 0, 3, 1, 4]),
                            (8, vec![0, 2, 0, 0]),
                            (10, vec![0, 1, 0, 9, 0, 1, 0, 2]),
                        ];
                        for (k, (at, b)) in parts.iter().enumerate() {
                            let top = o.b.len().min(0x10000) / 3;
                            let p = 16 + k * top + self.r.idx(top - 40);
                            o.b[*at..*at + 2].copy_from_slice(&(p as u16).to_be_bytes());
                            o.b[p..p + b.len()].copy_from_slice(b);
                        }
                    }
                }
            }
            3 => {
                o.u16(1);
                let c = self.coverage();
                o.l16(c);
                let n = self.n(4);
                o.u16(n as u16);
                for _ in 0..n {
                    self.anchors(&mut o, 2);
                }
            }
            4..=6 => {
                o.u16(1);
                let c = self.coverage();
                o.l16(c);
                let c = self.coverage();
                o.l16(c);
                let n = self.mark_classes();
                o.u16(n as u16);
                let m = self.mark_array();
                o.l16(m);
                let b = if t == 5 { self.ligature_array(n) } else { self.bases(n) };
                o.l16(b);
            }
            7 => return self.context(),
            8 => return self.chained(),
            _ => return self.extension(),
        }
        self.add(o)
    }

    pub fn tag(&mut self, known: &[u8]) -> u32 {
        const KNOWN: &[u8] = b"\
            latnDFLTdfltcyrlgrekarabhanikanahangthaidevadev2beng\
            bng2mathmuscjamobyzmlao yi  nko vai \
            kernligaaaltcalt\
            ccmpcligcpspcpctcv01cv42cv99c2scdligdnomfracfinahaltinitisollocl\
            markmedimkmkmsetnumronumordnpnumrcltrligrvrnsaltsizesmcpss01ss10\
            ss20subssupstnumunicvertvrt2zeroa000zzzzlatmlato\
            DEU ROM TRK NLD SRB ZHS ZHT JAN KOR APPHIPPHATH ENG MOL CAT AZE \
            \0\0\0\0    \xFF\xFF\xFF\xFFKERNLATN";
        match self.r.below(10) {
            8.. if !known.is_empty() => {
                let i = 4 * self.r.idx(known.len() / 4);
                u32::from_be_bytes(known[i..i + 4].try_into().unwrap())
            }
            0 => self.r.u32(),
            1 => u32::from_be_bytes(*b"latm") + self.r.below(4) as u32,
            2..=4 => u32::from_be_bytes(*self.r.pick(&[b"latn", b"DFLT", b"dflt", b"kern", b"liga", b"DEU ", b"aalt", b"zzzz"])),
            _ => {
                let i = 4 * self.r.idx(KNOWN.len() / 4);
                u32::from_be_bytes(KNOWN[i..i + 4].try_into().unwrap())
            }
        }
    }
    fn language(&mut self) -> usize {
        let mut o = Node::default();
        o.u16(0);
        o.u16(if self.r.pct(30) { 0xFFFF } else { self.r.u16() });
        let n = self.n(3);
        o.u16(n as u16);
        o.words(self.r, n);
        self.add(o)
    }
    pub fn scripts(&mut self) -> usize {
        let mut o = Node::default();
        let n = self.upto(4, 9000);
        o.u16(n as u16);
        let mut made: Vec<usize> = vec![];
        for _ in 0..n {
            o.u32(self.tag(tags::SCRIPT));
            if !made.is_empty() && (self.r.pct(self.s.share) || self.bulked && made.len() >= 6) {
                let i = self.r.pick(&made);
                o.l16(i);
                continue;
            }
            let mut s = Node::default();
            let d = if self.nul() { None } else { Some(self.language()) };
            s.m16(d);
            let k = self.upto(3, 9000);
            s.u16(k as u16);
            let mut languages = vec![];
            for _ in 0..k {
                s.u32(self.tag(tags::LANGUAGE));
                let l = self.part(&mut languages, |g| g.language());
                s.l16(l);
            }
            let i = self.add(s);
            made.push(i);
            o.l16(i);
        }
        self.add(o)
    }
    pub fn features(&mut self) -> usize {
        let mut o = Node::default();
        let n = self.upto(4, 9000);
        o.u16(n as u16);
        let mut made: Vec<usize> = vec![];
        for _ in 0..n {
            o.u32(self.tag(tags::FEATURE));
            if !made.is_empty() && (self.r.pct(self.s.share) || self.bulked && made.len() >= 6) {
                let i = self.r.pick(&made);
                o.l16(i);
                continue;
            }
            let mut s = Node::default();
            let p = if self.nul() { 0 } else { self.r.u16() };
            s.u16(p);
            let k = self.n(4);
            s.u16(k as u16);
            s.words(self.r, k);
            let i = self.add(s);
            made.push(i);
            o.l16(i);
        }
        self.add(o)
    }
    fn lookup(&mut self, gpos: bool) -> usize {
        let t = if self.r.pct(3) { 0 } else { self.r.range(1, if gpos { 9 } else { 8 }) } as u16;
        let mut o = Node::default();
        o.u16(t);
        let flags = match self.r.below(3) {
            0 => 0,
            1 => self.r.u16() & 0xFF1F,
            _ => 1 << self.r.below(5),
        };
        o.u16(flags);
        // A lookup of an unknown type without subtables holds nothing that could be misread.
        let n = if t == 0 { 0 } else { self.upto(2, 1500) };
        o.u16(n as u16);
        let mut made: Vec<usize> = vec![];
        for _ in 0..n {
            if !made.is_empty() && (self.r.pct(self.s.share) || self.bulked && made.len() >= 3) {
                let i = self.r.pick(&made);
                o.l16(i);
                continue;
            }
            let i = if gpos { self.gpos(t) } else { self.gsub(t) };
            made.push(i);
            o.l16(i);
        }
        if flags & 0x10 != 0 {
            o.u16(self.r.u16());
        }
        self.add(o)
    }
    pub fn lookups(&mut self, gpos: bool) -> usize {
        let mut o = Node::default();
        let n = self.upto(4, 1500);
        o.u16(n as u16);
        let mut made: Vec<usize> = vec![];
        for _ in 0..n {
            if !made.is_empty() && (self.r.pct(self.s.share / 2) || self.bulked && made.len() >= 3) {
                let i = self.r.pick(&made);
                o.l16(i);
                continue;
            }
            let i = self.lookup(gpos);
            made.push(i);
            o.l16(i);
        }
        self.add(o)
    }
    pub fn directory(&mut self, gpos: bool) -> usize {
        let mut o = Node::default();
        o.u16(1);
        let minor = self.r.below(2) as u16;
        o.u16(minor);
        for i in 0..3 {
            if self.s.null_lists && self.r.pct(40) {
                o.u16(0);
                continue;
            }
            let t = match i {
                0 => self.scripts(),
                1 => self.features(),
                _ => self.lookups(gpos),
            };
            o.l16(t);
        }
        if minor == 1 {
            if self.nul() {
                o.u32(0);
            } else {
                let mut v = Node::default();
                v.u16(1);
                v.u16(0);
                v.u32(self.r.u32());
                let i = self.add(v);
                o.l32(i);
            }
        }
        self.add(o)
    }

    pub fn attachments(&mut self) -> usize {
        let mut o = Node::default();
        let c = self.coverage();
        o.l16(c);
        let n = self.n(3);
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| g.glyphs());
            o.l16(i);
        }
        self.add(o)
    }
    fn caret(&mut self) -> usize {
        let f = self.r.range(1, 3) as u16;
        let mut u = Node::default();
        u.u16(f);
        u.u16(self.r.u16());
        if f == 3 {
            let c = self.correction();
            u.l16(c);
        }
        self.add(u)
    }
    pub fn carets(&mut self) -> usize {
        let mut o = Node::default();
        let c = self.coverage();
        o.l16(c);
        let n = self.n(3);
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| {
                let mut l = Node::default();
                let k = g.n(3);
                l.u16(k as u16);
                let mut carets = vec![];
                for _ in 0..k {
                    let i = g.part(&mut carets, |g| g.caret());
                    l.l16(i);
                }
                g.add(l)
            });
            o.l16(i);
        }
        self.add(o)
    }
    pub fn mark_sets(&mut self) -> usize {
        let mut o = Node::default();
        o.u16(1);
        let n = self.n(3);
        o.u16(n as u16);
        for _ in 0..n {
            let c = self.coverage();
            o.l32(c);
        }
        self.add(o)
    }
    pub fn store(&mut self) -> usize {
        let mut o = Node::default();
        o.u16(1);
        o.u32(self.r.u32());
        let n = self.n(3);
        o.u16(n as u16);
        let mut made = vec![];
        for _ in 0..n {
            let i = self.part(&mut made, |g| {
                let mut u = Node::default();
                let items = g.n(5);
                let regions = g.n(3);
                let words = g.r.below(regions as u64 + 1) as usize;
                u.u16(items as u16);
                u.u16(words as u16);
                u.u16(regions as u16);
                u.words(g.r, regions);
                let plain = g.r.pct(15);
                for _ in 0..items * (words + regions) {
                    u.u8(if plain { g.r.pick(&[0, 0, 0xFF]) } else { g.r.u8() });
                }
                g.add(u)
            });
            o.l32(i);
        }
        self.add(o)
    }
    pub fn gdef(&mut self) -> usize {
        let v = self.r.pick(&[0u16, 2, 3]);
        let mut o = Node::default();
        o.u16(1);
        o.u16(v);
        for i in 0..5 {
            if i == 4 && v < 2 {
                break;
            }
            if self.nul() {
                o.u16(0);
                continue;
            }
            let t = match i {
                0 | 3 => self.class(),
                1 => self.attachments(),
                2 => self.carets(),
                _ => self.mark_sets(),
            };
            o.l16(t);
        }
        if v == 3 {
            if self.nul() {
                o.u32(0);
            } else {
                let t = self.store();
                o.l32(t);
            }
        }
        self.add(o)
    }

    pub fn cpal(&mut self) -> usize {
        let version = self.r.below(2) as u16;
        let count = match self.r.below(8) {
            0 => 0,
            1 if self.s.big > 0 => self.r.range(200, 900) as usize,
            2 if self.s.bulk > 0 && self.r.below(self.s.bulk) == 0 => self.r.range(4000, 0xFFFF) as usize,
            _ => 1 + self.n(40),
        }
        .min(0xFFFF);
        let entries = match self.r.below(6) {
            0 => count,
            1 => 0,
            _ => self.r.below(count as u64 + 1).min(60) as usize,
        };
        let palettes = self.n(4);
        let mut colors = Node::default();
        let pattern = self.r.below(10);
        let same = self.r.u32();
        for i in 0..count as u32 {
            match pattern {
                0 => colors.u32(same),
                1 => colors.u32(same & 0xFF | i.wrapping_mul(0x01_01_01_00) & 0xFFFF_FF00),
                2 => colors.u32(if self.r.pct(50) { same } else { 0 }),
                _ => colors.u32(self.r.u32()),
            }
        }
        if colors.b.is_empty() {
            colors.u8(0);
        }
        let colors = self.add(colors);
        let mut o = Node::default();
        o.u16(version);
        o.u16(entries as u16);
        o.u16(palettes as u16);
        o.u16(count as u16);
        o.l32(colors);
        for _ in 0..palettes {
            let top = (count - entries) as u64;
            o.u16(match self.r.below(4) {
                0 => 0,
                1 => top,
                _ => self.r.below(top + 1),
            } as u16);
        }
        if version == 1 {
            // Offsets of types, labels, and entry labels, which are not read.
            for _ in 0..3 {
                o.u32(self.r.u32());
            }
        }
        self.add(o)
    }
    pub fn fvar(&mut self) -> usize {
        let axes = self.n(4);
        let mut instances = self.n(4);
        let mut axes = axes;
        if axes > 16_000 {
            // The size of an instance could not be told.
            if self.r.pct(60) {
                instances = 0;
            } else {
                axes = 16_000;
            }
        }
        let huge = self.bulked || self.s.bulk > 0 && self.r.below(self.s.bulk) < 3;
        let axis_size = 20
            + match self.r.below(10) {
                0..=2 => self.r.below(20) as usize,
                3..=5 if huge && axes < 20 => self.r.below(0x10000 - 20) as usize,
                _ => 0,
            };
        let named = self.r.pct(60);
        let min = 4 + 4 * axes.min(16_000) + if named { 2 } else { 0 };
        let instance_size = min
            + match self.r.below(10) {
                0..=2 if named => self.r.below(20) as usize,
                3 if !named => 1,
                4..=6 if huge && named && instances < 20 => self.r.below((0x10000 - min) as u64) as usize,
                _ => 0,
            };
        let mut a = Node::default();
        for _ in 0..axes {
            let t = self.tag(&[]);
            a.u32(t);
            let mut v = [self.r.u32(), self.r.u32(), self.r.u32()];
            match self.r.below(6) {
                0 => v.sort_by_key(|v| *v as i32),
                1 => v[1] = self.r.pick(&[v[0], v[2]]),
                2 => v = [v[0]; 3],
                _ => {}
            }
            for v in v {
                a.u32(v);
            }
            a.u16(self.r.below(2) as u16);
            a.u16(self.r.u16());
            let rest = self.r.bytes(axis_size - 20);
            a.b.extend(rest);
        }
        for i in 0..instances {
            a.u16(self.r.u16());
            a.u16(0);
            for _ in 0..axes {
                a.u32(self.r.u32());
            }
            if named {
                a.u16(self.r.u16());
            }
            if i + 1 < instances || self.r.pct(70) {
                let rest = self.r.bytes(instance_size - min);
                a.b.extend(rest);
            }
        }
        if a.b.is_empty() {
            a.u8(0);
        }
        let a = self.add(a);
        let mut o = Node::default();
        o.u16(1);
        o.u16(self.r.pick(&[0, 0, 0, 1, 7]));
        o.l16(a);
        o.u16(2);
        o.u16(axes as u16);
        o.u16(axis_size as u16);
        o.u16(instances as u16);
        o.u16(instance_size as u16);
        self.add(o)
    }

    /// The root of a table of a kind.
    pub fn root(&mut self, kind: Kind) -> usize {
        use Kind::*;
        match kind {
            Gsub => self.directory(false),
            Gpos => self.directory(true),
            Gdef => self.gdef(),
            Cpal => self.cpal(),
            Fvar => self.fvar(),
            Scripts => self.scripts(),
            Features => self.features(),
            GsubLookups => self.lookups(false),
            GposLookups => self.lookups(true),
            Coverage => self.coverage(),
            Class => self.class(),
            Correction => self.correction(),
            Context => self.context(),
            Chained => self.chained(),
            GsubType(t) => self.gsub(t),
            GposType(t) => self.gpos(t),
            Store => self.store(),
            Attachments => self.attachments(),
            Carets => self.carets(),
            MarkSets => self.mark_sets(),
            Anchor => self.anchor(),
            MarkArray => self.mark_array(),
            Bases(n) | Mark2s(n) => self.bases(n as usize),
            LigatureArray(n) => self.ligature_array(n as usize),
            Pair1s(a, b) => self.pair_set(a, b),
            _ => unreachable!("inline records have no root"),
        }
    }

    /// A node with several inline records one after another; returns where they start.
    pub fn inline(&mut self, which: u64) -> (usize, Vec<(u64, Kind)>) {
        let mut o = Node::default();
        let prefix = if self.r.pct(15) { self.r.range(1, 25) } else { 2 * self.r.range(1, 12) } as usize;
        o.b.extend(self.r.bytes(prefix));
        let a = self.value_flags();
        let b = if self.r.pct(40) { 0 } else { self.value_flags() };
        let n = self.mark_classes() as u16;
        let m = self.n(4) as u16;
        let count = 1 + self.n(3);
        let mut v = vec![];
        // Many records of many parts are too many.
        let count = if n.max(m) > 100 { count.min(4) } else { count.min(6000) };
        let (mut a, mut b) = (a, b);
        if count * m.max(1) as usize * 2 * (a.count_ones() + b.count_ones()) as usize > 50_000 {
            a &= 0x0F;
            b &= 0x0F;
        }
        for _ in 0..count {
            let at = o.b.len() as u64;
            let kind = match which {
                0 => {
                    self.single(&mut o, a);
                    Kind::Single(0, a)
                }
                1 => {
                    self.mark1(&mut o);
                    Kind::Mark1(0)
                }
                2..=4 => {
                    self.anchors(&mut o, n as usize);
                    match which {
                        2 => Kind::Mark2(0, n),
                        3 => Kind::Base(0, n),
                        _ => Kind::Component(0, n),
                    }
                }
                5 => {
                    self.anchors(&mut o, 2);
                    Kind::Connection(0)
                }
                6 => {
                    o.u16(self.r.u16());
                    self.pair(&mut o, a, b);
                    Kind::Pair1(0, a, b)
                }
                7 => {
                    self.pair(&mut o, a, b);
                    Kind::Pair2(0, a, b)
                }
                _ => {
                    for _ in 0..m {
                        self.pair(&mut o, a, b);
                    }
                    Kind::Pair2s(0, m, a, b)
                }
            };
            v.push((at, kind));
        }
        let suffix = if self.r.pct(50) { 0 } else { 2 * self.r.below(6) as usize };
        o.b.extend(self.r.bytes(suffix));
        (self.add(o), v)
    }
}

pub const INLINE: u64 = 9;

/// How nodes are placed.
#[derive(Clone, Copy)]
pub struct Lay {
    /// 0: packed, 1: small gaps, 2: a few far away, as far as 16 bits reach, 3: far and farther with 32 bits.
    pub spread: u8,
    pub garbage: u8,
}
impl Lay {
    pub fn new(r: &mut Rng) -> Self {
        Lay { spread: r.pick(&[0, 1, 1, 2, 3]), garbage: r.below(3) as u8 }
    }
    pub fn near(r: &mut Rng) -> Self {
        Lay { spread: r.pick(&[0, 1]), garbage: r.below(3) as u8 }
    }
}

/// Place nodes reachable from the root on a medium, with the root at the base.
pub fn place(r: &mut Rng, nodes: &[Node], root: usize, base: u64, lay: Lay) -> Option<Disk> {
    for attempt in 0..4 {
        let lay = if attempt == 3 { Lay { spread: 0, ..lay } } else { lay };
        if let Some(d) = try_place(r, nodes, root, base, lay) {
            return Some(d);
        }
    }
    None
}

fn try_place(r: &mut Rng, nodes: &[Node], root: usize, base: u64, lay: Lay) -> Option<Disk> {
    let n = nodes.len();
    let mut reach = vec![false; n];
    let mut stack = vec![root];
    let mut parents: Vec<Vec<(usize, u8)>> = vec![vec![]; n];
    while let Some(i) = stack.pop() {
        if reach[i] {
            continue;
        }
        reach[i] = true;
        for (_, w, t) in &nodes[i].links {
            parents[*t].push((i, *w));
            stack.push(*t);
        }
    }
    let mut missing: Vec<usize> = parents.iter().map(|p| p.len()).collect();
    let mut pos = vec![u64::MAX; n];
    let mut ready = vec![root];
    let mut used: Vec<(u64, u64)> = vec![];
    let mut cursor = base;
    let breadth = r.pct(60);
    let large = nodes.iter().any(|n| n.b.len() > 4000);
    while !ready.is_empty() {
        let k = if large {
            // Large nodes come last, or the others are out of reach.
            let least = ready.iter().map(|i| nodes[*i].b.len()).min().unwrap_or(0).max(200);
            let small: Vec<usize> = (0..ready.len()).filter(|k| nodes[ready[*k]].b.len() <= least).collect();
            small[r.idx(small.len())]
        } else if breadth {
            r.idx(ready.len())
        } else {
            ready.len() - 1
        };
        let i = ready.swap_remove(k);
        let size = nodes[i].b.len() as u64;
        let low = parents[i].iter().map(|(p, _)| pos[*p] + 1).max().unwrap_or(base);
        let high = parents[i].iter().map(|(p, w)| pos[*p] + if *w == 2 { 0xFFFF } else { 0xFFFF_FFFF }).min().unwrap_or(base);
        if low > high {
            return None;
        }
        let mut at = None;
        if i == root {
            at = Some(base);
        } else {
            if lay.spread >= 2 && r.pct(12) {
                let far = match r.below(4) {
                    0 => high,
                    1 => high - r.below((high - low + 1).min(8)),
                    2 if lay.spread == 3 => r.range(low, high),
                    _ => low + (r.below(0x10000)).min(high - low),
                };
                let top = far + size;
                if far >= low && top < i64::MAX as u64 && !used.iter().any(|(a, b)| far < *b && *a < top) {
                    at = Some(far);
                }
            }
            if at.is_none() {
                let mut p = cursor.max(low);
                if lay.spread > 0 {
                    p += match r.below(6) {
                        0 => r.below(9),
                        1 => 1,
                        _ => 0,
                    };
                }
                // Skip whatever is in the way.
                while let Some((_, b)) = used.iter().find(|(a, b)| p < *b && *a < p + size.max(1)) {
                    p = *b;
                }
                if p > high {
                    return None;
                }
                cursor = p + size;
                at = Some(p);
            }
        }
        let p = at?;
        if i == root {
            cursor = p + size;
        }
        pos[i] = p;
        used.push((p, p + size.max(1)));
        let mut seen = vec![];
        for (_, _, t) in &nodes[i].links {
            if seen.contains(t) {
                continue;
            }
            let count = nodes[i].links.iter().filter(|l| l.2 == *t).count();
            seen.push(*t);
            missing[*t] -= count;
            if missing[*t] == 0 {
                ready.push(*t);
            }
        }
    }
    let mut disk = Disk::default();
    let seed = r.u64();
    let mut items: Vec<(u64, Vec<u8>)> = vec![];
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        let mut b = nodes[i].b.clone();
        for (at, w, t) in &nodes[i].links {
            let o = pos[*t] - pos[i];
            if *w == 2 {
                b[*at..*at + 2].copy_from_slice(&u16::try_from(o).ok()?.to_be_bytes());
            } else {
                b[*at..*at + 4].copy_from_slice(&u32::try_from(o).ok()?.to_be_bytes());
            }
        }
        items.push((pos[i], b));
    }
    items.sort_by_key(|i| i.0);
    // Small gaps hold garbage; nodes close to one another are stored together.
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    for (p, b) in items {
        if let Some((q, c)) = segs.last_mut() {
            let end = *q + c.len() as u64;
            if p >= end && p - end <= 64 {
                for k in end..p {
                    c.push(junk(lay.garbage, seed, k));
                }
                c.extend(b);
                continue;
            }
        }
        segs.push((p, b));
    }
    for (p, b) in segs {
        disk.add(p, b);
    }
    Some(disk)
}

pub fn junk(garbage: u8, seed: u64, k: u64) -> u8 {
    match garbage {
        0 => 0,
        1 => 0xFF,
        _ => mix(seed ^ k) as u8,
    }
}

/// Something to read directly.
#[derive(Clone)]
pub struct Case {
    pub disk: Disk,
    pub pos: u64,
    pub kind: Kind,
    /// The following inline records, if any.
    pub more: Vec<Kind>,
}

pub fn any_base(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => 0,
        3 | 4 => r.below(300),
        5 => r.pick(&[1, 0xFFFF, 0x10000, 0x10001, 0x7FFF_FFFE, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0002]),
        6 => r.below(1 << 33),
        7 => r.below(1 << 50),
        _ => r.below(100_000),
    }
}

/// Surround what is stored: bytes in front, and perhaps behind.
pub fn surround(r: &mut Rng, disk: &mut Disk, base: u64) {
    let front = base.min(r.below(80));
    if front > 0 {
        let b = r.bytes(front as usize);
        disk.add(base - front, b);
    }
    if r.pct(50) {
        let k = 1 + r.idx(64);
        let b = r.bytes(k);
        let end = disk.len;
        disk.add(end, b);
    }
}

pub fn case(r: &mut Rng, kind: Kind, style: &Style, base: u64, lay: Lay) -> Case {
    loop {
        let mut g = Gen::new(r, style.clone());
        let root = g.root(kind);
        let nodes = std::mem::take(&mut g.nodes);
        if let Some(mut disk) = place(r, &nodes, root, base, lay) {
            surround(r, &mut disk, base);
            return Case { disk, pos: base, kind, more: vec![] };
        }
    }
}

pub fn inline_case(r: &mut Rng, which: u64, style: &Style, base: u64, lay: Lay) -> Case {
    loop {
        let mut g = Gen::new(r, style.clone());
        let (root, v) = g.inline(which);
        let nodes = std::mem::take(&mut g.nodes);
        if let Some(mut disk) = place(r, &nodes, root, base, lay) {
            surround(r, &mut disk, base);
            let kinds: Vec<Kind> = v.iter().map(|(_, k)| rebase(*k, base)).collect();
            return Case { disk, pos: base + v[0].0, kind: kinds[0], more: kinds[1..].to_vec() };
        }
    }
}

pub fn rebase(k: Kind, b: u64) -> Kind {
    use Kind::*;
    match k {
        Single(_, f) => Single(b, f),
        Mark1(_) => Mark1(b),
        Mark2(_, n) => Mark2(b, n),
        Base(_, n) => Base(b, n),
        Component(_, n) => Component(b, n),
        Connection(_) => Connection(b),
        Pair1(_, x, y) => Pair1(b, x, y),
        Pair2(_, x, y) => Pair2(b, x, y),
        Pair2s(_, n, x, y) => Pair2s(b, n, x, y),
        k => k,
    }
}
