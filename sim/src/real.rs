//! Tables of real fonts: what is stored in `real.bin`, and the parts of these.
use crate::gen::Case;
use crate::refm::Kind;
use crate::rng::Rng;
use crate::tables::T;

use std::sync::OnceLock;

static DATA: &[u8] = include_bytes!("real.bin");
static INDEX: &str = include_str!("real.txt");

pub struct Real {
    pub kind: Kind,
    pub bytes: &'static [u8],
}

fn word(b: &[u8], p: usize) -> usize {
    b.get(p..p + 2).map_or(0, |b| u16::from_be_bytes([b[0], b[1]]) as usize)
}
fn long(b: &[u8], p: usize) -> usize {
    b.get(p..p + 4).map_or(0, |b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize)
}

fn stored() -> Vec<(T, &'static [u8])> {
    let mut v = vec![];
    let mut p = 4;
    for _ in 0..long(DATA, 0) {
        let tag: [u8; 4] = DATA[p..p + 4].try_into().unwrap();
        let n = long(DATA, p + 4);
        v.push((T::from_tag(&tag).unwrap(), &DATA[p + 8..p + 8 + n]));
        p += 8 + n;
    }
    v
}

/// Find the parts of the tables, for the index.
pub fn index() {
    let mut seen: Vec<(Kind, Vec<u8>)> = vec![];
    for (i, (t, b)) in stored().into_iter().enumerate() {
        let mut parts: Vec<(Kind, usize)> = vec![(t.own().unwrap(), 0)];
        match t {
            T::Gsub | T::Gpos => {
                let gsub = t == T::Gsub;
                parts.push((Kind::Scripts, word(b, 4)));
                parts.push((Kind::Features, word(b, 6)));
                let l = word(b, 8);
                parts.push((if gsub { Kind::GsubLookups } else { Kind::GposLookups }, l));
                for j in 0..word(b, l) {
                    let o = l + word(b, l + 2 + 2 * j);
                    let k = word(b, o) as u16;
                    for q in 0..word(b, o + 4) {
                        let s = o + word(b, o + 6 + 2 * q);
                        parts.push((if gsub { Kind::GsubType(k) } else { Kind::GposType(k) }, s));
                        let f = word(b, s);
                        if gsub && k < 5 || !gsub && k < 7 {
                            parts.push((Kind::Coverage, s + word(b, s + 2)));
                        }
                        if !gsub && k == 2 && f == 2 {
                            parts.push((Kind::Class, s + word(b, s + 8)));
                            parts.push((Kind::Class, s + word(b, s + 10)));
                        }
                        if !gsub && (4..7).contains(&k) {
                            let n = word(b, s + 6) as u16;
                            parts.push((Kind::MarkArray, s + word(b, s + 8)));
                            let p = s + word(b, s + 10);
                            parts.push((
                                match k {
                                    4 => Kind::Bases(n),
                                    5 => Kind::LigatureArray(n),
                                    _ => Kind::Mark2s(n),
                                },
                                p,
                            ));
                        }
                    }
                }
            }
            T::Gdef => {
                let kinds = [Kind::Class, Kind::Attachments, Kind::Carets, Kind::Class];
                for (j, k) in kinds.into_iter().enumerate() {
                    if word(b, 4 + 2 * j) > 0 {
                        parts.push((k, word(b, 4 + 2 * j)));
                    }
                }
                if word(b, 2) > 2 && long(b, 14) > 0 {
                    parts.push((Kind::Store, long(b, 14)));
                }
                if word(b, 2) >= 2 && word(b, 12) > 0 {
                    parts.push((Kind::MarkSets, word(b, 12)));
                }
            }
            _ => {}
        }
        for (k, p) in parts {
            let disk = crate::disk::Disk::from_bytes(b.to_vec());
            let o = crate::refm::decode(&disk, p as u64, k, crate::model::CFG);
            if let Err(e) = o.result {
                eprintln!("{i} {k:?} at {p}: {e:?}");
                continue;
            }
            let high = if p == 0 { b.len() } else { (o.high as usize).min(b.len()) };
            if high > p && !seen.iter().any(|s| s.0 == k && s.1 == b[p..high]) {
                println!("{} {i} {p} {}", crate::scen::kind_text(&k), high - p);
                seen.push((k, b[p..high].to_vec()));
            }
        }
    }
}

pub fn all() -> &'static Vec<Real> {
    static ALL: OnceLock<Vec<Real>> = OnceLock::new();
    ALL.get_or_init(|| {
        let tables = stored();
        let mut v = vec![];
        for l in INDEX.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<usize>().unwrap();
            let kind = crate::scen::kind_parse(w[0]).unwrap();
            v.push(Real { kind, bytes: &tables[n(1)].1[n(2)..n(2) + n(3)] });
        }
        v
    })
}

/// One of a kind that is asked for; small ones are likelier.
pub fn pick(r: &mut Rng, wanted: impl Fn(Kind) -> bool) -> Option<&'static Real> {
    let most = r.pick(&[100, 400, 1500, 4000, 12_000, 100_000]);
    let fits = |x: &&Real| wanted(x.kind) && x.bytes.len() <= most;
    let n = all().iter().filter(fits).count();
    if n == 0 {
        return None;
    }
    let k = r.idx(n);
    all().iter().filter(fits).nth(k)
}

pub fn case(r: &mut Rng, wanted: impl Fn(Kind) -> bool, base: u64) -> Option<Case> {
    let x = pick(r, wanted)?;
    let mut disk = crate::disk::Disk::default();
    disk.add(base, x.bytes.to_vec());
    crate::gen::surround(r, &mut disk, base);
    Some(Case { disk, pos: base, kind: x.kind, more: vec![] })
}
