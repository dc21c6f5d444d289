//! UAX #15 (Unicode 10.0): the definitions of the normalization forms, applied to whole strings.
use crate::gen::{any_string, edge_char, ByClass};
use crate::pbt::Src;
use crate::refdata::{parse_hex, prop, Prop};
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Norm {
    canon: &'static Prop,
    compat: &'static Prop,
    ccc: &'static Prop,
    ccc_num: Vec<u8>,
    canon_d: Vec<Vec<char>>,
    compat_d: Vec<Vec<char>>,
    pub comp: HashMap<(char, char), char>,
    pub firsts: Vec<char>,
    pub seconds: Vec<char>,
    pub excluded: Vec<char>,
    pub canon_chars: Vec<char>,
    /// those whose full canonical decomposition has three characters or more
    pub deep_chars: Vec<char>,
    pub compat_chars: Vec<char>,
}

const SB: u32 = 0xAC00;
pub fn is_hangul(c: char) -> bool {
    (SB..SB + 11172).contains(&(c as u32))
}

static NORM: OnceLock<Norm> = OnceLock::new();
pub fn norm() -> &'static Norm {
    NORM.get_or_init(Norm::new)
}

fn table(p: &'static Prop) -> Vec<Vec<char>> {
    p.values.iter().map(|v| if v == "-" { vec![] } else { parse_hex(v) }).collect()
}

impl Norm {
    fn new() -> Norm {
        let canon = prop("Canonical_Decomposition");
        let compat = prop("Compatibility_Decomposition");
        let ccc = prop("Canonical_Combining_Class");
        let changes = prop("NFC_Changes");
        let mut n = Norm {
            canon,
            compat,
            ccc,
            ccc_num: ccc.values.iter().map(|v| v.parse().unwrap()).collect(),
            canon_d: table(canon),
            compat_d: table(compat),
            comp: HashMap::new(),
            firsts: vec![],
            seconds: vec![],
            excluded: vec![],
            canon_chars: vec![],
            deep_chars: vec![],
            compat_chars: vec![],
        };
        for v in 0..0x11_0000u32 {
            let c = match char::from_u32(v) {
                Some(c) => c,
                None => continue,
            };
            let d = n.canon_of(c).to_vec();
            if !d.is_empty() {
                n.canon_chars.push(c);
                // a primary composite is one that NFC keeps
                if d.len() == 2 && !changes.is(c) {
                    let (a, b) = (d[0], d[1]);
                    n.firsts.push(a);
                    n.seconds.push(b);
                    n.comp.insert((a, b), c);
                } else {
                    n.excluded.push(c);
                }
            }
            if !n.compat_of(c).is_empty() {
                n.compat_chars.push(c);
            }
        }
        n.firsts.sort();
        n.firsts.dedup();
        n.seconds.sort();
        n.seconds.dedup();
        let deep = |c: &char| {
            let mut d = vec![];
            n.full(*c, false, &mut d);
            d.len() > 2
        };
        n.deep_chars = n.canon_chars.iter().copied().filter(deep).collect();
        n
    }
    /// One step of canonical decomposition (without Hangul); empty: none.
    pub fn canon_of(&self, c: char) -> &[char] {
        &self.canon_d[self.canon.id(c) as usize]
    }
    pub fn compat_of(&self, c: char) -> &[char] {
        &self.compat_d[self.compat.id(c) as usize]
    }
    pub fn ccc(&self, c: char) -> u8 {
        self.ccc_num[self.ccc.id(c) as usize]
    }
    pub fn full(&self, c: char, k: bool, out: &mut Vec<char>) {
        if is_hangul(c) {
            let i = c as u32 - SB;
            let (l, v, t) = (i / 588, i % 588 / 28, i % 28);
            out.push(char::from_u32(0x1100 + l).unwrap());
            out.push(char::from_u32(0x1161 + v).unwrap());
            if t != 0 {
                out.push(char::from_u32(0x11A7 + t).unwrap());
            }
            return;
        }
        let d = self.canon_of(c);
        let d = if d.is_empty() && k { self.compat_of(c) } else { d };
        if d.is_empty() {
            out.push(c);
        } else {
            for &x in d {
                self.full(x, k, out);
            }
        }
    }
    pub fn pair(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) {
            return char::from_u32(SB + ((x - 0x1100) * 21 + (y - 0x1161)) * 28);
        }
        if is_hangul(a) && (x - SB) % 28 == 0 && (0x11A8..0x11C3).contains(&y) {
            return char::from_u32(x + (y - 0x11A7));
        }
        self.comp.get(&(a, b)).copied()
    }
    pub fn d(&self, s: impl IntoIterator<Item = char>, k: bool) -> Vec<char> {
        let mut v = vec![];
        for c in s {
            self.full(c, k, &mut v);
        }
        // canonical ordering: every maximal run of non-starters, stably by class
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j < v.len() && self.ccc(v[j]) != 0 {
                j += 1;
            }
            v[i..j].sort_by_key(|c| self.ccc(*c));
            i = j + 1;
        }
        v
    }
    /// Canonical composition (D117) of a decomposed string.
    pub fn compose(&self, v: &[char]) -> Vec<char> {
        let mut out: Vec<char> = vec![];
        // the last starter before c in what is left, and the highest class of what follows it
        let mut starter: Option<usize> = None;
        let mut highest = None;
        for &c in v {
            let ccc = self.ccc(c);
            if let Some(st) = starter {
                // blocked: something between with ccc 0 (none: st is the last) or ccc >= ccc(c)
                if highest.map_or(true, |h| h < ccc) {
                    if let Some(p) = self.pair(out[st], c) {
                        out[st] = p;
                        continue;
                    }
                }
            }
            if ccc == 0 {
                starter = Some(out.len());
                highest = None;
            } else {
                highest = highest.max(Some(ccc));
            }
            out.push(c);
        }
        out
    }
    /// form: 0 NFD, 1 NFC, 2 NFKD, 3 NFKC
    pub fn form(&self, s: impl IntoIterator<Item = char>, form: usize) -> Vec<char> {
        let d = self.d(s, form >= 2);
        if form % 2 == 1 {
            self.compose(&d)
        } else {
            d
        }
    }
}

pub const FORMS: [&str; 4] = ["NFD", "NFC", "NFKD", "NFKC"];

pub struct NormGen {
    ccc: ByClass,
}
impl NormGen {
    pub fn new() -> NormGen {
        NormGen { ccc: ByClass::new("Canonical_Combining_Class") }
    }
    pub fn hangul(&self, s: &mut Src) -> char {
        let v = match s.below(6) {
            0 => 0x1100 + s.raw(20) as u32,            // L and the one after
            1 => 0x1160 + s.raw(23) as u32,            // V, one before and after
            2 => 0x11A7 + s.raw(29) as u32,            // T, one before and after
            3 => SB + 28 * s.raw(399) as u32,          // LV
            4 => SB + s.raw(11172) as u32,
            _ => s.pick(&[0x10FF, 0x1113, 0x1112, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xABFF, SB, SB + 11171, SB + 11172, 0x3131]),
        };
        char::from_u32(v).unwrap()
    }
    pub fn mark(&self, s: &mut Src) -> char {
        let v = s.below(self.ccc.n());
        self.ccc.p.char_of(s, v as u16)
    }
    pub fn char(&self, s: &mut Src) -> char {
        let n = norm();
        match s.weighted(&[3, 6, 6, 6, 4, 3, 3, 5, 1, 1]) {
            0 => s.pick(&['a', 'b', 'e', 'o', 's', 'A', 'K', ' ', '=', '\u{3b1}', '\u{915}']),
            1 => self.mark(s),
            2 => s.pick(&n.firsts),
            3 => s.pick(&n.seconds),
            4 => s.pick(&n.canon_chars),
            5 => s.pick(&n.excluded),
            6 => s.pick(&n.compat_chars),
            7 => self.hangul(s),
            8 => s.any_char(),
            _ => edge_char(s),
        }
    }
    pub fn string(&self, s: &mut Src, max: usize) -> String {
        let avg = s.pick(&[2usize, 4, 10, 25]);
        match s.below(9) {
            0 => any_string(s, max),
            // whole decompositions, or what is left of them after a step
            8 => {
                let n = norm();
                let pieces: Vec<Vec<char>> = (0..s.urange(1, 3))
                    .map(|_| {
                        let c = match s.below(6) {
                            0 => self.hangul(s),
                            1 => s.pick(&n.compat_chars),
                            2 | 3 => s.pick(&n.deep_chars),
                            _ => s.pick(&n.canon_chars),
                        };
                        let mut d = vec![];
                        if s.chance(3, 4) || n.canon_of(c).is_empty() {
                            n.full(c, s.bool(), &mut d);
                        } else {
                            d.extend_from_slice(n.canon_of(c));
                        }
                        d
                    })
                    .collect();
                let v = s.list(avg.min(6), max / 4 + 1, |s| s.pick(&pieces));
                v.into_iter().flatten().take(max).collect()
            }
            // a composable start and a pile of marks from a few classes
            1 | 2 => {
                let n = norm();
                let pool: Vec<char> = (0..s.urange(1, 4)).map(|_| if s.bool() { s.pick(&n.seconds) } else { self.mark(s) }).collect();
                let starts: Vec<char> = (0..2).map(|_| s.pick(&n.firsts)).collect();
                s.list(avg, max, |s| if s.chance(1, 4) { s.pick(&starts) } else { s.pick(&pool) }).into_iter().collect()
            }
            // Hangul only
            3 => s.list(avg, max, |s| self.hangul(s)).into_iter().collect(),
            _ => s.list(avg, max, |s| self.char(s)).into_iter().collect(),
        }
    }
    /// A string canonically equivalent to `t`, by random steps.
    pub fn equivalent(&self, s: &mut Src, t: &str) -> String {
        let n = norm();
        let mut v: Vec<char> = t.chars().collect();
        for _ in 0..s.below(12) {
            if v.is_empty() {
                break;
            }
            let i = s.below(v.len());
            match s.below(3) {
                0 => {
                    // decompose one character: one step, or fully
                    let mut d = vec![];
                    if s.bool() && !n.canon_of(v[i]).is_empty() {
                        d.extend_from_slice(n.canon_of(v[i]));
                    } else {
                        n.full(v[i], false, &mut d);
                    }
                    v.splice(i..=i, d);
                }
                1 => {
                    // swap two neighbours of different non-zero classes
                    if i + 1 < v.len() {
                        let (a, b) = (n.ccc(v[i]), n.ccc(v[i + 1]));
                        if a != 0 && b != 0 && a != b {
                            v.swap(i, i + 1);
                        }
                    }
                }
                _ => {
                    // compose two neighbours
                    if i + 1 < v.len() {
                        if let Some(c) = n.pair(v[i], v[i + 1]) {
                            v.splice(i..=i + 1, [c]);
                        }
                    }
                }
            }
        }
        v.into_iter().collect()
    }
}
