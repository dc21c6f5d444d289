//! C26: unic-gen, the generator of the data tables.
use crate::gen::EDGES;
use crate::pbt::*;
use crate::refdata::{parse_hex, prop};
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- reading generated Rust source

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Str(String),
    Ch(char),
    Int(u64),
    List(Vec<V>),
    Tup(Vec<V>),
    /// a path, with arguments if it is a call
    Path(String, Option<Vec<V>>),
    Rec(String, Vec<(String, V)>),
    /// inclusive; `None` when empty
    Range(char, char),
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            V::Str(s) => write!(f, "\"{}\"", crate::gen::esc(s)),
            V::Ch(c) => write!(f, "U+{:04X}", *c as u32),
            V::Int(i) => write!(f, "{}", i),
            V::List(v) => f.debug_list().entries(v).finish(),
            V::Tup(v) => {
                f.write_str("(")?;
                for x in v {
                    write!(f, "{:?},", x)?;
                }
                f.write_str(")")
            }
            V::Path(p, None) => f.write_str(p),
            V::Path(p, Some(a)) => write!(f, "{}{:?}", p, V::Tup(a.clone())),
            V::Rec(p, a) => write!(f, "{}{:?}", p, a),
            V::Range(a, b) => write!(f, "U+{:04X}..=U+{:04X}", *a as u32, *b as u32),
        }
    }
}

fn name(s: &str) -> V {
    V::Path(s.into(), None)
}
fn call(s: &str, v: Vec<V>) -> V {
    V::Path(s.into(), Some(v))
}
fn st(s: &str) -> V {
    V::Str(s.into())
}
fn chs(cs: &[char]) -> V {
    V::List(cs.iter().map(|&c| V::Ch(c)).collect())
}
fn unit() -> V {
    V::Tup(vec![])
}
fn version(v: [u32; 3]) -> V {
    V::Rec(
        "UnicodeVersion".into(),
        ["major", "minor", "micro"].iter().zip(v.iter()).map(|(k, &n)| (k.to_string(), V::Int(n as u64))).collect(),
    )
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"//") {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let ok = self.s[self.i..].starts_with(t.as_bytes());
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn want(&mut self, t: &str) -> Res {
        if self.eat(t) {
            return Ok(());
        }
        let end = (self.i + 40).min(self.s.len());
        Err(format!("not Rust: expected {} before {:?}", t, String::from_utf8_lossy(&self.s[self.i.min(end)..end])))
    }
    /// One character of a literal that ends with `q`.
    fn lit_char(&mut self, q: u8) -> Result<Option<char>, String> {
        let c = *self.s.get(self.i).ok_or("not Rust: open literal")?;
        if c == q {
            return Ok(None);
        }
        if c == b'\\' {
            self.i += 2;
            return Ok(Some(match self.s.get(self.i - 1) {
                Some(b'n') => '\n',
                Some(b'r') => '\r',
                Some(b't') => '\t',
                Some(b'0') => '\0',
                Some(&c @ (b'\\' | b'\'' | b'"')) => c as char,
                Some(b'u') => {
                    if self.s.get(self.i) != Some(&b'{') {
                        return Err("not Rust: \\u".into());
                    }
                    let mut h = String::new();
                    loop {
                        self.i += 1;
                        match *self.s.get(self.i).ok_or("not Rust: \\u")? {
                            b'}' => break,
                            c => h.push(c as char),
                        }
                    }
                    self.i += 1;
                    if h.len() > 6 {
                        return Err(format!("not Rust: \\u{{{}}}", h));
                    }
                    u32::from_str_radix(&h, 16)
                        .ok()
                        .and_then(char::from_u32)
                        .ok_or_else(|| format!("not Rust: \\u{{{}}}", h))?
                }
                _ => return Err("not Rust: escape".into()),
            }));
        }
        let n = if c < 0x80 { 1 } else if c < 0xE0 { 2 } else if c < 0xF0 { 3 } else { 4 };
        let s = std::str::from_utf8(&self.s[self.i..self.i + n]).map_err(|_| "not UTF-8")?;
        self.i += n;
        Ok(s.chars().next())
    }
    fn list(&mut self, end: &str) -> Result<Vec<V>, String> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.expr()?);
            if !self.eat(",") {
                self.want(end)?;
                break;
            }
        }
        Ok(v)
    }
    fn word(&mut self) -> String {
        self.ws();
        let from = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[from..self.i]).into_owned()
    }
    fn expr(&mut self) -> Result<V, String> {
        match self.peek() {
            b'&' => {
                self.i += 1;
                self.expr()
            }
            b'[' => {
                self.i += 1;
                Ok(V::List(self.list("]")?))
            }
            b'(' => {
                self.i += 1;
                let v = self.list(")")?;
                Ok(V::Tup(v))
            }
            b'"' => {
                self.i += 1;
                let mut t = String::new();
                while let Some(c) = self.lit_char(b'"')? {
                    t.push(c);
                }
                self.i += 1;
                Ok(V::Str(t))
            }
            b'\'' => {
                self.i += 1;
                let c = self.lit_char(b'\'')?.ok_or("not Rust: ''")?;
                if self.s.get(self.i) != Some(&b'\'') {
                    return Err("not Rust: char literal".into());
                }
                self.i += 1;
                Ok(V::Ch(c))
            }
            b'0'..=b'9' => {
                let w = self.word();
                Ok(V::Int(w.replace('_', "").parse().map_err(|_| format!("not Rust: {}", w))?))
            }
            _ => {
                let mut w = self.word();
                if w.is_empty() || w == "_" {
                    self.want("an expression")?;
                }
                if w == "chars" && self.eat("!") {
                    self.want("(")?;
                    let a = self.expr()?;
                    let closed = self.eat("..=");
                    if !closed {
                        self.want("..")?;
                    }
                    let b = self.expr()?;
                    self.want(")")?;
                    return match (a, b) {
                        (V::Ch(a), V::Ch(b)) if closed => Ok(V::Range(a, b)),
                        (V::Ch(a), V::Ch(b)) if b > a => {
                            let b = if b == '\u{e000}' { 0xD7FF } else { b as u32 - 1 };
                            Ok(V::Range(a, char::from_u32(b).unwrap()))
                        }
                        _ => Err("not a range of characters".into()),
                    };
                }
                while self.eat("::") {
                    w.push_str("::");
                    w.push_str(&self.word());
                }
                if self.eat("(") {
                    let v = self.list(")")?;
                    return Ok(V::Path(w, Some(v)));
                }
                if self.eat("{") {
                    let mut v = vec![];
                    while !self.eat("}") {
                        let k = self.word();
                        self.want(":")?;
                        v.push((k, self.expr()?));
                        if !self.eat(",") {
                            self.want("}")?;
                            break;
                        }
                    }
                    return Ok(V::Rec(w, v));
                }
                Ok(V::Path(w, None))
            }
        }
    }
    fn end(&mut self) -> Res {
        ensure!(self.peek() == 0, "not Rust: something after the end");
        Ok(())
    }
}

fn parse(src: &str) -> Result<V, String> {
    let mut p = P::new(src);
    let v = p.expr()?;
    p.end()?;
    Ok(v)
}

type Map = BTreeMap<char, V>;

/// What a table denotes; it must be searchable: ascending, without overlap.
fn denotes(v: V) -> Result<Map, String> {
    let (kind, rows) = match v {
        V::Path(k, Some(mut a)) if a.len() == 1 => match a.pop() {
            Some(V::List(l)) => (k, l),
            _ => return Err("not a table".into()),
        },
        _ => return Err("not a table".into()),
    };
    let ranges = match &*kind {
        "CharDataTable::Range" => true,
        "CharDataTable::Direct" => false,
        k => return Err(format!("unknown kind of table: {}", k)),
    };
    let mut m = Map::new();
    let mut last: Option<char> = None;
    for row in rows {
        let (key, val) = match row {
            V::Tup(v) if v.len() == 2 => {
                let mut it = v.into_iter();
                (it.next().unwrap(), it.next().unwrap())
            }
            r => return Err(format!("not a row: {:?}", r)),
        };
        let (a, b) = match (key, ranges) {
            (V::Range(a, b), true) if a <= b => (a, b),
            (V::Ch(a), false) => (a, a),
            (k, _) => return Err(format!("not a key of a {} table: {:?}", kind, k)),
        };
        ensure!(last.map_or(true, |l| l < a), "row U+{:04X} does not come after U+{:04X}", a as u32, last.unwrap() as u32);
        last = Some(b);
        for c in a..=b {
            m.insert(c, val.clone());
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------- a set of source files

pub enum Want {
    Table(Map),
    Exact(V),
    /// names: const values, then a map of lists of constants
    Names(BTreeMap<char, String>),
    /// the file of constants belonging to `Names`
    Consts,
    Types(BTreeMap<char, BTreeSet<&'static str>>),
    /// a table where the empty list stands for any value, or none
    Bidi(Map),
}

#[derive(Default)]
pub struct World {
    pub src: BTreeMap<String, String>,
    pub want: BTreeMap<String, Want>,
}

const UCD: &str = "external/unicode/ucd/data/";

struct Span {
    lo: u32,
    hi: u32,
    v: usize,
}
fn is_surrogate(v: u32) -> bool {
    (0xD800..0xE000).contains(&v)
}
fn chars_in(lo: u32, hi: u32) -> impl Iterator<Item = char> {
    (lo..=hi).filter_map(char::from_u32)
}

/// Disjoint ascending spans of code points with values below `k`.
fn spans(s: &mut Src, avg: usize, max: usize, k: usize, surrogates: bool, step: u32) -> Vec<Span> {
    let mut out: Vec<Span> = vec![];
    let mut at: u32 = 0;
    let mut v = 0;
    while out.len() < max && s.raw(avg as u64 + 1) != 0 {
        at = match s.below(8) {
            0..=3 => at,
            4 => at + s.range(1, 3) as u32,
            5 => at + s.range(1, 200) as u32,
            6 => at + s.range(1, 0x8000) as u32,
            _ => {
                let later: Vec<u32> = EDGES.iter().copied().filter(|&e| e >= at).collect();
                if later.is_empty() { at } else { s.pick(&later) }
            }
        };
        let len = match s.below(8) {
            0..=3 => 0,
            4 => 1,
            5 => s.range(1, 40) as u32,
            6 => s.range(1, 400) as u32,
            _ => s.pick(&[1u32, 15, 0x7f, 0xff, 0xfff, 0x800]),
        };
        let mut lo = at / step * step + if at % step != 0 { step } else { 0 };
        let mut hi = if step == 1 { lo + len } else { lo + len / step * step + step - 1 };
        if !surrogates {
            if is_surrogate(lo) {
                lo = 0xE000;
                hi = lo + len;
            }
            if lo < 0xD800 && hi >= 0xD800 {
                hi = 0xD7FF;
            }
        }
        if lo > 0x10FFFF {
            break;
        }
        hi = hi.min(0x10FFFF);
        if !s.chance(1, 3) {
            v = s.below(k);
        }
        out.push(Span { lo, hi, v });
        at = hi + 1;
    }
    out
}

fn code(v: u32) -> String {
    format!("{:04X}", v)
}
fn codes(cs: &[char]) -> String {
    cs.iter().map(|&c| code(c as u32)).collect::<Vec<_>>().join(" ")
}
fn span_text(lo: u32, hi: u32) -> String {
    if lo == hi {
        code(lo)
    } else {
        format!("{}..{}", code(lo), code(hi))
    }
}

fn comment(s: &mut Src) -> String {
    s.pick(&[
        "# Lo       LATIN LETTER",
        "# L&  [26] LATIN CAPITAL LETTER A..LATIN CAPITAL LETTER Z",
        "# Cc   [4] <control-000A>..<control-000D>",
        "# So   [5] (\u{1f3fb}..\u{1f3ff})    light skin tone..dark skin tone",
        "#  1.1 [12] (\u{30}\u{fe0f}..\u{39}\u{fe0f}) 0041 ; Lowercase # 0042..0050 ; White_Space",
        "# [2] SPACE; 0020 ; Lu",
    ])
    .to_string()
}

fn chatter(s: &mut Src, out: &mut String) {
    if s.chance(1, 3) {
        out.push_str(s.pick(&[
            "\n",
            "\n# Total code points: 12\n\n",
            "# ================================================\n",
            "# @missing: 0000..10FFFF; Other\n",
            "#\n# 0041..005A ; Cased # not data\n#\n",
            "\n# 0020 ; White_Space\n",
        ]));
    }
}

fn header(out: &mut String, file: &str) {
    let _ = write!(
        out,
        "# {}\n# Date: 2017-03-12, 06:34:49 GMT\n# \u{a9} 2017 Unicode\u{ae}, Inc.\n# For terms of use, see http://www.unicode.org/terms_of_use.html\n#\n# Unicode Character Database\n\n",
        file
    );
}

/// A file that gives values to spans; sorted by value, then code point, as the real files are.
fn valued_file(s: &mut Src, file: &str, spans: &[Span], names: &[String], tail: bool, pad: bool) -> String {
    let mut out = String::new();
    if s.bool() {
        header(&mut out, file);
    }
    let by_value = s.bool();
    let mut order: Vec<usize> = (0..spans.len()).collect();
    if by_value {
        order.sort_by_key(|&i| (spans[i].v, spans[i].lo));
    }
    let nl_end = !s.chance(1, 10);
    let n = order.len();
    for (k, i) in order.into_iter().enumerate() {
        let sp = &spans[i];
        chatter(s, &mut out);
        let key = span_text(sp.lo, sp.hi);
        let _ = if pad { write!(out, "{:<14}; {}", key, names[sp.v]) } else { write!(out, "{}; {}", key, names[sp.v]) };
        if tail {
            let _ = write!(out, " {}", comment(s));
        }
        if nl_end || k + 1 < n {
            out.push('\n');
        }
    }
    if nl_end && s.bool() {
        out.push_str("\n# EOF\n");
    }
    out
}

fn map_of(spans: &[Span], vals: &[V]) -> Map {
    spans.iter().flat_map(|sp| chars_in(sp.lo, sp.hi).map(move |c| (c, vals[sp.v].clone()))).collect()
}

fn set_of(cs: impl IntoIterator<Item = char>) -> Want {
    Want::Table(cs.into_iter().map(|c| (c, unit())).collect())
}

struct Entry {
    lo: u32,
    hi: u32,
    name: String,
    gc: &'static str,
    ccc: u8,
    bidi: String,
    dt: Option<&'static str>,
    dm: Vec<char>,
    mirrored: bool,
    extra: usize,
}

const GC: &[&str] = &[
    "Lo", "Lu", "Ll", "Lt", "Lm", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So",
    "Zs", "Zl", "Zp", "Cc", "Cf", "Co",
];
const BC: &[&str] = &[
    "L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI",
    "FSI", "PDI",
];
/// as written in UnicodeData.txt, and the name of the value in the tables
const DT: &[(&str, &str)] = &[
    ("compat", "Compat"),
    ("font", "Font"),
    ("noBreak", "Nobreak"),
    ("initial", "Initial"),
    ("medial", "Medial"),
    ("final", "Final"),
    ("isolated", "Isolated"),
    ("circle", "Circle"),
    ("super", "Super"),
    ("sub", "Sub"),
    ("vertical", "Vertical"),
    ("wide", "Wide"),
    ("narrow", "Narrow"),
    ("small", "Small"),
    ("square", "Square"),
    ("fraction", "Fraction"),
];
/// the last fields: numeric values, then Unicode 1 name and case mappings
const EXTRA: &[(&str, &str)] = &[
    (";;", ";;;;"),
    ("7;7;7", ";;;;"),
    (";3;3", ";;;;"),
    (";;1/5", "VULGAR;;;;"),
    (";;-1/2", ";;;;"),
    (";;10000000", ";;;;"),
    (";;", "LATIN CAPITAL LETTER A;;;0061;"),
    (";;", ";;0041;;0041"),
    (";;", ";;01C4;01C6;01C5"),
    (";;", "APL;;1F3D;;"),
    (";;", ";;;10428;"),
    (";;", "OLD NAME (THING);;;;01C5"),
];

/// DerivedBidiClass.txt 10.0: right-to-left and currency defaults for code points without data.
const BIDI_DEFAULTS: &[(u32, u32, &str)] = &[
    (0x0590, 0x05FF, "R"),
    (0x0600, 0x07BF, "AL"),
    (0x07C0, 0x085F, "R"),
    (0x0860, 0x086F, "AL"),
    (0x0870, 0x089F, "R"),
    (0x08A0, 0x08FF, "AL"),
    (0x20A0, 0x20CF, "ET"),
    (0xFB1D, 0xFB4F, "R"),
    (0xFB50, 0xFDCF, "AL"),
    (0xFDF0, 0xFDFF, "AL"),
    (0xFE70, 0xFEFF, "AL"),
    (0x10800, 0x10FFF, "R"),
    (0x1E800, 0x1EDFF, "R"),
    (0x1EE00, 0x1EEFF, "AL"),
    (0x1EF00, 0x1EFFF, "R"),
];
/// Noncharacters and the code points reserved for default ignorables: BN by the same file.
fn bn_default(v: u32) -> bool {
    (v & 0xFFFE) == 0xFFFE
        || (0xFDD0..=0xFDEF).contains(&v)
        || v == 0x2065
        || (0xFFF0..=0xFFF8).contains(&v)
        || (0xE0000..=0xE0FFF).contains(&v)
}

fn gen_name(s: &mut Src, pool: &[String]) -> String {
    let n = s.urange(1, 5);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(' ');
        }
        t.push_str(&s.pick(pool));
    }
    t
}

fn unicode_data(s: &mut Src, w: &mut World, v: [u32; 3], alphabetic: &BTreeSet<char>) {
    let avg = s.pick(&[3usize, 12, 60]);
    let sps = spans(s, avg, 200, 1, false, 1);
    let pool: Vec<String> = (0..s.urange(1, 8))
        .map(|_| {
            let mut t = String::new();
            if s.chance(1, 8) {
                t.push('-');
            }
            t.push(s.range(b'A' as u64, b'Z' as u64) as u8 as char);
            for c in s.list(3, 8, |s| s.pick(b"ABTEXZ0179-")) {
                t.push(c as char);
            }
            t
        })
        .collect();
    let mut es: Vec<Entry> = vec![];
    let pick_dm = |s: &mut Src, n: usize| -> Vec<char> {
        (0..n).map(|_| if s.chance(1, 4) { s.any_char() } else { char::from_u32(0x300 + s.below(6) as u32).unwrap() }).collect()
    };
    let mut like: Option<(usize, &str, u8, &str, bool)> = None;
    for sp in &sps {
        let range = sp.hi > sp.lo && s.bool();
        let mut lo = sp.lo;
        // either one First/Last pair or one line per code point (not too many)
        let top = if range { sp.hi } else { sp.hi.min(sp.lo + 40) };
        while lo <= top {
            let hi = if range { top } else { lo };
            // often like the one before, so that ranges must be merged
            let (extra, gc, ccc, bidi, mirrored) = match like {
                Some(l) if s.chance(2, 3) => l,
                _ => (
                    s.below(EXTRA.len()),
                    s.pick(GC),
                    if s.bool() { 0 } else { s.pick(&[1u8, 7, 8, 9, 10, 129, 200, 202, 220, 230, 232, 240, 254, 255]) },
                    s.pick(BC),
                    s.chance(1, 4),
                ),
            };
            like = Some((extra, gc, ccc, bidi, mirrored));
            let name = if range {
                format!("<{}", s.pick(&["CJK Ideograph", "CJK Ideograph Extension A", "Hangul Syllable", "Tangut Ideograph", "Plane 15 Private Use"]))
            } else if gc == "Cc" {
                "<control>".into()
            } else {
                gen_name(s, &pool)
            };
            let (mut dt, mut dm) = (None, vec![]);
            if s.chance(1, 3) {
                if s.bool() {
                    let n = s.urange(1, 2);
                    dm = pick_dm(s, n);
                } else {
                    dt = Some(s.below(DT.len()));
                    let n = s.pick(&[1usize, 1, 2, 3, 4, 18]);
                    dm = pick_dm(s, n);
                }
            }
            es.push(Entry { lo, hi, name, gc, ccc, bidi: bidi.into(), dt: dt.map(|i| DT[i].0), dm, mirrored, extra });
            lo = hi + 1;
        }
    }
    // surrogates have lines too
    if s.bool() {
        for (lo, hi, n) in [(0xD800, 0xDB7F, "<Non Private Use High Surrogate"), (0xDB80, 0xDBFF, "<Private Use High Surrogate"), (0xDC00, 0xDFFF, "<Low Surrogate")]
        {
            es.push(Entry { lo, hi, name: n.into(), gc: "Cs", ccc: 0, bidi: "L".into(), dt: None, dm: vec![], mirrored: false, extra: 0 });
        }
        es.sort_by_key(|e| e.lo);
    }
    // composition exclusions: whatever would be ambiguous, and some more
    let mut seen: BTreeSet<Vec<char>> = BTreeSet::new();
    let mut excluded: BTreeSet<u32> = BTreeSet::new();
    for e in &es {
        if e.dt.is_none() && e.dm.len() == 2 {
            // a First/Last pair gives the same mapping to every character
            if e.hi > e.lo || !seen.insert(e.dm.clone()) || s.chance(1, 4) {
                excluded.extend(e.lo..=e.hi);
            }
        } else if e.dm.len() == 1 && s.bool() {
            excluded.extend(e.lo..=e.hi);
        }
    }
    // long spans end (or start) at one that decomposes
    for _ in 0..s.below(4) {
        if let Some(e) = es.get(s.below(es.len().max(1))) {
            let n = s.below(400) as u32;
            excluded.extend(if s.bool() { e.lo.saturating_sub(n)..=e.hi } else { e.lo..=(e.hi + n).min(0x10FFFF) });
        }
    }
    let mut dnp = String::new();
    header(&mut dnp, "DerivedNormalizationProps-10.0.0.txt");
    if s.bool() {
        dnp.push_str("037A          ; FC_NFKC; 0020 03B9           # Lm       GREEK YPOGEGRAMMENI\n\n");
    }
    let mut runs: Vec<(u32, u32)> = vec![];
    for &x in &excluded {
        match runs.last_mut() {
            Some(r) if r.1 + 1 == x && !s.chance(1, 5) => r.1 = x,
            _ => runs.push((x, x)),
        }
    }
    for (lo, hi) in runs {
        chatter(s, &mut dnp);
        let _ = writeln!(dnp, "{:<14}; Full_Composition_Exclusion {}", span_text(lo, hi), comment(s));
    }
    if s.bool() {
        for e in es.iter().filter(|e| !e.dm.is_empty()).take(5) {
            let _ = writeln!(dnp, "{:<14}; {} {}", span_text(e.lo, e.hi), s.pick(&["NFD_QC; N", "NFC_QC; M", "NFKC_QC; N", "Changes_When_NFKC_Casefolded", "Expands_On_NFC", "NFKC_CF; 0061 0041"]), comment(s));
        }
    }
    w.src.insert(format!("{}DerivedNormalizationProps.txt", UCD), dnp);
    finish_unicode_data(w, &es, &excluded, v, alphabetic);
}

/// Writes UnicodeData.txt and what must come of it.
fn finish_unicode_data(w: &mut World, es: &[Entry], excluded: &BTreeSet<u32>, v: [u32; 3], alphabetic: &BTreeSet<char>) {
    let mut out = String::new();
    for e in es {
        let mut line = |cp: u32, name: &str| {
            let dm = match e.dt {
                Some(t) => format!("<{}> {}", t, codes(&e.dm)),
                None => codes(&e.dm),
            };
            let (num, rest) = EXTRA[e.extra];
            let _ = writeln!(
                out,
                "{};{};{};{};{};{};{};{};{}",
                code(cp),
                name,
                e.gc,
                e.ccc,
                e.bidi,
                dm,
                num,
                if e.mirrored { "Y" } else { "N" },
                rest
            );
        };
        if e.name.starts_with('<') && e.name != "<control>" {
            line(e.lo, &format!("{}, First>", e.name));
            line(e.hi, &format!("{}, Last>", e.name));
        } else {
            assert!(e.lo == e.hi);
            line(e.lo, &e.name);
        }
    }
    w.src.insert(format!("{}UnicodeData.txt", UCD), out);

    let each = || es.iter().flat_map(|e| chars_in(e.lo, e.hi).map(move |c| (c, e)));
    let table = |t: &str| format!("unic/ucd/{}.rsv", t);
    w.want.insert(table("category/tables/general_category"), Want::Table(each().map(|(c, e)| (c, name(e.gc))).collect()));
    let mut bidi: Map = Map::new();
    for &(lo, hi, b) in BIDI_DEFAULTS {
        bidi.extend(chars_in(lo, hi).map(|c| (c, name(b))));
    }
    bidi.extend(chars_in(0, 0x10FFFF).filter(|&c| bn_default(c as u32)).map(|c| (c, V::List(vec![]))));
    bidi.extend(each().map(|(c, e)| (c, name(&e.bidi))));
    w.want.insert(table("bidi/tables/bidi_class"), Want::Bidi(bidi));
    w.want.insert(table("bidi/tables/bidi_mirrored"), set_of(each().filter(|x| x.1.mirrored).map(|x| x.0)));
    w.want.insert(table("common/tables/control"), set_of(each().filter(|x| x.1.gc == "Cc").map(|x| x.0)));
    let numeric: BTreeSet<char> = each().filter(|x| matches!(x.1.gc, "Nd" | "Nl" | "No")).map(|x| x.0).collect();
    w.want.insert(table("common/tables/numeric"), set_of(numeric.iter().copied()));
    w.want.insert(table("common/tables/alphanumeric"), set_of(numeric.union(alphabetic).copied()));
    w.want.insert(
        table("normal/tables/general_category_mark"),
        set_of(each().filter(|x| matches!(x.1.gc, "Mn" | "Mc" | "Me")).map(|x| x.0)),
    );
    w.want.insert(
        table("normal/tables/canonical_combining_class_values"),
        Want::Table(
            each()
                .filter(|x| x.1.ccc != 0)
                .map(|(c, e)| (c, call("CanonicalCombiningClass", vec![V::Int(e.ccc as u64)])))
                .collect(),
        ),
    );
    w.want.insert(
        table("normal/tables/canonical_decomposition_mapping"),
        Want::Table(each().filter(|x| x.1.dt.is_none() && !x.1.dm.is_empty()).map(|(c, e)| (c, chs(&e.dm))).collect()),
    );
    w.want.insert(
        table("normal/tables/compatibility_decomposition_mapping"),
        Want::Table(
            each()
                .filter_map(|(c, e)| {
                    let t = DT.iter().find(|d| Some(d.0) == e.dt)?;
                    Some((c, V::Tup(vec![name(t.1), chs(&e.dm)])))
                })
                .collect(),
        ),
    );
    let mut comp: BTreeMap<char, BTreeMap<char, char>> = BTreeMap::new();
    for (c, e) in each() {
        if e.dt.is_none() && e.dm.len() == 2 && !excluded.contains(&(c as u32)) {
            comp.entry(e.dm[0]).or_default().insert(e.dm[1], c);
        }
    }
    w.want.insert(
        table("normal/tables/canonical_composition_mapping"),
        Want::Table(
            comp.into_iter()
                .map(|(c, m)| {
                    let rows = m.into_iter().map(|(a, b)| V::Tup(vec![V::Ch(a), V::Ch(b)])).collect();
                    (c, call("CharDataTable::Direct", vec![V::List(rows)]))
                })
                .collect(),
        ),
    );
    w.want.insert(table("name/tables/name_map"), Want::Names(each().filter(|x| !x.1.name.starts_with('<')).map(|(c, e)| (c, e.name.clone())).collect()));
    w.want.insert("unic/ucd/name/tables/name_values.rsd".into(), Want::Consts);
    for d in ["age", "bidi", "block", "case", "category", "common", "version", "hangul", "ident", "name", "name_aliases", "normal", "segment"] {
        w.want.insert(table(&format!("{}/tables/unicode_version", d)), Want::Exact(version(v)));
    }
}

const CORE: &[(&str, &str)] = &[
    ("Alphabetic", "common/tables/alphabetic"),
    ("Lowercase", "case/tables/lowercase"),
    ("Uppercase", "case/tables/uppercase"),
    ("Cased", "case/tables/cased"),
    ("Case_Ignorable", "case/tables/case_ignorable"),
    ("Changes_When_Lowercased", "case/tables/changes_when_lowercased"),
    ("Changes_When_Uppercased", "case/tables/changes_when_uppercased"),
    ("Changes_When_Titlecased", "case/tables/changes_when_titlecased"),
    ("Changes_When_Casefolded", "case/tables/changes_when_casefolded"),
    ("Changes_When_Casemapped", "case/tables/changes_when_casemapped"),
    ("ID_Start", "ident/tables/id_start"),
    ("ID_Continue", "ident/tables/id_continue"),
    ("XID_Start", "ident/tables/xid_start"),
    ("XID_Continue", "ident/tables/xid_continue"),
    ("Math", ""),
    ("Default_Ignorable_Code_Point", ""),
    ("Grapheme_Extend", ""),
    ("Grapheme_Base", ""),
    ("Grapheme_Link", ""),
];
const PROPS: &[(&str, &str)] = &[
    ("White_Space", "common/tables/white_space"),
    ("Bidi_Control", "bidi/tables/bidi_control"),
    ("Pattern_White_Space", "ident/tables/pattern_white_space"),
    ("Pattern_Syntax", "ident/tables/pattern_syntax"),
    ("Dash", ""),
    ("Hyphen", ""),
    ("Other_Alphabetic", ""),
    ("Noncharacter_Code_Point", ""),
    ("Other_Default_Ignorable_Code_Point", ""),
    ("Regional_Indicator", ""),
    ("Soft_Dotted", ""),
    ("ASCII_Hex_Digit", ""),
];
const EMOJI: &[(&str, &str)] = &[
    ("Emoji", "emoji"),
    ("Emoji_Presentation", "emoji_presentation"),
    ("Emoji_Modifier", "emoji_modifier"),
    ("Emoji_Modifier_Base", "emoji_modifier_base"),
    ("Emoji_Component", "emoji_component"),
];

/// A file of binary properties; gives the set of each.
fn binary_file(s: &mut Src, file: &str, props: &[(&str, &str)]) -> (String, Vec<BTreeSet<char>>) {
    let mut out = String::new();
    header(&mut out, file);
    let mut sets = vec![];
    for (p, _) in props {
        let mut set = BTreeSet::new();
        if !s.chance(1, 6) {
            let avg = s.pick(&[2usize, 6]);
            for sp in spans(s, avg, 30, 1, false, 1) {
                set.extend(chars_in(sp.lo, sp.hi));
                chatter(s, &mut out);
                let _ = writeln!(out, "{:<14}; {} {}", span_text(sp.lo, sp.hi), p, comment(s));
            }
            chatter(s, &mut out);
        }
        sets.push(set);
    }
    (out, sets)
}

const BREAKS: [(&str, &str, &str, &[&str]); 3] = [
    ("Grapheme", "grapheme_cluster_break", "GCB", &["CR", "LF", "Control", "Extend", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "E_Base", "E_Modifier", "ZWJ", "Glue_After_Zwj", "E_Base_GAZ", "Regional_Indicator"]),
    ("Word", "word_break", "WB", &["Double_Quote", "Single_Quote", "Hebrew_Letter", "CR", "LF", "Newline", "Extend", "Regional_Indicator", "Format", "Katakana", "ALetter", "MidLetter", "MidNum", "MidNumLet", "Numeric", "ExtendNumLet", "E_Base", "ZWJ"]),
    ("Sentence", "sentence_break", "SB", &["CR", "LF", "Extend", "Sep", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"]),
];

fn readme(s: &mut Src, lead: &str, v: &str) -> String {
    let mut t = String::from("# Date: 2017-06-20, 13:37:00 GMT [KW]\n# \u{a9} 2017 Unicode\u{ae}, Inc.\n# For terms of use, see http://www.unicode.org/terms_of_use.html\n#\n");
    if s.bool() {
        t.push_str("# Version 99.98.97 of something else\n");
    }
    t.push_str(&format!("{}{}{}", lead, v, s.pick(&["\n", " of the\nUnicode Standard.\n", " of Unicode. See for Version 9.9.9\n"])));
    t
}

pub fn world(s: &mut Src) -> World {
    let mut w = World::default();
    let num = |s: &mut Src| s.pick(&[0u32, 1, 9, 10, 15, 99, 255]);
    // ucd
    let v = [num(s), num(s), num(s)];
    let t = readme(s, "This directory contains the final data files for Version ", &format!("{}.{}.{}", v[0], v[1], v[2]));
    w.src.insert(format!("{}ReadMe.txt", UCD), t);
    let (t, sets) = binary_file(s, "DerivedCoreProperties-10.0.0.txt", CORE);
    w.src.insert(format!("{}DerivedCoreProperties.txt", UCD), t);
    for ((_, f), set) in CORE.iter().zip(&sets).filter(|x| !x.0 .1.is_empty()) {
        w.want.insert(format!("unic/ucd/{}.rsv", f), set_of(set.iter().copied()));
    }
    unicode_data(s, &mut w, v, &sets[0]);
    let (t, sets) = binary_file(s, "PropList-10.0.0.txt", PROPS);
    w.src.insert(format!("{}PropList.txt", UCD), t);
    for ((_, f), set) in PROPS.iter().zip(&sets).filter(|x| !x.0 .1.is_empty()) {
        w.want.insert(format!("unic/ucd/{}.rsv", f), set_of(set.iter().copied()));
    }
    // blocks
    let names: Vec<String> = (0..s.urange(1, 6)).map(|i| s.pick(&["Basic Latin", "Latin-1 Supplement", "CJK Unified Ideographs Extension A", "No_Block", "Kana"]).to_string() + &["", " B", " 2", " C", "-D", " x y"][i]).collect();
    let sp = spans(s, 8, 40, names.len(), true, 16);
    let mut sorted: Vec<Span> = sp;
    sorted.sort_by_key(|x| x.lo);
    let text = valued_file(s, "Blocks-10.0.0.txt", &sorted, &names, false, false);
    w.src.insert(format!("{}Blocks.txt", UCD), text);
    let vals: Vec<V> = names.iter().map(|n| st(n)).collect();
    w.want.insert("unic/ucd/block/tables/blocks.rsv".into(), Want::Table(map_of(&sorted, &vals)));
    // ages
    let ages: Vec<[u32; 3]> = (0..s.urange(1, 5)).map(|_| [num(s), num(s), if s.bool() { 0 } else { num(s) }]).collect();
    let names: Vec<String> = ages.iter().map(|a| if a[2] == 0 { format!("{}.{}", a[0], a[1]) } else { format!("{}.{}.{}", a[0], a[1], a[2]) }).collect();
    let sp = spans(s, 10, 60, names.len(), true, 1);
    let text = valued_file(s, "DerivedAge-10.0.0.txt", &sp, &names, true, true);
    w.src.insert(format!("{}DerivedAge.txt", UCD), text);
    let vals: Vec<V> = ages.iter().map(|a| version(*a)).collect();
    w.want.insert("unic/ucd/age/tables/age_values.rsv".into(), Want::Table(map_of(&sp, &vals)));
    // jamo
    let mut text = String::new();
    header(&mut text, "Jamo-10.0.0.txt");
    let mut m = Map::new();
    for sp in spans(s, 8, 40, 1, false, 1) {
        let short = s.pick(&["G", "", "GG", "YAE", "NJ", "EU"]);
        let c = char::from_u32(sp.lo).unwrap();
        chatter_plain(s, &mut text);
        let _ = writeln!(text, "{}; {:<3}# HANGUL CHOSEONG KIYEOK", code(sp.lo), short);
        m.insert(c, st(short));
    }
    w.src.insert(format!("{}Jamo.txt", UCD), text);
    w.want.insert("unic/ucd/name/tables/jamo.rsv".into(), Want::Table(m));
    name_aliases(s, &mut w);
    for (file, out, prefix, vals) in BREAKS {
        let k = s.urange(1, vals.len());
        let surr = s.bool();
        let sp = spans(s, 12, 60, k, surr, 1);
        let names: Vec<String> = vals[..k].iter().map(|v| v.to_string()).collect();
        let text = valued_file(s, &format!("{}BreakProperty-10.0.0.txt", file), &sp, &names, true, true);
        w.src.insert(format!("{}auxiliary/{}BreakProperty.txt", UCD, file), text);
        let vals: Vec<V> = names.iter().map(|n| name(&format!("{}::{}", prefix, n))).collect();
        w.want.insert(format!("unic/ucd/segment/tables/{}.rsv", out), Want::Table(map_of(&sp, &vals)));
    }
    break_tests(s, &mut w, "Grapheme", "grapheme_cluster_break");
    break_tests(s, &mut w, "Word", "word_break");
    normalization_tests(s, &mut w);
    idna(s, &mut w);
    // emoji
    let (t, sets) = binary_file(s, "emoji-data.txt", EMOJI);
    w.src.insert("external/unicode/emoji/data/emoji-data.txt".into(), t);
    for ((_, f), set) in EMOJI.iter().zip(&sets) {
        w.want.insert(format!("unic/emoji/char/tables/{}.rsv", f), set_of(set.iter().copied()));
    }
    let v = [num(s), num(s), 0];
    let t = readme(s, "# Unicode Emoji, Version ", &format!("{}.{}", v[0], v[1]));
    w.src.insert("external/unicode/emoji/data/ReadMe.txt".into(), t);
    w.want.insert("unic/emoji/char/tables/emoji_version.rsv".into(), Want::Exact(version(v)));
    w
}

fn chatter_plain(s: &mut Src, out: &mut String) {
    if s.chance(1, 5) {
        out.push_str(s.pick(&["\n", "# 1100; X # no data\n", "#\n"]));
    }
}

const ALIAS_TYPES: &[(&str, &str, &str)] = &[
    ("correction", "NameCorrections", "corrections"),
    ("control", "ControlCodeNames", "controls"),
    ("alternate", "AlternateNames", "alternates"),
    ("figment", "Figments", "figments"),
    ("abbreviation", "NameAbbreviations", "abbreviations"),
];

fn name_aliases(s: &mut Src, w: &mut World) {
    let mut text = String::new();
    header(&mut text, "NameAliases-10.0.0.txt");
    let mut types: BTreeMap<char, BTreeSet<&'static str>> = BTreeMap::new();
    let mut maps = vec![BTreeMap::<char, Vec<V>>::new(); ALIAS_TYPES.len()];
    for sp in spans(s, 8, 40, 1, false, 1) {
        let c = char::from_u32(sp.lo).unwrap();
        let mut done: BTreeSet<(usize, String)> = BTreeSet::new();
        for _ in 0..s.urange(1, 5) {
            let k = s.below(ALIAS_TYPES.len());
            let alias = s.pick(&["NULL", "NUL", "LINE FEED", "NEW LINE", "END OF LINE", "LF", "NL", "EOL", "BYTE ORDER MARK", "VS256", "LATIN CAPITAL LETTER GHA", "PRESENTATION FORM FOR VERTICAL RIGHT WHITE LENTICULAR BRACKET", "A-B C-1"]);
            if !done.insert((k, alias.to_string())) {
                continue;
            }
            chatter_plain(s, &mut text);
            let _ = writeln!(text, "{};{};{}", code(sp.lo), alias, ALIAS_TYPES[k].0);
            types.entry(c).or_default().insert(ALIAS_TYPES[k].1);
            maps[k].entry(c).or_default().push(st(alias));
        }
    }
    w.src.insert(format!("{}NameAliases.txt", UCD), text);
    w.want.insert("unic/ucd/name_aliases/tables/name_alias_types.rsv".into(), Want::Types(types));
    for (k, m) in ALIAS_TYPES.iter().zip(maps) {
        w.want.insert(
            format!("unic/ucd/name_aliases/tables/{}.rsv", k.2),
            Want::Table(m.into_iter().map(|(c, v)| (c, V::List(v))).collect()),
        );
    }
}

/// GraphemeBreakTest.txt or WordBreakTest.txt.
fn break_tests(s: &mut Src, w: &mut World, file: &str, table: &str) {
    const WORDS: &[(u32, &str, &str)] = &[
        (0x20, "SPACE", "Other"),
        (0xD, "<CARRIAGE RETURN (CR)>", "CR"),
        (0xA, "<LINE FEED (LF)>", "LF"),
        (1, "<START OF HEADING>", "Control"),
        (0x308, "COMBINING DIAERESIS", "Extend"),
        (0x600, "ARABIC NUMBER SIGN", "Prepend"),
        (0x903, "DEVANAGARI SIGN VISARGA", "SpacingMark"),
        (0x1100, "HANGUL CHOSEONG KIYEOK", "L"),
        (0x1F1E6, "REGIONAL INDICATOR SYMBOL LETTER A", "RI"),
        (0x200D, "ZERO WIDTH JOINER", "ZWJ_Extend"),
        (0x378, "<reserved-0378>", "Other"),
        (0x10FFFD, "<private-use-10FFFD>", "XX"),
        (0xD800, "<surrogate-D800>", "Control"),
    ];
    let word = file == "Word";
    let mut text = format!("# {}BreakTest-10.0.0.txt\n# Format:\n# <string> (# <comment>)?\n#  \u{f7} wherever there is a break opportunity, and\n#  \u{d7} wherever there is not.\n#\n", file);
    let mut cases = vec![];
    let mut classes: Map = Map::new();
    for _ in 0..s.below(8) {
        let n = s.urange(1, 6);
        let mut line = String::from("\u{f7}");
        let mut tail = String::from(" \u{f7} [0.2]");
        let (mut chars, mut breaks): (Vec<char>, Vec<(bool, bool)>) = (vec![], vec![]);
        let mut surrogate = false;
        let mut used: Map = Map::new();
        for i in 0..n {
            let most = if s.chance(1, 8) { WORDS.len() } else { WORDS.len() - 1 };
            let (c, nm, class) = WORDS[s.below(most)];
            let _ = write!(line, " {}", code(c));
            let _ = write!(tail, " {} ({})", nm, class);
            match char::from_u32(c) {
                Some(c) => {
                    chars.push(c);
                    used.insert(c, name(class));
                }
                None => surrogate = true,
            }
            if i + 1 < n {
                let (rule, brk) = s.pick(&[("3.0", false), ("4.0", true), ("5.0", true), ("6.0", false), ("9.0", false), ("9.1", false), ("9.2", false), ("12.0", false), ("999.0", true), ("9.11", false)]);
                let m = if brk { "\u{f7}" } else { "\u{d7}" };
                let _ = write!(line, " {}", m);
                let _ = write!(tail, " {} [{}]", m, rule);
                breaks.push((brk, brk || rule == "9.1" || rule == "9.2"));
            }
        }
        let _ = writeln!(text, "{} \u{f7}\t# {} \u{f7} [0.3]", line, tail);
        if surrogate {
            continue;
        }
        classes.extend(used);
        let split = |legacy: bool| {
            let mut out = vec![chars[0].to_string()];
            for (c, b) in chars[1..].iter().zip(&breaks) {
                if if legacy { b.1 } else { b.0 } {
                    out.push(String::new());
                }
                out.last_mut().unwrap().push(*c);
            }
            V::List(out.into_iter().map(V::Str).collect())
        };
        let whole = V::Str(chars.iter().collect());
        cases.push(if word {
            V::Tup(vec![whole, split(false)])
        } else if breaks.iter().any(|b| b.0 != b.1) {
            V::Tup(vec![whole, split(false), call("Some", vec![split(true)])])
        } else {
            V::Tup(vec![whole, split(false), name("None")])
        });
    }
    let _ = writeln!(text, "#\n# Lines: {}\n#\n# EOF", cases.len());
    w.src.insert(format!("{}auxiliary/{}BreakTest.txt", UCD, file), text);
    w.want.insert(format!("unic/segment/tests/tables/{}_test_data.rsv", table), Want::Exact(V::List(cases)));
    w.want.insert(format!("unic/ucd/segment/tests/tables/{}_test_data.rsv", table), Want::Table(classes));
}

fn normalization_tests(s: &mut Src, w: &mut World) {
    let mut text = String::from("# NormalizationTest-10.0.0.txt\n#\n# Format:\n#\n#   Columns (c1, c2,...) are separated by semicolons\n@Part0 # Specific cases\n#\n");
    let mut rows = vec![];
    for _ in 0..s.below(10) {
        if s.chance(1, 6) {
            text.push_str("#\n@Part1 # Character by character test\n# All characters not explicitly occurring in c1 of Part 1 have identical NFC, D, KC, KD forms.\n#\n");
        }
        let mut cols = vec![];
        for _ in 0..5 {
            let n = s.pick(&[1usize, 1, 2, 3, 18]);
            let cs: Vec<char> = (0..n)
                .map(|_| match s.below(3) {
                    0 => s.any_char(),
                    1 => s.pick(&['"', '\\', '\'', 'a', '\n', '\0', '{', '\u{10ffff}', '\u{fffe}']),
                    _ => s.pick(&['\u{1e0a}', '\u{44}', '\u{307}', '\u{323}', '\u{ac00}']),
                })
                .collect();
            let _ = write!(text, "{};", codes(&cs));
            cols.push(V::Str(cs.into_iter().collect()));
        }
        text.push_str(" # (\u{1e0a}; \u{1e0a}; D\u{25cc}\u{307}; \u{1e0a}; D\u{25cc}\u{307}; ) LATIN CAPITAL LETTER D WITH DOT ABOVE\n");
        rows.push(V::Tup(cols));
    }
    text.push_str("#\n# EOF\n");
    w.src.insert(format!("{}NormalizationTest.txt", UCD), text);
    w.want.insert("unic/normal/tests/tables/conformance_tests_data.rsv".into(), Want::Exact(V::List(rows)));
}

const STATUS: &[(&str, &str, bool)] = &[
    ("valid", "Valid", false),
    ("mapped", "Mapped", true),
    ("disallowed", "Disallowed", false),
    ("ignored", "Ignored", false),
    ("deviation", "Deviation", true),
    ("disallowed_STD3_valid", "DisallowedStd3Valid", false),
    ("disallowed_STD3_mapped", "DisallowedStd3Mapped", true),
];

fn idna_line(text: &mut String, lo: u32, hi: u32, status: &str, mapping: Option<&str>, extra: &str, tail: &str) {
    let _ = write!(text, "{:<14}; {:<22}", span_text(lo, hi), status);
    if let Some(m) = mapping {
        let _ = write!(text, " ; {:<6}", m);
    }
    if !extra.is_empty() {
        if mapping.is_none() {
            text.push_str(" ;      ");
        }
        let _ = write!(text, " ; {:<6}", extra);
    }
    let _ = writeln!(text, " {}", tail);
}

fn idna(s: &mut Src, w: &mut World) {
    let mut text = String::new();
    header(&mut text, "IdnaMappingTable-10.0.0.txt");
    let mut m = Map::new();
    let mut last: Option<(usize, Vec<char>)> = None;
    for sp in spans(s, 15, 80, 1, false, 1) {
        let (k, to) = match &last {
            Some(l) if s.chance(1, 3) => l.clone(),
            _ => {
                let k = s.below(STATUS.len());
                let n = if STATUS[k].0 == "deviation" { s.urange(0, 2) } else { s.pick(&[1usize, 1, 2, 3, 18]) };
                let to = (0..n).map(|_| if s.bool() { s.any_char() } else { s.pick(&['a', ' ', '"', '\\', '\'', '\0', '\u{3c3}', '\u{10ffff}', '\n']) }).collect();
                (k, to)
            }
        };
        let (status, value, maps) = STATUS[k];
        chatter(s, &mut text);
        let mapping = if maps { Some(codes(&to)) } else { None };
        let extra = if !maps && status == "valid" { s.pick(&["", "NV8", "XV8"]) } else { "" };
        let tail = comment(s);
        idna_line(&mut text, sp.lo, sp.hi, status, mapping.as_deref(), extra, &tail);
        let v = if maps { call(value, vec![V::Str(to.iter().collect())]) } else { name(value) };
        m.extend(chars_in(sp.lo, sp.hi).map(|c| (c, v.clone())));
        last = Some((k, to));
    }
    if s.bool() {
        text.push_str("D800..DFFF    ; disallowed                             # NA   <surrogate-D800>..<surrogate-DFFF>\n");
    }
    text.push_str("\n# Total code points: 1114112\n");
    w.src.insert("external/unicode/idna/data/IdnaMappingTable.txt".into(), text);
    w.want.insert("unic/idna/mapping/tables/idna_mapping.rsv".into(), Want::Table(m));
    let v = [s.pick(&[0u32, 9, 10, 255]), s.pick(&[0u32, 1, 12]), s.pick(&[0u32, 1, 30])];
    let t = readme(s, "# Unicode IDNA Mapping and Test Data\n# for Version ", &format!("{}.{}.{}", v[0], v[1], v[2]));
    w.src.insert("external/unicode/idna/data/ReadMe.txt".into(), t);
    w.want.insert("unic/idna/mapping/tables/unicode_version.rsv".into(), Want::Exact(version(v)));
}

// ---------------------------------------------------------------- judging the output

fn first_difference(got: &Map, want: &Map) -> Option<String> {
    for (c, v) in want {
        match got.get(c) {
            None => return Some(format!("U+{:04X} is missing (should be {:?})", *c as u32, v)),
            Some(g) if g != v => return Some(format!("U+{:04X} is {:?}, the source says {:?}", *c as u32, g, v)),
            _ => {}
        }
    }
    got.iter().find(|x| !want.contains_key(x.0)).map(|(c, v)| format!("U+{:04X} is {:?}, the source says nothing of it", *c as u32, v))
}

fn judge(want: &Want, text: &str, dir: &Path) -> Res {
    match want {
        Want::Exact(v) => ensure_eq!(parse(text)?, *v, "value"),
        Want::Table(m) => {
            if let Some(d) = first_difference(&denotes(parse(text)?)?, m) {
                return Err(d);
            }
        }
        Want::Bidi(m) => {
            let mut got = denotes(parse(text)?)?;
            let any = V::List(vec![]);
            let mut m2 = Map::new();
            for (c, v) in m {
                if *v == any {
                    got.remove(c);
                } else {
                    m2.insert(*c, v.clone());
                }
            }
            if let Some(d) = first_difference(&got, &m2) {
                return Err(d);
            }
        }
        Want::Types(m) => {
            let got = denotes(parse(text)?)?;
            for (c, v) in &got {
                let V::List(l) = v else { return Err(format!("U+{:04X}: not a list", *c as u32)) };
                let set: BTreeSet<String> = l.iter().map(|v| format!("{:?}", v)).collect();
                ensure!(set.len() == l.len(), "U+{:04X} lists a type twice: {:?}", *c as u32, v);
                let w: BTreeSet<String> = m.get(c).into_iter().flatten().map(|t| t.to_string()).collect();
                ensure_eq!(set, w, "types of U+{:04X}", *c as u32);
            }
            ensure_eq!(got.len(), m.len(), "number of characters with aliases");
        }
        Want::Consts => {
            consts(text)?;
        }
        Want::Names(m) => {
            let t = fs::read_to_string(dir.join("unic/ucd/name/tables/name_values.rsd")).map_err(|e| e.to_string())?;
            let k = consts(&t)?;
            let mut got: Map = Map::new();
            for (c, v) in denotes(parse(text)?)? {
                let V::List(l) = v else { return Err(format!("U+{:04X}: not a list", c as u32)) };
                let mut words = vec![];
                for x in &l {
                    match x {
                        V::Path(p, None) => words.push(k.get(p).ok_or_else(|| format!("U+{:04X}: no constant {}", c as u32, p))?.clone()),
                        V::Str(s) => words.push(s.clone()),
                        x => return Err(format!("U+{:04X}: {:?} in a name", c as u32, x)),
                    }
                }
                got.insert(c, V::Str(words.join(" ")));
            }
            let m: Map = m.iter().map(|(c, n)| (*c, st(n))).collect();
            if let Some(d) = first_difference(&got, &m) {
                return Err(d);
            }
        }
    }
    Ok(())
}

fn consts(text: &str) -> Result<BTreeMap<String, String>, String> {
    let mut p = P::new(text);
    let mut out = BTreeMap::new();
    while p.eat("const ") {
        let n = p.word();
        ensure!(!n.is_empty() && !n.as_bytes()[0].is_ascii_digit(), "not a constant: {:?}", n);
        p.want(":")?;
        p.want("&")?;
        p.eat("'static");
        p.want("str")?;
        p.want("=")?;
        let v = match p.expr()? {
            V::Str(s) => s,
            v => return Err(format!("constant {} is {:?}", n, v)),
        };
        p.want(";")?;
        ensure!(out.insert(n.clone(), v).is_none(), "two constants {}", n);
    }
    p.end()?;
    Ok(out)
}

// ---------------------------------------------------------------- running it

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var_os("VERIF_KEEP").is_none() {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

/// Memory if there is some: thousands of small files come and go.
fn temp() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("verif-probe-{}-{:?}", std::process::id(), std::thread::current().id()));
    if fs::create_dir(&probe).is_ok() && fs::remove_dir(&probe).is_ok() {
        shm
    } else {
        std::env::temp_dir()
    }
}

fn scratch() -> Result<Scratch, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = temp().join(format!("verif-gen-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    fs::create_dir(&d).map_err(|e| format!("HARNESS: {}: {}", d.display(), e))?;
    let s = Scratch(d);
    fs::create_dir(s.0.join("w")).map_err(|e| e.to_string())?;
    Ok(s)
}

/// A copy of the program that everybody may run.
fn program() -> Result<&'static Path, String> {
    static P: std::sync::OnceLock<Result<PathBuf, String>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let bin = Path::new(&root).join("target/gen/release/unic-gen");
        // one name for each working copy
        let to = std::env::temp_dir().join(format!("verif-unic-gen-{:x}", hash_of(&root) as u32));
        let part = std::env::temp_dir().join(format!("verif-unic-gen-part-{}", std::process::id()));
        fs::copy(&bin, &part)
            .and_then(|_| fs::set_permissions(&part, fs::Permissions::from_mode(0o755)))
            .and_then(|_| fs::rename(&part, &to))
            .map_err(|e| format!("HARNESS: {}: {}", bin.display(), e))?;
        Ok(to)
    })
    .as_deref()
    .map_err(|e| e.clone())
}

fn put(path: &Path, text: &str) -> Res {
    fs::create_dir_all(path.parent().unwrap()).map_err(|e| format!("HARNESS: {}", e))?;
    fs::write(path, text).map_err(|e| format!("HARNESS: {}", e))
}

/// The generator removes directories: it runs as a user who owns nothing but the scratch folder.
const NOBODY: u32 = 65534;

fn give_away(d: &Path) {
    let _ = chown(d, Some(NOBODY), Some(NOBODY));
    let Ok(es) = fs::read_dir(d) else { return };
    for e in es.flatten() {
        let p = e.path();
        if p.is_dir() {
            give_away(&p);
        } else {
            let _ = chown(&p, Some(NOBODY), Some(NOBODY));
        }
    }
}

fn run_gen(s: &Scratch, args: &[&str]) -> Result<bool, String> {
    let bin = program()?;
    let root = uid() == 0;
    if root {
        let _ = fs::set_permissions(&s.0, fs::Permissions::from_mode(0o755));
        give_away(&s.0.join("w"));
    }
    let mut c = Command::new(bin);
    c.args(args).current_dir(s.0.join("w")).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).env_clear();
    if let Ok(v) = std::env::var("LLVM_PROFILE_FILE") {
        c.env("LLVM_PROFILE_FILE", v);
    }
    if root {
        c.uid(NOBODY).gid(NOBODY);
    }
    let o = c.output().map_err(|e| format!("HARNESS: cannot run unic-gen: {}", e))?;
    ensure!(o.status.code().is_some(), "unic-gen {:?} is killed by a signal", args);
    Ok(o.status.success())
}

fn uid() -> u32 {
    use std::os::unix::fs::MetadataExt;
    fs::metadata("/proc/self").map(|m| m.uid()).unwrap_or(1)
}

fn tree(d: &Path) -> BTreeMap<String, String> {
    fn go(d: &Path, base: &Path, out: &mut BTreeMap<String, String>) {
        let Ok(es) = fs::read_dir(d) else { return };
        for e in es.flatten() {
            let p = e.path();
            if p.is_dir() {
                go(&p, base, out);
            } else {
                let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                out.insert(n, String::from_utf8_lossy(&fs::read(&p).unwrap_or_default()).into_owned());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(d, d, &mut out);
    out
}

const PARTS: &[&str] = &["ucd", "normal", "segment", "idna", "emoji"];

fn part_of(path: &str) -> &'static str {
    PARTS.iter().copied().find(|p| path.starts_with(&format!("unic/{}/", p))).unwrap()
}

/// Does the component need this source?
fn needs(part: &str, src: &str) -> bool {
    let f = src.rsplit('/').next().unwrap();
    match part {
        "idna" | "emoji" => src.contains(&format!("/{}/", part)),
        "normal" => f == "NormalizationTest.txt",
        "segment" => f == "GraphemeBreakTest.txt" || f == "WordBreakTest.txt",
        // the exclusions are read only if something can be excluded
        _ => src.contains("/ucd/") && f != "NormalizationTest.txt" && f != "DerivedNormalizationProps.txt",
    }
}

fn check_world(w: &World, parts: &[&str], s: &Scratch) -> Result<BTreeMap<String, String>, String> {
    let dir = s.0.join("w");
    let all = parts.is_empty();
    let on = |p: &str| all || parts.contains(&part_of(p));
    let before = tree(&dir);
    ensure!(run_gen(s, parts)?, "unic-gen {:?} fails", parts);
    let after = tree(&dir);
    for (p, want) in &w.want {
        if !on(p) {
            continue;
        }
        let text = after.get(p).ok_or_else(|| format!("unic-gen {:?} does not write {}", parts, p))?;
        judge(want, text, &dir).map_err(|e| format!("{}: {}", p, e))?;
    }
    for (p, t) in &before {
        let table = p.contains("/tables/") && p.starts_with("unic/");
        if !table || !on(p) {
            ensure!(after.get(p) == Some(t), "unic-gen {:?} changes or removes {}", parts, p);
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) || (p.starts_with("unic/") && p.contains("/tables/") && on(p)) {
            ensure!(w.want.contains_key(p), "unic-gen {:?} leaves or makes {}", parts, p);
        }
    }
    Ok(after)
}

fn lay_out(w: &World, s: &Scratch, stale: bool) -> Res {
    let dir = s.0.join("w");
    for (p, t) in &w.src {
        put(&dir.join(p), t)?;
    }
    put(&dir.join("Cargo.toml"), "[workspace]\n")?;
    let dirs: BTreeSet<&Path> = w.want.keys().map(|p| Path::new(p).parent().unwrap()).collect();
    for tables in dirs {
        let tables = dir.join(tables);
        let home = tables.parent().unwrap();
        put(&home.join("src/lib.rs"), "// code\n")?;
        put(&home.join("tables.rs"), "// code\n")?;
        if stale {
            put(&tables.join("stale.rsv"), "old\n")?;
            put(&tables.join("sub/stale.rsv"), "old\n")?;
            put(&tables.join("unicode_version.rsv"), "old\n")?;
        }
    }
    Ok(())
}

fn pick_parts(s: &mut Src) -> Vec<&'static str> {
    if s.chance(1, 3) {
        return vec![];
    }
    let mut parts: Vec<&str> = PARTS.iter().copied().filter(|p| if *p == "ucd" { s.chance(3, 4) } else { s.bool() }).collect();
    if parts.is_empty() {
        parts.push(s.pick(PARTS));
    }
    parts
}

pub fn c26() -> Check {
    Check::new("C26", "some source file has data lines for the components that are generated")
        .assume("source files are well formed: the syntax of the Unicode data files, disjoint code point ranges within one property, no surrogates where the real files have none")
        .assume("unassigned noncharacters and default ignorables, whose default Bidi_Class BN unic does not have (see C19 default-bn), are not judged in bidi_class")
        .random("synthetic sources", 1_500, 40_000, |s, r| {
            let parts = pick_parts(s);
            let stale = s.bool();
            let w = world(s);
            r.case(&(&parts, w.src.get(&format!("{}UnicodeData.txt", UCD)), w.src.get(&format!("{}PropList.txt", UCD))));
            r.note(|| format!("components {:?}\n{}", parts, w.src.iter().map(|(k, v)| format!("--- {}\n{}", k, v)).collect::<String>()));
            r.nontrivial(w.want.iter().any(|(p, v)| {
                (parts.is_empty() || parts.contains(&part_of(p)))
                    && match v {
                        Want::Table(m) => !m.is_empty(),
                        Want::Names(m) => !m.is_empty(),
                        Want::Exact(V::List(l)) => !l.is_empty(),
                        _ => false,
                    }
            }));
            let d = scratch()?;
            lay_out(&w, &d, stale)?;
            let one = check_world(&w, &parts, &d)?;
            if s.chance(1, 5) {
                let two = check_world(&w, &parts, &d)?;
                ensure!(one == two, "a second run gives other tables");
            }
            Ok(())
        })
        .random("sources that are missing", 150, 3_000, |s, r| {
            let parts = pick_parts(s);
            let w = world(s);
            let used: Vec<&String> = w.src.keys().filter(|p| if parts.is_empty() { PARTS.iter().any(|c| needs(c, p)) } else { parts.iter().any(|c| needs(c, p)) }).collect();
            let gone = s.pick(&used).clone();
            let d = scratch()?;
            lay_out(&w, &d, false)?;
            fs::remove_file(d.0.join("w").join(&gone)).map_err(|e| e.to_string())?;
            r.case(&(&parts, &gone));
            r.note(|| format!("components {:?} without {}", parts, gone));
            r.nontrivial(true);
            ensure!(!run_gen(&d, &parts)?, "unic-gen {:?} succeeds without {}", parts, gone);
            Ok(())
        })
        .random("components that do not exist", 40, 400, |s, r| {
            let bad = s.pick(&["", "Ucd", "uc", "names", "ucd ", "../ucd", "all", "emoji/char", "idna-mapping", "*"]);
            let mut args = pick_parts(s);
            let at = s.below(args.len() + 1);
            args.insert(at, bad);
            let d = scratch()?;
            let w = world(s);
            lay_out(&w, &d, true)?;
            r.case(&args);
            r.note(|| format!("{:?}", args));
            r.nontrivial(true);
            let before = tree(&d.0.join("w"));
            ensure!(!run_gen(&d, &args)?, "unic-gen {:?} succeeds", args);
            ensure!(before == tree(&d.0.join("w")), "unic-gen {:?} changes files", args);
            Ok(())
        })
        .exhaustive("the data of Unicode 10", 1, |_, r| {
            r.nontrivial(true);
            r.note(|| "sources rebuilt from the reference data".into());
            let w = real_world();
            let d = scratch()?;
            lay_out(&w, &d, true)?;
            let made = check_world(&w, &["ucd", "idna", "emoji"], &d)?;
            // the committed tables are what comes of it
            for p in w.want.keys().filter(|p| matches!(part_of(p), "ucd" | "idna" | "emoji") && !p.contains("/tests/")) {
                let have = fs::read_to_string(Path::new("/repo").join(p)).map_err(|e| format!("{}: {}", p, e))?;
                if p.ends_with("name_values.rsd") {
                    continue;
                }
                let (a, b) = (parse(&made[p])?, parse(&have)?);
                if a != b {
                    match (denotes(a), denotes(b)) {
                        (Ok(a), Ok(b)) => {
                            if let Some(d) = first_difference(&b, &a) {
                                return Err(format!("the table in the repository, {}: {}", p, d));
                            }
                        }
                        (_, Err(e)) | (Err(e), _) => return Err(format!("the table in the repository, {}: {}", p, e)),
                    }
                }
            }
            Ok(())
        })
}

// ---------------------------------------------------------------- the real data

/// Unicode 10 as source files, from the reference data.
fn real_world() -> World {
    let mut w = World::default();
    let v = [10, 0, 0];
    w.src.insert(format!("{}ReadMe.txt", UCD), "# for Version 10.0.0 of the Unicode Standard\n".into());
    let long = |p: &str, v: &str| -> String {
        let t = fs::read_to_string(crate::refdata::dir() + "PropertyValueAliases.txt").unwrap();
        t.lines()
            .map(|l| l.split('\t').collect::<Vec<_>>())
            .find(|f| f[0] == p && f[1] == v)
            .unwrap_or_else(|| panic!("no {} {}", p, v))[2]
            .to_string()
    };
    let set = |p: &str| -> (Vec<(u32, u32)>, BTreeSet<char>) {
        let p = prop(p);
        let rs = p.value_id("Y").map(|y| p.ranges_of(y).to_vec()).unwrap_or_default();
        let cs = rs.iter().flat_map(|r| chars_in(r.0, r.1)).collect();
        (rs, cs)
    };
    for (file, list, dir) in [
        (format!("{}DerivedCoreProperties.txt", UCD), CORE, "unic/ucd/"),
        (format!("{}PropList.txt", UCD), PROPS, "unic/ucd/"),
        ("external/unicode/emoji/data/emoji-data.txt".into(), EMOJI, "unic/emoji/char/tables/"),
    ] {
        let mut text = String::new();
        for (p, f) in list.iter().filter(|x| !x.1.is_empty()) {
            let (rs, cs) = set(p);
            for (lo, hi) in rs {
                let _ = writeln!(text, "{:<14}; {} # So", span_text(lo, hi), p);
            }
            w.want.insert(format!("{}{}.rsv", dir, f), set_of(cs));
        }
        w.src.insert(file, text);
    }
    w.src.insert("external/unicode/emoji/data/ReadMe.txt".into(), "# Unicode Emoji, Version 5.0\n".into());
    w.want.insert("unic/emoji/char/tables/emoji_version.rsv".into(), Want::Exact(version([5, 0, 0])));
    // tables of values
    let mut table = |file: String, out: &str, p: &'static str, f: &dyn Fn(&str) -> Option<(String, V)>| {
        let p = prop(p);
        let vals: Vec<Option<(String, V)>> = p.values.iter().map(|v| f(v)).collect();
        let mut text = String::new();
        let mut m = Map::new();
        for &(lo, hi, id) in &p.ranges {
            if let Some((t, v)) = &vals[id as usize] {
                let _ = writeln!(text, "{:<14}; {}", span_text(lo, hi), t);
                m.extend(chars_in(lo, hi).map(|c| (c, v.clone())));
            }
        }
        w.src.insert(file, text);
        w.want.insert(out.into(), Want::Table(m));
    };
    for (file, out, short, p, other) in [
        ("Grapheme", "grapheme_cluster_break", "GCB", "Grapheme_Cluster_Break", "XX"),
        ("Word", "word_break", "WB", "Word_Break", "XX"),
        ("Sentence", "sentence_break", "SB", "Sentence_Break", "XX"),
    ] {
        table(format!("{}auxiliary/{}BreakProperty.txt", UCD, file), &format!("unic/ucd/segment/tables/{}.rsv", out), p, &|v| {
            if v == other {
                return None;
            }
            let l = long(short, v);
            let l = if l == "E_Base_Gaz" { "E_Base_GAZ".into() } else { l };
            Some((l.clone(), name(&format!("{}::{}", short, l))))
        });
    }
    table(format!("{}DerivedAge.txt", UCD), "unic/ucd/age/tables/age_values.rsv", "Age", &|v| {
        let n: Vec<u32> = v.split('.').filter_map(|x| x.parse().ok()).collect();
        if n.len() != 3 {
            return None;
        }
        Some((format!("{}.{} # x", n[0], n[1]), version([n[0], n[1], n[2]])))
    });
    table(format!("{}Blocks.txt", UCD), "unic/ucd/block/tables/blocks.rsv", "Block", &|v| {
        let (_, n) = v.split_once(' ')?;
        Some((n.to_string(), st(n)))
    });
    // no Jamo or alias data in the form needed: these come from the tables themselves
    table("external/unicode/idna/data/IdnaMappingTable.txt".into(), "unic/idna/mapping/tables/idna_mapping.rsv", "IDNA_Mapping", &|v| {
        let (k, m) = v.split_once(' ').unwrap_or((v, ""));
        let (_, value, maps) = STATUS.iter().find(|x| x.0 == k)?;
        let cs: String = parse_hex(m).into_iter().collect();
        let m = parse_hex(m);
        Some((
            format!("{} ; {} # 1.1 X", k, codes(&m)),
            if *maps { call(value, vec![V::Str(cs)]) } else { name(value) },
        ))
    });
    {
        // an IDNA line has no mapping field when there is none; surrogates are set apart
        let t = w.src.get_mut("external/unicode/idna/data/IdnaMappingTable.txt").unwrap();
        *t = t.replace(" ;  #", " #");
    }
    w.src.insert("external/unicode/idna/data/ReadMe.txt".into(), "# for Version 10.0.0\n".into());
    w.want.insert("unic/idna/mapping/tables/unicode_version.rsv".into(), Want::Exact(version(v)));
    for f in ["Grapheme", "Word"] {
        w.src.insert(format!("{}auxiliary/{}BreakTest.txt", UCD, f), String::new());
    }
    for t in ["grapheme_cluster_break", "word_break"] {
        w.want.insert(format!("unic/ucd/segment/tests/tables/{}_test_data.rsv", t), Want::Table(Map::new()));
    }
    // Jamo short names (TUS 3.12)
    let mut text = String::new();
    let mut m = Map::new();
    for (first, list) in [
        (0x1100, "G GG N D DD R M B BB S SS - J JJ C K T P H"),
        (0x1161, "A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I"),
        (0x11A8, "G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H"),
    ] {
        for (i, n) in list.split(' ').enumerate() {
            let n = if n == "-" { "" } else { n };
            let _ = writeln!(text, "{}; {} # HANGUL", code(first + i as u32), n);
            m.insert(char::from_u32(first + i as u32).unwrap(), st(n));
        }
    }
    w.src.insert(format!("{}Jamo.txt", UCD), text);
    w.want.insert("unic/ucd/name/tables/jamo.rsv".into(), Want::Table(m));
    // aliases
    let p = prop("Name_Aliases");
    let mut text = String::new();
    let mut types: BTreeMap<char, BTreeSet<&'static str>> = BTreeMap::new();
    let mut maps = vec![Map::new(); ALIAS_TYPES.len()];
    for c in chars_in(0, 0x10FFFF) {
        for part in p.get(c).split(';').skip(1) {
            let (k, list) = part.split_once('=').unwrap();
            let k = ["corr", "ctrl", "alt", "fig", "abbr"].iter().position(|x| *x == k).unwrap_or_else(|| panic!("alias kind {}", k));
            types.entry(c).or_default().insert(ALIAS_TYPES[k].1);
            maps[k].insert(c, V::List(list.split(',').map(st).collect()));
            for a in list.split(',') {
                let _ = writeln!(text, "{};{};{}", code(c as u32), a, ALIAS_TYPES[k].0);
            }
        }
    }
    w.src.insert(format!("{}NameAliases.txt", UCD), text);
    w.want.insert("unic/ucd/name_aliases/tables/name_alias_types.rsv".into(), Want::Types(types));
    for (k, m) in ALIAS_TYPES.iter().zip(maps) {
        w.want.insert(format!("unic/ucd/name_aliases/tables/{}.rsv", k.2), Want::Table(m));
    }
    // UnicodeData.txt
    let (gc, ccc, bidi, nm) = (prop("General_Category"), prop("Canonical_Combining_Class"), prop("Bidi_Class"), prop("Name"));
    let (canon, compat, dt) = (prop("Canonical_Decomposition"), prop("Compatibility_Decomposition"), prop("Decomposition_Type"));
    let mirrored = prop("Bidi_Mirrored");
    let mut es: Vec<Entry> = vec![];
    for c in chars_in(0, 0x10FFFF) {
        let g = gc.get(c);
        if g == "Cn" {
            continue;
        }
        let n = nm.get(c);
        let (d, m) = match dt.get(c) {
            "-" => (None, vec![]),
            "Can" => (None, if canon.get(c) == "-" { vec![] } else { parse_hex(canon.get(c)) }),
            t => {
                let l = long("dt", t);
                (DT.iter().find(|d| d.1 == l).map(|d| d.0), parse_hex(compat.get(c)))
            }
        };
        let plain = n == "-" || n.starts_with('<');
        let e = Entry {
            lo: c as u32,
            hi: c as u32,
            name: if plain { "<control>".into() } else { n.to_string() },
            gc: GC.iter().copied().find(|x| *x == g).unwrap(),
            ccc: ccc.get(c).parse().unwrap(),
            bidi: bidi.get(c).to_string(),
            dt: d,
            dm: m,
            mirrored: mirrored.is(c),
            extra: 0,
        };
        if plain && e.dm.is_empty() {
            if let Some(l) = es.last_mut() {
                if l.name.starts_with('<') && l.dm.is_empty() && l.hi + 1 == e.lo && (l.gc, &l.bidi, l.ccc, l.mirrored) == (e.gc, &e.bidi, e.ccc, e.mirrored) {
                    l.hi = e.hi;
                    l.name = "<Block".into();
                    continue;
                }
            }
        }
        es.push(e);
    }
    let excl = prop("NFC_Changes");
    let yes = excl.value_id("Y").unwrap();
    let mut text = String::new();
    let mut excluded = BTreeSet::new();
    for &(lo, hi) in excl.ranges_of(yes) {
        excluded.extend(lo..=hi);
        let _ = writeln!(text, "{:<14}; Full_Composition_Exclusion # Mn", span_text(lo, hi));
    }
    w.src.insert(format!("{}DerivedNormalizationProps.txt", UCD), text);
    let alphabetic = set("Alphabetic").1;
    finish_unicode_data(&mut w, &es, &excluded, v, &alphabetic);
    w
}
