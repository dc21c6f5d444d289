//! C24, C25: the text formats of the command-line tools, and unic-echo itself.
use crate::gen::{any_string, edge_char, esc, huge, long, short};
use crate::pbt::*;
use crate::{ensure, ensure_eq};
use std::io::{self, Write};
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};
use unic_cli::{parsers, writers};

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Fmt {
    Plain,
    Codepoints,
    Utf8,
    Utf16,
    Escape,
    EscapeAll,
    EscapeControl,
}
use Fmt::*;

// ---- the reference notation ----

fn join(v: impl Iterator<Item = String>) -> String {
    v.collect::<Vec<_>>().join(" ")
}

/// The exact rendering, for the formats that leave no choice.
fn exact(f: Fmt, s: &str) -> String {
    match f {
        Plain => s.to_string(),
        Codepoints => join(s.chars().map(|c| format!("U+{}", hex(c as u32, 4)))),
        Utf8 => join(s.bytes().map(|b| format!("0x{}", hex(b as u32, 2)))),
        Utf16 => join(s.encode_utf16().map(|u| format!("0x{}", hex(u as u32, 4)))),
        EscapeAll => {
            let mut o = String::from("\"");
            for c in s.chars() {
                o.push_str(&format!("\\u{{{}}}", hex(c as u32, 1).to_lowercase()));
            }
            o.push('"');
            o
        }
        Escape | EscapeControl => unreachable!(),
    }
}

fn hex(mut v: u32, digits: usize) -> String {
    let mut d = vec![];
    while v > 0 || d.len() < digits {
        d.push(b"0123456789ABCDEF"[(v & 15) as usize]);
        v >>= 4;
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

/// Reads a quoted literal with `\u{...}` escapes; strict about its shape.
/// Returns for each character whether it was escaped.
fn read_literal(lit: &str) -> Result<Vec<(char, bool)>, String> {
    let body = lit
        .strip_prefix('"')
        .and_then(|b| b.strip_suffix('"'))
        .ok_or_else(|| format!("not quoted: {}", lit))?;
    let mut out = vec![];
    let mut it = body.chars();
    while let Some(c) = it.next() {
        if c == '"' {
            return Err(format!("bare quote inside: {}", lit));
        }
        if c != '\\' {
            out.push((c, false));
            continue;
        }
        let c = match it.next().ok_or("dangling backslash")? {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            c @ ('\\' | '\'' | '"') => c,
            'u' => {
                if it.next() != Some('{') {
                    return Err(format!("\\u without brace: {}", lit));
                }
                let mut h = String::new();
                loop {
                    match it.next().ok_or("unclosed brace")? {
                        '}' => break,
                        c => h.push(c),
                    }
                }
                if h.is_empty() || h.len() > 6 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return Err(format!("bad escape \\u{{{}}}", h));
                }
                u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or_else(|| format!("no character: {}", h))?
            }
            c => return Err(format!("unknown escape \\{}", c)),
        };
        out.push((c, true));
    }
    Ok(out)
}

/// Is `out` a rendering of `s` in the format?
fn rendered(f: Fmt, s: &str, out: &str) -> Res {
    match f {
        Escape | EscapeControl => {
            let parts = read_literal(out)?;
            let back: String = parts.iter().map(|p| p.0).collect();
            ensure_eq!(back, s, "{:?} of {} is {}, which does not read back", f, esc(s), out);
            for (c, escaped) in parts {
                let special = matches!(c, '\\' | '\'' | '"');
                if c.is_control() || (f == Escape && !c.is_ascii()) {
                    ensure!(escaped, "{:?} leaves U+{:04X} as it is in {}", f, c as u32, out);
                } else if !special && (c.is_ascii() || (f == EscapeControl && plain_letter(c))) {
                    ensure!(!escaped, "{:?} escapes {:?} in {}", f, c, out);
                }
            }
            Ok(())
        }
        _ => {
            ensure_eq!(out, exact(f, s), "{:?} of {}", f, esc(s));
            Ok(())
        }
    }
}

/// Letters and digits that nobody would call a control.
fn plain_letter(c: char) -> bool {
    use unic_ucd_category::GeneralCategory::*;
    // letters by category, but invisible
    if matches!(c, '\u{115f}' | '\u{1160}' | '\u{3164}' | '\u{ffa0}') {
        return false;
    }
    matches!(
        unic_ucd_category::GeneralCategory::of(c),
        UppercaseLetter | LowercaseLetter | TitlecaseLetter | OtherLetter | DecimalNumber
    )
}

fn write_with<W: Write>(f: Fmt, w: &mut W, s: &str) -> io::Result<()> {
    match f {
        Plain => w.write_all(s.as_bytes()),
        Codepoints => writers::write_as_codepoints(w, s.chars()),
        Utf8 => writers::write_as_utf8_hex(w, s.chars()),
        Utf16 => writers::write_as_utf16_hex(w, s.chars()),
        Escape => writers::write_with_control_n_unicode_braces_escape(w, s.chars()),
        EscapeAll => writers::write_with_all_braces_escape(w, s.chars()),
        EscapeControl => writers::write_with_control_braces_escape(w, s.chars()),
    }
}

fn parse_with(f: Fmt, s: &str) -> Option<String> {
    catch(|| match f {
        Codepoints => parsers::codepoints(s),
        Utf8 => parsers::utf8_hex(s),
        Utf16 => parsers::utf16_hex(s),
        _ => s.to_string(),
    })
    .ok()
}

const WRITERS: &[Fmt] = &[Codepoints, Utf8, Utf16, Escape, EscapeAll, EscapeControl];
const PARSERS: &[Fmt] = &[Codepoints, Utf8, Utf16];

// ---- the reference reading of code units ----

#[derive(Clone, Debug, PartialEq, Eq)]
enum Verdict {
    /// must be accepted, as this text
    Text(String),
    /// must be refused
    Refuse,
    /// may be refused, or else stands for this text
    Either(String),
}

fn model_parse(f: Fmt, s: &str) -> Verdict {
    if s.is_empty() {
        return Verdict::Text(String::new());
    }
    let mut doubt = false;
    let mut tokens = vec![String::new()];
    for c in s.chars() {
        if c.is_ascii() {
            let word = c.is_ascii_alphanumeric() || c == '_' || (c == '+' && f == Codepoints);
            if word {
                tokens.last_mut().unwrap().push(c);
            } else {
                tokens.push(String::new());
            }
        } else if plain_letter(c) {
            return Verdict::Refuse;
        } else {
            // whether these separate tokens is nowhere said
            doubt = true;
            tokens.push(String::new());
        }
    }
    let mut units = vec![];
    let limit = match f {
        Codepoints => 0x10FFFF,
        Utf8 => 0xFF,
        _ => 0xFFFF,
    };
    for t in &tokens {
        if t.is_empty() {
            doubt = true;
            continue;
        }
        let mut t: &str = t;
        if f == Codepoints {
            if t.starts_with("U+") || t.starts_with("u+") {
                t = &t[2..];
            } else if t.starts_with("0x") || t.starts_with("0X") {
                t = &t[2..];
                doubt = true;
            }
            if let Some(rest) = t.strip_prefix('+') {
                t = rest;
                doubt = true;
            }
        } else if t.starts_with("0x") || t.starts_with("0X") {
            t = &t[2..];
        }
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Verdict::Refuse;
        }
        if t.len() > 8 || (f != Codepoints && t.len() > if f == Utf8 { 2 } else { 4 }) {
            doubt = true;
        }
        let digits = t.trim_start_matches('0');
        if digits.len() > 6 {
            return Verdict::Refuse;
        }
        let v = u32::from_str_radix(if digits.is_empty() { "0" } else { digits }, 16).unwrap();
        if v > limit {
            return Verdict::Refuse;
        }
        units.push(v);
    }
    let text: Option<String> = match f {
        Codepoints => units.into_iter().map(char::from_u32).collect(),
        Utf8 => String::from_utf8(units.into_iter().map(|u| u as u8).collect()).ok(),
        _ => from_utf16(&units),
    };
    match text {
        None => Verdict::Refuse,
        Some(t) if doubt => Verdict::Either(t),
        Some(t) => Verdict::Text(t),
    }
}

fn from_utf16(u: &[u32]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < u.len() {
        let v = u[i];
        i += 1;
        out.push(match v {
            0xD800..=0xDBFF => {
                let lo = *u.get(i)?;
                i += 1;
                if !(0xDC00..=0xDFFF).contains(&lo) {
                    return None;
                }
                char::from_u32(0x10000 + ((v - 0xD800) << 10) + (lo - 0xDC00))?
            }
            0xDC00..=0xDFFF => return None,
            v => char::from_u32(v)?,
        });
    }
    Some(out)
}

fn check_parse(f: Fmt, s: &str, got: Option<String>) -> Res {
    match (model_parse(f, s), got) {
        (Verdict::Text(t), Some(g)) | (Verdict::Either(t), Some(g)) => {
            ensure_eq!(g, t, "{:?} parser on {}", f, esc(s));
            Ok(())
        }
        (Verdict::Text(t), None) => Err(format!("{:?} parser refuses {}, which is {}", f, esc(s), esc(&t))),
        (Verdict::Refuse, Some(g)) => Err(format!("{:?} parser accepts {} as {}", f, esc(s), esc(&g))),
        _ => Ok(()),
    }
}

// ---- generators ----

fn text(s: &mut Src, max: usize) -> String {
    if s.chance(1, 4) {
        s.list(6, max, |s| match s.below(6) {
            0 => s.range(0, 0x1f) as u8 as char,
            1 => s.pick(&['\\', '\'', '"', '{', '}', 'u', 'n', '0', '\t', '\n', '\r', '\0', ' ', '\x7f', '\u{85}', '\u{a0}']),
            2 => s.range(0x20, 0x7e) as u8 as char,
            3 => s.pick(&['\u{300}', '\u{200d}', '\u{200b}', '\u{fe0f}', '\u{e0001}', '\u{feff}', '\u{ad}', '\u{600}']),
            4 => edge_char(s),
            _ => s.any_char(),
        })
        .into_iter()
        .collect()
    } else {
        any_string(s, max)
    }
}

/// One code unit the way a person might write it.
fn token(s: &mut Src, f: Fmt, out: &mut String, v: u32) {
    let upper = s.bool();
    if s.chance(5, 8) {
        out.push_str(match (f, upper) {
            (Codepoints, true) => "U+",
            (Codepoints, false) => "u+",
            (_, true) => "0X",
            (_, false) => "0x",
        });
    }
    let digits = s.pick(&[0usize, 1, 2, 2, 4, 4, 4, 6, 8, 9]);
    let h = hex(v, digits.max(1));
    for c in h.chars() {
        out.push(if s.bool() { c.to_ascii_lowercase() } else { c });
    }
}

/// Input for a parser: mostly sensible, sometimes spoilt.
fn spelled(s: &mut Src, f: Fmt) -> String {
    let t = text(s, 8);
    let mut units: Vec<u32> = match f {
        Codepoints => t.chars().map(|c| c as u32).collect(),
        Utf8 => t.bytes().map(|b| b as u32).collect(),
        _ => t.encode_utf16().map(|u| u as u32).collect(),
    };
    if s.chance(1, 3) && !units.is_empty() {
        // spoil the units
        let i = s.below(units.len());
        match s.below(5) {
            0 => units[i] = s.pick(&[0x110000, 0x10FFFF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFFFF, 0x100, 0x10000, 0xFF, 0x80, 0xC0, 0xED, 0xF5]),
            1 => {
                units.remove(i);
            }
            2 => units.truncate(i),
            3 => {
                let j = s.below(units.len());
                units.swap(i, j)
            }
            _ => units[i] = s.range(0, 0x1FFFFF) as u32,
        }
    }
    let mut out = String::new();
    for (i, u) in units.iter().enumerate() {
        if i > 0 {
            out.push(s.pick(&[' ', ' ', ' ', ',', '\t', '\n', ';', '-', '/', '.', '|', '\\', '{', '\0', '\x7f']));
        }
        token(s, f, &mut out, *u);
    }
    if s.chance(1, 4) {
        // spoil the spelling
        let n = s.below(3);
        for _ in 0..=n {
            let at: Vec<usize> = out.char_indices().map(|x| x.0).chain([out.len()]).collect();
            let at = s.pick(&at);
            let c = s.pick(&[
                ' ', '+', '_', 'x', 'u', 'U', '0', 'g', 'G', 'z', '\u{a0}', '\u{2003}', '\u{2014}', '\u{663}', '\u{e9}', '\u{301}',
                '\u{ff21}', ',', '\u{1d7ce}', '-',
            ]);
            out.insert(at, c);
        }
    }
    out
}

// ---- C24 ----

/// A sink that takes a few bytes at a time, complains now and then, and is full after a while (or
/// only once, and then takes everything).
struct Sink {
    recovers: bool,
    got: Vec<u8>,
    cap: usize,
    step: usize,
    interrupts: u32,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupts > 0 && self.got.len() % 3 == 1 {
            self.interrupts -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.step).min(self.cap - self.got.len());
        if n == 0 {
            if self.recovers {
                self.cap = usize::MAX;
            }
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn written(f: Fmt, s: &str) -> Result<String, String> {
    let mut v = vec![];
    write_with(f, &mut v, s).map_err(|e| format!("{:?} of {}: {}", f, esc(s), e))?;
    String::from_utf8(v).map_err(|_| format!("{:?} of {} is not UTF-8", f, esc(s)))
}

fn round_trip(s: &str) -> Res {
    for &f in WRITERS {
        let out = written(f, s)?;
        rendered(f, s, &out)?;
        if PARSERS.contains(&f) {
            let back = parse_with(f, &out);
            ensure!(back.as_deref() == Some(s), "{:?} of {} is {} and reads back as {:?}", f, esc(s), out, back.map(|b| esc(&b)));
        }
    }
    Ok(())
}

pub fn c24() -> Check {
    Check::new("C24", "write: text with a control, non-ASCII or special character; parse: input of two or more tokens; sink: the sink was full before the end")
        .every_char("each character", |c, r| {
            r.nontrivial(!c.is_ascii_alphanumeric());
            let mut v = vec![];
            writers::write_char_as_codepoint(&mut v, c).map_err(|e| e.to_string())?;
            ensure_eq!(String::from_utf8_lossy(&v), exact(Codepoints, &c.to_string()), "code point of U+{:04X}", c as u32);
            let mut v = vec![];
            writers::write_char_as_utf8_hex(&mut v, c).map_err(|e| e.to_string())?;
            ensure_eq!(String::from_utf8_lossy(&v), exact(Utf8, &c.to_string()), "UTF-8 of U+{:04X}", c as u32);
            let mut v = vec![];
            writers::write_char_as_utf16_hex(&mut v, c).map_err(|e| e.to_string())?;
            ensure_eq!(String::from_utf8_lossy(&v), exact(Utf16, &c.to_string()), "UTF-16 of U+{:04X}", c as u32);
            round_trip(&c.to_string())
        })
        .random("huge texts", 60, 2_000, |s, r| {
            let (t, name) = huge(s, None, |s| text(s, 30));
            r.case(&name);
            r.nontrivial(true);
            round_trip(&t).map_err(short)
        })
        .random("long texts", 3_000, 60_000, |s, r| {
            let t = long(s, 6_000, |s| text(s, 30));
            r.case(&t);
            r.note(|| esc(&t));
            r.nontrivial(t.len() > 100 && t.chars().any(|c| !c.is_ascii_alphanumeric()));
            round_trip(&t)
        })
        .random("write and read back", 1_000_000, 6_000_000, |s, r| {
            let t = text(s, 40);
            r.case(&t);
            r.note(|| esc(&t));
            r.nontrivial(t.chars().any(|c| !c.is_ascii_alphanumeric()));
            round_trip(&t)
        })
        .random("read", 2_000_000, 8_000_000, |s, r| {
            let f = s.pick(PARSERS);
            let t = spelled(s, f);
            r.case(&(f, &t));
            r.note(|| format!("{:?} {}", f, esc(&t)));
            let m = model_parse(f, &t);
            r.class(match m {
                Verdict::Text(_) => "must accept",
                Verdict::Refuse => "must refuse",
                Verdict::Either(_) => "may refuse",
            });
            r.nontrivial(t.chars().filter(|c| !c.is_ascii_alphanumeric()).count() > 1);
            check_parse(f, &t, parse_with(f, &t))
        })
        .exhaustive("every code unit spelled alone", 0x11_0010 + 0x108 + 0x1_0010, |i, r| {
            let (f, v, w) = if i < 0x11_0010 {
                (Codepoints, i as u32, 4)
            } else if i < 0x11_0010 + 0x108 {
                (Utf8, (i - 0x11_0010) as u32, 2)
            } else {
                (Utf16, (i - 0x11_0010 - 0x108) as u32, 4)
            };
            r.nontrivial(true);
            r.note(|| format!("{:?} {:X}", f, v));
            let (p, q) = if f == Codepoints { ("U+", "u+") } else { ("0x", "0X") };
            let good = match model_parse(f, &format!("{}{}", p, hex(v, w))) {
                Verdict::Refuse => false,
                _ => true,
            };
            // refusing is slow: one spelling of those is enough
            if good {
                check_parse(f, &format!("{}{}", q, hex(v, 1).to_lowercase()), parse_with(f, &format!("{}{}", q, hex(v, 1).to_lowercase())))?;
                check_parse(f, &hex(v, w), parse_with(f, &hex(v, w)))?;
            }
            let t = format!("{}{}", p, hex(v, w));
            check_parse(f, &t, parse_with(f, &t))
        })
        .random("sinks that fail", 1_000_000, 1_000_000, |s, r| {
            let t = text(s, 20);
            let f = s.pick(WRITERS);
            let full = written(f, &t)?;
            let cap = s.urange(0, full.len() + 2);
            let recovers = s.below(3) == 0;
            let mut sink = Sink { recovers, got: vec![], cap, step: s.urange(1, 5), interrupts: s.below(4) as u32 };
            r.case(&(f, &t, cap, recovers));
            r.note(|| format!("{:?} {} into {} bytes{}", f, esc(&t), cap, if recovers { ", then no limit" } else { "" }));
            r.nontrivial(cap < full.len());
            let res = write_with(f, &mut sink, &t);
            ensure!(full.as_bytes().starts_with(&sink.got), "{:?} of {}: a slow sink gets other bytes", f, esc(&t));
            if cap < full.len() {
                ensure!(res.is_err(), "{:?} of {}: the error of the sink is swallowed", f, esc(&t));
                ensure!(recovers || sink.got.len() == cap, "{:?} of {}: stopped early", f, esc(&t));
            } else {
                ensure!(res.is_ok(), "{:?} of {}: error {:?} from a sink with room", f, esc(&t), res);
                ensure_eq!(sink.got.len(), full.len(), "{:?} of {}: incomplete", f, esc(&t));
            }
            Ok(())
        })
}

// ---- C25 ----

fn echo_path() -> std::path::PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    std::path::Path::new(&root).join("target/cli/debug/unic-echo")
}

const IN_NAMES: &[(&str, Fmt)] =
    &[("plain", Plain), ("codepoint", Codepoints), ("codepoints", Codepoints), ("utf8-hex", Utf8), ("utf16-hex", Utf16)];
const OUT_NAMES: &[(&str, Fmt)] = &[
    ("plain", Plain),
    ("codepoint", Codepoints),
    ("codepoints", Codepoints),
    ("utf8-hex", Utf8),
    ("utf16-hex", Utf16),
    ("braces-escape", Escape),
    ("js6-escape", Escape),
    ("rust-escape", Escape),
    ("braces-escape-all", EscapeAll),
    ("js6-escape-all", EscapeAll),
    ("rust-escape-all", EscapeAll),
    ("braces-escape-control", EscapeControl),
    ("js6-escape-control", EscapeControl),
    ("rust-escape-control", EscapeControl),
];

/// A format name as documented, in any letter case.
fn spell_name(s: &mut Src, name: &str) -> String {
    let mode = s.below(4);
    name.chars()
        .map(|c| match mode {
            0 => c.to_ascii_uppercase(),
            1 if s.bool() => c.to_ascii_uppercase(),
            _ => c,
        })
        .collect()
}

#[derive(Debug, Hash)]
struct Run {
    args: Vec<Vec<u8>>,
    /// what the strings come to
    input: Vec<u8>,
    from: Option<Fmt>,
    to: Option<Fmt>,
    newline: bool,
    bad_usage: bool,
}

fn gen_run(s: &mut Src) -> Run {
    let (mut from, mut to) = (Some(Plain), Some(Plain));
    let mut opts: Vec<Vec<Vec<u8>>> = vec![];
    let mut bad_usage = false;
    for (short, long, names, slot) in
        [("-i", "--input", IN_NAMES, &mut from), ("-o", "--output", OUT_NAMES, &mut to)]
    {
        if s.chance(1, 8) {
            continue;
        }
        let mut pick = s.below(names.len());
        if s.chance(1, 3) {
            pick = 0;
        }
        let (name, f) = names[pick];
        let mut name = spell_name(s, name);
        *slot = Some(f);
        if s.chance(1, 20) {
            name = s.pick(&["plane", "utf-32", "codepointss", "utf8", "x", "braces", "plain ", "rust-escape-al", "utf32-hex", "hex"]).to_string();
            if s.bool() {
                // a name with something more, something less, or something else in it
                let mut cs: Vec<char> = names[pick].0.chars().collect();
                let at = s.below(cs.len());
                match s.below(4) {
                    0 => cs.insert(at, s.pick(&['_', ' ', 's', 'x', '.', '\u{e9}', '\u{ad}', '0'])),
                    1 => drop(cs.remove(at)),
                    2 => cs.iter_mut().for_each(|c| {
                        *c = match *c {
                            '-' => s.pick(&['_', ' ', '\u{2010}']),
                            's' => '\u{17f}',
                            'i' => '\u{131}',
                            'x' => '8',
                            c => c,
                        }
                    }),
                    _ => cs.push(s.pick(&['_', ' ', 's', '\n', '8', 'l'])),
                }
                let t: String = cs.into_iter().collect();
                let key = |t: &str| t.replace('-', "").to_ascii_lowercase();
                if !t.is_empty() && !t.starts_with('-') && names.iter().all(|n| key(n.0) != key(&t)) {
                    name = t;
                }
            }
            *slot = None;
            bad_usage = true;
        }
        opts.push(match s.below(4) {
            0 => vec![short.into(), name.into()],
            1 => vec![long.into(), name.into()],
            2 => vec![format!("{}={}", long, name).into()],
            _ => vec![format!("{}{}", short, name).into()],
        });
    }
    let newline = !s.chance(1, 2);
    if !newline {
        opts.push(vec![s.pick(&["-n", "--no-newline"]).into()]);
    }
    // the strings
    let f = from.unwrap_or(Plain);
    let mut strings: Vec<Vec<u8>> = vec![];
    let n = s.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5]);
    for _ in 0..n {
        let t = if f == Plain || s.chance(1, 20) { text(s, 20) } else { spelled(s, f) };
        strings.push(t.into_bytes());
    }
    if f != Plain && s.chance(1, 2) {
        // one well-formed text cut at spaces
        let t = exact(f, &text(s, 10));
        strings = if t.is_empty() { vec![] } else { t.split(' ').map(|t| t.as_bytes().to_vec()).collect() };
    }
    if s.chance(1, 40) && !strings.is_empty() {
        let i = s.below(strings.len());
        let bad: &[u8] = s.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xf0\x9f\x98"]);
        strings[i].extend_from_slice(bad);
    }
    for t in &mut strings {
        t.retain(|&b| b != 0);
    }
    let input = strings.join(&b' ');
    // options before, between or after the strings
    let dashes = strings.iter().any(|t| t.starts_with(b"-"));
    let mut args: Vec<Vec<u8>> = vec![];
    if dashes || s.chance(1, 6) {
        while !opts.is_empty() {
            let i = s.below(opts.len());
            args.extend(opts.remove(i));
        }
        args.push(b"--".to_vec());
        args.extend(strings);
    } else {
        let mut groups: Vec<Vec<Vec<u8>>> = strings.into_iter().map(|t| vec![t]).collect();
        while !opts.is_empty() {
            let i = s.below(opts.len());
            let at = s.below(groups.len() + 1);
            groups.insert(at, opts.remove(i));
        }
        args = groups.concat();
    }
    Run { args, input, from, to, newline, bad_usage }
}

/// What the tool did: exit code (None: killed), output, and whether it said something on stderr.
fn exec(args: &[Vec<u8>], full: bool) -> Result<(Option<i32>, Vec<u8>, bool), String> {
    let mut c = Command::new(echo_path());
    c.args(args.iter().map(|a| std::ffi::OsString::from_vec(a.clone())))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env_clear();
    if full {
        let f = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?;
        c.stdout(f);
    }
    let o = c.output().map_err(|e| format!("HARNESS: cannot run unic-echo: {}", e))?;
    Ok((o.status.code(), o.stdout, !o.stderr.is_empty()))
}

fn check_run(run: &Run, r: &mut Rep) -> Res {
    let show = || run.args.iter().map(|a| esc(&String::from_utf8_lossy(a))).collect::<Vec<_>>();
    let (code, out, said) = exec(&run.args, false)?;
    ensure!(code.is_some(), "unic-echo {:?} was killed by a signal", show());
    let refused = code != Some(0);
    if refused {
        ensure!(said, "unic-echo {:?} exits with {:?} and no message", show(), code);
        ensure!(out.is_empty(), "unic-echo {:?} exits with {:?} after writing {}", show(), code, esc(&String::from_utf8_lossy(&out)));
    } else {
        ensure!(!said, "unic-echo {:?} succeeds with a message on stderr", show());
    }
    let verdict = match (String::from_utf8(run.input.clone()), run.bad_usage) {
        (Err(_), _) | (_, true) => Verdict::Refuse,
        (Ok(t), false) => match run.from.unwrap() {
            Plain => Verdict::Text(t),
            f => model_parse(f, &t),
        },
    };
    r.class(match verdict {
        Verdict::Text(_) => "accepted",
        Verdict::Refuse => "refused",
        Verdict::Either(_) => "either",
    });
    let text = match verdict {
        Verdict::Refuse => {
            ensure!(refused, "unic-echo {:?} accepts malformed input: {}", show(), esc(&String::from_utf8_lossy(&out)));
            return Ok(());
        }
        Verdict::Either(_) if refused => return Ok(()),
        Verdict::Text(t) | Verdict::Either(t) => t,
    };
    ensure!(!refused, "unic-echo {:?} fails with {:?}", show(), code);
    let out = String::from_utf8(out).map_err(|_| format!("unic-echo {:?}: output is not UTF-8", show()))?;
    let body = if run.newline {
        out.strip_suffix('\n').ok_or_else(|| format!("unic-echo {:?}: no newline at the end", show()))?
    } else {
        &out
    };
    rendered(run.to.unwrap(), &text, body).map_err(|e| format!("unic-echo {:?}: {}", show(), e))
}

/// Characters that programs are tempted to strip, fold or take for something else.
const SPECIAL: &[char] = &[
    '\u{1}', '\u{2}', '\u{3}', '\u{4}', '\u{7}', '\u{8}', '\t', '\n', '\u{B}', '\u{C}', '\r', '\u{1A}', '\u{1B}', '\u{1C}', '\u{1D}', '\u{1E}',
    '\u{1F}', ' ', '!', '"', '#', '$', '%', '&', '\'', '*', '+', ',', '-', '.', '/', '0', ':', ';', '<', '=', '?', '@', 'U', '[', '\\', '^', '_', '`', 'u',
    'x', '{', '|', '}', '~', '\u{7F}', '\u{80}', '\u{85}', '\u{9F}', '\u{A0}', '\u{AD}', '\u{300}', '\u{34F}', '\u{61C}', '\u{6DD}', '\u{180E}', '\u{2000}', '\u{2003}',
    '\u{200B}', '\u{200C}', '\u{200D}', '\u{200E}', '\u{200F}', '\u{2028}', '\u{2029}', '\u{202A}', '\u{202E}', '\u{202F}', '\u{205F}', '\u{2060}', '\u{2066}',
    '\u{2069}', '\u{3000}', '\u{D7FF}', '\u{E000}', '\u{FDD0}', '\u{FE0F}', '\u{FEFF}', '\u{FFF9}', '\u{FFFD}', '\u{FFFE}', '\u{FFFF}', '\u{10000}', '\u{1F1E6}',
    '\u{1F3FB}', '\u{E0001}', '\u{E0020}', '\u{E007F}', '\u{F0000}', '\u{10FFFE}', '\u{10FFFF}',
];

pub fn c25() -> Check {
    Check::new("C25", "the run has an input format or output format other than plain, or more than one string, or is refused")
        .assume("arguments hold no NUL character (the operating system allows none)")
        .random("runs of unic-echo", 20_000, 150_000, |s, r| {
            let run = gen_run(s);
            r.case(&run);
            r.note(|| format!("{:?}", run.args.iter().map(|a| esc(&String::from_utf8_lossy(a))).collect::<Vec<_>>()));
            r.nontrivial(run.args.len() > 2 || run.bad_usage);
            check_run(&run, r)
        })
        .exhaustive("every pair of formats", (IN_NAMES.len() * OUT_NAMES.len() * 2) as u64, |i, r| {
            let (f, i) = (IN_NAMES[i as usize % IN_NAMES.len()], i as usize / IN_NAMES.len());
            let (t, newline) = (OUT_NAMES[i % OUT_NAMES.len()], i / OUT_NAMES.len() == 1);
            let text = "a\"\\'\t\n\u{7f}\u{e9}\u{301}\u{5d0}\u{200d}\u{4e00}\u{10ffff} z";
            let input = exact(f.1, text);
            let mut args: Vec<Vec<u8>> = vec![b"-i".to_vec(), f.0.into(), b"-o".to_vec(), t.0.into()];
            if !newline {
                args.push(b"-n".to_vec());
            }
            args.push(b"--".to_vec());
            args.push(input.clone().into());
            r.note(|| format!("{} to {}", f.0, t.0));
            r.nontrivial(true);
            check_run(&Run { args, input: input.into(), from: Some(f.1), to: Some(t.1), newline, bad_usage: false }, r)
        })
        .exhaustive("special characters at either end", (SPECIAL.len() * 4 * 4) as u64, |i, r| {
            let (c, i) = (SPECIAL[i as usize % SPECIAL.len()], i as usize / SPECIAL.len());
            let text = match i % 4 {
                0 => format!("{c}"),
                1 => format!("{c}ab"),
                2 => format!("ab{c}"),
                _ => format!("{c}{c} b{c}{c}"),
            };
            let from = IN_NAMES[[0, i + c as usize][(i / 4) % 2] % IN_NAMES.len()];
            let to = OUT_NAMES[[0, i + c as usize][i / 8] % OUT_NAMES.len()];
            let input = exact(from.1, &text);
            r.case(&(c, i));
            r.note(|| format!("{} from {} to {}", esc(&text), from.0, to.0));
            r.nontrivial(true);
            let args = vec![b"-i".to_vec(), from.0.into(), b"-o".to_vec(), to.0.into(), b"--".to_vec(), input.clone().into()];
            check_run(&Run { args, input: input.into(), from: Some(from.1), to: Some(to.1), newline: true, bad_usage: false }, r)
        })
        .random("long arguments", 500, 10_000, |s, r| {
            let from = s.pick(IN_NAMES);
            let to = s.pick(OUT_NAMES);
            let text = long(s, 8_000, |s| text(s, 30)).replace('\0', "");
            let input = exact(from.1, &text);
            let n = s.urange(0, 3);
            let mut args: Vec<Vec<u8>> = vec![b"-i".to_vec(), from.0.into(), b"-o".to_vec(), to.0.into(), b"--".to_vec()];
            if n == 0 {
                args.push(input.clone().into());
            } else {
                args.extend(input.split(' ').map(|t| t.as_bytes().to_vec()));
            }
            r.case(&(from.0, to.0, &args));
            r.note(|| format!("{} to {}: {}", from.0, to.0, esc(&text)));
            r.nontrivial(input.len() > 1000);
            check_run(&Run { args, input: input.into(), from: Some(from.1), to: Some(to.1), newline: true, bad_usage: false }, r)
        })
        .random("output that cannot be written", 1_000, 4_000, |s, r| {
            let run = gen_run(s);
            r.case(&run);
            r.note(|| format!("{:?}", run.args.iter().map(|a| esc(&String::from_utf8_lossy(a))).collect::<Vec<_>>()));
            let (code, out, _) = exec(&run.args, false)?;
            r.nontrivial(code == Some(0) && !out.is_empty());
            if code != Some(0) || out.is_empty() {
                return Ok(());
            }
            let (code, _, said) = exec(&run.args, true)?;
            ensure!(code.is_some() && code != Some(0), "unic-echo reports success (exit {:?}) though nothing could be written", code);
            ensure!(said, "unic-echo does not say why it failed");
            Ok(())
        })
}
