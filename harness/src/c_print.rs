//! C29: what prints gives its whole text or reports that it could not.
use crate::c_bidi::BidiGen;
use crate::c_ucd::{ref_name, SCALARS};
use crate::gen::{any_string, edge_char, esc, long, ByClass};
use crate::pbt::*;
use crate::refdata::prop;
use crate::{ensure, ensure_eq};
use std::fmt::{self, Display, Write};
use std::sync::{Arc, OnceLock};
use unic::bidi::{BidiInfo, Level};
use unic::char::property::{EnumeratedCharProperty, TotalCharProperty};
use unic::normal::StrNormalForm;
use unic::ucd::normal::DecompositionType;
use unic::ucd::{
    BidiClass, CanonicalCombiningClass, GeneralCategory, GraphemeClusterBreak, Name, SentenceBreak, UnicodeVersion,
    WordBreak,
};
use unic_char_basics::unicode_notation;

/// A sink with room for some bytes. What does not fit is refused, as a whole or (like a file on a
/// full disk) after what fits has been taken; then everything is refused, or only that one piece.
struct Sink {
    got: String,
    room: usize,
    cut: bool,
    recovers: bool,
    refused: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused {
            if self.recovers {
                self.got.push_str(s);
                return Ok(());
            }
            return if s.is_empty() { Ok(()) } else { Err(fmt::Error) };
        }
        if s.len() <= self.room {
            self.room -= s.len();
            self.got.push_str(s);
            return Ok(());
        }
        if self.cut {
            let mut n = self.room;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
        }
        self.refused = true;
        Err(fmt::Error)
    }
}

/// Prints into a sink with the given room, and judges what comes out against the whole text.
fn judge<T: Display + ?Sized>(v: &T, want: &str, room: usize, cut: bool, recovers: bool, what: &str) -> Res {
    let mut k = Sink { got: String::new(), room, cut, recovers, refused: false };
    let res = write!(k, "{}", v);
    if k.refused {
        ensure!(res.is_err(), "{}: printed without error into a sink that refused part of it", what);
        if !recovers {
            ensure!(want.starts_with(&k.got), "{}: a sink that became full got {:?}, no prefix of {:?}", what, esc(&k.got), esc(want));
            ensure!(k.got.len() <= room, "{}: more than fits", what);
        }
    } else {
        ensure!(res.is_ok(), "{}: printing fails though the sink refused nothing", what);
        ensure_eq!(k.got, want, "{} printed", what);
    }
    // and again, to the full
    ensure_eq!(v.to_string(), want, "{} printed again", what);
    // in a context that asks for a width: at most filled up on the outside
    let w = want.chars().count() + room % 9;
    let (got, fill) = match (room + want.len()) % 6 {
        0 => (format!("{:w$}", v), ' '),
        1 => (format!("{:>w$}", v), ' '),
        2 => (format!("{:*^w$}", v), '*'),
        3 => (format!("{:<1$}", v, w), ' '),
        4 => (format!("{:0>w$}", v), '0'),
        _ => (format!("{:#}", v), ' '),
    };
    ensure!(
        got.trim_matches(fill) == want.trim_matches(fill) && got.contains(want),
        "{} printed in a context: got {:?}, its text is {:?}", what, esc(&got), esc(want)
    );
    Ok(())
}

struct Room {
    share: u64,
    cut: bool,
    recovers: bool,
}
fn room(s: &mut Src) -> Room {
    Room { share: s.range(0, 1100), cut: s.bool(), recovers: s.chance(1, 4) }
}
impl Room {
    fn of(&self, want: &str) -> usize {
        // all numbers of bytes of short texts, and now and then enough
        (want.len() as u64 * self.share / 1000) as usize
    }
    fn judge<T: Display + ?Sized>(&self, v: &T, want: &str, what: &str) -> Res {
        judge(v, want, self.of(want), self.cut, self.recovers, what)
    }
}

fn human<T: EnumeratedCharProperty + Display + Copy + 'static>(s: &mut Src, room: &Room, what: &str) -> Res {
    let all = T::all_values();
    let v = all[s.below(all.len())];
    room.judge(&v, v.human_name(), &format!("{} {}", what, v.long_name()))
}

pub fn c29() -> Check {
    let bidi = Arc::new(BidiGen::new());
    static CCC: OnceLock<ByClass> = OnceLock::new();
    let marks = || CCC.get_or_init(|| ByClass::new("Canonical_Combining_Class"));
    marks();
    Check::new(
        "C29",
        "values that print, also in contexts that ask for a width, and sinks that refuse what exceeds any number of bytes, for good or once (non-trivial: the sink refuses something)",
    )
    .assume("reference: names as in C21, notation as in C27; the text of a normalizing iterator is that of the characters it yields (judged by C05)")
    .exhaustive("names and notations of every character", SCALARS, |i, r| {
        let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
        static NAMES: OnceLock<&'static crate::refdata::Prop> = OnceLock::new();
        let p = *NAMES.get_or_init(|| prop("Name"));
        r.case(&c);
        r.nontrivial(true);
        if let Some(n) = ref_name(p, c) {
            let v = Name::of(c).ok_or_else(|| format!("{:?} has no name", c))?;
            // any place within the name, another one for every character
            let room = (mix(i) % n.len() as u64) as usize;
            judge(&v, &n, room, i % 2 == 0, false, &format!("the name of {:?}", c))?;
        }
        let n = format!("U+{:04X}", c as u32);
        judge(&unicode_notation(c), &n, (mix(i ^ 7) % n.len() as u64) as usize, i % 2 == 1, false, "the notation")
    })
    .random("names and notations", 1_500_000, 15_000_000, |s, r| {
        static NAMES: OnceLock<&'static crate::refdata::Prop> = OnceLock::new();
        let p = *NAMES.get_or_init(|| prop("Name"));
        let c = match s.below(4) {
            0 => char::from_u32(s.range(0xac00, 0xd7a3) as u32).unwrap(),
            1 => edge_char(s),
            _ => s.any_char(),
        };
        let k = room(s);
        r.case(&(c, k.share, k.cut, k.recovers));
        r.nontrivial(k.share < 1000);
        if let Some(n) = ref_name(p, c) {
            let v = Name::of(c).ok_or_else(|| format!("{:?} has no name", c))?;
            k.judge(&v, &n, &format!("the name of {:?}", c))?;
        }
        k.judge(&unicode_notation(c), &format!("U+{:04X}", c as u32), "the notation")
    })
    .random("property values, versions, levels", 1_500_000, 15_000_000, |s, r| {
        let k = room(s);
        r.nontrivial(k.share < 1000);
        let kind = s.below(12);
        r.case(&(kind, k.share, k.cut, k.recovers));
        match kind {
            0 => human::<GeneralCategory>(s, &k, "General_Category"),
            1 => human::<BidiClass>(s, &k, "Bidi_Class"),
            2 => human::<GraphemeClusterBreak>(s, &k, "Grapheme_Cluster_Break"),
            3 => human::<WordBreak>(s, &k, "Word_Break"),
            4 => human::<SentenceBreak>(s, &k, "Sentence_Break"),
            5 => human::<DecompositionType>(s, &k, "Decomposition_Type"),
            6 => {
                let c = s.any_char();
                let v = unic::ucd::Alphabetic::of(c);
                k.judge(&v, if v.as_bool() { "Yes" } else { "No" }, "Alphabetic")
            }
            7 => {
                let by = CCC.get().unwrap();
                let c = by.char(s);
                let v = <CanonicalCombiningClass as TotalCharProperty>::of(c);
                k.judge(&v, &decimal(v.number()), &format!("the combining class of {:?}", c))
            }
            8 => {
                let n = s.below(127) as u8;
                k.judge(&Level::new(n).unwrap(), &decimal(n), "level")
            }
            _ => {
                let p = |s: &mut Src| if s.bool() { s.below(256) as u8 } else { s.pick(&[0, 1, 9, 10, 99, 100, 255]) };
                let v = UnicodeVersion { major: p(s), minor: p(s), micro: p(s) };
                r.note(|| format!("{:?}", v));
                let want = format!("{}.{}.{}", decimal(v.major), decimal(v.minor), decimal(v.micro));
                k.judge(&v, &want, "version")?;
                k.judge(&UnicodeVersion::from((v.major, v.minor, v.micro)), &want, "version of a tuple")
            }
        }
    })
    .random("normalizing iterators", 600_000, 6_000_000, move |s, r| {
        let by = CCC.get().unwrap();
        let piece = |s: &mut Src| match s.below(3) {
            0 => any_string(s, 12),
            1 => by.string(s, 12),
            _ => s
                .list(5, 12, |s| match s.below(4) {
                    0 => char::from_u32(s.range(0xac00, 0xd7a3) as u32).unwrap(),
                    1 => char::from_u32(s.range(0x1100, 0x11ff) as u32).unwrap(),
                    2 => char::from_u32(s.range(0xc0, 0x17f) as u32).unwrap(),
                    _ => char::from_u32(s.range(0x300, 0x345) as u32).unwrap(),
                })
                .into_iter()
                .collect(),
        };
        let t = if s.chance(1, 10) { long(s, 600, piece) } else { piece(s) };
        let k = room(s);
        let skip = if s.bool() { 0 } else { s.below(6) };
        r.case(&(&t, k.share, k.cut, k.recovers, skip));
        r.nontrivial(k.share < 1000 && !t.is_empty());
        r.note(|| esc(&t));
        macro_rules! form {
            ($($f:ident)*) => {{ $({
                let mut it = (&*t).$f();
                for _ in 0..skip {
                    it.next();
                }
                let want: String = it.clone().collect();
                k.judge(&it, &want, stringify!($f))?;
                // printing takes nothing away
                ensure_eq!(it.collect::<String>(), want, "{} after it was printed", stringify!($f));
                let mut it = t.chars().$f();
                for _ in 0..skip {
                    it.next();
                }
                k.judge(&it, &want, concat!(stringify!($f), " of an iterator"))?;
            })* }};
        }
        form!(nfd nfkd nfc nfkc);
        Ok(())
    })
    .random("bidi summaries", 200_000, 2_000_000, move |s, r| {
        let t = bidi.string(s, 30);
        let base = s.pick(&[None, None, Some(0), Some(1)]).map(|n| Level::new(n).unwrap());
        let k = room(s);
        r.case(&(&t, base.map(|b| b.number()), k.share, k.cut, k.recovers));
        r.nontrivial(k.share < 1000);
        let info = BidiInfo::new(&t, base);
        let text = info.to_string();
        let numbers: Vec<usize> =
            text.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let max = info.levels.iter().map(|l| l.number()).max().unwrap_or(0);
        ensure_eq!(numbers, [info.paragraphs.len(), max as usize], "numbers of paragraphs and highest level in {:?}", text);
        k.judge(&info, &text, "the summary")
    })
}

fn decimal(n: u8) -> String {
    let mut d = vec![];
    let mut v = n;
    loop {
        d.push((b'0' + v % 10) as char);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.iter().rev().collect()
}
