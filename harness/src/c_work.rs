//! C31: the work a call does grows in proportion to the length of its text.
use crate::c_bidi::BidiGen;
use crate::c_idna::{flags, DomainGen};
use crate::ensure;
use crate::gen::{edge_char, esc, ByClass, KNOWN};
use crate::norm_model::NormGen;
use crate::pbt::*;
use std::hint::black_box;
use std::sync::Arc;
use unic::bidi::{BidiInfo, Level, ParagraphInfo};
use unic::normal::StrNormalForm;
use unic::segment::{GraphemeCursor, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};
use unic::ucd;
use unic_idna_punycode as puny;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread, in seconds.
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

/// (Reordering a line looks at, and gives the levels of, the whole text.)
fn longest<'a>(i: &'a BidiInfo<'_>) -> Option<&'a ParagraphInfo> {
    i.paragraphs.iter().max_by_key(|p| p.range.len())
}

type Op = (&'static str, fn(&str) -> usize);
const BACKWARD_WORDS: [&str; 2] = ["word boundaries backward", "word boundary indices backward"];
const OPS: &[Op] = &[
    ("nfd", |t| t.nfd().count()),
    ("nfc", |t| t.nfc().count()),
    ("nfkd", |t| t.nfkd().count()),
    ("nfkc", |t| t.nfkc().count()),
    ("nfc printed", |t| t.chars().nfc().to_string().len()),
    ("nfkd printed", |t| t.chars().nfkd().to_string().len()),
    ("graphemes", |t| Graphemes::new(t).count()),
    ("graphemes backward", |t| Graphemes::new(t).rev().count()),
    ("legacy graphemes", |t| Graphemes::new_legacy(t).count()),
    ("legacy graphemes backward", |t| GraphemeIndices::new_legacy(t).rev().count()),
    ("one cursor forward", |t| {
        let mut c = GraphemeCursor::new(0, t.len());
        let mut n = 0;
        while let Ok(Some(i)) = c.next_boundary(t, 0) {
            n += i;
        }
        n
    }),
    ("one cursor backward", |t| {
        let mut c = GraphemeCursor::new(t.len(), t.len());
        let mut n = 0;
        while let Ok(Some(i)) = c.prev_boundary(t, 0) {
            n += i;
        }
        n
    }),
    ("word boundaries", |t| WordBounds::new(t).count()),
    (BACKWARD_WORDS[0], |t| WordBounds::new(t).rev().count()),
    ("word boundary indices", |t| WordBoundIndices::new(t).count()),
    (BACKWARD_WORDS[1], |t| WordBoundIndices::new(t).rev().count()),
    ("words", |t| Words::new(t, |w: &&str| w.chars().any(ucd::is_alphabetic)).count()),
    ("bidi levels", |t| BidiInfo::new(t, None).levels.len()),
    ("bidi levels from the right", |t| BidiInfo::new(t, Some(Level::rtl())).levels.len()),
    ("bidi order", |t| {
        let i = BidiInfo::new(t, None);
        longest(&i).map_or(0, |p| i.reorder_line(p, p.range.clone()).len())
    }),
    ("bidi runs", |t| {
        let i = BidiInfo::new(t, Some(Level::ltr()));
        longest(&i).map_or(0, |p| i.visual_runs(p, p.range.clone()).1.len())
    }),
    ("punycode", |t| puny::encode_str(t).map_or(0, |x| x.len())),
    ("to_ascii", |t| unic::idna::to_ascii(t, flags(0)).map_or(0, |x| x.len())),
    ("to_ascii, all flags", |t| unic::idna::to_ascii(t, flags(7)).map_or(0, |x| x.len())),
    ("to_unicode", |t| unic::idna::to_unicode(t, flags(0)).0.len()),
    ("to_unicode, all flags", |t| unic::idna::to_unicode(t, flags(7)).0.len()),
];

fn time(f: fn(&str) -> usize, t: &str) -> f64 {
    let a = cpu();
    black_box(f(black_box(t)));
    cpu() - a
}
fn best(f: fn(&str) -> usize, t: &str, n: usize) -> f64 {
    (0..n).map(|_| time(f, t)).fold(f64::MAX, f64::min)
}

/// Pieces of a few characters, and how to put many of them together.
#[derive(Debug, Hash)]
struct Shape {
    start: String,
    units: Vec<String>,
    order: usize,
    end: String,
}
impl Shape {
    /// About `n` characters.
    fn text(&self, n: usize) -> String {
        let mut t = self.start.clone();
        let k = self.units.len();
        let chars: usize = self.units.iter().map(|u| u.chars().count()).sum();
        let times = n / chars.max(1);
        match self.order {
            // all in turn
            0 => (0..times).for_each(|_| self.units.iter().for_each(|u| t.push_str(u))),
            // many of each
            1 => self.units.iter().for_each(|u| (0..times).for_each(|_| t.push_str(u))),
            // in any order
            _ => {
                let mut rng = Rng::new(self.order as u64);
                (0..times * k).for_each(|_| t.push_str(&self.units[(rng.next() % k as u64) as usize]))
            }
        }
        t.push_str(&self.end);
        t
    }
}

struct Gen {
    norm: NormGen,
    bidi: BidiGen,
    idna: DomainGen,
    gcb: ByClass,
    wb: ByClass,
}
impl Gen {
    fn char(&self, s: &mut Src, kind: usize) -> char {
        match kind {
            0 => self.norm.mark(s),
            1 => self.norm.char(s),
            2 => self.norm.hangul(s),
            3 => self.gcb.char(s),
            4 => self.wb.char(s),
            5 => self.bidi.string(s, 4).chars().next().unwrap_or('('),
            6 => s.pick(KNOWN),
            7 => self.idna.domain(s).chars().last().unwrap_or('.'),
            _ => edge_char(s),
        }
    }
    fn unit(&self, s: &mut Src, kind: usize) -> String {
        let n = s.pick(&[1, 1, 2, 2, 3, 4]);
        (0..n).map(|_| self.char(s, kind)).collect()
    }
    fn shape(&self, s: &mut Src, op: usize) -> Shape {
        // the kinds of characters that the operation tells apart
        let kinds: &[usize] = match op {
            0..=5 => &[0, 0, 1, 1, 2, 6, 8],
            6..=11 => &[3, 3, 3, 6, 4],
            12..=16 => &[4, 4, 4, 6, 3],
            17..=20 => &[5, 5, 5, 6],
            _ => &[7, 7, 1, 5, 6, 0],
        };
        let units = (0..s.pick(&[1, 1, 2, 2, 3])).map(|_| { let k = s.pick(kinds); self.unit(s, k) }).collect();
        let some = |s: &mut Src| if s.chance(1, 3) { let k = s.pick(kinds); self.unit(s, k) } else { String::new() };
        Shape { start: some(s), units, order: s.below(4), end: some(s) }
    }
}
fn flag(c: char) -> bool {
    ('\u{1f1e6}'..='\u{1f1ff}').contains(&c)
}

pub fn c31() -> Check {
    let g = Gen { norm: NormGen::new(), bidi: BidiGen::new(), idna: DomainGen::new(), gcb: ByClass::new("Grapheme_Cluster_Break"), wb: ByClass::new("Word_Break") };
    let g = Arc::new(g);
    Check::new(
        "C31",
        "texts of 500, 4 000, 32 000 (and, where that takes over 30 ms, 256 000) characters, made of one to three generated pieces \
         in turn, one after the other or in any order, given to 26 calls (normalization, segmentation in both directions, bidi, \
         IDNA, punycode encoding). Oracle: CPU time; for a text eight times as long a call must take less than 24 times as \
         long, where that is over 50 ms (measured five times before it counts). Non-trivial: every case",
    )
    .assume("punycode decoding is left out: it inserts characters one by one, wherever they belong")
    .random("eight times the text", 40_000, 600_000, move |s, r| {
        let op = s.below(OPS.len());
        let (name, f) = OPS[op];
        let mut shape = g.shape(s, op);
        if op > 21 {
            // labels that are decoded are short
            let mapped: String = shape.text(100).nfkc().filter(|c| *c != '\u{ad}').collect::<String>().to_lowercase();
            if mapped.contains('-') || mapped.contains('n') {
                shape.units.push(".".into());
                shape.order = 0;
            }
        }
        let slow_known = BACKWARD_WORDS.contains(&name) && shape.units.iter().any(|u| u.contains(flag));
        if slow_known && !s.chance(1, 40) {
            r.excluded("backward-words-flags");
            return Ok(());
        }
        r.case(&(op, &shape));
        r.nontrivial(true);
        let what = |m: usize| format!("{} of {} characters, {:?} (order {})", name, m, shape.units.iter().map(|u| esc(u)).collect::<Vec<_>>(), shape.order);
        let mut small = 500;
        let mut last = time(f, &shape.text(small));
        // (and no further where a fault would take minutes to show)
        while small < 32_000 || (small == 32_000 && last > 0.03 && last < 0.5) {
            let now = time(f, &shape.text(small * 8));
            if now > 24.0 * last && now > 0.05 {
                break;
            }
            last = now;
            small *= 8;
        }
        if small > 32_000 {
            r.class("measured up to 256000");
            return Ok(());
        }
        if small == 32_000 {
            return Ok(());
        }
        r.class("measured again");
        let (ts, tl) = (shape.text(small), shape.text(small * 8));
        let mut a = 0f64;
        let mut b = f64::MAX;
        for _ in 0..4 {
            a = a.max(best(f, &ts, 2));
            b = b.min(time(f, &tl));
        }
        let says = format!("{} takes {:.3} s, and {:.4} s for {}", what(small * 8), b, a, small);
        if b > 24.0 * a && b > 0.05 {
            if slow_known {
                r.known("backward-words-flags", says);
            } else {
                ensure!(false, "{}", says);
            }
        }
        Ok(())
    })
}
