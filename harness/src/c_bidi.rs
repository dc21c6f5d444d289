//! C08-C11: the bidirectional algorithm.
use crate::bidi_model::{self as m, C};
use crate::gen::{differ, esc, huge, long, short, ByClass};
use crate::pbt::*;
use crate::{ensure, ensure_eq};
use std::sync::{Arc, OnceLock};
use unic::bidi::{BidiInfo, Level};
use unic::char::property::EnumeratedCharProperty;

/// Strings that exercise the algorithm: palettes of classes, nesting of formatting characters, brackets.
pub struct BidiGen {
    by: ByClass,
    brackets: Vec<char>,
}
const FORMAT: [char; 9] = ['\u{202a}', '\u{202b}', '\u{202c}', '\u{202d}', '\u{202e}', '\u{2066}', '\u{2067}', '\u{2068}', '\u{2069}'];
impl BidiGen {
    pub fn new() -> BidiGen {
        BidiGen { by: ByClass::new("Bidi_Class"), brackets: m::brackets() }
    }
    fn text(&self, s: &mut Src, max: usize) -> String {
        let strong = ['a', '\u{5d0}', '\u{627}', '1', '\u{661}', '.', '+', '%', ' ', '!', '\u{300}', '\u{ad}', '\u{e9}', '\u{10330}', '\u{1e900}', '\u{10800}'];
        match s.below(6) {
            0 | 1 => self.by.string(s, max),
            // formatting-heavy
            2 => {
                let fmt: Vec<char> = (0..s.urange(1, 4)).map(|_| s.pick(&FORMAT)).collect();
                let txt: Vec<char> = (0..s.urange(1, 3)).map(|_| s.pick(&strong)).collect();
                s.list(12, max, |s| if s.bool() { s.pick(&fmt) } else { s.pick(&txt) }).into_iter().collect()
            }
            // brackets
            3 => {
                let br: Vec<char> = if s.bool() { vec!['(', ')', '[', ']'] } else { (0..4).map(|_| s.pick(&self.brackets)).collect() };
                let txt: Vec<char> = (0..s.urange(1, 4)).map(|_| s.pick(&strong)).collect();
                s.list(12, max, |s| if s.bool() { s.pick(&br) } else { s.pick(&txt) }).into_iter().collect()
            }
            // several paragraphs
            4 => {
                let seps = ['\n', '\u{2029}', '\r', '\u{85}'];
                s.list(15, max, |s| match s.below(6) {
                    0 => s.pick(&seps),
                    1 => s.pick(&FORMAT),
                    2 => ' ',
                    _ => s.pick(&strong),
                })
                .into_iter()
                .collect()
            }
            // mixed
            _ => s
                .list(20, max, |s| match s.below(5) {
                    0 => s.pick(&FORMAT),
                    1 => s.pick(&self.brackets),
                    2 => s.pick(&strong),
                    _ => self.by.char(s),
                })
                .into_iter()
                .collect(),
        }
    }
    /// Nesting around the depth limit.
    fn deep(&self, s: &mut Src) -> String {
        let mut o = String::new();
        let opens: Vec<char> = (0..s.urange(1, 3)).map(|_| s.pick(&['\u{202a}', '\u{202b}', '\u{202d}', '\u{202e}', '\u{2066}', '\u{2067}', '\u{2068}'])).collect();
        let n = s.urange(50, 135);
        for _ in 0..n {
            o.push(s.pick(&opens));
            if s.chance(1, 12) {
                o.push(s.pick(&['a', '\u{5d0}', '1', ' ', '\u{202c}', '\u{2069}']));
            }
        }
        for _ in 0..s.urange(0, 12) {
            o.push(s.pick(&['a', '\u{5d0}', '\u{661}', '1', ' ', '\u{202c}', '\u{2069}', '\u{202b}', '\u{2067}', '\u{202a}', '\u{2066}']));
        }
        let k = s.below(n + 20);
        let closes = if s.bool() { vec!['\u{202c}'] } else if s.bool() { vec!['\u{2069}'] } else { vec!['\u{202c}', '\u{2069}'] };
        for _ in 0..k {
            o.push(s.pick(&closes));
            if s.chance(1, 12) {
                o.push(s.pick(&['a', '\u{5d0}', '1', ' ']));
            }
        }
        o
    }
    pub fn string(&self, s: &mut Src, max: usize) -> String {
        if s.chance(1, 40) {
            self.deep(s)
        } else {
            self.text(s, max)
        }
    }
}
impl BidiGen {
    pub fn far(&self, s: &mut Src, max: usize) -> String {
        long(s, max, |s| self.text(s, 12))
    }
}
pub fn base(s: &mut Src) -> Option<u8> {
    s.pick(&[None, Some(0u8), Some(1)])
}
fn lib<'t>(t: &'t str, b: Option<u8>) -> BidiInfo<'t> {
    BidiInfo::new(t, b.map(|b| Level::new(b).unwrap()))
}
fn nums(l: &[Level]) -> Vec<u8> {
    l.iter().map(|l| l.number()).collect()
}
fn nontrivial(t: &str) -> bool {
    t.chars().any(|c| !matches!(m::class_of(c), C::L | C::ON | C::WS))
}

fn check_paragraphs(t: &str, b: Option<u8>) -> Res {
    let cs: Vec<char> = t.chars().collect();
    let mut at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    at.push(t.len());
    let want = m::paragraphs(&cs, b);
    let bi = lib(t, b);
    ensure!(std::ptr::eq(bi.text, t), "text of {} is {}", esc(t), esc(bi.text));
    let got: Vec<_> = bi.paragraphs.iter().map(|p| (p.range.start, p.range.end, p.level.number())).collect();
    let exp: Vec<_> = want.iter().map(|p| (at[p.start], at[p.end], p.level)).collect();
    ensure_eq!(got, exp, "paragraphs of {} with base {:?}", esc(t), b);
    ensure_eq!(bi.original_classes.len(), t.len(), "number of classes of {}", esc(t));
    for p in &want {
        for i in p.start..p.end {
            for k in at[i]..at[i + 1] {
                let c = bi.original_classes[k].abbr_name();
                ensure_eq!(c, m::name(p.cls[i - p.start]), "class at byte {} of {}", k, esc(t));
            }
        }
    }
    Ok(())
}

/// UAX #9, section 2: the directional formatting characters.
const FORMAT_CHARS: [(&str, char, char); 12] = {
    use unic_bidi::format_chars as f;
    [
        ("ALM", f::ALM, '\u{61c}'),
        ("LRM", f::LRM, '\u{200e}'),
        ("RLM", f::RLM, '\u{200f}'),
        ("LRI", f::LRI, '\u{2066}'),
        ("RLI", f::RLI, '\u{2067}'),
        ("FSI", f::FSI, '\u{2068}'),
        ("PDI", f::PDI, '\u{2069}'),
        ("LRE", f::LRE, '\u{202a}'),
        ("RLE", f::RLE, '\u{202b}'),
        ("PDF", f::PDF, '\u{202c}'),
        ("LRO", f::LRO, '\u{202d}'),
        ("RLO", f::RLO, '\u{202e}'),
    ]
};

pub fn c08() -> Check {
    let g = Arc::new(BidiGen::new());
    let gh = g.clone();
    let g3 = g.clone();
    let by = Arc::new(ByClass::new("Bidi_Class"));
    let n = by.seq_count(tier(4, 5)) * 3;
    Check::new(
        "C08",
        "every character alone; every sequence of up to 4 (thorough: 5) bidi classes under no, left-to-right and right-to-left base; random \
         strings over small palettes of classes, formatting characters, brackets, several paragraphs, nesting up to 135 deep, long ones with a part repeated up to 513 times. \
         Oracle: rules P1-P3 and X5c. Non-trivial: some class other than L, ON, WS",
    )
    .assume("Bidi_Class: /verif/refdata; the code points of the finding default-bn (C19) are taken as L, as in the library")
    .every_char("every_char", |c, r| {
        r.case(&c);
        r.nontrivial(nontrivial(c.encode_utf8(&mut [0; 4])));
        check_paragraphs(&format!("{c}a"), None)?;
        check_paragraphs(&format!("\u{2068}{c}\u{2069}\u{5d0}{c}"), None)
    })
    .exhaustive("named_characters", FORMAT_CHARS.len() as u64, |i, r| {
        let (name, got, want) = FORMAT_CHARS[i as usize];
        r.case(&name);
        r.nontrivial(true);
        if got != want {
            return Err(format!("unic_bidi::format_chars::{name} is {got:?}, not {want:?}"));
        }
        Ok(())
    })
    .exhaustive("class_sequences", n, move |i, r| {
        let t = by.seq(i / 3);
        let b = [None, Some(0), Some(1)][(i % 3) as usize];
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        check_paragraphs(&t, b)
    })
    .random("random_strings", 4_000_000, 60_000_000, move |s, r| {
        let t = g.string(s, 60);
        let b = base(s);
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        if t.chars().any(|c| c == '\u{2068}') {
            r.class("with_fsi");
        }
        check_paragraphs(&t, b)
    })
    .random("huge_strings", 200, 6_000, move |s, r| {
        let apart = s.pick(&[None, Some((300, "\u{2029}")), Some((20_000, "a\n"))]);
        let (t, name) = huge(s, apart, |s| gh.text(s, 12));
        let b = base(s);
        r.case(&(name, b));
        r.nontrivial(true);
        check_paragraphs(&t, b).map_err(short)
    })
    .random("long_strings", 60_000, 1_000_000, move |s, r| {
        let t = g3.far(s, 3_000);
        let b = base(s);
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        check_paragraphs(&t, b)
    })
}

/// Which of the recorded deviations the tree under test has: for each of them, short texts on which it
/// alone makes a difference. Every text must then come out as the rules say, or as the rules with
/// exactly these deviations say.
fn deviations() -> usize {
    static D: OnceLock<usize> = OnceLock::new();
    *D.get_or_init(|| {
        let by = ByClass::new("Bidi_Class");
        let mut found = [0; 4];
        let mut bits = 0;
        let brackets = ["a(\u{5d0})", "\u{5d0}(a)", "(\u{5d0})a", "1(\u{5d0})a", "\u{5d0}[a]1", "[\u{5d0}a]b"];
        let some = (0..by.seq_count(4)).map(|i| by.seq(i)).chain(brackets.iter().flat_map(|t| [t.to_string(), format!("b{t}"), format!("{t}\u{5d1}")]));
        for t in some {
            let cs: Vec<char> = t.chars().collect();
            for b in [0u8, 1] {
                let ps = m::paragraphs(&cs, Some(b));
                if ps.len() != 1 {
                    continue;
                }
                let want = m::levels(&cs, &ps[0], m::dev(0));
                let all = m::levels(&cs, &ps[0], m::dev(15));
                if want == all {
                    continue;
                }
                for k in 0..4 {
                    if found[k] < 50 && m::levels(&cs, &ps[0], m::dev(1 << k)) == all && m::levels(&cs, &ps[0], m::dev(15 ^ (1 << k))) == want {
                        found[k] += 1;
                        let got = catch(|| nums(&lib(&t, Some(b)).levels));
                        if let Ok(got) = got {
                            if t.char_indices().zip(&all).all(|((i, _), l)| got.get(i) == Some(l)) {
                                bits |= 1 << k;
                            }
                        }
                    }
                }
            }
        }
        for (k, key) in m::DEV_KEYS.iter().enumerate() {
            assert!(found[k] >= 3, "no text shows {} alone", key);
        }
        bits
    })
}

/// Compares with the rules; if they differ, with the recorded deviations.
fn check_levels(t: &str, b: Option<u8>, r: &mut Rep) -> Res {
    let cs: Vec<char> = t.chars().collect();
    let mut at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    at.push(t.len());
    let bi = lib(t, b);
    ensure_eq!(bi.levels.len(), t.len(), "number of levels of {}", esc(t));
    let got = nums(&bi.levels);
    ensure_eq!(bi.has_rtl(), got.iter().any(|l| l % 2 == 1), "has_rtl of {}", esc(t));
    ensure!(got.iter().all(|l| *l <= 126), "level too great in {}: {:?}", esc(t), got);
    for p in m::paragraphs(&cs, b) {
        let mut mine = vec![];
        for i in p.start..p.end {
            mine.push(got[at[i]]);
            for k in at[i]..at[i + 1] {
                ensure_eq!(got[k], got[at[i]], "level at byte {} of {}, base {:?}", k, esc(t), b);
            }
        }
        let want = m::levels(&cs, &p, m::dev(0));
        if mine == want {
            continue;
        }
        // the recorded deviations that this tree shows at all, and nothing in between
        let here = deviations();
        let mut order: Vec<usize> = (1..16).filter(|b| b & !here == 0).collect();
        order.sort_by_key(|b| (b.count_ones(), *b));
        let explained = here != 0 && m::levels(&cs, &p, m::dev(here)) == mine;
        match order.into_iter().find(|bits| explained && m::levels(&cs, &p, m::dev(*bits)) == mine) {
            Some(bits) => {
                for (k, key) in m::DEV_KEYS.iter().enumerate() {
                    if bits & (1 << k) != 0 {
                        let detail = if t.len() > 10_000 {
                            format!("levels of a text of {} bytes (base {:?}), paragraph {}..{}", t.len(), b, at[p.start], at[p.end])
                        } else {
                            format!("levels of {} (base {:?}): got {:?}, expected {:?}", esc(t), b, mine, want)
                        };
                        r.known(key, detail);
                    }
                }
            }
            None => {
                return Err(format!(
                    "levels of {} with base {:?}, paragraph from character {}: got {:?}, expected {:?}",
                    esc(t), b, p.start, mine, want
                ))
            }
        }
    }
    Ok(())
}

pub fn c09() -> Check {
    let g = Arc::new(BidiGen::new());
    let gh = g.clone();
    let (g2, g3) = (g.clone(), g.clone());
    let by = Arc::new(ByClass::new("Bidi_Class"));
    let n = by.seq_count(tier(4, 5)) * 3;
    Check::new(
        "C09",
        "every sequence of up to 4 (thorough: 5) bidi classes under no, left-to-right and right-to-left base; random strings over small \
         palettes of classes, formatting characters, brackets, several paragraphs, nesting up to 135 deep, long ones with a part repeated up to 513 times; paragraphs alone and \
         in company. Oracle: UAX #9 rules X1-I2 as separate passes, one level per character. Non-trivial: some class other than \
         L, ON, WS",
    )
    .assume("Bidi_Class: /verif/refdata; the code points of the finding default-bn (C19) are taken as L, as in the library")
    .assume("a character removed by X9 has the level of the character before it, or the paragraph level")
    .exhaustive("class_sequences", n, move |i, r| {
        let t = by.seq(i / 3);
        let b = [None, Some(0), Some(1)][(i % 3) as usize];
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        check_levels(&t, b, r)
    })
    .random("random_strings", 4_000_000, 60_000_000, move |s, r| {
        let t = g.string(s, 60);
        let b = base(s);
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        check_levels(&t, b, r)
    })
    .random("deep_nesting", 60_000, 1_500_000, move |s, r| {
        let t = g2.deep(s);
        let b = base(s);
        r.case(&(&t, b));
        r.nontrivial(true);
        check_levels(&t, b, r)
    })
    .random("huge_strings", 150, 5_000, move |s, r| {
        let apart = s.pick(&[None, Some((300, "\u{2029}")), Some((20_000, "a\n"))]);
        let (t, name) = huge(s, apart, |s| gh.text(s, 12));
        let b = base(s);
        r.case(&(name, b));
        r.nontrivial(true);
        check_levels(&t, b, r).map_err(short)
    })
    .random("long_strings", 40_000, 1_000_000, move |s, r| {
        let t = g3.far(s, 3_000);
        let b = base(s);
        r.case(&(&t, b));
        r.nontrivial(nontrivial(&t));
        check_levels(&t, b, r)
    })
}

/// L2 by its definition: from the highest level to the lowest odd one, reverse every maximal run.
fn l2_runs(line: &[(usize, usize, u8)]) -> Vec<(usize, usize, u8)> {
    let mut v = line.to_vec();
    let hi = v.iter().map(|x| x.2).max().unwrap_or(0);
    for l in (1..=hi).rev() {
        let mut i = 0;
        while i < v.len() {
            if v[i].2 >= l {
                let mut j = i;
                while j < v.len() && v[j].2 >= l {
                    j += 1;
                }
                v[i..j].reverse();
                i = j;
            } else {
                i += 1;
            }
        }
    }
    v
}

fn check_line(t: &str, bi: &BidiInfo, pi: usize, from: usize, to: usize, r: &mut Rep) -> Res {
    let para = &bi.paragraphs[pi];
    let line = from..to;
    let what = || format!("line {:?} of {}, paragraph level {}, levels {:?}", line, esc(t), para.level.number(), nums(&bi.levels));
    let before = nums(&bi.levels);
    let (lv, runs) = bi.visual_runs(para, line.clone());
    let lv = nums(&lv);
    ensure_eq!(nums(&bi.reordered_levels(para, line.clone())), lv, "reordered levels, {}", what());
    let per_char: Vec<u8> = t.char_indices().map(|x| lv[x.0]).collect();
    ensure_eq!(nums(&bi.reordered_levels_per_char(para, line.clone())), per_char, "levels per character, {}", what());
    ensure_eq!(lv.len(), t.len(), "number of reordered levels, {}", what());
    // L1
    let cs: Vec<(usize, char, C)> = t[line.clone()].char_indices().map(|(i, c)| (from + i, c, m::class_of(c))).collect();
    let mut reset = vec![false; cs.len()];
    let mut pending: Vec<usize> = vec![];
    for (k, &(_, _, c)) in cs.iter().enumerate() {
        match c {
            C::B | C::S => {
                reset[k] = true;
                pending.drain(..).for_each(|p| reset[p] = true);
            }
            C::WS | C::FSI | C::LRI | C::RLI | C::PDI => pending.push(k),
            c if m::removed(c) => pending.push(k),
            _ => pending.clear(),
        }
    }
    pending.drain(..).for_each(|p| reset[p] = true);
    for (k, &(i, ch, c)) in cs.iter().enumerate() {
        for j in i..i + ch.len_utf8() {
            let want = if reset[k] { para.level.number() } else { before[j] };
            // the level of a removed character is not specified: either is right
            let ok = lv[j] == want || (m::removed(c) && (lv[j] == before[j] || lv[j] == para.level.number()));
            ensure!(ok, "level at byte {}: got {}, expected {}; {}", j, lv[j], want, what());
            ensure_eq!(lv[j], lv[i], "level at byte {}, {}", j, what());
        }
    }
    for j in (0..from).chain(to..t.len()) {
        ensure_eq!(lv[j], before[j], "level outside the line at byte {}, {}", j, what());
    }
    // L2
    let mut log: Vec<(usize, usize, u8)> = vec![];
    for i in from..to {
        match log.last_mut() {
            Some(x) if x.2 == lv[i] => x.1 = i + 1,
            _ => log.push((i, i + 1, lv[i])),
        }
    }
    let want: Vec<_> = l2_runs(&log).iter().map(|x| x.0..x.1).collect();
    ensure_eq!(runs, want, "visual runs, {}", what());
    let mut out = String::new();
    for run in &want {
        if lv[run.start] % 2 == 1 {
            out.extend(t[run.clone()].chars().rev());
        } else {
            out.push_str(&t[run.clone()]);
        }
    }
    let got = bi.reorder_line(para, line.clone());
    ensure_eq!(esc(&got), esc(&out), "reordered line, {}", what());
    if !lv[line.clone()].iter().any(|l| l % 2 == 1) {
        ensure_eq!(&got[..], &t[line.clone()], "line without right-to-left levels, {}", what());
    } else {
        r.class("rtl_line");
        r.nontrivial(want.len() > 1);
    }
    Ok(())
}

pub fn c10() -> Check {
    let g = Arc::new(BidiGen::new());
    let gh = g.clone();
    let by = Arc::new(ByClass::new("Bidi_Class"));
    let n = by.seq_count(tier(4, 5)) * 2;
    let lines = Arc::new(move |s: &mut Src, r: &mut Rep, far: bool| -> Res {
        let t = if far { g.far(s, 3_000) } else { g.string(s, 60) };
        let b = base(s);
        let bi = lib(&t, b);
        let mut lines = vec![];
        for pi in 0..bi.paragraphs.len() {
            let p = bi.paragraphs[pi].range.clone();
            let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).filter(|x| *x >= p.start && *x <= p.end).collect();
            let a = if s.bool() { 0 } else { s.below(at.len() - 1) };
            let z = if s.bool() { at.len() - 1 } else { s.urange(a + 1, at.len() - 1) };
            lines.push((pi, at[a], at[z]));
        }
        r.case(&(&t, b, &lines));
        for (pi, a, z) in lines {
            check_line(&t, &bi, pi, a, z, r)?;
        }
        Ok(())
    });
    let l2 = lines.clone();
    Check::new(
        "C10",
        "every sequence of up to 4 (thorough: 5) bidi classes with all its lines; random strings (several paragraphs, formatting characters, \
         brackets, deep nesting, long ones) with random lines of every paragraph. Oracle: L1 and L2 by their definitions, from the levels \
         the analysis itself resolved. Non-trivial: a line with a right-to-left level and at least two runs",
    )
    .assume("the level of a character removed by X9 may be reset by L1 or not")
    .exhaustive("class_sequences", n, move |i, r| {
        let t = by.seq(i / 2);
        let b = [Some(0), Some(1)][(i % 2) as usize];
        r.case(&(&t, b));
        let bi = lib(&t, b);
        for pi in 0..bi.paragraphs.len() {
            let p = bi.paragraphs[pi].range.clone();
            let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).filter(|x| *x >= p.start && *x <= p.end).collect();
            for a in 0..at.len() {
                for z in a + 1..at.len() {
                    check_line(&t, &bi, pi, at[a], at[z], r)?;
                }
            }
        }
        Ok(())
    })
    .random("random_lines", 3_000_000, 40_000_000, move |s, r| lines(s, r, false))
    .random("huge_lines", 100, 4_000, move |s, r| {
        let apart = s.pick(&[None, Some((300, "\u{2029}")), Some((20_000, "a\n"))]);
        let (t, name) = huge(s, apart, |s| gh.text(s, 12));
        let b = base(s);
        r.case(&(name, b));
        r.nontrivial(true);
        let bi = lib(&t, b);
        for _ in 0..4 {
            let pi = match s.below(3) {
                0 => 0,
                1 => bi.paragraphs.len() - 1,
                _ => s.below(bi.paragraphs.len()),
            };
            let p = bi.paragraphs[pi].range.clone();
            let mut from = if s.bool() { p.start } else { s.urange(p.start, p.end - 1) };
            while !t.is_char_boundary(from) {
                from -= 1;
            }
            let mut to = if s.bool() { p.end } else { s.urange(from + 1, p.end) };
            while !t.is_char_boundary(to) {
                to += 1;
            }
            check_line(&t, &bi, pi, from, to, r).map_err(short)?;
        }
        Ok(())
    })
    .random("long_lines", 30_000, 1_000_000, move |s, r| l2(s, r, true))
}
pub fn c11() -> Check {
    use unic::bidi::level;
    fn mk(n: u16) -> Option<u8> {
        if n <= 126 { Some(n as u8) } else { None }
    }
    Check::new(
        "C11",
        "every level and every amount; every number; every JSON number around the limits; random histories of raising and \
         lowering; random level lists. Oracle: integer arithmetic with the limits 125 and 126. Non-trivial: a limit is crossed, \
         or the history changes the level",
    )
    .exhaustive("every_level_and_amount", 127 * 256, |i, r| {
        let (l, a) = ((i / 256) as u8, (i % 256) as u8);
        r.case(&(l, a));
        let lv = Level::new(l).map_err(|e| format!("level {} refused: {:?}", l, e))?;
        r.nontrivial(l as u16 + a as u16 > 125 || a > l);
        let sum = l as u16 + a as u16;
        let mut x = lv;
        ensure_eq!(x.raise(a).is_ok(), sum <= 126, "raise {} by {}", l, a);
        ensure_eq!(x.number() as u16, if sum <= 126 { sum } else { l as u16 }, "raise {} by {}", l, a);
        let mut x = lv;
        ensure_eq!(x.raise_explicit(a).is_ok(), sum <= 125, "raise_explicit {} by {}", l, a);
        ensure_eq!(x.number() as u16, if sum <= 125 { sum } else { l as u16 }, "raise_explicit {} by {}", l, a);
        let mut x = lv;
        ensure_eq!(x.lower(a).is_ok(), a <= l, "lower {} by {}", l, a);
        ensure_eq!(x.number(), if a <= l { l - a } else { l }, "lower {} by {}", l, a);
        Ok(())
    })
    .exhaustive("every_number", 256, |i, r| {
        let n = i as u8;
        r.case(&n);
        r.nontrivial(n > 124);
        ensure_eq!(Level::new(n).ok().map(|l| l.number()), mk(n as u16), "new({})", n);
        ensure_eq!(Level::new_explicit(n).ok().map(|l| l.number()), mk(n as u16).filter(|x| *x <= 125), "new_explicit({})", n);
        if let Err(e) = Level::new(n) {
            ensure_eq!(e, level::Error::OutOfRangeNumber, "error of new({})", n);
        }
        let json = serde_json::from_str::<Level>(&n.to_string());
        if n > 126 {
            // the recorded defect: no check when a level is read back
            match json {
                Err(_) => {}
                Ok(l) => r.known("level-deserialize-unchecked", format!("the serialized number {} reads back as level {}", n, l.number())),
            }
            return catch(|| Level::from(n)).map_or(Ok(()), |l| Err(format!("Level::from({}) gave {}", n, l.number())));
        }
        let l = Level::new(n).unwrap();
        ensure_eq!(json.ok().map(|l| l.number()), Some(n), "{} read back", n);
        ensure_eq!(serde_json::to_string(&l).unwrap(), n.to_string(), "{} serialized", n);
        ensure_eq!(Level::from(n), l, "from({})", n);
        let back: u8 = l.into();
        ensure_eq!(back, n, "into u8");
        ensure_eq!(l.to_string(), n.to_string(), "printed");
        ensure!(l.is_rtl() == (n % 2 == 1) && l.is_ltr() == (n % 2 == 0), "direction of {}", n);
        ensure_eq!(l.bidi_class().abbr_name(), if n % 2 == 1 { "R" } else { "L" }, "class of {}", n);
        let next = |odd: u8| (n + 1..=125).find(|x| x % 2 == odd);
        ensure_eq!(l.new_explicit_next_ltr().ok().map(|l| l.number()), next(0), "next LTR of {}", n);
        ensure_eq!(l.new_explicit_next_rtl().ok().map(|l| l.number()), next(1), "next RTL of {}", n);
        ensure_eq!(l.new_lowest_ge_rtl().ok().map(|l| l.number()), (n..=126).find(|x| x % 2 == 1), "lowest RTL from {}", n);
        for k in 0..=126u8 {
            let o = Level::new(k).unwrap();
            ensure_eq!(l.cmp(&o), n.cmp(&k), "{} against {}", n, k);
            ensure_eq!(l == o, n == k, "{} against {}", n, k);
            ensure_eq!(l == k.to_string(), n == k, "{} against text {}", n, k);
            ensure_eq!(l == k.to_string().as_str(), n == k, "{} against text {}", n, k);
        }
        ensure!(l == "x" && l == "x".to_string(), "{} against x", n);
        ensure!(Level::max_implicit_depth() == 126 && Level::max_explicit_depth() == 125, "limits");
        ensure!(Level::ltr().number() == 0 && Level::rtl().number() == 1, "constants");
        Ok(())
    })
    .exhaustive("numbers_read_back", 140_000 + 4 * 66, |i, r| {
        use serde::de::value::{Error, I64Deserializer, SeqDeserializer, U16Deserializer, U32Deserializer, U64Deserializer, U8Deserializer};
        use serde::de::IntoDeserializer;
        use serde::Deserialize;
        // from -70000 on, and around the powers of two
        let n: i128 = if i < 140_000 {
            i as i128 - 70_000
        } else {
            let (k, sign) = ((i - 140_000) / 4, (i & 1) as i128);
            ((1i128 << k) - (i as i128 >> 1 & 1)) * (1 - 2 * sign)
        };
        r.case(&n);
        let want = if (0..=126).contains(&n) { Some(n as u8) } else { None };
        r.nontrivial(want.is_none());
        let judge = |how: &str, got: Option<Level>| -> Res {
            ensure_eq!(got.map(|l| l.number()), want, "{} read back as {}", n, how);
            Ok(())
        };
        judge("JSON text", serde_json::from_str(&n.to_string()).ok())?;
        judge("JSON list", serde_json::from_str::<Vec<Level>>(&format!("[3, {}]", n)).ok().map(|v| v[1]))?;
        judge("JSON option", serde_json::from_str::<Option<Level>>(&n.to_string()).ok().map(|v| v.unwrap()))?;
        judge("JSON value", serde_json::to_value(n).ok().and_then(|v| serde_json::from_value(v).ok()))?;
        // elsewhere it may be refused, but never come out wrong
        let lenient = |how: &str, got: Result<Level, Error>| -> Res {
            got.map_or(Ok(()), |l| judge(how, Some(l)))
        };
        macro_rules! typed {
            ($($t:ident $d:ident),*) => {$(
                if let Ok(n) = $t::try_from(n) {
                    let d: $d<Error> = n.into_deserializer();
                    lenient(stringify!($t), Level::deserialize(d))?;
                    lenient(concat!("list of ", stringify!($t)), Level::deserialize(SeqDeserializer::new(vec![n].into_iter())))?;
                }
            )*};
        }
        typed!(u8 U8Deserializer, u16 U16Deserializer, u32 U32Deserializer, u64 U64Deserializer, i64 I64Deserializer);
        // what is no number
        for text in [format!("\"{}\"", n), format!("{}.5", n), format!("{}e2", n.abs() + 1), format!("[[{}]]", n), format!("{{\"0\":{}}}", n)] {
            if let Ok(l) = serde_json::from_str::<Level>(&text) {
                // an exponent may still denote a small number to some reader
                ensure!(l.number() <= 126 && text.contains('e'), "{} reads back as level {}", text, l.number());
            }
        }
        Ok(())
    })
    .random("long_lists", 40_000, 800_000, |s, r| {
        let n = if s.bool() { s.below(80) } else { s.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]) };
        let mut list: Vec<u8> = (0..n).map(|k| (k * 37 % 63 * 2) as u8).collect();
        let mut odd = vec![];
        for _ in 0..s.below(3) {
            if n > 0 {
                let k = match s.below(4) {
                    0 => 0,
                    1 => n - 1,
                    _ => s.below(n),
                };
                list[k] = (s.below(63) * 2 + 1) as u8;
                odd.push((k, list[k]));
            }
        }
        r.case(&(n, &odd));
        r.nontrivial(!odd.is_empty());
        let ls = Level::vec(&list);
        differ("Level::vec", &nums(&ls), &list)?;
        ensure_eq!(level::has_rtl(&ls), !odd.is_empty(), "has_rtl of {} levels with the odd ones {:?}", n, odd);
        Ok(())
    })
    .random("histories", 2_000_000, 20_000_000, |s, r| {
        let start = s.below(127) as u8;
        let ops = s.list(6, 30, |s| (s.below(5), if s.bool() { s.below(4) as u8 } else { s.below(256) as u8 }));
        r.case(&(start, &ops));
        let mut l = Level::new(start).unwrap();
        let mut v = start as i32;
        for (k, (op, a)) in ops.iter().enumerate() {
            let a32 = *a as i32;
            let (res, want) = match op {
                0 => (l.raise(*a).is_ok(), Some(v + a32).filter(|x| *x <= 126)),
                1 => (l.raise_explicit(*a).is_ok(), Some(v + a32).filter(|x| *x <= 125)),
                2 => (l.lower(*a).is_ok(), Some(v - a32).filter(|x| *x >= 0)),
                3 => (l.new_explicit_next_ltr().map(|n| l = n).is_ok(), (v + 1..=125).find(|x| x % 2 == 0)),
                _ => (l.new_explicit_next_rtl().map(|n| l = n).is_ok(), (v + 1..=125).find(|x| x % 2 == 1)),
            };
            ensure_eq!(res, want.is_some(), "step {} of {:?} from {}", k, ops, start);
            r.nontrivial(want.map_or(true, |w| w != v));
            v = want.unwrap_or(v);
            ensure_eq!(l.number() as i32, v, "after step {} of {:?} from {}", k, ops, start);
        }
        let list: Vec<u8> = ops.iter().map(|o| o.1 % 127).collect();
        let ls = Level::vec(&list);
        ensure_eq!(nums(&ls), list, "Level::vec");
        ensure_eq!(level::has_rtl(&ls), list.iter().any(|x| x % 2 == 1), "has_rtl of {:?}", list);
        let back: Vec<Level> = serde_json::from_str(&serde_json::to_string(&ls).unwrap()).map_err(|e| e.to_string())?;
        ensure_eq!(back, ls, "serialized list");
        Ok(())
    })
}

/// Random paragraphs with the reference levels, to compare the reference with another implementation.
pub fn dump(n: u64) {
    let g = BidiGen::new();
    for i in 0..n {
        let mut s = Src::random(mix(i));
        let t = g.string(&mut s, 60);
        let b = base(&mut s);
        let cs: Vec<char> = t.chars().collect();
        if cs.iter().any(|c| m::is_default_bn(*c)) {
            continue;
        }
        for p in m::paragraphs(&cs, b) {
            let hex: Vec<String> = cs[p.start..p.end].iter().map(|c| format!("{:X}", *c as u32)).collect();
            let lv: Vec<String> = m::levels(&cs, &p, m::dev(0)).iter().map(|l| l.to_string()).collect();
            println!("{}\t{}\t{}\t{}", b.map_or(-1, |b| b as i32), p.level, hex.join(" "), lv.join(" "));
        }
    }
}
