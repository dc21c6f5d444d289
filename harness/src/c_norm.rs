//! C05-C07: normalization.
use crate::gen::{differ, edge_char, esc, huge, long, Way};
use crate::norm_model::{is_hangul, norm, NormGen, FORMS};
use crate::pbt::*;
use crate::{ensure, ensure_eq};
use std::cell::Cell;
use std::iter;
use std::rc::Rc;
use std::sync::Arc;
use unic::normal::StrNormalForm;
use unic::ucd::normal::{compose, decompose_canonical, decompose_compatible, DecompositionType};
use unic_ucd_hangul::{compose_syllable, decompose_syllable, is_syllable};

fn real(s: &str, form: usize) -> String {
    match form {
        0 => s.nfd().collect(),
        1 => s.nfc().collect(),
        2 => s.nfkd().collect(),
        _ => s.nfkc().collect(),
    }
}

fn check_forms(t: &str) -> Res {
    for f in 0..4 {
        let want: String = norm().form(t.chars(), f).into_iter().collect();
        let got = real(t, f);
        if got != want {
            return Err(format!("{} of {}: got {}, expected {}", FORMS[f], esc(t), esc(&got), esc(&want)));
        }
    }
    Ok(())
}

pub fn c05() -> Check {
    let g = Arc::new(NormGen::new());
    let gh = g.clone();
    let g2 = g.clone();
    let n = norm();
    let (nf, ns) = (n.firsts.len() as u64, n.seconds.len() as u64);
    Check::new(
        "C05",
        "every character alone and in six contexts; every composable first with every composable second, adjacent and with a \
         mark between; random strings over marks drawn by combining class, composable characters, composites, excluded and \
         compatibility characters and Hangul; long strings with a part repeated up to 513 times. Oracle: the definitions D108-D117 on the whole string. Non-trivial: one of the \
         four forms differs from the string",
    )
    .assume("decompositions, combining classes and the exclusions: /verif/refdata (Unicode 10.0, cross-checked)")
    .every_char("every_char_in_context", move |c, r| {
        r.case(&c);
        r.nontrivial(norm().form([c], 2) != [c]);
        check_forms(&c.to_string())?;
        check_forms(&format!("a{c}\u{301}"))?;
        check_forms(&format!("{c}\u{300}\u{323}{c}"))?;
        check_forms(&format!("\u{301}{c}\u{5b0}{c}\u{1161}{c}\u{11a8}"))?;
        r.evals(4);
        Ok(())
    })
    .exhaustive("composition_pairs", nf * ns, move |i, r| {
        let n = norm();
        let (a, b) = (n.firsts[(i / ns) as usize], n.seconds[(i % ns) as usize]);
        r.case(&(a, b));
        r.nontrivial(true);
        check_forms(&format!("{a}{b}"))?;
        for m in ['\u{334}', '\u{31b}', '\u{323}', '\u{301}', '\u{345}', 'x', '\u{d4}'] {
            check_forms(&format!("{a}{m}{b}{m}"))?;
        }
        r.evals(8);
        Ok(())
    })
    .random("random_strings", 2_000_000, 40_000_000, move |s, r| {
        let t = g.string(s, 60);
        r.case(&t);
        let n = norm();
        let v: Vec<char> = t.chars().collect();
        r.nontrivial((0..4).any(|f| n.form(t.chars(), f) != v));
        check_forms(&t)
    })
    .random("huge_strings", 200, 6_000, move |s, r| {
        let (t, name) = huge(s, None, |s| gh.string(s, 10));
        r.case(&name);
        r.nontrivial(true);
        for f in 0..4 {
            let got: Vec<char> = real(&t, f).chars().collect();
            differ(FORMS[f], &got, &norm().form(t.chars(), f))?;
        }
        Ok(())
    })
    .random("long_strings", 30_000, 1_000_000, move |s, r| {
        // also long runs of marks, which are one unit for reordering and for composition
        let t = long(s, 4_000, |s| g2.string(s, 10));
        r.case(&t);
        let v: Vec<char> = t.chars().collect();
        r.nontrivial(norm().form(t.chars(), 3) != v);
        check_forms(&t)
    })
}

/// The rest of the iterator after `k` steps, in several ways, against `want`.
fn consume<I>(what: &str, mk: impl Fn() -> I, k: usize, want: &[char]) -> Res
where
    I: Iterator<Item = char> + Clone + std::fmt::Display,
{
    let mut it = mk();
    ensure_eq!(it.to_string(), want.iter().collect::<String>(), "{} printed", what);
    for j in 0..=want.len() {
        let (lo, hi) = it.size_hint();
        let left = want.len() - j;
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size hint {:?} with {} characters left", what, (lo, hi), left);
        if j == k {
            let c = it.clone();
            ensure_eq!(c.to_string(), want[j..].iter().collect::<String>(), "{}: clone printed after {} steps", what, j);
            let mut d = c.clone();
            let _ = d.next();
            ensure_eq!(c.collect::<Vec<_>>(), want[j..], "{}: clone after {} steps", what, j);
        }
        ensure_eq!(it.next(), want.get(j).copied(), "{}: step {}", what, j);
    }
    Ok(())
}

pub fn c06() -> Check {
    let g = Arc::new(NormGen::new());
    let gh = g.clone();
    let (g2, g3, g4) = (g.clone(), g.clone(), g.clone());
    let (g5, g6) = (g.clone(), g.clone());
    Check::new(
        "C06",
        "random strings over marks by class, composable and excluded characters, Hangul; random canonically equivalent \
         variants of them (decomposing, composing and reordering at random places), long ones too; every source kind, clone and print point; endless sources that count what is read. \
         Oracle: the algebraic laws of normalization and the collected result itself. Non-trivial: normalization changes the \
         string, or the equivalent variant differs from it",
    )
    .every_char("idempotent_chars", move |c, r| {
        r.case(&c);
        let t = c.to_string();
        for f in 0..4 {
            let o = real(&t, f);
            r.nontrivial(o != t);
            ensure_eq!(esc(&real(&o, f)), esc(&o), "{} applied twice", FORMS[f]);
        }
        Ok(())
    })
    .random("laws", 1_000_000, 20_000_000, move |s, r| {
        let t = g.string(s, 40);
        r.case(&t);
        let o: Vec<String> = (0..4).map(|f| real(&t, f)).collect();
        r.nontrivial(o.iter().any(|x| *x != t));
        for f in 0..4 {
            for h in 0..4 {
                // f after h: a D or C of anything canonical, a K form absorbs everything
                let want = match (f, h) {
                    (f, h) if f >= 2 || h < 2 => f,
                    (f, _) => f + 2, // NFD(NFKx) = NFKD, NFC(NFKx) = NFKC
                };
                ensure_eq!(esc(&real(&o[h], f)), esc(&o[want]), "{}({}(x)) is not {}(x) for x={}", FORMS[f], FORMS[h], FORMS[want], esc(&t));
            }
        }
        Ok(())
    })
    .random("equivalent_strings", 1_000_000, 20_000_000, move |s, r| {
        let t = g2.string(s, 30);
        let u = g2.equivalent(s, &t);
        r.case(&(&t, &u));
        r.nontrivial(t != u);
        for f in 0..4 {
            ensure_eq!(esc(&real(&u, f)), esc(&real(&t, f)), "{} of {} and of the equivalent {}", FORMS[f], esc(&u), esc(&t));
        }
        Ok(())
    })
    .random("huge_strings", 100, 3_000, move |s, r| {
        let (t, name) = huge(s, None, |s| gh.string(s, 10));
        r.case(&name);
        r.nontrivial(true);
        let v = |t: &str| -> Vec<char> { t.chars().collect() };
        let d = real(&t, 0);
        let c = real(&t, 1);
        differ("NFC of the NFD", &v(&real(&d, 1)), &v(&c))?;
        differ("NFD of the NFC", &v(&real(&c, 0)), &v(&d))?;
        differ("NFC twice", &v(&real(&c, 1)), &v(&c))?;
        differ("NFD twice", &v(&real(&d, 0)), &v(&d))?;
        differ("NFC of an iterator, printed", &v(&t.chars().nfc().to_string()), &v(&c))?;
        let mut it = t.nfd();
        let k = s.below(d.chars().count());
        let (lo, hi) = t.nfd().size_hint();
        let n = d.chars().count();
        ensure!(lo <= n && hi.map_or(true, |h| n <= h), "size hint {:?}, {} characters", (lo, hi), n);
        let mut parts: Vec<char> = it.by_ref().take(k).collect();
        let copy = it.clone();
        parts.extend(copy);
        differ("NFD with a clone", &parts, &v(&d))
    })
    .random("long_strings", 20_000, 600_000, move |s, r| {
        let t = long(s, 3_000, |s| g4.string(s, 10));
        let mut u = t.clone();
        for _ in 0..4 {
            u = g4.equivalent(s, &u);
        }
        r.case(&(&t, &u));
        r.nontrivial(t != u);
        for f in 0..4 {
            let o = real(&t, f);
            ensure_eq!(esc(&real(&u, f)), esc(&o), "{} of {} and of the equivalent {}", FORMS[f], esc(&u), esc(&t));
            ensure_eq!(esc(&real(&o, f)), esc(&o), "{} applied twice to {}", FORMS[f], esc(&t));
        }
        Ok(())
    })
    .random("iterator_methods", 600_000, 10_000_000, move |s, r| {
        let t = if s.chance(1, 20) { long(s, 2_500, |s| g5.string(s, 8)) } else { g5.string(s, 30) };
        let f = s.below(4);
        let want: Vec<char> = real(&t, f).chars().collect();
        let way = Way::any(s, want.len(), false);
        r.case(&(&t, f, way));
        r.nontrivial(want.iter().collect::<String>() != t && way.deep());
        r.class(way.name());
        match f {
            0 => way.check("NFD of a string", t.nfd(), &want)?,
            1 => way.check("NFC of a string", t.nfc(), &want)?,
            2 => way.check("NFKD of a string", t.nfkd(), &want)?,
            _ => way.check("NFKC of a string", t.nfkc(), &want)?,
        }
        let it = t.chars().filter(|_| true);
        match f {
            0 => way.check("NFD of an iterator", it.nfd(), &want),
            1 => way.check("NFC of an iterator", it.nfc(), &want),
            2 => way.check("NFKD of an iterator", it.nfkd(), &want),
            _ => way.check("NFKC of an iterator", it.nfkc(), &want),
        }
    })
    .random("endless_sources", 300_000, 6_000_000, move |s, r| {
        // texts between starters that take no part in any composition, and then nothing but those
        let parts: Vec<String> = (0..s.urange(1, 4)).map(|_| g6.string(s, 12)).collect();
        let f = s.below(4);
        r.case(&(&parts, f));
        let read = Rc::new(Cell::new(0usize));
        let text: Vec<char> = parts.iter().flat_map(|p| p.chars().chain("####".chars())).collect();
        let counted = read.clone();
        let len = text.len();
        let source = text.into_iter().chain(iter::repeat('#')).inspect(move |_| {
            counted.set(counted.get() + 1);
            assert!(counted.get() < len + 200, "reads on and on");
        });
        let mut it: Box<dyn Iterator<Item = char>> = match f {
            0 => Box::new(source.nfd()),
            1 => Box::new(source.nfc()),
            2 => Box::new(source.nfkd()),
            _ => Box::new(source.nfkc()),
        };
        ensure!(read.get() <= 4, "{} reads {} characters when it is made", FORMS[f], read.get());
        let mut end = 0;
        for (i, p) in parts.iter().enumerate() {
            // marks at the start of a part follow the last '#' of the part before
            let want = real(&if i == 0 { p.clone() } else { format!("#{p}") }, f);
            let got: String = it.by_ref().take(want.chars().count()).collect();
            ensure_eq!(esc(&got), esc(&want), "{} of an endless text, part {} of {:?}", FORMS[f], i, parts.iter().map(|p| esc(p)).collect::<Vec<_>>());
            end += p.chars().count() + 4;
            ensure!(
                read.get() <= end,
                "{} reads {} characters before it gives the text of the first {}, {:?}", FORMS[f], read.get(), end - 4, parts.iter().map(|p| esc(p)).collect::<Vec<_>>()
            );
            r.nontrivial(*p != want);
            ensure_eq!(it.by_ref().take(3).collect::<String>(), "###", "{} of an endless text", FORMS[f]);
        }
        Ok(())
    })
    .random("consumption", 400_000, 8_000_000, move |s, r| {
        let t = g3.string(s, 30);
        let f = s.below(4);
        let want: Vec<char> = real(&t, f).chars().collect();
        let k = s.below(want.len() + 1);
        r.case(&(&t, f, k));
        r.nontrivial(want.iter().collect::<String>() != t && k > 0);
        let v: Vec<char> = t.chars().collect();
        match f {
            0 => {
                consume("str", || t.nfd(), k, &want)?;
                consume("chars", || t.chars().nfd(), k, &want)?;
                consume("iterator", || v.iter().copied().nfd(), k, &want)?;
                consume("filtered", || v.iter().copied().filter(|_| true).nfd(), k, &want)
            }
            1 => {
                consume("str", || t.nfc(), k, &want)?;
                consume("chars", || t.chars().nfc(), k, &want)?;
                consume("iterator", || v.iter().copied().nfc(), k, &want)?;
                consume("filtered", || v.iter().copied().filter(|_| true).nfc(), k, &want)
            }
            2 => {
                consume("str", || t.nfkd(), k, &want)?;
                consume("chars", || t.chars().nfkd(), k, &want)?;
                consume("iterator", || v.iter().copied().nfkd(), k, &want)?;
                consume("filtered", || v.iter().copied().filter(|_| true).nfkd(), k, &want)
            }
            _ => {
                consume("str", || t.nfkc(), k, &want)?;
                consume("chars", || t.chars().nfkc(), k, &want)?;
                consume("iterator", || v.iter().copied().nfkc(), k, &want)?;
                consume("filtered", || v.iter().copied().filter(|_| true).nfkc(), k, &want)
            }
        }
    })
}

pub fn c07() -> Check {
    let g = Arc::new(NormGen::new());
    let n = norm();
    // every first that takes part in a composition, with every character; and vice versa
    let nf = n.firsts.len() as u64;
    let jamo = |r: std::ops::Range<u32>| r.map(|v| char::from_u32(v).unwrap()).collect::<Vec<_>>();
    let hs: Vec<char> = [jamo(0x10F8..0x1128), jamo(0x1158..0x1180), jamo(0x11A0..0x11D0)].concat();
    let syl: Vec<char> = jamo(0xABF0..0xD7A8).into_iter().chain(hs.iter().copied()).collect();
    let (nsyl, nhs) = (syl.len() as u64, hs.len() as u64);
    Check::new(
        "C07",
        "every character's full decompositions; every character after every composable first and before every composable \
         second; every Hangul syllable and jamo with every jamo and their neighbours; random pairs. Oracle: the Unicode 10.0 \
         decomposition data and exclusions, and the Hangul arithmetic. Non-trivial: the character has a decomposition, or \
         the pair is one of a composable first and second (or of Hangul)",
    )
    .assume("decompositions, combining classes and the exclusions: /verif/refdata (Unicode 10.0, cross-checked)")
    .every_char("decompositions", |c, r| {
        r.case(&c);
        let n = norm();
        for k in [false, true] {
            let mut want = vec![];
            n.full(c, k, &mut want);
            let mut got = vec![];
            if k {
                decompose_compatible(c, |x| got.push(x));
            } else {
                decompose_canonical(c, |x| got.push(x));
            }
            ensure_eq!(got, want, "full decomposition of U+{:04X}, compatible={}", c as u32, k);
            r.nontrivial(want != [c]);
        }
        let can = is_hangul(c) || !n.canon_of(c).is_empty();
        ensure_eq!(DecompositionType::of(c) == Some(DecompositionType::Canonical), can, "canonical decomposition type of U+{:04X}", c as u32);
        ensure_eq!(DecompositionType::of(c).is_some(), can || !n.compat_of(c).is_empty(), "decomposition type of U+{:04X}", c as u32);
        ensure_eq!(is_syllable(c), is_hangul(c), "is_syllable U+{:04X}", c as u32);
        if is_hangul(c) {
            let mut d = vec![];
            decompose_syllable(c, &mut |x| d.push(x));
            let mut want = vec![];
            n.full(c, false, &mut want);
            ensure_eq!(d, want, "decompose_syllable");
            let lv = compose_syllable(d[0], d[1]).ok_or("no LV")?;
            let back = if d.len() == 3 { compose_syllable(lv, d[2]).ok_or("no LVT")? } else { lv };
            ensure_eq!(back, c, "compose_syllable does not invert decompose_syllable");
        }
        // composition inverts the canonical pair decomposition
        let d = n.canon_of(c);
        if d.len() == 2 {
            let want = n.comp.get(&(d[0], d[1])).copied();
            ensure_eq!(compose(d[0], d[1]), want, "compose the decomposition of U+{:04X}", c as u32);
        }
        Ok(())
    })
    .exhaustive("hangul_pairs", nsyl * nhs, move |i, r| {
        let (a, b) = (syl[(i / nhs) as usize], hs[(i % nhs) as usize]);
        r.case(&(a, b));
        r.nontrivial(true);
        let want = norm().pair(a, b);
        ensure_eq!(compose(a, b), want, "compose");
        // compose_syllable is the Hangul part of it
        ensure_eq!(compose_syllable(a, b), want.filter(|c| is_hangul(*c)), "compose_syllable");
        Ok(())
    })
    .every_char("with_every_second", |c, r| {
        r.case(&c);
        let n = norm();
        r.evals(n.seconds.len() as u64);
        r.nontrivial(n.firsts.binary_search(&c).is_ok());
        for &b in &n.seconds {
            ensure_eq!(compose(c, b), n.pair(c, b), "compose(U+{:04X}, U+{:04X})", c as u32, b as u32);
        }
        Ok(())
    })
    .exhaustive("after_every_first", nf * 0x110, |i, r| {
        let n = norm();
        let a = n.firsts[(i / 0x110) as usize];
        let lo = (i % 0x110) as u32 * 0x1000;
        r.case(&(a, lo));
        r.nontrivial(n.seconds.iter().any(|b| (lo..lo + 0x1000).contains(&(*b as u32))));
        let mut e = 0;
        for b in (lo..lo + 0x1000).filter_map(char::from_u32) {
            e += 1;
            let got = compose(a, b);
            if got.is_some() || n.seconds.binary_search(&b).is_ok() {
                ensure_eq!(got, n.pair(a, b), "compose(U+{:04X}, U+{:04X})", a as u32, b as u32);
            }
        }
        r.evals(e);
        Ok(())
    })
    .random("random_pairs", 10_000_000, 50_000_000, move |s, r| {
        let (a, b) = match s.below(3) {
            0 => (s.any_char(), s.any_char()),
            1 => (g.char(s), g.char(s)),
            _ => (edge_char(s), g.char(s)),
        };
        r.case(&(a, b));
        let want = norm().pair(a, b);
        r.nontrivial(want.is_some() || norm().seconds.binary_search(&b).is_ok());
        ensure_eq!(compose(a, b), want, "compose(U+{:04X}, U+{:04X})", a as u32, b as u32);
        Ok(())
    })
}
