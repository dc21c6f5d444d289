//! C16-C18, C27: character ranges, their iterators, table lookup, code point notation.
use crate::gen::{edge_char, Way, EDGES};
use crate::c_ucd::SCALARS;
use crate::pbt::*;
use crate::{ensure, ensure_eq};
use rayon::prelude::*;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::ops::Bound;
use unic_char_property::tables::CharDataTable;
use unic_char_range::{chars, CharIter, CharRange};

const N: u32 = 0x11_0000 - 0x800;
/// The position of a character among all scalar values.
fn pos(c: char) -> u32 {
    let v = c as u32;
    if v >= 0xE000 {
        v - 0x800
    } else {
        v
    }
}
fn at(p: u32) -> char {
    char::from_u32(if p >= 0xD800 { p + 0x800 } else { p }).unwrap()
}

/// A set of consecutive scalar values, as positions [a, b).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Span {
    a: u32,
    b: u32,
}
impl Span {
    fn new(a: u32, b: u32) -> Span {
        if a >= b {
            Span { a: 0, b: 0 }
        } else {
            Span { a, b }
        }
    }
    fn len(&self) -> usize {
        (self.b - self.a) as usize
    }
    fn has(&self, c: char) -> bool {
        (self.a..self.b).contains(&pos(c))
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Ctor {
    Closed,
    Open,
    OpenLeft,
    OpenRight,
    Bound(u8, u8),
    MacroClosed,
    MacroOpen,
    All,
    MacroAll,
    Planes,
    Literal,
}
const CTORS: &[Ctor] = &[
    Ctor::Closed,
    Ctor::Open,
    Ctor::OpenLeft,
    Ctor::OpenRight,
    Ctor::MacroClosed,
    Ctor::MacroOpen,
    Ctor::Literal,
    Ctor::Bound(0, 0),
    Ctor::Bound(0, 1),
    Ctor::Bound(0, 2),
    Ctor::Bound(1, 0),
    Ctor::Bound(1, 1),
    Ctor::Bound(1, 2),
    Ctor::Bound(2, 0),
    Ctor::Bound(2, 1),
    Ctor::Bound(2, 2),
    Ctor::All,
    Ctor::MacroAll,
    Ctor::Planes,
];
fn bound(k: u8, c: char) -> Bound<char> {
    match k {
        0 => Bound::Included(c),
        1 => Bound::Excluded(c),
        _ => Bound::Unbounded,
    }
}
fn make(k: Ctor, lo: char, hi: char) -> (CharRange, Span) {
    let (p, q) = (pos(lo), pos(hi));
    match k {
        Ctor::Closed => (CharRange::closed(lo, hi), Span::new(p, q + 1)),
        Ctor::Literal => (CharRange { low: lo, high: hi }, Span::new(p, q + 1)),
        Ctor::MacroClosed => (chars!(lo..=hi), Span::new(p, q + 1)),
        Ctor::Open => (CharRange::open(lo, hi), Span::new(p + 1, q)),
        Ctor::OpenLeft => (CharRange::open_left(lo, hi), Span::new(p + 1, q + 1)),
        Ctor::OpenRight => (CharRange::open_right(lo, hi), Span::new(p, q)),
        Ctor::MacroOpen => (chars!(lo..hi), Span::new(p, q)),
        Ctor::Bound(x, y) => {
            let a = match x {
                0 => p,
                1 => p + 1,
                _ => 0,
            };
            let b = match y {
                0 => q + 1,
                1 => q,
                _ => N,
            };
            (CharRange::bound(bound(x, lo), bound(y, hi)), Span::new(a, b))
        }
        Ctor::All => (CharRange::all(), Span::new(0, N)),
        Ctor::MacroAll => (chars!(..), Span::new(0, N)),
        Ctor::Planes => (CharRange::assigned_normal_planes(), Span::new(0, pos('\u{2FFFF}') + 1)),
    }
}

fn judge_range(r: &CharRange, s: &Span, probes: &[char], iterate: bool) -> Res {
    ensure_eq!(r.len(), s.len(), "len of {:?}", r);
    ensure_eq!(r.is_empty(), s.len() == 0, "is_empty of {:?}", r);
    for &c in probes {
        ensure_eq!(r.contains(c), s.has(c), "{:?} contains {:?}", r, c);
        if s.len() == 0 && c != probes[0] {
            continue; // once is enough: it panics, which is slow
        }
        let o = catch(|| r.cmp_char(c));
        if s.len() == 0 {
            ensure!(o != Ok(Ordering::Equal), "an empty range compares Equal to {:?}", c);
        } else {
            let want = if pos(c) < s.a {
                Ordering::Greater
            } else if pos(c) >= s.b {
                Ordering::Less
            } else {
                Ordering::Equal
            };
            ensure_eq!(o, Ok(want), "{:?}.cmp_char({:?})", r, c);
        }
    }
    if iterate {
        let mut n = s.a;
        for c in r.iter() {
            ensure!(n < s.b && at(n) == c, "iterating {:?} yields {:?} as number {}", r, c, n - s.a);
            n += 1;
        }
        ensure_eq!(n, s.b, "end of iteration of {:?}", r);
        let mut n = s.b;
        for c in r.into_iter().rev() {
            ensure!(n > s.a && at(n - 1) == c, "iterating {:?} backwards yields {:?} at {} from the end", r, c, s.b - n);
            n -= 1;
        }
        ensure_eq!(n, s.a, "end of backward iteration of {:?}", r);
    }
    Ok(())
}

/// The characters around a position.
fn around(p: u32) -> Vec<char> {
    (p.saturating_sub(2)..=(p + 2).min(N - 1)).map(at).collect()
}
fn near(s: &mut Src) -> char {
    match s.below(5) {
        0 => edge_char(s),
        1 => s.any_char(),
        2 => s.range('a' as u64, 'f' as u64) as u8 as char,
        3 => at(0xD7FA + s.below(12) as u32),
        _ => {
            let e = pos(edge_char(s)) as i64 + s.below(7) as i64 - 3;
            at(e.clamp(0, N as i64 - 1) as u32)
        }
    }
}
fn near_pair(s: &mut Src) -> (char, char) {
    let lo = near(s);
    let hi = match s.below(3) {
        0 => near(s),
        _ => {
            let n = s.pick(&[2u64, 8, 70, 3000]);
            let d = s.raw(n) as i64 - s.chance(1, 4) as i64 * 3;
            at((pos(lo) as i64 + d).clamp(0, N as i64 - 1) as u32)
        }
    };
    (lo, hi)
}

pub fn c16() -> Check {
    let e = EDGES.len() as u64;
    Check::new("C16", "the range is not empty, or its bounds cross or touch (an empty range that must be recognised as such)")
        .assume("char ordering of the standard library is scalar value ordering")
        .exhaustive("edge_pairs", e * e * CTORS.len() as u64, move |i, r| {
            let k = CTORS[(i / (e * e)) as usize];
            let lo = char::from_u32(EDGES[(i / e % e) as usize]).unwrap();
            let hi = char::from_u32(EDGES[(i % e) as usize]).unwrap();
            r.case(&(k, lo, hi));
            r.nontrivial(true);
            let (cr, sp) = make(k, lo, hi);
            let mut probes: Vec<char> = EDGES.iter().map(|&x| char::from_u32(x).unwrap()).collect();
            probes.extend(around(sp.a));
            probes.extend(around(sp.b));
            judge_range(&cr, &sp, &probes, sp.len() < 3000)
        })
        .exhaustive("every_neighbour", N as u64, |i, r| {
            // every character as a bound: the ranges of one, two and no characters around it
            let c = at(i as u32);
            r.case(&c);
            r.nontrivial(true);
            let d = at((i as u32 + 1).min(N - 1));
            let pr = around(i as u32);
            for k in [Ctor::Closed, Ctor::Open, Ctor::OpenLeft, Ctor::OpenRight, Ctor::Bound(0, 2), Ctor::Bound(2, 1), Ctor::Bound(1, 2)] {
                for (lo, hi) in [(c, c), (c, d), (d, c)] {
                    let (cr, sp) = make(k, lo, hi);
                    judge_range(&cr, &sp, &pr, sp.len() < 5)?;
                }
            }
            Ok(())
        })
        .exhaustive("whole_ranges", 3, |i, r| {
            let k = [Ctor::All, Ctor::MacroAll, Ctor::Planes][i as usize];
            r.case(&k);
            r.nontrivial(true);
            let (cr, sp) = make(k, 'a', 'b');
            judge_range(&cr, &sp, &[], true)
        })
        .random("random_ranges", 3_000_000, 20_000_000, |s, r| {
            let k = s.pick(CTORS);
            let (lo, hi) = near_pair(s);
            let k2 = s.pick(CTORS);
            let (lo2, hi2) = if s.bool() { near_pair(s) } else { (lo, hi) };
            r.case(&(k, lo, hi, k2, lo2, hi2));
            let (cr, sp) = make(k, lo, hi);
            let (cr2, sp2) = make(k2, lo2, hi2);
            r.nontrivial(sp.len() > 0 || pos(lo) <= pos(hi) + 1);
            r.class(match sp.len() {
                0 => "empty",
                1 => "one",
                _ if sp.a < 0xD800 && sp.b > 0xD800 => "across the surrogates",
                _ => "more",
            });
            let mut probes = around(sp.a);
            probes.extend(around(sp.b));
            probes.push(near(s));
            judge_range(&cr, &sp, &probes, sp.len() < 400)?;
            ensure_eq!(cr == cr2, sp == sp2, "{:?} == {:?}", cr, cr2);
            ensure_eq!(cr2 == cr, sp == sp2, "{:?} == {:?}", cr2, cr);
            // through an iterator and back
            let it: CharIter = cr.into();
            let back: CharRange = it.into();
            ensure!(back == cr, "{:?} through an iterator is {:?}", cr, back);
            Ok(())
        })
}

// ---------------------------------------------------------------- C17

/// How many characters to skip, with `left` of them there.
fn jump(s: &mut Src, left: u32) -> usize {
    let left = left as usize;
    // what is far takes long where every character is stepped over
    let far = if left < 5_000 { s.chance(1, 4) } else { s.chance(1, 400) };
    if !far {
        return if s.bool() { s.below(4) } else { s.below(left + 2) }.min(5000);
    }
    let near_end = (left + s.below(5)).saturating_sub(2);
    match s.below(4) {
        0 => near_end,
        // what is left of it in fewer bits is little
        1 => s.pick(&[1usize << 8, 1 << 16, 1 << 20, 1 << 21, 1 << 31, 1 << 32, 1 << 33, 1 << 63]) + s.below(left.min(30) + 2),
        2 => usize::MAX - s.below(4),
        _ => s.below(left + 2),
    }
}

fn judge_history(s: &mut Src, r: &mut Rep) -> Res {
    let k = s.pick(CTORS);
    let (lo, hi) = near_pair(s);
    let (cr, sp) = make(k, lo, hi);
    let mut it = cr.iter();
    let (mut a, mut b) = (sp.a, sp.b);
    let mut hist = format!("{:?} {:?}..{:?}:", k, lo, hi);
    let n = s.urange(0, 24);
    let mut exhausted = false;
    let mut saved: Option<(CharIter, u32, u32)> = None;
    for _ in 0..n {
        let op = s.below(15);
        let left = b - a;
        macro_rules! step {
            ($name:expr, $got:expr, $want:expr) => {{
                hist.push_str(&format!(" {}", $name));
                let got = catch(|| $got);
                let want = $want;
                ensure!(got.as_ref() == Ok(&want), "after{} [{} left]: got {:?}, expected {:?}", hist, left, got, want);
            }};
        }
        match op {
            0 | 1 => step!("next", it.next(), if left > 0 { a += 1; Some(at(a - 1)) } else { None }),
            2 | 3 => step!("next_back", it.next_back(), if left > 0 { b -= 1; Some(at(b)) } else { None }),
            4 => {
                let j = jump(s, left);
                step!(format!("nth({})", j), it.nth(j), if j < left as usize { a += j as u32 + 1; Some(at(a - 1)) } else { a = b; None })
            }
            5 => {
                let j = jump(s, left);
                step!(format!("nth_back({})", j), it.nth_back(j), if j < left as usize { b -= j as u32 + 1; Some(at(b)) } else { b = a; None })
            }
            6 => {
                step!("len", it.len(), left as usize);
                step!("size_hint", it.size_hint(), (left as usize, Some(left as usize)));
            }
            7 => {
                step!("clone.last", it.clone().last(), if left > 0 { Some(at(b - 1)) } else { None });
                step!("clone.min", it.clone().min(), if left > 0 { Some(at(a)) } else { None });
                step!("clone.max", it.clone().max(), if left > 0 { Some(at(b - 1)) } else { None });
            }
            8 => {
                // drain to within a few of the end, or past it
                let j = (left.saturating_sub(s.below(4) as u32)).min(6000);
                hist.push_str(&format!(" take({})", j));
                let got: Vec<char> = it.by_ref().take(j as usize).collect();
                let want: Vec<char> = (a..a + j).map(at).collect();
                ensure_eq!(got, want, "after{}", hist);
                a += j;
            }
            9 => {
                let j = (left.saturating_sub(s.below(4) as u32)).min(6000);
                hist.push_str(&format!(" rev.take({})", j));
                let got: Vec<char> = it.by_ref().rev().take(j as usize).collect();
                let want: Vec<char> = (b - j..b).rev().map(at).collect();
                ensure_eq!(got, want, "after{}", hist);
                b -= j;
            }
            10 => {
                hist.push_str(" range");
                let back: CharRange = it.clone().into();
                judge_range(&back, &Span::new(a, b), &around(a), left < 50).map_err(|e| format!("after{}: {}", hist, e))?;
                it = back.iter();
            }
            11 => {
                hist.push_str(" clone");
                let old = saved.replace((it.clone(), a, b));
                if let Some((i, x, y)) = old {
                    it = i;
                    (a, b) = (x, y);
                }
            }
            12 => {
                // stops at a character inside, before or behind what is left
                let k = if s.bool() { left.min(3000) } else { s.below(left.min(3000) as usize + 1) as u32 };
                let hit = if k < left { Some(at(a + k)) } else { None };
                let c = if a + k < N { at(a + k) } else { char::MAX };
                if hit.is_none() && (left > 5_000 || a + k == N) {
                    continue;
                }
                match s.below(3) {
                    0 => step!(format!("find({:?})", c), it.find(|x| *x >= c), { a = if hit.is_some() { a + k + 1 } else { b }; hit }),
                    1 => step!(format!("position({:?})", c), it.position(|x| x == c), { a = if hit.is_some() { a + k + 1 } else { b }; hit.map(|_| k as usize) }),
                    _ => step!(format!("any({:?})", c), it.any(|x| x == c), { a = if hit.is_some() { a + k + 1 } else { b }; hit.is_some() }),
                }
            }
            13 => {
                let k = if s.bool() { left.min(3000) } else { s.below(left.min(3000) as usize + 1) as u32 };
                if k >= left && left > 5_000 {
                    continue;
                }
                let hit = if k < left { Some(at(b - 1 - k)) } else { None };
                let c = hit.unwrap_or(if b < N { at(b) } else { at(0) });
                let absent = hit.is_none() && a <= pos(c) && pos(c) < b;
                if absent {
                    continue;
                }
                match s.below(3) {
                    0 => step!(format!("rfind({:?})", c), it.rfind(|x| *x == c), { b = if hit.is_some() { b - 1 - k } else { a }; hit }),
                    1 => step!(format!("rposition({:?})", c), it.rposition(|x| x == c), { let n = b - a; b = if hit.is_some() { b - 1 - k } else { a }; hit.map(|_| (n - 1 - k) as usize) }),
                    _ => step!(format!("rev.all({:?})", c), it.by_ref().rev().all(|x| x != c), { b = if hit.is_some() { b - 1 - k } else { a }; hit.is_none() }),
                }
            }
            _ => {
                if left <= 3000 {
                    step!("clone.count", it.clone().count(), left as usize);
                    step!("clone.fold", it.clone().fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(c as u64)), (a..b).fold(0u64, |h, p| h.wrapping_mul(31).wrapping_add(at(p) as u64)));
                    let j = s.urange(1, 5);
                    step!(format!("clone.step_by({})", j), it.clone().step_by(j).collect::<Vec<_>>(), (a..b).step_by(j).map(at).collect::<Vec<_>>());
                    step!("clone.rfold", it.clone().rfold(vec![], |mut v, c| { v.push(c); v }), (a..b).rev().map(at).collect::<Vec<_>>());
                }
            }
        }
        exhausted |= a == b && sp.len() > 0;
    }
    r.case(&hist);
    r.nontrivial(exhausted || (n > 2 && sp.len() > 1));
    r.class(if exhausted { "exhausted" } else if sp.len() == 0 { "empty" } else { "open" });
    // what is left
    if b - a < 3000 {
        let mut rest: VecDeque<char> = (a..b).map(at).collect();
        while let Some(c) = if s.bool() { it.next().inspect(|_| a += 1) } else { it.next_back().inspect(|_| b -= 1) } {
            ensure!(a <= b, "more characters than expected after{}", hist);
            let want = if rest.front() == Some(&c) { rest.pop_front() } else { rest.pop_back() };
            ensure_eq!(Some(c), want, "the rest after{}", hist);
            ensure_eq!(it.len(), rest.len(), "length of the rest after{}", hist);
        }
        ensure!(rest.is_empty(), "{} characters missing at the end, after{}", rest.len(), hist);
        for _ in 0..3 {
            ensure_eq!(it.next(), None, "next of an exhausted iterator, after{}", hist);
            ensure_eq!(it.next_back(), None, "next_back of an exhausted iterator, after{}", hist);
            ensure_eq!(it.len(), 0, "len of an exhausted iterator, after{}", hist);
        }
    }
    Ok(())
}

fn judge_parallel(cr: CharRange, sp: Span, s: &mut Src) -> Res {
    let want: Vec<char> = (sp.a..sp.b).map(at).collect();
    ensure_eq!(cr.into_par_iter().len(), want.len(), "parallel len of {:?}", cr);
    let mode = s.below(11);
    let got: Vec<char>;
    let mut exp = want;
    match mode {
        0 => got = cr.into_par_iter().collect(),
        1 => got = (&cr).into_par_iter().collect(),
        2 => {
            let m = s.urange(1, 40);
            got = cr.into_par_iter().with_max_len(m).collect();
        }
        3 => {
            got = cr.into_par_iter().rev().collect();
            exp.reverse();
        }
        4 => {
            let (x, y) = (s.below(exp.len() + 2), s.below(exp.len() + 2));
            got = cr.into_par_iter().skip(x).take(y).collect();
            exp = exp.into_iter().skip(x).take(y).collect();
        }
        5 => {
            // an unindexed consumer: order kept, some dropped
            got = cr.into_par_iter().filter(|c| (*c as u32) % 3 != 0).collect();
            exp.retain(|c| (*c as u32) % 3 != 0);
        }
        6 => {
            let mut v = vec!['x'; 3];
            let it = cr.into_par_iter();
            let copy = it.clone();
            it.collect_into_vec(&mut v);
            let mut w = vec![];
            copy.with_min_len(s.urange(1, 40)).collect_into_vec(&mut w);
            ensure!(v == w, "parallel iteration of {:?}: the copy of the iterator differs", cr);
            got = v;
        }
        7 => {
            let v: Vec<(usize, char)> = cr.into_par_iter().enumerate().collect();
            ensure!(v.iter().enumerate().all(|(i, x)| i == x.0), "parallel iteration of {:?}: numbering", cr);
            got = v.into_iter().map(|x| x.1).collect();
        }
        8 => {
            // two of them side by side
            let v: Vec<(char, char)> = cr.into_par_iter().zip(cr.into_par_iter().rev()).collect();
            let mut back: Vec<char> = v.iter().map(|x| x.1).collect();
            back.reverse();
            got = v.into_iter().map(|x| x.0).collect();
            ensure!(got == back, "parallel iteration of {:?}: forwards and backwards differ", cr);
        }
        9 => {
            // answers about the whole
            let it = cr.into_par_iter();
            ensure_eq!(it.clone().count(), exp.len(), "parallel count of {:?}", cr);
            ensure_eq!(it.clone().min(), exp.first().copied(), "parallel minimum of {:?}", cr);
            ensure_eq!(it.clone().max(), exp.last().copied(), "parallel maximum of {:?}", cr);
            let p = at(s.below(SCALARS as usize) as u32);
            ensure_eq!(it.clone().any(|c| c == p), exp.binary_search(&p).is_ok(), "{:?} found in {:?}", p, cr);
            ensure_eq!(it.position_first(|c| c >= p), exp.iter().position(|&c| c >= p), "first from {:?} in {:?}", p, cr);
            return Ok(());
        }
        _ => {
            let k = s.urange(1, 9);
            got = cr.into_par_iter().chunks(k).flat_map(|v| v).collect();
        }
    }
    let bad = got.iter().zip(&exp).position(|(a, b)| a != b);
    ensure!(got == exp, "parallel iteration of {:?} (mode {}): {} characters, expected {}, first difference {:?}", cr, mode, got.len(), exp.len(), bad.map(|i| (i, got[i], exp[i])));
    Ok(())
}

pub fn c17() -> Check {
    Check::new("C17", "the history exhausts the iterator, or takes more than two steps on a range of several characters")
        .assume("rayon delivers an indexed producer's items in order")
        .random("histories", 3_000_000, 30_000_000, judge_history)
        .exhaustive("short_interleavings", 8 * 6 * 2048, |i, r| {
            // ranges of 0..=7 characters at six places (both ends, and around the surrogates), with
            // every front/back pattern of 11 steps
            let (len, place, pat) = ((i % 8) as u32, (i / 8 % 6) as usize, i / 48);
            let a = match place {
                0 => 0,
                1 => N - len,
                2 => 0xD800 - len / 2,
                3 => 0xD800 - len,
                4 => 0xD800,
                _ => 0x61,
            };
            r.case(&(len, place, pat));
            r.nontrivial(len > 0);
            let cr = if len == 0 { CharRange::closed('b', 'a') } else { CharRange::closed(at(a), at(a + len - 1)) };
            let mut it = cr.iter();
            let (mut x, mut y) = (a, a + len);
            for k in 0..11 {
                ensure_eq!(it.len(), (y - x) as usize, "len before step {}", k);
                let (got, want) = if pat >> k & 1 == 0 {
                    (it.next(), if x < y { x += 1; Some(at(x - 1)) } else { None })
                } else {
                    (it.next_back(), if x < y { y -= 1; Some(at(y)) } else { None })
                };
                ensure_eq!(got, want, "step {} of {} characters from {:?}", k, len, at(a.min(N - 1)));
            }
            Ok(())
        })
        .random("parallel", 40_000, 400_000, |s, r| {
            let k = s.pick(CTORS);
            let (lo, hi) = near_pair(s);
            let (cr, sp) = make(k, lo, hi);
            // few of the ranges that span most of the code space: they take long
            if sp.len() > 20_000 && !s.chance(1, 40) {
                r.class("skipped");
                return Ok(());
            }
            r.case(&(k, lo, hi));
            r.nontrivial(sp.len() > 1);
            r.class(if sp.len() == 0 { "empty" } else if sp.b <= 0xD800 { "below the surrogates" } else if sp.a >= 0xD800 { "above the surrogates" } else { "across the surrogates" });
            judge_parallel(cr, sp, s)
        })
        .single_threaded()
}

// ---------------------------------------------------------------- C18

fn judge_table(t: &CharDataTable<u32>, entries: &[(CharRange, u32)], direct: bool, probes: &[char]) -> Res {
    for &c in probes {
        let hit = entries.iter().find(|(r, _)| r.low <= c && c <= r.high).copied();
        ensure_eq!(t.contains(c), hit.is_some(), "contains {:?}", c);
        ensure_eq!(t.find(c), hit.map(|h| h.1), "find {:?}", c);
        ensure_eq!(t.find_or_default(c), hit.map_or(0, |h| h.1), "find_or_default {:?}", c);
        let wr = t.find_with_range(c);
        if !direct {
            ensure!(
                match (wr, hit) {
                    (None, None) => true,
                    (Some((a, v)), Some((b, w))) => a.low == b.low && a.high == b.high && v == w,
                    _ => false,
                },
                "find_with_range {:?}: got {:?}, expected {:?}",
                c,
                wr,
                hit
            );
        } else {
            // documented for range tables only; what it says must not contradict the table
            if let Some((a, v)) = wr {
                ensure!(hit.map_or(false, |(b, w)| a.low == b.low && a.high == b.high && v == w), "find_with_range {:?} of a direct table: {:?}", c, wr);
            }
        }
    }
    let got: Vec<(char, char, u32)> = t.iter().map(|(r, v)| (r.low, r.high, v)).collect();
    let want: Vec<(char, char, u32)> = entries.iter().map(|&(r, v)| (r.low, r.high, v)).collect();
    ensure_eq!(got, want, "iter");
    let mut it = t.iter();
    for _ in 0..entries.len() {
        it.next();
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "iteration goes on after its end");
    }
    // the other ways to consume the iterator, from various places
    for skip in [0, 1, entries.len() / 2, entries.len().saturating_sub(1), entries.len(), entries.len() + 1] {
        let left = entries.len().saturating_sub(skip);
        let mut it = t.iter();
        for _ in 0..skip {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "size hint {:?} with {} entries left", (lo, hi), left);
        let flat = |x: Option<(CharRange, u32)>| x.map(|(r, v)| (r.low, r.high, v));
        let at = |k: usize| want.get(k).copied();
        match skip % 3 {
            0 => ensure_eq!(it.count(), left, "count after {} entries", skip),
            1 => ensure_eq!(flat(it.last()), if left == 0 { None } else { want.last().copied() }, "last after {} entries", skip),
            _ => {
                let jump = left / 3;
                ensure_eq!(flat(it.nth(jump)), at(skip + jump), "nth({}) after {} entries", jump, skip);
                ensure_eq!(flat(it.next()), at(skip + jump + 1), "next after nth({}) after {} entries", jump, skip);
            }
        }
    }
    Ok(())
}

/// Hands the slice out as 'static for the duration of the call.
fn with_static<T: 'static, R>(v: Vec<T>, f: impl FnOnce(&'static [T]) -> R) -> R {
    let p: *mut [T] = Box::into_raw(v.into_boxed_slice());
    // SAFETY: the table made from it does not outlive the call of f
    let r = f(unsafe { &*p });
    drop(unsafe { Box::from_raw(p) });
    r
}

pub fn c18() -> Check {
    Check::new("C18", "the table has at least two entries, and some probe is inside and some outside of them")
        .assume("CharDataTable::{Direct,Range} are built from sorted, disjoint entries, as the generator emits them")
        .random("random_tables", 3_000_000, 10_000_000, |s, r| {
            let direct = s.bool();
            let big = s.chance(1, 20);
            let (avg, max) = if big { (100, 400) } else { (6, 30) };
            let mut next = match s.below(4) {
                0 => 0u32,
                1 => 0xD7F8,
                2 => N - 40,
                _ => s.below(N as usize) as u32,
            };
            let mut entries: Vec<(CharRange, u32)> = vec![];
            let wide = s.pick(&[1u64, 3, 60, 20_000]);
            for _ in 0..s.below(2 * avg).min(max) {
                let gap = if s.bool() { 0 } else { s.raw(wide) as u32 };
                let lo = next.saturating_add(gap);
                let hi = if direct { lo } else { lo.saturating_add(s.raw(wide) as u32) };
                if hi >= N {
                    break;
                }
                entries.push((CharRange::closed(at(lo), at(hi)), s.below(1000) as u32));
                next = hi + 1;
            }
            r.case(&(direct, entries.iter().map(|(r, v)| (r.low, r.high, *v)).collect::<Vec<_>>()));
            let mut probes = vec![s.any_char(), edge_char(s), '\0', char::MAX];
            for (cr, _) in entries.iter().take(40) {
                probes.extend([pos(cr.low).saturating_sub(1), pos(cr.low), (pos(cr.low) + pos(cr.high)) / 2, pos(cr.high), (pos(cr.high) + 1).min(N - 1)].map(at));
            }
            for _ in 0..6 {
                if let Some((cr, _)) = entries.get(s.below(entries.len().max(1))) {
                    probes.push(cr.low);
                    probes.push(cr.high);
                }
            }
            let inside = |c: &char| entries.iter().any(|(r, _)| r.low <= *c && *c <= r.high);
            r.nontrivial(entries.len() > 1 && probes.iter().any(|c| !inside(c)));
            r.class(if direct { "direct" } else { "ranges" });
            if direct {
                with_static(entries.iter().map(|&(r, v)| (r.low, v)).collect::<Vec<_>>(), |t| judge_table(&CharDataTable::Direct(t), &entries, true, &probes))
            } else {
                with_static(entries.clone(), |t| judge_table(&CharDataTable::Range(t), &entries, false, &probes))
            }
        })
        .random("large_tables", 20_000, 150_000, |s, r| {
            // up to two hundred thousand entries, some of them wide, the rest next to each other or a
            // little apart
            let direct = s.bool();
            let n = (1usize << (8 + s.below(11))) + s.below(5) - 2 + s.below(3) * s.below(300);
            let every = 1 + s.below(5) as u32;
            let wide = s.pick(&[1u32, 2, 3]);
            let mut entries: Vec<(CharRange, u32)> = Vec::with_capacity(n);
            let mut next = if s.bool() { 0 } else { s.below(60_000) as u32 };
            for k in 0..n as u32 {
                let lo = if k % every == 0 { next + 1 } else { next };
                let hi = if direct { lo } else { lo + k % wide };
                if hi >= N {
                    break;
                }
                entries.push((CharRange::closed(at(lo), at(hi)), k + 1));
                next = hi + 1;
            }
            let n = entries.len();
            r.case(&(direct, n, every, wide, entries[0].0.low));
            r.nontrivial(true);
            r.class(if direct { "direct" } else { "ranges" });
            let mut probes = vec![(s.any_char(), None), (at(pos(entries[0].0.low).saturating_sub(1)), None), (at((pos(entries[n - 1].0.high) + 1).min(N - 1)), None)];
            let mut picks: Vec<usize> = (0..20).map(|_| s.below(n)).collect();
            picks.extend((0..18).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, n.saturating_sub(1 << b)]).filter(|&k| k < n));
            for k in picks {
                let (cr, _) = entries[k];
                probes.push((cr.low, Some(k)));
                probes.push((cr.high, Some(k)));
                let behind = pos(cr.high) + 1;
                if k + 1 < n && behind < pos(entries[k + 1].0.low) {
                    probes.push((at(behind), None));
                }
            }
            let all = &entries;
            let want: Vec<_> = all.iter().map(|(r, v)| (r.low, r.high, *v)).collect();
            let way = Way::any(s, n, false);
            let judge = |t: &CharDataTable<u32>| -> Res {
                for (c, k) in &probes {
                    let k = k.or_else(|| all.binary_search_by(|(r, _)| if r.high < *c { std::cmp::Ordering::Less } else if r.low > *c { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }).ok());
                    let hit = k.map(|k| all[k]);
                    ensure_eq!(t.contains(*c), hit.is_some(), "contains {:?} ({} entries, entry {:?})", c, n, k);
                    ensure_eq!(t.find(*c), hit.map(|h| h.1), "find {:?} ({} entries, entry {:?})", c, n, k);
                    if !direct {
                        ensure_eq!(t.find_with_range(*c).map(|(a, v)| (a.low, a.high, v)), hit.map(|(a, v)| (a.low, a.high, v)), "find_with_range {:?} ({} entries)", c, n);
                    }
                }
                let mut k = 0;
                for (r, v) in t.iter() {
                    ensure!(k < n && (r.low, r.high, v) == (all[k].0.low, all[k].0.high, all[k].1), "entry {} of {}: {:?}", k, n, (r, v));
                    k += 1;
                }
                ensure_eq!(k, n, "number of entries iterated");
                way.check("iterator of a large table", t.iter().map(|(r, v)| (r.low, r.high, v)), &want)
            };
            if direct {
                with_static(all.iter().map(|&(r, v)| (r.low, v)).collect::<Vec<_>>(), |t| judge(&CharDataTable::Direct(t)))
            } else {
                with_static(all.clone(), |t| judge(&CharDataTable::Range(t)))
            }
        })
        .exhaustive("small_layouts", 3u64.pow(9) * 2, |i, r| {
            // nine consecutive characters around the surrogate gap; each is outside of the table,
            // starts an entry, or continues one
            let direct = i % 2 == 0;
            let mut k = i / 2;
            let mut entries: Vec<(CharRange, u32)> = vec![];
            let base = 0xD800 - 5;
            let mut prev = 0;
            for j in 0..9u32 {
                let d = k % 3;
                k /= 3;
                if d == 1 || (d == 2 && (prev == 0 || direct)) {
                    entries.push((CharRange::closed(at(base + j), at(base + j)), j + 1));
                } else if d == 2 {
                    entries.last_mut().unwrap().0.high = at(base + j);
                }
                prev = d;
            }
            r.case(&(direct, i));
            r.note(|| format!(" {:?}", entries));
            r.nontrivial(entries.len() > 1);
            let probes: Vec<char> = (base - 2..base + 11).map(at).collect();
            if direct {
                with_static(entries.iter().map(|&(r, v)| (r.low, v)).collect::<Vec<_>>(), |t| judge_table(&CharDataTable::Direct(t), &entries, true, &probes))
            } else {
                with_static(entries.clone(), |t| judge_table(&CharDataTable::Range(t), &entries, false, &probes))
            }
        })
        .exhaustive("default_table", 1, |_, r| {
            r.case("default");
            judge_table(&CharDataTable::default(), &[], true, &['\0', 'a', char::MAX])
        })
}

// ---------------------------------------------------------------- C27

pub fn c27() -> Check {
    use unic_char_basics::unicode_notation;
    fn want(c: char) -> String {
        // by hand, digit by digit
        let mut d: Vec<char> = vec![];
        let mut v = c as u32;
        while v > 0 || d.len() < 4 {
            d.push(b"0123456789ABCDEF"[(v % 16) as usize] as char);
            v /= 16;
        }
        d.push('+');
        d.push('U');
        d.iter().rev().collect()
    }
    Check::new("C27", "every character counts: the notation is a function of one character")
        .every_char("every_char", |c, r| {
            r.case(&c);
            r.nontrivial(true);
            let got = unicode_notation(c).to_string();
            ensure_eq!(got, want(c), "notation of {:?}", c);
            ensure_eq!(u32::from_str_radix(&got[2..], 16), Ok(c as u32), "notation of {:?} read back", c);
            Ok(())
        })
        .random("contexts", 2_000_000, 10_000_000, |s, r| {
            let c = if s.bool() { s.any_char() } else { edge_char(s) };
            let (w, p) = (s.below(14), s.below(10));
            let n = unicode_notation(c);
            let (k, got) = match s.below(9) {
                0 => ("{:#}", format!("{:#}", n)),
                1 => ("{:w$}", format!("{:w$}", n)),
                2 => ("{:>w$}", format!("{:>w$}", n)),
                3 => ("{:^w$}", format!("{:^w$}", n)),
                4 => ("{:.p$}", format!("{:.p$}", n)),
                5 => ("{:w$.p$}", format!("{:w$.p$}", n)),
                6 => ("{:+}", format!("{:+}", n)),
                7 => ("in a list", format!("{} {}", n, n).split(' ').next_back().unwrap().to_string()),
                _ => ("written twice", {
                    use std::fmt::Write;
                    let mut t = String::new();
                    write!(t, "{}", n).unwrap();
                    t.clear();
                    write!(t, "{}", n).unwrap();
                    t
                }),
            };
            r.case(&(c, k, w, p));
            r.nontrivial(true);
            // padding around it is the context's business
            ensure_eq!(got.trim_matches(' '), want(c), "{} of {:?}", k, c);
            Ok(())
        })
}
