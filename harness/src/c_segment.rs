//! C01-C04: segmentation.
use crate::gen::{any_string, differ, esc, huge, known_triple, long, ByClass, Way, KNOWN_TRIPLES};
use crate::pbt::*;
use crate::seg_model::{segments, Gcb, Wb};
use crate::{ensure, ensure_eq};
use std::sync::Arc;
use unic::segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};

fn seg_string(s: &mut Src, k: &ByClass, max: usize) -> String {
    if s.chance(1, 10) {
        any_string(s, max)
    } else {
        k.string(s, max)
    }
}

fn check_graphemes(s: &str, ext: bool, want: &[(usize, &str)]) -> Res {
    let cap = want.len() + 2;
    let g = || if ext { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
    let gi = || if ext { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
    let f: Vec<&str> = g().take(cap).collect();
    let w: Vec<&str> = want.iter().map(|x| x.1).collect();
    ensure_eq!(f, w, "forward, extended={}", ext);
    let mut b: Vec<&str> = g().rev().take(cap).collect();
    b.reverse();
    ensure_eq!(b, w, "backward, extended={}", ext);
    let f: Vec<(usize, &str)> = gi().take(cap).collect();
    ensure_eq!(f, want, "indices, extended={}", ext);
    let mut b: Vec<(usize, &str)> = gi().rev().take(cap).collect();
    b.reverse();
    ensure_eq!(b, want, "indices backward, extended={}", ext);
    Ok(())
}

pub fn c01() -> Check {
    let k = Arc::new(ByClass::new("Grapheme_Cluster_Break"));
    let m = Arc::new(Gcb::new());
    let (k2, m2, m4, k5, m5) = (k.clone(), m.clone(), m.clone(), k.clone(), m.clone());
    let (k3, m3) = (k.clone(), m.clone());
    let (k6, m6) = (k.clone(), m.clone());
    let (k7, m7) = (k.clone(), m.clone());
    let m9 = m.clone();
    let histories = Arc::new(move |s: &mut Src, r: &mut Rep, far: bool| -> Res {
        let t = if far { long(s, 800, |s| seg_string(s, &k3, 8)) } else { seg_string(s, &k3, 30) };
        let ext = !s.chance(1, 3);
        let b = m3.bounds(&t, ext);
        let w = segments(&t, &b);
        let ops: Vec<usize> = (0..w.len() + 3).map(|_| s.below(6)).collect();
        r.case(&(&t, ext, &ops));
        r.nontrivial(w.len() < t.chars().count() && w.len() > 2);
        let mut g = if ext { Graphemes::new(&t) } else { Graphemes::new_legacy(&t) };
        let mut gi = if ext { GraphemeIndices::new(&t) } else { GraphemeIndices::new_legacy(&t) };
        let (mut lo, mut hi) = (0, w.len());
        for (n, op) in ops.iter().enumerate() {
            let left: usize = w[lo..hi].iter().map(|x| x.1.len()).sum();
            let rest = w[lo..hi].first().map_or(0, |x| x.0);
            let rest = &t[rest..rest + left];
            ensure_eq!(g.as_str(), rest, "remainder before step {}", n);
            ensure_eq!(gi.as_str(), rest, "indices remainder before step {}", n);
            for (l, h) in [g.size_hint(), gi.size_hint()] {
                ensure!(l <= hi - lo && h.map_or(true, |h| h >= hi - lo), "size hint {:?} but {} segments left", (l, h), hi - lo);
            }
            match op {
                0 | 1 => {
                    let want = if lo < hi { lo += 1; Some(w[lo - 1]) } else { None };
                    ensure_eq!(g.next(), want.map(|x| x.1), "next, step {}", n);
                    ensure_eq!(gi.next(), want, "indices next, step {}", n);
                }
                2 | 3 => {
                    let want = if lo < hi { hi -= 1; Some(w[hi]) } else { None };
                    ensure_eq!(g.next_back(), want.map(|x| x.1), "next_back, step {}", n);
                    ensure_eq!(gi.next_back(), want, "indices next_back, step {}", n);
                }
                4 => {
                    // a clone is independent and continues from the same place
                    let c: Vec<&str> = g.clone().take(hi - lo + 2).collect();
                    ensure!(c.iter().copied().eq(w[lo..hi].iter().map(|x| x.1)), "clone yields {:?}, expected {:?}", c, &w[lo..hi]);
                }
                _ => {
                    let c: Vec<_> = gi.clone().rev().take(hi - lo + 2).collect();
                    ensure!(c.iter().copied().eq(w[lo..hi].iter().rev().copied()), "clone yields {:?} backwards, expected {:?}", c, &w[lo..hi]);
                }
            }
        }
        Ok(())
    });
    let h2 = histories.clone();
    Check::new(
        "C01",
        "strings over a random palette of grapheme-break classes (class first, then a character of it); all class sequences \
         up to length 5 (thorough: 6) by number; every character between neighbours; long strings with a part repeated up to 513 \
         times. Oracle: the UAX #29 rules applied literally at every \
         position. Non-trivial: at least one segment has two or more characters",
    )
    .assume("Grapheme_Cluster_Break values: /verif/refdata (Unicode 10.0, cross-checked)")
    .exhaustive("class_sequences", k.seq_count(tier(5, 6)), move |i, r| {
        let s = k.seq(i);
        r.case(&s);
        let mut nt = false;
        for ext in [true, false] {
            let b = m.bounds(&s, ext);
            let w = segments(&s, &b);
            nt |= w.len() < s.chars().count();
            let g: Vec<&str> = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) }.take(8).collect();
            ensure!(g.iter().copied().eq(w.iter().map(|x| x.1)), "forward extended={}: {:?} expected {:?}", ext, g, w);
            let g: Vec<&str> = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) }.rev().take(8).collect();
            ensure!(g.iter().copied().rev().eq(w.iter().map(|x| x.1)), "backward extended={}: {:?} expected {:?}", ext, g, w);
        }
        r.nontrivial(nt);
        Ok(())
    })
    .exhaustive("known_characters", KNOWN_TRIPLES, move |i, r| {
        let s = known_triple(i);
        r.case(&s);
        let mut nt = false;
        for ext in [true, false] {
            let b = m9.bounds(&s, ext);
            let w = segments(&s, &b);
            nt |= w.len() < s.chars().count();
            let g = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
            ensure!(g.clone().take(8).eq(w.iter().map(|x| x.1)), "forward extended={}: {:?} expected {:?}", ext, g.collect::<Vec<_>>(), w);
            ensure!(g.clone().rev().take(8).eq(w.iter().rev().map(|x| x.1)), "backward extended={}: {:?} expected {:?}", ext, g.rev().collect::<Vec<_>>(), w);
        }
        r.nontrivial(nt);
        Ok(())
    })
    .every_char("every_char_in_context", move |c, r| {
        let s = format!("{c}{c}a{c}\u{301}{c}\u{200d}{c}\u{600}{c}\u{903}");
        r.case(&s);
        for ext in [true, false] {
            let b = m4.bounds(&s, ext);
            let w = segments(&s, &b);
            r.nontrivial(true);
            let g: Vec<&str> = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) }.take(20).collect();
            ensure!(g.iter().copied().eq(w.iter().map(|x| x.1)), "extended={}: {:?} expected {:?}", ext, g, w);
        }
        Ok(())
    })
    .random("random_strings", 3_000_000, 24_000_000, move |s, r| {
        let t = seg_string(s, &k2, 60);
        r.case(&t);
        for ext in [true, false] {
            let b = m2.bounds(&t, ext);
            let w = segments(&t, &b);
            r.nontrivial(w.len() < t.chars().count());
            check_graphemes(&t, ext, &w)?;
        }
        Ok(())
    })
    .random("long_strings", 40_000, 600_000, move |s, r| {
        let t = long(s, 3_000, |s| seg_string(s, &k5, 12));
        r.case(&t);
        for ext in [true, false] {
            let b = m5.bounds(&t, ext);
            let w = segments(&t, &b);
            r.nontrivial(w.len() < t.chars().count());
            check_graphemes(&t, ext, &w)?;
        }
        Ok(())
    })
    .random("huge_strings", 200, 6_000, move |s, r| {
        let (t, name) = huge(s, None, |s| seg_string(s, &k6, 12));
        let ext = !s.chance(1, 3);
        r.case(&(name, ext));
        let w = segments(&t, &m6.bounds(&t, ext));
        r.nontrivial(true);
        let it = || if ext { Graphemes::new(&t) } else { Graphemes::new_legacy(&t) };
        let cap = w.len() + 3;
        let plain: Vec<&str> = w.iter().map(|x| x.1).collect();
        differ("forwards", &it().take(cap).collect::<Vec<_>>(), &plain)?;
        let mut back: Vec<&str> = it().rev().take(cap).collect();
        back.reverse();
        differ("backwards, reversed", &back, &plain)?;
        if ext {
            differ("indices", &GraphemeIndices::new(&t).take(cap).collect::<Vec<_>>(), &w)?;
            let mut back: Vec<_> = GraphemeIndices::new(&t).rev().take(cap).collect();
            back.reverse();
            differ("indices backwards, reversed", &back, &w)?;
        }
        Ok(())
    })
    .random("mixed_histories", 3_000_000, 24_000_000, move |s, r| histories(s, r, false))
    .random("iterator_methods", 1_000_000, 15_000_000, move |s, r| {
        let t = if s.chance(1, 20) { long(s, 800, |s| seg_string(s, &k7, 8)) } else { seg_string(s, &k7, 30) };
        let ext = !s.chance(1, 3);
        let w = segments(&t, &m7.bounds(&t, ext));
        let way = Way::any(s, w.len(), true);
        r.case(&(&t, ext, way));
        r.nontrivial(w.len() > 1 && way.deep());
        r.class(way.name());
        let words: Vec<&str> = w.iter().map(|x| x.1).collect();
        if ext {
            way.check_both("Graphemes::new", Graphemes::new(&t), &words)?;
            way.check_both("GraphemeIndices::new", GraphemeIndices::new(&t), &w)
        } else {
            way.check_both("Graphemes::new_legacy", Graphemes::new_legacy(&t), &words)?;
            way.check_both("GraphemeIndices::new_legacy", GraphemeIndices::new_legacy(&t), &w)
        }
    })
    .random("long_histories", 15_000, 300_000, move |s, r| h2(s, r, true))
}

// ---------------------------------------------------------------- C02

struct Chunker<'a> {
    t: &'a str,
    /// character boundaries of t
    cb: Vec<usize>,
    /// cut points (character boundaries); empty: a fresh random chunk every time
    cuts: Option<Vec<usize>>,
}
impl<'a> Chunker<'a> {
    /// A chunk [a, b) with lo_incl <= ... : `a` drawn among boundaries in `alo..=ahi`, `b` in `blo..=bhi`.
    fn between(&self, s: &mut Src, alo: usize, ahi: usize, blo: usize, bhi: usize) -> (usize, usize) {
        let pick = |s: &mut Src, lo: usize, hi: usize| -> usize {
            let v: Vec<usize> = self.cb.iter().copied().filter(|x| lo <= *x && *x <= hi).collect();
            s.pick(&v)
        };
        (pick(s, alo, ahi), pick(s, blo, bhi))
    }
    /// The chunk containing the character that starts at `off` (off < len).
    fn at(&self, s: &mut Src, off: usize) -> (usize, usize) {
        match &self.cuts {
            Some(c) => {
                let a = *c.iter().rev().find(|x| **x <= off).unwrap();
                let b = *c.iter().find(|x| **x > off).unwrap();
                (a, b)
            }
            None => self.between(s, 0, off, off + 1, self.t.len()),
        }
    }
    fn starting(&self, s: &mut Src, a: usize) -> (usize, usize) {
        match &self.cuts {
            Some(c) => (a, c.iter().copied().find(|x| *x > a).unwrap()),
            None => (a, self.between(s, 0, 0, a + 1, self.t.len()).1),
        }
    }
    fn ending(&self, s: &mut Src, b: usize) -> (usize, usize) {
        match &self.cuts {
            Some(c) => (c.iter().rev().copied().find(|x| *x < b).unwrap(), b),
            None => (self.between(s, 0, b - 1, self.t.len(), self.t.len()).0, b),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set,
    Is,
    Next,
    Prev,
}

/// A call with a chunk that the cursor is outside of: an error, which changes nothing.
fn stray(cur: &mut GraphemeCursor, s: &mut Src, ch: &Chunker, op: Op, trace: &mut Vec<String>) -> Res {
    let (at, len) = (cur.cur_cursor(), ch.t.len());
    // the ends of the text are boundaries whatever the chunk is
    if at == 0 || at == len {
        return Ok(());
    }
    let after: Vec<usize> = ch.cb.iter().copied().filter(|x| *x > at && *x < len).collect();
    let before: Vec<usize> = ch.cb.iter().copied().filter(|x| *x < at && *x > 0).collect();
    let (a, b) = if !after.is_empty() && (before.is_empty() || s.bool()) {
        let a = s.pick(&after);
        (a, ch.between(s, a, a, a + 1, len).1)
    } else if !before.is_empty() {
        let b = s.pick(&before);
        (ch.between(s, 0, b - 1, b, b).0, b)
    } else {
        return Ok(());
    };
    let chunk = &ch.t[a..b];
    let res = match op {
        Op::Is => cur.is_boundary(chunk, a).map(|_| ()),
        Op::Next => cur.next_boundary(chunk, a).map(|_| ()),
        _ => cur.prev_boundary(chunk, a).map(|_| ()),
    };
    trace.push(format!("{:?}({}..{})={:?}", op, a, b, res));
    // (what is known already may be answered without a look at the chunk)
    let known = op == Op::Is && res.is_ok();
    ensure!(known || res == Err(GraphemeIncomplete::InvalidOffset), "{:?} for the chunk {}..{}, which the cursor at {} is outside of", res, a, b, at);
    ensure_eq!(cur.cur_cursor(), at, "cursor after a chunk that it is outside of");
    Ok(())
}

/// Drives one operation to its end, answering requests as documented.  None: abandoned.
fn drive(
    cur: &mut GraphemeCursor,
    s: &mut Src,
    ch: &Chunker,
    op: Op,
    at: usize,
    abandon: bool,
    trace: &mut Vec<String>,
) -> Result<Option<Result<Option<usize>, bool>>, String> {
    let t = ch.t;
    let len = t.len();
    // the first chunk: it contains the cursor's character; for going back it may also end at the cursor
    let (mut a, mut b) = if len == 0 {
        (0, 0)
    } else if at == len || (op == Op::Prev && at > 0 && s.chance(1, 2)) {
        if op == Op::Next || op == Op::Is {
            ch.at(s, ch.cb[ch.cb.len() - 2])
        } else {
            ch.ending(s, at)
        }
    } else {
        ch.at(s, at)
    };
    // going forward, a chunk that ends at the cursor has nothing to say
    let late = op == Op::Next && 0 < at && at < len && s.chance(1, 8);
    if late {
        let (a, b) = ch.ending(s, at);
        let res = cur.next_boundary(&t[a..b], a);
        trace.push(format!("{:?}({}..{})={:?}", op, a, b, res));
        ensure!(
            matches!(res, Err(GraphemeIncomplete::NextChunk | GraphemeIncomplete::InvalidOffset)),
            "{:?} for a chunk that ends at the cursor",
            res
        );
    }
    for _ in 0..4 * len + 12 {
        let chunk = &t[a..b];
        if s.chance(1, 40) {
            stray(cur, s, ch, op, trace)?;
        }
        if s.chance(1, 40) {
            *cur = cur.clone();
            trace.push("clone".into());
        }
        let res = match op {
            Op::Is => cur.is_boundary(chunk, a).map(Err),
            Op::Next => cur.next_boundary(chunk, a).map(Ok),
            Op::Prev => cur.prev_boundary(chunk, a).map(Ok),
            Op::Set => unreachable!(),
        };
        trace.push(format!("{:?}({}..{})={:?}", op, a, b, res));
        match res {
            Ok(r) => return Ok(Some(r)),
            Err(e) => {
                if abandon && s.chance(1, 2) {
                    return Ok(None);
                }
                match e {
                    GraphemeIncomplete::PreContext(n) => {
                        ensure!(n > 0 && n <= len && t.is_char_boundary(n), "asks for context before {}", n);
                        let (pa, pb) = ch.ending(s, n);
                        cur.provide_context(&t[pa..pb], pa);
                        trace.push(format!("context({}..{})", pa, pb));
                    }
                    GraphemeIncomplete::NextChunk => {
                        ensure!(op == Op::Next, "NextChunk asked by {:?}", op);
                        ensure!(b < len, "asks for a chunk after the end");
                        let x = ch.starting(s, b);
                        a = x.0;
                        b = x.1;
                    }
                    GraphemeIncomplete::PrevChunk => {
                        ensure!(op == Op::Prev, "PrevChunk asked by {:?}", op);
                        ensure!(a > 0, "asks for a chunk before the start");
                        let x = ch.ending(s, a);
                        a = x.0;
                        b = x.1;
                    }
                    GraphemeIncomplete::InvalidOffset => {
                        return Err("InvalidOffset although the chunks follow the protocol".into());
                    }
                }
            }
        }
    }
    Err("asks for more input without end".into())
}

pub fn c02() -> Check {
    let k = Arc::new(ByClass::new("Grapheme_Cluster_Break"));
    let m = Arc::new(Gcb::new());
    let (kh, mh) = (k.clone(), m.clone());
    let body = move |s: &mut Src, r: &mut Rep, whole: bool, far: bool| -> Res {
        let t = if far { long(s, 600, |s| seg_string(s, &k, 6)) } else { seg_string(s, &k, 16) };
        let ext = !s.chance(1, 3);
        let len = t.len();
        let bounds = m.bounds(&t, ext);
        let cb: Vec<usize> = t.char_indices().map(|x| x.0).chain([len]).collect();
        let cuts = if whole {
            Some(vec![0, len])
        } else {
            match s.below(3) {
                0 => Some(cb.clone()),
                1 => {
                    let every = if far { s.pick(&[2, 5, 40, 150]) } else { 2 };
                    let mut v: Vec<usize> = cb.iter().copied().filter(|x| *x == 0 || *x == len || s.below(every) == 1).collect();
                    v.dedup();
                    Some(v)
                }
                _ => None,
            }
        };
        let ch = Chunker { t: &t, cb: cb.clone(), cuts };
        // in a long text, mostly near the end, with much before it
        let place = |s: &mut Src| if far && s.bool() { cb[cb.len() - 1 - s.below(cb.len().min(6))] } else { s.pick(&cb) };
        let start = place(s);
        let mut cur = if ext { GraphemeCursor::new(start, len) } else { GraphemeCursor::new_legacy(start, len) };
        let mut at = start;
        let mut trace = vec![format!("new({})", start)];
        let nops = s.urange(1, 8);
        let mut asked = false;
        let mut must_set = false;
        let mut result = Ok(());
        for _ in 0..nops {
            let op = if must_set { Op::Set } else { s.pick(&[Op::Next, Op::Prev, Op::Is, Op::Set, Op::Next, Op::Prev]) };
            if op == Op::Set {
                at = place(s);
                cur.set_cursor(at);
                trace.push(format!("set({})", at));
                must_set = false;
                if cur.cur_cursor() != at {
                    result = Err(format!("cur_cursor is {} after set_cursor({})", cur.cur_cursor(), at));
                    break;
                }
                continue;
            }
            let before = trace.len();
            let abandon = s.chance(1, 6);
            let got = match catch(|| drive(&mut cur, s, &ch, op, at, abandon, &mut trace)) {
                Ok(Ok(g)) => g,
                Ok(Err(e)) | Err(e) => {
                    result = Err(format!("{:?} at {}: {}", op, at, e));
                    break;
                }
            };
            asked |= trace.len() > before + 1;
            let got = match got {
                Some(g) => g,
                None => {
                    must_set = true;
                    continue;
                }
            };
            let want = match op {
                Op::Is => Err(bounds.contains(&at)),
                Op::Next => Ok(bounds.iter().copied().find(|b| *b > at)),
                _ => Ok(bounds.iter().rev().copied().find(|b| *b < at)),
            };
            if got != want {
                result = Err(format!("{:?} at {}: got {:?}, expected {:?} (boundaries {:?})", op, at, got, want, bounds));
                break;
            }
            if let Ok(Some(n)) = got {
                at = n;
            }
            if cur.cur_cursor() != at {
                result = Err(format!("cur_cursor is {}, expected {}", cur.cur_cursor(), at));
                break;
            }
        }
        r.case(&(&t, ext, &trace));
        r.nontrivial(asked || (whole && trace.len() > 2));
        if asked {
            r.class("asked_for_input");
        }
        result.map_err(|e| format!("{} [text {:?} extended={} {}]", e, esc(&t), ext, trace.join(" ")))
    };
    let body = Arc::new(body);
    let (b2, b3) = (body.clone(), body.clone());
    Check::new(
        "C02",
        "a string over grapheme-break classes (some with a part repeated up to 513 times), a chunking of it (one chunk, per character, random cuts, or a fresh random \
         chunk for every call) and up to 8 cursor operations that follow the documented protocol, including abandoning a \
         pending request by moving the cursor. Oracle: boundaries of the whole string. Non-trivial: the cursor asked for \
         context or another chunk at least once (whole-text section: more than two operations)",
    )
    .assume("protocol: a chunk contains the character after the cursor (for prev_boundary it may instead end at the cursor); requests are answered with a non-empty adjacent chunk")
    .random("chunked_histories", 8_000_000, 60_000_000, move |s, r| body(s, r, false, false))
    .random("whole_text_histories", 2_000_000, 10_000_000, move |s, r| b2(s, r, true, false))
    .random("long_texts", 150_000, 3_000_000, move |s, r| b3(s, r, false, true))
    .random("huge_texts", 200, 6_000, move |s, r| {
        let (t, name) = huge(s, None, |s| seg_string(s, &kh, 12));
        let ext = !s.chance(1, 3);
        let len = t.len();
        let bounds = mh.bounds(&t, ext);
        let cb: Vec<usize> = t.char_indices().map(|x| x.0).chain([len]).collect();
        let every = s.pick(&[1, 50, 5_000, 40_000]);
        let cuts: Vec<usize> = cb.iter().enumerate().filter(|(i, x)| i % every == 0 || **x == len).map(|(_, x)| *x).collect();
        let ch = Chunker { t: &t, cb: cb.clone(), cuts: Some(cuts) };
        r.case(&(name, ext, every));
        r.nontrivial(true);
        let mut trace = vec![];
        let place = |s: &mut Src| match s.below(3) {
            0 => s.pick(&cb),
            // around the multiples of 65 536
            1 => {
                let k = 65_536 * s.urange(1, (len / 65_536).max(1));
                let i = cb.partition_point(|x| *x < k.min(len));
                cb[(i + s.below(9)).saturating_sub(4).min(cb.len() - 1)]
            }
            _ => cb[cb.len() - 1 - s.below(cb.len().min(20))],
        };
        let mut at = place(s);
        let mut cur = if ext { GraphemeCursor::new(at, len) } else { GraphemeCursor::new_legacy(at, len) };
        for _ in 0..30 {
            let op = s.pick(&[Op::Next, Op::Prev, Op::Is, Op::Set, Op::Next, Op::Prev]);
            if op == Op::Set {
                at = place(s);
                cur.set_cursor(at);
                continue;
            }
            trace.clear();
            let got = match catch(|| drive(&mut cur, s, &ch, op, at, false, &mut trace)) {
                Ok(Ok(Some(g))) => g,
                Ok(Ok(None)) => unreachable!(),
                Ok(Err(e)) | Err(e) => {
                    let last = &trace[trace.len().saturating_sub(4)..];
                    return Err(format!("{:?} at {} of {} bytes in chunks of {} characters: {} [… {}]", op, at, len, every, e, last.join(" ")));
                }
            };
            let i = bounds.partition_point(|b| *b < at);
            let is = bounds.get(i) == Some(&at);
            let want = match op {
                Op::Is => Err(is),
                Op::Next => Ok(bounds.get(if is { i + 1 } else { i }).copied()),
                _ => Ok(if i == 0 { None } else { Some(bounds[i - 1]) }),
            };
            ensure_eq!(got, want, "{:?} at {} of {} bytes in chunks of {} characters", op, at, len, every);
            if let Ok(Some(n)) = got {
                at = n;
            }
            ensure_eq!(cur.cur_cursor(), at, "cur_cursor");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C03, C04

pub fn c03() -> Check {
    let k = Arc::new(ByClass::new("Word_Break"));
    let m = Arc::new(Wb::new());
    let (k8, m8) = (k.clone(), m.clone());
    let (k2, m2, m3, k4, m4) = (k.clone(), m.clone(), m.clone(), k.clone(), m.clone());
    let (k5, m5) = (k.clone(), m.clone());
    let m9 = m.clone();
    let (k6, m6) = (k.clone(), m.clone());
    let fwd = |s: &str, w: &[(usize, &str)]| -> Res {
        let g: Vec<&str> = WordBounds::new(s).take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().map(|x| x.1)), "got {:?}, expected {:?}", g, w);
        let g: Vec<(usize, &str)> = WordBoundIndices::new(s).take(w.len() + 2).collect();
        ensure_eq!(g, w, "indices");
        Ok(())
    };
    Check::new(
        "C03",
        "strings over a random palette of word-break classes; all class sequences up to length 4 (thorough: 5) by number; every character \
         between letters and digits; long strings with a part repeated up to 513 times; random predicates for the word filter. Oracle: the UAX #29 rules applied literally at \
         every position. Non-trivial: at least one segment has two or more characters",
    )
    .assume("Word_Break values: /verif/refdata (Unicode 10.0, cross-checked)")
    .exhaustive("class_sequences", k.seq_count(tier(4, 5)), move |i, r| {
        let s = k.seq(i);
        r.case(&s);
        let b = m.bounds(&s);
        let w = segments(&s, &b);
        r.nontrivial(w.len() < s.chars().count());
        fwd(&s, &w)
    })
    .exhaustive("known_characters", KNOWN_TRIPLES, move |i, r| {
        let s = known_triple(i);
        r.case(&s);
        let b = m9.bounds(&s);
        let w = segments(&s, &b);
        r.nontrivial(w.len() < s.chars().count());
        fwd(&s, &w)
    })
    .every_char("every_char_in_context", move |c, r| {
        let s = format!("{c}a{c}b{c}1{c}2\u{5d0}{c}\u{5d0}{c}\u{301}a\u{200d}{c}");
        r.case(&s);
        let b = m3.bounds(&s);
        let w = segments(&s, &b);
        r.nontrivial(true);
        let g: Vec<&str> = WordBounds::new(&s).take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().map(|x| x.1)), "got {:?}, expected {:?}", g, w);
        Ok(())
    })
    .random("random_strings", 6_000_000, 40_000_000, move |s, r| {
        let t = seg_string(s, &k2, 60);
        r.case(&t);
        let b = m2.bounds(&t);
        let w = segments(&t, &b);
        r.nontrivial(w.len() < t.chars().count());
        fwd(&t, &w)
    })
    .random("huge_strings", 300, 6_000, move |s, r| {
        let (t, name) = huge(s, None, |s| seg_string(s, &k6, 12));
        r.case(&name);
        let w = segments(&t, &m6.bounds(&t));
        r.nontrivial(true);
        let plain: Vec<&str> = w.iter().map(|x| x.1).collect();
        differ("forwards", &WordBounds::new(&t).take(w.len() + 3).collect::<Vec<_>>(), &plain)?;
        differ("indices", &WordBoundIndices::new(&t).take(w.len() + 3).collect::<Vec<_>>(), &w)
    })
    .random("long_strings", 150_000, 2_000_000, move |s, r| {
        let t = long(s, 3_000, |s| seg_string(s, &k5, 12));
        r.case(&t);
        let b = m5.bounds(&t);
        let w = segments(&t, &b);
        r.nontrivial(w.len() < t.chars().count());
        fwd(&t, &w)
    })
    .random("iterator_methods", 1_000_000, 15_000_000, move |s, r| {
        let t = if s.chance(1, 20) { long(s, 800, |s| seg_string(s, &k8, 8)) } else { seg_string(s, &k8, 30) };
        let w = segments(&t, &m8.bounds(&t));
        let words: Vec<&str> = w.iter().map(|x| x.1).collect();
        let f: fn(&&str) -> bool = |x: &&str| x.chars().any(char::is_alphanumeric);
        let some: Vec<&str> = words.iter().copied().filter(f).collect();
        let len = if s.bool() { w.len() } else { some.len() };
        let way = Way::any(s, len, false);
        r.case(&(&t, way));
        r.nontrivial(w.len() > 1 && way.deep());
        r.class(way.name());
        if way.reaches(w.len()) {
            way.check("WordBounds", WordBounds::new(&t), &words)?;
            way.check("WordBoundIndices", WordBoundIndices::new(&t), &w)?;
        }
        if way.reaches(some.len()) {
            way.check("Words", Words::new(&t, f), &some)?;
        }
        Ok(())
    })
    .random("word_filter", 1_500_000, 10_000_000, move |s, r| {
        let t = seg_string(s, &k4, 30);
        let mode = s.below(4);
        r.case(&(&t, mode));
        let f: fn(&&str) -> bool = match mode {
            0 => |x: &&str| x.chars().any(char::is_alphanumeric),
            1 => |x: &&str| x.len() % 2 == 0,
            2 => |x: &&str| hash_of(*x) % 3 == 0,
            _ => |x: &&str| !x.is_ascii(),
        };
        let b = m4.bounds(&t);
        let w: Vec<&str> = segments(&t, &b).into_iter().map(|x| x.1).filter(|x| f(x)).collect();
        let g: Vec<&str> = Words::new(&t, f).take(w.len() + 2).collect();
        r.nontrivial(!w.is_empty() && w.len() + 1 < b.len());
        ensure_eq!(g, w, "words, predicate {}", mode);
        Ok(())
    })
}

pub fn c04() -> Check {
    let k = Arc::new(ByClass::new("Word_Break"));
    let m = Arc::new(Wb::new());
    let (k2, m2, k3, m3) = (k.clone(), m.clone(), k.clone(), m.clone());
    let m9 = m.clone();
    let (k6, m6) = (k.clone(), m.clone());
    let (k8, m8) = (k.clone(), m.clone());
    let histories = Arc::new(move |s: &mut Src, r: &mut Rep, far: bool| -> Res {
        let t = if far { long(s, 800, |s| seg_string(s, &k2, 8)) } else { seg_string(s, &k2, 30) };
        let b = m2.bounds(&t);
        let w = segments(&t, &b);
        let bias = s.below(3);
        let ops: Vec<usize> = (0..w.len() + 3).map(|_| s.below(if bias == 0 { 12 } else { 8 })).collect();
        r.case(&(&t, &ops));
        r.nontrivial(w.len() < t.chars().count() && w.len() > 2);
        let mut g = WordBounds::new(&t);
        let mut gi = WordBoundIndices::new(&t);
        let f: fn(&&str) -> bool = |x: &&str| x.chars().any(char::is_alphanumeric);
        let mut ws = Words::new(&t, f);
        let words: Vec<&str> = w.iter().map(|x| x.1).filter(|x| f(x)).collect();
        let (mut wlo, mut whi) = (0, words.len());
        let (mut lo, mut hi) = (0, w.len());
        for (n, op) in ops.iter().enumerate() {
            let left: usize = w[lo..hi].iter().map(|x| x.1.len()).sum();
            let rest = w[lo..hi].first().map_or(0, |x| x.0);
            let rest = &t[rest..rest + left];
            ensure_eq!(g.as_str(), rest, "remainder before step {} of {:?}", n, ops);
            ensure_eq!(gi.as_str(), rest, "indices remainder before step {} of {:?}", n, ops);
            for (l, h) in [g.size_hint(), gi.size_hint()] {
                ensure!(l <= hi - lo && h.map_or(true, |h| h >= hi - lo), "size hint {:?} but {} segments left", (l, h), hi - lo);
            }
            match op {
                0..=2 => {
                    let want = if lo < hi { lo += 1; Some(w[lo - 1]) } else { None };
                    ensure_eq!(g.next(), want.map(|x| x.1), "next, step {} of {:?}", n, ops);
                    ensure_eq!(gi.next(), want, "indices next, step {} of {:?}", n, ops);
                }
                3..=5 | 8..=11 => {
                    let want = if lo < hi { hi -= 1; Some(w[hi]) } else { None };
                    ensure_eq!(g.next_back(), want.map(|x| x.1), "next_back, step {} of {:?}", n, ops);
                    ensure_eq!(gi.next_back(), want, "indices next_back, step {} of {:?}", n, ops);
                }
                6 => {
                    let c: Vec<&str> = g.clone().take(hi - lo + 2).collect();
                    ensure!(c.iter().copied().eq(w[lo..hi].iter().map(|x| x.1)), "clone yields {:?}, expected {:?}", c, &w[lo..hi]);
                    let want = if wlo < whi { wlo += 1; Some(words[wlo - 1]) } else { None };
                    ensure_eq!(ws.next(), want, "word filter next, step {} of {:?}", n, ops);
                }
                _ => {
                    let c: Vec<_> = gi.clone().rev().take(hi - lo + 2).collect();
                    ensure!(c.iter().copied().eq(w[lo..hi].iter().rev().copied()), "clone yields {:?} backwards, expected {:?}", c, &w[lo..hi]);
                    let want = if wlo < whi { whi -= 1; Some(words[whi]) } else { None };
                    ensure_eq!(ws.next_back(), want, "word filter next_back, step {} of {:?}", n, ops);
                }
            }
        }
        Ok(())
    });
    let h2 = histories.clone();
    Check::new(
        "C04",
        "all word-break class sequences up to length 4 (thorough: 5) read backwards; random strings with random interleavings of next, \
         next_back, remainder, clone on the word iterators and the word filter; long strings with a part repeated up to 513 times. Oracle: the segments of the reference rules. \
         Non-trivial: at least one segment has two or more characters, and for histories at least three segments",
    )
    .exhaustive("backward_sequences", k.seq_count(tier(4, 5)), move |i, r| {
        let s = k.seq(i);
        r.case(&s);
        let b = m.bounds(&s);
        let w = segments(&s, &b);
        r.nontrivial(w.len() < s.chars().count());
        let g: Vec<&str> = WordBounds::new(&s).rev().take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().rev().map(|x| x.1)), "backwards got {:?}, expected reversed {:?}", g, w);
        Ok(())
    })
    .exhaustive("known_characters", KNOWN_TRIPLES, move |i, r| {
        let s = known_triple(i);
        r.case(&s);
        let b = m9.bounds(&s);
        let w = segments(&s, &b);
        r.nontrivial(w.len() < s.chars().count());
        let g: Vec<&str> = WordBounds::new(&s).rev().take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().rev().map(|x| x.1)), "backwards got {:?}, expected reversed {:?}", g, w);
        Ok(())
    })
    .random("huge_backward", 300, 6_000, move |s, r| {
        let (t, name) = huge(s, Some((500, "a b")), |s| seg_string(s, &k6, 12));
        r.case(&name);
        let w = segments(&t, &m6.bounds(&t));
        r.nontrivial(true);
        let mut back: Vec<_> = WordBoundIndices::new(&t).rev().take(w.len() + 3).collect();
        back.reverse();
        differ("indices backwards, reversed", &back, &w)?;
        // from both ends in turn
        let (mut front, mut back, mut it) = (vec![], vec![], WordBounds::new(&t));
        let (a, b) = (1 + s.below(5), 1 + s.below(5));
        while front.len() + back.len() < w.len() + 3 {
            let n = front.len() + back.len();
            front.extend((0..a).filter_map(|_| it.next()));
            back.extend((0..b).filter_map(|_| it.next_back()));
            if front.len() + back.len() == n {
                break;
            }
        }
        back.reverse();
        front.extend(back);
        differ("from both ends", &front, &w.iter().map(|x| x.1).collect::<Vec<_>>())
    })
    .random("long_backward", 100_000, 2_000_000, move |s, r| {
        let t = long(s, 3_000, |s| seg_string(s, &k3, 12));
        r.case(&t);
        let b = m3.bounds(&t);
        let w = segments(&t, &b);
        r.nontrivial(w.len() < t.chars().count());
        let g: Vec<&str> = WordBounds::new(&t).rev().take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().rev().map(|x| x.1)), "backwards got {:?}, expected reversed {:?}", g, w);
        let g: Vec<_> = WordBoundIndices::new(&t).rev().take(w.len() + 2).collect();
        ensure!(g.iter().copied().eq(w.iter().rev().copied()), "indices backwards got {:?}, expected reversed {:?}", g, w);
        Ok(())
    })
    .random("iterator_methods", 1_000_000, 15_000_000, move |s, r| {
        let t = if s.chance(1, 20) { long(s, 800, |s| seg_string(s, &k8, 8)) } else { seg_string(s, &k8, 30) };
        let w = segments(&t, &m8.bounds(&t));
        let words: Vec<&str> = w.iter().map(|x| x.1).collect();
        let f: fn(&&str) -> bool = |x: &&str| x.chars().any(char::is_alphanumeric);
        let some: Vec<&str> = words.iter().copied().filter(f).collect();
        let len = if s.bool() { w.len() } else { some.len() };
        let way = Way::any(s, len, true);
        r.case(&(&t, way));
        r.nontrivial(w.len() > 1 && way.deep());
        r.class(way.name());
        if way.reaches(w.len()) {
            way.check_both("WordBounds", WordBounds::new(&t), &words)?;
            way.check_both("WordBoundIndices", WordBoundIndices::new(&t), &w)?;
        }
        if way.reaches(some.len()) {
            way.check_both("Words", Words::new(&t, f), &some)?;
        }
        Ok(())
    })
    .random("mixed_histories", 5_000_000, 50_000_000, move |s, r| histories(s, r, false))
    .random("long_histories", 25_000, 500_000, move |s, r| h2(s, r, true))
}
