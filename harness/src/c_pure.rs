//! C30: calls do not influence one another, whatever their order, number and threads.
use crate::c_bidi::BidiGen;
use crate::c_idna::{flags, DomainGen};
use crate::gen::{any_string, edge_char, esc};
use crate::norm_model::NormGen;
use crate::pbt::*;
use crate::props;
use crate::{ensure, ensure_eq};
use std::process::Command;
use std::sync::{Arc, OnceLock};
use unic::bidi::{BidiInfo, Level};
use unic::char::property::EnumeratedCharProperty;
use unic::char::range::CharRange;
use unic::normal::StrNormalForm;
use unic::segment::{GraphemeCursor, Graphemes, WordBoundIndices, WordBounds, Words};
use unic::ucd;
use unic_idna_punycode as puny;

/// A call (or a short run of calls) and its result as text. `k` chooses among variants.
type Op = (&'static str, fn(&str, u64) -> String);

fn list<T: std::fmt::Debug>(it: impl Iterator<Item = T>) -> String {
    format!("{:?}", it.collect::<Vec<_>>())
}
fn nth_char(t: &str, k: u64) -> char {
    let n = t.chars().count() as u64;
    t.chars().nth((k % n.max(1)) as usize).unwrap_or('\u{0}')
}
fn per_char() -> &'static Vec<props::P> {
    static P: OnceLock<Vec<props::P>> = OnceLock::new();
    P.get_or_init(props::all)
}
fn base(k: u64) -> Option<Level> {
    [None, Some(Level::ltr()), Some(Level::rtl())][(k % 3) as usize]
}

const OPS: &[Op] = &[
    ("graphemes", |t, k| if k % 2 == 0 { list(Graphemes::new(t)) } else { list(Graphemes::new(t).rev()) }),
    ("legacy graphemes", |t, k| if k % 2 == 0 { list(Graphemes::new_legacy(t)) } else { list(Graphemes::new_legacy(t).rev()) }),
    ("words", |t, k| {
        if k % 2 == 0 {
            list(WordBounds::new(t))
        } else {
            list(WordBoundIndices::new(t).rev())
        }
    }),
    ("word iterator", |t, _| list(Words::new(t, |w: &&str| w.chars().any(ucd::is_alphabetic)))),
    ("cursor", |t, k| {
        let mut at = (k as usize) % (t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        let mut c = GraphemeCursor::new(at, t.len());
        let mut out = format!("{:?}", c.is_boundary(t, 0));
        for i in 0..6 {
            let x = if k >> i & 1 == 0 { c.next_boundary(t, 0) } else { c.prev_boundary(t, 0) };
            out += &format!(" {:?}", x);
        }
        out
    }),
    ("normalization", |t, k| match k % 4 {
        0 => t.nfd().collect(),
        1 => t.nfc().collect(),
        2 => t.nfkd().collect(),
        _ => t.nfkc().collect(),
    }),
    ("normalization printed", |t, k| match k % 4 {
        0 => t.chars().nfd().to_string(),
        1 => t.chars().nfc().to_string(),
        2 => t.chars().nfkd().to_string(),
        _ => t.chars().nfkc().to_string(),
    }),
    ("bidi levels", |t, k| {
        let i = BidiInfo::new(t, base(k));
        format!("{:?} {:?} {:?}", i.levels, i.original_classes, i.paragraphs)
    }),
    ("bidi order", |t, k| {
        let i = BidiInfo::new(t, base(k));
        let mut out = format!("{}", i);
        for p in &i.paragraphs {
            out += &format!(" {:?} {:?}", i.reorder_line(p, p.range.clone()), i.visual_runs(p, p.range.clone()));
        }
        out
    }),
    ("to_ascii", |t, k| format!("{:?}", unic::idna::to_ascii(t, flags(k % 8)))),
    ("to_unicode", |t, k| format!("{:?}", unic::idna::to_unicode(t, flags(k % 8)))),
    ("punycode", |t, _| format!("{:?} {:?}", puny::encode_str(t), puny::decode_to_string(t))),
    ("properties of a character", |t, k| {
        let c = nth_char(t, k);
        let p = per_char();
        let mut out = String::new();
        for i in 0..8 {
            let p = &p[((k >> 8) + i * 7) as usize % p.len()];
            out += &format!("{}={} ", p.name, (p.get)(c));
        }
        out
    }),
    ("one property of all characters", |t, k| {
        let p = per_char();
        let p = &p[(k >> 8) as usize % p.len()];
        t.chars().map(|c| format!("{} ", (p.get)(c))).collect()
    }),
    ("names", |t, _| t.chars().map(|c| format!("{:?} ", ucd::Name::of(c).map(|n| (n.to_string(), n.len())))).collect()),
    ("order of names", |t, k| {
        let mut v: Vec<(ucd::Name, char)> = t.chars().chain([nth_char(t, k)]).filter_map(|c| ucd::Name::of(c).map(|n| (n, c))).collect();
        v.sort();
        list(v.iter().map(|x| x.1))
    }),
    ("blocks and ages", |t, _| {
        t.chars().map(|c| format!("{:?} {:?} ", ucd::Block::of(c).map(|b| (b.name, b.range.low)), ucd::Age::of(c).map(|a| a.actual()))).collect()
    }),
    ("composition", |t, _| {
        let v: Vec<char> = t.chars().collect();
        v.windows(2).map(|w| format!("{:?} ", ucd::normal::compose(w[0], w[1]))).collect()
    }),
    ("decomposition", |t, k| {
        let mut out = String::new();
        for c in t.chars() {
            if k % 2 == 0 {
                ucd::normal::decompose_canonical(c, |d| out.push(d));
            } else {
                ucd::normal::decompose_compatible(c, |d| out.push(d));
            }
        }
        out
    }),
    ("characters of a range", |t, k| {
        let (a, b) = (nth_char(t, k), nth_char(t, k >> 8));
        let r = CharRange::closed(a, b);
        format!("{} {:?} {:?} {:?}", r.len(), r.iter().nth((k % 97) as usize), r.iter().rev().nth((k % 89) as usize), r.iter().take(20).collect::<Vec<_>>())
    }),
    ("parsing", |t, k| {
        let all = ucd::GeneralCategory::all_values();
        let v = all[k as usize % all.len()];
        format!("{:?} {:?} {:?} {}", t.parse::<ucd::GeneralCategory>(), v.abbr_name().parse::<ucd::GeneralCategory>(), v.long_name().parse::<ucd::BidiClass>(), v)
    }),
    ("notation", |t, _| t.chars().map(|c| unic::char::basics::unicode_notation(c).to_string() + " ").collect()),
];

/// Iterators over the text, alive at once.
fn iterators<'a>(t: &'a str) -> Vec<Box<dyn Iterator<Item = String> + 'a>> {
    let c = |c: char| c.to_string();
    vec![
        Box::new(Graphemes::new(t).map(|x| x.to_string())),
        Box::new(Graphemes::new_legacy(t).rev().map(|x| x.to_string())),
        Box::new(WordBounds::new(t).map(|x| x.to_string())),
        Box::new(WordBoundIndices::new(t).rev().map(|x| format!("{:?}", x))),
        Box::new(t.nfd().map(c)),
        Box::new(t.nfc().map(c)),
        Box::new(t.nfkd().map(c)),
        Box::new(t.nfkc().map(c)),
        Box::new(t.chars().nfc().map(c)),
        Box::new(t.chars().filter_map(ucd::Name::of).map(|n| n.to_string())),
        Box::new(CharRange::closed(nth_char(t, 0), nth_char(t, 1)).iter().take(40).map(c)),
        Box::new(ucd::BlockIter::new().take(40).map(|b| format!("{} {:?}", b.name, b.range))),
    ]
}

/// A text that is easily taken for `t`: characters whose numbers have the same low bits, the same
/// bytes but for a few, the same length, beginning or end.
fn relative(s: &mut Src, t: &str) -> String {
    let how = s.below(5);
    let mut v: Vec<char> = t.chars().collect();
    let at = s.below(v.len().max(1));
    let bits = s.pick(&[8u32, 12, 16, 16]);
    let n = s.range(1, 16) as u32;
    for (i, c) in v.iter_mut().enumerate() {
        if how < 2 || i == at {
            let x = match how {
                0 | 2 => (*c as u32) ^ (n << bits),
                1 | 3 => (*c as u32).wrapping_add(n << bits) % 0x110000,
                // of the same length in bytes
                _ => (*c as u32) ^ (n & 0x1f),
            };
            *c = char::from_u32(x).unwrap_or(*c);
        }
    }
    v.into_iter().collect()
}

type Call = (usize, usize, u64);
struct Gen {
    norm: NormGen,
    bidi: BidiGen,
    idna: DomainGen,
}
impl Gen {
    fn text(&self, s: &mut Src) -> String {
        match s.below(6) {
            0 => self.norm.string(s, 12),
            1 => self.bidi.string(s, 16),
            2 => self.idna.domain(s),
            3 => s.list(4, 12, edge_char).into_iter().collect(),
            4 => s.pick(&["Lu", "xn--bcher-kva.de", "a\u{300}\u{5d0}1", "can't", "\u{1f1e6}\u{1f1e7}\u{1f1e8}", ""]).to_string(),
            _ => any_string(s, 20),
        }
    }
    fn calls(&self, s: &mut Src) -> (Vec<String>, Vec<Call>) {
        let mut texts: Vec<String> = (0..s.urange(1, 5)).map(|_| self.text(s)).collect();
        if s.chance(1, 2) {
            let t = s.pick(&texts);
            texts.push(relative(s, &t));
        }
        // now and then the same few calls over and over
        let few = s.chance(1, 3);
        let pool: Vec<usize> = (0..s.urange(1, 3)).map(|_| s.below(OPS.len())).collect();
        let n = s.urange(2, 24);
        let calls = (0..n)
            .map(|_| {
                let op = if few { s.pick(&pool) } else { s.below(OPS.len()) };
                (op, s.below(texts.len()), s.raw(1 << 20))
            })
            .collect();
        (texts, calls)
    }
}
fn run(texts: &[String], c: &Call) -> String {
    let (op, t, k) = *c;
    match catch(|| OPS[op].1(&texts[t], k)) {
        Ok(x) => x,
        Err(e) => format!("panic: {}", e),
    }
}
fn same(texts: &[String], calls: &[Call], i: usize, got: &str, want: &str, how: &str) -> Res {
    let (op, t, k) = calls[i];
    ensure!(got == want, "{} ({}) of {}: {} {}, but {} at first", OPS[op].0, k, esc(&texts[t]), how, esc(got), esc(want));
    Ok(())
}

/// What a new process answers: the calls made from the seed, run once in order.
pub fn child(seed: u64) {
    let g = Gen { norm: NormGen::new(), bidi: BidiGen::new(), idna: DomainGen::new() };
    let (texts, calls) = g.calls(&mut Src::random(seed));
    for c in &calls {
        println!("{}", esc(&run(&texts, c)));
    }
}

pub fn c30() -> Check {
    let g = Arc::new(Gen { norm: NormGen::new(), bidi: BidiGen::new(), idna: DomainGen::new() });
    let (g1, g2, g3, g4) = (g.clone(), g.clone(), g.clone(), g.clone());
    Check::new(
        "C30",
        "series of 2 to 24 calls of 22 kinds (segmentation, cursors, normalization, bidi, IDNA, punycode, properties, names, \
         ranges, parsing, printing) on a few texts, some of them easily taken for another: repeated in reverse, in another order by several threads at once, in one \
         place in memory, and in a new process; 12 iterators of every kind alive at once, stepped in any order, against each run alone. Non-trivial: \
         two calls of the series are of one kind on different texts, or more than one iterator yields something",
    )
    .random("other orders", 300_000, 3_000_000, move |s, r| {
        let (texts, calls) = g.calls(s);
        r.case(&(&texts, &calls));
        r.note(|| format!("{:?} {:?}", texts.iter().map(|t| esc(t)).collect::<Vec<_>>(), calls));
        r.nontrivial(calls.iter().any(|a| calls.iter().any(|b| a.0 == b.0 && texts[a.1] != texts[b.1])));
        let first: Vec<String> = calls.iter().map(|c| run(&texts, c)).collect();
        for i in (0..calls.len()).rev() {
            same(&texts, &calls, i, &run(&texts, &calls[i]), &first[i], "in reverse order")?;
        }
        for _ in 0..calls.len() {
            let i = s.below(calls.len());
            same(&texts, &calls, i, &run(&texts, &calls[i]), &first[i], "after others")?;
        }
        r.evals(3 * calls.len() as u64);
        Ok(())
    })
    .random("in the same place", 60_000, 1_000_000, move |s, r| {
        // texts of one length, one after the other in the same memory
        let (mut texts, mut calls) = g4.calls(s);
        let longest = texts.iter().map(|t| t.len()).max().unwrap();
        for t in &mut texts {
            while t.len() < longest {
                t.push(s.pick(&['a', ' ', '1', '.', '!']));
            }
        }
        for _ in 0..s.urange(1, 4) {
            let i = s.below(calls.len());
            let (op, _, k) = calls[i];
            calls.push((op, s.below(texts.len()), k));
        }
        r.case(&(&texts, &calls));
        r.note(|| format!("{:?} {:?}", texts.iter().map(|t| esc(t)).collect::<Vec<_>>(), calls));
        r.nontrivial(calls.iter().any(|a| calls.iter().any(|b| a.0 == b.0 && texts[a.1] != texts[b.1])));
        let first: Vec<String> = calls.iter().map(|c| run(&texts, c)).collect();
        let mut place = [String::with_capacity(longest + 4)];
        for i in (0..calls.len()).chain((0..calls.len()).rev()) {
            place[0].clear();
            place[0].push_str(&texts[calls[i].1]);
            let got = run(&place, &(calls[i].0, 0, calls[i].2));
            same(&texts, &calls, i, &got, &first[i], "where others were")?;
        }
        r.evals(3 * calls.len() as u64);
        Ok(())
    })
    .random("threads", 8_000, 200_000, move |s, r| {
        let (texts, calls) = g1.calls(s);
        let turns: Vec<usize> = (0..3).map(|_| s.below(calls.len())).collect();
        r.case(&(&texts, &calls, &turns));
        r.note(|| format!("{:?} {:?}", texts.iter().map(|t| esc(t)).collect::<Vec<_>>(), calls));
        r.nontrivial(calls.iter().any(|a| calls.iter().any(|b| a.0 == b.0 && texts[a.1] != texts[b.1])));
        let first: Vec<String> = calls.iter().map(|c| run(&texts, c)).collect();
        let n = calls.len();
        let all: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = turns
                .iter()
                .map(|&t| {
                    let (texts, calls) = (&texts, &calls);
                    sc.spawn(move || {
                        (0..4 * n)
                            .map(|i| {
                                let i = if t % 2 == 0 { (i + t) % n } else { (n - 1 - i % n + t) % n };
                                (i, run(texts, &calls[i]))
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, got) in all.iter().flatten() {
            same(&texts, &calls, *i, got, &first[*i], "beside other threads")?;
        }
        r.evals(13 * n as u64);
        Ok(())
    })
    .random("a new process", 300, 6_000, move |s, r| {
        let seed = s.raw(1 << 40);
        let (texts, calls) = g2.calls(&mut Src::random(seed));
        r.case(&(&texts, &calls));
        r.note(|| format!("{:?} {:?}", texts.iter().map(|t| esc(t)).collect::<Vec<_>>(), calls));
        r.nontrivial(calls.iter().any(|a| calls.iter().any(|b| a.0 == b.0 && texts[a.1] != texts[b.1])));
        let here: Vec<String> = calls.iter().rev().map(|c| esc(&run(&texts, c))).collect();
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = Command::new(exe).args(["--pure", &seed.to_string()]).output().map_err(|e| e.to_string())?;
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let there: Vec<&str> = out.lines().collect();
        ensure_eq!(there.len(), calls.len(), "answers of a new process");
        for (i, got) in here.iter().rev().enumerate() {
            let (op, t, k) = calls[i];
            ensure!(got == there[i], "{} ({}) of {}: here {}, in a new process {}", OPS[op].0, k, esc(&texts[t]), got, there[i]);
        }
        r.evals(2 * calls.len() as u64);
        Ok(())
    })
    .random("iterators side by side", 60_000, 1_000_000, move |s, r| {
        let texts: Vec<String> = (0..s.urange(1, 3)).map(|_| g3.text(s)).collect();
        r.case(&texts);
        r.note(|| format!("{:?}", texts.iter().map(|t| esc(t)).collect::<Vec<_>>()));
        let alone: Vec<Vec<String>> = texts.iter().flat_map(|t| iterators(t)).map(|it| it.collect()).collect();
        r.nontrivial(alone.iter().filter(|v| !v.is_empty()).count() > 1);
        let mut its: Vec<_> = texts.iter().flat_map(|t| iterators(t)).collect();
        let mut got: Vec<Vec<String>> = its.iter().map(|_| vec![]).collect();
        let mut left: Vec<usize> = (0..its.len()).collect();
        while !left.is_empty() {
            let i = s.below(left.len());
            let j = left[i];
            let steps = s.pick(&[1, 1, 2, 5]);
            for _ in 0..steps {
                match its[j].next() {
                    Some(x) => got[j].push(x),
                    None => {
                        left.swap_remove(i);
                        break;
                    }
                }
            }
        }
        for j in 0..got.len() {
            ensure!(got[j] == alone[j], "iterator {} over {}: beside others {:?}, alone {:?}", j % 12, esc(&texts[j / 12]), got[j], alone[j]);
        }
        r.evals(alone.len() as u64);
        Ok(())
    })
}
