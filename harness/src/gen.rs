//! Generators shared by the checks.
use crate::pbt::{Res, Rng, Src};
use crate::refdata::{prop, Prop};

/// A character drawn by class: first the value of the property, then a character with it.
/// Characters that code is tempted to treat by name.
pub const KNOWN: &[char] = &[
    '\t', '\n', '\u{B}', '\u{C}', '\r', ' ', '!', '"', '#', '&', '\'', '(', '*', '+', ',', '-', '.', '/', '0', '1', '9', ':', ';', '=', '@', 'A', 'Z', '[', '_', 'a', 'b', 'z', '{',
    '\u{7F}', '\u{85}', '\u{A0}', '\u{AD}', '\u{B7}', '\u{C9}', '\u{DF}', '\u{E9}', '\u{131}', '\u{300}', '\u{301}', '\u{302}', '\u{308}', '\u{327}', '\u{32A}', '\u{34F}',
    '\u{3B1}', '\u{3C2}', '\u{410}', '\u{5B0}', '\u{5BE}', '\u{5D0}', '\u{5D1}', '\u{5EA}', '\u{5F3}', '\u{5F4}', '\u{600}', '\u{60C}', '\u{61C}', '\u{627}', '\u{628}',
    '\u{64B}', '\u{660}', '\u{661}', '\u{66B}', '\u{6DD}', '\u{6F0}', '\u{70F}', '\u{903}', '\u{915}', '\u{93C}', '\u{93E}', '\u{94D}', '\u{D4E}', '\u{E01}', '\u{E31}',
    '\u{E33}', '\u{1100}', '\u{1160}', '\u{1161}', '\u{11A8}', '\u{180E}', '\u{2003}', '\u{200B}', '\u{200C}', '\u{200D}', '\u{200E}', '\u{200F}', '\u{2018}', '\u{2019}',
    '\u{2024}', '\u{2028}', '\u{2029}', '\u{202A}', '\u{202B}', '\u{202C}', '\u{202D}', '\u{202E}', '\u{202F}', '\u{2060}', '\u{2066}', '\u{2067}', '\u{2068}', '\u{2069}',
    '\u{20AC}', '\u{20E3}', '\u{2122}', '\u{2212}', '\u{2329}', '\u{232A}', '\u{2640}', '\u{261D}', '\u{2642}', '\u{2695}', '\u{2764}', '\u{3000}', '\u{3001}', '\u{3008}',
    '\u{3009}', '\u{3042}', '\u{3099}', '\u{30A2}', '\u{30FC}', '\u{4E00}', '\u{AC00}', '\u{AC01}', '\u{D7A3}', '\u{FB1D}', '\u{FE0E}', '\u{FE0F}', '\u{FE13}', '\u{FEFF}',
    '\u{FF0E}', '\u{FF1A}', '\u{FF9E}', '\u{FFFD}', '\u{10A00}', '\u{110BD}', '\u{1F1E6}', '\u{1F1FA}', '\u{1F1FF}', '\u{1F308}', '\u{1F3F3}', '\u{1F3FB}', '\u{1F3FD}',
    '\u{1F3FF}', '\u{1F466}', '\u{1F468}', '\u{1F469}', '\u{1F48B}', '\u{1F5E8}', '\u{1F600}', '\u{E0001}', '\u{E0020}', '\u{E007F}', '\u{E0100}',
];

/// All sequences of one to three of them, by number.
pub const KNOWN_TRIPLES: u64 = ((KNOWN.len() + 1) * KNOWN.len() * (KNOWN.len() + 1)) as u64;
pub fn known_triple(i: u64) -> String {
    let k = KNOWN.len() as u64;
    let at = |i: u64| KNOWN.get(i as usize).copied();
    [at(i % (k + 1)), at(i / (k + 1) % k), at(i / (k + 1) / k)].iter().flatten().collect()
}

pub struct ByClass {
    pub p: &'static Prop,
    reps: Vec<char>,
    /// the well-known characters of each class
    known: Vec<Vec<char>>,
}
impl ByClass {
    pub fn new(name: &str) -> ByClass {
        let p = prop(name);
        let reps = (0..p.values.len() as u16)
            .map(|v| {
                let rs = p.ranges_of(v);
                // prefer a printable ASCII representative, else the first range
                rs.iter()
                    .find(|r| r.0 <= 0x7e && r.1 >= 0x21)
                    .map(|r| char::from_u32(r.0.max(0x21)).unwrap())
                    .map(|c| if rs.iter().any(|r| r.0 <= 0x61 && r.1 >= 0x61) { 'a' } else { c })
                    .unwrap_or_else(|| char::from_u32(rs[0].0).unwrap())
            })
            .collect();
        let known = (0..p.values.len() as u16)
            .map(|v| KNOWN.iter().copied().filter(|&c| p.ranges_of(v).iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1)).collect())
            .collect();
        ByClass { p, reps, known }
    }
    pub fn n(&self) -> usize {
        self.reps.len()
    }
    pub fn rep(&self, v: usize) -> char {
        self.reps[v]
    }
    pub fn id(&self, v: &str) -> usize {
        self.p.value_id(v).unwrap_or_else(|| panic!("no value {}", v)) as usize
    }
    pub fn of_class(&self, s: &mut Src, v: usize) -> char {
        match s.below(8) {
            0..=2 => self.p.char_of(s, v as u16),
            3 | 4 if !self.known[v].is_empty() => s.pick(&self.known[v]),
            3 => self.p.char_of(s, v as u16),
            _ => self.reps[v],
        }
    }
    pub fn char(&self, s: &mut Src) -> char {
        let v = s.below(self.n());
        self.of_class(s, v)
    }
    /// A string over a small random palette of classes (so that long runs of interacting classes
    /// are common), or over all of them.
    pub fn string(&self, s: &mut Src, max: usize) -> String {
        let palette: Vec<usize> = if s.chance(2, 3) {
            (0..s.urange(1, 5)).map(|_| s.below(self.n())).collect()
        } else {
            (0..self.n()).collect()
        };
        let avg = s.pick(&[3usize, 6, 12, 30]);
        let cs = s.list(avg, max, |s| {
            let v = s.pick(&palette);
            self.of_class(s, v)
        });
        cs.into_iter().collect()
    }
    /// All class sequences of length `0..=max`, by number.
    pub fn seq_count(&self, max: u32) -> u64 {
        let k = self.n() as u64;
        (0..=max).map(|l| k.pow(l)).sum()
    }
    pub fn seq(&self, mut i: u64) -> String {
        let k = self.n() as u64;
        let mut len = 0u32;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        let mut out = String::new();
        for _ in 0..len {
            out.push(self.reps[(i % k) as usize]);
            i /= k;
        }
        out
    }
}

pub fn esc(s: &str) -> String {
    s.chars()
        .map(|c| if (' '..='~').contains(&c) && c != '\\' { c.to_string() } else { format!("\\u{{{:X}}}", c as u32) })
        .collect()
}

/// Any string: a mixture of ASCII, any scalar value, and characters near interesting edges.
pub fn any_string(s: &mut Src, max: usize) -> String {
    let mode = s.below(4);
    let avg = s.pick(&[2usize, 5, 12]);
    s.list(avg, max, |s| match mode {
        0 => s.range(0x20, 0x7e) as u8 as char,
        1 => s.any_char(),
        2 => edge_char(s),
        _ => match s.below(3) {
            0 => s.range(0, 0x7f) as u8 as char,
            1 => s.any_char(),
            _ => edge_char(s),
        },
    })
    .into_iter()
    .collect()
}

pub const EDGES: &[u32] = &[
    0, 1, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xfffe,
    0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0xac00, 0xd7a3, 0xd7a4, 0xabff,
];
pub fn edge_char(s: &mut Src) -> char {
    char::from_u32(s.pick(EDGES)).unwrap()
}

/// Numbers of repetitions around which counters and buffers may change.
const LENGTHS: [usize; 22] =
    [5, 9, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 300, 513];

/// A long string of at most `max` characters: short pieces of a string repeated many times, or many
/// strings one after another.
pub fn long(s: &mut Src, max: usize, piece: impl Fn(&mut Src) -> String) -> String {
    let mut v: Vec<char> = piece(s).chars().collect();
    if s.chance(1, 4) {
        let n = s.pick(&LENGTHS) / 4 + 2;
        for _ in 0..n {
            v.extend(piece(s).chars());
        }
    } else {
        for _ in 0..s.urange(1, 3) {
            if v.is_empty() {
                v.push('a');
            }
            // most often one character, since that is what makes long runs
            let len = s.pick(&[1, 1, 1, 2, 2, 3, 4]).min(v.len());
            let i = s.below(v.len() - len + 1);
            let n = if max >= 2_000 && s.chance(1, 8) { s.pick(&[1023, 1024, 1025, 1026, 2047, 2048, 2049, 2100]) } else { s.pick(&LENGTHS) };
            let p: Vec<char> = v[i..i + len].to_vec();
            let mut w: Vec<char> = v[..i].to_vec();
            for _ in 0..n {
                w.extend(&p);
            }
            w.extend(&v[i..]);
            if w.len() <= max {
                v = w;
            }
        }
    }
    v.truncate(max);
    v.into_iter().collect()
}

/// A text of around 65 536 or 131 072 bytes or characters (or, seldom, more): pieces of generated
/// text in a random order, now and then repeated.  The second part of the result names the case.
/// With `apart`, no run goes on for much more than so many bytes without an interruption.
pub fn huge(s: &mut Src, apart: Option<(usize, &str)>, piece: impl Fn(&mut Src) -> String) -> (String, String) {
    let mut parts: Vec<String> = (0..s.urange(1, 14)).map(|_| piece(s)).filter(|p| !p.is_empty()).collect();
    if parts.is_empty() {
        parts.push("a".to_string());
    }
    let seed = s.raw(1 << 32);
    let size = s.pick(&[65_536usize, 65_536, 65_536, 131_072, 200_000]) + s.below(40) - 20;
    let by_chars = s.chance(1, 3);
    let mut rng = Rng::new(seed);
    let mut t = String::with_capacity(size + 100);
    let mut n = 0;
    let mut last = 0;
    while n < size {
        if let Some((every, stop)) = apart {
            if t.len() - last > every {
                t.push_str(stop);
                n += stop.len();
                last = t.len();
            }
        }
        let p = &parts[(rng.next() % parts.len() as u64) as usize];
        let times = if rng.next() % 50 == 0 { 1 + rng.next() % 60 } else { 1 };
        for _ in 0..times {
            t.push_str(p);
            n += if by_chars { p.chars().count() } else { p.len() };
        }
    }
    // exactly the size where that is possible
    while t.len() > size && !by_chars {
        t.pop();
    }
    let name = format!("{} bytes in pieces of {:?}, order {}", t.len(), parts, seed);
    (t, name)
}

/// Where two sequences differ first, in short.
pub fn differ<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let part = |v: &[T]| format!("{:?}", &v[i.saturating_sub(2).min(v.len())..(i + 4).min(v.len())]);
    Err(format!("{}: item {} of {}: got …{}…, expected {} items …{}…", what, i, got.len(), part(got), want.len(), part(want)))
}

/// The beginning of a message about a huge text.
pub fn short(e: String) -> String {
    let mut it = e.chars();
    let head: String = it.by_ref().take(400).collect();
    let rest = it.count();
    if rest > 0 { format!("{}… ({} characters more)", head, rest) } else { head }
}

/// Which way of consuming an iterator, from where, and how far.
#[derive(Clone, Copy, Debug, Hash)]
pub struct Way {
    skip: usize,
    skip_back: usize,
    method: usize,
    n: usize,
}

/// The methods of a forward iterator, and (from 20) those of a double-ended one.
const METHODS: [&str; 25] = [
    "count", "last", "nth", "nth nth", "fold", "for_each", "find", "position", "any", "all", "by_ref take", "step_by", "skip",
    "zip", "reduce", "find_map", "collect", "size_hint", "peekable", "next after the end", "nth_back", "rfold", "rfind", "rev skip", "rev last",
];

impl Way {
    /// Any way to consume an iterator of `len` items.
    pub fn any(s: &mut Src, len: usize, both_ends: bool) -> Way {
        let skip = if s.bool() { 0 } else { s.below(len + 1) };
        let skip_back = if both_ends && s.chance(1, 3) { s.below(len + 1 - skip) } else { 0 };
        let method = s.below(if both_ends { 25 } else { 20 });
        let left = len - skip - skip_back;
        let n = match s.below(8) {
            0 => 0,
            1 => left,
            2 => left.saturating_sub(1),
            3 => left + 1,
            4 => s.pick(&[254, 255, 256, 257, 65_536, usize::MAX - 1]),
            _ => s.below(left + 2),
        };
        Way { skip, skip_back, method, n }
    }
    pub fn name(&self) -> &'static str {
        METHODS[self.method]
    }
    /// Are there enough items for the steps before the method?
    pub fn reaches(&self, len: usize) -> bool {
        self.skip + self.skip_back <= len
    }
    pub fn deep(&self) -> bool {
        self.skip > 0 || self.n > 0
    }
    /// Does the iterator yield `want` when it is consumed this way?
    pub fn check<I>(&self, what: &str, mut it: I, want: &[I::Item]) -> Res
    where
        I: Iterator,
        I::Item: PartialEq + Clone + std::fmt::Debug,
    {
        for i in 0..self.skip {
            self.same(what, "next", &it.next(), &Some(want[i].clone()))?;
        }
        self.forward(what, it, &want[self.skip..])
    }
    /// The same for iterators with two ends.
    pub fn check_both<I>(&self, what: &str, mut it: I, want: &[I::Item]) -> Res
    where
        I: DoubleEndedIterator,
        I::Item: PartialEq + Clone + std::fmt::Debug,
    {
        for i in 0..self.skip {
            self.same(what, "next", &it.next(), &Some(want[i].clone()))?;
        }
        let mut end = want.len();
        for _ in 0..self.skip_back {
            end -= 1;
            self.same(what, "next_back", &it.next_back(), &Some(want[end].clone()))?;
        }
        let want = &want[self.skip..end];
        let (len, n) = (want.len(), self.n);
        let back = |k: usize| if k < len { Some(want[len - 1 - k].clone()) } else { None };
        match self.method {
            20 => {
                self.same(what, "nth_back", &it.nth_back(n), &back(n))?;
                self.same(what, "next_back after nth_back", &it.next_back(), &n.checked_add(1).and_then(back))?;
                let rest: Vec<_> = it.take(len + 2).collect();
                self.same(what, "rest after nth_back", &rest[..], &want[..len.saturating_sub(n.saturating_add(2))])
            }
            21 => {
                let mut v = it.rfold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                v.reverse();
                self.same(what, "rfold, reversed", &v[..], want)
            }
            22 => {
                let mut k = 0;
                let found = it.rfind(|_| {
                    k += 1;
                    k > n
                });
                self.same(what, "rfind", &found, &back(n))?;
                let rest: Vec<_> = it.take(len + 2).collect();
                self.same(what, "rest after rfind", &rest[..], &want[..len.saturating_sub(n.saturating_add(1))])
            }
            23 => {
                let mut v: Vec<_> = it.rev().skip(n).collect();
                v.reverse();
                self.same(what, "rev skip", &v[..], &want[..len.saturating_sub(n)])
            }
            24 => self.same(what, "rev last", &it.rev().last(), &want.first().cloned()),
            _ => self.forward(what, it, want),
        }
    }
    fn same<T: PartialEq + std::fmt::Debug + ?Sized>(&self, what: &str, method: &str, got: &T, want: &T) -> Res {
        if got == want {
            Ok(())
        } else {
            Err(short(format!("{}, {:?}: {} gives {:?}, expected {:?}", what, self, method, got, want)))
        }
    }
    fn forward<I>(&self, what: &str, mut it: I, want: &[I::Item]) -> Res
    where
        I: Iterator,
        I::Item: PartialEq + Clone + std::fmt::Debug,
    {
        let (len, n) = (want.len(), self.n);
        let at = |k: usize| want.get(k).cloned();
        let from = |k: usize| &want[k.min(len)..];
        let m = METHODS[self.method];
        match self.method {
            0 => self.same(what, m, &it.count(), &len),
            1 => self.same(what, m, &it.last(), &want.last().cloned()),
            2 => {
                self.same(what, m, &it.nth(n), &at(n))?;
                let rest: Vec<_> = it.take(len + 2).collect();
                self.same(what, "rest after nth", &rest[..], from(n.saturating_add(1)))
            }
            3 => {
                let k = n % (len / 2 + 1);
                self.same(what, m, &(it.nth(k), it.nth(k)), &(at(k), at(2 * k + 1)))?;
                self.same(what, "count after nth nth", &it.count(), &len.saturating_sub(2 * k + 2))
            }
            4 => {
                let v = it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                self.same(what, m, &v[..], want)
            }
            5 => {
                let mut v = vec![];
                it.for_each(|x| v.push(x));
                self.same(what, m, &v[..], want)
            }
            6..=9 | 15 => {
                let mut k = 0;
                let mut hit = || {
                    k += 1;
                    k > n
                };
                match self.method {
                    6 => self.same(what, m, &it.find(|_| hit()), &at(n))?,
                    7 => self.same(what, m, &it.position(|_| hit()), &Some(n).filter(|n| *n < len))?,
                    8 => self.same(what, m, &it.any(|_| hit()), &(n < len))?,
                    9 => self.same(what, m, &it.all(|_| !hit()), &(n >= len))?,
                    _ => self.same(what, m, &it.find_map(|x| if hit() { Some(x) } else { None }), &at(n))?,
                }
                let rest: Vec<_> = it.take(len + 2).collect();
                self.same(what, "rest of it", &rest[..], from(n.saturating_add(1)))
            }
            10 => {
                let v: Vec<_> = it.by_ref().take(n).collect();
                self.same(what, m, &v[..], &want[..n.min(len)])?;
                let rest: Vec<_> = it.collect();
                self.same(what, "rest", &rest[..], from(n))
            }
            11 => {
                let k = n.min(1000) + 1;
                let v: Vec<_> = it.step_by(k).collect();
                let w: Vec<_> = want.iter().step_by(k).cloned().collect();
                self.same(what, m, &v, &w)
            }
            12 => {
                let v: Vec<_> = it.skip(n).collect();
                self.same(what, m, &v[..], from(n))
            }
            13 => {
                let v: Vec<_> = it.zip(0..n).collect();
                let w: Vec<_> = want.iter().cloned().zip(0..n).collect();
                self.same(what, m, &v, &w)
            }
            14 => {
                let mut k = 0;
                let last = it.reduce(|_, x| {
                    k += 1;
                    x
                });
                self.same(what, m, &(last, k), &(want.last().cloned(), len.saturating_sub(1)))
            }
            16 => {
                let v: Vec<_> = it.collect();
                self.same(what, m, &v[..], want)
            }
            17 => {
                let (lo, hi) = it.size_hint();
                if lo > len || hi.map_or(false, |h| h < len) {
                    return Err(format!("{}, {:?}: size hint {:?} with {} items left", what, self, (lo, hi), len));
                }
                Ok(())
            }
            18 => {
                let mut it = it.peekable();
                self.same(what, m, &it.peek().cloned(), &at(0))?;
                let v: Vec<_> = it.collect();
                self.same(what, m, &v[..], want)
            }
            _ => {
                while it.next().is_some() {}
                self.same(what, m, &(it.next(), it.next()), &(None, None))
            }
        }
    }
}
