//! C12-C15: Punycode and IDNA.
use crate::bidi_model::{self as bm, C};
use crate::gen::{any_string, esc, long, ByClass, KNOWN};
use crate::norm_model::{norm, NormGen};
use crate::pbt::*;
use crate::refdata::{parse_hex, prop, Prop};
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};
use unic_idna::{to_ascii, to_unicode, Flags};
use unic_idna_punycode as puny;

// ---------------------------------------------------------------- RFC 3492 in wide integers

fn adapt(mut delta: u128, num: u128, first: bool) -> u128 {
    delta = if first { delta / 700 } else { delta / 2 };
    delta += delta / num;
    let mut k = 0;
    while delta > 35 * 26 / 2 {
        delta /= 35;
        k += 36;
    }
    k + 36 * delta / (delta + 38)
}
fn threshold(k: u128, bias: u128) -> u128 {
    if k <= bias + 1 {
        1
    } else if k >= bias + 26 {
        26
    } else {
        k - bias
    }
}
/// RFC 3492 section 6.3.  Also the largest value of delta.
pub fn ref_encode(input: &[char]) -> (String, u128) {
    let mut out: String = input.iter().filter(|c| (**c as u32) < 0x80).collect();
    let b = out.len() as u128;
    let (mut n, mut delta, mut bias, mut h, mut top) = (0x80u32, 0u128, 72u128, b, 0u128);
    if b > 0 {
        out.push('-');
    }
    let mut points: Vec<u32> = input.iter().map(|c| *c as u32).filter(|c| *c >= 0x80).collect();
    points.sort();
    points.dedup();
    for m in points {
        delta += (m - n) as u128 * (h + 1);
        top = top.max(delta);
        n = m;
        for &c in input {
            let c = c as u32;
            if c < n {
                delta += 1;
                top = top.max(delta);
            }
            if c == n {
                let mut q = delta;
                let mut k = 36;
                loop {
                    let t = threshold(k, bias);
                    if q < t {
                        break;
                    }
                    out.push(digit(t + (q - t) % (36 - t)));
                    q = (q - t) / (36 - t);
                    k += 36;
                }
                out.push(digit(q));
                bias = adapt(delta, h + 1, h == b);
                delta = 0;
                h += 1;
            }
        }
        delta += 1;
        top = top.max(delta);
        n += 1;
    }
    (out, top)
}
fn digit(v: u128) -> char {
    b"abcdefghijklmnopqrstuvwxyz0123456789"[v as usize] as char
}
/// RFC 3492 section 6.2: Err(true) if a value is greater than 2^32-1, Err(false) if malformed.
pub fn ref_decode(input: &str) -> Result<Vec<char>, &'static str> {
    let cs: Vec<char> = input.chars().collect();
    let b = cs.iter().rposition(|c| *c == '-').unwrap_or(0);
    if cs[..b].iter().any(|c| !c.is_ascii()) {
        return Err("non-ASCII");
    }
    let mut out: Vec<char> = cs[..b].to_vec();
    let mut rest = cs[if b > 0 { b + 1 } else { 0 }..].iter();
    let (mut n, mut i, mut bias) = (0x80u128, 0u128, 72u128);
    const MAX: u128 = u32::MAX as u128;
    'outer: loop {
        let old = i;
        let (mut w, mut k) = (1u128, 36u128);
        loop {
            let c = match rest.next() {
                Some(c) => *c,
                None if k == 36 => break 'outer,
                None => return Err("truncated"),
            };
            let d = match c {
                'a'..='z' => c as u128 - 'a' as u128,
                'A'..='Z' => c as u128 - 'A' as u128,
                '0'..='9' => c as u128 - '0' as u128 + 26,
                _ => return Err("bad digit"),
            };
            i += d * w;
            if i > MAX {
                return Err("overflow");
            }
            let t = threshold(k, bias);
            if d < t {
                break;
            }
            w *= 36 - t;
            if w > MAX {
                return Err("overflow");
            }
            k += 36;
        }
        let len = out.len() as u128 + 1;
        bias = adapt(i - old, len, old == 0);
        n += i / len;
        i %= len;
        if n > MAX {
            return Err("overflow");
        }
        match char::from_u32(n as u32) {
            Some(c) => out.insert(i as usize, c),
            None => return Err("no scalar value"),
        }
        i += 1;
    }
    Ok(out)
}

// ---------------------------------------------------------------- Punycode checks

fn check_encode(t: &[char], r: &mut Rep) -> Res {
    let show = |t: &[char]| if t.len() > 80 { format!("{} characters", t.len()) } else { esc(&t.iter().collect::<String>()) };
    let (want, top) = ref_encode(t);
    let got = puny::encode(t);
    let s: String = t.iter().collect();
    ensure!(puny::encode_str(&s) == got, "encode_str and encode differ on {}", show(t));
    if top > u32::MAX as u128 {
        r.class("overflow");
        // an implementation with wider integers would be right too
        ensure!(got.is_none() || got.as_ref() == Some(&want), "{}: overflow gives a wrong encoding", show(t));
        return Ok(());
    }
    match got {
        None => return Err(format!("{}: refused, though no value exceeds {}", show(t), top)),
        Some(g) => {
            let short = |g: &str| if g.len() > 400 { format!("...{}", esc(&g[g.len() - 100..])) } else { esc(g) };
            ensure!(g == want, "{}: encoded as {}, expected {}", show(t), short(&g), short(&want));
            let back = puny::decode(&g);
            if g.len() > 63 && back.is_none() && ref_decode(&g) == Err("overflow") {
                // the decoder adds its position to the delta, so it can overflow where the encoder does not
                r.class("decoder_overflow");
                return Ok(());
            }
            ensure!(back.as_deref() == Some(t), "{}: {} does not decode to it", show(t), short(&g));
            ensure!(puny::decode_to_string(&g) == Some(s), "{}: {} does not decode to it as a string", show(t), short(&g));
        }
    }
    Ok(())
}

/// Around 65 536 characters (or more), mostly basic ones.
fn huge_mixed(s: &mut Src) -> (Vec<char>, String) {
    let n = s.pick(&[30_000usize, 65_530, 65_535, 65_536, 65_537, 70_000, 131_073]);
    let mul = s.pick(&[1usize, 7, 31, 1009]);
    // or few basic ones
    let basic = s.chance(5, 6);
    let mut t: Vec<char> = (0..n).map(|k| (b'!' + (k * mul % 90) as u8) as char).collect();
    if !basic {
        let c = s.pick(&['\u{80}', '\u{e9}', '\u{5d0}', '\u{4e00}']);
        // an encoder may be quadratic in these
        t.truncate(n.min(30_000));
        for (k, x) in t.iter_mut().enumerate() {
            if k % 3 != 0 {
                *x = c;
            }
        }
    }
    let extra = s.list(2, 6, |s| {
        let at = match s.below(4) {
            0 => s.below(10),
            1 => t.len() - s.below(10),
            2 => s.pick(&[65_534usize, 65_535, 65_536, 65_537]).min(t.len()),
            _ => s.below(t.len() + 1),
        };
        let c = if s.chance(1, 3) { s.any_char() } else { s.pick(&['\u{80}', '\u{81}', '\u{e9}', '\u{5d0}', '\u{fff}']) };
        (at, c)
    });
    for &(at, c) in &extra {
        t.insert(at, c);
    }
    let name = format!("{} characters, step {}, basic: {}, with {:?}", n, mul, basic, extra);
    (t, name)
}

pub fn c12() -> Check {
    Check::new(
        "C12",
        "every character alone and among others; random strings over few characters (repeats, runs), over all of Unicode, and \
         strings of thousands of characters whose deltas come close to 2^32. Oracle: RFC 3492 section 6.3 in 128-bit integers. \
         Non-trivial: some character is not ASCII",
    )
    .every_char("every_char", |c, r| {
        r.case(&c);
        r.nontrivial(!c.is_ascii());
        r.evals(3);
        check_encode(&[c], r)?;
        check_encode(&['a', c, '-', c], r)?;
        check_encode(&[c, '\u{e9}', c, '\u{10ffff}', 'z', '\u{4e00}'], r)
    })
    .random("random_strings", 2_000_000, 40_000_000, |s, r| {
        let t: Vec<char> = match s.below(3) {
            0 => any_string(s, 70).chars().collect(),
            1 => {
                let pal: Vec<char> = (0..s.urange(1, 5)).map(|_| if s.bool() { s.range(0x20, 0x7e) as u8 as char } else { s.any_char() }).collect();
                s.list(20, 70, |s| s.pick(&pal))
            }
            _ => {
                let base = s.range(0x80, 0x2ff00) as u32;
                s.list(12, 70, |s| {
                    if s.chance(1, 4) {
                        s.pick(&['-', 'a', 'Z', '0'])
                    } else {
                        char::from_u32(base + s.below(100) as u32).unwrap_or('\u{e000}')
                    }
                })
            }
        };
        r.case(&t);
        r.nontrivial(t.iter().any(|c| !c.is_ascii()));
        check_encode(&t, r)
    })
    .random("huge_strings", 160, 4_000, |s, r| {
        let (t, name) = huge_mixed(s);
        r.case(&name);
        r.nontrivial(true);
        check_encode(&t, r).map_err(crate::gen::short)
    })
    .random("near_overflow", 3_000, 60_000, |s, r| {
        // n characters already handled, then one that makes delta come close to 2^32
        let n = s.urange(3_855, 9_000);
        let d = u32::MAX as u64 / (n as u64 + 1) + s.range(0, 2) - 1;
        let v = (0x80 + d).min(0x10FFFF) as u32;
        let c = char::from_u32(v).unwrap_or('\u{10000}');
        let mut t = vec![s.pick(&['a', '\u{80}']); n];
        for _ in 0..s.urange(1, 3) {
            let p = if s.bool() { t.len() } else { s.below(t.len() + 1) };
            t.insert(p, c);
        }
        if s.chance(1, 4) {
            t.push('\u{10ffff}');
        }
        r.case(&t);
        r.note(|| format!(" ({} characters)", t.len()));
        r.nontrivial(true);
        check_encode(&t, r)
    })
}

fn check_decode(t: &str, r: &mut Rep) -> Res {
    let want = ref_decode(t);
    let got = puny::decode(t);
    r.class(match &want {
        Ok(_) => "well_formed",
        Err(e) => e,
    });
    r.nontrivial(want.as_ref().map_or(true, |w| w.iter().any(|c| !c.is_ascii())));
    ensure!(puny::decode_to_string(t) == got.as_ref().map(|g| g.iter().collect::<String>()), "decode_to_string differs on {}", esc(t));
    match want {
        Err(e) => ensure!(got.is_none(), "{}: {}, but decoded as {:?}", esc(t), e, got),
        Ok(w) => {
            ensure!(got.as_ref() == Some(&w), "{}: got {:?}, expected {:?}", esc(t), got, w);
            // digits are case-insensitive
            let (head, tail) = match t.rfind('-') {
                Some(p) => t.split_at(p),
                None => ("", t),
            };
            for v in [tail.to_ascii_uppercase(), tail.to_ascii_lowercase()] {
                let u = format!("{}{}", head, v);
                ensure!(puny::decode(&u).as_ref() == Some(&w), "{} decodes otherwise than {}", esc(&u), esc(t));
            }
        }
    }
    Ok(())
}

pub fn c13() -> Check {
    const DIG: &[u8] = b"abyzABYZ019-kK9z";
    let all: Vec<char> = (0u8..0x80).map(|b| b as char).chain(['\u{80}', '\u{e9}', '\u{ff}', '\u{4e00}', '\u{1f600}']).collect();
    let n = all.len() as u64;
    Check::new(
        "C13",
        "every string of up to 3 characters over ASCII and some others; every string of up to 5 digits over a small alphabet; \
         random digit strings (long ones overflow), encodings of random strings, and these with characters changed, cut, \
         inserted, doubled or upper-cased. Oracle: RFC 3492 section 6.2 in 128-bit integers with the documented 32-bit limit. \
         Non-trivial: an error, or a result with a non-ASCII character",
    )
    .exhaustive("short_strings", n * n * n + n * n + n + 1, move |i, r| {
        let mut i = i;
        let mut t = String::new();
        let mut len = 0;
        let mut block = 1;
        while i >= block {
            i -= block;
            block *= n;
            len += 1;
        }
        for _ in 0..len {
            t.push(all[(i % n) as usize]);
            i /= n;
        }
        r.case(&t);
        check_decode(&t, r)
    })
    .exhaustive("digit_strings", 16u64.pow(5), |i, r| {
        let t: String = (0..5).map(|k| DIG[(i >> (4 * k)) as usize & 15] as char).collect();
        r.case(&t);
        check_decode(&t, r)
    })
    .random("random_strings", 5_000_000, 60_000_000, |s, r| {
        let mut t: String = match s.below(3) {
            0 => {
                let hi = s.bool();
                let a = s.list(10, 40, |s| if hi { s.pick(b"yz789ZY6") as char } else { s.pick(b"abcdefghijklmnopqrstuvwxyz0123456789ABCXYZ") as char });
                let mut o: String = if s.bool() { (0..s.urange(0, 5)).map(|_| s.range(0x20, 0x7e) as u8 as char).chain(['-']).collect() } else { String::new() };
                o.extend(a);
                o
            }
            1 => ref_encode(&any_string(s, 30).chars().collect::<Vec<_>>()).0,
            _ => {
                let base = s.range(0x80, 0x10fe00) as u32;
                let v: Vec<char> = s.list(10, 30, |s| char::from_u32(base + s.below(60) as u32).unwrap_or('a'));
                ref_encode(&v).0
            }
        };
        for _ in 0..s.pick(&[0usize, 0, 1, 2]) {
            let mut v: Vec<char> = t.chars().collect();
            let p = s.below(v.len() + 1);
            match s.below(5) {
                0 => v.insert(p, s.pick(&['-', 'a', '9', 'z', 'Z', '!', '\u{e9}', '\u{1f600}', '\u{130}'])),
                1 if p < v.len() => v[p] = s.pick(&['-', 'a', '9', 'z', 'Z', '!', '\u{e9}', '\u{131}']),
                2 if p < v.len() => {
                    v.remove(p);
                }
                3 => v.truncate(p),
                _ => v.iter_mut().for_each(|c| *c = if s.bool() { c.to_ascii_uppercase() } else { *c }),
            }
            t = v.into_iter().collect();
        }
        r.case(&t);
        check_decode(&t, r)
    })
    .random("huge_strings", 160, 4_000, |s, r| {
        let (t, name) = huge_mixed(s);
        let mut e = ref_encode(&t).0;
        // now and then another last digit
        let c = if s.chance(1, 4) { e.pop().map(|_| s.pick(&['0', '9', 'a', 'b', 'z', '-', '\u{e9}'])) } else { None };
        e.extend(c);
        r.case(&(name, c));
        check_decode(&e, r).map_err(crate::gen::short)
    })
    .random("crafted_deltas", 3_000_000, 30_000_000, |s, r| {
        // numbers that take the decoder to chosen code points and positions, around every limit
        let basic = if s.bool() { 0 } else { s.urange(1, 4) };
        let mut t: String = (0..basic).map(|_| s.range(0x21, 0x7e) as u8 as char).collect();
        if basic > 0 {
            t.push('-');
        }
        let (mut n, mut i, mut bias, mut len) = (0x80i128, 0i128, 72u128, basic as i128);
        for _ in 0..s.urange(1, 4) {
            let at = s.below(len as usize + 1) as i128;
            let near = s.below(5) as i128 - 2;
            let aim: i128 = match s.below(9) {
                0 => 0xd800 + near,
                1 => 0xe000 + near,
                2 | 3 => 0x110000 + near,
                4 => n + near,
                5 => s.any_char() as i128,
                6 => s.range(0x80, 0x10ffff) as i128,
                7 => n + ((1i128 << 32) / (len + 1)) + near,
                _ => (1i128 << s.pick(&[8, 16, 31, 32, 32, 32, 33])) + s.below(300) as i128 - 150,
            };
            let mut delta = (aim - n) * (len + 1) + at - i;
            if s.chance(1, 4) {
                // the sum of i and delta, or delta alone, at the 32-bit limit
                delta = (1i128 << s.pick(&[31, 32, 32])) - if s.bool() { i } else { 0 } + s.below(300) as i128 - 150;
            }
            if delta < 0 {
                delta = at.max(i) - i;
            }
            let mut q = delta as u128;
            let mut k = 36;
            loop {
                let th = threshold(k, bias);
                if q < th {
                    break;
                }
                t.push(digit(th + (q - th) % (36 - th)));
                q = (q - th) / (36 - th);
                k += 36;
            }
            t.push(digit(q));
            bias = adapt(delta as u128, len as u128 + 1, i == 0);
            i += delta;
            n += i / (len + 1);
            i = i % (len + 1) + 1;
            len += 1;
        }
        r.case(&t);
        check_decode(&t, r)
    })
    .random("long_strings", 4_000, 40_000, |s, r| {
        // long strings, where the 32-bit limit is reached below the last code point
        let n = s.urange(3_000, 9_000);
        let d = u32::MAX as u64 / (n as u64 + 1);
        let v = (0x80 + d).min(0x10FFFF) as u32 - s.below(3) as u32;
        let mut t = vec!['b'; n];
        let p = s.below(n + 1);
        t.insert(p, char::from_u32(v).unwrap_or('\u{10000}'));
        if s.bool() {
            t.push('\u{10ffff}');
        }
        let e = ref_encode(&t).0;
        r.case(&e);
        check_decode(&e, r)
    })
}

// ---------------------------------------------------------------- UTS #46 by its steps

#[derive(Clone, PartialEq, Debug)]
enum Status {
    Valid,
    Ignored,
    Mapped(String),
    Deviation(String),
    Disallowed,
    Std3Valid,
    Std3Mapped(String),
}
pub struct Idna {
    p: &'static Prop,
    status: Vec<Status>,
    mark: &'static Prop,
    /// characters by the string they map to (status mapped only)
    to: HashMap<String, Vec<char>>,
}
static IDNA: OnceLock<Idna> = OnceLock::new();
fn idna() -> &'static Idna {
    IDNA.get_or_init(|| {
        let p = prop("IDNA_Mapping");
        let status: Vec<Status> = p
            .values
            .iter()
            .map(|v| {
                let (k, m) = v.split_once(' ').unwrap_or((v, ""));
                let m: String = parse_hex(m).into_iter().collect();
                match k {
                    "valid" => Status::Valid,
                    "ignored" => Status::Ignored,
                    "mapped" => Status::Mapped(m),
                    "deviation" => Status::Deviation(m),
                    "disallowed" => Status::Disallowed,
                    "disallowed_STD3_valid" => Status::Std3Valid,
                    "disallowed_STD3_mapped" => Status::Std3Mapped(m),
                    _ => panic!("{}", v),
                }
            })
            .collect();
        let mut to: HashMap<String, Vec<char>> = HashMap::new();
        for v in 0..0x11_0000u32 {
            if let Some(c) = char::from_u32(v) {
                if let Status::Mapped(m) = &status[p.id(c) as usize] {
                    to.entry(m.clone()).or_default().push(c);
                }
            }
        }
        Idna { p, status, mark: prop("Mark"), to }
    })
}
impl Idna {
    fn of(&self, c: char) -> &Status {
        &self.status[self.p.id(c) as usize]
    }
    /// UTS #46 section 4; flags, whether nothing failed, and the resulting domain.
    fn process(&self, domain: &str, std3: bool, transitional: bool) -> (String, bool) {
        let mut ok = true;
        let mut mapped = String::new();
        for c in domain.chars() {
            match self.of(c) {
                Status::Valid => mapped.push(c),
                Status::Ignored => {}
                Status::Mapped(m) => mapped.push_str(m),
                Status::Deviation(m) if transitional => mapped.push_str(m),
                Status::Deviation(_) => mapped.push(c),
                Status::Disallowed => {
                    ok = false;
                    mapped.push(c)
                }
                Status::Std3Valid => {
                    ok &= !std3;
                    mapped.push(c)
                }
                Status::Std3Mapped(m) => {
                    ok &= !std3;
                    mapped.push_str(m)
                }
            }
        }
        let normal: String = norm().form(mapped.chars(), 1).into_iter().collect();
        let mut labels: Vec<(String, Option<bool>)> = vec![];
        for l in normal.split('.') {
            if let Some(rest) = l.strip_prefix("xn--") {
                match ref_decode(rest) {
                    Err(_) => {
                        ok = false;
                        labels.push((l.to_string(), None));
                    }
                    Ok(d) => {
                        let d: String = d.into_iter().collect();
                        // a label that is a prefix of its own cannot be told from an encoded one
                        ok &= !d.starts_with("xn--");
                        labels.push((d, Some(false)));
                    }
                }
            } else {
                labels.push((l.to_string(), Some(transitional)));
            }
        }
        let rtl = labels.iter().any(|l| l.0.chars().any(|c| matches!(bm::class_of(c), C::R | C::AL | C::AN)));
        for (l, tr) in &labels {
            if let Some(tr) = tr {
                ok &= self.valid(l, std3, *tr, rtl);
            }
        }
        (labels.into_iter().map(|l| l.0).collect::<Vec<_>>().join("."), ok)
    }
    fn valid(&self, l: &str, std3: bool, transitional: bool, rtl: bool) -> bool {
        let cs: Vec<char> = l.chars().collect();
        if cs.is_empty() {
            return true;
        }
        norm().form(cs.iter().copied(), 1) == cs
            && cs[0] != '-'
            && cs[cs.len() - 1] != '-'
            && !cs.contains(&'.')
            && !self.mark.is(cs[0])
            && cs.iter().all(|c| match self.of(*c) {
                Status::Valid => true,
                Status::Deviation(_) => !transitional,
                Status::Std3Valid => !std3,
                _ => false,
            })
            && (!rtl || rfc5893(&cs))
    }
    fn to_ascii(&self, domain: &str, f: Flags) -> Option<String> {
        let (t, mut ok) = self.process(domain, f.use_std3_ascii_rules, f.transitional_processing);
        let mut out = vec![];
        for l in t.split('.') {
            if l.is_ascii() {
                out.push(l.to_string());
            } else {
                let (e, top) = ref_encode(&l.chars().collect::<Vec<_>>());
                ok &= top <= u32::MAX as u128;
                out.push(format!("xn--{}", e));
            }
        }
        let s = out.join(".");
        if f.verify_dns_length {
            let s = s.strip_suffix('.').unwrap_or(&s);
            ok &= (1..=253).contains(&s.len()) && s.split('.').all(|l| (1..=63).contains(&l.len()));
        }
        if ok {
            Some(s)
        } else {
            None
        }
    }
}
/// RFC 5893 section 2, for one label.
fn rfc5893(cs: &[char]) -> bool {
    use C::*;
    let cl: Vec<C> = cs.iter().map(|c| bm::class_of(*c)).collect();
    let last = cl.iter().rev().find(|c| **c != NSM);
    match cl[0] {
        R | AL => {
            cl.iter().all(|c| matches!(c, R | AL | AN | EN | ES | CS | ET | ON | BN | NSM))
                && matches!(last, Some(R | AL | EN | AN))
                && !(cl.contains(&EN) && cl.contains(&AN))
        }
        L => cl.iter().all(|c| matches!(c, L | EN | ES | CS | ET | ON | BN | NSM)) && matches!(last, Some(L | EN)),
        _ => false,
    }
}

pub fn flags(i: u64) -> Flags {
    Flags { use_std3_ascii_rules: i & 1 != 0, transitional_processing: i & 2 != 0, verify_dns_length: i & 4 != 0 }
}

// ---------------------------------------------------------------- domains

pub struct DomainGen {
    kinds: Vec<Vec<u16>>,
    by: ByClass,
    valid_rtl: Vec<char>,
    ng: NormGen,
}
const DOTS: [char; 5] = ['.', '\u{3002}', '\u{ff0e}', '\u{ff61}', '\u{2024}'];
impl DomainGen {
    pub fn new() -> DomainGen {
        let d = idna();
        let mut kinds = vec![vec![]; 7];
        for (i, s) in d.status.iter().enumerate() {
            let k = match s {
                Status::Valid => 0,
                Status::Ignored => 1,
                Status::Mapped(_) => 2,
                Status::Deviation(_) => 3,
                Status::Disallowed => 4,
                Status::Std3Valid => 5,
                Status::Std3Mapped(_) => 6,
            };
            kinds[k].push(i as u16);
        }
        let by = ByClass::new("Bidi_Class");
        // one valid character (at least) of each bidi class
        let mut valid_rtl = vec![];
        for v in 0..by.n() as u16 {
            let mut n = 0;
            for &(a, b) in by.p.ranges_of(v) {
                for x in a..=b {
                    let c = char::from_u32(x).unwrap();
                    if n < 12 && matches!(d.of(c), Status::Valid | Status::Std3Valid | Status::Deviation(_)) {
                        valid_rtl.push(c);
                        n += 1;
                        break;
                    }
                }
            }
        }
        DomainGen { kinds, by, valid_rtl, ng: NormGen::new() }
    }
    fn of_kind(&self, s: &mut Src, k: usize) -> char {
        let v = s.pick(&self.kinds[k]);
        idna().p.char_of(s, v)
    }
    fn plain_label(&self, s: &mut Src) -> String {
        let simple = ['a', 'b', 'z', 'A', 'Z', '0', '9', '-', '_', ' ', '\u{e9}', '\u{df}', '\u{3c2}', '\u{200c}', '\u{200d}', '\u{ad}', '\u{5d0}', '\u{627}', '\u{661}', '\u{300}', '\u{ff21}', '\u{2135}', '\u{4e00}'];
        let avg = s.pick(&[2usize, 4, 8]);
        let mode = s.below(8);
        let pal: Vec<char> = (0..s.urange(1, 4)).map(|_| s.pick(&self.valid_rtl)).collect();
        match mode {
            0 => s.list(avg, 30, |s| s.pick(&simple)).into_iter().collect(),
            1 => s
                .list(avg, 30, |s| {
                    let k = s.weighted(&[10, 2, 10, 3, 1, 1, 1]);
                    self.of_kind(s, k)
                })
                .into_iter()
                .collect(),
            // bidi rule
            2 | 3 => s.list(avg, 30, |s| s.pick(&pal)).into_iter().collect(),
            4 => s.list(avg, 30, |s| if s.chance(1, 4) { self.by.char(s) } else { s.pick(&self.valid_rtl) }).into_iter().collect(),
            // normalization
            5 => self.ng.string(s, 8),
            // ordinary lower-case labels
            6 => s.list(avg, 64, |s| s.pick(b"abcdefgh0123-") as char).into_iter().collect(),
            _ => s.list(avg, 64, |s| if s.chance(1, 5) { self.of_kind(s, 0) } else { s.pick(b"abcxyz019") as char }).into_iter().collect(),
        }
    }
    pub fn label(&self, s: &mut Src) -> String {
        match s.below(12) {
            0 => String::new(),
            1 | 2 | 3 => {
                // an encoded label
                let mut l = self.plain_label(s);
                if s.bool() {
                    l = idna().process(&l, false, s.bool()).0.replace('.', "");
                }
                let mut e = ref_encode(&l.chars().collect::<Vec<_>>()).0;
                if s.chance(1, 8) {
                    let p = s.below(e.chars().count() + 1);
                    let mut v: Vec<char> = e.chars().collect();
                    v.insert(p, s.pick(&['-', 'a', '9', 'z', '\u{e9}', '!']));
                    e = v.into_iter().collect();
                }
                let x = s.pick(&["xn--", "xn--", "xn--", "Xn--", "XN--", "\u{ff58}n--", "xn-\u{ad}-", "xn--xn--"]);
                let l = format!("{}{}", x, e);
                if s.chance(1, 6) {
                    l.to_uppercase()
                } else {
                    l
                }
            }
            // around the length limit
            4 => {
                let c = s.pick(&["a", "a", "0", "\u{e9}", "\u{5d0}"]);
                c.repeat(s.urange(50, 66))
            }
            _ => self.plain_label(s),
        }
    }
    pub fn domain(&self, s: &mut Src) -> String {
        if s.chance(1, 60) {
            // around 253
            let mut t = String::new();
            while t.len() < 180 {
                t.push_str(&"a".repeat(s.urange(40, 63)));
                t.push('.');
            }
            let goal = s.urange(250, 256);
            while t.len() < goal {
                if t.len() % 50 == 0 {
                    t.push('.');
                }
                t.push('b');
            }
            if s.bool() {
                t.push('.');
            }
            return t;
        }
        if s.chance(1, 60) {
            return any_string(s, 20);
        }
        let n = s.urange(1, 4);
        let mut t = String::new();
        for i in 0..n {
            if i > 0 {
                t.push(if s.chance(2, 3) { '.' } else { s.pick(&DOTS) });
            }
            t.push_str(&self.label(s));
        }
        if s.chance(1, 12) {
            t.push('.');
        }
        t
    }
}

impl DomainGen {
    /// Many labels, or labels with a part repeated many times.
    pub fn far(&self, s: &mut Src) -> String {
        match s.below(3) {
            0 => {
                let pool: Vec<String> = (0..s.urange(1, 4)).map(|_| self.label(s)).collect();
                let n = s.pick(&[8, 30, 62, 63, 64, 65, 126, 127, 128, 129, 130, 255, 257]);
                let mut t = vec![];
                for _ in 0..n {
                    t.push(s.pick(&pool));
                }
                t.join(".")
            }
            1 => long(s, 2_500, |s| self.domain(s)),
            _ => {
                // one long label, also encoded
                let l = long(s, 300, |s| self.plain_label(s));
                let l = if s.bool() {
                    format!("xn--{}", ref_encode(&idna().process(&l, false, s.bool()).0.replace('.', "").chars().collect::<Vec<_>>()).0)
                } else {
                    l
                };
                format!("{}{}{}", if s.bool() { "a." } else { "" }, l, if s.bool() { ".\u{5d0}" } else { "" })
            }
        }
    }
}

fn check_idna(t: &str, f: Flags, r: &mut Rep) -> Res {
    let want = idna().to_ascii(t, f);
    let got = to_ascii(t, f);
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            r.class("ascii_ok");
            ensure!(g == w, "to_ascii of {} with {:?}: got {}, expected {}", esc(t), f, esc(g), esc(w));
        }
        (None, Err(_)) => r.class("ascii_error"),
        (Some(w), Err(e)) => return Err(format!("to_ascii of {} with {:?}: got {:?}, expected {}", esc(t), f, e, esc(w))),
        (None, Ok(g)) => return Err(format!("to_ascii of {} with {:?}: got {}, expected an error", esc(t), f, esc(g))),
    }
    let (w, ok) = idna().process(t, f.use_std3_ascii_rules, false);
    let (g, res) = to_unicode(t, f);
    ensure!(g == w, "to_unicode of {} with {:?}: got {}, expected {}", esc(t), f, esc(&g), esc(&w));
    ensure!(res.is_ok() == ok, "to_unicode of {} with {:?}: got {:?}, expected {}", esc(t), f, res, if ok { "success" } else { "an error" });
    r.nontrivial(want.as_deref() != Some(t));
    Ok(())
}

pub fn c14() -> Check {
    let g = Arc::new(DomainGen::new());
    let g2 = g.clone();
    let by = Arc::new(ByClass::new("Bidi_Class"));
    // one valid character per bidi class that has any
    let valid: Vec<char> = {
        let d = idna();
        (0..by.n() as u16)
            .filter_map(|v| {
                by.p.ranges_of(v).iter().flat_map(|&(a, b)| a..=b).map(|x| char::from_u32(x).unwrap()).find(|c| matches!(d.of(*c), Status::Valid | Status::Std3Valid))
            })
            .collect()
    };
    let k = valid.len() as u64;
    let depth = 5;
    let special: Vec<char> = {
        let mut v: Vec<char> = (' '..='~').chain(KNOWN.iter().copied()).chain(valid.iter().copied()).collect();
        v.extend(['\u{df}', '\u{3c2}', '\u{200c}', '\u{200d}', '\u{226e}', '\u{226f}', '\u{2260}', '\u{1e9e}', '\u{130}', '\u{3002}', '\u{2024}', '\u{3099}', '\u{4c0}']);
        v.sort();
        v.dedup();
        v
    };
    let sn = special.len() as u64;
    let total: u64 = (0..=depth).map(|l| k.pow(l)).sum();
    Check::new(
        "C14",
        "every character alone, inside a label, before and after a right-to-left label, and punycode-encoded, under the four \
         combinations of the STD3 and transitional flags; every label of up to 5 valid characters of different bidi classes; every \
         pair of special characters (ASCII, well-known, of each bidi class, deviations) around a letter, also encoded; \
         random domains: characters by mapping status, by bidi class, composable ones, alternative full stops, encoded labels \
         (some corrupted), lengths around 63 and 253, long labels and up to 257 labels, under all eight combinations of flags. Oracle: UTS #46 section 4, RFC \
         5893 and RFC 3492 step by step. Non-trivial: the result is an error or differs from the input",
    )
    .assume("as the library documents, hyphens in positions 3 and 4 and the contexts of joiners are not checked, except that an encoded label must not decode to one that itself starts with xn--")
    .assume("mapping status, bidi class, normalization data: /verif/refdata")
    .every_char("every_char", |c, r| {
        r.case(&c);
        let mut n = 0;
        let e = ref_encode(&[c]).0;
        for f in 0..4 {
            for t in [c.to_string(), format!("a{c}b"), format!("{c}a.\u{5d0}"), format!("\u{5d0}{c}"), format!("0.\u{5d0}{c}\u{5d0}"), format!("xn--{e}")] {
                check_idna(&t, flags(f), r)?;
                n += 1;
            }
        }
        r.evals(n);
        Ok(())
    })
    .exhaustive("bidi_labels", total, move |i, r| {
        let mut i = i;
        let (mut len, mut block) = (0, 1);
        while i >= block {
            i -= block;
            block *= k;
            len += 1;
        }
        let mut t = String::new();
        for _ in 0..len {
            t.push(valid[(i % k) as usize]);
            i /= k;
        }
        r.case(&t);
        check_idna(&t, flags(0), r)?;
        check_idna(&format!("{}.\u{5d0}", t), flags(0), r)?;
        r.evals(2);
        Ok(())
    })
    // what an encoded label may hide, at each of its ends and beside every other special character
    .exhaustive("special_pairs", sn * sn, move |i, r| {
        let (a, b) = (special[(i / sn) as usize], special[(i % sn) as usize]);
        r.case(&(a, b));
        let mut n = 0;
        for l in [format!("{a}{b}\u{e9}"), format!("{a}\u{e9}{b}"), format!("\u{4e00}{a}{b}"), format!("{a}\u{5d0}{b}")] {
            let e = ref_encode(&l.chars().collect::<Vec<_>>()).0;
            for f in 0..4 {
                check_idna(&l, flags(f), r)?;
                check_idna(&format!("xn--{e}"), flags(f), r)?;
                n += 2;
            }
        }
        r.evals(n);
        Ok(())
    })
    .random("random_domains", 1_200_000, 50_000_000, move |s, r| {
        let t = g.domain(s);
        let f = flags(s.raw(8));
        r.case(&(&t, format!("{:?}", f)));
        check_idna(&t, f, r)
    })
    .random("long_domains", 60_000, 2_000_000, move |s, r| {
        let t = g2.far(s);
        let f = flags(s.raw(8));
        r.case(&(&t, format!("{:?}", f)));
        check_idna(&t, f, r)
    })
}

pub fn c15() -> Check {
    let g = Arc::new(DomainGen::new());
    let (g2, g3) = (g.clone(), g.clone());
    fn relations(t: &str, f: Flags, r: &mut Rep) -> Res {
        if let Ok(a) = to_ascii(t, f) {
            r.class("ascii_ok");
            r.nontrivial(a != t);
            ensure!(a.is_ascii() && !a.bytes().any(|b| b.is_ascii_uppercase()), "to_ascii of {} gives {}", esc(t), esc(&a));
            let again = to_ascii(&a, f);
            ensure!(again.as_deref() == Ok(&a), "to_ascii of {} gives {}, and that gives {:?} ({:?})", esc(t), esc(&a), again, f);
            if f.verify_dns_length {
                let d = a.strip_suffix('.').unwrap_or(&a);
                ensure!((1..=253).contains(&d.len()) && d.split('.').all(|l| (1..=63).contains(&l.len())), "to_ascii of {} gives {}, against the DNS lengths", esc(t), esc(&a));
            }
            // to_unicode always processes deviations as valid, so compare when there are none to map
            if !f.transitional_processing || !t.chars().any(|c| matches!(idna().of(c), Status::Deviation(_))) {
                let (u, ur) = to_unicode(t, f);
                let (v, vr) = to_unicode(&a, f);
                ensure!(ur.is_ok() && vr.is_ok() && u == v, "Unicode form of {} is {} ({:?}), that of its ASCII form {} is {} ({:?})", esc(t), esc(&u), ur, esc(&a), esc(&v), vr);
            }
            // without the length check the result is the same
            let mut g = f;
            g.verify_dns_length = false;
            ensure!(to_ascii(t, g).as_deref() == Ok(&a), "the length check changes the result of {}", esc(t));
        }
        let (u, ur) = to_unicode(t, f);
        if ur.is_ok() {
            r.class("unicode_ok");
            let (v, vr) = to_unicode(&u, f);
            ensure!(vr.is_ok() && v == u, "Unicode form of {} is {}, and that gives {} ({:?})", esc(t), esc(&u), esc(&v), vr);
        }
        Ok(())
    }
    Check::new(
        "C15",
        "random domains (as for C14) and variants of them that UTS #46 maps alike: letters replaced by others mapped to the \
         same, ASCII letters and signs by fullwidth ones, full stops by the alternative ones, ignored characters inserted; \
         every character in four contexts; long labels and up to 257 labels; arbitrary text for absence of panics. Oracle: relations between calls of the \
         library. Non-trivial: a result differs from its input",
    )
    .every_char("every_char", |c, r| {
        r.case(&c);
        for f in [0, 1, 2, 3] {
            relations(&c.to_string(), flags(f), r)?;
            relations(&format!("{c}a"), flags(f), r)?;
            relations(&format!("a{c}.0{c}"), flags(f), r)?;
            relations(&format!("\u{5d0}{c}"), flags(f), r)?;
        }
        r.evals(16);
        Ok(())
    })
    .random("relations", 1_000_000, 30_000_000, move |s, r| {
        let t = g.domain(s);
        let f = flags(s.raw(8));
        r.case(&(&t, format!("{:?}", f)));
        relations(&t, f, r)
    })
    .random("long_domains", 40_000, 1_000_000, move |s, r| {
        let t = g3.far(s);
        let f = flags(s.raw(8));
        r.case(&(&t, format!("{:?}", f)));
        relations(&t, f, r)
    })
    .random("variants", 1_000_000, 30_000_000, move |s, r| {
        let t = g2.domain(s);
        let f = flags(s.raw(8));
        let mut v = String::new();
        for c in t.chars() {
            let alt = idna().to.get(c.encode_utf8(&mut [0; 4]) as &str);
            match s.below(5) {
                0 if ('!'..='~').contains(&c) && c != '.' => v.push(char::from_u32(c as u32 - 0x21 + 0xff01).unwrap()),
                1 if c.is_ascii_alphabetic() => v.push(if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }),
                2 if c == '.' => v.push(s.pick(&['.', '\u{3002}', '\u{ff0e}', '\u{ff61}'])),
                3 if alt.is_some() => {
                    let a = alt.unwrap();
                    v.push(s.pick(a))
                }
                _ => v.push(c),
            }
            if s.chance(1, 20) {
                v.push(s.pick(&['\u{ad}', '\u{200b}', '\u{fe0f}', '\u{1bca1}']));
            }
        }
        r.case(&(&t, &v, format!("{:?}", f)));
        r.nontrivial(v != t);
        let (a, b) = (to_ascii(&t, f), to_ascii(&v, f));
        ensure!(a.as_ref().ok() == b.as_ref().ok(), "{} and {} give {:?} and {:?} ({:?})", esc(&t), esc(&v), a, b, f);
        let ((a, ar), (b, br)) = (to_unicode(&t, f), to_unicode(&v, f));
        ensure!(a == b && ar.is_ok() == br.is_ok(), "{} and {} give {} ({:?}) and {} ({:?}) ({:?})", esc(&t), esc(&v), esc(&a), ar, esc(&b), br, f);
        Ok(())
    })
    .random("no_panic", 400_000, 20_000_000, |s, r| {
        let mut t = any_string(s, 40);
        if s.bool() {
            t = format!("xn--{}", t);
        }
        let f = flags(s.raw(8));
        r.case(&(&t, format!("{:?}", f)));
        r.nontrivial(!t.is_empty());
        relations(&t, f, r)
    })
}

/// Random domains with the reference result, to compare the reference with another implementation.
pub fn dump(n: u64) {
    let g = DomainGen::new();
    for i in 0..n {
        let mut s = Src::random(mix(i));
        let t = g.domain(&mut s);
        let f = flags(s.raw(8));
        let a = idna().to_ascii(&t, f);
        let (u, ok) = idna().process(&t, f.use_std3_ascii_rules, false);
        println!("{}\t{}\t{}\t{}\t{}", s_json(&t), (f.use_std3_ascii_rules as u8) + 2 * (f.transitional_processing as u8) + 4 * (f.verify_dns_length as u8), a.as_deref().map_or("ERR".into(), s_json), s_json(&u), ok);
    }
}
fn s_json(s: &str) -> String {
    s.chars().map(|c| format!("{:X}", c as u32)).collect::<Vec<_>>().join(" ")
}
