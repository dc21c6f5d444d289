//! C28: types declared with `char_property!` are what was declared.
use crate::gen::{any_string, edge_char, KNOWN};
use crate::c_ucd::SCALARS;
use crate::pbt::*;
use crate::{ensure, ensure_eq};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;
use std::collections::HashSet;
use std::sync::Arc;
use unic_char_property::{
    BinaryCharProperty, CharProperty, EnumeratedCharProperty, PartialCharProperty, TotalCharProperty,
};

#[path = "decls.rs"]
mod decls;
use decls::*;

/// What is declared: the values by variant, by abbreviated and by long name; the names of variant and value.
pub struct EnumDecl<P: 'static> {
    pub prop: [&'static str; 3],
    pub values: &'static [(P, P, P, [&'static str; 4])],
}
pub struct BinaryDecl {
    pub prop: [&'static str; 3],
    pub ranges: &'static [(u32, u32)],
}

/// One declared enumeration, seen through strings.
struct E {
    name: &'static str,
    values: Vec<[&'static str; 4]>,
    fixed: Box<dyn Fn() -> Res + Send + Sync>,
    parse: Box<dyn Fn(&str) -> Option<usize> + Send + Sync>,
    print: Box<dyn Fn(usize, usize, usize, usize) -> (String, String) + Send + Sync>,
}
fn e<P>(name: &'static str, d: &'static EnumDecl<P>) -> E
where
    P: EnumeratedCharProperty + PartialCharProperty + FromStr + Display + Debug + Copy + Eq + Hash + Send + Sync,
{
    E {
        name,
        values: d.values.iter().map(|v| v.3).collect(),
        fixed: Box::new(move || {
            ensure_eq!([P::prop_abbr_name(), P::prop_long_name(), P::prop_human_name()], d.prop, "names of the property");
            let all = P::all_values();
            ensure_eq!(all.len(), d.values.len(), "number of values");
            for (i, (v, (by_variant, by_abbr, by_long, n))) in all.iter().zip(d.values).enumerate() {
                ensure_eq!(v, by_variant, "value {} of all_values, in the order of the declaration", i);
                ensure_eq!(by_abbr, by_variant, "value by its abbreviated name {}", n[1]);
                ensure_eq!(by_long, by_variant, "value by its long name {}", n[2]);
                ensure_eq!(format!("{:?}", v), n[0], "variant name of value {}", i);
                ensure_eq!([v.abbr_name(), v.long_name(), v.human_name()], [n[1], n[2], n[3]], "names of value {}", i);
                ensure_eq!(v.to_string(), n[3], "value {} printed", i);
                for (j, w) in all.iter().enumerate() {
                    ensure_eq!(v == w, i == j, "equality of values {} and {}", i, j);
                }
                ensure_eq!(P::of(char::from_u32(i as u32).unwrap()), Some(*v), "value of a character");
            }
            Ok(())
        }),
        parse: Box::new(|s| {
            s.parse::<P>().ok().map(|v| d_index(P::all_values(), &v))
        }),
        print: Box::new(|i, how, w, p| {
            let v = &P::all_values()[i];
            let h = v.human_name();
            match how {
                0 => (format!("{:w$}|", v), format!("{:w$}|", h)),
                1 => (format!("{:*>w$}|", v), format!("{:*>w$}|", h)),
                2 => (format!("{:-^w$.p$}|", v), format!("{:-^w$.p$}|", h)),
                _ => (format!("{:.p$}|", v), format!("{:.p$}|", h)),
            }
        }),
    }
}
fn d_index<P: PartialEq>(all: &[P], v: &P) -> usize {
    all.iter().position(|x| x == v).unwrap_or(usize::MAX)
}
macro_rules! es { ($($m:ident)*) => { fn es() -> Vec<E> { vec![$(e(stringify!($m), &$m::DECL)),*] } } }
for_decl_enums!(es);

struct B {
    name: &'static str,
    decl: &'static BinaryDecl,
    /// the function, the type, both traits, the conversion
    of: fn(char) -> [bool; 6],
    names: fn() -> ([&'static str; 3], bool),
    texts: fn(char) -> [String; 4],
    parse: fn(&str) -> Option<bool>,
}
macro_rules! bs {
    ($($m:ident)*) => { fn bs() -> Vec<B> { vec![$(B {
        name: stringify!($m),
        decl: &$m::DECL,
        of: |c| [
            $m::is_p(c),
            $m::P::of(c).as_bool(),
            <$m::P as TotalCharProperty>::of(c).as_bool(),
            <$m::P as PartialCharProperty>::of(c).map(|v| BinaryCharProperty::as_bool(&v)) == Some(true),
            $m::P::of(c).into(),
            $m::P::of(c) != <$m::P as Default>::default(),
        ],
        names: || ([$m::P::prop_abbr_name(), $m::P::prop_long_name(), $m::P::prop_human_name()], <$m::P as Default>::default().as_bool()),
        texts: |c| {
            let v = $m::P::of(c);
            [v.abbr_name().to_string(), v.long_name().to_string(), v.human_name().to_string(), v.to_string()]
        },
        parse: |s| s.parse::<$m::P>().ok().map(|v| v.as_bool()),
    }),*] } }
}
for_decl_binaries!(bs);

/// A declared name, in another case or slightly damaged.
fn near(s: &mut Src, name: &str) -> String {
    let mut cs: Vec<char> = name.chars().collect();
    for c in cs.iter_mut() {
        if s.chance(1, 3) {
            *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        }
    }
    if s.chance(1, 4) {
        let i = s.below(cs.len());
        match s.below(7) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, s.pick(&[' ', '_', '\0', 'a'])),
            2 => cs.retain(|c| *c != '_'),
            3 => cs[i] = s.any_char(),
            // case pairs and foldings outside ASCII
            4 => cs.iter_mut().for_each(|c| {
                *c = match *c {
                    'k' | 'K' => '\u{212A}',
                    's' | 'S' => '\u{17F}',
                    'é' => 'É',
                    'É' => 'é',
                    'ς' => 'σ',
                    'σ' => 'Σ',
                    'i' | 'I' => 'ı',
                    'ı' => 'I',
                    c => c,
                }
            }),
            5 => cs.push(s.pick(&[' ', 's', '\u{301}', '1'])),
            _ => cs.swap(0, i),
        }
    }
    cs.into_iter().collect()
}

pub fn c28() -> Check {
    let es = Arc::new(es());
    let bs = Arc::new(bs());
    let (e1, e2, e3, e4, e5) = (es.clone(), es.clone(), es.clone(), es.clone(), es.clone());
    let (b1, b2) = (bs.clone(), bs.clone());
    let (ne, nb) = (es.len() as u64, bs.len() as u64);
    Check::new(
        "C28",
        "30 generated enumerations (1 to 300 values, names of up to 300 characters, names that differ only in case or occur twice) and 12 generated binary properties (direct and range tables of 0 to 200 entries), declared with char_property!; strings near their names, every character (non-trivial: a name of the type up to ASCII case; a character in or next to an entry)",
    )
    .assume("where a string equals several names only up to case, any of their values will do; one that equals the names of one value exactly means that value")
    .exhaustive("declared enumerations", ne, move |i, r| {
        let e = &e1[i as usize];
        r.case(e.name);
        r.nontrivial(true);
        r.evals(8 * e.values.len() as u64);
        (e.fixed)().map_err(|m| format!("{}: {}", e.name, m))
    })
    .exhaustive("declared binary properties", nb, move |i, r| {
        let b = &b1[i as usize];
        r.case(b.name);
        r.nontrivial(true);
        let (n, d) = (b.names)();
        ensure_eq!(n, b.decl.prop, "names of the property {}", b.name);
        ensure!(!d, "{} is true by default", b.name);
        r.evals(SCALARS);
        let has = |c: char| b.decl.ranges.iter().any(|&(x, y)| x <= c as u32 && c as u32 <= y);
        for k in 0..SCALARS {
            let c = char::from_u32(if k < 0xD800 { k as u32 } else { k as u32 + 0x800 }).unwrap();
            ensure_eq!((b.of)(c), [has(c); 6], "{} of {:?} (function, type, traits, conversion, compared with the default)", b.name, c);
        }
        Ok(())
    })
    .exhaustive("names with one character replaced or taken away, and pairs of names", ne, move |i, r| {
        let e = &e5[i as usize];
        r.case(e.name);
        r.nontrivial(true);
        let all: HashSet<String> = e.values.iter().flat_map(|v| [v[1], v[2]]).map(|n| n.to_ascii_lowercase()).collect();
        let mut n = 0;
        let mut same = |t: &str| {
            n += 1;
            let want = all.contains(&t.to_ascii_lowercase());
            ensure!((e.parse)(t).is_some() == want, "{} {} {:?}", e.name, if want { "refuses" } else { "parses" }, t);
            Ok(())
        };
        same("")?;
        for (j, v) in e.values.iter().enumerate().take(40) {
            for name in [v[1], v[2]] {
                for (k, d) in name.char_indices().take(40) {
                    let (a, b) = (&name[..k], &name[k + d.len_utf8()..]);
                    for c in ('\0'..='\u{7f}').chain(KNOWN.iter().copied()) {
                        same(&format!("{a}{c}{b}"))?;
                    }
                    same(a)?;
                    same(b)?;
                    same(&format!("{a}{b}"))?;
                }
                for w in e.values.iter().skip(j % 3).step_by(3) {
                    for other in [w[1], w[2], w[0], w[3]] {
                        same(&format!("{name}{other}"))?;
                        same(&format!("{name}_{other}"))?;
                    }
                }
            }
            same(v[0])?;
            same(v[3])?;
        }
        r.evals(n);
        Ok(())
    })
    .every_char("names with one more character", move |c, r| {
        r.case(&c);
        r.nontrivial(true);
        let k = c as usize;
        for i in 0..3 {
            let e = &e4[(k + i) % e4.len()];
            let v = &e.values[(k / 7 + i) % e.values.len()];
            let n = v[1 + k % 2];
            for t in [format!("{c}{n}"), format!("{n}{c}")] {
                let known = e.values.iter().any(|v| v[1..3].iter().any(|n| n.eq_ignore_ascii_case(&t)));
                ensure!(known || (e.parse)(&t).is_none(), "{} parses {:?}", e.name, t);
            }
        }
        r.evals(6);
        Ok(())
    })
    .random("parsing declared values", 3_000_000, 30_000_000, move |s, r| {
        let e = &e2[s.below(e2.len())];
        let t = if s.chance(1, 16) {
            any_string(s, 6)
        } else {
            let from = if s.chance(1, 16) { &e2[s.below(e2.len())] } else { e };
            let v = &from.values[s.below(from.values.len())];
            // now and then the name of the variant or the human name, which are no names to parse
            let n = v[[1, 1, 1, 2, 2, 2, 0, 3][s.below(8)]];
            if n.is_empty() { String::new() } else { near(s, n) }
        };
        r.case(&(e.name, &t));
        let exact: Vec<usize> = (0..e.values.len()).filter(|&i| e.values[i][1..3].iter().any(|n| **n == *t)).collect();
        let close: Vec<usize> =
            (0..e.values.len()).filter(|&i| e.values[i][1..3].iter().any(|n| n.eq_ignore_ascii_case(&t))).collect();
        r.nontrivial(!close.is_empty());
        let got = (e.parse)(&t);
        match got {
            None => ensure!(close.is_empty(), "{} does not parse {:?}, expected one of {:?}", e.name, t, close),
            Some(g) => {
                let ok = if exact.is_empty() { &close } else { &exact };
                ensure!(ok.contains(&g), "{} parses {:?} as value {}, expected one of {:?}", e.name, t, g, ok);
            }
        }
        Ok(())
    })
    .random("printing declared values", 300_000, 3_000_000, move |s, r| {
        let e = &e3[s.below(e3.len())];
        let (i, how, w, p) = (s.below(e.values.len()), s.below(4), s.below(50), s.below(50));
        r.case(&(e.name, i, how, w, p));
        r.nontrivial(true);
        let (got, _) = (e.print)(i, how, w, p);
        // what the context does with a text is its own business: it pads, and it may cut
        let core = got.trim_end_matches('|').trim_matches(|c| c == '*' || c == '-' || c == ' ');
        let h = e.values[i][3];
        ensure!(
            h.trim_matches(' ').starts_with(core),
            "{} value {} printed in a context: {:?}, its human name is {:?}", e.name, i, got, h
        );
        if how < 2 {
            ensure_eq!(core, h.trim_matches(' '), "{} value {} printed in a context", e.name, i);
        }
        Ok(())
    })
    .random("declared binary values", 1_000_000, 10_000_000, move |s, r| {
        const NAMES: [(&str, bool); 8] =
            [("Y", true), ("Yes", true), ("T", true), ("True", true), ("N", false), ("No", false), ("F", false), ("False", false)];
        let b = &b2[s.below(b2.len())];
        let c = if s.bool() && !b.decl.ranges.is_empty() {
            let (x, y) = b.decl.ranges[s.below(b.decl.ranges.len())];
            let v = (s.pick(&[x, y]) as i64 + s.below(3) as i64 - 1).max(0) as u32;
            char::from_u32(v).unwrap_or('a')
        } else {
            edge_char(s)
        };
        let n = s.pick(&NAMES).0;
        let t = near(s, n);
        r.case(&(b.name, c, &t));
        let want = b.decl.ranges.iter().any(|&(x, y)| x <= c as u32 && c as u32 <= y);
        let n = if want { ["Y", "Yes", "Yes", "Yes"] } else { ["N", "No", "No", "No"] };
        ensure_eq!((b.texts)(c), n, "abbreviated, long, human name and text of {} of {:?}", b.name, c);
        let w = NAMES.iter().find(|x| x.0.eq_ignore_ascii_case(&t)).map(|x| x.1);
        r.nontrivial(w.is_some());
        ensure_eq!((b.parse)(&t), w, "{} parses {:?}", b.name, t);
        Ok(())
    })
}
