//! Every per-character property of the crates, as a function char -> text.
#![allow(clippy::redundant_closure)]
use std::borrow::Cow;
use unic::char::property::EnumeratedCharProperty;

pub type Val = Cow<'static, str>;
fn b(x: bool) -> Val {
    Cow::Borrowed(if x { "Y" } else { "N" })
}
fn hex(cs: impl IntoIterator<Item = char>) -> String {
    cs.into_iter().map(|c| format!("{:X}", c as u32)).collect::<Vec<_>>().join(" ")
}

pub struct P {
    pub name: &'static str,
    pub get: fn(char) -> Val,
}

macro_rules! bools { ($($n:literal => $f:path),* $(,)?) => { vec![$(P { name: $n, get: |c| b($f(c)) }),*] } }

pub fn all() -> Vec<P> {
    use unic::ucd;
    let mut v: Vec<P> = bools![
        "Alphabetic" => ucd::is_alphabetic,
        "White_Space" => ucd::is_white_space,
        "Alphanumeric" => ucd::common::is_alphanumeric,
        "Control" => ucd::common::is_control,
        "Numeric" => ucd::common::is_numeric,
        "Lowercase" => ucd::is_lowercase,
        "Uppercase" => ucd::is_uppercase,
        "Cased" => ucd::is_cased,
        "Case_Ignorable" => ucd::is_case_ignorable,
        "Changes_When_Lowercased" => ucd::changes_when_lowercased,
        "Changes_When_Uppercased" => ucd::changes_when_uppercased,
        "Changes_When_Titlecased" => ucd::changes_when_titlecased,
        "Changes_When_Casefolded" => ucd::changes_when_casefolded,
        "Changes_When_Casemapped" => ucd::changes_when_casemapped,
        "Bidi_Mirrored" => ucd::is_bidi_mirrored,
        "Bidi_Control" => ucd::bidi::is_bidi_control,
        "ID_Start" => unic_ucd_ident::is_id_start,
        "ID_Continue" => unic_ucd_ident::is_id_continue,
        "XID_Start" => unic_ucd_ident::is_xid_start,
        "XID_Continue" => unic_ucd_ident::is_xid_continue,
        "Pattern_Syntax" => unic_ucd_ident::is_pattern_syntax,
        "Pattern_White_Space" => unic_ucd_ident::is_pattern_whitespace,
        "Emoji" => unic::emoji::char::is_emoji,
        "Emoji_Presentation" => unic::emoji::char::is_emoji_presentation,
        "Emoji_Modifier" => unic::emoji::char::is_emoji_modifier,
        "Emoji_Modifier_Base" => unic::emoji::char::is_emoji_modifier_base,
        "Emoji_Component" => unic::emoji::char::is_emoji_component,
        "Mark" => ucd::normal::is_combining_mark,
        "Noncharacter" => unic::char::basics::is_noncharacter,
        "Private_Use" => unic::char::basics::is_private_use,
        "Hangul_Syllable" => ucd::hangul::is_syllable,
    ];
    v.push(P { name: "General_Category", get: |c| Cow::Borrowed(ucd::GeneralCategory::of(c).abbr_name()) });
    v.push(P { name: "Bidi_Class", get: |c| Cow::Borrowed(ucd::BidiClass::of(c).abbr_name()) });
    v.push(P { name: "Grapheme_Cluster_Break", get: |c| Cow::Borrowed(ucd::GraphemeClusterBreak::of(c).abbr_name()) });
    v.push(P { name: "Word_Break", get: |c| Cow::Borrowed(ucd::WordBreak::of(c).abbr_name()) });
    v.push(P { name: "Sentence_Break", get: |c| Cow::Borrowed(ucd::SentenceBreak::of(c).abbr_name()) });
    v.push(P {
        name: "Canonical_Combining_Class",
        get: |c| {
            let n = ucd::CanonicalCombiningClass::of(c).number();
            if n == 0 {
                Cow::Borrowed("0")
            } else {
                Cow::Owned(n.to_string())
            }
        },
    });
    v.push(P {
        name: "Decomposition_Type",
        get: |c| Cow::Borrowed(ucd::normal::DecompositionType::of(c).map_or("-", |t| t.abbr_name())),
    });
    v.push(P {
        name: "Age",
        get: |c| match ucd::Age::of(c).map(|a| a.actual()) {
            None => Cow::Borrowed("-"),
            Some(v) => Cow::Owned(format!("{}.{}.{}", v.major, v.minor, v.micro)),
        },
    });
    v.push(P {
        name: "Block",
        get: |c| match ucd::Block::of(c) {
            None => Cow::Borrowed("-"),
            Some(b) => Cow::Owned(format!("{:X}..{:X} {}", b.range.low as u32, b.range.high as u32, b.name)),
        },
    });
    v.push(P {
        name: "Canonical_Decomposition",
        get: |c| match ucd::normal::canonical_decomposition(c) {
            None => Cow::Borrowed("-"),
            Some(d) => Cow::Owned(hex(d.iter().copied())),
        },
    });
    v.push(P {
        name: "Compatibility_Decomposition",
        get: |c| match ucd::normal::compatibility_decomposition(c) {
            None => Cow::Borrowed("-"),
            Some(d) => Cow::Owned(hex(d.iter().copied())),
        },
    });
    v.push(P {
        name: "Canonical_Composition",
        get: |c| match ucd::normal::canonical_composition(c) {
            None => Cow::Borrowed("-"),
            Some(t) => Cow::Owned(
                t.iter()
                    .map(|(r, v)| format!("{:X}-{:X}>{:X}", r.low as u32, r.high as u32, v as u32))
                    .collect::<Vec<_>>()
                    .join(" "),
            ),
        },
    });
    v.push(P {
        name: "IDNA_Mapping",
        get: |c| {
            use unic_idna_mapping::Mapping::*;
            match unic_idna_mapping::Mapping::of(c) {
                Valid => Cow::Borrowed("valid"),
                Ignored => Cow::Borrowed("ignored"),
                Disallowed => Cow::Borrowed("disallowed"),
                Mapped(s) => Cow::Owned(format!("mapped {}", hex(s.chars()))),
                Deviation(s) => Cow::Owned(format!("deviation {}", hex(s.chars()))),
                DisallowedStd3Valid => Cow::Borrowed("disallowed_STD3_valid"),
                DisallowedStd3Mapped(s) => Cow::Owned(format!("disallowed_STD3_mapped {}", hex(s.chars()))),
            }
        },
    });
    v.push(P {
        name: "Name",
        get: |c| match ucd::Name::of(c) {
            None => Cow::Borrowed("-"),
            Some(n) => Cow::Owned(n.to_string()),
        },
    });
    v.push(P {
        name: "Name_Aliases",
        get: |c| {
            use ucd::NameAliasType::*;
            let mut s = String::new();
            if let Some(ts) = ucd::NameAliasType::of(c) {
                s.push_str(&format!("{:?}", ts));
            }
            for (n, t) in [("corr", NameCorrections), ("ctrl", ControlCodeNames), ("alt", AlternateNames), ("fig", Figments), ("abbr", NameAbbreviations)] {
                if let Some(a) = ucd::name_aliases_of(c, t) {
                    s.push_str(&format!(";{}={}", n, a.join(",")));
                }
            }
            if s.is_empty() {
                Cow::Borrowed("-")
            } else {
                Cow::Owned(s)
            }
        },
    });
    v
}

/// Writes one file per property: runs "START..END<TAB>VALUE" of equal values.
pub fn dump(dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    for p in all() {
        let mut out = String::new();
        let mut cur: Option<(u32, u32, Val)> = None;
        let put = |r: &Option<(u32, u32, Val)>, out: &mut String| {
            if let Some((a, b, v)) = r {
                out.push_str(&format!("{:X}..{:X}\t{}\n", a, b, v));
            }
        };
        for i in 0..0x11_0000u32 {
            let c = match char::from_u32(i) {
                Some(c) => c,
                None => continue,
            };
            let v = (p.get)(c);
            match &mut cur {
                Some((_, e, cv)) if *cv == v => *e = i,
                _ => {
                    put(&cur, &mut out);
                    cur = Some((i, i, v));
                }
            }
        }
        put(&cur, &mut out);
        std::fs::write(format!("{}/{}.txt", dir, p.name), out).unwrap();
    }
}
