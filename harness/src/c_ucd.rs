//! C19-C23: the Unicode Character Database, its helpers, names, and value names.
use crate::gen::{any_string, esc, ByClass, KNOWN};
use crate::pbt::*;
use crate::props;
use crate::refdata::{prop, Prop};
use crate::{ensure, ensure_eq};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;
use std::sync::{Arc, OnceLock};
use unic::char::property::{
    BinaryCharProperty, CharProperty, CustomCharProperty, EnumeratedCharProperty, NumericCharProperty,
    PartialCharProperty, TotalCharProperty,
};
use unic::emoji::char as emoji;
use unic::ucd::bidi::BidiClassCategory;
use unic::ucd::normal::{is_combining_mark, DecompositionType};
use unic::ucd::{
    self, case, common, Age, BidiClass, Block, BlockIter, CanonicalCombiningClass, CharAge, CharBidiClass, GeneralCategory,
    GraphemeClusterBreak, Name, SentenceBreak, StrBidiClass, UnicodeVersion, WordBreak,
};
use unic_ucd_ident as ident;

pub const SCALARS: u64 = 0x11_0000 - 0x800;
fn at(i: u64) -> char {
    let v = i as u32;
    char::from_u32(if v >= 0xD800 { v + 0x800 } else { v }).unwrap()
}

// ---------------------------------------------------------------- C19

/// Every binary property type with its function and its reference table.
macro_rules! for_binaries {
    ($m:ident) => {
        $m! {
            common::Alphabetic, ucd::is_alphabetic, "Alphabetic", "Alpha";
            common::WhiteSpace, ucd::is_white_space, "White_Space", "WSpace";
            common::alphanumeric::Alphanumeric, common::is_alphanumeric, "Alphanumeric", "Alphanumeric";
            common::control::Control, common::is_control, "Control", "Control";
            common::numeric::Numeric, common::is_numeric, "Numeric", "Numeric";
            case::Lowercase, ucd::is_lowercase, "Lowercase", "Lower";
            case::Uppercase, ucd::is_uppercase, "Uppercase", "Upper";
            case::Cased, ucd::is_cased, "Cased", "Cased";
            case::CaseIgnorable, ucd::is_case_ignorable, "Case_Ignorable", "CI";
            case::ChangesWhenLowercased, ucd::changes_when_lowercased, "Changes_When_Lowercased", "CWL";
            case::ChangesWhenUppercased, ucd::changes_when_uppercased, "Changes_When_Uppercased", "CWU";
            case::ChangesWhenTitlecased, ucd::changes_when_titlecased, "Changes_When_Titlecased", "CWT";
            case::ChangesWhenCasefolded, ucd::changes_when_casefolded, "Changes_When_Casefolded", "CWCF";
            case::ChangesWhenCasemapped, ucd::changes_when_casemapped, "Changes_When_Casemapped", "CWCM";
            ucd::bidi::BidiMirrored, ucd::is_bidi_mirrored, "Bidi_Mirrored", "Bidi_M";
            ucd::bidi::BidiControl, ucd::bidi::is_bidi_control, "Bidi_Control", "Bidi_C";
            ident::IdStart, ident::is_id_start, "ID_Start", "IDS";
            ident::IdContinue, ident::is_id_continue, "ID_Continue", "IDC";
            ident::XidStart, ident::is_xid_start, "XID_Start", "XIDS";
            ident::XidContinue, ident::is_xid_continue, "XID_Continue", "XIDC";
            ident::PatternSyntax, ident::is_pattern_syntax, "Pattern_Syntax", "Pat_Syn";
            ident::PatternWhitespace, ident::is_pattern_whitespace, "Pattern_White_Space", "Pat_WS";
            emoji::Emoji, emoji::is_emoji, "Emoji", "Emoji";
            emoji::EmojiPresentation, emoji::is_emoji_presentation, "Emoji_Presentation", "Emoji_Presentation";
            emoji::EmojiModifier, emoji::is_emoji_modifier, "Emoji_Modifier", "Emoji_Modifier";
            emoji::EmojiModifierBase, emoji::is_emoji_modifier_base, "Emoji_Modifier_Base", "Emoji_Modifier_Base";
            emoji::EmojiComponent, emoji::is_emoji_component, "Emoji_Component", "Emoji_Component";
        }
    };
}

/// All ways to ask for a binary property give the same answer.
macro_rules! binary_ways {
    ($($t:ty, $f:path, $n:literal, $a:literal;)*) => {
        fn binary_ways(c: char) -> Res {
            $({
                let want = $f(c);
                let v = <$t>::of(c);
                ensure_eq!(v.as_bool(), want, "{}::of(U+{:04X}).as_bool()", $n, c as u32);
                ensure_eq!(bool::from(v), want, "bool::from({}::of(U+{:04X}))", $n, c as u32);
                ensure_eq!(BinaryCharProperty::as_bool(&v), want, "BinaryCharProperty::as_bool of {} of U+{:04X}", $n, c as u32);
                ensure_eq!(<$t as TotalCharProperty>::of(c), v, "<{} as TotalCharProperty>::of(U+{:04X})", $n, c as u32);
                ensure_eq!(<$t as PartialCharProperty>::of(c), Some(v), "<{} as PartialCharProperty>::of(U+{:04X})", $n, c as u32);
            })*
            Ok(())
        }
    };
}
for_binaries!(binary_ways);

fn enum_way<T: TotalCharProperty + PartialEq + Debug>(n: &str, c: char, v: T) -> Res {
    ensure_eq!(<T as TotalCharProperty>::of(c), v, "<{} as TotalCharProperty>::of(U+{:04X})", n, c as u32);
    ensure_eq!(<T as PartialCharProperty>::of(c), Some(v), "<{} as PartialCharProperty>::of(U+{:04X})", n, c as u32);
    Ok(())
}

/// The marks according to unic-ucd-normal built alone (another implementation than within `unic`).
fn min_marks() -> &'static Vec<u8> {
    static M: OnceLock<Vec<u8>> = OnceLock::new();
    M.get_or_init(|| {
        let exe = std::env::current_exe().unwrap().with_file_name("unic-verif-min");
        let o = std::process::Command::new(&exe).output().unwrap_or_else(|e| panic!("{}: {}", exe.display(), e));
        assert!(o.status.success(), "is_combining_mark of unic-ucd-normal alone: {}", String::from_utf8_lossy(&o.stderr));
        assert_eq!(o.stdout.len() as u64, SCALARS);
        o.stdout
    })
}

pub fn c19() -> Check {
    let list: Vec<(props::P, &'static Prop)> = props::all()
        .into_iter()
        .filter(|p| !matches!(p.name, "Name" | "Name_Aliases" | "Canonical_Composition"))
        .map(|p| {
            let r = prop(p.name);
            (p, r)
        })
        .collect();
    let gc = prop("General_Category");
    let mark = prop("Mark");
    let bounds: Arc<Vec<HashSet<u32>>> = Arc::new(
        list.iter().map(|(_, r)| r.ranges.iter().flat_map(|&(a, b, _)| [a, b]).collect::<HashSet<u32>>()).collect(),
    );
    Check::new(
        "C19",
        "every one of the 1,112,064 characters with each of the 42 properties (non-trivial: the character starts or ends a run of some property in the reference data, where tables go wrong)",
    )
    .assume("reference: /verif/refdata, made from the Unicode 10.0 data of two independent implementations, see DESIGN.md")
    .every_char("value", move |c, r| {
        r.evals(list.len() as u64);
        r.case(&c);
        for (i, (p, want)) in list.iter().enumerate() {
            let got = (p.get)(c);
            let w = want.get(c);
            r.nontrivial(bounds[i].contains(&(c as u32)));
            if got != w {
                if p.name == "Bidi_Class" && w == "BN" && got == "L" && gc.get(c) == "Cn" {
                    r.known("default-bn", format!("Bidi_Class of U+{:04X}: got L, expected BN", c as u32));
                    r.class("unassigned default-ignorable or noncharacter: recorded finding");
                    continue;
                }
                return Err(format!("{} of U+{:04X}: got {:?}, expected {:?}", p.name, c as u32, got, w));
            }
        }
        Ok(())
    })
    .every_char("every way to ask", move |c, r| {
        r.evals(27 * 5 + 20);
        r.case(&c);
        binary_ways(c)?;
        r.nontrivial(gc.get(c) != "Cn");
        enum_way("GeneralCategory", c, GeneralCategory::of(c))?;
        enum_way("BidiClass", c, BidiClass::of(c))?;
        ensure_eq!(c.bidi_class(), BidiClass::of(c), "CharBidiClass::bidi_class of U+{:04X}", c as u32);
        enum_way("GraphemeClusterBreak", c, GraphemeClusterBreak::of(c))?;
        enum_way("WordBreak", c, WordBreak::of(c))?;
        enum_way("SentenceBreak", c, SentenceBreak::of(c))?;
        let ccc = CanonicalCombiningClass::of(c);
        enum_way("CanonicalCombiningClass", c, ccc)?;
        ensure_eq!(NumericCharProperty::number(&ccc), ccc.number(), "NumericCharProperty::number of ccc of U+{:04X}", c as u32);
        let age = Age::of(c);
        ensure_eq!(<Age as PartialCharProperty>::of(c), age, "<Age as PartialCharProperty>::of(U+{:04X})", c as u32);
        ensure_eq!(c.age(), age, "CharAge::age of U+{:04X}", c as u32);
        if let Some(a) = age {
            ensure_eq!(CustomCharProperty::actual(&a), a.actual(), "CustomCharProperty::actual of age of U+{:04X}", c as u32);
        }
        let b = |b: Option<Block>| b.map(|b| (b.range.low, b.range.high, b.name));
        ensure_eq!(b(<Block as PartialCharProperty>::of(c)), b(Block::of(c)), "<Block as PartialCharProperty>::of(U+{:04X})", c as u32);
        ensure_eq!(
            <DecompositionType as PartialCharProperty>::of(c),
            DecompositionType::of(c),
            "<DecompositionType as PartialCharProperty>::of(U+{:04X})",
            c as u32
        );
        Ok(())
    })
    .exhaustive("is_combining_mark of unic-ucd-normal built alone", SCALARS, move |i, r| {
        let c = at(i);
        r.case(&c);
        r.nontrivial(mark.is(c));
        ensure_eq!(min_marks()[i as usize] == b'Y', mark.is(c), "is_combining_mark(U+{:04X}) of unic-ucd-normal alone", c as u32);
        Ok(())
    })
}

// ---------------------------------------------------------------- C20

/// UAX #9, table 4: class, category, direction.
const BIDI_TABLE: [(&str, BidiClassCategory, i8); 23] = {
    use BidiClassCategory::*;
    [
        ("L", Strong, 1),
        ("R", Strong, -1),
        ("AL", Strong, -1),
        ("EN", Weak, 0),
        ("ES", Weak, 0),
        ("ET", Weak, 0),
        ("AN", Weak, 0),
        ("CS", Weak, 0),
        ("NSM", Weak, 0),
        ("BN", Weak, 0),
        ("B", Neutral, 0),
        ("S", Neutral, 0),
        ("WS", Neutral, 0),
        ("ON", Neutral, 0),
        ("LRE", ExplicitFormatting, 1),
        ("LRO", ExplicitFormatting, 1),
        ("RLE", ExplicitFormatting, -1),
        ("RLO", ExplicitFormatting, -1),
        ("PDF", ExplicitFormatting, 0),
        ("LRI", ExplicitFormatting, 1),
        ("RLI", ExplicitFormatting, -1),
        ("FSI", ExplicitFormatting, 0),
        ("PDI", ExplicitFormatting, 0),
    ]
};

fn bidi_class_of_name(n: &str) -> BidiClass {
    use BidiClass::*;
    match n {
        "L" => LeftToRight,
        "R" => RightToLeft,
        "AL" => ArabicLetter,
        "EN" => EuropeanNumber,
        "ES" => EuropeanSeparator,
        "ET" => EuropeanTerminator,
        "AN" => ArabicNumber,
        "CS" => CommonSeparator,
        "NSM" => NonspacingMark,
        "BN" => BoundaryNeutral,
        "B" => ParagraphSeparator,
        "S" => SegmentSeparator,
        "WS" => WhiteSpace,
        "ON" => OtherNeutral,
        "LRE" => LeftToRightEmbedding,
        "LRO" => LeftToRightOverride,
        "RLE" => RightToLeftEmbedding,
        "RLO" => RightToLeftOverride,
        "PDF" => PopDirectionalFormat,
        "LRI" => LeftToRightIsolate,
        "RLI" => RightToLeftIsolate,
        "FSI" => FirstStrongIsolate,
        "PDI" => PopDirectionalIsolate,
        _ => panic!("{}", n),
    }
}

type Gc = GeneralCategory;
/// General category with its abbreviation.
const GCS: [(Gc, &str); 30] = [
    (Gc::UppercaseLetter, "Lu"),
    (Gc::LowercaseLetter, "Ll"),
    (Gc::TitlecaseLetter, "Lt"),
    (Gc::ModifierLetter, "Lm"),
    (Gc::OtherLetter, "Lo"),
    (Gc::NonspacingMark, "Mn"),
    (Gc::SpacingMark, "Mc"),
    (Gc::EnclosingMark, "Me"),
    (Gc::DecimalNumber, "Nd"),
    (Gc::LetterNumber, "Nl"),
    (Gc::OtherNumber, "No"),
    (Gc::ConnectorPunctuation, "Pc"),
    (Gc::DashPunctuation, "Pd"),
    (Gc::OpenPunctuation, "Ps"),
    (Gc::ClosePunctuation, "Pe"),
    (Gc::InitialPunctuation, "Pi"),
    (Gc::FinalPunctuation, "Pf"),
    (Gc::OtherPunctuation, "Po"),
    (Gc::MathSymbol, "Sm"),
    (Gc::CurrencySymbol, "Sc"),
    (Gc::ModifierSymbol, "Sk"),
    (Gc::OtherSymbol, "So"),
    (Gc::SpaceSeparator, "Zs"),
    (Gc::LineSeparator, "Zl"),
    (Gc::ParagraphSeparator, "Zp"),
    (Gc::Control, "Cc"),
    (Gc::Format, "Cf"),
    (Gc::Surrogate, "Cs"),
    (Gc::PrivateUse, "Co"),
    (Gc::Unassigned, "Cn"),
];
fn gc_name(g: Gc) -> &'static str {
    GCS.iter().find(|x| x.0 == g).unwrap().1
}

fn ccc_consts() -> Vec<(CanonicalCombiningClass, u8)> {
    type C = CanonicalCombiningClass;
    vec![
        (C::NotReordered, 0),
        (C::Overlay, 1),
        (C::Nukta, 7),
        (C::KanaVoicing, 8),
        (C::Virama, 9),
        (C::AttatchedBelowLeft, 200),
        (C::AttachedBelow, 202),
        (C::AttachedBelowRight, 204),
        (C::AttachedLeft, 208),
        (C::AttachedRight, 210),
        (C::AttachedAboveLeft, 212),
        (C::AttatchedAbove, 214),
        (C::AttatchedAboveRight, 216),
        (C::BelowLeft, 218),
        (C::Below, 220),
        (C::BelowRight, 222),
        (C::Left, 224),
        (C::Right, 226),
        (C::AboveLeft, 228),
        (C::Above, 230),
        (C::AboveRight, 232),
        (C::DoubleBelow, 233),
        (C::DoubleAbove, 234),
        (C::IotaSubscript, 240),
    ]
}

/// Properties that Unicode defines in terms of others (UAX #44, UAX #31, UTS #51), on the library's values.
fn relations(c: char) -> Res {
    let u = c as u32;
    let g = GeneralCategory::of(c);
    let n = gc_name(g);
    let imp = |what: &str, a: bool, b: bool| -> Res {
        ensure!(!a || b, "U+{:04X}: {} does not hold", u, what);
        Ok(())
    };
    let iff = |what: &str, a: bool, b: bool| -> Res {
        ensure!(a == b, "U+{:04X}: {} does not hold ({} / {})", u, what, a, b);
        Ok(())
    };
    let alphabetic = ucd::is_alphabetic(c);
    let number = n.starts_with('N');
    iff("Numeric = gc N", common::is_numeric(c), number)?;
    iff("Alphanumeric = Alphabetic or Numeric", common::is_alphanumeric(c), alphabetic || number)?;
    iff("Control = gc Cc", common::is_control(c), n == "Cc")?;
    iff("combining mark = gc M", is_combining_mark(c), n.starts_with('M'))?;
    let (lower, upper) = (ucd::is_lowercase(c), ucd::is_uppercase(c));
    iff("Cased = Lowercase or Uppercase or Lt", ucd::is_cased(c), lower || upper || n == "Lt")?;
    imp("Lowercase and Uppercase exclude each other", true, !(lower && upper))?;
    imp("Ll is Lowercase", n == "Ll", lower)?;
    imp("Lu is Uppercase", n == "Lu", upper)?;
    imp("Lowercase or Uppercase is Alphabetic", lower || upper, alphabetic)?;
    imp("Lu, Ll, Lt, Lm, Lo, Nl are Alphabetic", n.starts_with('L') || n == "Nl", alphabetic)?;
    let (cwl, cwu, cwt, cwcf) = (
        ucd::changes_when_lowercased(c),
        ucd::changes_when_uppercased(c),
        ucd::changes_when_titlecased(c),
        ucd::changes_when_casefolded(c),
    );
    iff("CWCM = CWL or CWU or CWT", ucd::changes_when_casemapped(c), cwl || cwu || cwt)?;
    imp("what changes when lowercased changes when casefolded or is Cherokee", cwl, cwcf || (0x13a0..=0x13f5).contains(&u))?;
    imp("Mn, Me, Cf, Lm, Sk are Case_Ignorable", matches!(n, "Mn" | "Me" | "Cf" | "Lm" | "Sk"), ucd::is_case_ignorable(c))?;
    let (ids, idc, xids, xidc) = (ident::is_id_start(c), ident::is_id_continue(c), ident::is_xid_start(c), ident::is_xid_continue(c));
    imp("ID_Start is ID_Continue", ids, idc)?;
    imp("XID_Start is XID_Continue", xids, xidc)?;
    imp("XID_Start is ID_Start", xids, ids)?;
    imp("XID_Continue is ID_Continue", xidc, idc)?;
    let (ps, pw) = (ident::is_pattern_syntax(c), ident::is_pattern_whitespace(c));
    imp("Pattern_Syntax and Pattern_White_Space exclude each other", true, !(ps && pw))?;
    imp("ID_Continue and Pattern_Syntax / Pattern_White_Space exclude each other", idc, !(ps || pw))?;
    iff("ID_Start = L, Nl, Other_ID_Start", ids, {
        let other = matches!(u, 0x1885 | 0x1886 | 0x2118 | 0x212E | 0x309B | 0x309C);
        (n.starts_with('L') || n == "Nl" || other) && !ps && !pw
    })?;
    iff("ID_Continue = ID_Start, Mn, Mc, Nd, Pc, Other_ID_Continue", idc, {
        let other = matches!(u, 0xB7 | 0x387 | 0x1369..=0x1371 | 0x19DA);
        (ids || matches!(n, "Mn" | "Mc" | "Nd" | "Pc") || other) && !ps && !pw
    })?;
    imp("White_Space of gc Z", n.starts_with('Z'), ucd::is_white_space(c))?;
    imp("White_Space is Z or Cc", ucd::is_white_space(c), n.starts_with('Z') || n == "Cc")?;
    let em = emoji::is_emoji(c);
    imp("Emoji_Presentation is Emoji", emoji::is_emoji_presentation(c), em)?;
    imp("Emoji_Modifier is Emoji", emoji::is_emoji_modifier(c), em)?;
    imp("Emoji_Modifier_Base is Emoji", emoji::is_emoji_modifier_base(c), em)?;
    iff("Emoji_Modifier = 1F3FB..1F3FF", emoji::is_emoji_modifier(c), (0x1F3FB..=0x1F3FF).contains(&u))?;
    iff("noncharacter", unic::char::basics::is_noncharacter(c), (0xFDD0..=0xFDEF).contains(&u) || u & 0xFFFE == 0xFFFE)?;
    imp("noncharacters are Cn", unic::char::basics::is_noncharacter(c), n == "Cn")?;
    let co = matches!(u, 0xE000..=0xF8FF | 0xF_0000..=0xF_FFFD | 0x10_0000..=0x10_FFFD);
    iff("private use", unic::char::basics::is_private_use(c), co)?;
    iff("private use = gc Co", co, n == "Co")?;
    iff("has an age = assigned or noncharacter", Age::of(c).is_some(), n != "Cn" || unic::char::basics::is_noncharacter(c))?;
    imp("what is assigned, outside planes 15 and 16, has a block", n != "Cn", Block::of(c).is_some())?;
    // segmentation and Hangul
    let syl = ucd::hangul::is_syllable(c);
    iff("Hangul syllable = AC00..D7A3", syl, (0xAC00..=0xD7A3).contains(&u))?;
    let gcb = GraphemeClusterBreak::of(c);
    iff("Hangul syllable = GCB LV or LVT", syl, matches!(gcb, GraphemeClusterBreak::LV | GraphemeClusterBreak::LVT))?;
    let emod = matches!(gcb, GraphemeClusterBreak::EModifier);
    iff("GCB E_Modifier = Emoji_Modifier", emod, emoji::is_emoji_modifier(c))?;
    iff("GCB ZWJ = U+200D = WB ZWJ", gcb == GraphemeClusterBreak::ZWJ, u == 0x200D)?;
    iff("WB ZWJ = U+200D", WordBreak::of(c) == WordBreak::ZWJ, u == 0x200D)?;
    iff(
        "GCB, WB Regional_Indicator = 1F1E6..1F1FF",
        gcb == GraphemeClusterBreak::RegionalIndicator && WordBreak::of(c) == WordBreak::RegionalIndicator,
        (0x1F1E6..=0x1F1FF).contains(&u),
    )?;
    imp("WB Numeric is SB Numeric", WordBreak::of(c) == WordBreak::Numeric, SentenceBreak::of(c) == SentenceBreak::Numeric)?;
    // decomposition
    let (cd, kd, dt) = (ucd::normal::canonical_decomposition(c), ucd::normal::compatibility_decomposition(c), DecompositionType::of(c));
    iff("dt Canonical = canonical mapping or Hangul syllable", dt == Some(DecompositionType::Canonical), cd.is_some() || syl)?;
    iff("other dt = compatibility mapping", dt.is_some() && dt != Some(DecompositionType::Canonical), kd.is_some())?;
    let ccc = CanonicalCombiningClass::of(c);
    iff("is_reordered", ccc.is_reordered(), ccc.number() != 0)?;
    iff("is_not_reordered", ccc.is_not_reordered(), ccc.number() == 0)?;
    imp("ccc > 0 is a mark", ccc.number() != 0, n.starts_with('M'))?;
    ensure_eq!(ccc.to_string(), ccc.number().to_string(), "printed ccc of U+{:04X}", u);
    // direction
    let b = BidiClass::of(c);
    let row = BIDI_TABLE.iter().find(|r| bidi_class_of_name(r.0) == b).unwrap();
    ensure_eq!(c.is_ltr(), row.2 == 1, "CharBidiClass::is_ltr of U+{:04X}", u);
    ensure_eq!(c.is_rtl(), row.2 == -1, "CharBidiClass::is_rtl of U+{:04X}", u);
    imp("explicit formatting is Bidi_Control", row.1 == BidiClassCategory::ExplicitFormatting, ucd::bidi::is_bidi_control(c))?;
    imp("Bidi_Control is Cf", ucd::bidi::is_bidi_control(c), n == "Cf")?;
    imp("Mirrored is ON", ucd::is_bidi_mirrored(c), b == BidiClass::OtherNeutral)?;
    Ok(())
}

pub fn c20() -> Check {
    let by = Arc::new(ByClass::new("Bidi_Class"));
    let by2 = by.clone();
    Check::new(
        "C20",
        "every value of the enumerated properties; every character (non-trivial: assigned); strings of up to 40 characters drawn by bidi class (non-trivial: exactly one or two of the three string tests hold)",
    )
    .exhaustive("groups of general categories", 30, |i, r| {
        let (g, n) = GCS[i as usize];
        r.case(n);
        r.nontrivial(true);
        let l = n.as_bytes()[0];
        ensure_eq!(g.is_cased_letter(), matches!(n, "Lu" | "Ll" | "Lt"), "{}.is_cased_letter", n);
        ensure_eq!(g.is_letter(), l == b'L', "{}.is_letter", n);
        ensure_eq!(g.is_mark(), l == b'M', "{}.is_mark", n);
        ensure_eq!(g.is_number(), l == b'N', "{}.is_number", n);
        ensure_eq!(g.is_punctuation(), l == b'P', "{}.is_punctuation", n);
        ensure_eq!(g.is_symbol(), l == b'S', "{}.is_symbol", n);
        ensure_eq!(g.is_separator(), l == b'Z', "{}.is_separator", n);
        ensure_eq!(g.is_other(), l == b'C', "{}.is_other", n);
        Ok(())
    })
    .exhaustive("categories and directions of bidi classes", 23, |i, r| {
        let (n, cat, dir) = BIDI_TABLE[i as usize];
        r.case(n);
        r.nontrivial(true);
        let b = bidi_class_of_name(n);
        ensure_eq!(b.category(), cat, "{}.category", n);
        ensure_eq!(b.is_ltr(), dir == 1, "{}.is_ltr", n);
        ensure_eq!(b.is_rtl(), dir == -1, "{}.is_rtl", n);
        Ok(())
    })
    .exhaustive("pairs of combining classes", 24 * 24, |i, r| {
        let all = ccc_consts();
        let ((a, x), (b, y)) = (all[i as usize / 24], all[i as usize % 24]);
        r.case(&(x, y));
        r.nontrivial(x != y);
        ensure_eq!(a.number(), x, "number of the combining class named {}", x);
        ensure_eq!(a.is_reordered(), x != 0, "is_reordered of {}", x);
        ensure_eq!(a.is_not_reordered(), x == 0, "is_not_reordered of {}", x);
        ensure_eq!(a.cmp(&b), x.cmp(&y), "combining classes {} and {} compared", x, y);
        ensure_eq!(a.partial_cmp(&b), x.partial_cmp(&y), "combining classes {} and {} compared", x, y);
        ensure_eq!(a == b, x == y, "combining classes {} and {} equal", x, y);
        ensure_eq!(a < b, x < y, "combining class {} < {}", x, y);
        Ok(())
    })
    .every_char("properties defined in terms of others", |c, r| {
        r.case(&c);
        r.nontrivial(GeneralCategory::of(c) != GeneralCategory::Unassigned);
        relations(c)
    })
    .random("string tests", 3_000_000, 20_000_000, move |s, r| {
        let t = match s.below(5) {
            0 => any_string(s, 20),
            // long neutral texts with at most one interesting character
            1 => {
                let n = s.pick(&[' ', '1', '.', '\u{300}', '\u{ad}']);
                let mut t: Vec<char> = vec![n; s.urange(0, 40)];
                if s.chance(3, 4) {
                    let p = s.urange(0, t.len());
                    t.insert(p, by.char(s));
                }
                t.into_iter().collect()
            }
            _ => by.string(s, 40),
        };
        r.case(&t);
        let cls: Vec<&(&str, BidiClassCategory, i8)> = t
            .chars()
            .map(|c| {
                let b = BidiClass::of(c);
                BIDI_TABLE.iter().find(|r| bidi_class_of_name(r.0) == b).unwrap()
            })
            .collect();
        let (l, rt, e) = (
            cls.iter().any(|r| r.2 == 1),
            cls.iter().any(|r| r.2 == -1),
            cls.iter().any(|r| r.1 == BidiClassCategory::ExplicitFormatting),
        );
        r.nontrivial((l as u8 + rt as u8 + e as u8) % 3 != 0);
        ensure_eq!(t.has_ltr(), l, "has_ltr of {}", esc(&t));
        ensure_eq!(t.has_rtl(), rt, "has_rtl of {}", esc(&t));
        ensure_eq!(t.has_bidi_explicit(), e, "has_bidi_explicit of {}", esc(&t));
        Ok(())
    })
    .every_char("string tests with one character", |c, r| {
        r.case(&c);
        let (l, rt, e) = (c.is_ltr(), c.is_rtl(), (BidiClass::of(c).category() == BidiClassCategory::ExplicitFormatting));
        r.nontrivial(l || rt || e);
        let pad = (c as usize / 7) % 20;
        let fill = [" ", "\u{a0}", "\u{2003}", "\u{1f600}"][c as usize % 4];
        for (before, after) in [(0, 0), (0, 1), (1, 0), (pad, 2), (1, pad), (pad + 8, pad)] {
            let t = format!("{}{c}{}", fill.repeat(before), fill.repeat(after));
            ensure_eq!((t.has_ltr(), t.has_rtl(), t.has_bidi_explicit()), (l, rt, e), "has_ltr, has_rtl, has_bidi_explicit of {}", esc(&t));
        }
        Ok(())
    })
    .random("tests of long strings", 15_000, 500_000, move |s, r| {
        let n = if s.bool() { s.below(300) } else { s.pick(&[255usize, 256, 257, 511, 512, 1024, 4096, 16_384, 65_535, 65_536, 70_000]) };
        let fill = [' ', '\u{a0}', '\u{2003}', '\u{1f600}', '\u{300}'];
        let one = s.pick(&fill);
        let mut t: Vec<char> = if s.bool() { vec![one; n] } else { (0..n).map(|k| fill[k * 7 % 11 % 5]).collect() };
        let mut odd = vec![];
        for _ in 0..s.below(3) {
            let c = by2.char(s);
            let k = match s.below(4) {
                0 => t.len(),
                1 => t.len().saturating_sub(1 + s.below(8)),
                _ => s.below(t.len() + 1),
            };
            t.insert(k, c);
            odd.push((k, c));
        }
        r.case(&(n, one, &odd));
        let any = |f: &dyn Fn(char) -> bool| odd.iter().any(|o| f(o.1));
        let want = (any(&|c| c.is_ltr()), any(&|c| c.is_rtl()), any(&|c| (BidiClass::of(c).category() == BidiClassCategory::ExplicitFormatting)));
        r.nontrivial(want.0 || want.1 || want.2);
        let t: String = t.into_iter().collect();
        ensure_eq!((t.has_ltr(), t.has_rtl(), t.has_bidi_explicit()), want, "has_ltr, has_rtl, has_bidi_explicit of {} characters without direction and {:?}", n, odd);
        Ok(())
    })
}

// ---------------------------------------------------------------- C21

const JAMO_L: [&str; 19] =
    ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const JAMO_V: [&str; 21] = [
    "A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I",
];
const JAMO_T: [&str; 28] = [
    "", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J",
    "C", "K", "T", "P", "H",
];

pub fn ref_name(p: &Prop, c: char) -> Option<String> {
    let v = p.get(c);
    let u = c as u32;
    Some(match v {
        "-" => return None,
        "<HANGUL SYLLABLE>" => {
            let i = (u - 0xAC00) as usize;
            format!("HANGUL SYLLABLE {}{}{}", JAMO_L[i / 588], JAMO_V[i % 588 / 28], JAMO_T[i % 28])
        }
        _ if v.starts_with('<') => format!("{}-{:X}", &v[1..v.len() - 1], u),
        _ => v.to_string(),
    })
}

struct Names {
    list: Vec<(char, String)>,
    /// positions in `list` in the order of the names
    sorted: Vec<u32>,
}
fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| {
        let p = prop("Name");
        let list: Vec<(char, String)> =
            (0..SCALARS).map(at).filter_map(|c| ref_name(p, c).map(|n| (c, n))).collect();
        let mut sorted: Vec<u32> = (0..list.len() as u32).collect();
        sorted.sort_by(|&a, &b| list[a as usize].1.cmp(&list[b as usize].1));
        Names { list, sorted }
    })
}

fn same_order(a: &(char, String), b: &(char, String)) -> Res {
    let (x, y) = (Name::of(a.0).ok_or("no name")?, Name::of(b.0).ok_or("no name")?);
    let want = a.1.cmp(&b.1);
    ensure_eq!(x.cmp(&y), want, "names {:?} and {:?} compared", a.1, b.1);
    ensure_eq!(y.cmp(&x), want.reverse(), "names {:?} and {:?} compared", b.1, a.1);
    ensure_eq!(x.partial_cmp(&y), Some(want), "names {:?} and {:?} compared partially", a.1, b.1);
    ensure_eq!(x == y, want == Ordering::Equal, "names {:?} and {:?} equal", a.1, b.1);
    ensure_eq!(x < y, want == Ordering::Less, "name {:?} < {:?}", a.1, b.1);
    ensure_eq!(x >= y, want != Ordering::Less, "name {:?} >= {:?}", a.1, b.1);
    Ok(())
}

pub fn c21() -> Check {
    let p = prop("Name");
    let al = prop("Name_Aliases");
    let n = names().list.len() as u64;
    let get_aliases = props::all().into_iter().find(|p| p.name == "Name_Aliases").unwrap().get;
    Check::new(
        "C21",
        "every character (non-trivial: it has a name / an alias); pairs of named characters, half of them close in the order of names (non-trivial: different names that share at least 4 leading letters); lists to sort",
    )
    .assume("reference: the names of /verif/refdata/Name.txt; algorithmic names are derived here by the rules of the standard (sections 3.12 and 4.8)")
    .every_char("name", move |c, r| {
        r.case(&c);
        let want = ref_name(p, c);
        r.nontrivial(want.is_some());
        match (Name::of(c), want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => {
                ensure_eq!(g.to_string(), w, "name of U+{:04X}", c as u32);
                ensure_eq!(g.len(), w.len(), "length of the name of U+{:04X}", c as u32);
                let mut buf = String::new();
                std::fmt::write(&mut buf, format_args!("[{}]", g)).map_err(|e| e.to_string())?;
                ensure_eq!(buf, format!("[{}]", w), "name of U+{:04X} within text", c as u32);
                let Some(again) = Name::of(c) else { return Err("name vanished".into()) };
                ensure_eq!(again == g, true, "the name of U+{:04X} equals itself", c as u32);
                ensure_eq!(again.cmp(&g), Ordering::Equal, "the name of U+{:04X} compared with itself", c as u32);
                Ok(())
            }
            (g, w) => Err(format!("name of U+{:04X}: got {:?}, expected {:?}", c as u32, g.map(|n| n.to_string()), w)),
        }
    })
    .every_char("aliases", move |c, r| {
        r.case(&c);
        r.nontrivial(al.get(c) != "-");
        // the order of the types is not promised: compare as sets, and each type's aliases as a list
        let norm = |s: &str| {
            let mut parts: Vec<String> = s.split(';').map(String::from).collect();
            if parts[0].starts_with('[') {
                let mut ts: Vec<&str> = s.split(';').next().unwrap().trim_matches(['[', ']'].as_slice()).split(", ").collect();
                ts.sort();
                parts[0] = ts.join(",");
            }
            parts
        };
        ensure_eq!(norm(&get_aliases(c)), norm(al.get(c)), "name aliases of U+{:04X}", c as u32);
        Ok(())
    })
    .exhaustive("neighbours in the order of names", n - 1, |i, r| {
        let n = names();
        let (a, b) = (&n.list[n.sorted[i as usize] as usize], &n.list[n.sorted[i as usize + 1] as usize]);
        r.case(&(a.0, b.0));
        r.nontrivial(true);
        ensure!(a.1 != b.1, "U+{:04X} and U+{:04X} are both named {:?}", a.0 as u32, b.0 as u32, a.1);
        same_order(a, b)
    })
    .random("pairs of names", 4_000_000, 30_000_000, |s, r| {
        let n = names();
        let len = n.list.len();
        let i = s.below(len);
        let j = match s.below(3) {
            0 => s.below(len),
            1 => (i + s.urange(0, 300)).min(len - 1),
            // the other kinds of names
            _ => {
                let u = s.pick(&[0xAC00u32, 0x4E00, 0x3400, 0x20000, 0xF900, 0x17000, 0x1B170, 0x41, 0x9FEA, 0xD7A3, 0x2F800, 0x1100, 0x2F00]);
                let k = n.list.partition_point(|x| (x.0 as u32) < u);
                (k + s.urange(0, 40)).min(len - 1)
            }
        };
        let by_name = s.bool();
        let at = |k: usize| if by_name { &n.list[n.sorted[k] as usize] } else { &n.list[k] };
        let (a, b) = (at(i), at(j));
        r.case(&(a.0, b.0));
        let common = a.1.bytes().zip(b.1.bytes()).take_while(|(x, y)| x == y).count();
        r.nontrivial(a.0 != b.0 && common >= 4);
        same_order(a, b)
    })
    .random("sorting names", 20_000, 400_000, |s, r| {
        let n = names();
        let len = n.list.len();
        let base = s.below(len);
        let cs: Vec<&(char, String)> = s
            .list(10, 30, |s| {
                if s.chance(1, 3) {
                    &n.list[s.below(len)]
                } else {
                    &n.list[n.sorted[(base + s.urange(0, 20)).min(len - 1)] as usize]
                }
            })
            .into_iter()
            .collect();
        r.case(&cs.iter().map(|x| x.0).collect::<Vec<_>>());
        r.nontrivial(cs.len() > 2);
        let mut got: Vec<Name> = cs.iter().map(|x| Name::of(x.0).unwrap()).collect();
        got.sort();
        let mut want: Vec<&str> = cs.iter().map(|x| x.1.as_str()).collect();
        want.sort();
        ensure_eq!(got.iter().map(|n| n.to_string()).collect::<Vec<_>>(), want, "sorted names");
        let set: HashSet<Name> = got.iter().copied().collect();
        want.dedup();
        ensure_eq!(set.len(), want.len(), "distinct names by hash");
        Ok(())
    })
}

// ---------------------------------------------------------------- C22

pub fn c22() -> Check {
    let blocks = {
        let p = prop("Block");
        // every run of the reference data with a name, in order
        let mut v: Vec<(u32, u32, String)> = vec![];
        for &(_, _, id) in &p.ranges {
            let t = &p.values[id as usize];
            if t == "-" {
                continue;
            }
            let (rg, name) = t.split_once(' ').unwrap();
            let (a, b) = rg.split_once("..").unwrap();
            let e = (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap(), name.to_string());
            if v.last() != Some(&e) {
                v.push(e);
            }
        }
        Arc::new(v)
    };
    let ages: Arc<Vec<(Age, UnicodeVersion)>> = {
        let mut m: Vec<(Age, UnicodeVersion)> = vec![];
        for c in (0..SCALARS).map(at) {
            if let Some(a) = Age::of(c) {
                if !m.iter().any(|x| x.1 == a.actual()) {
                    m.push((a, a.actual()));
                }
            }
        }
        Arc::new(m)
    };
    let k = ages.len() as u64;
    let a2 = ages.clone();
    let bl = blocks.clone();
    let ver = |s: &mut Src| -> (u8, u8, u8) {
        let b = |s: &mut Src| if s.bool() { s.urange(0, 3) as u8 } else { s.raw(256) as u8 };
        (b(s), b(s), b(s))
    };
    Check::new(
        "C22",
        "the listed blocks and every character; every triple of ages and random lists of ages (non-trivial: two or more different ones); random triples of versions (non-trivial: they differ in a later component only, or are equal)",
    )
    .exhaustive("the list of blocks", 1, move |_, r| {
        r.case("blocks");
        r.nontrivial(true);
        let got: Vec<Block> = BlockIter::new().collect();
        r.evals(got.len() as u64);
        for w in got.windows(2) {
            ensure!(w[0].range.high < w[1].range.low, "blocks {:?} and {:?} overlap or are not in order", w[0], w[1]);
        }
        let names: HashSet<&str> = got.iter().map(|b| b.name).collect();
        ensure_eq!(names.len(), got.len(), "number of different block names");
        let mine: Vec<(u32, u32, String)> = got.iter().map(|b| (b.range.low as u32, b.range.high as u32, b.name.to_string())).collect();
        // the surrogate blocks hold no characters and cannot be listed
        ensure_eq!(&mine, &*bl, "the listed blocks");
        let d: Vec<(char, char)> = BlockIter::default().map(|b| (b.range.low, b.range.high)).collect();
        ensure_eq!(d, got.iter().map(|b| (b.range.low, b.range.high)).collect::<Vec<_>>(), "BlockIter::default");
        Ok(())
    })
    .exhaustive("the other ways to go through the blocks", 320, |i, r| {
        r.case(&i);
        r.nontrivial(i > 0);
        let all: Vec<Block> = BlockIter::new().collect();
        let start = (i as usize).min(all.len());
        let left = all.len() - start;
        let name = |b: Option<Block>| b.map(|b| b.name);
        let at = |k: usize| all.get(k).map(|b| b.name);
        let it = || {
            let mut it = BlockIter::new();
            (0..start).for_each(|_| drop(it.next()));
            it
        };
        ensure_eq!(it().count(), left, "count after {} blocks", start);
        ensure_eq!(name(it().last()), if left > 0 { all.last().map(|b| b.name) } else { None }, "last after {} blocks", start);
        let (lo, hi) = it().size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "size hint {:?} with {} blocks left", (lo, hi), left);
        for k in 0..=left + 1 {
            r.evals(1);
            let mut x = it();
            ensure_eq!(name(x.nth(k)), at(start + k), "nth({}) after {} blocks", k, start);
            ensure_eq!(name(x.next()), at(start + k + 1), "next after nth({}) after {} blocks", k, start);
        }
        let mut v = vec![];
        it().for_each(|b| v.push(b.name));
        ensure_eq!(v, all[start..].iter().map(|b| b.name).collect::<Vec<_>>(), "for_each after {} blocks", start);
        let mut x = it();
        while x.next().is_some() {}
        ensure!(x.next().is_none() && x.next().is_none(), "a block after the end");
        Ok(())
    })
    .every_char("the block of a character is the listed one that contains it", |c, r| {
        r.case(&c);
        static L: OnceLock<Vec<Block>> = OnceLock::new();
        let l = L.get_or_init(|| BlockIter::new().collect());
        let want = l.iter().find(|b| b.range.low <= c && c <= b.range.high);
        r.nontrivial(want.is_some());
        let got = Block::of(c);
        ensure_eq!(got.map(|b| (b.range, b.name)), want.map(|b| (b.range, b.name)), "block of U+{:04X}", c as u32);
        Ok(())
    })
    .exhaustive("triples of ages", k * k * k, move |i, r| {
        let (a, b, c) = (ages[(i % k) as usize], ages[(i / k % k) as usize], ages[(i / k / k) as usize]);
        r.case(&(a.1, b.1, c.1));
        r.nontrivial(a.1 != b.1 && b.1 != c.1);
        let v = |x: UnicodeVersion| (x.major, x.minor, x.micro);
        let want = v(b.1).cmp(&v(a.1)); // older is greater
        ensure_eq!(a.0.cmp(&b.0), want, "ages {} and {} compared", a.1, b.1);
        ensure_eq!(a.0.partial_cmp(&b.0), Some(want), "ages {} and {} compared partially", a.1, b.1);
        ensure_eq!(a.0 == b.0, want == Ordering::Equal, "ages {} == {}", a.1, b.1);
        ensure_eq!(a.0 < b.0, want == Ordering::Less, "age {} < {}", a.1, b.1);
        ensure_eq!(a.0 > b.0, want == Ordering::Greater, "age {} > {}", a.1, b.1);
        ensure_eq!(a.0 <= b.0, want != Ordering::Greater, "age {} <= {}", a.1, b.1);
        ensure_eq!(a.0 >= b.0, want != Ordering::Less, "age {} >= {}", a.1, b.1);
        let vs = [a, b, c];
        let newest = vs.iter().max_by_key(|x| v(x.1)).unwrap();
        let oldest = vs.iter().min_by_key(|x| v(x.1)).unwrap();
        ensure_eq!(vs.iter().map(|x| x.0).min().unwrap().actual(), newest.1, "least of ages {} {} {}", a.1, b.1, c.1);
        ensure_eq!(vs.iter().map(|x| x.0).max().unwrap().actual(), oldest.1, "greatest of ages {} {} {}", a.1, b.1, c.1);
        ensure_eq!(a.0.max(b.0).actual(), if v(a.1) <= v(b.1) { a.1 } else { b.1 }, "max of ages {} and {}", a.1, b.1);
        Ok(())
    })
    .random("sorting ages", 50_000, 2_000_000, move |s, r| {
        let mut v = s.list(8, 30, |s| s.pick(&a2));
        r.case(&v.iter().map(|x| x.1).collect::<Vec<_>>());
        let before: Vec<UnicodeVersion> = v.iter().map(|x| x.1).collect();
        r.nontrivial(before.iter().collect::<HashSet<_>>().len() > 1);
        v.sort_by_key(|x| x.0);
        let got: Vec<_> = v.iter().map(|x| (x.1.major, x.1.minor, x.1.micro)).collect();
        let mut want: Vec<_> = before.iter().map(|x| (x.major, x.minor, x.micro)).collect();
        want.sort();
        want.reverse();
        ensure_eq!(got, want, "sorted ages");
        Ok(())
    })
    .random("pairs of versions", 3_000_000, 10_000_000, move |s, r| {
        let a = ver(s);
        let mut b = if s.bool() { a } else { ver(s) };
        match s.below(4) {
            0 => b.2 = s.raw(256) as u8,
            1 => b.1 = s.raw(256) as u8,
            2 => b.0 = s.raw(256) as u8,
            _ => {}
        }
        r.case(&(a, b));
        r.nontrivial(a.0 == b.0);
        let (x, y) = (UnicodeVersion::from(a), UnicodeVersion::from(b));
        ensure_eq!((x.major, x.minor, x.micro), a, "UnicodeVersion::from({:?})", a);
        ensure_eq!(x.to_string(), format!("{}.{}.{}", a.0, a.1, a.2), "printed version {:?}", a);
        ensure_eq!(x.cmp(&y), a.cmp(&b), "versions {:?} and {:?} compared", a, b);
        ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "versions {:?} and {:?} compared", a, b);
        ensure_eq!(x == y, a == b, "versions {:?} and {:?} equal", a, b);
        ensure_eq!(hash_of(&x) == hash_of(&y), a == b, "hashes of versions {:?} and {:?} equal", a, b);
        Ok(())
    })
    .exhaustive("data versions of the components", 1, |_, r| {
        r.case("versions");
        r.nontrivial(true);
        let vs = [
            ("unic", unic::UNICODE_VERSION),
            ("unic::ucd", ucd::UNICODE_VERSION),
            ("ucd::version", ucd::version::UNICODE_VERSION),
            ("ucd::age", ucd::age::UNICODE_VERSION),
            ("ucd::bidi", ucd::bidi::UNICODE_VERSION),
            ("ucd::block", ucd::block::UNICODE_VERSION),
            ("ucd::case", ucd::case::UNICODE_VERSION),
            ("ucd::category", ucd::category::UNICODE_VERSION),
            ("ucd::common", ucd::common::UNICODE_VERSION),
            ("ucd::hangul", ucd::hangul::UNICODE_VERSION),
            ("ucd::ident", ucd::ident::UNICODE_VERSION),
            ("ucd::name", ucd::name::UNICODE_VERSION),
            ("ucd::name_aliases", ucd::name_aliases::UNICODE_VERSION),
            ("ucd::normal", ucd::normal::UNICODE_VERSION),
            ("ucd::segment", ucd::segment::UNICODE_VERSION),
            ("bidi", unic::bidi::UNICODE_VERSION),
            ("normal", unic::normal::UNICODE_VERSION),
            ("segment", unic::segment::UNICODE_VERSION),
            ("idna", unic::idna::UNICODE_VERSION),
            ("idna mapping", unic_idna_mapping::UNICODE_VERSION),
        ];
        r.evals(vs.len() as u64 + 1);
        for (n, v) in vs {
            ensure_eq!((v.major, v.minor, v.micro), (10, 0, 0), "data version of {}", n);
        }
        let e = emoji::EMOJI_VERSION;
        ensure_eq!((e.major, e.minor, e.micro), (5, 0, 0), "emoji data version");
        Ok(())
    })
}

// ---------------------------------------------------------------- C23

/// One property, seen through strings.
struct Enumerated {
    prop: &'static str,
    names: [&'static str; 3],
    /// abbreviated, long, human, printed
    values: Vec<[String; 4]>,
    /// number of different values listed (by ==)
    different: usize,
    parse: Box<dyn Fn(&str) -> Option<usize> + Sync + Send>,
    /// value parsed -> name of the variant
    debug: Vec<String>,
}

fn enumerated<T>(prop: &'static str) -> Enumerated
where
    T: EnumeratedCharProperty + FromStr + Display + Copy + PartialEq + Eq + Hash + Debug + Sync + 'static,
{
    let all = T::all_values();
    Enumerated {
        prop,
        names: [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()],
        values: all
            .iter()
            .map(|v| [v.abbr_name().to_string(), v.long_name().to_string(), v.human_name().to_string(), v.to_string()])
            .collect(),
        different: all.iter().collect::<HashSet<_>>().len(),
        parse: Box::new(move |s| s.parse::<T>().ok().map(|v| all.iter().position(|x| *x == v).unwrap_or(usize::MAX))),
        debug: all.iter().map(|v| format!("{:?}", v)).collect(),
    }
}

struct Binary {
    name: &'static str,
    abbr: &'static str,
    prop: [&'static str; 3],
    /// of a character with and without the property: abbreviated, long, human, printed
    values: [[String; 4]; 2],
    default: bool,
    parse: fn(&str) -> Option<bool>,
}
fn binary<T: BinaryCharProperty + TotalCharProperty + FromStr + Display>(name: &'static str, abbr: &'static str) -> Binary {
    let p = prop(name);
    let find = |y: bool| (0..SCALARS).map(at).find(|&c| p.is(c) == y).unwrap();
    let texts = |y: bool| {
        let v = <T as TotalCharProperty>::of(find(y));
        [v.abbr_name().to_string(), v.long_name().to_string(), v.human_name().to_string(), v.to_string()]
    };
    Binary {
        name,
        abbr,
        prop: [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()],
        values: [texts(false), texts(true)],
        default: T::default().as_bool(),
        parse: |s| s.parse::<T>().ok().map(|v| v.as_bool()),
    }
}
macro_rules! binaries {
    ($($t:ty, $f:path, $n:literal, $a:literal;)*) => { fn binaries() -> Vec<Binary> { vec![$(binary::<$t>($n, $a)),*] } };
}
for_binaries!(binaries);

/// property -> its rows: abbreviated name, long name, other aliases
fn value_aliases() -> HashMap<String, Vec<Vec<String>>> {
    let mut m: HashMap<String, Vec<Vec<String>>> = HashMap::new();
    for l in std::fs::read_to_string(crate::refdata::dir() + "PropertyValueAliases.txt").unwrap().lines() {
        let mut f: Vec<String> = l.split('\t').map(String::from).collect();
        let p = f.remove(0);
        m.entry(p).or_default().push(f);
    }
    m
}
fn human_names() -> HashMap<String, String> {
    std::fs::read_to_string(crate::refdata::dir() + "Human_Names.txt")
        .unwrap()
        .lines()
        .map(|l| {
            let (k, v) = l.rsplit_once('\t').unwrap();
            (k.to_string(), v.to_string())
        })
        .collect()
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

fn names_of<T: CharProperty>() -> [&'static str; 3] {
    [T::prop_abbr_name(), T::prop_long_name(), T::prop_human_name()]
}

fn enums() -> Vec<Enumerated> {
    vec![
        enumerated::<GeneralCategory>("gc"),
        enumerated::<BidiClass>("bc"),
        enumerated::<GraphemeClusterBreak>("GCB"),
        enumerated::<WordBreak>("WB"),
        enumerated::<SentenceBreak>("SB"),
        enumerated::<DecompositionType>("dt"),
    ]
}
pub fn dump_human() {
    for e in enums() {
        for v in &e.values {
            println!("{}\t{}\t{}", e.prop, v[1], v[2]);
        }
    }
}

pub const OVERLOOKED: [char; 30] = [
    '\t', '\n', '\r', '\u{b}', '\u{c}', '\0', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{200e}', '\u{2028}', '\u{2060}',
    '\u{feff}', '\u{fe0f}', '\u{3000}', '-', '+', '.', ',', ';', ':', '=', '/', '"', '\'', '(', '#',
];

/// A string close to a given name: exact, another case, or slightly damaged.
fn near(s: &mut Src, name: &str) -> String {
    let mut cs: Vec<char> = name.chars().collect();
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match s.below(4) {
        0 => {}
        1 => cs = name.to_ascii_uppercase().chars().collect(),
        2 => cs = name.to_ascii_lowercase().chars().collect(),
        _ => cs.iter_mut().for_each(|c| {
            if s.bool() {
                *c = flip(*c)
            }
        }),
    }
    if s.bool() {
        let i = s.below(cs.len());
        match s.below(11) {
            9 => {
                // something that a lenient parser might overlook, in front, behind or inside
                let c = s.pick(&OVERLOOKED);
                let k = s.pick(&[0, 0, cs.len(), cs.len(), i]);
                cs.insert(k, c);
            }
            10 => {
                let c = s.any_char();
                let k = s.pick(&[0, cs.len(), i]);
                cs.insert(k, c);
            }
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, ' '),
            2 => cs.push(s.pick(&[' ', '_', '\0', 's', '\u{301}'])),
            3 => cs = cs.iter().filter(|c| **c != '_').copied().collect(),
            4 => cs.iter_mut().for_each(|c| {
                if *c == '_' {
                    *c = s.pick(&[' ', '-'])
                }
            }),
            5 => cs[i] = s.any_char(),
            // letters that fold to ASCII ones only in full Unicode case folding
            6 => cs.iter_mut().for_each(|c| {
                *c = match *c {
                    'k' | 'K' => '\u{212A}',
                    's' | 'S' => '\u{17F}',
                    c => c,
                }
            }),
            7 => cs.swap(0, i),
            _ => {
                let d = cs[i];
                cs.insert(i, d)
            }
        }
    }
    cs.into_iter().collect()
}

pub fn c23() -> Check {
    let es = Arc::new(enums());
    let al = Arc::new(value_aliases());
    let hn = Arc::new(human_names());
    let bs = Arc::new(binaries());
    let (e1, a1) = (es.clone(), al.clone());
    let a2 = al.clone();
    let b3 = bs.clone();
    let (b4, es4, al4) = (bs.clone(), es.clone(), al.clone());
    let (b5, es5, al5, hn5) = (bs.clone(), es.clone(), al.clone(), hn.clone());
    let nb = bs.len() as u64;
    Check::new(
        "C23",
        "every value of the 6 enumerated and 27 binary properties; strings made from their names by changing case and by small damage, and random strings (non-trivial: within one edit of a name)",
    )
    .assume("reference: the property value aliases of Unicode 10.0 (/verif/refdata/PropertyValueAliases.txt); aliases beyond the abbreviated and the long name may be accepted or refused; human-readable names are those committed in /verif/refdata/Human_Names.txt, compared by letters only, as they are the library's own free text")
    .exhaustive("values of the enumerated properties", 6, move |i, r| {
        let e = &e1[i as usize];
        r.case(e.prop);
        r.nontrivial(true);
        let rows = &a1[e.prop];
        r.evals(rows.len() as u64 * 4);
        let prow = a1["="].iter().find(|x| x[0] == e.prop).unwrap();
        ensure_eq!(e.names[0], prow[0], "abbreviated name of the property {}", prow[1]);
        ensure_eq!(e.names[1], prow[1], "long name of the property {}", prow[1]);
        ensure!(!e.names[2].is_empty(), "no human-readable name of {}", prow[1]);
        ensure_eq!(e.different, e.values.len(), "different values listed of {}", e.prop);
        let mut got: Vec<(&str, &str)> = e.values.iter().map(|v| (v[0].as_str(), v[1].as_str())).collect();
        let mut want: Vec<(&str, &str)> = rows.iter().map(|x| (x[0].as_str(), x[1].as_str())).collect();
        got.sort();
        want.sort();
        for (g, w) in got.iter().zip(&want) {
            ensure_eq!(g, w, "abbreviated and long names of {}", e.prop);
        }
        ensure_eq!(got.len(), want.len(), "number of values of {}", e.prop);
        for (v, d) in e.values.iter().zip(&e.debug) {
            ensure_eq!(&v[3], &v[2], "{} printed, compared with its human-readable name", v[1]);
            let h = hn.get(&format!("{}\t{}", e.prop, v[1])).ok_or("no human name")?;
            ensure_eq!(letters(&v[2]), letters(h), "human-readable name of {}={}", e.prop, v[1]);
            // the variant is named like the value
            ensure_eq!(letters(d), letters(&v[1]), "variant of {}={}", e.prop, v[1]);
        }
        let hs: HashSet<&String> = e.values.iter().map(|v| &v[2]).collect();
        ensure_eq!(hs.len(), e.values.len(), "different human-readable names of {}", e.prop);
        Ok(())
    })
    .exhaustive("values of the binary properties", nb, move |i, r| {
        let b = &bs[i as usize];
        r.case(b.name);
        r.nontrivial(true);
        r.evals(8);
        ensure_eq!(b.prop[0], b.abbr, "abbreviated name of the property {}", b.name);
        ensure_eq!(b.prop[1], b.name, "long name of the property {}", b.name);
        ensure_eq!(letters(b.prop[2]), letters(b.name), "human-readable name of the property {}", b.name);
        ensure_eq!(b.default, false, "default value of {}", b.name);
        for (v, n) in b.values.iter().zip([["N", "No"], ["Y", "Yes"]]) {
            ensure_eq!(v[0], n[0], "abbreviated value name of {}", b.name);
            ensure_eq!(v[1], n[1], "long value name of {}", b.name);
            ensure_eq!(v[2], n[1], "human-readable value name of {}", b.name);
            ensure_eq!(v[3], n[1], "printed value of {}", b.name);
        }
        Ok(())
    })
    .exhaustive("names of the other properties", 2, move |i, r| {
        let (abbr, got) = match i {
            0 => ("ccc", names_of::<CanonicalCombiningClass>()),
            _ => ("age", names_of::<Age>()),
        };
        r.case(abbr);
        r.nontrivial(true);
        let row = a2["="].iter().find(|x| x[0] == abbr).unwrap();
        ensure_eq!(got[0], row[0], "abbreviated name of the property {}", row[1]);
        ensure_eq!(got[1], row[1], "long name of the property {}", row[1]);
        ensure_eq!(letters(got[2]), letters(&row[1]), "human-readable name of the property {}", row[1]);
        Ok(())
    })
    .random("parsing enumerated values", 5_000_000, 60_000_000, move |s, r| {
        let e = &es[s.below(es.len())];
        let rows = &al[e.prop];
        let t = if s.chance(1, 12) {
            any_string(s, 12)
        } else {
            let row = if s.chance(1, 8) {
                // a name of another property
                let o = s.pick(&["gc", "bc", "GCB", "WB", "SB", "dt", "="]);
                let o = &al[o];
                &o[s.below(o.len())]
            } else {
                &rows[s.below(rows.len())]
            };
            let n = &row[s.below(row.len())];
            near(s, n)
        };
        r.case(&(e.prop, &t));
        let hits = |col: fn(usize) -> bool| {
            rows.iter().position(|row| row.iter().enumerate().any(|(k, n)| col(k) && n.eq_ignore_ascii_case(&t)))
        };
        let exact = rows.iter().position(|row| row[..2].iter().any(|n| *n == t));
        let want = exact.or_else(|| hits(|k| k < 2));
        let optional = hits(|k| k >= 2);
        r.nontrivial(t.chars().all(|c| !c.is_control()) && t.len() < 40);
        let got = (e.parse)(&t);
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => {
                ensure!(g != usize::MAX, "{} parses {:?} as a value that is not listed", e.prop, t);
                ensure_eq!(letters(&e.debug[g]), letters(&rows[w][1]), "{} parses {:?}", e.prop, t);
                Ok(())
            }
            (Some(g), None) if optional.is_some() && g != usize::MAX => {
                ensure_eq!(letters(&e.debug[g]), letters(&rows[optional.unwrap()][1]), "{} parses {:?}", e.prop, t);
                Ok(())
            }
            (g, w) => Err(format!("{} parses {:?}: got {:?}, expected {:?}", e.prop, t, g, w.map(|w| &rows[w][1]))),
        }
    })
    .exhaustive("names with one character replaced, taken away or doubled, and pairs of names", 6 + nb, move |i, r| {
        const BIN: [&str; 8] = ["Y", "Yes", "T", "True", "N", "No", "F", "False"];
        let (label, parse, rows): (&str, &dyn Fn(&str) -> bool, Vec<Vec<String>>) = if i < 6 {
            let e = &es5[i as usize];
            (e.prop, &|t| (e.parse)(t).is_some(), al5[e.prop].clone())
        } else {
            let b = &b5[i as usize - 6];
            (b.name, &|t| (b.parse)(t).is_some(), vec![BIN.iter().map(|n| n.to_string()).collect()])
        };
        r.case(label);
        r.nontrivial(true);
        let all: HashSet<String> = rows.iter().flatten().map(|n| n.to_ascii_lowercase()).collect();
        let mut n = 0;
        let mut refused = |t: &str| {
            n += 1;
            ensure!(all.contains(&t.to_ascii_lowercase()) || !parse(t), "{} parses {:?}", label, t);
            Ok(())
        };
        refused("")?;
        for name in rows.iter().flatten() {
            for k in 0..name.len() {
                let (a, b) = (&name[..k], &name[k + 1..]);
                for c in ('\0'..='\u{7f}').chain(KNOWN.iter().copied()) {
                    refused(&format!("{a}{c}{b}"))?;
                }
                refused(a)?;
                refused(b)?;
                refused(&format!("{a}{b}"))?;
                refused(&format!("{}{}", &name[..k + 1], &name[k..]))?;
            }
            for other in rows.iter().flatten() {
                for sep in ["", " ", "_", "|", ",", "=", "/"] {
                    refused(&format!("{name}{sep}{other}"))?;
                }
            }
        }
        // the names of properties, and human-readable names, are not names of values
        for h in hn5.values() {
            refused(h)?;
            refused(&h.replace(' ', "_"))?;
            refused(&h.replace(' ', ""))?;
        }
        for row in &al5["="] {
            for x in row {
                refused(x)?;
                for name in rows.iter().flatten() {
                    refused(&format!("{x}={name}"))?;
                }
            }
        }
        r.evals(n);
        Ok(())
    })
    .every_char("names with one more character", move |c, r| {
        // which name of which property: every character meets every property
        r.case(&c);
        r.nontrivial(true);
        let k = c as usize;
        for (i, e) in es4.iter().enumerate() {
            let rows = &al4[e.prop];
            let row = &rows[(k / 7 + i) % rows.len()];
            let n = &row[k % 2];
            for t in [format!("{c}{n}"), format!("{n}{c}"), format!("{}{c}{}", &n[..1], &n[1..])] {
                let known = rows.iter().any(|row| row.iter().any(|n| n.eq_ignore_ascii_case(&t)));
                ensure!(known || (e.parse)(&t).is_none(), "{} parses {:?}", e.prop, t);
            }
        }
        for (i, b) in b4.iter().enumerate() {
            let n = ["Y", "Yes", "T", "True", "N", "No", "F", "False"][(k + i) % 8];
            for t in [format!("{c}{n}"), format!("{n}{c}")] {
                let known = ["YES", "NO"].iter().any(|n| n.eq_ignore_ascii_case(&t));
                ensure!(known || (b.parse)(&t).is_none(), "{} parses {:?}", b.name, t);
            }
        }
        r.evals(3 * es4.len() as u64 + 2 * b4.len() as u64);
        Ok(())
    })
    .random("parsing binary values", 4_000_000, 30_000_000, move |s, r| {
        const NAMES: [(&str, bool); 8] =
            [("Y", true), ("Yes", true), ("T", true), ("True", true), ("N", false), ("No", false), ("F", false), ("False", false)];
        let b = &b3[s.below(b3.len())];
        let t = if s.chance(1, 8) {
            any_string(s, 6)
        } else {
            let n = s.pick(&NAMES).0;
            near(s, n)
        };
        r.case(&(b.name, &t));
        let want = NAMES.iter().find(|x| x.0.eq_ignore_ascii_case(&t)).map(|x| x.1);
        r.nontrivial(!t.is_empty());
        ensure_eq!((b.parse)(&t), want, "{} parses {:?}", b.name, t);
        Ok(())
    })
}
