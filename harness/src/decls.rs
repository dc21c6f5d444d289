//! Written by tools/mkdecls.py: uses of `char_property!`, and what each declares.
#![allow(clippy::all)]
use super::{BinaryDecl, EnumDecl};
use unic_char_property::{char_property, PartialCharProperty};
use unic_char_range::chars;
pub mod e0 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "ı";
            long => "kssSS";
            human => "Name";
            /// documented
            Var0_éς { abbr => Bb, long => Bb, human => "", }
            Var1_X_X { abbr => N1, long => N1, human => "", }
            /// documented
            Var2_bMF { abbr => ςÉσ, long => ςÉσ, human => "Name", }
            Var3_kk { abbr => ı, long => ı, human => "Braces {} and {0}", }
            V4 { abbr => x1, long => x1, human => "", }
            /// documented
            V5 { abbr => Ab, long => Ab, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var6_yaS { abbr => I2C, long => I2C, human => "Braces {} and {0}", }
            Var7_aB { abbr => Nd, long => Nd, human => "", }
            /// documented
            V8 { abbr => Iiı, long => Iiı, human => "Name", }
            Var9_bBaA { abbr => N11, long => N11, human => "", }
            Var10_Ké { abbr => xx1, long => xx1, human => "Ünïcode – name", }
            V11 { abbr => __s, long => __s, human => "", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["ı", "kssSS", "Name"],
        values: &[
            (P::Var0_éς, abbr_names::Bb, long_names::Bb, ["Var0_éς", "Bb", "Bb", ""]),
            (P::Var1_X_X, abbr_names::N1, long_names::N1, ["Var1_X_X", "N1", "N1", ""]),
            (P::Var2_bMF, abbr_names::ςÉσ, long_names::ςÉσ, ["Var2_bMF", "ςÉσ", "ςÉσ", "Name"]),
            (P::Var3_kk, abbr_names::ı, long_names::ı, ["Var3_kk", "ı", "ı", "Braces {} and {0}"]),
            (P::V4, abbr_names::x1, long_names::x1, ["V4", "x1", "x1", ""]),
            (P::V5, abbr_names::Ab, long_names::Ab, ["V5", "Ab", "Ab", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var6_yaS, abbr_names::I2C, long_names::I2C, ["Var6_yaS", "I2C", "I2C", "Braces {} and {0}"]),
            (P::Var7_aB, abbr_names::Nd, long_names::Nd, ["Var7_aB", "Nd", "Nd", ""]),
            (P::V8, abbr_names::Iiı, long_names::Iiı, ["V8", "Iiı", "Iiı", "Name"]),
            (P::Var9_bBaA, abbr_names::N11, long_names::N11, ["Var9_bBaA", "N11", "N11", ""]),
            (P::Var10_Ké, abbr_names::xx1, long_names::xx1, ["Var10_Ké", "xx1", "xx1", "Ünïcode – name"]),
            (P::V11, abbr_names::__s, long_names::__s, ["V11", "__s", "__s", ""]),
        ],
    };
}
pub mod e1 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "M";
            long => "N4YuCyxF0";
            human => "";
            Var0_UnFN { abbr => hWFO_, long => Qe48K1ZWeqhFWCEPyYngF, human => "Ünïcode – name", }
            V1 { abbr => bb, long => kS_SS40yBMWXa, human => "tab\tand\nnewline", }
            V2 { abbr => Kv, long => ißéςIσIıiéiırUZoL7g4ubbbPIa73yRn9BUbHoWC7FJowoRoWD7s6bA05J6PglOU2shVv4U9TG68BG05QmtsL93F17GzL1cEpVZzAQlxJ3SXRVxfCQGgXkH0zxFUbEctT19NLLzPkkGo, human => "Plain name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["M", "N4YuCyxF0", ""],
        values: &[
            (P::Var0_UnFN, abbr_names::hWFO_, long_names::Qe48K1ZWeqhFWCEPyYngF, ["Var0_UnFN", "hWFO_", "Qe48K1ZWeqhFWCEPyYngF", "Ünïcode – name"]),
            (P::V1, abbr_names::bb, long_names::kS_SS40yBMWXa, ["V1", "bb", "kS_SS40yBMWXa", "tab\tand\nnewline"]),
            (P::V2, abbr_names::Kv, long_names::ißéςIσIıiéiırUZoL7g4ubbbPIa73yRn9BUbHoWC7FJowoRoWD7s6bA05J6PglOU2shVv4U9TG68BG05QmtsL93F17GzL1cEpVZzAQlxJ3SXRVxfCQGgXkH0zxFUbEctT19NLLzPkkGo, ["V2", "Kv", "ißéςIσIıiéiırUZoL7g4ubbbPIa73yRn9BUbHoWC7FJowoRoWD7s6bA05J6PglOU2shVv4U9TG68BG05QmtsL93F17GzL1cEpVZzAQlxJ3SXRVxfCQGgXkH0zxFUbEctT19NLLzPkkGo", "Plain name"]),
        ],
    };
}
pub mod e2 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "x_";
            long => "x1_X1_X";
            human => "name";
            Var0__S { abbr => xxxx, long => abaaBa, human => "  spaces on either side  ", }
            /// documented
            V1 { abbr => ByJ6m, long => KıIßéσÉIÉÉKK, human => "\u{feff}\u{a0}\0 odd \r\n", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["x_", "x1_X1_X", "name"],
        values: &[
            (P::Var0__S, abbr_names::xxxx, long_names::abaaBa, ["Var0__S", "xxxx", "abaaBa", "  spaces on either side  "]),
            (P::V1, abbr_names::ByJ6m, long_names::KıIßéσÉIÉÉKK, ["V1", "ByJ6m", "KıIßéσÉIÉÉKK", "\u{feff}\u{a0}\0 odd \r\n"]),
        ],
    };
}
pub mod e3 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "b";
            long => "bBaba";
            human => "Braces {} and {0}";
            V0 { abbr => r, long => s, human => "Braces {} and {0}", }
            Var1_x { abbr => ju, long => Éı, human => " ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["b", "bBaba", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::r, long_names::s, ["V0", "r", "s", "Braces {} and {0}"]),
            (P::Var1_x, abbr_names::ju, long_names::Éı, ["Var1_x", "ju", "Éı", " "]),
        ],
    };
}
pub mod e4 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "AAb";
            long => "uN6pAGLMO";
            human => "name";
            Var0_sSS { abbr => Aab, long => xx_x_1, human => "Name", }
            V1 { abbr => Bb, long => KıσÉßiσiiı, human => "tab\tand\nnewline", }
            /// documented
            V2 { abbr => N1_1, long => s__KKKsSk_, human => "Braces {} and {0}", }
            Var3_Ab { abbr => _1xx, long => N11xX_X1XX_, human => "With \"quotes\"", }
            Var4_X_ { abbr => _Kss, long => K, human => "Plain name", }
            /// documented
            V5 { abbr => Xlkp, long => N1, human => "Ünïcode – name", }
            /// documented
            V6 { abbr => IKIς, long => AAA, human => "", }
            V7 { abbr => up, long => _1, human => "Name", }
            V8 { abbr => ıI, long => N1_x1x_XXX, human => "Plain name", }
            Var9_el { abbr => éßßσ, long => éßéKσ, human => "Name", }
            /// documented
            V10 { abbr => KKKK, long => AAAAABab, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V11 { abbr => s__, long => ÉÉςIéÉIéßKıς, human => "tab\tand\nnewline", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["AAb", "uN6pAGLMO", "name"],
        values: &[
            (P::Var0_sSS, abbr_names::Aab, long_names::xx_x_1, ["Var0_sSS", "Aab", "xx_x_1", "Name"]),
            (P::V1, abbr_names::Bb, long_names::KıσÉßiσiiı, ["V1", "Bb", "KıσÉßiσiiı", "tab\tand\nnewline"]),
            (P::V2, abbr_names::N1_1, long_names::s__KKKsSk_, ["V2", "N1_1", "s__KKKsSk_", "Braces {} and {0}"]),
            (P::Var3_Ab, abbr_names::_1xx, long_names::N11xX_X1XX_, ["Var3_Ab", "_1xx", "N11xX_X1XX_", "With \"quotes\""]),
            (P::Var4_X_, abbr_names::_Kss, long_names::K, ["Var4_X_", "_Kss", "K", "Plain name"]),
            (P::V5, abbr_names::Xlkp, long_names::N1, ["V5", "Xlkp", "N1", "Ünïcode – name"]),
            (P::V6, abbr_names::IKIς, long_names::AAA, ["V6", "IKIς", "AAA", ""]),
            (P::V7, abbr_names::up, long_names::_1, ["V7", "up", "_1", "Name"]),
            (P::V8, abbr_names::ıI, long_names::N1_x1x_XXX, ["V8", "ıI", "N1_x1x_XXX", "Plain name"]),
            (P::Var9_el, abbr_names::éßßσ, long_names::éßéKσ, ["Var9_el", "éßßσ", "éßéKσ", "Name"]),
            (P::V10, abbr_names::KKKK, long_names::AAAAABab, ["V10", "KKKK", "AAAAABab", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V11, abbr_names::s__, long_names::ÉÉςIéÉIéßKıς, ["V11", "s__", "ÉÉςIéÉIéßKıς", "tab\tand\nnewline"]),
        ],
    };
}
pub mod e5 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "s";
            long => "BaA";
            human => "";
            V0 { abbr => _s, long => _s, human => "Ünïcode – name", }
            V1 { abbr => sKs_s, long => sKs_s, human => "With \"quotes\"", }
            Var2_kkkS { abbr => ı, long => ı, human => "", }
            /// documented
            Var3_x { abbr => ssSSK, long => ssSSK, human => "", }
            V4 { abbr => baAaA, long => baAaA, human => "", }
            Var5_bbBb { abbr => xxX, long => xxX, human => "Plain name", }
            /// documented
            Var6_Kss { abbr => Wa4, long => Wa4, human => "Name", }
            Var7_o9 { abbr => K, long => K, human => "Name", }
            /// documented
            Var8_BaA { abbr => aABb, long => aABb, human => "tab\tand\nnewline", }
            /// documented
            V9 { abbr => ςéIÉς, long => ςéIÉς, human => "tab\tand\nnewline", }
            /// documented
            Var10_GE { abbr => ss, long => ss, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V11 { abbr => BBbba, long => BBbba, human => "tab\tand\nnewline", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["s", "BaA", ""],
        values: &[
            (P::V0, abbr_names::_s, long_names::_s, ["V0", "_s", "_s", "Ünïcode – name"]),
            (P::V1, abbr_names::sKs_s, long_names::sKs_s, ["V1", "sKs_s", "sKs_s", "With \"quotes\""]),
            (P::Var2_kkkS, abbr_names::ı, long_names::ı, ["Var2_kkkS", "ı", "ı", ""]),
            (P::Var3_x, abbr_names::ssSSK, long_names::ssSSK, ["Var3_x", "ssSSK", "ssSSK", ""]),
            (P::V4, abbr_names::baAaA, long_names::baAaA, ["V4", "baAaA", "baAaA", ""]),
            (P::Var5_bbBb, abbr_names::xxX, long_names::xxX, ["Var5_bbBb", "xxX", "xxX", "Plain name"]),
            (P::Var6_Kss, abbr_names::Wa4, long_names::Wa4, ["Var6_Kss", "Wa4", "Wa4", "Name"]),
            (P::Var7_o9, abbr_names::K, long_names::K, ["Var7_o9", "K", "K", "Name"]),
            (P::Var8_BaA, abbr_names::aABb, long_names::aABb, ["Var8_BaA", "aABb", "aABb", "tab\tand\nnewline"]),
            (P::V9, abbr_names::ςéIÉς, long_names::ςéIÉς, ["V9", "ςéIÉς", "ςéIÉς", "tab\tand\nnewline"]),
            (P::Var10_GE, abbr_names::ss, long_names::ss, ["Var10_GE", "ss", "ss", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V11, abbr_names::BBbba, long_names::BBbba, ["V11", "BBbba", "BBbba", "tab\tand\nnewline"]),
        ],
    };
}
pub mod e6 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "N1x_1";
            long => "iAlt";
            human => "Braces {} and {0}";
            /// documented
            V0 { abbr => x1, long => X, human => "  spaces on either side  ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["N1x_1", "iAlt", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::x1, long_names::X, ["V0", "x1", "X", "  spaces on either side  "]),
        ],
    };
}
pub mod e7 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "IyU";
            long => "QOxGlE";
            human => "Name";
            Var0_xxX_ { abbr => ÉßK, long => BBa7jzPde_IgxLd5GncfBAepfJBd_Kh7oOOL7dKLzd9ocJ1isAjIhKtJ_RlgLKOmxg, human => " ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["IyU", "QOxGlE", "Name"],
        values: &[
            (P::Var0_xxX_, abbr_names::ÉßK, long_names::BBa7jzPde_IgxLd5GncfBAepfJBd_Kh7oOOL7dKLzd9ocJ1isAjIhKtJ_RlgLKOmxg, ["Var0_xxX_", "ÉßK", "BBa7jzPde_IgxLd5GncfBAepfJBd_Kh7oOOL7dKLzd9ocJ1isAjIhKtJ_RlgLKOmxg", " "]),
        ],
    };
}
pub mod e8 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "N1_x";
            long => "ςÉéıééi";
            human => "Ünïcode – name";
            V0 { abbr => xXx1X, long => YfSdvTehs, human => "Ünïcode – name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["N1_x", "ςÉéıééi", "Ünïcode – name"],
        values: &[
            (P::V0, abbr_names::xXx1X, long_names::YfSdvTehs, ["V0", "xXx1X", "YfSdvTehs", "Ünïcode – name"]),
        ],
    };
}
pub mod e9 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "B";
            long => "H13py_YOdoq0";
            human => "name";
            V0 { abbr => KkK, long => BAA, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var1_éÉII { abbr => N1x1, long => i, human => "Braces {} and {0}", }
            V2 { abbr => _1X, long => éi, human => "Name", }
            V3 { abbr => Ab, long => Aaa, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var4_B { abbr => b, long => bAB, human => "Braces {} and {0}", }
            V5 { abbr => fyt, long => o, human => "", }
            /// documented
            Var6__K { abbr => X__, long => N1, human => "name", }
            /// documented
            V7 { abbr => K, long => CW, human => "", }
            /// documented
            Var8_XU { abbr => ba, long => TH, human => "name", }
            /// documented
            V9 { abbr => ÉÉ, long => t, human => "Plain name", }
            V10 { abbr => ss, long => bA, human => "\u{feff}\u{a0}\0 odd \r\n", }
            V11 { abbr => X1, long => SSK, human => "", }
            V12 { abbr => g, long => aB, human => "Braces {} and {0}", }
            V13 { abbr => x1, long => zC, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V14 { abbr => N4, long => v, human => "Braces {} and {0}", }
            /// documented
            Var15_AAAa { abbr => N1, long => σ, human => "Ünïcode – name", }
            Var16_hod { abbr => N19, long => N1_, human => "tab\tand\nnewline", }
            Var17_AA { abbr => SK, long => _kK, human => "Braces {} and {0}", }
            Var18_Aaa { abbr => K_, long => FaV, human => "With \"quotes\"", }
            Var19_X { abbr => _K, long => é, human => "Ünïcode – name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["B", "H13py_YOdoq0", "name"],
        values: &[
            (P::V0, abbr_names::KkK, long_names::BAA, ["V0", "KkK", "BAA", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var1_éÉII, abbr_names::N1x1, long_names::i, ["Var1_éÉII", "N1x1", "i", "Braces {} and {0}"]),
            (P::V2, abbr_names::_1X, long_names::éi, ["V2", "_1X", "éi", "Name"]),
            (P::V3, abbr_names::Ab, long_names::Aaa, ["V3", "Ab", "Aaa", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var4_B, abbr_names::b, long_names::bAB, ["Var4_B", "b", "bAB", "Braces {} and {0}"]),
            (P::V5, abbr_names::fyt, long_names::o, ["V5", "fyt", "o", ""]),
            (P::Var6__K, abbr_names::X__, long_names::N1, ["Var6__K", "X__", "N1", "name"]),
            (P::V7, abbr_names::K, long_names::CW, ["V7", "K", "CW", ""]),
            (P::Var8_XU, abbr_names::ba, long_names::TH, ["Var8_XU", "ba", "TH", "name"]),
            (P::V9, abbr_names::ÉÉ, long_names::t, ["V9", "ÉÉ", "t", "Plain name"]),
            (P::V10, abbr_names::ss, long_names::bA, ["V10", "ss", "bA", "\u{feff}\u{a0}\0 odd \r\n"]),
            (P::V11, abbr_names::X1, long_names::SSK, ["V11", "X1", "SSK", ""]),
            (P::V12, abbr_names::g, long_names::aB, ["V12", "g", "aB", "Braces {} and {0}"]),
            (P::V13, abbr_names::x1, long_names::zC, ["V13", "x1", "zC", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V14, abbr_names::N4, long_names::v, ["V14", "N4", "v", "Braces {} and {0}"]),
            (P::Var15_AAAa, abbr_names::N1, long_names::σ, ["Var15_AAAa", "N1", "σ", "Ünïcode – name"]),
            (P::Var16_hod, abbr_names::N19, long_names::N1_, ["Var16_hod", "N19", "N1_", "tab\tand\nnewline"]),
            (P::Var17_AA, abbr_names::SK, long_names::_kK, ["Var17_AA", "SK", "_kK", "Braces {} and {0}"]),
            (P::Var18_Aaa, abbr_names::K_, long_names::FaV, ["Var18_Aaa", "K_", "FaV", "With \"quotes\""]),
            (P::Var19_X, abbr_names::_K, long_names::é, ["Var19_X", "_K", "é", "Ünïcode – name"]),
        ],
    };
}
pub mod e10 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "N1";
            long => "ap6ApE88";
            human => "";
            V0 { abbr => A, long => A, human => "Plain name", }
            V1 { abbr => ß, long => ß, human => "Braces {} and {0}", }
            /// documented
            V2 { abbr => IßÉi, long => IßÉi, human => "Ünïcode – name", }
            /// documented
            V3 { abbr => KςK, long => KςK, human => "", }
            V4 { abbr => ku, long => ku, human => "Name", }
            V5 { abbr => sS, long => sS, human => "Plain name", }
            /// documented
            Var6_ccV { abbr => ABaa, long => ABaa, human => "Braces {} and {0}", }
            Var7_I { abbr => j4534, long => j4534, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V8 { abbr => Dgz, long => Dgz, human => "Plain name", }
            Var9_ÉÉé { abbr => ςißı, long => ςißı, human => "name", }
            /// documented
            V10 { abbr => Xx1, long => Xx1, human => "  spaces on either side  ", }
            Var11_b { abbr => BaB, long => BaB, human => "name", }
            /// documented
            V12 { abbr => éKIς, long => éKIς, human => "tab\tand\nnewline", }
            Var13_Éß { abbr => ksk, long => ksk, human => "Name", }
            Var14_K_kS { abbr => xx_, long => xx_, human => "", }
            Var15_a { abbr => wyZl, long => wyZl, human => "", }
            V16 { abbr => ABAb, long => ABAb, human => "tab\tand\nnewline", }
            Var17_ı { abbr => xX1X1, long => xX1X1, human => "Plain name", }
            V18 { abbr => b, long => b, human => "Name", }
            /// documented
            V19 { abbr => bbAa, long => bbAa, human => "Plain name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["N1", "ap6ApE88", ""],
        values: &[
            (P::V0, abbr_names::A, long_names::A, ["V0", "A", "A", "Plain name"]),
            (P::V1, abbr_names::ß, long_names::ß, ["V1", "ß", "ß", "Braces {} and {0}"]),
            (P::V2, abbr_names::IßÉi, long_names::IßÉi, ["V2", "IßÉi", "IßÉi", "Ünïcode – name"]),
            (P::V3, abbr_names::KςK, long_names::KςK, ["V3", "KςK", "KςK", ""]),
            (P::V4, abbr_names::ku, long_names::ku, ["V4", "ku", "ku", "Name"]),
            (P::V5, abbr_names::sS, long_names::sS, ["V5", "sS", "sS", "Plain name"]),
            (P::Var6_ccV, abbr_names::ABaa, long_names::ABaa, ["Var6_ccV", "ABaa", "ABaa", "Braces {} and {0}"]),
            (P::Var7_I, abbr_names::j4534, long_names::j4534, ["Var7_I", "j4534", "j4534", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V8, abbr_names::Dgz, long_names::Dgz, ["V8", "Dgz", "Dgz", "Plain name"]),
            (P::Var9_ÉÉé, abbr_names::ςißı, long_names::ςißı, ["Var9_ÉÉé", "ςißı", "ςißı", "name"]),
            (P::V10, abbr_names::Xx1, long_names::Xx1, ["V10", "Xx1", "Xx1", "  spaces on either side  "]),
            (P::Var11_b, abbr_names::BaB, long_names::BaB, ["Var11_b", "BaB", "BaB", "name"]),
            (P::V12, abbr_names::éKIς, long_names::éKIς, ["V12", "éKIς", "éKIς", "tab\tand\nnewline"]),
            (P::Var13_Éß, abbr_names::ksk, long_names::ksk, ["Var13_Éß", "ksk", "ksk", "Name"]),
            (P::Var14_K_kS, abbr_names::xx_, long_names::xx_, ["Var14_K_kS", "xx_", "xx_", ""]),
            (P::Var15_a, abbr_names::wyZl, long_names::wyZl, ["Var15_a", "wyZl", "wyZl", ""]),
            (P::V16, abbr_names::ABAb, long_names::ABAb, ["V16", "ABAb", "ABAb", "tab\tand\nnewline"]),
            (P::Var17_ı, abbr_names::xX1X1, long_names::xX1X1, ["Var17_ı", "xX1X1", "xX1X1", "Plain name"]),
            (P::V18, abbr_names::b, long_names::b, ["V18", "b", "b", "Name"]),
            (P::V19, abbr_names::bbAa, long_names::bbAa, ["V19", "bbAa", "bbAa", "Plain name"]),
        ],
    };
}
pub mod e11 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "QB_";
            long => "aaABABbbbBAa";
            human => "Name";
            Var0_N34eK { abbr => X, long => x_xxxXXxxx_x, human => "Plain name", }
            Var1_AA { abbr => _kk, long => Bba, human => "", }
            /// documented
            V2 { abbr => aaABB, long => sSSss_KSS, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V3 { abbr => N1XX1, long => v_QC, human => "tab\tand\nnewline", }
            V4 { abbr => N1X, long => iéKIσiéßI, human => "With \"quotes\"", }
            /// documented
            V5 { abbr => A, long => X__Xx1, human => "Plain name", }
            V6 { abbr => wT4, long => IσÉςi, human => "Ünïcode – name", }
            /// documented
            V7 { abbr => FYJLu, long => N1, human => "tab\tand\nnewline", }
            Var8_zeI { abbr => Cn, long => ÉIKiıı, human => "Ünïcode – name", }
            /// documented
            V9 { abbr => x_X, long => kkkSSk, human => "name", }
            /// documented
            V10 { abbr => KSSS, long => ABbA, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var11_aab { abbr => N7e, long => xX_____x, human => " ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["QB_", "aaABABbbbBAa", "Name"],
        values: &[
            (P::Var0_N34eK, abbr_names::X, long_names::x_xxxXXxxx_x, ["Var0_N34eK", "X", "x_xxxXXxxx_x", "Plain name"]),
            (P::Var1_AA, abbr_names::_kk, long_names::Bba, ["Var1_AA", "_kk", "Bba", ""]),
            (P::V2, abbr_names::aaABB, long_names::sSSss_KSS, ["V2", "aaABB", "sSSss_KSS", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V3, abbr_names::N1XX1, long_names::v_QC, ["V3", "N1XX1", "v_QC", "tab\tand\nnewline"]),
            (P::V4, abbr_names::N1X, long_names::iéKIσiéßI, ["V4", "N1X", "iéKIσiéßI", "With \"quotes\""]),
            (P::V5, abbr_names::A, long_names::X__Xx1, ["V5", "A", "X__Xx1", "Plain name"]),
            (P::V6, abbr_names::wT4, long_names::IσÉςi, ["V6", "wT4", "IσÉςi", "Ünïcode – name"]),
            (P::V7, abbr_names::FYJLu, long_names::N1, ["V7", "FYJLu", "N1", "tab\tand\nnewline"]),
            (P::Var8_zeI, abbr_names::Cn, long_names::ÉIKiıı, ["Var8_zeI", "Cn", "ÉIKiıı", "Ünïcode – name"]),
            (P::V9, abbr_names::x_X, long_names::kkkSSk, ["V9", "x_X", "kkkSSk", "name"]),
            (P::V10, abbr_names::KSSS, long_names::ABbA, ["V10", "KSSS", "ABbA", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var11_aab, abbr_names::N7e, long_names::xX_____x, ["Var11_aab", "N7e", "xX_____x", " "]),
        ],
    };
}
pub mod e12 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "_X";
            long => "SsKKkkSksS_";
            human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
            V0 { abbr => ty, long => ıéı, human => "", }
            Var1_ß { abbr => S, long => x, human => "Name", }
            V2 { abbr => N393, long => D, human => "tab\tand\nnewline", }
            /// documented
            V3 { abbr => kkk, long => Qj, human => "Ünïcode – name", }
            V4 { abbr => N8V, long => N1, human => "tab\tand\nnewline", }
            Var5_sS { abbr => ςIK, long => σßß, human => "", }
            V6 { abbr => a, long => ba, human => "", }
            /// documented
            V7 { abbr => KK, long => σ, human => "tab\tand\nnewline", }
            /// documented
            Var8_AB { abbr => N8, long => PC, human => "tab\tand\nnewline", }
            Var9_ς { abbr => BA, long => N1Xx, human => "Plain name", }
            V10 { abbr => b, long => b, human => "", }
            V11 { abbr => σ, long => k, human => "", }
            /// documented
            V12 { abbr => XX, long => _x, human => "Name", }
            /// documented
            V13 { abbr => fL, long => aB, human => "Name", }
            Var14_Aa { abbr => K, long => x1, human => "tab\tand\nnewline", }
            Var15_V { abbr => KS, long => _X, human => "", }
            /// documented
            Var16_ςςßé { abbr => ß, long => ié, human => "Ünïcode – name", }
            /// documented
            Var17_a { abbr => k__, long => y, human => "Braces {} and {0}", }
            V18 { abbr => N1, long => B, human => "Ünïcode – name", }
            /// documented
            Var19_skSk { abbr => U, long => ng, human => "Plain name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["_X", "SsKKkkSksS_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"],
        values: &[
            (P::V0, abbr_names::ty, long_names::ıéı, ["V0", "ty", "ıéı", ""]),
            (P::Var1_ß, abbr_names::S, long_names::x, ["Var1_ß", "S", "x", "Name"]),
            (P::V2, abbr_names::N393, long_names::D, ["V2", "N393", "D", "tab\tand\nnewline"]),
            (P::V3, abbr_names::kkk, long_names::Qj, ["V3", "kkk", "Qj", "Ünïcode – name"]),
            (P::V4, abbr_names::N8V, long_names::N1, ["V4", "N8V", "N1", "tab\tand\nnewline"]),
            (P::Var5_sS, abbr_names::ςIK, long_names::σßß, ["Var5_sS", "ςIK", "σßß", ""]),
            (P::V6, abbr_names::a, long_names::ba, ["V6", "a", "ba", ""]),
            (P::V7, abbr_names::KK, long_names::σ, ["V7", "KK", "σ", "tab\tand\nnewline"]),
            (P::Var8_AB, abbr_names::N8, long_names::PC, ["Var8_AB", "N8", "PC", "tab\tand\nnewline"]),
            (P::Var9_ς, abbr_names::BA, long_names::N1Xx, ["Var9_ς", "BA", "N1Xx", "Plain name"]),
            (P::V10, abbr_names::b, long_names::b, ["V10", "b", "b", ""]),
            (P::V11, abbr_names::σ, long_names::k, ["V11", "σ", "k", ""]),
            (P::V12, abbr_names::XX, long_names::_x, ["V12", "XX", "_x", "Name"]),
            (P::V13, abbr_names::fL, long_names::aB, ["V13", "fL", "aB", "Name"]),
            (P::Var14_Aa, abbr_names::K, long_names::x1, ["Var14_Aa", "K", "x1", "tab\tand\nnewline"]),
            (P::Var15_V, abbr_names::KS, long_names::_X, ["Var15_V", "KS", "_X", ""]),
            (P::Var16_ςςßé, abbr_names::ß, long_names::ié, ["Var16_ςςßé", "ß", "ié", "Ünïcode – name"]),
            (P::Var17_a, abbr_names::k__, long_names::y, ["Var17_a", "k__", "y", "Braces {} and {0}"]),
            (P::V18, abbr_names::N1, long_names::B, ["V18", "N1", "B", "Ünïcode – name"]),
            (P::Var19_skSk, abbr_names::U, long_names::ng, ["Var19_skSk", "U", "ng", "Plain name"]),
        ],
    };
}
pub mod e13 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "kU";
            long => "KIσißσI";
            human => "Plain name";
            Var0_oSjq { abbr => iiKÉ, long => SsSKsssR5RZ13lPoQj2oPUlieI1nVsbBi0RMar, human => "", }
            Var1_K { abbr => BQG, long => FwLwYrezCf2YZ3Zq_CVB7iY3qw, human => "Name", }
            /// documented
            Var2_B { abbr => B, long => X_xXX_X1F4WJK9BQx3BOuPhw_MZOqSCJNViCRUC, human => "", }
            /// documented
            V3 { abbr => sKSS, long => bBaAAaAblsmlHwqxDqMrz3iKFJpKp3mSxieBPO8DyaUB62cojFZS0COqkUAV2q3WZwmT1OxHTQi49TMpUFn2NcLSLcwLUKvlsmkYRJh4okeBPMJZISc9C_vPfHaithAt5rKMSe7EHx10cauvjFJ9IH_EoQnsZcyGT5kVjqBR_1nqBLpwXpLsBnPwBcuzDfeWcM5aPXtmCEJyvdsHB7ij2dhx_knttMyscwigxFCL3LBcwIsi8Zduk43IVi4a4p52RjfE6xewq, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["kU", "KIσißσI", "Plain name"],
        values: &[
            (P::Var0_oSjq, abbr_names::iiKÉ, long_names::SsSKsssR5RZ13lPoQj2oPUlieI1nVsbBi0RMar, ["Var0_oSjq", "iiKÉ", "SsSKsssR5RZ13lPoQj2oPUlieI1nVsbBi0RMar", ""]),
            (P::Var1_K, abbr_names::BQG, long_names::FwLwYrezCf2YZ3Zq_CVB7iY3qw, ["Var1_K", "BQG", "FwLwYrezCf2YZ3Zq_CVB7iY3qw", "Name"]),
            (P::Var2_B, abbr_names::B, long_names::X_xXX_X1F4WJK9BQx3BOuPhw_MZOqSCJNViCRUC, ["Var2_B", "B", "X_xXX_X1F4WJK9BQx3BOuPhw_MZOqSCJNViCRUC", ""]),
            (P::V3, abbr_names::sKSS, long_names::bBaAAaAblsmlHwqxDqMrz3iKFJpKp3mSxieBPO8DyaUB62cojFZS0COqkUAV2q3WZwmT1OxHTQi49TMpUFn2NcLSLcwLUKvlsmkYRJh4okeBPMJZISc9C_vPfHaithAt5rKMSe7EHx10cauvjFJ9IH_EoQnsZcyGT5kVjqBR_1nqBLpwXpLsBnPwBcuzDfeWcM5aPXtmCEJyvdsHB7ij2dhx_knttMyscwigxFCL3LBcwIsi8Zduk43IVi4a4p52RjfE6xewq, ["V3", "sKSS", "bBaAAaAblsmlHwqxDqMrz3iKFJpKp3mSxieBPO8DyaUB62cojFZS0COqkUAV2q3WZwmT1OxHTQi49TMpUFn2NcLSLcwLUKvlsmkYRJh4okeBPMJZISc9C_vPfHaithAt5rKMSe7EHx10cauvjFJ9IH_EoQnsZcyGT5kVjqBR_1nqBLpwXpLsBnPwBcuzDfeWcM5aPXtmCEJyvdsHB7ij2dhx_knttMyscwigxFCL3LBcwIsi8Zduk43IVi4a4p52RjfE6xewq", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
        ],
    };
}
pub mod e14 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "ÉσıK";
            long => "AaBAbab";
            human => "";
            Var0_bAA { abbr => TxFgO, long => X1XXx1__x, human => "  spaces on either side  ", }
            V1 { abbr => _sK, long => a, human => "Braces {} and {0}", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["ÉσıK", "AaBAbab", ""],
        values: &[
            (P::Var0_bAA, abbr_names::TxFgO, long_names::X1XXx1__x, ["Var0_bAA", "TxFgO", "X1XXx1__x", "  spaces on either side  "]),
            (P::V1, abbr_names::_sK, long_names::a, ["V1", "_sK", "a", "Braces {} and {0}"]),
        ],
    };
}
pub mod e15 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "A";
            long => "xx_1Xx__";
            human => "Braces {} and {0}";
            /// documented
            V0 { abbr => N1_, long => N1_, human => " ", }
            V1 { abbr => ςσ, long => ςσ, human => "With \"quotes\"", }
            V2 { abbr => cr, long => cr, human => "With \"quotes\"", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["A", "xx_1Xx__", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::N1_, long_names::N1_, ["V0", "N1_", "N1_", " "]),
            (P::V1, abbr_names::ςσ, long_names::ςσ, ["V1", "ςσ", "ςσ", "With \"quotes\""]),
            (P::V2, abbr_names::cr, long_names::cr, ["V2", "cr", "cr", "With \"quotes\""]),
        ],
    };
}
pub mod e16 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "a";
            long => "_xx__Xx_XX_x";
            human => "Braces {} and {0}";
            V0 { abbr => ı, long => N5Rw9Dy9Y, human => "Plain name", }
            /// documented
            Var1_x { abbr => Xx1_, long => x_X1X1__1X1x, human => "tab\tand\nnewline", }
            Var2_eY { abbr => é, long => Lf, human => "Plain name", }
            /// documented
            V3 { abbr => N4B737, long => vm, human => "Name", }
            /// documented
            V4 { abbr => ßiÉII, long => IßÉςéσßıK, human => "Braces {} and {0}", }
            V5 { abbr => s, long => WuqsZ3XcZYy, human => "Name", }
            V6 { abbr => X, long => x1x1, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V7 { abbr => Baab, long => sskSs_, human => "Ünïcode – name", }
            /// documented
            V8 { abbr => bBBAb, long => xXxX1, human => "Name", }
            V9 { abbr => kKkK, long => x_, human => "Plain name", }
            /// documented
            Var10_X { abbr => KkS_, long => __x1x, human => "\u{feff}\u{a0}\0 odd \r\n", }
            V11 { abbr => BbBb, long => n, human => "name", }
            /// documented
            V12 { abbr => éÉß, long => skkSK, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var13_b { abbr => Ks__s, long => KÉÉi, human => "Braces {} and {0}", }
            V14 { abbr => N1_x, long => _Xx_XXx_11, human => "tab\tand\nnewline", }
            V15 { abbr => B, long => AA, human => "", }
            /// documented
            Var16_YcEF { abbr => N1x1, long => XxxX1xx, human => "", }
            /// documented
            V17 { abbr => KKs_s, long => é, human => "Braces {} and {0}", }
            Var18_cz { abbr => ynk, long => Bor_NAb, human => "name", }
            Var19_σéÉ { abbr => _Xx, long => _S, human => "", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["a", "_xx__Xx_XX_x", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::ı, long_names::N5Rw9Dy9Y, ["V0", "ı", "N5Rw9Dy9Y", "Plain name"]),
            (P::Var1_x, abbr_names::Xx1_, long_names::x_X1X1__1X1x, ["Var1_x", "Xx1_", "x_X1X1__1X1x", "tab\tand\nnewline"]),
            (P::Var2_eY, abbr_names::é, long_names::Lf, ["Var2_eY", "é", "Lf", "Plain name"]),
            (P::V3, abbr_names::N4B737, long_names::vm, ["V3", "N4B737", "vm", "Name"]),
            (P::V4, abbr_names::ßiÉII, long_names::IßÉςéσßıK, ["V4", "ßiÉII", "IßÉςéσßıK", "Braces {} and {0}"]),
            (P::V5, abbr_names::s, long_names::WuqsZ3XcZYy, ["V5", "s", "WuqsZ3XcZYy", "Name"]),
            (P::V6, abbr_names::X, long_names::x1x1, ["V6", "X", "x1x1", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V7, abbr_names::Baab, long_names::sskSs_, ["V7", "Baab", "sskSs_", "Ünïcode – name"]),
            (P::V8, abbr_names::bBBAb, long_names::xXxX1, ["V8", "bBBAb", "xXxX1", "Name"]),
            (P::V9, abbr_names::kKkK, long_names::x_, ["V9", "kKkK", "x_", "Plain name"]),
            (P::Var10_X, abbr_names::KkS_, long_names::__x1x, ["Var10_X", "KkS_", "__x1x", "\u{feff}\u{a0}\0 odd \r\n"]),
            (P::V11, abbr_names::BbBb, long_names::n, ["V11", "BbBb", "n", "name"]),
            (P::V12, abbr_names::éÉß, long_names::skkSK, ["V12", "éÉß", "skkSK", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var13_b, abbr_names::Ks__s, long_names::KÉÉi, ["Var13_b", "Ks__s", "KÉÉi", "Braces {} and {0}"]),
            (P::V14, abbr_names::N1_x, long_names::_Xx_XXx_11, ["V14", "N1_x", "_Xx_XXx_11", "tab\tand\nnewline"]),
            (P::V15, abbr_names::B, long_names::AA, ["V15", "B", "AA", ""]),
            (P::Var16_YcEF, abbr_names::N1x1, long_names::XxxX1xx, ["Var16_YcEF", "N1x1", "XxxX1xx", ""]),
            (P::V17, abbr_names::KKs_s, long_names::é, ["V17", "KKs_s", "é", "Braces {} and {0}"]),
            (P::Var18_cz, abbr_names::ynk, long_names::Bor_NAb, ["Var18_cz", "ynk", "Bor_NAb", "name"]),
            (P::Var19_σéÉ, abbr_names::_Xx, long_names::_S, ["Var19_σéÉ", "_Xx", "_S", ""]),
        ],
    };
}
pub mod e17 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "ZP";
            long => "ßßςσςßiéßé";
            human => "Name";
            V0 { abbr => bAaA, long => i, human => "Braces {} and {0}", }
            V1 { abbr => XXx1X, long => baBbbBaBA, human => "Name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["ZP", "ßßςσςßiéßé", "Name"],
        values: &[
            (P::V0, abbr_names::bAaA, long_names::i, ["V0", "bAaA", "i", "Braces {} and {0}"]),
            (P::V1, abbr_names::XXx1X, long_names::baBbbBaBA, ["V1", "XXx1X", "baBbbBaBA", "Name"]),
        ],
    };
}
pub mod e18 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "C";
            long => "kKKs_";
            human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
            V0 { abbr => ıI, long => bba, human => "  spaces on either side  ", }
            V1 { abbr => x, long => N2cy, human => "Ünïcode – name", }
            Var2_x { abbr => goJ, long => N11, human => "name", }
            Var3_G { abbr => BA, long => SkS, human => "Braces {} and {0}", }
            /// documented
            Var4_Bb { abbr => _x, long => N1xx, human => "With \"quotes\"", }
            Var5_N1AS0 { abbr => s_, long => mj, human => "Name", }
            Var6_Kss { abbr => KKs, long => ßς, human => "tab\tand\nnewline", }
            /// documented
            Var7_ςıÉσ { abbr => ı, long => S, human => "Braces {} and {0}", }
            /// documented
            Var8_Ss_k { abbr => BBB, long => BAb, human => "", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["C", "kKKs_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"],
        values: &[
            (P::V0, abbr_names::ıI, long_names::bba, ["V0", "ıI", "bba", "  spaces on either side  "]),
            (P::V1, abbr_names::x, long_names::N2cy, ["V1", "x", "N2cy", "Ünïcode – name"]),
            (P::Var2_x, abbr_names::goJ, long_names::N11, ["Var2_x", "goJ", "N11", "name"]),
            (P::Var3_G, abbr_names::BA, long_names::SkS, ["Var3_G", "BA", "SkS", "Braces {} and {0}"]),
            (P::Var4_Bb, abbr_names::_x, long_names::N1xx, ["Var4_Bb", "_x", "N1xx", "With \"quotes\""]),
            (P::Var5_N1AS0, abbr_names::s_, long_names::mj, ["Var5_N1AS0", "s_", "mj", "Name"]),
            (P::Var6_Kss, abbr_names::KKs, long_names::ßς, ["Var6_Kss", "KKs", "ßς", "tab\tand\nnewline"]),
            (P::Var7_ςıÉσ, abbr_names::ı, long_names::S, ["Var7_ςıÉσ", "ı", "S", "Braces {} and {0}"]),
            (P::Var8_Ss_k, abbr_names::BBB, long_names::BAb, ["Var8_Ss_k", "BBB", "BAb", ""]),
        ],
    };
}
pub mod e19 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "É";
            long => "ue";
            human => "With \"quotes\"";
            Var0_KS { abbr => bABb, long => XXXX_X_X_xY4HhGmzwHsLj, human => "Name", }
            Var1_AbbA { abbr => eo, long => ßςKςÉIéiσégqAu8r0gXu4tbKNm3e5mhIDy2UeZgAbg, human => "name", }
            Var2_ıσ { abbr => σ, long => __1111_1UBW1zCQtK5G0kYO8AoXIKUgZnymiiOFgJTDa8D4EMhHE_GFxB4I2l3apfbDyChRTPq6iEsCzsVkDCttRWcentR8WAgDeDGCQ8blBPrefikBs3D0hmNE3RZeBP7Oja3yNPs7O6cKILw8qnqGudbXrP1nemsHDWGiuZGZqJ3TUV8tPVRHsPGKB_E6d21ojcD16hGL2gqTDSyRuvxlC20v9UgOQQHCANc2xfuBxDLUxcsqrf9ozc9kkEQTJgTMGf2cLBcTRiNupIUI0crmjpshL1CieSCtJzLowVYgRpqiwD6Jo, human => "Name", }
            V3 { abbr => b, long => aaBBAC3tdL1YCh9mNeFiyHrFw78CdHBbKoQtJpgYzAOiSIojDlTMEfrWzCLeKR8aVp017frpFkVHzq8DBZbiglBZbrNYF6MvptlXeI6tbhedQX7fIDe8cf_ySFtx9vr7jh8Mdcx6lhOvFwqTODgI9OYKncMkrWKyubnIFZebUYFoQM4llkOykTIeY6mqgkPFH4GAnIeMHBwMmuHjOQL7m5a08cSq1t0SBDlS8S4IeSOzG6b2KNPRCLqH34QKr4XC5_yWKu, human => "", }
            Var4_O { abbr => Sk, long => N1xxXxx____X1Ei11I8I6zjdSWzMn, human => "Name", }
            V5 { abbr => AbAB, long => sSsK4YgVf1wQjEzxOgGL59Ecj9J1b6QEkvF, human => "Ünïcode – name", }
            Var6__1_X { abbr => N1XX1x, long => RYoMj6riYs0vtHFys9N6z7yQbYoJVmxkmaXiQNcVsewHUv7EOxIzADEYWeeW8LwYxjmsj5x88rHyFvluw7LGcBD4rOG7YPfC6fuFcHiNL1nxiJN_z7C__q7__R8ulJ2YSZIp, human => "Braces {} and {0}", }
            Var7_sKsS { abbr => Aa, long => Xx_1_x1_X_Qbk7WVYDLn83u3rW9WNtaxBiu8_H93i3Rl1JhCVcrwqLtT3rqQiJexNGxZaYRAtYsClEDovFsdH1pxhxC1eRpDD2VMj2gq4YV7BzRWU9BLkWhhvhn_vXHjYYRjN1y6_IFtvWp2RjDEFPWaIZhN0_Pi1AOX49AH7cHR5f9GfJn6uJIvT9LZw7l5B5pmQlzIClYNECeCEDSLNoV7CgPbFpP3UHjQ4xxwaCtlEM0u17DXTm56thY6oCF0HJBwwuKi, human => "With \"quotes\"", }
            Var8_KKK { abbr => N1Xx, long => xx11xxXVhNEoEx0bkKm9fYzzAawlfQ62dxRZoLF4zxG1gtnvf1T2b4RCrxgg0uVtifq7Vmt9VhJhJFsJH43UfJEaFbaMshmZQXRMOtA9ZS_FSgdVm7_anIMj5YtsC7xQJswrn47eyD70BTjfnMAOmCEhNxaAyLUjLtlh4ujGsYDiWi3imz64FvE_5qtRx6oQGSo61OXzToPovlu0PxxzLAm2L61gP2sitXu4vk_og4M_npIBTSBLnXLTucKcUPu2I4K_Gxt, human => "", }
            /// documented
            Var9_é { abbr => Éı, long => XXXx_x_nF17kViwaS6Dp_SYvXOiLQsUyU4wRMi30, human => "", }
            /// documented
            Var10_ß { abbr => ZAz, long => σÉKσßßiéIééArarI10ZMUrHKhf4fmdIIDIvzOOlnwilrANOQgvGepU8ebE04ENRnF64lClCGkPLy, human => "Braces {} and {0}", }
            /// documented
            V11 { abbr => ıéßiı, long => BAaBbbaBbBBwInZBCol4XPnitCarHSiErfQjsTB0GwFZHoIzJL0m4ZoGHRZH64zlp7S76llnsWRXi9rjwRtfHvDClkUVGqXnf157BnSmIp8R8XHMzPaafFlsYztciqRBg2jVA87BvPHxIhaEsUjrpwtCA5CgD6kOkQbI0oHqnAgaC211PDCyeer0LkTDe4C41evtCUYVpvkLXDn3m4b6qT2PiTxjoO0FYCWsKt4BK3nkCNIyZJuT8HAhKv_N08LvCz2DiiFaNZAf, human => "Braces {} and {0}", }
            /// documented
            V12 { abbr => kKksS, long => ıςßiIßσiÉißKVc0G1raxGJbshbrvDEx0itCDRNvQSpuvYiS6EhvGsSo7bxG7UbB3Fd77saAD3xW3kizMJpquYMZicJLTaEF8aDOMfWdvTQdw5cyKQoNAhTmJ1UP_lsrTlUZ4M_niozgqD3pkAOHpSZH7EErDTjk2oqtIkkP_B3X6W7uTijGmyX_TuHysz2XvQJ95oC7QIxzWK2AbQBh9N4Heh7jx58Pi48IeDuWTgaEJGHDUkATHdE8n9SrwXQxKqWNXLsd0AYPP, human => "Braces {} and {0}", }
            Var13_RXY { abbr => AA, long => Xs4fG9sRsgA6WODoKtA_qUtSM, human => "Braces {} and {0}", }
            V14 { abbr => BbAbB, long => oMuANyldP8hIanL9Vi3ufChEnViNdUwLrUiiPJwBhhh7GDZru2p7W9vZzTH3AqAKKZ7j9zseSPHFlEV54hWY3ZB24_MLbzBFPnGeNwZVKZGH9kvcGDPqkjo7gKPOLXE8b7EZ, human => "Ünïcode – name", }
            /// documented
            Var15_σσσi { abbr => ß, long => rn7OaNs1lUm8YbtZMFX07RW6sO1mopGtKO8VOBHBP8BiWca_S1XTKPJ85q2UCiPpKTVlhU1ATpkBafBWBRO2iYOLOiyJ_pL07HWS6PJScN5q4nctrNLGVnnAXTCQYBi8ns9FUUEBOxp8_BINKkfd8iaK16L_2ZJuBXTBxqWbDUjtBMWKpm6bdjXEQtbh6sKLpug9sKR8S_eoLyq6cXXRotbxLrscmEUBfYKa_b2rlWZAXQz3Eu8ZiJbV5rC_bvq0LK55lqW, human => "Braces {} and {0}", }
            V16 { abbr => éσééς, long => AbBAaBbab5CtaTvXkIQJ2L8LcLRgykx9QGj7ALAT, human => "Name", }
            /// documented
            Var17__x1x { abbr => N11xX, long => IıiIßéKıiéA52CE4WtEGTPSzQCEAdTCXDQ, human => "Name", }
            /// documented
            V18 { abbr => N1, long => aapa4ZZVqKeTz089JcT0Nl7kcxnqYwB2drS, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V19 { abbr => N3TIP, long => KıiiéiııZtCsxyWzc2jHzXmbb3KfmujOKSOcOXOq48PCZQeg3Cdve8GuVBbyduvD51CfVfDBZ, human => " ", }
            Var20_K__s { abbr => zLT, long => oA4ILcFk3i0TZZgs39V1FfZDjF, human => "tab\tand\nnewline", }
            /// documented
            Var21_Xxx_ { abbr => Ißσ, long => σ0MFFyemo_7Lr4jPN1LW5nFfikZF68Pktjkd2FEIhZ9PSt147fJ2wRW9pqQjXf2tzjD_I_UQh8Rnk3WF2S0mCD58qcmhsiEzDSIa02mGLTPDUDhw2aK8dG5VUL6TYjgI, human => "Plain name", }
            Var22_K { abbr => O, long => ÉßßÉÉßKiIhVImHfADlJhSkogbeZfHfc336iKs5AS57Zm99i8WiqV4QBw66pJcoIHQlkfinSiEf6yxK6ptKzF07kO7DcLMGj2JkVSxAtN_VUWcUmfzUNXVF2Mk9RYINLGcDAq0JA6_Ok_kDZ5NNjepQ3gmkWk67QBgrb4UGtrof_t1CElJfgJvWwq41Te2lYbL_UrfpVXIXkOT25pCvgM0qmCkiY2tdjuTQ8ya6g4nsNBBDTEezC0ZKqN8KtkppLL4P7FcseR, human => "With \"quotes\"", }
            /// documented
            V23 { abbr => __xX, long => ςıσßKKKoJXErjv, human => "name", }
            /// documented
            V24 { abbr => i, long => X_x1P4dMTEx3_GoYQnXTjZBliMLgCu2DnBMzTDjB4IipG8WVhz6Z4l0mun95TQxerjjZq_bvVPPmB2Aut9wpZMYXXrnMpF2JQtjDMqP5Tmubh40NkYJFCkxOtgRBp04dgaNBP_4QKebSYjWj0B93PLjKM7J9zv1pvDQJuWkGAq0jmt3Xqcjms0uIkmnfGZH57RMZlxk5QljGdwghEPm1xOdqIiemh0otOm09l9qqqCXGqvP9Pdl0xXipbwBGhXPn8rxU, human => "Ünïcode – name", }
            Var25_X { abbr => Zr, long => X_1xxX_xxXD3rIZ9_w, human => "With \"quotes\"", }
            V26 { abbr => ı, long => VanCnthnMxAj9NWuipiIvqinv0kELxXTF4u17wjMBMG2qMWMzFzdZSwhZ5EqF97Jjc2gBflBM, human => "Ünïcode – name", }
            Var27_AA { abbr => ÉσÉÉK, long => RVyDlnHbZlJMFh8JO8LEK3YSA9hrx_w_4ySOfL0mau2Ek814ipkNkuuCske2uym6sD, human => "Plain name", }
            /// documented
            V28 { abbr => ς, long => KfJH2RAT1PDnNhW7KswMXfgrl, human => "", }
            Var29_É { abbr => yX, long => YW6UiZTazSlUWsgB1mB7hD, human => "name", }
            /// documented
            V30 { abbr => Push, long => PvjKStSVGLCs3yzts7SeoVJnrFFIMMc, human => "Plain name", }
            /// documented
            Var31_xx { abbr => _X, long => bABbaAabAKlaEUPB3P89y4sSqMHoESK7NiJETPqbjYFn0Oc8QcS7Aak6ebswx2RXTY5RJ5hy4YfjDARZ765RjfplNpghBfGpIDAlLE0XkcsrykMxOM4E2VDbSe8WKhJAP9VQ3v6PxCgT6AuqhlBqY0e4FQE2i8AHHSTt4oPmm0iHUva8xjAnrwVageRnJdu1GZW0UxBSpukMnL2WTrhOvRXys3pxHJBzJ2ath3L5ih6PamttQFHnUpm7zSSkQdiBgHxVZIWzs, human => "With \"quotes\"", }
            /// documented
            Var32_iéIK { abbr => N8w_, long => N1x111Q5mwu6a3I9cP3iP3U5GjrdlVNFszKKuxnv1a8GjhCxWO7Pp8iooc0dpjrLVzLXV9BdSHTsRgYvxfDnn6JI1z4vYtjuRslpgmwmvn2rQNG7Ctl_kqGvu239T1ZYBWreo3Ywh2zykSufIyDOrnhS1eL7pk5K6QnWvC0_7v8rxpxp4rmTS7QTg9sY8WNmiJxfpKn4JyVGMaQSuyC_ViyxerFCVi8DjyLfkkKmhULZ58mFfgpuQIYcH8M5T8PdkUCzzZD, human => "Name", }
            /// documented
            V33 { abbr => __1, long => bazgUhpKQq1qhhBIaW6PJ_gGaBbk7yP2Ul, human => "Ünïcode – name", }
            /// documented
            Var34_Sk { abbr => éıσ, long => N5lxS1fd_I2DnFdcvZIGYosi0TcsYAvVfVFQgQ6REgh1HA4fcVAYrhbbPkZihoBIk9QYLrTvYY2k8, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V35 { abbr => Ss, long => ss___sss_qXC71o_9690lEa0fF9GF, human => "name", }
            Var36_Bb { abbr => N11, long => _1_XX_X_xXX_o0CL7wTydsDKdSrf, human => "name", }
            V37 { abbr => rN6pD, long => xxxx_XXxX_bjq4ru6SekSSTMyx1REEw1RpBbCqXcYMTeDmKcaWnTj3fNemOqudgcwFBkqgpuU, human => "", }
            V38 { abbr => X1, long => sSsk_3qkkWx4ZpSIE, human => "Plain name", }
            V39 { abbr => ba, long => SSssksSLfcfctulLsGO, human => "Plain name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["É", "ue", "With \"quotes\""],
        values: &[
            (P::Var0_KS, abbr_names::bABb, long_names::XXXX_X_X_xY4HhGmzwHsLj, ["Var0_KS", "bABb", "XXXX_X_X_xY4HhGmzwHsLj", "Name"]),
            (P::Var1_AbbA, abbr_names::eo, long_names::ßςKςÉIéiσégqAu8r0gXu4tbKNm3e5mhIDy2UeZgAbg, ["Var1_AbbA", "eo", "ßςKςÉIéiσégqAu8r0gXu4tbKNm3e5mhIDy2UeZgAbg", "name"]),
            (P::Var2_ıσ, abbr_names::σ, long_names::__1111_1UBW1zCQtK5G0kYO8AoXIKUgZnymiiOFgJTDa8D4EMhHE_GFxB4I2l3apfbDyChRTPq6iEsCzsVkDCttRWcentR8WAgDeDGCQ8blBPrefikBs3D0hmNE3RZeBP7Oja3yNPs7O6cKILw8qnqGudbXrP1nemsHDWGiuZGZqJ3TUV8tPVRHsPGKB_E6d21ojcD16hGL2gqTDSyRuvxlC20v9UgOQQHCANc2xfuBxDLUxcsqrf9ozc9kkEQTJgTMGf2cLBcTRiNupIUI0crmjpshL1CieSCtJzLowVYgRpqiwD6Jo, ["Var2_ıσ", "σ", "__1111_1UBW1zCQtK5G0kYO8AoXIKUgZnymiiOFgJTDa8D4EMhHE_GFxB4I2l3apfbDyChRTPq6iEsCzsVkDCttRWcentR8WAgDeDGCQ8blBPrefikBs3D0hmNE3RZeBP7Oja3yNPs7O6cKILw8qnqGudbXrP1nemsHDWGiuZGZqJ3TUV8tPVRHsPGKB_E6d21ojcD16hGL2gqTDSyRuvxlC20v9UgOQQHCANc2xfuBxDLUxcsqrf9ozc9kkEQTJgTMGf2cLBcTRiNupIUI0crmjpshL1CieSCtJzLowVYgRpqiwD6Jo", "Name"]),
            (P::V3, abbr_names::b, long_names::aaBBAC3tdL1YCh9mNeFiyHrFw78CdHBbKoQtJpgYzAOiSIojDlTMEfrWzCLeKR8aVp017frpFkVHzq8DBZbiglBZbrNYF6MvptlXeI6tbhedQX7fIDe8cf_ySFtx9vr7jh8Mdcx6lhOvFwqTODgI9OYKncMkrWKyubnIFZebUYFoQM4llkOykTIeY6mqgkPFH4GAnIeMHBwMmuHjOQL7m5a08cSq1t0SBDlS8S4IeSOzG6b2KNPRCLqH34QKr4XC5_yWKu, ["V3", "b", "aaBBAC3tdL1YCh9mNeFiyHrFw78CdHBbKoQtJpgYzAOiSIojDlTMEfrWzCLeKR8aVp017frpFkVHzq8DBZbiglBZbrNYF6MvptlXeI6tbhedQX7fIDe8cf_ySFtx9vr7jh8Mdcx6lhOvFwqTODgI9OYKncMkrWKyubnIFZebUYFoQM4llkOykTIeY6mqgkPFH4GAnIeMHBwMmuHjOQL7m5a08cSq1t0SBDlS8S4IeSOzG6b2KNPRCLqH34QKr4XC5_yWKu", ""]),
            (P::Var4_O, abbr_names::Sk, long_names::N1xxXxx____X1Ei11I8I6zjdSWzMn, ["Var4_O", "Sk", "N1xxXxx____X1Ei11I8I6zjdSWzMn", "Name"]),
            (P::V5, abbr_names::AbAB, long_names::sSsK4YgVf1wQjEzxOgGL59Ecj9J1b6QEkvF, ["V5", "AbAB", "sSsK4YgVf1wQjEzxOgGL59Ecj9J1b6QEkvF", "Ünïcode – name"]),
            (P::Var6__1_X, abbr_names::N1XX1x, long_names::RYoMj6riYs0vtHFys9N6z7yQbYoJVmxkmaXiQNcVsewHUv7EOxIzADEYWeeW8LwYxjmsj5x88rHyFvluw7LGcBD4rOG7YPfC6fuFcHiNL1nxiJN_z7C__q7__R8ulJ2YSZIp, ["Var6__1_X", "N1XX1x", "RYoMj6riYs0vtHFys9N6z7yQbYoJVmxkmaXiQNcVsewHUv7EOxIzADEYWeeW8LwYxjmsj5x88rHyFvluw7LGcBD4rOG7YPfC6fuFcHiNL1nxiJN_z7C__q7__R8ulJ2YSZIp", "Braces {} and {0}"]),
            (P::Var7_sKsS, abbr_names::Aa, long_names::Xx_1_x1_X_Qbk7WVYDLn83u3rW9WNtaxBiu8_H93i3Rl1JhCVcrwqLtT3rqQiJexNGxZaYRAtYsClEDovFsdH1pxhxC1eRpDD2VMj2gq4YV7BzRWU9BLkWhhvhn_vXHjYYRjN1y6_IFtvWp2RjDEFPWaIZhN0_Pi1AOX49AH7cHR5f9GfJn6uJIvT9LZw7l5B5pmQlzIClYNECeCEDSLNoV7CgPbFpP3UHjQ4xxwaCtlEM0u17DXTm56thY6oCF0HJBwwuKi, ["Var7_sKsS", "Aa", "Xx_1_x1_X_Qbk7WVYDLn83u3rW9WNtaxBiu8_H93i3Rl1JhCVcrwqLtT3rqQiJexNGxZaYRAtYsClEDovFsdH1pxhxC1eRpDD2VMj2gq4YV7BzRWU9BLkWhhvhn_vXHjYYRjN1y6_IFtvWp2RjDEFPWaIZhN0_Pi1AOX49AH7cHR5f9GfJn6uJIvT9LZw7l5B5pmQlzIClYNECeCEDSLNoV7CgPbFpP3UHjQ4xxwaCtlEM0u17DXTm56thY6oCF0HJBwwuKi", "With \"quotes\""]),
            (P::Var8_KKK, abbr_names::N1Xx, long_names::xx11xxXVhNEoEx0bkKm9fYzzAawlfQ62dxRZoLF4zxG1gtnvf1T2b4RCrxgg0uVtifq7Vmt9VhJhJFsJH43UfJEaFbaMshmZQXRMOtA9ZS_FSgdVm7_anIMj5YtsC7xQJswrn47eyD70BTjfnMAOmCEhNxaAyLUjLtlh4ujGsYDiWi3imz64FvE_5qtRx6oQGSo61OXzToPovlu0PxxzLAm2L61gP2sitXu4vk_og4M_npIBTSBLnXLTucKcUPu2I4K_Gxt, ["Var8_KKK", "N1Xx", "xx11xxXVhNEoEx0bkKm9fYzzAawlfQ62dxRZoLF4zxG1gtnvf1T2b4RCrxgg0uVtifq7Vmt9VhJhJFsJH43UfJEaFbaMshmZQXRMOtA9ZS_FSgdVm7_anIMj5YtsC7xQJswrn47eyD70BTjfnMAOmCEhNxaAyLUjLtlh4ujGsYDiWi3imz64FvE_5qtRx6oQGSo61OXzToPovlu0PxxzLAm2L61gP2sitXu4vk_og4M_npIBTSBLnXLTucKcUPu2I4K_Gxt", ""]),
            (P::Var9_é, abbr_names::Éı, long_names::XXXx_x_nF17kViwaS6Dp_SYvXOiLQsUyU4wRMi30, ["Var9_é", "Éı", "XXXx_x_nF17kViwaS6Dp_SYvXOiLQsUyU4wRMi30", ""]),
            (P::Var10_ß, abbr_names::ZAz, long_names::σÉKσßßiéIééArarI10ZMUrHKhf4fmdIIDIvzOOlnwilrANOQgvGepU8ebE04ENRnF64lClCGkPLy, ["Var10_ß", "ZAz", "σÉKσßßiéIééArarI10ZMUrHKhf4fmdIIDIvzOOlnwilrANOQgvGepU8ebE04ENRnF64lClCGkPLy", "Braces {} and {0}"]),
            (P::V11, abbr_names::ıéßiı, long_names::BAaBbbaBbBBwInZBCol4XPnitCarHSiErfQjsTB0GwFZHoIzJL0m4ZoGHRZH64zlp7S76llnsWRXi9rjwRtfHvDClkUVGqXnf157BnSmIp8R8XHMzPaafFlsYztciqRBg2jVA87BvPHxIhaEsUjrpwtCA5CgD6kOkQbI0oHqnAgaC211PDCyeer0LkTDe4C41evtCUYVpvkLXDn3m4b6qT2PiTxjoO0FYCWsKt4BK3nkCNIyZJuT8HAhKv_N08LvCz2DiiFaNZAf, ["V11", "ıéßiı", "BAaBbbaBbBBwInZBCol4XPnitCarHSiErfQjsTB0GwFZHoIzJL0m4ZoGHRZH64zlp7S76llnsWRXi9rjwRtfHvDClkUVGqXnf157BnSmIp8R8XHMzPaafFlsYztciqRBg2jVA87BvPHxIhaEsUjrpwtCA5CgD6kOkQbI0oHqnAgaC211PDCyeer0LkTDe4C41evtCUYVpvkLXDn3m4b6qT2PiTxjoO0FYCWsKt4BK3nkCNIyZJuT8HAhKv_N08LvCz2DiiFaNZAf", "Braces {} and {0}"]),
            (P::V12, abbr_names::kKksS, long_names::ıςßiIßσiÉißKVc0G1raxGJbshbrvDEx0itCDRNvQSpuvYiS6EhvGsSo7bxG7UbB3Fd77saAD3xW3kizMJpquYMZicJLTaEF8aDOMfWdvTQdw5cyKQoNAhTmJ1UP_lsrTlUZ4M_niozgqD3pkAOHpSZH7EErDTjk2oqtIkkP_B3X6W7uTijGmyX_TuHysz2XvQJ95oC7QIxzWK2AbQBh9N4Heh7jx58Pi48IeDuWTgaEJGHDUkATHdE8n9SrwXQxKqWNXLsd0AYPP, ["V12", "kKksS", "ıςßiIßσiÉißKVc0G1raxGJbshbrvDEx0itCDRNvQSpuvYiS6EhvGsSo7bxG7UbB3Fd77saAD3xW3kizMJpquYMZicJLTaEF8aDOMfWdvTQdw5cyKQoNAhTmJ1UP_lsrTlUZ4M_niozgqD3pkAOHpSZH7EErDTjk2oqtIkkP_B3X6W7uTijGmyX_TuHysz2XvQJ95oC7QIxzWK2AbQBh9N4Heh7jx58Pi48IeDuWTgaEJGHDUkATHdE8n9SrwXQxKqWNXLsd0AYPP", "Braces {} and {0}"]),
            (P::Var13_RXY, abbr_names::AA, long_names::Xs4fG9sRsgA6WODoKtA_qUtSM, ["Var13_RXY", "AA", "Xs4fG9sRsgA6WODoKtA_qUtSM", "Braces {} and {0}"]),
            (P::V14, abbr_names::BbAbB, long_names::oMuANyldP8hIanL9Vi3ufChEnViNdUwLrUiiPJwBhhh7GDZru2p7W9vZzTH3AqAKKZ7j9zseSPHFlEV54hWY3ZB24_MLbzBFPnGeNwZVKZGH9kvcGDPqkjo7gKPOLXE8b7EZ, ["V14", "BbAbB", "oMuANyldP8hIanL9Vi3ufChEnViNdUwLrUiiPJwBhhh7GDZru2p7W9vZzTH3AqAKKZ7j9zseSPHFlEV54hWY3ZB24_MLbzBFPnGeNwZVKZGH9kvcGDPqkjo7gKPOLXE8b7EZ", "Ünïcode – name"]),
            (P::Var15_σσσi, abbr_names::ß, long_names::rn7OaNs1lUm8YbtZMFX07RW6sO1mopGtKO8VOBHBP8BiWca_S1XTKPJ85q2UCiPpKTVlhU1ATpkBafBWBRO2iYOLOiyJ_pL07HWS6PJScN5q4nctrNLGVnnAXTCQYBi8ns9FUUEBOxp8_BINKkfd8iaK16L_2ZJuBXTBxqWbDUjtBMWKpm6bdjXEQtbh6sKLpug9sKR8S_eoLyq6cXXRotbxLrscmEUBfYKa_b2rlWZAXQz3Eu8ZiJbV5rC_bvq0LK55lqW, ["Var15_σσσi", "ß", "rn7OaNs1lUm8YbtZMFX07RW6sO1mopGtKO8VOBHBP8BiWca_S1XTKPJ85q2UCiPpKTVlhU1ATpkBafBWBRO2iYOLOiyJ_pL07HWS6PJScN5q4nctrNLGVnnAXTCQYBi8ns9FUUEBOxp8_BINKkfd8iaK16L_2ZJuBXTBxqWbDUjtBMWKpm6bdjXEQtbh6sKLpug9sKR8S_eoLyq6cXXRotbxLrscmEUBfYKa_b2rlWZAXQz3Eu8ZiJbV5rC_bvq0LK55lqW", "Braces {} and {0}"]),
            (P::V16, abbr_names::éσééς, long_names::AbBAaBbab5CtaTvXkIQJ2L8LcLRgykx9QGj7ALAT, ["V16", "éσééς", "AbBAaBbab5CtaTvXkIQJ2L8LcLRgykx9QGj7ALAT", "Name"]),
            (P::Var17__x1x, abbr_names::N11xX, long_names::IıiIßéKıiéA52CE4WtEGTPSzQCEAdTCXDQ, ["Var17__x1x", "N11xX", "IıiIßéKıiéA52CE4WtEGTPSzQCEAdTCXDQ", "Name"]),
            (P::V18, abbr_names::N1, long_names::aapa4ZZVqKeTz089JcT0Nl7kcxnqYwB2drS, ["V18", "N1", "aapa4ZZVqKeTz089JcT0Nl7kcxnqYwB2drS", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V19, abbr_names::N3TIP, long_names::KıiiéiııZtCsxyWzc2jHzXmbb3KfmujOKSOcOXOq48PCZQeg3Cdve8GuVBbyduvD51CfVfDBZ, ["V19", "N3TIP", "KıiiéiııZtCsxyWzc2jHzXmbb3KfmujOKSOcOXOq48PCZQeg3Cdve8GuVBbyduvD51CfVfDBZ", " "]),
            (P::Var20_K__s, abbr_names::zLT, long_names::oA4ILcFk3i0TZZgs39V1FfZDjF, ["Var20_K__s", "zLT", "oA4ILcFk3i0TZZgs39V1FfZDjF", "tab\tand\nnewline"]),
            (P::Var21_Xxx_, abbr_names::Ißσ, long_names::σ0MFFyemo_7Lr4jPN1LW5nFfikZF68Pktjkd2FEIhZ9PSt147fJ2wRW9pqQjXf2tzjD_I_UQh8Rnk3WF2S0mCD58qcmhsiEzDSIa02mGLTPDUDhw2aK8dG5VUL6TYjgI, ["Var21_Xxx_", "Ißσ", "σ0MFFyemo_7Lr4jPN1LW5nFfikZF68Pktjkd2FEIhZ9PSt147fJ2wRW9pqQjXf2tzjD_I_UQh8Rnk3WF2S0mCD58qcmhsiEzDSIa02mGLTPDUDhw2aK8dG5VUL6TYjgI", "Plain name"]),
            (P::Var22_K, abbr_names::O, long_names::ÉßßÉÉßKiIhVImHfADlJhSkogbeZfHfc336iKs5AS57Zm99i8WiqV4QBw66pJcoIHQlkfinSiEf6yxK6ptKzF07kO7DcLMGj2JkVSxAtN_VUWcUmfzUNXVF2Mk9RYINLGcDAq0JA6_Ok_kDZ5NNjepQ3gmkWk67QBgrb4UGtrof_t1CElJfgJvWwq41Te2lYbL_UrfpVXIXkOT25pCvgM0qmCkiY2tdjuTQ8ya6g4nsNBBDTEezC0ZKqN8KtkppLL4P7FcseR, ["Var22_K", "O", "ÉßßÉÉßKiIhVImHfADlJhSkogbeZfHfc336iKs5AS57Zm99i8WiqV4QBw66pJcoIHQlkfinSiEf6yxK6ptKzF07kO7DcLMGj2JkVSxAtN_VUWcUmfzUNXVF2Mk9RYINLGcDAq0JA6_Ok_kDZ5NNjepQ3gmkWk67QBgrb4UGtrof_t1CElJfgJvWwq41Te2lYbL_UrfpVXIXkOT25pCvgM0qmCkiY2tdjuTQ8ya6g4nsNBBDTEezC0ZKqN8KtkppLL4P7FcseR", "With \"quotes\""]),
            (P::V23, abbr_names::__xX, long_names::ςıσßKKKoJXErjv, ["V23", "__xX", "ςıσßKKKoJXErjv", "name"]),
            (P::V24, abbr_names::i, long_names::X_x1P4dMTEx3_GoYQnXTjZBliMLgCu2DnBMzTDjB4IipG8WVhz6Z4l0mun95TQxerjjZq_bvVPPmB2Aut9wpZMYXXrnMpF2JQtjDMqP5Tmubh40NkYJFCkxOtgRBp04dgaNBP_4QKebSYjWj0B93PLjKM7J9zv1pvDQJuWkGAq0jmt3Xqcjms0uIkmnfGZH57RMZlxk5QljGdwghEPm1xOdqIiemh0otOm09l9qqqCXGqvP9Pdl0xXipbwBGhXPn8rxU, ["V24", "i", "X_x1P4dMTEx3_GoYQnXTjZBliMLgCu2DnBMzTDjB4IipG8WVhz6Z4l0mun95TQxerjjZq_bvVPPmB2Aut9wpZMYXXrnMpF2JQtjDMqP5Tmubh40NkYJFCkxOtgRBp04dgaNBP_4QKebSYjWj0B93PLjKM7J9zv1pvDQJuWkGAq0jmt3Xqcjms0uIkmnfGZH57RMZlxk5QljGdwghEPm1xOdqIiemh0otOm09l9qqqCXGqvP9Pdl0xXipbwBGhXPn8rxU", "Ünïcode – name"]),
            (P::Var25_X, abbr_names::Zr, long_names::X_1xxX_xxXD3rIZ9_w, ["Var25_X", "Zr", "X_1xxX_xxXD3rIZ9_w", "With \"quotes\""]),
            (P::V26, abbr_names::ı, long_names::VanCnthnMxAj9NWuipiIvqinv0kELxXTF4u17wjMBMG2qMWMzFzdZSwhZ5EqF97Jjc2gBflBM, ["V26", "ı", "VanCnthnMxAj9NWuipiIvqinv0kELxXTF4u17wjMBMG2qMWMzFzdZSwhZ5EqF97Jjc2gBflBM", "Ünïcode – name"]),
            (P::Var27_AA, abbr_names::ÉσÉÉK, long_names::RVyDlnHbZlJMFh8JO8LEK3YSA9hrx_w_4ySOfL0mau2Ek814ipkNkuuCske2uym6sD, ["Var27_AA", "ÉσÉÉK", "RVyDlnHbZlJMFh8JO8LEK3YSA9hrx_w_4ySOfL0mau2Ek814ipkNkuuCske2uym6sD", "Plain name"]),
            (P::V28, abbr_names::ς, long_names::KfJH2RAT1PDnNhW7KswMXfgrl, ["V28", "ς", "KfJH2RAT1PDnNhW7KswMXfgrl", ""]),
            (P::Var29_É, abbr_names::yX, long_names::YW6UiZTazSlUWsgB1mB7hD, ["Var29_É", "yX", "YW6UiZTazSlUWsgB1mB7hD", "name"]),
            (P::V30, abbr_names::Push, long_names::PvjKStSVGLCs3yzts7SeoVJnrFFIMMc, ["V30", "Push", "PvjKStSVGLCs3yzts7SeoVJnrFFIMMc", "Plain name"]),
            (P::Var31_xx, abbr_names::_X, long_names::bABbaAabAKlaEUPB3P89y4sSqMHoESK7NiJETPqbjYFn0Oc8QcS7Aak6ebswx2RXTY5RJ5hy4YfjDARZ765RjfplNpghBfGpIDAlLE0XkcsrykMxOM4E2VDbSe8WKhJAP9VQ3v6PxCgT6AuqhlBqY0e4FQE2i8AHHSTt4oPmm0iHUva8xjAnrwVageRnJdu1GZW0UxBSpukMnL2WTrhOvRXys3pxHJBzJ2ath3L5ih6PamttQFHnUpm7zSSkQdiBgHxVZIWzs, ["Var31_xx", "_X", "bABbaAabAKlaEUPB3P89y4sSqMHoESK7NiJETPqbjYFn0Oc8QcS7Aak6ebswx2RXTY5RJ5hy4YfjDARZ765RjfplNpghBfGpIDAlLE0XkcsrykMxOM4E2VDbSe8WKhJAP9VQ3v6PxCgT6AuqhlBqY0e4FQE2i8AHHSTt4oPmm0iHUva8xjAnrwVageRnJdu1GZW0UxBSpukMnL2WTrhOvRXys3pxHJBzJ2ath3L5ih6PamttQFHnUpm7zSSkQdiBgHxVZIWzs", "With \"quotes\""]),
            (P::Var32_iéIK, abbr_names::N8w_, long_names::N1x111Q5mwu6a3I9cP3iP3U5GjrdlVNFszKKuxnv1a8GjhCxWO7Pp8iooc0dpjrLVzLXV9BdSHTsRgYvxfDnn6JI1z4vYtjuRslpgmwmvn2rQNG7Ctl_kqGvu239T1ZYBWreo3Ywh2zykSufIyDOrnhS1eL7pk5K6QnWvC0_7v8rxpxp4rmTS7QTg9sY8WNmiJxfpKn4JyVGMaQSuyC_ViyxerFCVi8DjyLfkkKmhULZ58mFfgpuQIYcH8M5T8PdkUCzzZD, ["Var32_iéIK", "N8w_", "N1x111Q5mwu6a3I9cP3iP3U5GjrdlVNFszKKuxnv1a8GjhCxWO7Pp8iooc0dpjrLVzLXV9BdSHTsRgYvxfDnn6JI1z4vYtjuRslpgmwmvn2rQNG7Ctl_kqGvu239T1ZYBWreo3Ywh2zykSufIyDOrnhS1eL7pk5K6QnWvC0_7v8rxpxp4rmTS7QTg9sY8WNmiJxfpKn4JyVGMaQSuyC_ViyxerFCVi8DjyLfkkKmhULZ58mFfgpuQIYcH8M5T8PdkUCzzZD", "Name"]),
            (P::V33, abbr_names::__1, long_names::bazgUhpKQq1qhhBIaW6PJ_gGaBbk7yP2Ul, ["V33", "__1", "bazgUhpKQq1qhhBIaW6PJ_gGaBbk7yP2Ul", "Ünïcode – name"]),
            (P::Var34_Sk, abbr_names::éıσ, long_names::N5lxS1fd_I2DnFdcvZIGYosi0TcsYAvVfVFQgQ6REgh1HA4fcVAYrhbbPkZihoBIk9QYLrTvYY2k8, ["Var34_Sk", "éıσ", "N5lxS1fd_I2DnFdcvZIGYosi0TcsYAvVfVFQgQ6REgh1HA4fcVAYrhbbPkZihoBIk9QYLrTvYY2k8", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V35, abbr_names::Ss, long_names::ss___sss_qXC71o_9690lEa0fF9GF, ["V35", "Ss", "ss___sss_qXC71o_9690lEa0fF9GF", "name"]),
            (P::Var36_Bb, abbr_names::N11, long_names::_1_XX_X_xXX_o0CL7wTydsDKdSrf, ["Var36_Bb", "N11", "_1_XX_X_xXX_o0CL7wTydsDKdSrf", "name"]),
            (P::V37, abbr_names::rN6pD, long_names::xxxx_XXxX_bjq4ru6SekSSTMyx1REEw1RpBbCqXcYMTeDmKcaWnTj3fNemOqudgcwFBkqgpuU, ["V37", "rN6pD", "xxxx_XXxX_bjq4ru6SekSSTMyx1REEw1RpBbCqXcYMTeDmKcaWnTj3fNemOqudgcwFBkqgpuU", ""]),
            (P::V38, abbr_names::X1, long_names::sSsk_3qkkWx4ZpSIE, ["V38", "X1", "sSsk_3qkkWx4ZpSIE", "Plain name"]),
            (P::V39, abbr_names::ba, long_names::SSssksSLfcfctulLsGO, ["V39", "ba", "SSssksSLfcfctulLsGO", "Plain name"]),
        ],
    };
}
pub mod e20 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "Qocz";
            long => "_XXx1xx_11_1";
            human => "";
            V0 { abbr => ABaBb, long => ABaBb, human => "Plain name", }
            /// documented
            V1 { abbr => _XXX1, long => _XXX1, human => "name", }
            /// documented
            Var2_iςi { abbr => _k, long => _k, human => "", }
            Var3_N0 { abbr => σß, long => σß, human => "With \"quotes\"", }
            V4 { abbr => B, long => B, human => "", }
            /// documented
            V5 { abbr => N4, long => N4, human => "With \"quotes\"", }
            /// documented
            Var6__1_ { abbr => x_, long => x_, human => "", }
            Var7_SS { abbr => N1X, long => N1X, human => "Plain name", }
            Var8_S { abbr => BB, long => BB, human => "With \"quotes\"", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["Qocz", "_XXx1xx_11_1", ""],
        values: &[
            (P::V0, abbr_names::ABaBb, long_names::ABaBb, ["V0", "ABaBb", "ABaBb", "Plain name"]),
            (P::V1, abbr_names::_XXX1, long_names::_XXX1, ["V1", "_XXX1", "_XXX1", "name"]),
            (P::Var2_iςi, abbr_names::_k, long_names::_k, ["Var2_iςi", "_k", "_k", ""]),
            (P::Var3_N0, abbr_names::σß, long_names::σß, ["Var3_N0", "σß", "σß", "With \"quotes\""]),
            (P::V4, abbr_names::B, long_names::B, ["V4", "B", "B", ""]),
            (P::V5, abbr_names::N4, long_names::N4, ["V5", "N4", "N4", "With \"quotes\""]),
            (P::Var6__1_, abbr_names::x_, long_names::x_, ["Var6__1_", "x_", "x_", ""]),
            (P::Var7_SS, abbr_names::N1X, long_names::N1X, ["Var7_SS", "N1X", "N1X", "Plain name"]),
            (P::Var8_S, abbr_names::BB, long_names::BB, ["Var8_S", "BB", "BB", "With \"quotes\""]),
        ],
    };
}
pub mod e21 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "σIÉi";
            long => "ςKςσÉ";
            human => "tab\tand\nnewline";
            V0 { abbr => o, long => A, human => "Plain name", }
            /// documented
            Var1_B { abbr => s_, long => X, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["σIÉi", "ςKςσÉ", "tab\tand\nnewline"],
        values: &[
            (P::V0, abbr_names::o, long_names::A, ["V0", "o", "A", "Plain name"]),
            (P::Var1_B, abbr_names::s_, long_names::X, ["Var1_B", "s_", "X", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
        ],
    };
}
pub mod e22 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "ςÉé";
            long => "N2V6ByS";
            human => "With \"quotes\"";
            V0 { abbr => I, long => AABBbabA, human => "Braces {} and {0}", }
            V1 { abbr => _S, long => bbBBB, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V2 { abbr => zKH, long => BB, human => "tab\tand\nnewline", }
            Var3_BAa { abbr => k, long => ςσÉéσσσéÉ, human => "Name", }
            /// documented
            Var4_ab { abbr => KK, long => Bbaa, human => "  spaces on either side  ", }
            /// documented
            Var5_ßςßi { abbr => AbA, long => X_X1X__xX1X, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var6_EkL { abbr => _s, long => σςςσ, human => "tab\tand\nnewline", }
            /// documented
            Var7_aC5w { abbr => ß, long => x_, human => "", }
            /// documented
            Var8_iσßß { abbr => _x1X, long => BaBAaAAaBa, human => "Plain name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["ςÉé", "N2V6ByS", "With \"quotes\""],
        values: &[
            (P::V0, abbr_names::I, long_names::AABBbabA, ["V0", "I", "AABBbabA", "Braces {} and {0}"]),
            (P::V1, abbr_names::_S, long_names::bbBBB, ["V1", "_S", "bbBBB", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V2, abbr_names::zKH, long_names::BB, ["V2", "zKH", "BB", "tab\tand\nnewline"]),
            (P::Var3_BAa, abbr_names::k, long_names::ςσÉéσσσéÉ, ["Var3_BAa", "k", "ςσÉéσσσéÉ", "Name"]),
            (P::Var4_ab, abbr_names::KK, long_names::Bbaa, ["Var4_ab", "KK", "Bbaa", "  spaces on either side  "]),
            (P::Var5_ßςßi, abbr_names::AbA, long_names::X_X1X__xX1X, ["Var5_ßςßi", "AbA", "X_X1X__xX1X", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var6_EkL, abbr_names::_s, long_names::σςςσ, ["Var6_EkL", "_s", "σςςσ", "tab\tand\nnewline"]),
            (P::Var7_aC5w, abbr_names::ß, long_names::x_, ["Var7_aC5w", "ß", "x_", ""]),
            (P::Var8_iσßß, abbr_names::_x1X, long_names::BaBAaAAaBa, ["Var8_iσßß", "_x1X", "BaBAaAAaBa", "Plain name"]),
        ],
    };
}
pub mod e23 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "Abb";
            long => "N27Usiixn0a";
            human => "tab\tand\nnewline";
            /// documented
            Var0_KSS { abbr => KßÉςI, long => _1X_1Xx1, human => "\u{feff}\u{a0}\0 odd \r\n", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["Abb", "N27Usiixn0a", "tab\tand\nnewline"],
        values: &[
            (P::Var0_KSS, abbr_names::KßÉςI, long_names::_1X_1Xx1, ["Var0_KSS", "KßÉςI", "_1X_1Xx1", "\u{feff}\u{a0}\0 odd \r\n"]),
        ],
    };
}
pub mod e24 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "_S";
            long => "_11";
            human => "Braces {} and {0}";
            V0 { abbr => N11, long => AB, human => "Plain name", }
            V1 { abbr => ıß, long => ß, human => "Ünïcode – name", }
            Var2_aBB { abbr => N2M, long => sIV, human => "Name", }
            /// documented
            Var3_X { abbr => Éß, long => AbA, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V4 { abbr => a, long => bBa, human => "Ünïcode – name", }
            /// documented
            Var5_x { abbr => d, long => X1, human => "tab\tand\nnewline", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["_S", "_11", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::N11, long_names::AB, ["V0", "N11", "AB", "Plain name"]),
            (P::V1, abbr_names::ıß, long_names::ß, ["V1", "ıß", "ß", "Ünïcode – name"]),
            (P::Var2_aBB, abbr_names::N2M, long_names::sIV, ["Var2_aBB", "N2M", "sIV", "Name"]),
            (P::Var3_X, abbr_names::Éß, long_names::AbA, ["Var3_X", "Éß", "AbA", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V4, abbr_names::a, long_names::bBa, ["V4", "a", "bBa", "Ünïcode – name"]),
            (P::Var5_x, abbr_names::d, long_names::X1, ["Var5_x", "d", "X1", "tab\tand\nnewline"]),
        ],
    };
}
pub mod e25 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "U";
            long => "XXx11_1xXx1x";
            human => "Braces {} and {0}";
            V0 { abbr => ksKSK, long => ksKSK, human => "tab\tand\nnewline", }
            V1 { abbr => sssKS, long => sssKS, human => "tab\tand\nnewline", }
            /// documented
            Var2__k__ { abbr => _Sk, long => _Sk, human => "Name", }
            Var3_KS { abbr => skSss, long => skSss, human => "tab\tand\nnewline", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["U", "XXx11_1xXx1x", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::ksKSK, long_names::ksKSK, ["V0", "ksKSK", "ksKSK", "tab\tand\nnewline"]),
            (P::V1, abbr_names::sssKS, long_names::sssKS, ["V1", "sssKS", "sssKS", "tab\tand\nnewline"]),
            (P::Var2__k__, abbr_names::_Sk, long_names::_Sk, ["Var2__k__", "_Sk", "_Sk", "Name"]),
            (P::Var3_KS, abbr_names::skSss, long_names::skSss, ["Var3_KS", "skSss", "skSss", "tab\tand\nnewline"]),
        ],
    };
}
pub mod e26 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "Éςσ";
            long => "É";
            human => "name";
            Var0_ksK { abbr => ba, long => X_XX_1, human => "With \"quotes\"", }
            V1 { abbr => N1x1X, long => x1_Xxx1X, human => "Ünïcode – name", }
            /// documented
            Var2_wLV { abbr => s__, long => zXu, human => "Ünïcode – name", }
            /// documented
            Var3_xX { abbr => sK, long => _SsK, human => "Braces {} and {0}", }
            Var4_T { abbr => A, long => N1_x_1, human => "name", }
            Var5_i { abbr => abaAb, long => X__, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V6 { abbr => aaBB, long => iiP1wG0Ov, human => "Plain name", }
            /// documented
            Var7_Aa { abbr => nZEex, long => KKSk_K_s_, human => "name", }
            Var8_aa { abbr => i, long => cnz, human => "  spaces on either side  ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["Éςσ", "É", "name"],
        values: &[
            (P::Var0_ksK, abbr_names::ba, long_names::X_XX_1, ["Var0_ksK", "ba", "X_XX_1", "With \"quotes\""]),
            (P::V1, abbr_names::N1x1X, long_names::x1_Xxx1X, ["V1", "N1x1X", "x1_Xxx1X", "Ünïcode – name"]),
            (P::Var2_wLV, abbr_names::s__, long_names::zXu, ["Var2_wLV", "s__", "zXu", "Ünïcode – name"]),
            (P::Var3_xX, abbr_names::sK, long_names::_SsK, ["Var3_xX", "sK", "_SsK", "Braces {} and {0}"]),
            (P::Var4_T, abbr_names::A, long_names::N1_x_1, ["Var4_T", "A", "N1_x_1", "name"]),
            (P::Var5_i, abbr_names::abaAb, long_names::X__, ["Var5_i", "abaAb", "X__", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V6, abbr_names::aaBB, long_names::iiP1wG0Ov, ["V6", "aaBB", "iiP1wG0Ov", "Plain name"]),
            (P::Var7_Aa, abbr_names::nZEex, long_names::KKSk_K_s_, ["Var7_Aa", "nZEex", "KKSk_K_s_", "name"]),
            (P::Var8_aa, abbr_names::i, long_names::cnz, ["Var8_aa", "i", "cnz", "  spaces on either side  "]),
        ],
    };
}
pub mod e27 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "ohI5";
            long => "ÉééiIıςÉςßKK";
            human => "Braces {} and {0}";
            /// documented
            V0 { abbr => x, long => qJ, human => " ", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["ohI5", "ÉééiIıςÉςßKK", "Braces {} and {0}"],
        values: &[
            (P::V0, abbr_names::x, long_names::qJ, ["V0", "x", "qJ", " "]),
        ],
    };
}
pub mod e28 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "dl";
            long => "JtjHB";
            human => "Plain name";
            /// documented
            Var0_ßI { abbr => KKb8, long => SSKkSSk, human => "", }
            V1 { abbr => ab, long => SSKK_KS, human => "tab\tand\nnewline", }
            /// documented
            V2 { abbr => XXx1X, long => abAaBBAba, human => "Plain name", }
            Var3_ouY { abbr => N1_x, long => N1xX, human => "With \"quotes\"", }
            Var4_X { abbr => Xx_, long => ___11xX1_, human => "Name", }
            Var5_eGkR { abbr => i, long => V_Vui5Uw9, human => "name", }
            /// documented
            Var6_abBa { abbr => GF, long => éςςKIéIıσı, human => "Name", }
            V7 { abbr => x_x, long => bA, human => "Plain name", }
            V8 { abbr => AA, long => Iıςı, human => "Name", }
            V9 { abbr => R, long => σIςi, human => "Plain name", }
            /// documented
            Var10_K { abbr => Aa, long => S, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V11 { abbr => bAbA, long => k_Kk_K_, human => "Name", }
            /// documented
            Var12_SkKs { abbr => ss, long => JVycfiZs, human => "Plain name", }
            Var13_S { abbr => ςς, long => BAABb, human => "Plain name", }
            /// documented
            Var14_éi { abbr => N1, long => ababbA, human => "name", }
            Var15_xx_X { abbr => ABaaA, long => KÉσIßς, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var16_N1X_1 { abbr => BbAb, long => JYA0BV7, human => "Plain name", }
            /// documented
            V17 { abbr => S_, long => __xX_, human => "Plain name", }
            /// documented
            Var18_X { abbr => xx, long => KıiIIßÉiéIÉé, human => "tab\tand\nnewline", }
            Var19_aBa { abbr => sSS, long => _xx_XxXX1, human => "name", }
            Var20_ς { abbr => N9z, long => N1_X1_X1_, human => "tab\tand\nnewline", }
            V21 { abbr => x, long => N05KIjaB204A, human => "With \"quotes\"", }
            Var22_s { abbr => bAAA, long => N1Xx1, human => "Ünïcode – name", }
            Var23_heh7 { abbr => baB, long => KÉßiσÉKIß, human => "Ünïcode – name", }
            Var24_axVW { abbr => o, long => xX1_X1X1x_X_, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var25_bbBa { abbr => _k_K, long => aMlVetYHW2E6, human => "tab\tand\nnewline", }
            Var26_ÉKı { abbr => N, long => qXlrNZCo, human => "With \"quotes\"", }
            /// documented
            V27 { abbr => abBBB, long => N1__xxx__1_11, human => "With \"quotes\"", }
            /// documented
            Var28_bB { abbr => σıÉéς, long => x1x1X11x1_1, human => "With \"quotes\"", }
            /// documented
            V29 { abbr => s__S, long => ksSsk_k, human => "Plain name", }
            Var30_xX_ { abbr => S_ks_, long => iςıKÉÉıς, human => "", }
            V31 { abbr => X1X1_, long => Aabb, human => "", }
            Var32__x_ { abbr => N2eI, long => bb, human => "name", }
            Var33_bA { abbr => _1X, long => s, human => "Name", }
            Var34_ÉI { abbr => xx11, long => kkS_S_SKSSsS, human => "tab\tand\nnewline", }
            /// documented
            Var35_abb { abbr => _1_x, long => BBAaAbBaA, human => "Name", }
            V36 { abbr => N1X__x, long => SK, human => "tab\tand\nnewline", }
            /// documented
            Var37_Ba { abbr => xv3, long => kSk_kKS_S_, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var38_Kkk { abbr => bbAbB, long => _lr, human => "With \"quotes\"", }
            /// documented
            V39 { abbr => ßς, long => Ab, human => "tab\tand\nnewline", }
            Var40_k { abbr => BBaBb, long => éσKKσ, human => "", }
            V41 { abbr => W97d, long => kkSKS_kK_K, human => "Name", }
            /// documented
            V42 { abbr => N1x1, long => ÉIςK, human => "With \"quotes\"", }
            /// documented
            V43 { abbr => BBbAA, long => SskKk, human => "name", }
            Var44_N2 { abbr => T, long => XX, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V45 { abbr => N1J3cW, long => byDGzjm5BH, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var46_i { abbr => b, long => AB, human => "Braces {} and {0}", }
            /// documented
            Var47_VYj { abbr => σ, long => kSSSK_Kk_skk, human => "Ünïcode – name", }
            /// documented
            Var48_AAbb { abbr => ___xx, long => IÉııσÉi, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var49_bCiS { abbr => s_K, long => ßσKßééiσ, human => "Braces {} and {0}", }
            /// documented
            V50 { abbr => Bb, long => ıIéı, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var51_σ { abbr => c, long => _s_k_kSk, human => "", }
            /// documented
            Var52_VMr { abbr => zk, long => ııσéς, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V53 { abbr => Xu0z8, long => xX, human => "Ünïcode – name", }
            /// documented
            V54 { abbr => ZHM, long => N1_, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V55 { abbr => AB, long => éςÉKiı, human => "Ünïcode – name", }
            /// documented
            Var56_WfN { abbr => bAab, long => MzwiQjrc9, human => "Braces {} and {0}", }
            V57 { abbr => babB, long => K, human => "Name", }
            Var58_S { abbr => S, long => _SsK__kK_, human => "Plain name", }
            /// documented
            Var59_ıßı { abbr => aba, long => Z4FgygcF, human => "", }
            /// documented
            Var60_N1_ { abbr => Hga_m, long => éÉéIKς, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var61_ks { abbr => drD9S, long => N11Xx1x, human => "With \"quotes\"", }
            /// documented
            V62 { abbr => xX1Xx, long => baBBBBbBAA, human => "Plain name", }
            Var63_éσß { abbr => __1, long => x1_1__X__XX, human => "With \"quotes\"", }
            V64 { abbr => aBbAB, long => B, human => "", }
            /// documented
            V65 { abbr => N0VZ, long => kk_SsSSK, human => "With \"quotes\"", }
            /// documented
            V66 { abbr => KßÉςı, long => BABA, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V67 { abbr => ς, long => x1XX_, human => "name", }
            /// documented
            V68 { abbr => Babaa, long => éς, human => "Ünïcode – name", }
            /// documented
            V69 { abbr => N11xx, long => R_jtz, human => "tab\tand\nnewline", }
            /// documented
            V70 { abbr => AABa, long => σiσßißÉß, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var71_EM { abbr => N1_, long => BBbABbAaAA, human => "Ünïcode – name", }
            Var72_BHx5 { abbr => ßI, long => ss__S_S_kSS_, human => "", }
            /// documented
            V73 { abbr => Jnr, long => LrLsPQN, human => "Plain name", }
            Var74_é { abbr => n, long => abbaAB, human => "tab\tand\nnewline", }
            Var75___k { abbr => bB, long => iIςß, human => "Braces {} and {0}", }
            /// documented
            Var76_AbA { abbr => ß, long => IÉéKiσσσK, human => "With \"quotes\"", }
            V77 { abbr => σσ, long => KßéßKéσéß, human => "", }
            Var78_hG { abbr => iéKςı, long => X1, human => "With \"quotes\"", }
            Var79_AaA { abbr => aB, long => x11x__11, human => "name", }
            V80 { abbr => KS, long => ééÉσKςÉÉI, human => "Name", }
            V81 { abbr => k_skK, long => __1xX1___X_1, human => "With \"quotes\"", }
            V82 { abbr => ıßé, long => hm, human => "name", }
            /// documented
            Var83_ÉÉ { abbr => IiÉß, long => gPg3, human => "", }
            /// documented
            V84 { abbr => dd, long => BB, human => "With \"quotes\"", }
            Var85_Z { abbr => Ba, long => XXxX, human => "With \"quotes\"", }
            /// documented
            Var86_ks_S { abbr => aA, long => ßI, human => "Braces {} and {0}", }
            Var87_ha { abbr => sks, long => bbaaAaBaB, human => "Name", }
            /// documented
            Var88_Ks { abbr => _x1, long => SsSk, human => "name", }
            V89 { abbr => BAbb, long => baAbbaBABA, human => "name", }
            Var90_aBBA { abbr => ıiiσ, long => bbabaB, human => "tab\tand\nnewline", }
            /// documented
            Var91_Zky { abbr => __x, long => KsSs_S_Skkk, human => "Braces {} and {0}", }
            /// documented
            Var92_aab { abbr => _Kkk, long => XXX1XXxX1x1_, human => "name", }
            Var93_ςσéK { abbr => aAAa, long => ABbbbb, human => "Name", }
            /// documented
            V94 { abbr => X__X1, long => yxYDL22, human => "With \"quotes\"", }
            Var95_S { abbr => É, long => FU_x9jAhgp_, human => "Name", }
            /// documented
            V96 { abbr => a, long => __KSsS, human => "Name", }
            /// documented
            V97 { abbr => SKKKK, long => rCDMrROtXJpn, human => "Name", }
            Var98_r08l { abbr => XX, long => ςσß, human => "name", }
            /// documented
            Var99_n3 { abbr => AaB, long => aaABaaaaaBB, human => "With \"quotes\"", }
            Var100_SS { abbr => Kıσ, long => IςiςııÉı, human => "Braces {} and {0}", }
            /// documented
            Var101_Iıςé { abbr => sSk, long => KKkKkSs, human => "Plain name", }
            V102 { abbr => ßßıÉ, long => X, human => "", }
            Var103_N4b { abbr => BAa, long => fae, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var104_X { abbr => N9DXu, long => BbaaBAAbabAb, human => "Braces {} and {0}", }
            /// documented
            V105 { abbr => B, long => Baa, human => "Name", }
            Var106_XX1x { abbr => N1ixG6, long => BbB, human => "", }
            V107 { abbr => Ab, long => b, human => "With \"quotes\"", }
            V108 { abbr => KσiıK, long => ςςéiσ, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V109 { abbr => A, long => ıÉÉIÉéσÉé, human => "tab\tand\nnewline", }
            /// documented
            V110 { abbr => BA, long => BBbBB, human => "Braces {} and {0}", }
            Var111_kk_ { abbr => XX11, long => _skS_kSkK_, human => "Plain name", }
            /// documented
            V112 { abbr => IIIé, long => j410b57IoN67, human => "name", }
            Var113_éKßé { abbr => sS, long => X_xxxXX11_, human => "name", }
            Var114_mfB0 { abbr => ςı, long => N11_X, human => "name", }
            V115 { abbr => BBbB, long => L, human => "name", }
            V116 { abbr => N09, long => N7P_N, human => "name", }
            V117 { abbr => SSK, long => Kıi, human => "Plain name", }
            Var118_k { abbr => SSKk, long => aaABaaaaAaBa, human => "Braces {} and {0}", }
            Var119_x_ { abbr => K__, long => iKÉıiσ, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var120_xI7 { abbr => ςÉς, long => É, human => "Ünïcode – name", }
            /// documented
            V121 { abbr => E0, long => σıKıÉıiK, human => "Name", }
            /// documented
            Var122_sSKk { abbr => k, long => ÉßKéσς, human => "Ünïcode – name", }
            Var123_BAba { abbr => TUq, long => aaBbbaAaAB, human => "With \"quotes\"", }
            /// documented
            Var124_P { abbr => _xX5p, long => x_x, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V125 { abbr => _X, long => ißÉiIßéßI, human => "name", }
            /// documented
            Var126_N1X_ { abbr => X11x, long => _x1Xx_X1Xx1_, human => "Ünïcode – name", }
            /// documented
            Var127___xX { abbr => N11x_1, long => Éıσß, human => "Braces {} and {0}", }
            Var128_N1 { abbr => N1X_X, long => K2, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V129 { abbr => ı, long => qvxSjm, human => "Braces {} and {0}", }
            V130 { abbr => I, long => éK, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V131 { abbr => ÉKKIß, long => XxXX_x_, human => "tab\tand\nnewline", }
            /// documented
            V132 { abbr => p, long => KςIKiéßI, human => "Ünïcode – name", }
            V133 { abbr => fah, long => baBbAA, human => "Braces {} and {0}", }
            V134 { abbr => aBBBa, long => KÉςißKßKKié, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var135_K_S { abbr => _kks, long => abAabAaBa, human => "Plain name", }
            Var136_N1XX1 { abbr => IsyU, long => BABBabBb, human => "With \"quotes\"", }
            V137 { abbr => uVwe, long => N1Xx_1, human => "tab\tand\nnewline", }
            /// documented
            Var138_ißI { abbr => vZDYo, long => ς, human => "Ünïcode – name", }
            Var139__k { abbr => gDZlY, long => ÉIÉiı, human => "name", }
            /// documented
            V140 { abbr => bBAb, long => gYj, human => "With \"quotes\"", }
            /// documented
            V141 { abbr => s_S, long => sKKKk_ksKsk, human => "tab\tand\nnewline", }
            /// documented
            Var142_éKσς { abbr => σÉßi, long => K__, human => "Braces {} and {0}", }
            /// documented
            V143 { abbr => qq, long => ez3w0Hep, human => "With \"quotes\"", }
            Var144__1Xx { abbr => _Ks, long => ABba, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V145 { abbr => abaB, long => σéσıßßσIς, human => "Ünïcode – name", }
            /// documented
            V146 { abbr => ßıßıσ, long => __x11xXXxx_, human => "Braces {} and {0}", }
            /// documented
            V147 { abbr => x1x1x, long => X_xx1_XXxx, human => "", }
            /// documented
            V148 { abbr => bbb, long => N636r, human => "With \"quotes\"", }
            /// documented
            Var149_aAA { abbr => _xXX, long => AbABBAb, human => "Name", }
            V150 { abbr => d, long => N1__, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V151 { abbr => K, long => ksk__ssKs, human => "name", }
            /// documented
            V152 { abbr => kkS, long => N4UrH8dBwgIa5, human => "Braces {} and {0}", }
            /// documented
            Var153_IiI { abbr => np, long => K_s, human => "tab\tand\nnewline", }
            /// documented
            V154 { abbr => xXx_, long => lDG4sLSE, human => "Plain name", }
            /// documented
            V155 { abbr => KK_, long => BBAA, human => "Braces {} and {0}", }
            V156 { abbr => N11, long => x_1, human => "tab\tand\nnewline", }
            V157 { abbr => X, long => a, human => "", }
            Var158_A { abbr => KSS_, long => sskSsSsssK, human => "", }
            /// documented
            Var159_Xx { abbr => x1__, long => ςéßéiıσς, human => "Name", }
            /// documented
            V160 { abbr => QDuO, long => xDy2i7w, human => "Name", }
            Var161_Ab { abbr => dCr, long => ıςiIiÉiiÉσ, human => "tab\tand\nnewline", }
            Var162_BbBA { abbr => N2, long => _XxxX1x___x_, human => "Name", }
            Var163__Ks { abbr => N1_1X, long => skK_kKKS, human => "", }
            Var164_kSk { abbr => _kk, long => BabbbabAbAbB, human => "Name", }
            Var165_Qw { abbr => ςÉσ, long => N1_xXX_xX11, human => "With \"quotes\"", }
            /// documented
            V166 { abbr => σéKéI, long => x_XxX_, human => "Ünïcode – name", }
            Var167_skS { abbr => OSBiK, long => aaABA, human => "Ünïcode – name", }
            Var168_Bz { abbr => N7EmY, long => x1xX_X, human => "Plain name", }
            Var169_S_Kk { abbr => xx1X, long => Sss, human => "Braces {} and {0}", }
            Var170_AcM7 { abbr => ıé, long => N1_xxx1_X_, human => "With \"quotes\"", }
            Var171_Ge { abbr => ςσKσi, long => S_Sk, human => "Braces {} and {0}", }
            /// documented
            Var172__xXX { abbr => ssS, long => AA, human => "tab\tand\nnewline", }
            /// documented
            V173 { abbr => SskS, long => _SSS, human => "", }
            /// documented
            V174 { abbr => s, long => sKkKkK, human => "tab\tand\nnewline", }
            V175 { abbr => s_, long => N11xXX_1, human => "", }
            V176 { abbr => X1X, long => N11Xx1_X_, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V177 { abbr => Xxx1, long => Éı, human => "With \"quotes\"", }
            Var178_N8 { abbr => kKkK, long => Kss, human => "tab\tand\nnewline", }
            Var179__s { abbr => J3, long => skS_sS, human => "Plain name", }
            Var180_É { abbr => S_k, long => AB0u, human => "Braces {} and {0}", }
            V181 { abbr => KkK_K, long => IÉÉKßKßßςßKσ, human => "Plain name", }
            Var182_AA { abbr => ppGr, long => XXx__1X_X1, human => "", }
            Var183_I { abbr => X1xX, long => ababB, human => "name", }
            V184 { abbr => u2X, long => baabaAbBbB, human => "Name", }
            Var185_Éß { abbr => JHZpW, long => IL6NA2Q, human => "Braces {} and {0}", }
            /// documented
            Var186_Kı { abbr => sSkK, long => N1X1_xXX__x1, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var187_aBB { abbr => BbAa, long => iı, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var188_X { abbr => Xx11, long => XxXxXx, human => "", }
            Var189_bba { abbr => x1, long => _X_xX, human => "Ünïcode – name", }
            V190 { abbr => ÉσI, long => skkSS_KK, human => "Name", }
            /// documented
            V191 { abbr => ıςKς, long => KK, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V192 { abbr => _k, long => T, human => "tab\tand\nnewline", }
            Var193_N7S { abbr => x1X_1, long => x1xXxX_x_11x, human => "Name", }
            /// documented
            V194 { abbr => IıσßK, long => x, human => "name", }
            /// documented
            Var195_abAb { abbr => Bba, long => _x, human => "Braces {} and {0}", }
            Var196_N1X_ { abbr => ksSss, long => m30, human => "", }
            V197 { abbr => Éςiıß, long => ezsA5, human => "name", }
            /// documented
            V198 { abbr => X_1, long => éßßÉ, human => "Braces {} and {0}", }
            V199 { abbr => iÉK, long => N, human => "Name", }
            Var200_AAAb { abbr => X1__, long => X1XxXX1, human => "", }
            /// documented
            V201 { abbr => k_K_, long => SK_SKkks_s, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var202_N3mv { abbr => greD, long => aBb, human => "tab\tand\nnewline", }
            /// documented
            V203 { abbr => kS, long => KtkdQ, human => "tab\tand\nnewline", }
            /// documented
            V204 { abbr => KsS, long => KIıKIiiσıς, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V205 { abbr => _XXX, long => IKÉßÉÉıÉK, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V206 { abbr => uP, long => CsIq5l3Y, human => "Name", }
            /// documented
            Var207_ς { abbr => aaAb, long => σKςKÉσσiß, human => "Braces {} and {0}", }
            /// documented
            V208 { abbr => SSkKs, long => ςéé, human => "Ünïcode – name", }
            Var209__k { abbr => ÉÉ, long => ςIßÉi, human => "Braces {} and {0}", }
            V210 { abbr => KSk, long => KSKKskK_K_SS, human => "Ünïcode – name", }
            V211 { abbr => N1x_1X, long => sKkS, human => "Name", }
            Var212_x_ { abbr => S____, long => éıßςéißIißσ, human => "Name", }
            Var213_Ogz { abbr => XSVJQ, long => MCPKWQQG, human => "Plain name", }
            Var214_S { abbr => Kıßéσ, long => __1X, human => "With \"quotes\"", }
            /// documented
            V215 { abbr => X1_Xx, long => sK_sK_Kk, human => "Plain name", }
            V216 { abbr => BAbbb, long => X111XxXX, human => "name", }
            Var217_KkK { abbr => ABbAa, long => rrfPc, human => "With \"quotes\"", }
            V218 { abbr => ßÉ, long => XX1_1, human => "With \"quotes\"", }
            V219 { abbr => ıÉß, long => éσIςßσ, human => "Braces {} and {0}", }
            Var220_x { abbr => sK_, long => QDchaq7_U, human => "Plain name", }
            Var221_bBAb { abbr => Oph, long => I, human => "Plain name", }
            V222 { abbr => N1_XX, long => IςßıIIς, human => "tab\tand\nnewline", }
            /// documented
            V223 { abbr => N9Gx, long => IÉéÉσςσıi, human => "Name", }
            Var224_Os { abbr => KKKS, long => BABaAbbbBaBA, human => "Ünïcode – name", }
            Var225_Ph { abbr => SK, long => aAAaB, human => "", }
            Var226_Kσ { abbr => KsKS, long => q2QY1LNwJY, human => "name", }
            /// documented
            Var227_X__1 { abbr => XXX, long => N1Xx, human => "Ünïcode – name", }
            /// documented
            V228 { abbr => bBBAA, long => ßσIσ, human => "With \"quotes\"", }
            V229 { abbr => BbaBb, long => baA, human => "name", }
            /// documented
            Var230_N1_ { abbr => AbaAB, long => AABBAaABbA, human => "Name", }
            V231 { abbr => Éii, long => SSs_Sks, human => "", }
            /// documented
            V232 { abbr => kK_, long => σéIéiÉIKié, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V233 { abbr => IÉı, long => aBBbBBa, human => "Name", }
            /// documented
            Var234__xx { abbr => geTDG, long => éßςßéééi, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V235 { abbr => aa, long => BaAb, human => "With \"quotes\"", }
            V236 { abbr => ssskS, long => KSSk, human => "With \"quotes\"", }
            /// documented
            V237 { abbr => uTT, long => sSS__Sk_, human => "", }
            /// documented
            Var238_x__ { abbr => ÉßσKı, long => bIxX258, human => "Name", }
            Var239_ißσK { abbr => aaA, long => SKss_K_S_Ss, human => "With \"quotes\"", }
            /// documented
            Var240_nQ { abbr => k_, long => N6d, human => "Braces {} and {0}", }
            Var241_k { abbr => N3ZZlA, long => N8sbSn, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var242_ıI { abbr => __k, long => Ks, human => "With \"quotes\"", }
            V243 { abbr => Ssk, long => Xx1x_11x, human => "", }
            /// documented
            Var244_b { abbr => Ks, long => _1_, human => "Name", }
            Var245_ßKß { abbr => ßßiςı, long => XXx1X, human => "", }
            /// documented
            V246 { abbr => éςσß, long => PiWQ0fHrh, human => "", }
            /// documented
            Var247_p { abbr => éKÉ, long => N111Xx1XX1XX, human => "Braces {} and {0}", }
            Var248_X { abbr => BBAa, long => K_, human => "Plain name", }
            Var249_ıı { abbr => N1x, long => N91t6VN, human => "Name", }
            /// documented
            V250 { abbr => ςKéσ, long => N1111x_x_, human => "name", }
            V251 { abbr => KK, long => ÉςÉ, human => "Name", }
            Var252_ks { abbr => eGYE, long => eC_6lCl5NoW, human => "With \"quotes\"", }
            V253 { abbr => Iıσ, long => aBBBAaABBBB, human => "Plain name", }
            Var254_AbB { abbr => BaaB, long => KııiσßKı, human => "Braces {} and {0}", }
            Var255_AB { abbr => Sks_S, long => sSk_kksKks_, human => "Braces {} and {0}", }
            V256 { abbr => _xX1, long => kSkks, human => "With \"quotes\"", }
            Var257_ς { abbr => x_1xx, long => Sk, human => "Braces {} and {0}", }
            /// documented
            Var258_l9 { abbr => AaAba, long => X_X1x_1, human => "", }
            /// documented
            Var259_σIı { abbr => bTAH, long => SKKs_Ks, human => "Braces {} and {0}", }
            /// documented
            V260 { abbr => _kS_S, long => f6XlCTBIx3, human => "With \"quotes\"", }
            Var261_A { abbr => Ss_S, long => sskk_KKKKk_k, human => "Ünïcode – name", }
            Var262_ßςéÉ { abbr => σßßI, long => N7M6Jbh9Cv, human => "Plain name", }
            Var263_ab { abbr => ÉKIσ, long => kK_, human => "Name", }
            /// documented
            Var264_ks { abbr => σςßi, long => X_xXX, human => "Braces {} and {0}", }
            V265 { abbr => ςIÉÉÉ, long => Skk_SSk_, human => "Plain name", }
            Var266_N3k { abbr => INM, long => xx, human => "", }
            V267 { abbr => σςı, long => aa, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            V268 { abbr => N1X_, long => x_xx, human => "name", }
            /// documented
            V269 { abbr => _xx, long => e6whommph3, human => "With \"quotes\"", }
            V270 { abbr => aaa, long => s_SksS_sKsk, human => "Ünïcode – name", }
            Var271_éIı { abbr => ßiI, long => vYcTc1WaAY, human => "With \"quotes\"", }
            Var272_N7d { abbr => pRk, long => éÉıßéßKςσ, human => "Ünïcode – name", }
            /// documented
            V273 { abbr => aABb, long => Nvzq, human => "With \"quotes\"", }
            Var274_XX_X { abbr => ÉIIς, long => Ss_s_skKkkK, human => "Ünïcode – name", }
            /// documented
            V275 { abbr => ıK, long => ÉIςσσςııσééé, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            Var276_b { abbr => _xXxx, long => aBABaABA, human => "", }
            /// documented
            Var277_B { abbr => KsK_K, long => IσßIKK, human => "name", }
            V278 { abbr => BB, long => ksSk, human => "name", }
            V279 { abbr => Nu, long => SSsKs_, human => "Name", }
            /// documented
            V280 { abbr => s_k_k, long => em0j, human => "Name", }
            V281 { abbr => _K, long => _x1_, human => "Name", }
            Var282_N0m { abbr => ıI, long => s_S, human => "Braces {} and {0}", }
            /// documented
            V283 { abbr => Iié, long => yOVyIKty, human => "With \"quotes\"", }
            Var284_Ks { abbr => σÉςi, long => iÉσıiσK, human => "name", }
            /// documented
            V285 { abbr => σKiIς, long => iKßÉßσéσςσ, human => "Name", }
            /// documented
            Var286_N11X_ { abbr => ςIIKı, long => A, human => "Ünïcode – name", }
            V287 { abbr => N1xX_, long => _1x_X1_XX_, human => "tab\tand\nnewline", }
            /// documented
            Var288_ςıßσ { abbr => K_, long => x__X1xx_x1, human => "tab\tand\nnewline", }
            V289 { abbr => ujk, long => KéiÉσı, human => "Braces {} and {0}", }
            V290 { abbr => kksK, long => bAbbbB, human => "Ünïcode – name", }
            /// documented
            V291 { abbr => Y, long => KSSKKSS, human => "tab\tand\nnewline", }
            /// documented
            Var292_ß { abbr => _X1, long => KkSKSsSSsk, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            V293 { abbr => x7zw, long => xXxxXX_1XX_x, human => "", }
            V294 { abbr => sk_Kk, long => aBBabaB, human => "With \"quotes\"", }
            /// documented
            V295 { abbr => ksK_, long => N3njjV, human => "name", }
            V296 { abbr => i9Ts9, long => N81o, human => "tab\tand\nnewline", }
            V297 { abbr => _KsKk, long => IσßéßÉß, human => "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", }
            /// documented
            Var298_AAB { abbr => ßKσK, long => ςÉςςıςé, human => "Name", }
            /// documented
            Var299_K_S { abbr => u, long => ks_k_Ss, human => "Name", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["dl", "JtjHB", "Plain name"],
        values: &[
            (P::Var0_ßI, abbr_names::KKb8, long_names::SSKkSSk, ["Var0_ßI", "KKb8", "SSKkSSk", ""]),
            (P::V1, abbr_names::ab, long_names::SSKK_KS, ["V1", "ab", "SSKK_KS", "tab\tand\nnewline"]),
            (P::V2, abbr_names::XXx1X, long_names::abAaBBAba, ["V2", "XXx1X", "abAaBBAba", "Plain name"]),
            (P::Var3_ouY, abbr_names::N1_x, long_names::N1xX, ["Var3_ouY", "N1_x", "N1xX", "With \"quotes\""]),
            (P::Var4_X, abbr_names::Xx_, long_names::___11xX1_, ["Var4_X", "Xx_", "___11xX1_", "Name"]),
            (P::Var5_eGkR, abbr_names::i, long_names::V_Vui5Uw9, ["Var5_eGkR", "i", "V_Vui5Uw9", "name"]),
            (P::Var6_abBa, abbr_names::GF, long_names::éςςKIéIıσı, ["Var6_abBa", "GF", "éςςKIéIıσı", "Name"]),
            (P::V7, abbr_names::x_x, long_names::bA, ["V7", "x_x", "bA", "Plain name"]),
            (P::V8, abbr_names::AA, long_names::Iıςı, ["V8", "AA", "Iıςı", "Name"]),
            (P::V9, abbr_names::R, long_names::σIςi, ["V9", "R", "σIςi", "Plain name"]),
            (P::Var10_K, abbr_names::Aa, long_names::S, ["Var10_K", "Aa", "S", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V11, abbr_names::bAbA, long_names::k_Kk_K_, ["V11", "bAbA", "k_Kk_K_", "Name"]),
            (P::Var12_SkKs, abbr_names::ss, long_names::JVycfiZs, ["Var12_SkKs", "ss", "JVycfiZs", "Plain name"]),
            (P::Var13_S, abbr_names::ςς, long_names::BAABb, ["Var13_S", "ςς", "BAABb", "Plain name"]),
            (P::Var14_éi, abbr_names::N1, long_names::ababbA, ["Var14_éi", "N1", "ababbA", "name"]),
            (P::Var15_xx_X, abbr_names::ABaaA, long_names::KÉσIßς, ["Var15_xx_X", "ABaaA", "KÉσIßς", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var16_N1X_1, abbr_names::BbAb, long_names::JYA0BV7, ["Var16_N1X_1", "BbAb", "JYA0BV7", "Plain name"]),
            (P::V17, abbr_names::S_, long_names::__xX_, ["V17", "S_", "__xX_", "Plain name"]),
            (P::Var18_X, abbr_names::xx, long_names::KıiIIßÉiéIÉé, ["Var18_X", "xx", "KıiIIßÉiéIÉé", "tab\tand\nnewline"]),
            (P::Var19_aBa, abbr_names::sSS, long_names::_xx_XxXX1, ["Var19_aBa", "sSS", "_xx_XxXX1", "name"]),
            (P::Var20_ς, abbr_names::N9z, long_names::N1_X1_X1_, ["Var20_ς", "N9z", "N1_X1_X1_", "tab\tand\nnewline"]),
            (P::V21, abbr_names::x, long_names::N05KIjaB204A, ["V21", "x", "N05KIjaB204A", "With \"quotes\""]),
            (P::Var22_s, abbr_names::bAAA, long_names::N1Xx1, ["Var22_s", "bAAA", "N1Xx1", "Ünïcode – name"]),
            (P::Var23_heh7, abbr_names::baB, long_names::KÉßiσÉKIß, ["Var23_heh7", "baB", "KÉßiσÉKIß", "Ünïcode – name"]),
            (P::Var24_axVW, abbr_names::o, long_names::xX1_X1X1x_X_, ["Var24_axVW", "o", "xX1_X1X1x_X_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var25_bbBa, abbr_names::_k_K, long_names::aMlVetYHW2E6, ["Var25_bbBa", "_k_K", "aMlVetYHW2E6", "tab\tand\nnewline"]),
            (P::Var26_ÉKı, abbr_names::N, long_names::qXlrNZCo, ["Var26_ÉKı", "N", "qXlrNZCo", "With \"quotes\""]),
            (P::V27, abbr_names::abBBB, long_names::N1__xxx__1_11, ["V27", "abBBB", "N1__xxx__1_11", "With \"quotes\""]),
            (P::Var28_bB, abbr_names::σıÉéς, long_names::x1x1X11x1_1, ["Var28_bB", "σıÉéς", "x1x1X11x1_1", "With \"quotes\""]),
            (P::V29, abbr_names::s__S, long_names::ksSsk_k, ["V29", "s__S", "ksSsk_k", "Plain name"]),
            (P::Var30_xX_, abbr_names::S_ks_, long_names::iςıKÉÉıς, ["Var30_xX_", "S_ks_", "iςıKÉÉıς", ""]),
            (P::V31, abbr_names::X1X1_, long_names::Aabb, ["V31", "X1X1_", "Aabb", ""]),
            (P::Var32__x_, abbr_names::N2eI, long_names::bb, ["Var32__x_", "N2eI", "bb", "name"]),
            (P::Var33_bA, abbr_names::_1X, long_names::s, ["Var33_bA", "_1X", "s", "Name"]),
            (P::Var34_ÉI, abbr_names::xx11, long_names::kkS_S_SKSSsS, ["Var34_ÉI", "xx11", "kkS_S_SKSSsS", "tab\tand\nnewline"]),
            (P::Var35_abb, abbr_names::_1_x, long_names::BBAaAbBaA, ["Var35_abb", "_1_x", "BBAaAbBaA", "Name"]),
            (P::V36, abbr_names::N1X__x, long_names::SK, ["V36", "N1X__x", "SK", "tab\tand\nnewline"]),
            (P::Var37_Ba, abbr_names::xv3, long_names::kSk_kKS_S_, ["Var37_Ba", "xv3", "kSk_kKS_S_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var38_Kkk, abbr_names::bbAbB, long_names::_lr, ["Var38_Kkk", "bbAbB", "_lr", "With \"quotes\""]),
            (P::V39, abbr_names::ßς, long_names::Ab, ["V39", "ßς", "Ab", "tab\tand\nnewline"]),
            (P::Var40_k, abbr_names::BBaBb, long_names::éσKKσ, ["Var40_k", "BBaBb", "éσKKσ", ""]),
            (P::V41, abbr_names::W97d, long_names::kkSKS_kK_K, ["V41", "W97d", "kkSKS_kK_K", "Name"]),
            (P::V42, abbr_names::N1x1, long_names::ÉIςK, ["V42", "N1x1", "ÉIςK", "With \"quotes\""]),
            (P::V43, abbr_names::BBbAA, long_names::SskKk, ["V43", "BBbAA", "SskKk", "name"]),
            (P::Var44_N2, abbr_names::T, long_names::XX, ["Var44_N2", "T", "XX", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V45, abbr_names::N1J3cW, long_names::byDGzjm5BH, ["V45", "N1J3cW", "byDGzjm5BH", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var46_i, abbr_names::b, long_names::AB, ["Var46_i", "b", "AB", "Braces {} and {0}"]),
            (P::Var47_VYj, abbr_names::σ, long_names::kSSSK_Kk_skk, ["Var47_VYj", "σ", "kSSSK_Kk_skk", "Ünïcode – name"]),
            (P::Var48_AAbb, abbr_names::___xx, long_names::IÉııσÉi, ["Var48_AAbb", "___xx", "IÉııσÉi", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var49_bCiS, abbr_names::s_K, long_names::ßσKßééiσ, ["Var49_bCiS", "s_K", "ßσKßééiσ", "Braces {} and {0}"]),
            (P::V50, abbr_names::Bb, long_names::ıIéı, ["V50", "Bb", "ıIéı", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var51_σ, abbr_names::c, long_names::_s_k_kSk, ["Var51_σ", "c", "_s_k_kSk", ""]),
            (P::Var52_VMr, abbr_names::zk, long_names::ııσéς, ["Var52_VMr", "zk", "ııσéς", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V53, abbr_names::Xu0z8, long_names::xX, ["V53", "Xu0z8", "xX", "Ünïcode – name"]),
            (P::V54, abbr_names::ZHM, long_names::N1_, ["V54", "ZHM", "N1_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V55, abbr_names::AB, long_names::éςÉKiı, ["V55", "AB", "éςÉKiı", "Ünïcode – name"]),
            (P::Var56_WfN, abbr_names::bAab, long_names::MzwiQjrc9, ["Var56_WfN", "bAab", "MzwiQjrc9", "Braces {} and {0}"]),
            (P::V57, abbr_names::babB, long_names::K, ["V57", "babB", "K", "Name"]),
            (P::Var58_S, abbr_names::S, long_names::_SsK__kK_, ["Var58_S", "S", "_SsK__kK_", "Plain name"]),
            (P::Var59_ıßı, abbr_names::aba, long_names::Z4FgygcF, ["Var59_ıßı", "aba", "Z4FgygcF", ""]),
            (P::Var60_N1_, abbr_names::Hga_m, long_names::éÉéIKς, ["Var60_N1_", "Hga_m", "éÉéIKς", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var61_ks, abbr_names::drD9S, long_names::N11Xx1x, ["Var61_ks", "drD9S", "N11Xx1x", "With \"quotes\""]),
            (P::V62, abbr_names::xX1Xx, long_names::baBBBBbBAA, ["V62", "xX1Xx", "baBBBBbBAA", "Plain name"]),
            (P::Var63_éσß, abbr_names::__1, long_names::x1_1__X__XX, ["Var63_éσß", "__1", "x1_1__X__XX", "With \"quotes\""]),
            (P::V64, abbr_names::aBbAB, long_names::B, ["V64", "aBbAB", "B", ""]),
            (P::V65, abbr_names::N0VZ, long_names::kk_SsSSK, ["V65", "N0VZ", "kk_SsSSK", "With \"quotes\""]),
            (P::V66, abbr_names::KßÉςı, long_names::BABA, ["V66", "KßÉςı", "BABA", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V67, abbr_names::ς, long_names::x1XX_, ["V67", "ς", "x1XX_", "name"]),
            (P::V68, abbr_names::Babaa, long_names::éς, ["V68", "Babaa", "éς", "Ünïcode – name"]),
            (P::V69, abbr_names::N11xx, long_names::R_jtz, ["V69", "N11xx", "R_jtz", "tab\tand\nnewline"]),
            (P::V70, abbr_names::AABa, long_names::σiσßißÉß, ["V70", "AABa", "σiσßißÉß", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var71_EM, abbr_names::N1_, long_names::BBbABbAaAA, ["Var71_EM", "N1_", "BBbABbAaAA", "Ünïcode – name"]),
            (P::Var72_BHx5, abbr_names::ßI, long_names::ss__S_S_kSS_, ["Var72_BHx5", "ßI", "ss__S_S_kSS_", ""]),
            (P::V73, abbr_names::Jnr, long_names::LrLsPQN, ["V73", "Jnr", "LrLsPQN", "Plain name"]),
            (P::Var74_é, abbr_names::n, long_names::abbaAB, ["Var74_é", "n", "abbaAB", "tab\tand\nnewline"]),
            (P::Var75___k, abbr_names::bB, long_names::iIςß, ["Var75___k", "bB", "iIςß", "Braces {} and {0}"]),
            (P::Var76_AbA, abbr_names::ß, long_names::IÉéKiσσσK, ["Var76_AbA", "ß", "IÉéKiσσσK", "With \"quotes\""]),
            (P::V77, abbr_names::σσ, long_names::KßéßKéσéß, ["V77", "σσ", "KßéßKéσéß", ""]),
            (P::Var78_hG, abbr_names::iéKςı, long_names::X1, ["Var78_hG", "iéKςı", "X1", "With \"quotes\""]),
            (P::Var79_AaA, abbr_names::aB, long_names::x11x__11, ["Var79_AaA", "aB", "x11x__11", "name"]),
            (P::V80, abbr_names::KS, long_names::ééÉσKςÉÉI, ["V80", "KS", "ééÉσKςÉÉI", "Name"]),
            (P::V81, abbr_names::k_skK, long_names::__1xX1___X_1, ["V81", "k_skK", "__1xX1___X_1", "With \"quotes\""]),
            (P::V82, abbr_names::ıßé, long_names::hm, ["V82", "ıßé", "hm", "name"]),
            (P::Var83_ÉÉ, abbr_names::IiÉß, long_names::gPg3, ["Var83_ÉÉ", "IiÉß", "gPg3", ""]),
            (P::V84, abbr_names::dd, long_names::BB, ["V84", "dd", "BB", "With \"quotes\""]),
            (P::Var85_Z, abbr_names::Ba, long_names::XXxX, ["Var85_Z", "Ba", "XXxX", "With \"quotes\""]),
            (P::Var86_ks_S, abbr_names::aA, long_names::ßI, ["Var86_ks_S", "aA", "ßI", "Braces {} and {0}"]),
            (P::Var87_ha, abbr_names::sks, long_names::bbaaAaBaB, ["Var87_ha", "sks", "bbaaAaBaB", "Name"]),
            (P::Var88_Ks, abbr_names::_x1, long_names::SsSk, ["Var88_Ks", "_x1", "SsSk", "name"]),
            (P::V89, abbr_names::BAbb, long_names::baAbbaBABA, ["V89", "BAbb", "baAbbaBABA", "name"]),
            (P::Var90_aBBA, abbr_names::ıiiσ, long_names::bbabaB, ["Var90_aBBA", "ıiiσ", "bbabaB", "tab\tand\nnewline"]),
            (P::Var91_Zky, abbr_names::__x, long_names::KsSs_S_Skkk, ["Var91_Zky", "__x", "KsSs_S_Skkk", "Braces {} and {0}"]),
            (P::Var92_aab, abbr_names::_Kkk, long_names::XXX1XXxX1x1_, ["Var92_aab", "_Kkk", "XXX1XXxX1x1_", "name"]),
            (P::Var93_ςσéK, abbr_names::aAAa, long_names::ABbbbb, ["Var93_ςσéK", "aAAa", "ABbbbb", "Name"]),
            (P::V94, abbr_names::X__X1, long_names::yxYDL22, ["V94", "X__X1", "yxYDL22", "With \"quotes\""]),
            (P::Var95_S, abbr_names::É, long_names::FU_x9jAhgp_, ["Var95_S", "É", "FU_x9jAhgp_", "Name"]),
            (P::V96, abbr_names::a, long_names::__KSsS, ["V96", "a", "__KSsS", "Name"]),
            (P::V97, abbr_names::SKKKK, long_names::rCDMrROtXJpn, ["V97", "SKKKK", "rCDMrROtXJpn", "Name"]),
            (P::Var98_r08l, abbr_names::XX, long_names::ςσß, ["Var98_r08l", "XX", "ςσß", "name"]),
            (P::Var99_n3, abbr_names::AaB, long_names::aaABaaaaaBB, ["Var99_n3", "AaB", "aaABaaaaaBB", "With \"quotes\""]),
            (P::Var100_SS, abbr_names::Kıσ, long_names::IςiςııÉı, ["Var100_SS", "Kıσ", "IςiςııÉı", "Braces {} and {0}"]),
            (P::Var101_Iıςé, abbr_names::sSk, long_names::KKkKkSs, ["Var101_Iıςé", "sSk", "KKkKkSs", "Plain name"]),
            (P::V102, abbr_names::ßßıÉ, long_names::X, ["V102", "ßßıÉ", "X", ""]),
            (P::Var103_N4b, abbr_names::BAa, long_names::fae, ["Var103_N4b", "BAa", "fae", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var104_X, abbr_names::N9DXu, long_names::BbaaBAAbabAb, ["Var104_X", "N9DXu", "BbaaBAAbabAb", "Braces {} and {0}"]),
            (P::V105, abbr_names::B, long_names::Baa, ["V105", "B", "Baa", "Name"]),
            (P::Var106_XX1x, abbr_names::N1ixG6, long_names::BbB, ["Var106_XX1x", "N1ixG6", "BbB", ""]),
            (P::V107, abbr_names::Ab, long_names::b, ["V107", "Ab", "b", "With \"quotes\""]),
            (P::V108, abbr_names::KσiıK, long_names::ςςéiσ, ["V108", "KσiıK", "ςςéiσ", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V109, abbr_names::A, long_names::ıÉÉIÉéσÉé, ["V109", "A", "ıÉÉIÉéσÉé", "tab\tand\nnewline"]),
            (P::V110, abbr_names::BA, long_names::BBbBB, ["V110", "BA", "BBbBB", "Braces {} and {0}"]),
            (P::Var111_kk_, abbr_names::XX11, long_names::_skS_kSkK_, ["Var111_kk_", "XX11", "_skS_kSkK_", "Plain name"]),
            (P::V112, abbr_names::IIIé, long_names::j410b57IoN67, ["V112", "IIIé", "j410b57IoN67", "name"]),
            (P::Var113_éKßé, abbr_names::sS, long_names::X_xxxXX11_, ["Var113_éKßé", "sS", "X_xxxXX11_", "name"]),
            (P::Var114_mfB0, abbr_names::ςı, long_names::N11_X, ["Var114_mfB0", "ςı", "N11_X", "name"]),
            (P::V115, abbr_names::BBbB, long_names::L, ["V115", "BBbB", "L", "name"]),
            (P::V116, abbr_names::N09, long_names::N7P_N, ["V116", "N09", "N7P_N", "name"]),
            (P::V117, abbr_names::SSK, long_names::Kıi, ["V117", "SSK", "Kıi", "Plain name"]),
            (P::Var118_k, abbr_names::SSKk, long_names::aaABaaaaAaBa, ["Var118_k", "SSKk", "aaABaaaaAaBa", "Braces {} and {0}"]),
            (P::Var119_x_, abbr_names::K__, long_names::iKÉıiσ, ["Var119_x_", "K__", "iKÉıiσ", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var120_xI7, abbr_names::ςÉς, long_names::É, ["Var120_xI7", "ςÉς", "É", "Ünïcode – name"]),
            (P::V121, abbr_names::E0, long_names::σıKıÉıiK, ["V121", "E0", "σıKıÉıiK", "Name"]),
            (P::Var122_sSKk, abbr_names::k, long_names::ÉßKéσς, ["Var122_sSKk", "k", "ÉßKéσς", "Ünïcode – name"]),
            (P::Var123_BAba, abbr_names::TUq, long_names::aaBbbaAaAB, ["Var123_BAba", "TUq", "aaBbbaAaAB", "With \"quotes\""]),
            (P::Var124_P, abbr_names::_xX5p, long_names::x_x, ["Var124_P", "_xX5p", "x_x", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V125, abbr_names::_X, long_names::ißÉiIßéßI, ["V125", "_X", "ißÉiIßéßI", "name"]),
            (P::Var126_N1X_, abbr_names::X11x, long_names::_x1Xx_X1Xx1_, ["Var126_N1X_", "X11x", "_x1Xx_X1Xx1_", "Ünïcode – name"]),
            (P::Var127___xX, abbr_names::N11x_1, long_names::Éıσß, ["Var127___xX", "N11x_1", "Éıσß", "Braces {} and {0}"]),
            (P::Var128_N1, abbr_names::N1X_X, long_names::K2, ["Var128_N1", "N1X_X", "K2", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V129, abbr_names::ı, long_names::qvxSjm, ["V129", "ı", "qvxSjm", "Braces {} and {0}"]),
            (P::V130, abbr_names::I, long_names::éK, ["V130", "I", "éK", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V131, abbr_names::ÉKKIß, long_names::XxXX_x_, ["V131", "ÉKKIß", "XxXX_x_", "tab\tand\nnewline"]),
            (P::V132, abbr_names::p, long_names::KςIKiéßI, ["V132", "p", "KςIKiéßI", "Ünïcode – name"]),
            (P::V133, abbr_names::fah, long_names::baBbAA, ["V133", "fah", "baBbAA", "Braces {} and {0}"]),
            (P::V134, abbr_names::aBBBa, long_names::KÉςißKßKKié, ["V134", "aBBBa", "KÉςißKßKKié", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var135_K_S, abbr_names::_kks, long_names::abAabAaBa, ["Var135_K_S", "_kks", "abAabAaBa", "Plain name"]),
            (P::Var136_N1XX1, abbr_names::IsyU, long_names::BABBabBb, ["Var136_N1XX1", "IsyU", "BABBabBb", "With \"quotes\""]),
            (P::V137, abbr_names::uVwe, long_names::N1Xx_1, ["V137", "uVwe", "N1Xx_1", "tab\tand\nnewline"]),
            (P::Var138_ißI, abbr_names::vZDYo, long_names::ς, ["Var138_ißI", "vZDYo", "ς", "Ünïcode – name"]),
            (P::Var139__k, abbr_names::gDZlY, long_names::ÉIÉiı, ["Var139__k", "gDZlY", "ÉIÉiı", "name"]),
            (P::V140, abbr_names::bBAb, long_names::gYj, ["V140", "bBAb", "gYj", "With \"quotes\""]),
            (P::V141, abbr_names::s_S, long_names::sKKKk_ksKsk, ["V141", "s_S", "sKKKk_ksKsk", "tab\tand\nnewline"]),
            (P::Var142_éKσς, abbr_names::σÉßi, long_names::K__, ["Var142_éKσς", "σÉßi", "K__", "Braces {} and {0}"]),
            (P::V143, abbr_names::qq, long_names::ez3w0Hep, ["V143", "qq", "ez3w0Hep", "With \"quotes\""]),
            (P::Var144__1Xx, abbr_names::_Ks, long_names::ABba, ["Var144__1Xx", "_Ks", "ABba", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V145, abbr_names::abaB, long_names::σéσıßßσIς, ["V145", "abaB", "σéσıßßσIς", "Ünïcode – name"]),
            (P::V146, abbr_names::ßıßıσ, long_names::__x11xXXxx_, ["V146", "ßıßıσ", "__x11xXXxx_", "Braces {} and {0}"]),
            (P::V147, abbr_names::x1x1x, long_names::X_xx1_XXxx, ["V147", "x1x1x", "X_xx1_XXxx", ""]),
            (P::V148, abbr_names::bbb, long_names::N636r, ["V148", "bbb", "N636r", "With \"quotes\""]),
            (P::Var149_aAA, abbr_names::_xXX, long_names::AbABBAb, ["Var149_aAA", "_xXX", "AbABBAb", "Name"]),
            (P::V150, abbr_names::d, long_names::N1__, ["V150", "d", "N1__", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V151, abbr_names::K, long_names::ksk__ssKs, ["V151", "K", "ksk__ssKs", "name"]),
            (P::V152, abbr_names::kkS, long_names::N4UrH8dBwgIa5, ["V152", "kkS", "N4UrH8dBwgIa5", "Braces {} and {0}"]),
            (P::Var153_IiI, abbr_names::np, long_names::K_s, ["Var153_IiI", "np", "K_s", "tab\tand\nnewline"]),
            (P::V154, abbr_names::xXx_, long_names::lDG4sLSE, ["V154", "xXx_", "lDG4sLSE", "Plain name"]),
            (P::V155, abbr_names::KK_, long_names::BBAA, ["V155", "KK_", "BBAA", "Braces {} and {0}"]),
            (P::V156, abbr_names::N11, long_names::x_1, ["V156", "N11", "x_1", "tab\tand\nnewline"]),
            (P::V157, abbr_names::X, long_names::a, ["V157", "X", "a", ""]),
            (P::Var158_A, abbr_names::KSS_, long_names::sskSsSsssK, ["Var158_A", "KSS_", "sskSsSsssK", ""]),
            (P::Var159_Xx, abbr_names::x1__, long_names::ςéßéiıσς, ["Var159_Xx", "x1__", "ςéßéiıσς", "Name"]),
            (P::V160, abbr_names::QDuO, long_names::xDy2i7w, ["V160", "QDuO", "xDy2i7w", "Name"]),
            (P::Var161_Ab, abbr_names::dCr, long_names::ıςiIiÉiiÉσ, ["Var161_Ab", "dCr", "ıςiIiÉiiÉσ", "tab\tand\nnewline"]),
            (P::Var162_BbBA, abbr_names::N2, long_names::_XxxX1x___x_, ["Var162_BbBA", "N2", "_XxxX1x___x_", "Name"]),
            (P::Var163__Ks, abbr_names::N1_1X, long_names::skK_kKKS, ["Var163__Ks", "N1_1X", "skK_kKKS", ""]),
            (P::Var164_kSk, abbr_names::_kk, long_names::BabbbabAbAbB, ["Var164_kSk", "_kk", "BabbbabAbAbB", "Name"]),
            (P::Var165_Qw, abbr_names::ςÉσ, long_names::N1_xXX_xX11, ["Var165_Qw", "ςÉσ", "N1_xXX_xX11", "With \"quotes\""]),
            (P::V166, abbr_names::σéKéI, long_names::x_XxX_, ["V166", "σéKéI", "x_XxX_", "Ünïcode – name"]),
            (P::Var167_skS, abbr_names::OSBiK, long_names::aaABA, ["Var167_skS", "OSBiK", "aaABA", "Ünïcode – name"]),
            (P::Var168_Bz, abbr_names::N7EmY, long_names::x1xX_X, ["Var168_Bz", "N7EmY", "x1xX_X", "Plain name"]),
            (P::Var169_S_Kk, abbr_names::xx1X, long_names::Sss, ["Var169_S_Kk", "xx1X", "Sss", "Braces {} and {0}"]),
            (P::Var170_AcM7, abbr_names::ıé, long_names::N1_xxx1_X_, ["Var170_AcM7", "ıé", "N1_xxx1_X_", "With \"quotes\""]),
            (P::Var171_Ge, abbr_names::ςσKσi, long_names::S_Sk, ["Var171_Ge", "ςσKσi", "S_Sk", "Braces {} and {0}"]),
            (P::Var172__xXX, abbr_names::ssS, long_names::AA, ["Var172__xXX", "ssS", "AA", "tab\tand\nnewline"]),
            (P::V173, abbr_names::SskS, long_names::_SSS, ["V173", "SskS", "_SSS", ""]),
            (P::V174, abbr_names::s, long_names::sKkKkK, ["V174", "s", "sKkKkK", "tab\tand\nnewline"]),
            (P::V175, abbr_names::s_, long_names::N11xXX_1, ["V175", "s_", "N11xXX_1", ""]),
            (P::V176, abbr_names::X1X, long_names::N11Xx1_X_, ["V176", "X1X", "N11Xx1_X_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V177, abbr_names::Xxx1, long_names::Éı, ["V177", "Xxx1", "Éı", "With \"quotes\""]),
            (P::Var178_N8, abbr_names::kKkK, long_names::Kss, ["Var178_N8", "kKkK", "Kss", "tab\tand\nnewline"]),
            (P::Var179__s, abbr_names::J3, long_names::skS_sS, ["Var179__s", "J3", "skS_sS", "Plain name"]),
            (P::Var180_É, abbr_names::S_k, long_names::AB0u, ["Var180_É", "S_k", "AB0u", "Braces {} and {0}"]),
            (P::V181, abbr_names::KkK_K, long_names::IÉÉKßKßßςßKσ, ["V181", "KkK_K", "IÉÉKßKßßςßKσ", "Plain name"]),
            (P::Var182_AA, abbr_names::ppGr, long_names::XXx__1X_X1, ["Var182_AA", "ppGr", "XXx__1X_X1", ""]),
            (P::Var183_I, abbr_names::X1xX, long_names::ababB, ["Var183_I", "X1xX", "ababB", "name"]),
            (P::V184, abbr_names::u2X, long_names::baabaAbBbB, ["V184", "u2X", "baabaAbBbB", "Name"]),
            (P::Var185_Éß, abbr_names::JHZpW, long_names::IL6NA2Q, ["Var185_Éß", "JHZpW", "IL6NA2Q", "Braces {} and {0}"]),
            (P::Var186_Kı, abbr_names::sSkK, long_names::N1X1_xXX__x1, ["Var186_Kı", "sSkK", "N1X1_xXX__x1", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var187_aBB, abbr_names::BbAa, long_names::iı, ["Var187_aBB", "BbAa", "iı", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var188_X, abbr_names::Xx11, long_names::XxXxXx, ["Var188_X", "Xx11", "XxXxXx", ""]),
            (P::Var189_bba, abbr_names::x1, long_names::_X_xX, ["Var189_bba", "x1", "_X_xX", "Ünïcode – name"]),
            (P::V190, abbr_names::ÉσI, long_names::skkSS_KK, ["V190", "ÉσI", "skkSS_KK", "Name"]),
            (P::V191, abbr_names::ıςKς, long_names::KK, ["V191", "ıςKς", "KK", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V192, abbr_names::_k, long_names::T, ["V192", "_k", "T", "tab\tand\nnewline"]),
            (P::Var193_N7S, abbr_names::x1X_1, long_names::x1xXxX_x_11x, ["Var193_N7S", "x1X_1", "x1xXxX_x_11x", "Name"]),
            (P::V194, abbr_names::IıσßK, long_names::x, ["V194", "IıσßK", "x", "name"]),
            (P::Var195_abAb, abbr_names::Bba, long_names::_x, ["Var195_abAb", "Bba", "_x", "Braces {} and {0}"]),
            (P::Var196_N1X_, abbr_names::ksSss, long_names::m30, ["Var196_N1X_", "ksSss", "m30", ""]),
            (P::V197, abbr_names::Éςiıß, long_names::ezsA5, ["V197", "Éςiıß", "ezsA5", "name"]),
            (P::V198, abbr_names::X_1, long_names::éßßÉ, ["V198", "X_1", "éßßÉ", "Braces {} and {0}"]),
            (P::V199, abbr_names::iÉK, long_names::N, ["V199", "iÉK", "N", "Name"]),
            (P::Var200_AAAb, abbr_names::X1__, long_names::X1XxXX1, ["Var200_AAAb", "X1__", "X1XxXX1", ""]),
            (P::V201, abbr_names::k_K_, long_names::SK_SKkks_s, ["V201", "k_K_", "SK_SKkks_s", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var202_N3mv, abbr_names::greD, long_names::aBb, ["Var202_N3mv", "greD", "aBb", "tab\tand\nnewline"]),
            (P::V203, abbr_names::kS, long_names::KtkdQ, ["V203", "kS", "KtkdQ", "tab\tand\nnewline"]),
            (P::V204, abbr_names::KsS, long_names::KIıKIiiσıς, ["V204", "KsS", "KIıKIiiσıς", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V205, abbr_names::_XXX, long_names::IKÉßÉÉıÉK, ["V205", "_XXX", "IKÉßÉÉıÉK", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V206, abbr_names::uP, long_names::CsIq5l3Y, ["V206", "uP", "CsIq5l3Y", "Name"]),
            (P::Var207_ς, abbr_names::aaAb, long_names::σKςKÉσσiß, ["Var207_ς", "aaAb", "σKςKÉσσiß", "Braces {} and {0}"]),
            (P::V208, abbr_names::SSkKs, long_names::ςéé, ["V208", "SSkKs", "ςéé", "Ünïcode – name"]),
            (P::Var209__k, abbr_names::ÉÉ, long_names::ςIßÉi, ["Var209__k", "ÉÉ", "ςIßÉi", "Braces {} and {0}"]),
            (P::V210, abbr_names::KSk, long_names::KSKKskK_K_SS, ["V210", "KSk", "KSKKskK_K_SS", "Ünïcode – name"]),
            (P::V211, abbr_names::N1x_1X, long_names::sKkS, ["V211", "N1x_1X", "sKkS", "Name"]),
            (P::Var212_x_, abbr_names::S____, long_names::éıßςéißIißσ, ["Var212_x_", "S____", "éıßςéißIißσ", "Name"]),
            (P::Var213_Ogz, abbr_names::XSVJQ, long_names::MCPKWQQG, ["Var213_Ogz", "XSVJQ", "MCPKWQQG", "Plain name"]),
            (P::Var214_S, abbr_names::Kıßéσ, long_names::__1X, ["Var214_S", "Kıßéσ", "__1X", "With \"quotes\""]),
            (P::V215, abbr_names::X1_Xx, long_names::sK_sK_Kk, ["V215", "X1_Xx", "sK_sK_Kk", "Plain name"]),
            (P::V216, abbr_names::BAbbb, long_names::X111XxXX, ["V216", "BAbbb", "X111XxXX", "name"]),
            (P::Var217_KkK, abbr_names::ABbAa, long_names::rrfPc, ["Var217_KkK", "ABbAa", "rrfPc", "With \"quotes\""]),
            (P::V218, abbr_names::ßÉ, long_names::XX1_1, ["V218", "ßÉ", "XX1_1", "With \"quotes\""]),
            (P::V219, abbr_names::ıÉß, long_names::éσIςßσ, ["V219", "ıÉß", "éσIςßσ", "Braces {} and {0}"]),
            (P::Var220_x, abbr_names::sK_, long_names::QDchaq7_U, ["Var220_x", "sK_", "QDchaq7_U", "Plain name"]),
            (P::Var221_bBAb, abbr_names::Oph, long_names::I, ["Var221_bBAb", "Oph", "I", "Plain name"]),
            (P::V222, abbr_names::N1_XX, long_names::IςßıIIς, ["V222", "N1_XX", "IςßıIIς", "tab\tand\nnewline"]),
            (P::V223, abbr_names::N9Gx, long_names::IÉéÉσςσıi, ["V223", "N9Gx", "IÉéÉσςσıi", "Name"]),
            (P::Var224_Os, abbr_names::KKKS, long_names::BABaAbbbBaBA, ["Var224_Os", "KKKS", "BABaAbbbBaBA", "Ünïcode – name"]),
            (P::Var225_Ph, abbr_names::SK, long_names::aAAaB, ["Var225_Ph", "SK", "aAAaB", ""]),
            (P::Var226_Kσ, abbr_names::KsKS, long_names::q2QY1LNwJY, ["Var226_Kσ", "KsKS", "q2QY1LNwJY", "name"]),
            (P::Var227_X__1, abbr_names::XXX, long_names::N1Xx, ["Var227_X__1", "XXX", "N1Xx", "Ünïcode – name"]),
            (P::V228, abbr_names::bBBAA, long_names::ßσIσ, ["V228", "bBBAA", "ßσIσ", "With \"quotes\""]),
            (P::V229, abbr_names::BbaBb, long_names::baA, ["V229", "BbaBb", "baA", "name"]),
            (P::Var230_N1_, abbr_names::AbaAB, long_names::AABBAaABbA, ["Var230_N1_", "AbaAB", "AABBAaABbA", "Name"]),
            (P::V231, abbr_names::Éii, long_names::SSs_Sks, ["V231", "Éii", "SSs_Sks", ""]),
            (P::V232, abbr_names::kK_, long_names::σéIéiÉIKié, ["V232", "kK_", "σéIéiÉIKié", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V233, abbr_names::IÉı, long_names::aBBbBBa, ["V233", "IÉı", "aBBbBBa", "Name"]),
            (P::Var234__xx, abbr_names::geTDG, long_names::éßςßéééi, ["Var234__xx", "geTDG", "éßςßéééi", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V235, abbr_names::aa, long_names::BaAb, ["V235", "aa", "BaAb", "With \"quotes\""]),
            (P::V236, abbr_names::ssskS, long_names::KSSk, ["V236", "ssskS", "KSSk", "With \"quotes\""]),
            (P::V237, abbr_names::uTT, long_names::sSS__Sk_, ["V237", "uTT", "sSS__Sk_", ""]),
            (P::Var238_x__, abbr_names::ÉßσKı, long_names::bIxX258, ["Var238_x__", "ÉßσKı", "bIxX258", "Name"]),
            (P::Var239_ißσK, abbr_names::aaA, long_names::SKss_K_S_Ss, ["Var239_ißσK", "aaA", "SKss_K_S_Ss", "With \"quotes\""]),
            (P::Var240_nQ, abbr_names::k_, long_names::N6d, ["Var240_nQ", "k_", "N6d", "Braces {} and {0}"]),
            (P::Var241_k, abbr_names::N3ZZlA, long_names::N8sbSn, ["Var241_k", "N3ZZlA", "N8sbSn", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var242_ıI, abbr_names::__k, long_names::Ks, ["Var242_ıI", "__k", "Ks", "With \"quotes\""]),
            (P::V243, abbr_names::Ssk, long_names::Xx1x_11x, ["V243", "Ssk", "Xx1x_11x", ""]),
            (P::Var244_b, abbr_names::Ks, long_names::_1_, ["Var244_b", "Ks", "_1_", "Name"]),
            (P::Var245_ßKß, abbr_names::ßßiςı, long_names::XXx1X, ["Var245_ßKß", "ßßiςı", "XXx1X", ""]),
            (P::V246, abbr_names::éςσß, long_names::PiWQ0fHrh, ["V246", "éςσß", "PiWQ0fHrh", ""]),
            (P::Var247_p, abbr_names::éKÉ, long_names::N111Xx1XX1XX, ["Var247_p", "éKÉ", "N111Xx1XX1XX", "Braces {} and {0}"]),
            (P::Var248_X, abbr_names::BBAa, long_names::K_, ["Var248_X", "BBAa", "K_", "Plain name"]),
            (P::Var249_ıı, abbr_names::N1x, long_names::N91t6VN, ["Var249_ıı", "N1x", "N91t6VN", "Name"]),
            (P::V250, abbr_names::ςKéσ, long_names::N1111x_x_, ["V250", "ςKéσ", "N1111x_x_", "name"]),
            (P::V251, abbr_names::KK, long_names::ÉςÉ, ["V251", "KK", "ÉςÉ", "Name"]),
            (P::Var252_ks, abbr_names::eGYE, long_names::eC_6lCl5NoW, ["Var252_ks", "eGYE", "eC_6lCl5NoW", "With \"quotes\""]),
            (P::V253, abbr_names::Iıσ, long_names::aBBBAaABBBB, ["V253", "Iıσ", "aBBBAaABBBB", "Plain name"]),
            (P::Var254_AbB, abbr_names::BaaB, long_names::KııiσßKı, ["Var254_AbB", "BaaB", "KııiσßKı", "Braces {} and {0}"]),
            (P::Var255_AB, abbr_names::Sks_S, long_names::sSk_kksKks_, ["Var255_AB", "Sks_S", "sSk_kksKks_", "Braces {} and {0}"]),
            (P::V256, abbr_names::_xX1, long_names::kSkks, ["V256", "_xX1", "kSkks", "With \"quotes\""]),
            (P::Var257_ς, abbr_names::x_1xx, long_names::Sk, ["Var257_ς", "x_1xx", "Sk", "Braces {} and {0}"]),
            (P::Var258_l9, abbr_names::AaAba, long_names::X_X1x_1, ["Var258_l9", "AaAba", "X_X1x_1", ""]),
            (P::Var259_σIı, abbr_names::bTAH, long_names::SKKs_Ks, ["Var259_σIı", "bTAH", "SKKs_Ks", "Braces {} and {0}"]),
            (P::V260, abbr_names::_kS_S, long_names::f6XlCTBIx3, ["V260", "_kS_S", "f6XlCTBIx3", "With \"quotes\""]),
            (P::Var261_A, abbr_names::Ss_S, long_names::sskk_KKKKk_k, ["Var261_A", "Ss_S", "sskk_KKKKk_k", "Ünïcode – name"]),
            (P::Var262_ßςéÉ, abbr_names::σßßI, long_names::N7M6Jbh9Cv, ["Var262_ßςéÉ", "σßßI", "N7M6Jbh9Cv", "Plain name"]),
            (P::Var263_ab, abbr_names::ÉKIσ, long_names::kK_, ["Var263_ab", "ÉKIσ", "kK_", "Name"]),
            (P::Var264_ks, abbr_names::σςßi, long_names::X_xXX, ["Var264_ks", "σςßi", "X_xXX", "Braces {} and {0}"]),
            (P::V265, abbr_names::ςIÉÉÉ, long_names::Skk_SSk_, ["V265", "ςIÉÉÉ", "Skk_SSk_", "Plain name"]),
            (P::Var266_N3k, abbr_names::INM, long_names::xx, ["Var266_N3k", "INM", "xx", ""]),
            (P::V267, abbr_names::σςı, long_names::aa, ["V267", "σςı", "aa", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V268, abbr_names::N1X_, long_names::x_xx, ["V268", "N1X_", "x_xx", "name"]),
            (P::V269, abbr_names::_xx, long_names::e6whommph3, ["V269", "_xx", "e6whommph3", "With \"quotes\""]),
            (P::V270, abbr_names::aaa, long_names::s_SksS_sKsk, ["V270", "aaa", "s_SksS_sKsk", "Ünïcode – name"]),
            (P::Var271_éIı, abbr_names::ßiI, long_names::vYcTc1WaAY, ["Var271_éIı", "ßiI", "vYcTc1WaAY", "With \"quotes\""]),
            (P::Var272_N7d, abbr_names::pRk, long_names::éÉıßéßKςσ, ["Var272_N7d", "pRk", "éÉıßéßKςσ", "Ünïcode – name"]),
            (P::V273, abbr_names::aABb, long_names::Nvzq, ["V273", "aABb", "Nvzq", "With \"quotes\""]),
            (P::Var274_XX_X, abbr_names::ÉIIς, long_names::Ss_s_skKkkK, ["Var274_XX_X", "ÉIIς", "Ss_s_skKkkK", "Ünïcode – name"]),
            (P::V275, abbr_names::ıK, long_names::ÉIςσσςııσééé, ["V275", "ıK", "ÉIςσσςııσééé", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var276_b, abbr_names::_xXxx, long_names::aBABaABA, ["Var276_b", "_xXxx", "aBABaABA", ""]),
            (P::Var277_B, abbr_names::KsK_K, long_names::IσßIKK, ["Var277_B", "KsK_K", "IσßIKK", "name"]),
            (P::V278, abbr_names::BB, long_names::ksSk, ["V278", "BB", "ksSk", "name"]),
            (P::V279, abbr_names::Nu, long_names::SSsKs_, ["V279", "Nu", "SSsKs_", "Name"]),
            (P::V280, abbr_names::s_k_k, long_names::em0j, ["V280", "s_k_k", "em0j", "Name"]),
            (P::V281, abbr_names::_K, long_names::_x1_, ["V281", "_K", "_x1_", "Name"]),
            (P::Var282_N0m, abbr_names::ıI, long_names::s_S, ["Var282_N0m", "ıI", "s_S", "Braces {} and {0}"]),
            (P::V283, abbr_names::Iié, long_names::yOVyIKty, ["V283", "Iié", "yOVyIKty", "With \"quotes\""]),
            (P::Var284_Ks, abbr_names::σÉςi, long_names::iÉσıiσK, ["Var284_Ks", "σÉςi", "iÉσıiσK", "name"]),
            (P::V285, abbr_names::σKiIς, long_names::iKßÉßσéσςσ, ["V285", "σKiIς", "iKßÉßσéσςσ", "Name"]),
            (P::Var286_N11X_, abbr_names::ςIIKı, long_names::A, ["Var286_N11X_", "ςIIKı", "A", "Ünïcode – name"]),
            (P::V287, abbr_names::N1xX_, long_names::_1x_X1_XX_, ["V287", "N1xX_", "_1x_X1_XX_", "tab\tand\nnewline"]),
            (P::Var288_ςıßσ, abbr_names::K_, long_names::x__X1xx_x1, ["Var288_ςıßσ", "K_", "x__X1xx_x1", "tab\tand\nnewline"]),
            (P::V289, abbr_names::ujk, long_names::KéiÉσı, ["V289", "ujk", "KéiÉσı", "Braces {} and {0}"]),
            (P::V290, abbr_names::kksK, long_names::bAbbbB, ["V290", "kksK", "bAbbbB", "Ünïcode – name"]),
            (P::V291, abbr_names::Y, long_names::KSSKKSS, ["V291", "Y", "KSSKKSS", "tab\tand\nnewline"]),
            (P::Var292_ß, abbr_names::_X1, long_names::KkSKSsSSsk, ["Var292_ß", "_X1", "KkSKSsSSsk", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::V293, abbr_names::x7zw, long_names::xXxxXX_1XX_x, ["V293", "x7zw", "xXxxXX_1XX_x", ""]),
            (P::V294, abbr_names::sk_Kk, long_names::aBBabaB, ["V294", "sk_Kk", "aBBabaB", "With \"quotes\""]),
            (P::V295, abbr_names::ksK_, long_names::N3njjV, ["V295", "ksK_", "N3njjV", "name"]),
            (P::V296, abbr_names::i9Ts9, long_names::N81o, ["V296", "i9Ts9", "N81o", "tab\tand\nnewline"]),
            (P::V297, abbr_names::_KsKk, long_names::IσßéßÉß, ["V297", "_KsKk", "IσßéßÉß", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]),
            (P::Var298_AAB, abbr_names::ßKσK, long_names::ςÉςςıςé, ["Var298_AAB", "ßKσK", "ςÉςςıςé", "Name"]),
            (P::Var299_K_S, abbr_names::u, long_names::ks_k_Ss, ["Var299_K_S", "u", "ks_k_Ss", "Name"]),
        ],
    };
}
pub mod e29 {
    use super::*;
    char_property! {
        /// A generated property.
        pub enum P {
            abbr => "σς";
            long => "II";
            human => "Plain name";
            /// documented
            V0 { abbr => IKß, long => KKKSs, human => "Name", }
            /// documented
            Var1_σ { abbr => KSS__, long => a, human => "Plain name", }
            V2 { abbr => Ab, long => ςß, human => "Plain name", }
            Var3_RAO { abbr => Kkks, long => abAbBAaAba, human => "With \"quotes\"", }
        }
        /// Abbreviated.
        pub mod abbr_names for abbr;
        pub mod long_names for long;
    }
    impl PartialCharProperty for P { fn of(c: char) -> Option<P> { use unic_char_property::EnumeratedCharProperty; P::all_values().get(c as usize).copied() } }
    pub static DECL: EnumDecl<P> = EnumDecl {
        prop: ["σς", "II", "Plain name"],
        values: &[
            (P::V0, abbr_names::IKß, long_names::KKKSs, ["V0", "IKß", "KKKSs", "Name"]),
            (P::Var1_σ, abbr_names::KSS__, long_names::a, ["Var1_σ", "KSS__", "a", "Plain name"]),
            (P::V2, abbr_names::Ab, long_names::ςß, ["V2", "Ab", "ςß", "Plain name"]),
            (P::Var3_RAO, abbr_names::Kkks, long_names::abAbBAaAba, ["Var3_RAO", "Kkks", "abAbBAaAba", "With \"quotes\""]),
        ],
    };
}
pub mod b0 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "iıı";
            long => "X1_xxx11xxx_";
            human => "Name";
            data_table_path => "decl_tables/t0.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["iıı", "X1_xxx11xxx_", "Name"],
        ranges: &[],
    };
}
pub mod b1 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "ıiς";
            long => "iKÉiıßÉKiiıé";
            human => "Name";
            data_table_path => "decl_tables/t1.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["ıiς", "iKÉiıßÉKiiıé", "Name"],
        ranges: &[],
    };
}
pub mod b2 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "w9r";
            long => "B";
            human => "Braces {} and {0}";
            data_table_path => "decl_tables/t2.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["w9r", "B", "Braces {} and {0}"],
        ranges: &[(0x10fffe, 0x10fffe)],
    };
}
pub mod b3 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "BB";
            long => "DqIW84lUHePb";
            human => "With \"quotes\"";
            data_table_path => "decl_tables/t3.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["BB", "DqIW84lUHePb", "With \"quotes\""],
        ranges: &[(0xfb, 0xc37e5)],
    };
}
pub mod b4 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "sSss";
            long => "Ba";
            human => "name";
            data_table_path => "decl_tables/t4.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["sSss", "Ba", "name"],
        ranges: &[(0x2da, 0x2da), (0xd7ff, 0xd7ff)],
    };
}
pub mod b5 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "ı";
            long => "_S_KKkK_k_k";
            human => "Name";
            data_table_path => "decl_tables/t5.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["ı", "_S_KKkK_k_k", "Name"],
        ranges: &[(0x236, 0x39f0d), (0x3e8c1, 0xff502)],
    };
}
pub mod b6 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "A";
            long => "ßéiÉ";
            human => "";
            data_table_path => "decl_tables/t6.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["A", "ßéiÉ", ""],
        ranges: &[(0x1, 0x1), (0x84, 0x84), (0x208, 0x208), (0x2fd, 0x2fd), (0xffff, 0xffff)],
    };
}
pub mod b7 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "kkS";
            long => "bBabB";
            human => "tab\tand\nnewline";
            data_table_path => "decl_tables/t7.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["kkS", "bBabB", "tab\tand\nnewline"],
        ranges: &[(0x2, 0x64), (0x77, 0x100), (0x19d, 0x1f7), (0x227, 0x560c1), (0x7441d, 0x10d5ef)],
    };
}
pub mod b8 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "w_";
            long => "KKıééÉéσııσσ";
            human => "name";
            data_table_path => "decl_tables/t8.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["w_", "KKıééÉéσııσσ", "name"],
        ranges: &[(0x15425, 0x15425), (0x2ad93, 0x2ad93), (0x31bb7, 0x31bb7), (0x41ded, 0x41ded), (0x45dbe, 0x45dbe), (0x48b22, 0x48b22), (0x5458a, 0x5458a), (0x55b98, 0x55b98), (0x58796, 0x58796), (0x6752e, 0x6752e), (0x70062, 0x70062), (0x7f2e4, 0x7f2e4), (0x8229f, 0x8229f), (0x938a2, 0x938a2), (0x943c9, 0x943c9), (0x95bd7, 0x95bd7), (0x9eafa, 0x9eafa), (0xac0f5, 0xac0f5), (0xac592, 0xac592), (0xb3205, 0xb3205), (0xb6ecc, 0xb6ecc), (0xc91a7, 0xc91a7), (0xce4e4, 0xce4e4), (0xd6772, 0xd6772), (0xd9849, 0xd9849), (0xde266, 0xde266), (0xe49a6, 0xe49a6), (0xe9b53, 0xe9b53), (0xf3692, 0xf3692), (0xf66c4, 0xf66c4), (0xf8e09, 0xf8e09), (0x104b86, 0x104b86), (0x10fffe, 0x10fffe)],
    };
}
pub mod b9 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "ßςÉi";
            long => "bBAabbbbaaBb";
            human => "Name";
            data_table_path => "decl_tables/t9.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["ßςÉi", "bBAabbbbaaBb", "Name"],
        ranges: &[(0x1, 0x1e), (0x21, 0x42), (0x56, 0x80), (0x8d, 0xc7), (0xca, 0xcb), (0xd0, 0xe6), (0xf7, 0xfe), (0x129, 0x134), (0x147, 0x152), (0x15a, 0x174), (0x17a, 0x180), (0x192, 0x194), (0x1ab, 0x1ae), (0x1c7, 0x1ed), (0x1ee, 0x209), (0x229, 0x23b), (0x256, 0x261), (0x265, 0x270), (0x274, 0x2c0), (0x2dc, 0x7cd0), (0xa808, 0x10000), (0x1432c, 0x43ff9), (0x49592, 0x5d1aa), (0x72e59, 0x75609), (0x81430, 0xa4e6d), (0xa5100, 0xa5e0a), (0xb7006, 0xbc10f), (0xbc8a4, 0xcfaab), (0xd19e9, 0xd599e), (0xe3b97, 0xe482e), (0xe788f, 0xf3233), (0xf6121, 0x1012c5), (0x10f404, 0x10fffe)],
    };
}
pub mod b10 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "_1";
            long => "Y";
            human => "tab\tand\nnewline";
            data_table_path => "decl_tables/t10.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["_1", "Y", "tab\tand\nnewline"],
        ranges: &[(0x0, 0x0), (0x1, 0x1), (0x3, 0x3), (0x4, 0x4), (0x7, 0x7), (0xb, 0xb), (0xe, 0xe), (0x10, 0x10), (0x11, 0x11), (0x1c, 0x1c), (0x1d, 0x1d), (0x1f, 0x1f), (0x20, 0x20), (0x23, 0x23), (0x24, 0x24), (0x25, 0x25), (0x27, 0x27), (0x29, 0x29), (0x2b, 0x2b), (0x2c, 0x2c), (0x30, 0x30), (0x39, 0x39), (0x44, 0x44), (0x47, 0x47), (0x4c, 0x4c), (0x55, 0x55), (0x5a, 0x5a), (0x67, 0x67), (0x6a, 0x6a), (0x6b, 0x6b), (0x76, 0x76), (0x77, 0x77), (0x7d, 0x7d), (0x7f, 0x7f), (0x80, 0x80), (0x89, 0x89), (0x8e, 0x8e), (0x90, 0x90), (0x91, 0x91), (0x96, 0x96), (0x99, 0x99), (0x9f, 0x9f), (0xa3, 0xa3), (0xaf, 0xaf), (0xb2, 0xb2), (0xb3, 0xb3), (0xb5, 0xb5), (0xbb, 0xbb), (0xbd, 0xbd), (0xc0, 0xc0), (0xc1, 0xc1), (0xc4, 0xc4), (0xc8, 0xc8), (0xcd, 0xcd), (0xcf, 0xcf), (0xd0, 0xd0), (0xd2, 0xd2), (0xd3, 0xd3), (0xda, 0xda), (0xde, 0xde), (0xea, 0xea), (0xec, 0xec), (0xed, 0xed), (0xef, 0xef), (0xf2, 0xf2), (0xf3, 0xf3), (0xf4, 0xf4), (0xfd, 0xfd), (0xfe, 0xfe), (0xff, 0xff), (0x100, 0x100), (0x102, 0x102), (0x114, 0x114), (0x115, 0x115), (0x119, 0x119), (0x11a, 0x11a), (0x11c, 0x11c), (0x123, 0x123), (0x128, 0x128), (0x12a, 0x12a), (0x130, 0x130), (0x13d, 0x13d), (0x13e, 0x13e), (0x13f, 0x13f), (0x141, 0x141), (0x148, 0x148), (0x149, 0x149), (0x14c, 0x14c), (0x152, 0x152), (0x158, 0x158), (0x15a, 0x15a), (0x15b, 0x15b), (0x15f, 0x15f), (0x164, 0x164), (0x16a, 0x16a), (0x16b, 0x16b), (0x172, 0x172), (0x174, 0x174), (0x17d, 0x17d), (0x180, 0x180), (0x184, 0x184), (0x18a, 0x18a), (0x18c, 0x18c), (0x18e, 0x18e), (0x191, 0x191), (0x19a, 0x19a), (0x19b, 0x19b), (0x19c, 0x19c), (0x19e, 0x19e), (0x19f, 0x19f), (0x1a0, 0x1a0), (0x1b0, 0x1b0), (0x1b3, 0x1b3), (0x1b9, 0x1b9), (0x1c4, 0x1c4), (0x1c7, 0x1c7), (0x1cb, 0x1cb), (0x1d2, 0x1d2), (0x1d8, 0x1d8), (0x1da, 0x1da), (0x1df, 0x1df), (0x1e2, 0x1e2), (0x1e3, 0x1e3), (0x1ec, 0x1ec), (0x1f3, 0x1f3), (0x1f4, 0x1f4), (0x1f7, 0x1f7), (0x1f8, 0x1f8), (0x1f9, 0x1f9), (0x1fa, 0x1fa), (0x200, 0x200), (0x203, 0x203), (0x20b, 0x20b), (0x211, 0x211), (0x213, 0x213), (0x214, 0x214), (0x217, 0x217), (0x21a, 0x21a), (0x222, 0x222), (0x224, 0x224), (0x22a, 0x22a), (0x22b, 0x22b), (0x231, 0x231), (0x237, 0x237), (0x238, 0x238), (0x23b, 0x23b), (0x23c, 0x23c), (0x23f, 0x23f), (0x244, 0x244), (0x248, 0x248), (0x24b, 0x24b), (0x24c, 0x24c), (0x24d, 0x24d), (0x250, 0x250), (0x251, 0x251), (0x259, 0x259), (0x25b, 0x25b), (0x25e, 0x25e), (0x260, 0x260), (0x263, 0x263), (0x266, 0x266), (0x26c, 0x26c), (0x26e, 0x26e), (0x275, 0x275), (0x278, 0x278), (0x279, 0x279), (0x27d, 0x27d), (0x27e, 0x27e), (0x27f, 0x27f), (0x280, 0x280), (0x289, 0x289), (0x290, 0x290), (0x294, 0x294), (0x29a, 0x29a), (0x29b, 0x29b), (0x29c, 0x29c), (0x29d, 0x29d), (0x29f, 0x29f), (0x2a4, 0x2a4), (0x2a5, 0x2a5), (0x2ae, 0x2ae), (0x2af, 0x2af), (0x2b1, 0x2b1), (0x2b3, 0x2b3), (0x2bd, 0x2bd), (0x2c5, 0x2c5), (0x2c9, 0x2c9), (0x2ca, 0x2ca), (0x2d2, 0x2d2), (0x2d9, 0x2d9), (0x2df, 0x2df), (0x2e4, 0x2e4), (0x2ed, 0x2ed), (0x2ee, 0x2ee), (0x2f1, 0x2f1), (0x2f3, 0x2f3), (0x2f5, 0x2f5), (0x2f8, 0x2f8), (0x2fb, 0x2fb), (0x2fd, 0x2fd)],
    };
}
pub mod b11 {
    use super::*;
    char_property! {
        /// A generated property.
        pub struct P(bool) {
            abbr => "v8w";
            long => "iÉÉéσIσσςI";
            human => "Plain name";
            data_table_path => "decl_tables/t11.rsv";
        }
        /// Has it?
        pub fn is_p(char) -> bool;
    }
    pub static DECL: BinaryDecl = BinaryDecl {
        prop: ["v8w", "iÉÉéσIσσςI", "Plain name"],
        ranges: &[(0x0, 0x1), (0x2, 0x5), (0xa, 0x19), (0x1b, 0x28), (0x2b, 0x2c), (0x30, 0x33), (0x3b, 0x3d), (0x3f, 0x54), (0x56, 0x57), (0x5f, 0x60), (0x62, 0x64), (0x65, 0x67), (0x6c, 0x74), (0x78, 0x7d), (0x7f, 0x80), (0x82, 0x85), (0x91, 0x92), (0x94, 0x98), (0x9a, 0x9c), (0xa2, 0xa8), (0xaf, 0xb0), (0xb2, 0xb8), (0xc2, 0xc3), (0xc4, 0xc6), (0xc7, 0xc8), (0xc9, 0xca), (0xcf, 0xd4), (0xdb, 0xdd), (0xe1, 0xe3), (0xe7, 0xe8), (0xea, 0xee), (0xf4, 0xf8), (0xfe, 0xff), (0x100, 0x101), (0x10b, 0x10c), (0x118, 0x11b), (0x11c, 0x11e), (0x11f, 0x124), (0x125, 0x128), (0x13b, 0x13c), (0x142, 0x143), (0x144, 0x148), (0x149, 0x14a), (0x14d, 0x155), (0x15b, 0x164), (0x16d, 0x16e), (0x178, 0x179), (0x17e, 0x180), (0x186, 0x196), (0x198, 0x19c), (0x19e, 0x1a7), (0x1ac, 0x1ae), (0x1b8, 0x1bb), (0x1be, 0x1bf), (0x1c0, 0x1c5), (0x1c8, 0x1cd), (0x1d0, 0x1d1), (0x1d2, 0x1d3), (0x1d8, 0x1df), (0x1e3, 0x1e9), (0x1ec, 0x1ef), (0x1f1, 0x1f2), (0x1f8, 0x1fa), (0x1fe, 0x200), (0x204, 0x209), (0x20b, 0x20d), (0x20f, 0x219), (0x223, 0x230), (0x233, 0x236), (0x23d, 0x243), (0x244, 0x24c), (0x25d, 0x260), (0x262, 0x267), (0x271, 0x272), (0x273, 0x277), (0x27d, 0x27e), (0x286, 0x287), (0x28e, 0x292), (0x296, 0x29a), (0x29e, 0x2a2), (0x2a5, 0x2a6), (0x2a7, 0x2ae), (0x2af, 0x2b0), (0x2b1, 0x2b2), (0x2b4, 0x2bb), (0x2be, 0x2c5), (0x2c7, 0x2ca), (0x2cd, 0x2cf), (0x2dc, 0x2e2), (0x2ec, 0x2ee), (0x2f0, 0x2f3), (0x2f6, 0x2f8), (0x2f9, 0x2fb), (0x1551, 0x3aff), (0x441a, 0x46aa), (0x5d2f, 0x68b2), (0x773e, 0x8df8), (0xa17b, 0xad90), (0xb960, 0xccf0), (0xd7ff, 0xe000), (0xe83d, 0xf765), (0xffff, 0x10000), (0x11bd6, 0x12a4c), (0x146c9, 0x14d0d), (0x1506a, 0x16f08), (0x1864e, 0x186cd), (0x191ba, 0x19a25), (0x1cc68, 0x1d237), (0x1d37b, 0x1e3d2), (0x1e8a3, 0x1ef6f), (0x211b1, 0x214e3), (0x21a5d, 0x238b8), (0x25577, 0x27177), (0x28cc6, 0x29dd6), (0x2a4dd, 0x2d381), (0x2dcd9, 0x2dec2), (0x2e02c, 0x306ba), (0x32649, 0x390d6), (0x392f8, 0x3aceb), (0x3c020, 0x3c141), (0x3c8ae, 0x3d5d0), (0x3e134, 0x3efd0), (0x3f68d, 0x40268), (0x42b8d, 0x44db4), (0x4597f, 0x47113), (0x475ae, 0x47c6c), (0x4ac2c, 0x4bda3), (0x4c499, 0x4e192), (0x5001c, 0x53db1), (0x54b24, 0x54b50), (0x5587d, 0x55ab3), (0x55c9d, 0x56309), (0x56e43, 0x570e7), (0x58d68, 0x58fc3), (0x5a660, 0x5a78f), (0x5b2f3, 0x5b4cc), (0x5b549, 0x5c4cf), (0x5e25c, 0x60409), (0x619d1, 0x63f73), (0x652c3, 0x65abf), (0x66068, 0x66add), (0x67ad1, 0x6810e), (0x69111, 0x6913e), (0x6a114, 0x6ade6), (0x6d5b5, 0x6decc), (0x6e060, 0x6efb5), (0x7391b, 0x7448f), (0x74ae9, 0x75706), (0x767eb, 0x79656), (0x796be, 0x7aae1), (0x7bd0f, 0x7be62), (0x7eba8, 0x7ed26), (0x81e9c, 0x81f6e), (0x83284, 0x83a1e), (0x84a41, 0x85b60), (0x8896b, 0x88c6d), (0x89a4a, 0x8bf65), (0x8ec17, 0x8fcb8), (0x91cb7, 0x92b40), (0x9309e, 0x93ae2), (0x93dae, 0x95f81), (0x964e6, 0x96947), (0x98546, 0x98cc0), (0x9aa53, 0x9aae5), (0x9bcdc, 0x9c31d), (0x9d901, 0xa0d39), (0xa1572, 0xa2c66), (0xa4329, 0xa81bd), (0xa9674, 0xaa1a6), (0xaa374, 0xaa703), (0xadb8f, 0xae35c), (0xaf41d, 0xb059a), (0xb2929, 0xb3513), (0xbb26e, 0xbd23a), (0xc02af, 0xc07dc), (0xc16ec, 0xc3610), (0xc656a, 0xc9788), (0xca6a7, 0xcc23b), (0xceddd, 0xcf286), (0xcf416, 0xd2f7f), (0xd5750, 0xd5b77), (0xd6404, 0xd987e), (0xda3e7, 0xdd8f8), (0xde103, 0xdf977), (0xe0191, 0xe0902), (0xe0a75, 0xe20ba), (0xe2309, 0xe2e21), (0xe5711, 0xe5e24), (0xe7451, 0xe7f08), (0xe839c, 0xeec29), (0xefe84, 0xf39f3), (0xf6831, 0xf70b5), (0xf7fcf, 0xfabd2), (0xfc58f, 0xfdebd), (0x10125e, 0x101bb6), (0x103de4, 0x104149), (0x104170, 0x105125), (0x10a081, 0x10ab7c), (0x10d540, 0x10dba7), (0x10fffe, 0x10ffff)],
    };
}
macro_rules! for_decl_enums { ($m:ident) => { $m!{e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 e10 e11 e12 e13 e14 e15 e16 e17 e18 e19 e20 e21 e22 e23 e24 e25 e26 e27 e28 e29} } }
macro_rules! for_decl_binaries { ($m:ident) => { $m!{b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 b10 b11} } }
pub(crate) use {for_decl_binaries, for_decl_enums};
