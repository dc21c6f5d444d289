//! UAX #9 revision 37 (Unicode 10.0), rules P1 to I2, character by character, in separate passes.
//! The `Dev` switches turn on the recorded deviations of the library (see DESIGN.md, C09), one by one.
use crate::refdata::{parse_hex, prop, Prop};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum C {
    L, R, AL, EN, ES, ET, AN, CS, NSM, BN, B, S, WS, ON, LRE, LRO, RLE, RLO, PDF, LRI, RLI, FSI, PDI,
}
use C::*;
pub const NAMES: [(&str, C); 23] = [
    ("L", L), ("R", R), ("AL", AL), ("EN", EN), ("ES", ES), ("ET", ET), ("AN", AN), ("CS", CS), ("NSM", NSM), ("BN", BN),
    ("B", B), ("S", S), ("WS", WS), ("ON", ON), ("LRE", LRE), ("LRO", LRO), ("RLE", RLE), ("RLO", RLO), ("PDF", PDF),
    ("LRI", LRI), ("RLI", RLI), ("FSI", FSI), ("PDI", PDI),
];
pub fn by_name(n: &str) -> C {
    NAMES.iter().find(|x| x.0 == n).unwrap().1
}
pub fn name(c: C) -> &'static str {
    NAMES.iter().find(|x| x.1 == c).unwrap().0
}

struct Data {
    class: &'static Prop,
    ids: Vec<C>,
    bracket: HashMap<char, (bool, char)>,
}
static DATA: OnceLock<Data> = OnceLock::new();
fn data() -> &'static Data {
    DATA.get_or_init(|| {
        let class = prop("Bidi_Class");
        let ids = class.values.iter().map(|v| by_name(v)).collect();
        let b = prop("Bracket");
        let mut bracket = HashMap::new();
        for v in 0..0x11_0000u32 {
            if let Some(c) = char::from_u32(v) {
                let t = b.get(c);
                if t != "-" {
                    let (k, h) = t.split_once(' ').unwrap();
                    bracket.insert(c, (k == "o", parse_hex(h)[0]));
                }
            }
        }
        Data { class, ids, bracket }
    })
}
pub fn brackets() -> Vec<char> {
    let mut v: Vec<char> = data().bracket.keys().copied().collect();
    v.sort();
    v
}

/// The bidi class, except that the recorded defect of the class table (C19 key `default-bn`) is
/// taken as it is: these unassigned code points and noncharacters are L in the library.
pub fn class_of(c: char) -> C {
    if is_default_bn(c) {
        return L;
    }
    let d = data();
    d.ids[d.class.id(c) as usize]
}
pub fn is_default_bn(c: char) -> bool {
    let v = c as u32;
    v & 0xFFFE == 0xFFFE
        || matches!(v, 0xFDD0..=0xFDEF | 0x2065 | 0xFFF0..=0xFFF8 | 0xE0000 | 0xE0002..=0xE001F | 0xE0080..=0xE00FF | 0xE01F0..=0xE0FFF)
}

fn initiator(c: C) -> bool {
    matches!(c, LRI | RLI | FSI)
}
pub fn removed(c: C) -> bool {
    matches!(c, LRE | LRO | RLE | RLO | PDF | BN)
}

/// BD9: for every isolate initiator its matching PDI, and the other way round.
pub struct Match {
    pub pdi_of: Vec<Option<usize>>,
    pub init_of: Vec<Option<usize>>,
}
pub fn matching(cls: &[C]) -> Match {
    let mut m = Match { pdi_of: vec![None; cls.len()], init_of: vec![None; cls.len()] };
    let mut open = vec![];
    for (i, &c) in cls.iter().enumerate() {
        if initiator(c) {
            open.push(i);
        } else if c == PDI {
            if let Some(s) = open.pop() {
                m.pdi_of[s] = Some(i);
                m.init_of[i] = Some(s);
            }
        }
    }
    m
}
/// P2: the first strong character of a piece, outside isolates.
pub fn first_strong(cls: &[C], m: &Match, from: usize, to: usize) -> Option<C> {
    let mut i = from;
    while i < to {
        match cls[i] {
            L | R | AL => return Some(cls[i]),
            c if initiator(c) => match m.pdi_of[i] {
                Some(p) => i = p,
                None => return None,
            },
            _ => {}
        }
        i += 1;
    }
    None
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Dev {
    /// N0 is not implemented
    pub no_brackets: bool,
    /// W1-W6 in a single pass, which loses AL as a previous strong type and takes the classes
    /// earlier rules should see from later ones; separators of several bytes never join numbers
    pub weak: bool,
    /// a character removed by X9 after an isolate initiator cuts the isolating run sequence there
    pub sequences: bool,
    /// a removed character before neutrals hides the type before it
    pub neutral: bool,
}
pub const DEV_KEYS: [&str; 4] = ["no-bracket-pairs", "weak-single-pass", "removed-after-initiator", "removed-before-neutral"];
pub fn dev(bits: usize) -> Dev {
    Dev { no_brackets: bits & 1 != 0, weak: bits & 2 != 0, sequences: bits & 4 != 0, neutral: bits & 8 != 0 }
}

pub struct Para {
    /// character index range
    pub start: usize,
    pub end: usize,
    pub level: u8,
    /// class of each character, FSI resolved where its content has a strong character
    pub cls: Vec<C>,
}

/// P1-P3 over the whole text.
pub fn paragraphs(cs: &[char], base: Option<u8>) -> Vec<Para> {
    let raw: Vec<C> = cs.iter().map(|c| class_of(*c)).collect();
    let mut out = vec![];
    let mut start = 0;
    while start < raw.len() {
        let end = raw[start..].iter().position(|c| *c == B).map_or(raw.len(), |p| start + p + 1);
        let r = &raw[start..end];
        let m = matching(r);
        let level = base.unwrap_or(match first_strong(r, &m, 0, r.len()) {
            Some(R) | Some(AL) => 1,
            _ => 0,
        });
        let mut cls = r.to_vec();
        for i in 0..r.len() {
            if r[i] == FSI {
                match first_strong(r, &m, i + 1, m.pdi_of[i].unwrap_or(r.len())) {
                    Some(L) => cls[i] = LRI,
                    Some(_) => cls[i] = RLI,
                    None => {}
                }
            }
        }
        out.push(Para { start, end, level, cls });
        start = end;
    }
    out
}

/// The levels of the characters of a paragraph after I2 (before L1).  A character removed by X9
/// takes the level of the character before it, or of the paragraph.
pub fn levels(cs: &[char], para: &Para, dv: Dev) -> Vec<u8> {
    let cls = &para.cls;
    let n = cls.len();
    let m = matching(cls);
    let mut ty = cls.clone();
    let mut lv = vec![para.level; n];
    // X1-X8
    const MAX: u8 = 125;
    #[derive(Clone, Copy)]
    struct E {
        level: u8,
        over: Option<C>,
        isolate: bool,
    }
    let mut st = vec![E { level: para.level, over: None, isolate: false }];
    let (mut ov_iso, mut ov_emb, mut valid) = (0, 0, 0);
    for i in 0..n {
        let top = *st.last().unwrap();
        match cls[i] {
            RLE | LRE | RLO | LRO => {
                let next = if matches!(cls[i], RLE | RLO) { (top.level + 1) | 1 } else { (top.level + 2) & !1 };
                if next <= MAX && ov_iso == 0 && ov_emb == 0 {
                    let over = match cls[i] {
                        RLO => Some(R),
                        LRO => Some(L),
                        _ => None,
                    };
                    st.push(E { level: next, over, isolate: false });
                } else if ov_iso == 0 {
                    ov_emb += 1;
                }
            }
            RLI | LRI | FSI => {
                lv[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
                let next = if cls[i] == RLI { (top.level + 1) | 1 } else { (top.level + 2) & !1 };
                if next <= MAX && ov_iso == 0 && ov_emb == 0 {
                    valid += 1;
                    st.push(E { level: next, over: None, isolate: true });
                } else {
                    ov_iso += 1;
                }
            }
            PDI => {
                if ov_iso > 0 {
                    ov_iso -= 1;
                } else if valid > 0 {
                    ov_emb = 0;
                    while !st.last().unwrap().isolate {
                        st.pop();
                    }
                    st.pop();
                    valid -= 1;
                }
                let top = *st.last().unwrap();
                lv[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
            }
            PDF => {
                if ov_iso > 0 {
                } else if ov_emb > 0 {
                    ov_emb -= 1;
                } else if !top.isolate && st.len() >= 2 {
                    st.pop();
                }
            }
            B => lv[i] = para.level,
            BN => {}
            _ => {
                lv[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
            }
        }
    }
    // X9: `keep` are the remaining characters
    let keep: Vec<usize> = (0..n).filter(|i| !removed(cls[*i])).collect();
    // BD7: level runs, as ranges of positions in keep
    let mut runs: Vec<Vec<usize>> = vec![];
    for &i in &keep {
        match runs.last_mut() {
            Some(r) if lv[*r.last().unwrap()] == lv[i] => r.push(i),
            _ => runs.push(vec![i]),
        }
    }
    // BD13
    let mut seqs: Vec<(Vec<usize>, bool)> = vec![]; // with: ends in an unmatched initiator
    if dv.sequences {
        // as the library does it: a stack of sequences waiting for their PDI; an initiator counts
        // only if no removed character follows it in its run
        let mut waiting: Vec<Vec<usize>> = vec![];
        for (ri, run) in runs.iter().enumerate() {
            let (a, b) = (run[0], *run.last().unwrap());
            // the run at the very start of the paragraph may begin with removed characters of its level
            let starts_removed = ri == 0 && a > 0 && {
                let l0 = explicit_level_at_start(cls, para.level);
                l0 == lv[a]
            };
            let mut seq = if cls[a] == PDI && !starts_removed && !waiting.is_empty() { waiting.pop().unwrap() } else { vec![] };
            seq.extend(run);
            let next_removed = b + 1 < n && removed(cls[b + 1]);
            if initiator(cls[b]) && !next_removed {
                waiting.push(seq);
            } else {
                seqs.push((seq, false));
            }
        }
        seqs.extend(waiting.into_iter().rev().map(|s| (s, true)));
    } else {
        let run_at: HashMap<usize, usize> = runs.iter().enumerate().flat_map(|(k, r)| r.iter().map(move |i| (*i, k))).collect();
        for run in &runs {
            if cls[run[0]] == PDI && m.init_of[run[0]].is_some() {
                continue;
            }
            let mut seq = run.clone();
            let mut open = false;
            loop {
                let last = *seq.last().unwrap();
                if !initiator(cls[last]) {
                    break;
                }
                match m.pdi_of[last] {
                    Some(p) => seq.extend(&runs[run_at[&p]]),
                    None => {
                        open = true;
                        break;
                    }
                }
            }
            seqs.push((seq, open));
        }
    }
    let dir = |l: u8| if l % 2 == 1 { R } else { L };
    let orig_ty = ty.clone();
    for (seq, open) in &seqs {
        let l = lv[seq[0]];
        let first = keep.binary_search(&seq[0]).unwrap();
        let pred = if first == 0 { para.level } else { lv[keep[first - 1]] };
        let last = keep.binary_search(seq.last().unwrap()).unwrap();
        let succ = if *open || last + 1 == keep.len() { para.level } else { lv[keep[last + 1]] };
        let (sos, eos) = (dir(l.max(pred)), dir(l.max(succ)));
        if dv.weak {
            weak_single_pass(cs, para.start, seq, sos, eos, &mut ty);
        } else {
            weak(seq, sos, &mut ty);
        }
        let e = dir(l);
        if !dv.no_brackets {
            bracket_pairs(cs, para.start, seq, sos, e, &orig_ty, &mut ty);
        }
        neutral(seq, sos, eos, e, &mut ty, dv.neutral, cls);
    }
    // I1, I2
    for &i in &keep {
        lv[i] += match (lv[i] % 2, ty[i]) {
            (0, R) => 1,
            (0, AN) | (0, EN) => 2,
            (1, L) | (1, EN) | (1, AN) => 1,
            _ => 0,
        };
    }
    for i in 0..n {
        if removed(cls[i]) {
            lv[i] = if i > 0 { lv[i - 1] } else { para.level };
        }
    }
    lv
}

/// The level the library gives the first character of the paragraph when that one is removed.
fn explicit_level_at_start(cls: &[C], para: u8) -> u8 {
    match cls[0] {
        RLE | RLO => (para + 1) | 1,
        LRE | LRO => (para + 2) & !1,
        _ => para,
    }
}

fn weak(seq: &[usize], sos: C, ty: &mut [C]) {
    // W1
    let mut prev = sos;
    for &i in seq {
        if ty[i] == NSM {
            ty[i] = if initiator(prev) || prev == PDI { ON } else { prev };
        }
        prev = ty[i];
    }
    // W2
    let mut strong = sos;
    for &i in seq {
        match ty[i] {
            L | R | AL => strong = ty[i],
            EN if strong == AL => ty[i] = AN,
            _ => {}
        }
    }
    // W3
    for &i in seq {
        if ty[i] == AL {
            ty[i] = R;
        }
    }
    // W4
    for k in 1..seq.len().saturating_sub(1) {
        let (p, i, q) = (ty[seq[k - 1]], seq[k], ty[seq[k + 1]]);
        if (ty[i] == ES || ty[i] == CS) && p == EN && q == EN {
            ty[i] = EN;
        } else if ty[i] == CS && p == AN && q == AN {
            ty[i] = AN;
        }
    }
    // W5
    let mut k = 0;
    while k < seq.len() {
        if ty[seq[k]] == ET {
            let mut j = k;
            while j < seq.len() && ty[seq[j]] == ET {
                j += 1;
            }
            if (k > 0 && ty[seq[k - 1]] == EN) || (j < seq.len() && ty[seq[j]] == EN) {
                for &i in &seq[k..j] {
                    ty[i] = EN;
                }
            }
            k = j;
        } else {
            k += 1;
        }
    }
    // W6
    for &i in seq {
        if matches!(ty[i], ES | ET | CS) {
            ty[i] = ON;
        }
    }
    // W7
    let mut strong = sos;
    for &i in seq {
        match ty[i] {
            L | R => strong = ty[i],
            EN if strong == L => ty[i] = L,
            _ => {}
        }
    }
}

/// What the library does instead of W1-W7 (the recorded deviation).
fn weak_single_pass(cs: &[char], start: usize, seq: &[usize], sos: C, eos: C, ty: &mut [C]) {
    let mut prev = sos;
    let mut ets: Vec<usize> = vec![];
    for (k, &i) in seq.iter().enumerate() {
        match ty[i] {
            NSM => ty[i] = if initiator(prev) || prev == PDI { ON } else { prev },
            EN => {
                for &j in &ets {
                    ty[j] = EN;
                }
                ets.clear();
            }
            AL => ty[i] = R,
            ES | CS => {
                // a separator of several bytes sees its own second byte as the next character
                let next = if cs[start + i].len_utf8() > 1 { ty[i] } else { seq.get(k + 1).map_or(eos, |j| ty[*j]) };
                ty[i] = match (prev, ty[i], next) {
                    (EN, ES, EN) | (EN, CS, EN) => EN,
                    (AN, CS, AN) => AN,
                    _ => ON,
                };
            }
            ET => {
                if prev == EN {
                    ty[i] = EN;
                } else {
                    ets.push(i);
                }
            }
            _ => {}
        }
        prev = ty[i];
        if prev != ET {
            for &j in &ets {
                ty[j] = ON;
            }
            ets.clear();
        }
    }
    let mut l = sos == L;
    for &i in seq {
        match ty[i] {
            EN if l => ty[i] = L,
            L => l = true,
            R | AL => l = false,
            _ => {}
        }
    }
}

fn canon(c: char) -> char {
    match c {
        '\u{2329}' => '\u{3008}',
        '\u{232A}' => '\u{3009}',
        c => c,
    }
}

fn bracket_pairs(cs: &[char], start: usize, seq: &[usize], sos: C, e: C, orig: &[C], ty: &mut [C]) {
    // BD16
    let d = data();
    let mut stack: Vec<(char, usize)> = vec![];
    let mut pairs: Vec<(usize, usize)> = vec![];
    'scan: for (k, &i) in seq.iter().enumerate() {
        if ty[i] != ON {
            continue;
        }
        match d.bracket.get(&cs[start + i]) {
            Some((true, close)) => {
                if stack.len() == 63 {
                    pairs.clear();
                    break 'scan;
                }
                stack.push((canon(*close), k));
            }
            Some((false, _)) => {
                if let Some(p) = stack.iter().rposition(|x| x.0 == canon(cs[start + i])) {
                    pairs.push((stack[p].1, k));
                    stack.truncate(p);
                }
            }
            None => {}
        }
    }
    pairs.sort();
    let strong = |t: C| match t {
        L => Some(L),
        R | AL | EN | AN => Some(R),
        _ => None,
    };
    for (a, b) in pairs {
        let inside: Vec<C> = seq[a + 1..b].iter().filter_map(|i| strong(ty[*i])).collect();
        let to = if inside.contains(&e) {
            Some(e)
        } else if !inside.is_empty() {
            // N0 c: the context before the opening bracket
            let before = seq[..a].iter().rev().find_map(|i| strong(ty[*i])).unwrap_or(sos);
            if before != e {
                Some(before)
            } else {
                Some(e)
            }
        } else {
            None
        };
        if let Some(to) = to {
            for k in [a, b] {
                ty[seq[k]] = to;
                let mut j = k + 1;
                while j < seq.len() && orig[seq[j]] == NSM {
                    ty[seq[j]] = to;
                    j += 1;
                }
            }
        }
    }
}

fn neutral(seq: &[usize], sos: C, eos: C, e: C, ty: &mut [C], removed_hides: bool, cls: &[C]) {
    let ni = |t: C| matches!(t, B | S | WS | ON | FSI | LRI | RLI | PDI);
    let num = |t: C| match t {
        EN | AN => R,
        t => t,
    };
    let mut k = 0;
    while k < seq.len() {
        if !ni(ty[seq[k]]) {
            k += 1;
            continue;
        }
        let mut j = k;
        while j < seq.len() && ni(ty[seq[j]]) {
            j += 1;
        }
        let mut before = if k == 0 { sos } else { num(ty[seq[k - 1]]) };
        let after = if j == seq.len() { eos } else { num(ty[seq[j]]) };
        if removed_hides && hidden_before(seq, k, cls) {
            before = BN;
        }
        let to = if before == after && matches!(before, L | R) { before } else { e };
        for &i in &seq[k..j] {
            ty[i] = to;
        }
        k = j;
    }
}
/// Does a removed character stand right before the neutral at position k, in the part of the text
/// the library walks through for this sequence?
fn hidden_before(seq: &[usize], k: usize, cls: &[C]) -> bool {
    let i = seq[k];
    if i == 0 || !removed(cls[i - 1]) {
        return false;
    }
    if k > 0 {
        // removed characters between two characters of one run belong to the run
        let p = seq[k - 1];
        (p + 1..i).all(|x| removed(cls[x]))
    } else {
        // only the first run of the paragraph can start with removed characters
        (0..i).all(|x| removed(cls[x]))
    }
}
