//! UAX #29 revision 31 (Unicode 10.0): the rules, read off the standard and applied at every
//! position of the whole string with unbounded look-behind and look-ahead.  Slow and plain.
use crate::refdata::{prop, Prop};

pub struct Gcb {
    p: &'static Prop,
}
impl Gcb {
    pub fn new() -> Gcb {
        Gcb { p: prop("Grapheme_Cluster_Break") }
    }
    /// Byte offsets of all boundaries, 0 and len included (only 0 for the empty string).
    pub fn bounds(&self, s: &str, extended: bool) -> Vec<usize> {
        let cs: Vec<(usize, &str)> = s.char_indices().map(|(i, c)| (i, self.p.get(c))).collect();
        let cats: Vec<&str> = cs.iter().map(|x| x.1).collect();
        let mut out = vec![0];
        for k in 1..cs.len() {
            if gcb_break(&cats[..k], cats[k], extended) {
                out.push(cs[k].0);
            }
        }
        if !s.is_empty() {
            out.push(s.len());
        }
        out
    }
}

fn gcb_break(before: &[&str], after: &str, extended: bool) -> bool {
    let b = before[before.len() - 1];
    let ctl = |x: &str| x == "CR" || x == "LF" || x == "CN";
    if b == "CR" && after == "LF" {
        return false; // GB3
    }
    if ctl(b) || ctl(after) {
        return true; // GB4, GB5
    }
    if b == "L" && ["L", "V", "LV", "LVT"].contains(&after) {
        return false; // GB6
    }
    if (b == "LV" || b == "V") && (after == "V" || after == "T") {
        return false; // GB7
    }
    if (b == "LVT" || b == "T") && after == "T" {
        return false; // GB8
    }
    if after == "EX" || after == "ZWJ" {
        return false; // GB9
    }
    if extended && after == "SM" {
        return false; // GB9a
    }
    if extended && b == "PP" {
        return false; // GB9b
    }
    if after == "EM" {
        // GB10: (E_Base | E_Base_GAZ) Extend* x E_Modifier
        let base = before.iter().rev().find(|x| **x != "EX");
        if matches!(base, Some(&"EB") | Some(&"EBG")) {
            return false;
        }
    }
    if b == "ZWJ" && (after == "GAZ" || after == "EBG") {
        return false; // GB11
    }
    if after == "RI" {
        // GB12, GB13: an odd number of RI before
        let n = before.iter().rev().take_while(|x| **x == "RI").count();
        if n % 2 == 1 {
            return false;
        }
    }
    true // GB999
}

pub struct Wb {
    p: &'static Prop,
}
impl Wb {
    pub fn new() -> Wb {
        Wb { p: prop("Word_Break") }
    }
    pub fn bounds(&self, s: &str) -> Vec<usize> {
        let cs: Vec<(usize, &str)> = s.char_indices().map(|(i, c)| (i, self.p.get(c))).collect();
        let cats: Vec<&str> = cs.iter().map(|x| x.1).collect();
        let absorbed = absorbed(&cats);
        let mut out = vec![0];
        for k in 1..cs.len() {
            if wb_break(&cats, &absorbed, k) {
                out.push(cs[k].0);
            }
        }
        if !s.is_empty() {
            out.push(s.len());
        }
        out
    }
}

fn nl(x: &str) -> bool {
    x == "NL" || x == "CR" || x == "LF"
}
fn ign(x: &str) -> bool {
    x == "Extend" || x == "FO" || x == "ZWJ"
}
/// WB4: an ignorable belongs to what is before it, unless it stands at the start of the text or after
/// a line separator.
fn absorbed(c: &[&str]) -> Vec<bool> {
    (0..c.len()).map(|i| i > 0 && ign(c[i]) && !nl(c[i - 1])).collect()
}

/// Is there a word boundary before position k (0 < k < len)?
fn wb_break(c: &[&str], absorbed: &[bool], k: usize) -> bool {
    let (b, a) = (c[k - 1], c[k]);
    if b == "CR" && a == "LF" {
        return false; // WB3
    }
    if nl(b) || nl(a) {
        return true; // WB3a, WB3b
    }
    if b == "ZWJ" && (a == "GAZ" || a == "EBG") {
        return false; // WB3c
    }
    if ign(a) {
        return false; // WB4: X (Extend | Format | ZWJ)* -> X
    }
    // From here on positions are seen through WB4; `prev(i)` is the last position before i that
    // is not absorbed, `next(i)` the first after it.
    let prev = |i: usize| -> Option<usize> { (0..i).rev().find(|&j| !absorbed[j]) };
    let next = |i: usize| -> Option<usize> { (i + 1..c.len()).find(|&j| !absorbed[j]) };
    let pb = match prev(k) {
        Some(p) => p,
        None => return true,
    };
    let b = c[pb];
    let bb = prev(pb).map(|i| c[i]);
    let aa = next(k).map(|i| c[i]);
    let ahl = |x: &str| x == "LE" || x == "HL";
    let mnlq = |x: &str| x == "MB" || x == "SQ";
    let opt = |x: Option<&str>, f: &dyn Fn(&str) -> bool| x.map_or(false, f);
    if ahl(b) && ahl(a) {
        return false; // WB5
    }
    if ahl(b) && (a == "ML" || mnlq(a)) && opt(aa, &ahl) {
        return false; // WB6
    }
    if opt(bb, &ahl) && (b == "ML" || mnlq(b)) && ahl(a) {
        return false; // WB7
    }
    if b == "HL" && a == "SQ" {
        return false; // WB7a
    }
    if b == "HL" && a == "DQ" && aa == Some("HL") {
        return false; // WB7b
    }
    if bb == Some("HL") && b == "DQ" && a == "HL" {
        return false; // WB7c
    }
    if b == "NU" && a == "NU" {
        return false; // WB8
    }
    if ahl(b) && a == "NU" {
        return false; // WB9
    }
    if b == "NU" && ahl(a) {
        return false; // WB10
    }
    if bb == Some("NU") && (b == "MN" || mnlq(b)) && a == "NU" {
        return false; // WB11
    }
    if b == "NU" && (a == "MN" || mnlq(a)) && aa == Some("NU") {
        return false; // WB12
    }
    if b == "KA" && a == "KA" {
        return false; // WB13
    }
    if (ahl(b) || b == "NU" || b == "KA" || b == "EX") && a == "EX" {
        return false; // WB13a
    }
    if b == "EX" && (ahl(a) || a == "NU" || a == "KA") {
        return false; // WB13b
    }
    if (b == "EB" || b == "EBG") && a == "EM" {
        return false; // WB14
    }
    if a == "RI" && b == "RI" {
        // WB15, WB16: odd number of RI before (seen through WB4)
        let mut n = 0;
        let mut i = Some(pb);
        while let Some(j) = i {
            if c[j] != "RI" {
                break;
            }
            n += 1;
            i = prev(j);
        }
        if n % 2 == 1 {
            return false;
        }
    }
    true // WB999
}

/// The segments between the boundaries, with their offsets.
pub fn segments<'a>(s: &'a str, bounds: &[usize]) -> Vec<(usize, &'a str)> {
    bounds.windows(2).map(|w| (w[0], &s[w[0]..w[1]])).collect()
}
