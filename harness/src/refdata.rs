//! The committed Unicode 10.0 reference data (/verif/refdata): not read from /repo.

use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub struct Prop {
    pub values: Vec<String>,
    idx: Vec<u16>,
    pub ranges: Vec<(u32, u32, u16)>,
    by_value: Vec<Vec<(u32, u32)>>,
}

fn parse(text: &str) -> Prop {
    let mut values: Vec<String> = vec![];
    let mut ids: HashMap<&str, u16> = HashMap::new();
    let mut idx = vec![0u16; 0x11_0000];
    let mut ranges = vec![];
    for l in text.lines() {
        let (r, v) = l.split_once('\t').unwrap();
        let (a, b) = r.split_once("..").unwrap();
        let (a, b) = (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap());
        let next = ids.len();
        let id = *ids.entry(v).or_insert_with(|| {
            values.push(v.to_string());
            u16::try_from(next).expect("too many values")
        });
        idx[a as usize..=b as usize].iter_mut().for_each(|x| *x = id);
        ranges.push((a, b, id));
    }
    let mut by_value = vec![vec![]; values.len()];
    for &(a, b, v) in &ranges {
        // cut the surrogate gap out, so that picking a number in a range gives a character
        if a <= 0xD7FF && b >= 0xE000 {
            by_value[v as usize].push((a, 0xD7FF));
            by_value[v as usize].push((0xE000, b));
        } else {
            by_value[v as usize].push((a, b));
        }
    }
    Prop { values, idx, ranges, by_value }
}

impl Prop {
    pub fn id(&self, c: char) -> u16 {
        self.idx[c as usize]
    }
    pub fn get(&self, c: char) -> &str {
        &self.values[self.idx[c as usize] as usize]
    }
    pub fn is(&self, c: char) -> bool {
        self.get(c) == "Y"
    }
    pub fn value_id(&self, v: &str) -> Option<u16> {
        self.values.iter().position(|x| x == v).map(|x| x as u16)
    }
    pub fn ranges_of(&self, v: u16) -> &[(u32, u32)] {
        &self.by_value[v as usize]
    }
    /// A character with the given value.
    pub fn char_of(&self, s: &mut crate::pbt::Src, v: u16) -> char {
        let rs = self.ranges_of(v);
        let (a, b) = s.pick(rs);
        // the ends of a range are where tables go wrong
        let c = match s.below(4) {
            0 => a,
            1 => b,
            _ => s.range(a as u64, b as u64) as u32,
        };
        char::from_u32(c).unwrap()
    }
}

static PROPS: OnceLock<Mutex<HashMap<String, &'static Prop>>> = OnceLock::new();

pub fn dir() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) + "/refdata/"
}

pub fn prop(name: &str) -> &'static Prop {
    let m = PROPS.get_or_init(Default::default);
    let mut g = m.lock().unwrap();
    if let Some(p) = g.get(name) {
        return p;
    }
    let t = std::fs::read_to_string(format!("{}{}.txt", dir(), name)).expect(name);
    let p: &'static Prop = Box::leak(Box::new(parse(&t)));
    g.insert(name.to_string(), p);
    p
}

pub fn parse_hex(s: &str) -> Vec<char> {
    s.split_whitespace()
        .map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap())
        .collect()
}
