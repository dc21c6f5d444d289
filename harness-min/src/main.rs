fn main() {
    let mut out = String::new();
    for c in '\0'..=char::MAX {
        out.push(if unic_ucd_normal::is_combining_mark(c) { 'Y' } else { 'N' });
    }
    print!("{}", out);
}
