//! Reads patterns (hex of their UTF-8 bytes, one per line), writes 1 for those the regex crate takes and 0 for the others.
use std::io::Read;
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut out = String::new();
    for l in s.lines() {
        let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        let p = String::from_utf8(b).unwrap();
        out += if regex::Regex::new(&p).is_ok() { "1\n" } else { "0\n" };
    }
    print!("{out}");
}
