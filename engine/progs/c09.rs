// C09: from_str_regex of every built-in implementation against the type's own parse, alone and embedded in derived types.
#![allow(warnings)]
use parse_display::{FromStr, FromStrRegex};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::fmt::Debug;
use std::num::{IntErrorKind, NonZero, ParseIntError};
use std::path::PathBuf;

struct Ct { states: u64, trans: u64, accepted: u64, rejected: u64, bad: u64 }
thread_local! { static CT: RefCell<Ct> = RefCell::new(Ct { states: 0, trans: 0, accepted: 0, rejected: 0, bad: 0 }); }
fn bad(what: &str, input: &str, want: &str, got: &str) {
    CT.with(|c| { let mut c = c.borrow_mut(); c.bad += 1; if c.bad < 60 { println!("V\t{what}\t{input:?}\t{}\t{}", want.escape_default(), got.escape_default()); } });
}
/// A failure of a string of the right form.
trait Range { fn range(&self) -> bool { false } }
impl Range for ParseIntError { fn range(&self) -> bool { matches!(self.kind(), IntErrorKind::PosOverflow | IntErrorKind::NegOverflow | IntErrorKind::Zero) } }
impl Range for std::num::ParseFloatError {}
impl Range for std::str::ParseBoolError {}
impl Range for std::char::ParseCharError {}
impl Range for std::convert::Infallible {}

fn texts(alpha: &[char], hi: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..hi {
        last = last.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}
/// every string one edit away (over a few characters)
fn edits(s: &str, alpha: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![s.to_string()];
    for i in 0..=c.len() {
        for x in alpha { let mut d = c.clone(); d.insert(i, *x); out.push(d.iter().collect()); if i < c.len() { let mut d = c.clone(); d[i] = *x; out.push(d.iter().collect()); } }
        if i < c.len() {
            let mut d = c.clone(); d.remove(i); out.push(d.iter().collect());
            let mut d = c.clone(); d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() }; out.push(d.iter().collect());
        }
    }
    out
}
fn check<T>(name: &str, space: &BTreeSet<String>, derived: &[(&str, &str, &str, &dyn Fn(&str) -> Option<T>, String)])
where T: FromStrRegex + PartialEq + Debug, T::Err: Range + Debug {
    let p = T::from_str_regex();
    let re = match regex::Regex::new(&format!(r"\A(?:{p})\z")) { Ok(r) => r, Err(e) => return bad(&format!("{name}: pattern"), &p, "a regex", &e.to_string()) };
    // embedded in longer patterns, the pattern keeps its meaning when it is put in a group
    let dre: Vec<_> = derived.iter().map(|d| regex::Regex::new(&format!(r"\A(?:{})\z", d.4)).unwrap()).collect();
    for s in space {
        let m = re.is_match(s);
        let v = s.parse::<T>();
        CT.with(|c| { let mut c = c.borrow_mut(); c.states += 1; c.trans += 1 + derived.len() as u64; if m { c.accepted += 1 } else { c.rejected += 1 } });
        let range = matches!(&v, Err(e) if e.range());
        match &v {
            Ok(_) if !m => bad(&format!("{name}: a string that parses"), s, "matched by from_str_regex", &p),
            Err(e) if m && !range => bad(&format!("{name}: a string that does not parse ({e:?})"), s, "not matched by from_str_regex", &p),
            _ => {}
        }
        for ((n, pre, post, f, _), r) in derived.iter().zip(&dre) {
            let t = format!("{pre}{s}{post}");
            let got = f(&t);
            let same = match (&v, &got) { (Ok(a), Some(b)) => a == b || a != a && b != b, (Err(_), None) => true, _ => false };
            if !same { bad(&format!("{name} in {n}"), &t, &format!("{:?}", v.as_ref().ok()), &format!("{got:?}")); }
            if r.is_match(&t) != m { bad(&format!("pattern of {name} in {n}"), &t, &m.to_string(), r.as_str()); }
        }
    }
}
macro_rules! types { ($space:expr; $($m:ident $t:ty),*) => { $({
    #[derive(FromStr)] #[display("<{0}>")] struct A(#[from_str(regex_infer)] $t);
    #[derive(FromStr)] #[display("{x}")] struct B { #[display("a{}.")] #[from_str(regex_infer)] x: $t }
    #[derive(FromStr)] enum C { #[display("n{0}o")] V(#[from_str(regex_infer)] $t) }
    #[derive(FromStr)] #[display("-{x}")] struct D { #[display("{}", opt)] #[from_str(regex_infer)] x: Option<$t> }
    #[derive(FromStr)] #[display("({0})")] struct E(#[from_str(regex_infer)] A);
    let sp = $space;
    check::<$t>(stringify!($t), &sp, &[
        ("struct", "<", ">", &|s| s.parse::<A>().ok().map(|v| v.0), A::from_str_regex()),
        ("field format", "a", ".", &|s| s.parse::<B>().ok().map(|v| v.x), B::from_str_regex()),
        ("variant", "n", "o", &|s| s.parse::<C>().ok().map(|v| match v { C::V(v) => v }), C::from_str_regex()),
        ("nested", "(<", ">)", &|s| s.parse::<E>().ok().map(|v| v.0.0), E::from_str_regex()),
    ]);
    // opt: the empty text is None, everything else goes to the type
    for s in sp.iter().filter(|s| !s.is_empty()) {
        let t = format!("-{s}");
        let (w, g) = (s.parse::<$t>().ok(), t.parse::<D>().ok().and_then(|d| d.x));
        CT.with(|c| c.borrow_mut().trans += 1);
        if !(w == g || w != w && g != g) && format!("{w:?}") != format!("{g:?}") { bad(concat!(stringify!($t), " in an opt field"), &t, &format!("{w:?}"), &format!("{g:?}")); }
    }
})* } }
fn ints(hi: usize) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = texts(&['+', '-', '0', '1', '9', 'a', ' ', '_', '٣'], hi).into_iter().collect();
    let al = ['+', '-', '0', '9', '.', '\n'];
    for n in [u8::MAX as u128, i8::MAX as u128, 128, u16::MAX as u128, i16::MAX as u128, 32768, u32::MAX as u128, i32::MAX as u128, 1 << 31, u64::MAX as u128, i64::MAX as u128, 1 << 63, i128::MAX as u128, 1 << 127, u128::MAX - 1] {
        for m in [n - 1, n, n + 1] { for g in ["", "-", "+", "00", "-0"] { s.extend(edits(&format!("{g}{m}"), &al)); } }
    }
    s.extend(edits(&u128::MAX.to_string(), &al));
    s
}
fn floats(hi: usize) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = texts(&['+', '-', '0', '7', '.', 'e', 'E'], hi).into_iter().collect();
    for w in ["inf", "infinity", "nan", "1e5", "1.5E-10", "0x1p3", "1_0", "1e400", "1e-400", "340282350000000000000000000000000000000"] {
        for g in ["", "+", "-"] {
            // every casing
            let c: Vec<char> = w.chars().collect();
            for k in 0..1u32 << c.len().min(8) {
                s.insert(format!("{g}{}", c.iter().enumerate().map(|(i, x)| if i < 8 && k >> i & 1 == 1 { x.to_ascii_uppercase() } else { *x }).collect::<String>()));
            }
            for e in edits(&format!("{g}{w}"), &['+', '-', '.', 'e', 'n', 'f', '0', ' ', '\n', 'ı', 'ſ']) { s.insert(e); }
        }
    }
    s
}
fn bools(hi: usize) -> BTreeSet<String> {
    let al = ['t', 'r', 'u', 'e', 'f', 'a', 'l', 's', 'T', '1', '0', ' ', '\n', '|'];
    let mut s: BTreeSet<String> = texts(&al, hi.min(3)).into_iter().collect();
    for w in ["true", "false", "truefalse", "true|false", "yes"] { for e in edits(w, &al) { s.extend(edits(&e, &al[..4])); } }
    s
}
fn strings(hi: usize) -> BTreeSet<String> {
    texts(&['a', '\n', '\r', 'é', '\u{0}', '/', '\u{2028}', '.', '<'], hi).into_iter().collect()
}
fn chars(all: bool) -> BTreeSet<String> {
    let mut s = strings(3);
    for c in '\u{0}'..=char::MAX { if all || (c as u32) < 0x3000 || c as u32 % 97 == 0 { s.insert(c.to_string()); } }
    for c in ["e\u{301}", "👨‍👩‍👧", "\r\n"] { s.insert(c.into()); }
    s
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hi: usize = a[2].parse().unwrap();
    match &a[1][..] {
        "uint" => { types!(ints(hi); a u8, b u16, c u32, d u64, e u128, f usize); }
        "nzuint" => { types!(ints(hi); a NonZero<u8>, b NonZero<u16>, c NonZero<u32>, d NonZero<u64>, e NonZero<u128>, f NonZero<usize>); }
        "sint" => { types!(ints(hi); a i8, b i16, c i32, d i64, e i128, f isize); }
        "nzsint" => { types!(ints(hi); a NonZero<i8>, b NonZero<i16>, c NonZero<i32>, d NonZero<i64>, e NonZero<i128>, f NonZero<isize>); }
        "f32" => { types!(floats(hi); a f32); }
        "f64" => { types!(floats(hi); a f64); }
        "bool" => { types!(bools(hi); a bool); }
        "char" => { types!(chars(hi > 5); a char); }
        "string" => { types!(strings(hi); a String, b OsString, c PathBuf); }
        _ => panic!(),
    }
    CT.with(|c| { let c = c.borrow(); println!("T\t{}\t{}\t{}\t{}\t{}", c.states, c.trans, c.states, c.accepted, c.rejected); });
}
