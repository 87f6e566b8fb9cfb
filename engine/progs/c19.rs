// C19: every sequence / every string of bounded length through the formats of parse-display-with,
// against an index loop (printing) and a byte search (splitting).
#![allow(warnings)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use parse_display_with::formats::*;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::fmt::{self, Debug, Formatter, Write as _};

struct Ct { states: u64, trans: u64, valid: u64, accepted: u64, rejected: u64, round: u64, bad: u64 }
thread_local! { static CT: RefCell<Ct> = RefCell::new(Ct { states: 0, trans: 0, valid: 0, accepted: 0, rejected: 0, round: 0, bad: 0 }); }
fn ct(f: impl FnOnce(&mut Ct)) { CT.with(|c| f(&mut c.borrow_mut())) }
fn esc(s: &str) -> String { format!("{s:?}") }
fn bad(what: &str, input: &str, want: &str, got: &str) {
    ct(|c| c.bad += 1);
    if CT.with(|c| c.borrow().bad) < 200 { println!("V\t{what}\t{}\t{}\t{}", esc(input), esc(want), esc(got)); }
}
struct Sh<'a, T: ?Sized, F>(&'a F, &'a T);
impl<T: ?Sized, F: DisplayFormat<T>> fmt::Display for Sh<'_, T, F> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.0.write(f, self.1) } }
fn show<T: ?Sized, F: DisplayFormat<T>>(f: &F, v: &T) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut s = String::new(); match write!(s, "{}", Sh(f, v)) { Ok(()) => s, Err(_) => "fmt::Error".into() } })).unwrap_or("PANIC".into())
}
fn ref_join(items: &[String], d: &str) -> String {
    let mut s = String::new();
    for i in 0..items.len() { if i > 0 { s += d; } s += &items[i]; }
    s
}
/// leftmost non-overlapping occurrences
fn ref_split<'a>(s: &'a str, d: &str) -> Vec<&'a str> {
    assert!(!d.is_empty());
    let (b, k) = (s.as_bytes(), d.as_bytes());
    let (mut out, mut from, mut i) = (vec![], 0, 0);
    while i + k.len() <= b.len() {
        if &b[i..i + k.len()] == k { out.push(&s[from..i]); i += k.len(); from = i; } else { i += 1; }
    }
    out.push(&s[from..]);
    out
}
fn seqs<T: Clone>(dom: &[T], hi: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..hi {
        last = last.iter().flat_map(|s| dom.iter().map(move |d| { let mut s = s.clone(); s.push(d.clone()); s })).collect();
        out.extend(last.iter().cloned());
    }
    out
}
fn texts(alpha: &[char], hi: usize) -> Vec<String> { seqs(alpha, hi).into_iter().map(|s| s.into_iter().collect()).collect() }
const DS: [&str; 12] = [",", ", ", "ab", "aa", "aba", "é", "\n", "{}", "\u{0}", ".", "-", "0,"];

/// An item whose own text depends on the formatter's state, so that leaking flags would show.
#[derive(Clone, Debug, PartialEq)]
struct Item(String);
impl fmt::Display for Item { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str(&self.0) } }
struct Ang;
impl<T: fmt::Display> DisplayFormat<T> for Ang { fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result { write!(f, "<{v}>") } }
impl<T: std::str::FromStr> FromStrFormat<T> for Ang {
    type Err = String;
    fn parse(&self, s: &str) -> Result<T, String> { s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).and_then(|s| s.parse().ok()).ok_or(format!("ang {s}")) }
}
/// A user's container whose iterator only goes forward once and lies about its length.
struct Odd(Vec<u8>);
struct OddIter<'a>(&'a [u8], usize);
impl<'a> Iterator for OddIter<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        self.1 += 1;
        // not fused: elements appear again after the first None
        if self.1 == self.0.len() + 1 { None } else { self.0.get((self.1 - 1) % (self.0.len() + 1)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
}
impl<'a> IntoIterator for &'a Odd { type Item = &'a u8; type IntoIter = OddIter<'a>; fn into_iter(self) -> OddIter<'a> { OddIter(&self.0, 0) } }
/// A container that keeps what it was given, in order.
#[derive(Debug, PartialEq, Clone)]
struct Rec<T>(Vec<T>);
impl<T> FromIterator<T> for Rec<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut v = vec![]; for x in i { v.push(x) } Rec(v) } }

fn cmp_print(what: &str, d: &str, items: &[String], got: String) {
    ct(|c| { c.states += 1; c.trans += items.len() as u64 + 1; c.valid += 1; });
    let want = ref_join(items, d);
    if got != want { bad(&format!("print {what} delimiter {d:?}"), &format!("{items:?}"), &want, &got); }
}
fn printing(hi: usize) {
    for d in DS.iter().chain(&["", "a,", "%"]) {
        for v in seqs(&[0u8, 1, 10, 255], hi) {
            let it: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            let f = delimiter::<u8>(d);
            cmp_print("Vec", d, &it, show(&f, &v));
            cmp_print("slice", d, &it, show(&f, &v[..]));
            cmp_print("VecDeque", d, &it, show(&f, &v.iter().copied().collect::<VecDeque<u8>>()));
            cmp_print("LinkedList", d, &it, show(&f, &v.iter().copied().collect::<LinkedList<u8>>()));
            cmp_print("Odd", d, &it, show(&f, &Odd(v.clone())));
            let set: BTreeSet<u8> = v.iter().copied().collect();
            let sit: Vec<String> = set.iter().map(|x| x.to_string()).collect();
            cmp_print("BTreeSet", d, &sit, show(&f, &set));
            let hs: HashSet<u8> = v.iter().copied().collect();
            let hit: Vec<String> = hs.iter().map(|x| x.to_string()).collect();
            cmp_print("HashSet", d, &hit, show(&f, &hs));
            if v.len() <= 1 { cmp_print("Option", d, &it, show(&f, &v.first().copied())); }
            if v.len() == 2 { cmp_print("array", d, &it, show(&f, &[v[0], v[1]])); }
            let ait: Vec<String> = v.iter().map(|x| format!("<{x}>")).collect();
            cmp_print("join(Ang)", d, &ait, show(&join::<u8, _>(Ang, d), &v));
            let hx: Vec<String> = v.iter().map(|x| format!("{x:02x}")).collect();
            cmp_print("join(fmt_display)", d, &hx, show(&join::<u8, _>(fmt_display(|f: &mut Formatter, x: &u8| write!(f, "{x:02x}")), d), &v));
            cmp_print("join(fmt)", d, &it, show(&join::<u8, _>(fmt(), d), &v));
            // a format spec of the placeholder reaches the items, never the delimiters
            let fsp = join::<u8, _>(fmt_display(|f: &mut Formatter, x: &u8| { let t = format!("{x}/{:?}/{:?}/{:?}/{}{}", f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus()); f.write_str(&t) }), d);
            macro_rules! spec { ($($sp:literal $st:expr),*) => { $(
                cmp_print(concat!("join(Ang) in {", $sp, "}"), d, &ait, format!(concat!("{", $sp, "}"), Sh(&join::<u8, _>(Ang, d), &v)));
                let st: Vec<String> = v.iter().map(|x| format!("{x}/{}", $st)).collect();
                cmp_print(concat!("join(fmt_display) in {", $sp, "}"), d, &st, format!(concat!("{", $sp, "}"), Sh(&fsp, &v)));
            )* } }
            spec!(":5" "Some(5)/None/' '/falsefalse", ":<9" "Some(9)/None/' '/falsefalse", ":*^3.1" "Some(3)/Some(1)/'*'/falsefalse", ":.0" "None/Some(0)/' '/falsefalse", ":#07" "Some(7)/None/' '/truefalse", ":+" "None/None/' '/falsetrue");
            // the same format value used again
            let g = delimiter::<u8>(d);
            let _ = show(&g, &vec![9u8, 9]);
            cmp_print("reused", d, &it, show(&g, &v));
        }
        for v in seqs(&["", "a", ",", "ab", "é\n"].map(|s| s.to_string()), hi.min(4)) {
            cmp_print("String", d, &v, show(&delimiter::<String>(d), &v));
            let sl: Vec<&str> = v.iter().map(|s| &s[..]).collect();
            cmp_print("&str", d, &v, show(&delimiter::<&str>(d), &sl));
            let im: Vec<Item> = v.iter().cloned().map(Item).collect();
            cmp_print("Item", d, &v, show(&delimiter::<Item>(d), &im));
        }
        for d2 in [";", ",", "ab"] {
            for v in seqs(&seqs(&[0u8, 12], 2), hi.min(3)) {
                let it: Vec<String> = v.iter().map(|x| ref_join(&x.iter().map(|x| x.to_string()).collect::<Vec<_>>(), d2)).collect();
                cmp_print("nested", d, &it, show(&join::<Vec<u8>, _>(delimiter::<u8>(d2), d), &v));
            }
        }
    }
}
fn cmp_parse<T: Debug + PartialEq, E: Debug + PartialEq>(what: &str, d: &str, s: &str, want: Result<T, Vec<E>>, got: impl FnOnce() -> Result<T, E>) {
    ct(|c| { c.states += 1; c.trans += 1; c.valid += 1; if want.is_ok() { c.accepted += 1 } else { c.rejected += 1 } });
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(got)) { Ok(g) => g, Err(_) => return bad(&format!("parse {what} delimiter {d:?}"), s, &format!("{want:?}"), "PANIC") };
    let ok = match (&want, &got) { (Ok(a), Ok(b)) => a == b, (Err(es), Err(e)) => es.contains(e), _ => false };
    if !ok { bad(&format!("parse {what} delimiter {d:?}"), s, &format!("{want:?}"), &format!("{got:?}")); }
}
/// items or the errors of all failing items
fn all<T, E>(rs: Vec<Result<T, E>>) -> Result<Vec<T>, Vec<E>> {
    let (mut v, mut e) = (vec![], vec![]);
    for r in rs { match r { Ok(x) => v.push(x), Err(x) => e.push(x) } }
    if e.is_empty() { Ok(v) } else { Err(e) }
}
fn parsing(hi: usize) {
    for d in DS {
        let mut alpha = vec!['0', '1', 'x'];
        for c in d.chars() { if !alpha.contains(&c) { alpha.push(c) } }
        for s in texts(&alpha, hi + (alpha.len() < 5) as usize) {
            let parts = ref_split(&s, d);
            let f = delimiter::<u8>(d);
            let want = || all(parts.iter().map(|p| p.parse::<u8>()).collect());
            cmp_parse("Vec<u8>", d, &s, want(), || f.parse(&s));
            cmp_parse("Rec<u8>", d, &s, want().map(Rec), || f.parse(&s));
            cmp_parse("VecDeque<u8>", d, &s, want().map(VecDeque::from), || f.parse(&s));
            cmp_parse("BTreeSet<u8>", d, &s, want().map(|v| v.into_iter().collect()), || -> Result<BTreeSet<u8>, _> { f.parse(&s) });
            let fs = delimiter::<String>(d);
            cmp_parse("Rec<String>", d, &s, Ok::<_, Vec<std::convert::Infallible>>(Rec(parts.iter().map(|p| p.to_string()).collect())), || fs.parse(&s));
            let fc = delimiter::<char>(d);
            cmp_parse("String of char", d, &s, all(parts.iter().map(|p| p.parse::<char>()).collect()).map(|v| v.into_iter().collect()), || -> Result<String, _> { fc.parse(&s) });
            let calls = RefCell::new(vec![]);
            let ff = join::<u8, _>(fmt_from_str(|s: &str| { calls.borrow_mut().push(s.to_string()); s.len().try_into().ok().filter(|x| *x != 2u8).ok_or(s.to_string()) }), d);
            cmp_parse("join(fmt_from_str)", d, &s, all(parts.iter().map(|p| if p.len() == 2 || p.len() > 255 { Err(p.to_string()) } else { Ok(p.len() as u8) }).collect()).map(Rec), || ff.parse(&s));
            // every item asked for at most once, in order
            let c = calls.borrow().clone();
            if c.len() > parts.len() || c.iter().zip(&parts).any(|(a, b)| a != b) { bad("calls of join(fmt_from_str)", &s, &format!("{parts:?}"), &format!("{c:?}")); }
            let fa = join::<u8, _>(Ang, d);
            cmp_parse("join(Ang)", d, &s, all(parts.iter().map(|p| FromStrFormat::<u8>::parse(&Ang, p)).collect()), || -> Result<Vec<u8>, _> { fa.parse(&s) });
            let fn_ = join::<Vec<u8>, _>(delimiter::<u8>("x"), d);
            let w = { let (mut v, mut e) = (vec![], vec![]); for p in &parts { match all(ref_split(p, "x").iter().map(|q| q.parse::<u8>()).collect()) { Ok(x) => v.push(x), Err(x) => e.extend(x) } } if e.is_empty() { Ok(v) } else { Err(e) } };
            cmp_parse("nested", d, &s, w, || -> Result<Vec<Vec<u8>>, _> { fn_.parse(&s) });
        }
    }
}
fn round(hi: usize) {
    for d in DS {
        let dom: Vec<String> = ["", "a", "b", "ab", "0", "x y", "é", ",", "\n"].iter().map(|s| s.to_string()).collect();
        for v in seqs(&dom, hi.min(4)) {
            if v.is_empty() || v.iter().any(|i| i.contains(d)) { continue; }
            // a delimiter that overlaps itself can also appear across the end of an item
            if ref_split(&ref_join(&v, d), d) != v { continue; }
            ct(|c| { c.states += 1; c.trans += 2; c.valid += 1; c.round += 1; });
            let f = delimiter::<String>(d);
            let t = show(&f, &v);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FromStrFormat::<Vec<String>>::parse(&f, &t))) {
                Ok(Ok(w)) if w == v => {}
                r => bad("round trip", &format!("{v:?} delimiter {d:?}"), &format!("{v:?}"), &format!("{t:?} -> {r:?}")),
            }
        }
    }
}
fn functions() {
    // fmt_display and fmt_from_str: one call, the caller's formatter, the function's result
    for ok in [true, false] {
        for out in ["", "a", "{x}", "é\n"] {
            for v in ["", "q", "\u{0}é"] {
                let n = Cell::new(0);
                let f = fmt_display(|f: &mut Formatter, s: &str| {
                    n.set(n.get() + 1);
                    write!(f, "{out}{s}")?;
                    write!(f, "|{:?}|{:?}|{}", f.width(), f.precision(), f.alternate())?;
                    if ok { Ok(()) } else { Err(fmt::Error) }
                });
                let mut t = String::new();
                let r = write!(t, "{:#7.3}", Sh(&f, v));
                ct(|c| { c.states += 1; c.trans += 1; c.valid += 1; });
                let want = format!("{out}{v}|Some(7)|Some(3)|true");
                if n.get() != 1 || r.is_ok() != ok || t != want { bad("fmt_display", v, &format!("{want} ok={ok} calls=1"), &format!("{t} {r:?} calls={}", n.get())); }
                let n = Cell::new(0);
                let seen = RefCell::new(String::new());
                let f = fmt_from_str(|s: &str| { n.set(n.get() + 1); *seen.borrow_mut() = s.into(); if ok { Ok(s.len()) } else { Err(out.to_string()) } });
                let r: Result<usize, String> = f.parse(v);
                let want = if ok { Ok(v.len()) } else { Err(out.to_string()) };
                ct(|c| { c.states += 1; c.trans += 1; c.valid += 1; });
                if n.get() != 1 || r != want || *seen.borrow() != v { bad("fmt_from_str", v, &format!("{want:?} calls=1"), &format!("{r:?} calls={} given {:?}", n.get(), seen.borrow())); }
            }
        }
    }
    for s in texts(&['0', '7', '-', 'x', ' '], 4) {
        cmp_parse("fmt u8", "", &s, s.parse::<u8>().map_err(|e| vec![e]), || fmt().parse(&s));
        cmp_parse("fmt String", "", &s, Ok::<_, Vec<std::convert::Infallible>>(s.clone()), || fmt().parse(&s));
        cmp_print("fmt", "", &[s.clone()], show(&fmt(), &s[..]));
    }
}

fn show_b(f: &mut Formatter, s: &String) -> fmt::Result { f.write_str(s) }
fn parse_b(s: &str) -> Result<String, ()> { if s.contains('[') { Err(()) } else { Ok(s.to_string()) } }
#[derive(Display, FromStr, Debug, PartialEq)]
struct S1(#[display(with = delimiter(","))] Vec<u8>);
#[derive(Display, FromStr, Debug, PartialEq)]
#[display("[{a}]{b}")]
struct S2 { #[display(with = delimiter(","))] a: Vec<u8>, #[display(with = join(delimiter(","), ";"))] b: Vec<Vec<u8>> }
#[derive(Display, FromStr, Debug, PartialEq)]
enum E1 { #[display("a{0}")] A(#[display("<{}>", with = delimiter(","))] Vec<u8>), #[display("b{x}")] B { #[display(opt, with = delimiter(";"))] x: Option<Vec<u8>> }, #[display("{0}")] C(#[display(with = delimiter("a"))] VecDeque<u8>) }
#[derive(Display, FromStr, Debug, PartialEq)]
struct S3<T>(#[display(with = delimiter(","), bound(T: fmt::Display))] #[from_str(bound(T: std::str::FromStr))] Vec<T>);
#[derive(Display, FromStr, Debug, PartialEq)]
#[from_str(regex = "(?<a>[0-9,]*)(?<b>.*)")]
#[display("{a}{b}")]
struct S4 { #[display(with = delimiter(","))] a: Vec<u8>, #[display(with = fmt_display(show_b))] #[from_str(with = fmt_from_str(parse_b))] b: String }

#[derive(Display)]
#[display("{0:5}|{1:#.1}|{2:>3}")]
struct S5(#[display(with = join(Ang, ","))] Vec<u8>, #[display(opt, with = join(Ang, "é"))] Option<Vec<u8>>, #[display("[{:9}]", with = join(Ang, ""))] Vec<u8>);
fn list(s: &str, d: &str) -> Option<Vec<u8>> { all(ref_split(s, d).iter().map(|q| q.parse::<u8>()).collect()).ok() }
fn lists(s: &str) -> Option<Vec<Vec<u8>>> { ref_split(s, ";").iter().map(|q| list(q, ",")).collect() }
fn derived(hi: usize) {
    fn strip<'a>(s: &'a str, p: &str, q: &str) -> Option<&'a str> { s.strip_prefix(p)?.strip_suffix(q) }
    let ck = |what: &str, s: &str, want: Option<String>, got: &dyn Fn() -> Option<String>| {
        cmp_parse(what, "", s, want.ok_or(vec![()]), || got().ok_or(()));
    };
    for s in texts(&['1', '2', ',', ';', '[', ']', 'a', 'b', '<', '>'], hi) {
        ck("S1", &s, list(&s, ",").map(|v| format!("{:?}", S1(v))), &|| s.parse::<S1>().ok().map(|x| format!("{x:?}")));
        ck("S3", &s, list(&s, ",").map(|v| format!("{:?}", S3(v))), &|| s.parse::<S3<u8>>().ok().map(|x| format!("{x:?}")));
        let w = s.strip_prefix("[").and_then(|s| s.split_once("]")).and_then(|(a, b)| Some(S2 { a: list(a, ",")?, b: lists(b)? }));
        ck("S2", &s, w.map(|v| format!("{v:?}")), &|| s.parse::<S2>().ok().map(|x| format!("{x:?}")));
        let w = strip(&s, "a<", ">").and_then(|t| list(t, ",")).map(E1::A)
            .or_else(|| s.strip_prefix("b").and_then(|t| if t.is_empty() { Some(None) } else { list(t, ";").map(Some) }).map(|x| E1::B { x }))
            .or_else(|| list(&s, "a").map(|v| E1::C(v.into())));
        ck("E1", &s, w.map(|v| format!("{v:?}")), &|| s.parse::<E1>().ok().map(|x| format!("{x:?}")));
        let k = s.find(|c: char| !(c.is_ascii_digit() || c == ',')).unwrap_or(s.len());
        let w = list(&s[..k], ",").filter(|_| !s.contains('[')).map(|a| S4 { a, b: s[k..].to_string() });
        ck("S4", &s, w.map(|v| format!("{v:?}")), &|| s.parse::<S4>().ok().map(|x| format!("{x:?}")));
    }
    for v in seqs(&[0u8, 5, 255], 3) {
        let it: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        let c = ref_join(&it, ",");
        let p = |what: &str, want: String, got: String| cmp_print(what, "", &[want], got);
        p("S1", c.clone(), S1(v.clone()).to_string());
        p("S3", c.clone(), S3(v.clone()).to_string());
        for w in seqs(&seqs(&[1u8, 3], 2), 2) {
            let ws: Vec<String> = w.iter().map(|x| ref_join(&x.iter().map(|x| x.to_string()).collect::<Vec<_>>(), ",")).collect();
            p("S2", format!("[{c}]{}", ref_join(&ws, ";")), S2 { a: v.clone(), b: w.clone() }.to_string());
        }
        p("E1::A", format!("a<{c}>"), E1::A(v.clone()).to_string());
        p("E1::B", format!("b{}", ref_join(&it, ";")), E1::B { x: Some(v.clone()) }.to_string());
        p("E1::C", ref_join(&it, "a"), E1::C(v.iter().copied().collect()).to_string());
        p("S4", format!("{c}q{{"), S4 { a: v.clone(), b: "q{".into() }.to_string());
    }
    for v in seqs(&[0u8, 5, 255], 3) {
        for w in [None, Some(v.clone())] {
            let it: Vec<String> = v.iter().map(|x| format!("<{x}>")).collect();
            let want = format!("{}|{}|[{}]", ref_join(&it, ","), if w.is_some() { ref_join(&it, "é") } else { String::new() }, it.concat());
            cmp_print("S5", "", &[want], S5(v.clone(), w, v.clone()).to_string());
        }
    }
    cmp_print("E1::B None", "", &["b".to_string()], E1::B { x: None }.to_string());
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let hi: usize = a[2].parse().unwrap();
    match &a[1][..] { "print" => printing(hi.min(6)), "parse" => parsing(hi), "round" => round(hi), "derive" => derived(hi), "fn" => functions(), _ => panic!() }
    CT.with(|c| { let c = c.borrow(); println!("T\t{}\t{}\t{}\t{}\t{}\t{}", c.states, c.trans, c.valid, c.accepted, c.rejected, c.round); });
}
