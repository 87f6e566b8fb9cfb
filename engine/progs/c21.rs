// C21: the with-formats of parse-display-with and of users, with every write of the sink and every
// item formatter failing.
#![allow(warnings)]
use parse_display::{Display, DisplayFormat};
use parse_display_with::formats::*;
use std::cell::Cell;
use std::collections::*;
use std::fmt::{self, Formatter, Write as _};

thread_local! { static CALLS: Cell<usize> = Cell::new(0); static FAULT: Cell<Option<usize>> = Cell::new(None); static N: Cell<[u64; 3]> = Cell::new([0; 3]); }
fn count(i: usize, k: u64) { N.with(|n| { let mut x = n.get(); x[i] += k; n.set(x) }) }
fn bad(what: &str, input: &str, want: &str, got: &str) { println!("V\t{what}\t{input:?}\t{want:?}\t{got:?}"); }
/// An item; the call number FAULT writes "!" and fails.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct It(u8);
fn item(f: &mut Formatter, x: u8) -> fmt::Result {
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    if FAULT.with(|c| c.get()) == Some(n) { f.write_str("!")?; return Err(fmt::Error); }
    write!(f, "{x}")
}
macro_rules! it { ($($t:ident)*) => { $(impl fmt::$t for It { fn fmt(&self, f: &mut Formatter) -> fmt::Result { item(f, self.0) } })* } }
it!(Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp Pointer);
struct Sink { writes: Vec<String>, fail_at: Option<usize>, failed: bool, late: usize }
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed { self.late += 1; return Err(fmt::Error); }
        if self.fail_at == Some(self.writes.len()) { self.failed = true; return Err(fmt::Error); }
        self.writes.push(s.into());
        Ok(())
    }
}
fn go(g: &dyn fmt::Display, fail_at: Option<usize>, fault: Option<usize>) -> (bool, Vec<String>, usize, usize) {
    let mut k = Sink { writes: vec![], fail_at, failed: false, late: 0 };
    CALLS.with(|c| c.set(0)); FAULT.with(|c| c.set(fault));
    let r = write!(k, "{g}").is_ok();
    FAULT.with(|c| c.set(None));
    (r, k.writes, k.late, CALLS.with(|c| c.get()))
}
/// `want`: the text, with \u{1} before every item.
fn check(what: &str, want: &str, g: &dyn fmt::Display) {
    count(0, 1);
    let text = want.replace('\u{1}', "");
    let (ok, w, _, calls) = go(g, None, None);
    if !ok || w.concat() != text { return bad(what, want, &text, &format!("ok={ok} {}", w.concat())); }
    for k in 0..w.len() {
        count(0, 1); count(1, k as u64 + 1);
        let (ok, got, late, _) = go(g, Some(k), None);
        if ok || late > 0 || got != w[..k] { bad(&format!("{what}: sink fails at write {k}"), want, &w[..k].concat(), &format!("ok={ok} late={late} {}", got.concat())); }
    }
    let parts: Vec<&str> = want.split('\u{1}').collect();
    if calls != parts.len() - 1 { bad(&format!("{what}: calls"), want, &format!("{}", parts.len() - 1), &format!("{calls}")); }
    for j in 0..parts.len() - 1 {
        count(0, 1); count(1, j as u64 + 1);
        let (ok, got, _, c) = go(g, None, Some(j));
        let exp = parts[..=j].concat() + "!";
        if ok || c != j + 1 || got.concat() != exp { bad(&format!("{what}: item {j} fails"), want, &exp, &format!("ok={ok} calls={c} {}", got.concat())); }
    }
    let (ok, got, ..) = go(g, None, None);
    if !ok || got != w { bad(&format!("{what}: after the failures"), want, &text, &got.concat()); }
}
struct Sh<'a, T: ?Sized, F>(&'a F, &'a T);
impl<T: ?Sized, F: DisplayFormat<T>> fmt::Display for Sh<'_, T, F> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.0.write(f, self.1) } }
fn seqs<T: Clone>(dom: &[T], hi: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..hi {
        last = last.iter().flat_map(|s| dom.iter().map(move |d| { let mut s = s.clone(); s.push(d.clone()); s })).collect();
        out.extend(last.iter().cloned());
    }
    out
}
fn join_(items: &[String], d: &str) -> String { items.join(d) }
struct Ang;
impl<T: fmt::Display> DisplayFormat<T> for Ang { fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result { write!(f, "<{v}>") } }
fn joins(hi: usize) {
    for d in [",", "", ", ", "{}", "é"] {
        for v in seqs(&[It(1), It(20)], hi) {
            let s: Vec<String> = v.iter().map(|x| format!("\u{1}{}", x.0)).collect();
            check("delimiter", &join_(&s, d), &Sh(&delimiter::<It>(d), &v));
            check("delimiter of a list", &join_(&s, d), &Sh(&delimiter::<It>(d), &v.iter().cloned().collect::<LinkedList<It>>()));
            let a: Vec<String> = v.iter().map(|x| format!("<\u{1}{}>", x.0)).collect();
            check("join", &join_(&a, d), &Sh(&join::<It, _>(Ang, d), &v));
            let h: Vec<String> = v.iter().map(|x| format!("(\u{1}{})", x.0)).collect();
            check("join(fmt_display)", &join_(&h, d), &Sh(&join::<It, _>(fmt_display(|f: &mut Formatter, x: &It| { f.write_str("(")?; item(f, x.0)?; f.write_str(")") }), d), &v));
            check("join(fmt)", &join_(&s, d), &Sh(&join::<It, _>(fmt(), d), &v));
        }
        for v in seqs(&seqs(&[It(1), It(2)], 2), hi.min(3)) {
            let s: Vec<String> = v.iter().map(|x| join_(&x.iter().map(|x| format!("\u{1}{}", x.0)).collect::<Vec<_>>(), ";")).collect();
            check("nested", &join_(&s, d), &Sh(&join::<Vec<It>, _>(delimiter::<It>(";"), d), &v));
        }
    }
    check("fmt", "\u{1}7", &Sh(&fmt(), &It(7)));
}

#[derive(Display)] #[display("a{0}b{1}c")] struct S1(#[display(with = delimiter(","))] Vec<It>, It);
#[derive(Display)] enum E1 { #[display("<{x}|{y}>")] A { #[display("[{}]", with = delimiter(";"))] x: Vec<It>, #[display(opt)] y: Option<It> }, #[display("{0}{0}{}")] B(It) }
#[derive(Display)] #[display("{0:?}{0:x}{0:X}{0:o}{0:b}{0:e}{0:E}{0:p}{0}")] struct S2(It);
#[derive(Display)] #[display("{x:?}{x:x}{x:X}{x:o}{x:b}{x:e}{x:E}{x:p}{x}.")] struct S3 { #[display(opt)] x: Option<It> }
#[derive(Display)] #[display("{a}-{b}")] struct S4 { #[display("{0}+{1}")] a: (It, It), #[display("({})", opt, with = Ang)] b: Option<It> }
#[derive(Display)] #[display("{a:>9}|{b:<4}")] struct S5 { a: S6, b: E2 }
#[derive(Display)] struct S6(It);
#[derive(Display)] #[display(style = "snake_case")] enum E2 { AbC, #[display("{0}")] N(S6) }
#[derive(Display)] #[display("{x}{{}}{y}")] struct S7<'a, T: ?Sized, const K: usize> { x: &'a T, #[display(with = delimiter("/"))] y: [It; K] }
fn derived(hi: usize) {
    let m = |x: &It| format!("\u{1}{}", x.0);
    for v in seqs(&[It(1), It(20)], hi) {
        let s: Vec<String> = v.iter().map(m).collect();
        check("S1", &format!("a{}b\u{1}9c", join_(&s, ",")), &S1(v.clone(), It(9)));
        check("E1::A", &format!("<[{}]|>", join_(&s, ";")), &E1::A { x: v.clone(), y: None });
        check("E1::A", &format!("<[{}]|\u{1}3>", join_(&s, ";")), &E1::A { x: v.clone(), y: Some(It(3)) });
    }
    check("E1::B", "\u{1}5\u{1}5B", &E1::B(It(5)));
    check("S2", &"\u{1}5".repeat(9), &S2(It(5)));
    check("S3", &("\u{1}5".repeat(9) + "."), &S3 { x: Some(It(5)) });
    check("S3", ".", &S3 { x: None });
    check("S4", "\u{1}1+\u{1}2-(<\u{1}3>)", &S4 { a: (It(1), It(2)), b: Some(It(3)) });
    check("S4", "\u{1}1+\u{1}2-", &S4 { a: (It(1), It(2)), b: None });
    check("S5", "\u{1}1|\u{1}2", &S5 { a: S6(It(1)), b: E2::N(S6(It(2))) });
    check("S7", "\u{1}1{}\u{1}2/\u{1}3", &S7 { x: &It(1), y: [It(2), It(3)] });
    check("S7", "str{}", &S7::<str, 0> { x: "str", y: [] });
    let dynd: &dyn fmt::Display = &It(4);
    check("S7", "\u{1}4{}\u{1}2", &S7 { x: dynd, y: [It(2)] });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hi: usize = a[2].parse().unwrap();
    match &a[1][..] { "join" => joins(hi), "derive" => derived(hi), _ => panic!() }
    let n = N.with(|n| n.get());
    println!("T\t{}\t{}\t{}", n[0], n[1], n[0]);
}
