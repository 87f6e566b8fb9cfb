// C14: histories, schedules and failing initialisations of the lazily built parsers. With the shim
// (--cfg shim) `std` is shim/shim.rs, so that every operation on a synchronisation primitive of the
// generated code and of parse_display is a scheduling point. Every execution runs in a forked
// process that starts with nothing initialised.
#![allow(warnings)]
use parse_display::{Display, FromStr, FromStrFormat, FromStrRegex, ParseError};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

// ------------------------------------------------------------------ callbacks of the user
mod cb {
    extern crate real_std;
    use real_std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    pub static N: AtomicI64 = AtomicI64::new(0);
    pub static FAULT: AtomicI64 = AtomicI64::new(-1);
    real_std::thread_local! { pub static HIT: real_std::cell::Cell<bool> = const { real_std::cell::Cell::new(false) }; }
    /// A scheduling point in the user's code; the call number FAULT panics.
    pub fn call() {
        #[cfg(shim)]
        std::sched::point();
        if N.fetch_add(1, SeqCst) == FAULT.load(SeqCst) {
            HIT.with(|h| h.set(true));
            panic!("fault");
        }
    }
}

// ------------------------------------------------------------------ the types
/// One digit.
#[derive(Debug, PartialEq)]
struct N(u8);
impl std::str::FromStr for N {
    type Err = ();
    fn from_str(s: &str) -> Result<N, ()> { cb::call(); if s.len() == 1 { s.parse().map(N).map_err(|_| ()) } else { Err(()) } }
}
impl FromStrRegex for N { fn from_str_regex() -> String { cb::call(); "[0-9]".into() } }
/// Lower case letters.
#[derive(Debug, PartialEq)]
struct M(String);
impl std::str::FromStr for M {
    type Err = ();
    fn from_str(s: &str) -> Result<M, ()> { cb::call(); if s != "bad" { Ok(M(s.into())) } else { Err(()) } }
}
impl FromStrRegex for M { fn from_str_regex() -> String { cb::call(); "[a-z]+".into() } }

mod m1 { #[derive(super::FromStr, Debug, PartialEq)] #[display("{a}-{b}")] pub struct X { pub a: u8, pub b: u8 } }
mod m2 { #[derive(super::FromStr, Debug, PartialEq)] #[display("{b}-{a}")] pub struct X { pub a: u8, pub b: u8 } }
#[derive(FromStr, Debug)] struct P<T>(T);
#[derive(FromStr, Debug)] #[display("{0}:{1}")] struct G<T>(#[from_str(regex_infer)] T, String);
#[derive(FromStr, Debug)] #[from_str(regex_infer)] enum GE<T, U> { #[display("{0}.{1}")] A(T, U), #[display("{0}{1}")] B(U, T), #[display("lit")] C }
#[derive(FromStr, Debug)] #[display("{0}{1}")] struct G2<T, U>(#[from_str(regex_infer)] T, #[from_str(regex_infer)] U);
struct W1;
impl FromStrFormat<u8> for W1 {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> { cb::call(); s.parse::<u8>().map(|x| x + 1).map_err(|_| ()) }
    fn regex_pattern(&self) -> String { cb::call(); "[0-9]+".into() }
}
#[derive(FromStr, Debug)] #[display("w{0}{1}")] struct W(#[from_str(with = W1)] u8, String);
#[derive(FromStr, Debug)] #[display("w{0}{1}")] struct Wo(#[from_str(regex = "[0-9]")] u8, String);
/// Its pattern is found by parsing something else.
struct Inside;
impl FromStrFormat<String> for Inside {
    type Err = ();
    fn parse(&self, s: &str) -> Result<String, ()> { cb::call(); match s.parse::<m1::X>() { Ok(x) => Ok(format!("{x:?}")), Err(_) => Err(()) } }
    fn regex_pattern(&self) -> String { cb::call(); let x: m1::X = "3-4".parse().unwrap(); format!("[0-9]+-{}*", x.b) }
}
#[derive(FromStr, Debug)] #[display("i{0}")] struct In(#[from_str(with = Inside)] String);
#[derive(FromStr, Debug)] #[display("{x};{y}")] struct Nest { #[from_str(regex_infer)] x: m1::X, y: N }
#[derive(FromStr, Debug)] #[display("<{x}>")] struct Nest2 { x: m2::X }
#[derive(FromStr, Debug)] enum E { #[display("v{0}")] A(u8), #[display("lit")] L, #[display("w{x}|{y}")] B { x: N, y: String }, #[display("{0}")] C(u8) }
#[derive(FromStr, Debug)] #[display("{a}/{b}")] #[from_str(new = Self::mk(a, b))] struct Nw { a: u8, b: u8 }
impl Nw { fn mk(a: u8, b: u8) -> Option<Self> { cb::call(); if a <= b { Some(Nw { a, b }) } else { None } } }
#[derive(FromStr, Debug)] #[display("({head}{tail})")] struct Li { #[from_str(regex = "[0-9]+")] head: N, #[display(opt)] tail: Option<Tail> }
#[derive(Debug)] struct Tail(Box<Li>);
impl std::str::FromStr for Tail { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { cb::call(); s.parse().map(|x| Tail(Box::new(x))) } }
#[derive(FromStr, Debug)] enum Wd { #[display("{0},{1},{2},{3},{4},{5},{6},{7},{8};{9}")] A(u8, u8, u8, u8, u8, u8, u8, u8, #[display("<{}>")] u8, Rec<Wd>), #[display("[{0}]")] B(Rec<P<Wd>>), #[display(".")] C }
#[derive(Debug)] struct Rec<T>(Box<T>);
impl<T: std::str::FromStr> std::str::FromStr for Rec<T> { type Err = T::Err; fn from_str(s: &str) -> Result<Self, T::Err> { cb::call(); s.parse().map(|x| Rec(Box::new(x))) } }
#[derive(Debug)] struct K<const Q: u8>(u8);
impl<const Q: u8> std::str::FromStr for K<Q> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse::<u8>().map(|x| K(x + Q)).map_err(|_| ()) } }
impl<const Q: u8> FromStrRegex for K<Q> { fn from_str_regex() -> String { format!("[0-{Q}]+") } }
#[derive(FromStr, Debug)] #[display("{0}{1}")] struct Kc<const Q: u8>(#[from_str(regex_infer)] K<Q>, String);
#[derive(FromStr, Debug)] #[display("[{x}]")] #[from_str(default)] struct De { #[display(opt)] x: Option<u8>, y: u8 }
impl Default for De { fn default() -> De { cb::call(); De { x: Some(9), y: 7 } } }

/// Patterns that cannot be used: the call panics, each time, and nothing else is affected.
struct Bad(&'static str);
impl FromStrFormat<u8> for Bad {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> { s.parse().map_err(|_| ()) }
    fn regex_pattern(&self) -> String { cb::call(); self.0.into() }
}
#[derive(FromStr, Debug)] #[display("{0}{1}")] struct Syn(#[from_str(with = Bad("(["))] u8, String);
#[derive(FromStr, Debug)] enum Grp { #[display("{0}a{1}")] A(#[from_str(with = Bad("(?<x>.)"))] u8, String), #[display("b")] B }
#[derive(Debug)]
struct Qx;
impl std::str::FromStr for Qx { type Err = (); fn from_str(s: &str) -> Result<Qx, ()> { Ok(Qx) } }
impl FromStrRegex for Qx { fn from_str_regex() -> String { cb::call(); "*".into() } }

fn r<T: std::str::FromStr + std::fmt::Debug>(s: &str) -> String where T::Err: std::fmt::Debug { match s.parse::<T>() { Ok(v) => format!("{v:?}"), Err(_) => "error".into() } }
fn rx<T: FromStrRegex>(_: &str) -> String { T::from_str_regex() }
fn local1(s: &str) -> String { #[derive(FromStr, Debug)] #[display("{0}a")] struct L(u8); r::<L>(s) }
fn local2(s: &str) -> String { #[derive(FromStr, Debug)] #[display("{0}b")] struct L(u8); r::<L>(s) }

type Op = (&'static str, &'static str, fn(&str) -> String, &'static str);
fn ops() -> Vec<Op> {
    macro_rules! o { ($($n:literal $f:expr => $($i:literal $w:literal),*;)*) => { vec![$($(($n, $i, $f as fn(&str) -> String, $w),)*)*] } }
    o! {
        "m1::X" r::<m1::X> => "1-2" "X { a: 1, b: 2 }", "1-" "error";
        "m2::X" r::<m2::X> => "1-2" "X { a: 2, b: 1 }";
        "P<u8>" r::<P<u8>> => "12" "P(12)", "ab" "error";
        "P<String>" r::<P<String>> => "ab" "P(\"ab\")";
        "G<N>" r::<G<N>> => "1:2" "G(N(1), \"2\")", "a:b" "error";
        "G<M>" r::<G<M>> => "a:b" "G(M(\"a\"), \"b\")", "1:2" "error", "bad:" "error";
        "G<bool>" r::<G<bool>> => "true:" "G(true, \"\")", "a:b" "error";
        "G<m1::X>" r::<G<m1::X>> => "1-2:x" "G(X { a: 1, b: 2 }, \"x\")";
        "G2<N, M>" r::<G2<N, M>> => "1a" "G2(N(1), M(\"a\"))", "a1" "error";
        "G2<M, N>" r::<G2<M, N>> => "a1" "G2(M(\"a\"), N(1))", "1a" "error";
        "GE<N, M>" r::<GE<N, M>> => "1.a" "A(N(1), M(\"a\"))", "a1" "B(M(\"a\"), N(1))", "lit" "C", "1a" "error";
        "GE<M, N>" r::<GE<M, N>> => "a.1" "A(M(\"a\"), N(1))", "1a" "B(N(1), M(\"a\"))", "a1" "error";
        "W" r::<W> => "w12a" "W(13, \"a\")", "wa" "error";
        "Wo" r::<Wo> => "w12a" "Wo(1, \"2a\")";
        "In" r::<In> => "i3-4" "In(\"X { a: 3, b: 4 }\")", "i3-5" "error";
        "Nest" r::<Nest> => "1-2;3" "Nest { x: X { a: 1, b: 2 }, y: N(3) }";
        "Nest2" r::<Nest2> => "<1-2>" "Nest2 { x: X { a: 2, b: 1 } }";
        "E" r::<E> => "v1" "A(1)", "lit" "L", "w1|x" "B { x: N(1), y: \"x\" }", "5" "C(5)", "x" "error";
        "Nw" r::<Nw> => "1/2" "Nw { a: 1, b: 2 }", "2/1" "error";
        "Li" r::<Li> => "(1(2))" "Li { head: N(1), tail: Some(Tail(Li { head: N(2), tail: None })) }";
        "Wd" r::<Wd> => "1,2,3,4,5,6,7,8,<9>;[1,2,3,4,5,6,7,8,<9>;.]" "A(1, 2, 3, 4, 5, 6, 7, 8, 9, Rec(B(Rec(P(A(1, 2, 3, 4, 5, 6, 7, 8, 9, Rec(C)))))))", "[[.]]" "B(Rec(P(B(Rec(P(C))))))", "[1,2,3,4,5,6,7,8,<9>;x]" "error";
        "Kc<1>" r::<Kc<1>> => "12" "Kc(K(2), \"2\")", "1x" "Kc(K(2), \"x\")";
        "Kc<5>" r::<Kc<5>> => "1x" "Kc(K(6), \"x\")", "2x" "Kc(K(7), \"x\")";
        "De" r::<De> => "[1]" "De { x: Some(1), y: 7 }", "[]" "De { x: None, y: 7 }";
        "local1" local1 => "1a" "L(1)", "1b" "error";
        "local2" local2 => "1b" "L(1)", "1a" "error";
        "Syn" r::<Syn> => "1x" "PANIC";
        "Grp" r::<Grp> => "1ax" "PANIC";
        "G<Qx>" r::<G<Qx>> => "1:2" "PANIC";
        "regex of G<N>" rx::<G<N>> => "" "";
        "regex of G<M>" rx::<G<M>> => "" "";
    }
}

// ------------------------------------------------------------------ executions in forked processes
unsafe extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn pipe(f: *mut i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; }
static mut OUT: i32 = -1;
fn send(s: &str) { let b = s.as_bytes(); let mut k = 0; while k < b.len() { let n = unsafe { write(OUT, b[k..].as_ptr(), b.len() - k) }; if n <= 0 { break } k += n as usize; } }
/// Runs `f` in a process of its own; what it sends is returned.
fn in_fork(f: impl FnOnce()) -> String {
    let mut p = [0i32; 2];
    unsafe {
        assert!(pipe(p.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            close(p[0]);
            OUT = p[1];
            alarm(20);
            f();
            _exit(0);
        }
        close(p[1]);
        let mut out = vec![];
        let mut b = [0u8; 4096];
        loop { let n = read(p[0], b.as_mut_ptr(), b.len()); if n <= 0 { break } out.extend_from_slice(&b[..n as usize]); }
        close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 { out.extend_from_slice(format!("\nDIED status {st}").as_bytes()); }
        String::from_utf8_lossy(&out).into_owned()
    }
}
fn run_op(o: &Op) -> String {
    let got = run_op_(o);
    // whatever the panic says
    if o.3 == "PANIC" && got.starts_with("PANIC") { "PANIC".into() } else { got }
}
fn run_op_(o: &Op) -> String {
    cb::HIT.with(|h| h.set(false));
    match catch_unwind(AssertUnwindSafe(|| (o.2)(o.1))) {
        Ok(s) => s,
        Err(e) => if cb::HIT.with(|h| h.get()) { "FAULT".into() } else { format!("PANIC {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) },
    }
}
#[derive(Default)]
struct Ct { states: u64, trans: u64, execs: u64, max: u64, faults: u64 }
fn bad(what: &str, input: &str, want: &str, got: &str) { println!("V\t{what}\t{input:?}\t{want:?}\t{got:?}"); }

/// All continuations of a history (the process state is the history's).
fn tree(ops: &[Op], ids: &[usize], hist: &mut Vec<usize>, depth: usize, n: &mut (u64, u64)) {
    if depth == 0 { return; }
    for &i in ids {
        let out = in_fork(|| {
            let got = run_op(&ops[i]);
            let mut n = (1u64, 1u64);
            hist.push(i);
            let mut s = String::new();
            if got != ops[i].3 {
                let h: Vec<String> = hist.iter().map(|&k| format!("{} {:?}", ops[k].0, ops[k].1)).collect();
                s = format!("V\thistory\t{:?}\t{:?}\t{:?}\n", h.join(" then "), ops[i].3, got);
                send(&s);
            } else {
                tree(ops, ids, hist, depth - 1, &mut n);
            }
            send(&format!("C {} {}\n", n.0, n.1));
        });
        for l in out.lines() {
            if let Some(c) = l.strip_prefix("C ") { let (a, b) = c.split_once(' ').unwrap(); n.0 += a.parse::<u64>().unwrap(); n.1 += b.parse::<u64>().unwrap(); }
            else if !l.is_empty() { if unsafe { OUT } >= 0 { send(&format!("{l}\n")) } else if l.starts_with('V') { println!("{l}") } else { bad("history", &format!("{:?} then {} {:?}", hist.iter().map(|&k| ops[k].1).collect::<Vec<_>>(), ops[i].0, ops[i].1), ops[i].3, l) } }
        }
    }
}

#[cfg(shim)]
fn stuck(s: &std::sched::S) -> ! {
    send(&format!("T {}\n", trace(s)));
    send(&format!("X {}\n", s.stuck.as_ref().unwrap()));
    unsafe { _exit(0) }
}
#[cfg(shim)]
fn trace(s: &std::sched::S) -> String { format!("{} {}", s.points, s.trace.iter().map(|t| format!("{},{},{}", t.0, t.1, t.2 as u8)).collect::<Vec<_>>().join(" ")) }
/// One schedule of the threads (each a list of operations).
#[cfg(shim)]
fn schedule(ops: &[Op], threads: &[Vec<usize>], prefix: Vec<u8>, fault: i64) -> String {
    extern crate real_std;
    in_fork(|| {
        cb::FAULT.store(fault, real_std::sync::atomic::Ordering::SeqCst);
        static ARRIVED: real_std::sync::atomic::AtomicUsize = real_std::sync::atomic::AtomicUsize::new(0);
        std::sched::start(threads.len(), prefix, stuck);
        let res: Vec<Vec<String>> = real_std::thread::scope(|s| {
            let hs: Vec<_> = threads.iter().enumerate().map(|(k, l)| s.spawn(move || {
                std::sched::enter(k, threads.len(), &ARRIVED);
                let r: Vec<String> = l.iter().map(|&i| run_op(&ops[i])).collect();
                std::sched::leave();
                r
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(vec!["thread died".into()])).collect()
        });
        let s = std::sched::finish();
        send(&format!("T {}\n", trace(&s)));
        for (k, r) in res.iter().enumerate() { for (j, x) in r.iter().enumerate() { send(&format!("R {k} {j} {}\n", x.replace('\n', " "))); } }
        // and afterwards
        for l in threads { for &i in l { send(&format!("A {i} {}\n", { cb::FAULT.store(-1, real_std::sync::atomic::Ordering::SeqCst); run_op(&ops[i]) })); } }
        send(&format!("N {}\n", cb::N.load(real_std::sync::atomic::Ordering::SeqCst)));
    })
}
/// All schedules up to a number of preemptions. Returns whether the fault was reached in any.
#[cfg(shim)]
fn explore(ops: &[Op], threads: &[Vec<usize>], bound: usize, fault: i64, ct: &mut Ct) -> bool {
    let mut stack: Vec<Vec<u8>> = vec![vec![]];
    let mut reached = false;
    let mut n = 0;
    let name = || threads.iter().map(|l| l.iter().map(|&i| format!("{} {:?}", ops[i].0, ops[i].1)).collect::<Vec<_>>().join(" then ")).collect::<Vec<_>>().join(" || ");
    while let Some(prefix) = stack.pop() {
        n += 1;
        let out = schedule(ops, threads, prefix.clone(), fault);
        let sch = || format!("{}{} schedule {:?}", name(), if fault >= 0 { format!(" callback {fault} panics") } else { String::new() }, prefix);
        let mut tr: Vec<(u8, u8, bool)> = vec![];
        let (mut rs, mut faults, mut ok) = (0, 0, false);
        for l in out.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "T" => {
                    let mut it = v.split(' ');
                    ct.trans += it.next().unwrap().parse::<u64>().unwrap();
                    tr = it.filter(|x| !x.is_empty()).map(|x| { let f: Vec<u8> = x.split(',').map(|y| y.parse().unwrap()).collect(); (f[0], f[1], f[2] == 1) }).collect();
                }
                "X" => { bad("schedule", &sch(), "all threads end", v); ok = true; rs = usize::MAX; }
                "R" => {
                    let mut f = v.splitn(3, ' ');
                    let (a, b, g) = (f.next().unwrap().parse::<usize>().unwrap(), f.next().unwrap().parse::<usize>().unwrap(), f.next().unwrap_or(""));
                    rs += 1;
                    let o = &ops[threads[a][b]];
                    if g == "FAULT" && fault >= 0 { faults += 1; reached = true; }
                    else if g != o.3 { bad("schedule", &sch(), &format!("{} {:?}: {}", o.0, o.1, o.3), g); }
                }
                "A" => {
                    let (i, g) = v.split_once(' ').unwrap();
                    let o = &ops[i.parse::<usize>().unwrap()];
                    if g != o.3 { bad("after a schedule", &sch(), &format!("{} {:?}: {}", o.0, o.1, o.3), g); }
                }
                "N" => ok = true,
                _ => bad("schedule", &sch(), "the process ends", l),
            }
        }
        if faults > 1 { bad("schedule", &sch(), "one call fails", &format!("{faults} calls")); }
        if !ok { bad("schedule", &sch(), "the process ends", &out); }
        ct.states += tr.len() as u64 + 1;
        ct.max = ct.max.max(tr.len() as u64);
        // the siblings of every choice after the prefix
        let mut pre = 0;
        let mut choices: Vec<u8> = vec![];
        for (k, t) in tr.iter().enumerate() {
            if k >= prefix.len() {
                for c in t.1 + 1..t.0 {
                    if pre + (t.2 as usize) <= bound {
                        let mut p = choices.clone();
                        p.push(c);
                        stack.push(p);
                    }
                }
            }
            if t.2 && t.1 > 0 { pre += 1; }
            choices.push(t.1);
        }
        if n > 200_000 { println!("LIMIT {}", name()); break; }
    }
    ct.execs += n;
    reached
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut ops = ops();
    let (w, n, deep): (usize, usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut ct = Ct::default();
    // the patterns have no fixed text: what a fresh process gives
    for o in ops.iter_mut() {
        if o.0.starts_with("regex of") {
            let f = o.2;
            o.3 = Box::leak(in_fork(|| send(&f(""))).into_boxed_str());
        }
    }
    let all: Vec<usize> = (0..ops.len()).collect();
    let firsts: Vec<usize> = { let mut v: Vec<usize> = vec![]; for i in 0..ops.len() { if v.last().is_none_or(|&j| ops[j].0 != ops[i].0) { v.push(i) } } v };
    match &a[1][..] {
        // every history of operations up to a depth
        "hist" => for i in all.iter().copied().filter(|i| i % n == w) {
            let mut k = (0, 0);
            let sub = all.clone();
            let out = in_fork(|| {
                let got = run_op(&ops[i]);
                let mut c = (1, 1);
                if got != ops[i].3 { send(&format!("V\tfresh\t{:?}\t{:?}\t{:?}\n", format!("{} {:?}", ops[i].0, ops[i].1), ops[i].3, got)); }
                else { tree(&ops, &sub, &mut vec![i], deep - 1, &mut c); }
                send(&format!("C {} {}\n", c.0, c.1));
            });
            for l in out.lines() { match l.strip_prefix("C ") { Some(c) => { let (a, b) = c.split_once(' ').unwrap(); k.0 += a.parse::<u64>().unwrap(); k.1 += b.parse::<u64>().unwrap(); }, None if l.starts_with('V') => println!("{l}"), None => bad("fresh", ops[i].1, ops[i].3, l) } }
            ct.states += k.0; ct.trans += k.1; ct.execs += k.0;
        },
        // an operation many times, then every operation, and all operations in rotation
        "long" => for i in all.iter().copied().filter(|i| i % n == w) {
            let out = in_fork(|| {
                for round in 0..deep {
                    let got = run_op(&ops[i]);
                    if got != ops[i].3 { send(&format!("V\trepeated\t{:?}\t{:?}\t{:?}\n", format!("{} {:?} time {round}", ops[i].0, ops[i].1), ops[i].3, got)); break; }
                }
                for step in [1, 7, 11] { for k in 0..ops.len() {
                    let j = (i + k * step) % ops.len();
                    let got = run_op(&ops[j]);
                    if got != ops[j].3 { send(&format!("V\tafter many\t{:?}\t{:?}\t{:?}\n", format!("{} {:?} after {} {:?} x {deep}, step {step}", ops[j].0, ops[j].1, ops[i].0, ops[i].1), ops[j].3, got)); return; }
                } }
                send("done\n");
            });
            ct.states += deep as u64 + 3 * ops.len() as u64; ct.trans += deep as u64 + 3 * ops.len() as u64; ct.execs += 1;
            for l in out.lines() { if l.starts_with('V') { println!("{l}") } else if l != "done" { bad("long", ops[i].1, "", l) } }
        },
        // a failing callback anywhere in a history
        "fault" => for i in all.iter().copied().filter(|i| i % n == w) { for &j in &all { for fault in 0.. {
            if deep == 0 && ops[i].0.split('<').next() != ops[j].0.split('<').next() && !firsts.contains(&j) { break; }
            let out = in_fork(|| {
                extern crate real_std;
                cb::FAULT.store(fault, real_std::sync::atomic::Ordering::SeqCst);
                let mut faults = 0;
                for (k, x) in [i, j, i, j].into_iter().enumerate() {
                    let got = run_op(&ops[x]);
                    if got == "FAULT" { faults += 1; }
                    else if got != ops[x].3 { send(&format!("V\tfault\t{:?}\t{:?}\t{:?}\n", format!("{} {:?} after {} {:?}, callback {fault} panics, call {k}", ops[j].0, ops[j].1, ops[i].0, ops[i].1), ops[x].3, got)); }
                }
                if faults > 1 { send(&format!("V\tfault\t{:?}\t{:?}\t{:?}\n", format!("{} {:?} then {} {:?}, callback {fault} panics", ops[i].0, ops[i].1, ops[j].0, ops[j].1), "one call fails", faults)); }
                send(&format!("F {faults}\n"));
            });
            ct.states += 4; ct.trans += 4; ct.execs += 1;
            let mut hit = false;
            for l in out.lines() { if l.starts_with('V') { println!("{l}") } else if let Some(f) = l.strip_prefix("F ") { hit = f != "0"; } else { bad("fault", &format!("{} {:?} {} {:?}", ops[i].0, ops[i].1, ops[j].0, ops[j].1), "", l) } }
            if hit { ct.faults += 1; } else { break; }
        } } },
        // all schedules of two threads with one operation each
        #[cfg(shim)]
        "pairs" => {
            let mut k = 0;
            for i in 0..ops.len() { for j in i..ops.len() {
                let same = ops[i].0.split('<').next() == ops[j].0.split('<').next();
                if !same && deep < 9 && !(firsts.contains(&i) && firsts.contains(&j)) { continue; }
                k += 1;
                if k % n != w { continue; }
                explore(&ops, &[vec![i], vec![j]], if same { if deep >= 9 { 5 } else { 3 } } else { deep.min(3) }, -1, &mut ct);
                if same || deep >= 9 { let mut f = 0; while explore(&ops, &[vec![i], vec![j]], if deep >= 9 { 2 } else { 1 }, f, &mut ct) { f += 1; ct.faults += 1; } }
            } }
        }
        // three threads, and two threads with two operations
        #[cfg(shim)]
        "more" => {
            let mut k = 0;
            for i in 0..ops.len() { for j in i..ops.len() {
                if ops[i].0.split('<').next() != ops[j].0.split('<').next() { continue; }
                for l in 0..ops.len() {
                    let rel = ops[l].0.split('<').next() == ops[j].0.split('<').next();
                    if !rel { continue; }
                    k += 1;
                    if k % n != w { continue; }
                    let b = if deep >= 9 { 2 } else { 1 };
                    explore(&ops, &[vec![i], vec![j], vec![l]], b, -1, &mut ct);
                    explore(&ops, &[vec![i, l], vec![j, i]], b, -1, &mut ct);
                }
            } }
        }
        x => panic!("{x}"),
    }
    println!("T\t{}\t{}\t{}\t{}\t{}\t{}", ct.states, ct.trans, ct.execs, ct.faults, ct.max, 0);
}
