"""C02: every format spec of a bounded spec space x every kind of placeholder, against std::format! in the same program."""
import itertools
import json
import os
import subprocess

from common import TIER, CheckError, engine, err_lines, externs, pmap, rustc

TYPES = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
FILLS = ["*", "0", "<", "^", "-", "+", "#", ".", "?", "5", "x", " ", "$", "\u00e9", "\u3042", '"', "\\", "\t", "_"]


def specs():
    """The space of specs: the full product of a few values per part, plus every fill with every alignment."""
    al = ["", "<", "^", ">", "*<", "0^", "->", "\u00e9^"]
    if TIER == "thorough":
        al += ["#<", "x>", "5^", " <", "+^"]
    widths = ["", "1", "7", "12"] if TIER == "thorough" else ["", "1", "12"]
    precs = ["", ".0", ".3", ".12"] if TIER == "thorough" else ["", ".0", ".3"]
    out = []
    for a, s, h, z, w, p, t in itertools.product(al, ["", "+", "-"], ["", "#"], ["", "0"], widths, precs, TYPES):
        out.append(a + s + h + z + w + p + t)
    for f, a, w, t in itertools.product(FILLS, "<^>", ["", "0", "9", "011"], TYPES):
        out.append(f + a + w + t)
        out.append(f + a + "+#" + w + ".2" + t)
    return sorted(set(out))


def ty(s):
    for t in ("x?", "X?"):
        if s.endswith(t):
            return t
    return s[-1] if s and s[-1] in "?oxXpbeE" and not (len(s) == 1 and s not in TYPES) else ""


PRELUDE = r'''
#![allow(warnings)]
use parse_display::{Display, DisplayFormat};
use std::fmt::{Formatter, Result as R};
fn dump(f: &mut Formatter, tr: &str) -> R {
    let al = match f.align() { None => "n", Some(std::fmt::Alignment::Left) => "l", Some(std::fmt::Alignment::Center) => "c", Some(std::fmt::Alignment::Right) => "r" };
    let s = format!("{tr} {:?} {al} {} {} {} {} {:?} {:?} ", f.fill(), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad(), f.width(), f.precision());
    f.write_str(&s)?;
    std::fmt::Debug::fmt(&171u8, f)?;
    f.pad("qq")
}
pub struct P;
pub struct N { pub y: P, pub z: (u8, P) }
macro_rules! imp { ($t:ty: $($tr:ident)*) => { $(impl std::fmt::$tr for $t { fn fmt(&self, f: &mut Formatter) -> R { dump(f, stringify!($tr)) } })* } }
imp!(P: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
macro_rules! selfs { ($t:ty) => { imp!($t: Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp); } }
pub struct W;
impl DisplayFormat<P> for W { fn write(&self, f: &mut Formatter, v: &P) -> R { f.write_str("w:")?; dump(f, "Display") } }
fn cmp(pos: &str, specs: &[&str], want: &[String], got: String) -> (u64, u64) {
    let g: Vec<&str> = got.split('\u{1}').collect();
    let mut bad = 0;
    if g.len() != want.len() {
        println!("{{\"pos\":{pos:?},\"got_parts\":{},\"want_parts\":{}}}", g.len(), want.len());
        return (want.len() as u64, 1);
    }
    for i in 0..want.len() {
        if g[i] != want[i] {
            bad += 1;
            if bad <= 3 { println!("V\t{pos}\t{}\t{}\t{}", specs[i].escape_default(), g[i].escape_default(), want[i].escape_default()); }
        }
    }
    (want.len() as u64, bad)
}
'''


NOSTD = "#![no_std]\n#![allow(warnings)]\n#[macro_use] extern crate std as real_std;\nuse real_std::prelude::rust_2024::*;" + PRELUDE.replace("#![allow(warnings)]", "").replace("std::", "core::")


# The same programs with the sink failing at every write and P failing at every call.
FAULT = PRELUDE[:PRELUDE.index("fn cmp(")].replace("    let al = ", """    let n = CALLS.with(|c| c.replace(c.get() + 1));
    STARTS.with(|s| s.borrow_mut().push(LEN.with(|l| l.get())));
    if FAULT.with(|c| c.get()) == Some(n) { f.write_str("!")?; return Err(std::fmt::Error); }
    let al = """, 1) + r'''
use std::cell::{Cell, RefCell};
thread_local! { static CALLS: Cell<usize> = Cell::new(0); static FAULT: Cell<Option<usize>> = Cell::new(None); static LEN: Cell<usize> = Cell::new(0); static STARTS: RefCell<Vec<usize>> = RefCell::new(vec![]); }
struct Sink { writes: Vec<String>, fail_at: Option<usize>, failed: bool, late: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> R {
        if self.failed { self.late += 1; return Err(std::fmt::Error); }
        if self.fail_at == Some(self.writes.len()) { self.failed = true; return Err(std::fmt::Error); }
        self.writes.push(s.into());
        LEN.with(|l| l.set(l.get() + s.len()));
        Ok(())
    }
}
fn go(g: &dyn std::fmt::Display, fail_at: Option<usize>, fault: Option<usize>) -> (bool, Vec<String>, usize, usize) {
    use std::fmt::Write;
    let mut k = Sink { writes: vec![], fail_at, failed: false, late: 0 };
    CALLS.with(|c| c.set(0)); LEN.with(|c| c.set(0)); STARTS.with(|c| c.borrow_mut().clear()); FAULT.with(|c| c.set(fault));
    let r = write!(k, "{g}").is_ok();
    FAULT.with(|c| c.set(None));
    (r, k.writes, k.late, CALLS.with(|c| c.get()))
}
fn cmp(pos: &str, specs: &[&str], want: &[String], g: &dyn std::fmt::Display) -> (u64, u64) {
    let (mut n, mut bad) = (1, 0);
    let mut rep = |what: String, got: String, want: String| { bad += 1; if bad <= 3 { println!("V\t{pos}: {what}\t{}\t{}\t{}", specs.join(" ").escape_default(), got.escape_default(), want.escape_default()); } };
    let (ok, w, _, calls) = go(g, None, None);
    let starts = STARTS.with(|s| s.borrow().clone());
    let text = want.join("\u{1}");
    if !ok || w.concat() != text { rep("no fault".into(), w.concat(), text); return (1, 1); }
    // where every part starts
    let mut exp = vec![];
    let mut p = 0;
    for x in want { exp.push(p + if x.starts_with("w:") { 2 } else if x.starts_with("<") { 1 } else { 0 }); p += x.len() + 1; }
    if calls > 0 && starts != exp { rep("calls".into(), format!("{starts:?}"), format!("{exp:?}")); }
    for k in 0..w.len() {
        n += 1;
        let (ok, got, late, _) = go(g, Some(k), None);
        if ok || late > 0 || got != w[..k] { rep(format!("sink fails at write {k}"), format!("ok={ok} late={late} {}", got.concat()), w[..k].concat()); }
    }
    for j in 0..calls {
        n += 1;
        let (ok, got, late, c) = go(g, None, Some(j));
        let want = text[..exp[j]].to_string() + "!";
        if ok || c != j + 1 || got.concat() != want { rep(format!("formatter {j} fails"), format!("ok={ok} calls={c} {}", got.concat()), want); }
    }
    (n, bad)
}
'''


def fault_specs():
    pre = ["", ">8", "08", "+#", ".1"] + (["*^7", "-", "\u00e9<9.3", "#010"] if TIER == "thorough" else [])
    return [p + t for p in pre for t in TYPES]


def rs(s):
    return json.dumps(s, ensure_ascii=False).replace("\\u0001", "\\u{1}")


def chunk(specs_, k, path, prelude, fault=False, only=None):
    """One source file: groups of specs of one trait group."""
    o = [prelude]
    calls = []
    G = 6 if fault else 40
    sep = "&(%s)" if fault else "(%s).to_string()"
    plain = [s for s in specs_ if ty(s) == ""]
    other = [s for s in specs_ if ty(s) != ""]
    g = 0
    ptrs = [s for s in other if ty(s) == "p"]
    other = [s for s in other if ty(s) != "p"]
    # {:p} of the value itself is left open: the address of the value is as good a reading as its own Pointer impl
    for kind, lst in (("d", plain), ("o", other), ("p", ptrs)):
        for b in range(0, len(lst), G):
            grp = lst[b:b + G]
            m = "g%d" % g
            g += 1
            SEP = "\u0001"

            def fm(ph, pre="", post=""):
                return rs(SEP.join(pre + "{" + ph + (":" + s if s else "") + "}" + post for s in grp))

            L = ["mod %s { use super::*;" % m]
            run = ["pub fn run() -> (u64, u64) { let mut t = (0u64, 0u64);",
                   "let specs: &[&str] = &[%s];" % ",".join(rs(s) for s in grp),
                   "let w: Vec<String> = vec![%s];" % ",".join("format!(%s, P)" % rs("{:" + s + "}") for s in grp),
                   "let e: Vec<String> = w.iter().map(|_| String::new()).collect();",
                   "let mut ck = |p: &str, w: &[String], g: %s| { let r = cmp(p, specs, w, g); t.0 += r.0; t.1 += r.1; };" % ("&dyn std::fmt::Display" if fault else "String")]

            def pos(name, decl, mk, want="&w"):
                if only and only not in name:
                    return
                L.append(decl)
                run.append("ck(%s, %s, %s);" % (rs(name), want, sep % mk))

            pos("named field", "#[derive(Display)] #[display(%s)] pub struct A { a: u8, x: P }" % fm("x"), "A { a: 1, x: P }")
            pos("indexed field", "#[derive(Display)] #[display(%s)] pub struct B(u8, P);" % fm("1"), "B(1, P)")
            pos("nested field", "#[derive(Display)] #[display(%s)] pub struct C { x: N, y: u8 }" % fm("x.y"), "C { x: N { y: P, z: (1, P) }, y: 1 }")
            pos("twice nested field", "#[derive(Display)] #[display(%s)] pub struct C2(u8, N);" % fm("1.z.1"), "C2(1, N { y: P, z: (1, P) })")
            pos("variant field", "#[derive(Display)] pub enum D { #[display(%s)] V { x: P } }" % fm("x"), "D::V { x: P }")
            pos("enum format", "#[derive(Display)] #[display(%s)] pub enum E { V(u8, P) }" % fm("1"), "E::V(1, P)")
            pos("nested variant field", "#[derive(Display)] pub enum D2 { #[display(%s)] V(N) }" % fm("0.y"), "D2::V(N { y: P, z: (1, P) })")
            pos("field format", "#[derive(Display)] #[display(\"{x}\")] pub struct F { #[display(%s)] x: P }" % fm(""), "F { x: P }")
            pos("variant field format", "#[derive(Display)] pub enum F2 { #[display(\"{0}\")] V(#[display(%s)] P) }" % fm(""), "F2::V(P)")
            pos("sub-field in a field format", "#[derive(Display)] #[display(\"{x}\")] pub struct H { #[display(%s)] x: N }" % fm("y"), "H { x: N { y: P, z: (1, P) } }")
            pos("opt field", "#[derive(Display)] #[display(%s)] pub struct I { #[display(opt)] x: Option<P> }" % fm("x"), "I { x: Some(P) }")
            run.append("ck(\"opt field None\", &e, %s);" % sep % "I { x: None }")
            run.append("ck(\"opt field of a variant None\", &e, %s);" % sep % "I2::V(None)")
            run.append("ck(\"opt field format None\", &e[..1], %s);" % sep % "J { x: None }")
            pos("opt field of a variant", "#[derive(Display)] pub enum I2 { #[display(%s)] V(#[display(opt)] Option<P>) }" % fm("0"), "I2::V(Some(P))")
            pos("opt field format", "#[derive(Display)] #[display(\"{x}\")] pub struct J { #[display(%s, opt)] x: Option<P> }" % fm(""), "J { x: Some(P) }")
            pos("generic field", "#[derive(Display)] #[display(%s)] pub struct K<T> { x: T }" % fm("x"), "K { x: P }")
            # a field with its own format prints that format whatever the outer placeholder says, as format_args! does
            if not only:
                L.append("#[derive(Display)] #[display(%s)] pub struct O { #[display(\"<{}>\")] x: P }" % fm("x") if kind == "d" else "")
            if kind == "d" and only:
                L.append("#[derive(Display)] #[display(%s)] pub struct O3 { #[display(\"<{}>\", opt)] x: Option<P> }" % fm("x"))
                L.append("#[derive(Display)] pub enum O4 { #[display(%s)] V(#[display(\"<{}>\", opt)] Option<P>) }" % fm("0"))
                run.append("let wo: Vec<String> = vec![%s];" % ",".join("format!(%s, format_args!(\"<{}>\", P))" % rs("{:" + s + "}") for s in grp))
                for mk in ("O3 { x: %s }", "O4::V(%s)"):
                    run.append("ck(\"placeholder of an opt field with a format\", &wo, %s);" % sep % mk % "Some(P)")
                    run.append("ck(\"placeholder of an opt field with a format, None\", &e, %s);" % sep % mk % "None")
            elif kind == "d":
                run.append("let wo: Vec<String> = vec![%s];" % ",".join("format!(%s, format_args!(\"<{}>\", P))" % rs("{:" + s + "}") for s in grp))
                run.append("ck(\"placeholder of a field with a format\", &wo, %s);" % sep % "O { x: P }")
            if kind == "d":
                run.append("let ww: Vec<String> = w.iter().map(|s| format!(\"w:{s}\")).collect();")
                pos("with", "#[derive(Display)] #[display(%s)] pub struct M { #[display(with = W)] x: P }" % fm("x"), "M { x: P }", "&ww")
                pos("with in field format", "#[derive(Display)] #[display(\"{x}\")] pub struct M2 { #[display(%s, with = W)] x: P }" % fm(""), "M2 { x: P }", "&ww")
                pos("with opt", "#[derive(Display)] #[display(%s)] pub struct M3 { #[display(opt, with = W)] x: Option<P> }" % fm("x"), "M3 { x: Some(P) }", "&ww")
                if not only or only in "with opt":
                    run.append("ck(\"with opt None\", &e, %s);" % sep % "M3 { x: None }")
                pos("with in variant", "#[derive(Display)] pub enum M4 { #[display(%s)] V { #[display(with = W)] x: P } }" % fm("x"), "M4::V { x: P }", "&ww")
                run.append("let wn: Vec<String> = vec![%s];" % ",".join("format!(%s, \"Name\")" % rs("{:" + s + "}") for s in grp))
                pos("variant name", "#[derive(Display)] pub enum Q { #[display(%s)] Name }" % fm(""), "Q::Name", "&wn")
                pos("variant name in enum format", "#[derive(Display)] #[display(%s)] pub enum Q2 { Name(u8) }" % fm(""), "Q2::Name(1)", "&wn")
            elif kind == "o":
                pos("struct itself", "#[derive(Display)] #[display(%s)] pub struct S { x: u8 } selfs!(S);" % fm(""), "S { x: 1 }")
                pos("unit struct itself", "#[derive(Display)] #[display(%s)] pub struct S2; selfs!(S2);" % fm(""), "S2")
                pos("variant itself", "#[derive(Display)] pub enum S3 { #[display(%s)] V(u8), W } selfs!(S3);" % fm(""), "S3::V(1)")
                pos("enum itself", "#[derive(Display)] #[display(%s)] pub enum S4 { V(u8) } selfs!(S4);" % fm(""), "S4::V(1)")
            run.append("t }")
            o.append("\n".join(L + run) + "}")
            calls.append(m)
    o.append("fn main() { let mut t = (0u64, 0u64);")
    for m in calls:
        o.append("{ let r = %s::run(); t.0 += r.0; t.1 += r.1; }" % m)
    o.append("println!(\"T\\t{}\\t{}\", t.0, t.1); }")
    open(path, "w").write("\n".join(o))


POINTER = r'''
fn ptr() {
    #[derive(Display)] #[display("{x:p}")] pub struct A { x: &'static u32 }
    #[derive(Display)] #[display("{0:p}")] pub struct B(*const u32);
    #[derive(Display)] pub enum E { #[display("{0:p}")] V(&'static u32) }
    #[derive(Display)] #[display("{x}")] pub struct F { #[display("{:p}")] x: &'static u32 }
    #[derive(Display)] #[display("{x.0:p}")] pub struct G { x: (&'static u32,) }
    #[derive(Display)] #[display("{x:p}")] pub struct H { #[display(opt)] x: Option<&'static u32> }
    static X: u32 = 5;
    let w = format!("{:p}", &X);
    for (n, g) in [("A", A { x: &X }.to_string()), ("B", B(&X).to_string()), ("E", E::V(&X).to_string()), ("F", F { x: &X }.to_string()), ("G", G { x: (&X,) }.to_string()), ("H", H { x: Some(&X) }.to_string())] {
        if g != w { println!("V\tpointer {n}\tp\t{g}\t{w}"); }
    }
}
'''


def check(run, ext=None, nostd=False, fault=False, only=None):
    ext = ext or externs(engine(), ("parse_display",))
    sp = fault_specs() if fault else specs()
    n = 8 if fault else 24 if TIER == "quick" else 120
    run.add("specs", len(sp))

    def job(k):
        src = "%s/c02_%d.rs" % (run.work, k)
        exe = "%s/c02_%d" % (run.work, k)
        part = sp[k::n]
        chunk(part, k, src, NOSTD if nostd else FAULT if fault else PRELUDE, fault, only)
        if k == 0 and not fault and not only:
            t = open(src).read().replace("fn main() {", POINTER + "fn main() { ptr();")
            open(src, "w").write(t)
        cks = open(src).read().count("ck(\"")
        ok, errs, crashed = rustc(src, exe, ext + ["-C", "opt-level=0"])
        if not ok:
            lines = open(src).read().split("\n")
            return part, [("does not compile", (m.get("rendered") or m["message"])[-1500:],
                           [lines[l - 1][:3000] for l in err_lines(m, os.path.basename(src))[:1]]) for m in errs[:3]] or [crashed], None, 0
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        os.unlink(exe)
        return part, None, r, cks

    for part, bad, r, cks in pmap(job, range(n)):
        if bad is not None:
            run.violation("a placeholder with a valid format spec does not compile", {"errors": bad})
            continue
        done = False
        # states: (position, spec) points; transitions: derived Display runs, each of which renders many of them
        run.add("transitions", cks)
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "V":
                run.violation("a format parameter is not applied as std::format! does", {"position": f[1], "spec": f[2], "got": f[3], "want": f[4]})
            elif f[0] == "T":
                done = True
                run.add("states", int(f[1]))
                run.add("traces_validated_against_impl", int(f[1]))
            else:
                run.violation("output of the wrong shape", line)
        if r.returncode or not done:
            run.violation("the program fails", {"rc": r.returncode, "stderr": r.stderr[-1000:]})
        run.sample({"specs": part[:3]})
    run.extra["rounds"] = {"fills": FILLS, "types": TYPES, "positions": 25}
