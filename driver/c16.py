"""C16: which trait implementations the derived impls demand, read off the compiler for every program of a bounded space.

For a generic type S<T, U> the demanded set of (parameter, trait) pairs is found exactly by asking the compiler whether
S<X, Y> implements the derived trait for X, Y in {a type with every trait} + {a type with every trait but t, for each t}.
"""
import itertools
import os
import re
import subprocess

from common import TIER, CheckError, engine, err_lines, externs, pmap, rustc

TR = ["Display", "Debug", "LowerHex", "UpperHex", "Octal", "Binary", "LowerExp", "UpperExp", "Pointer", "FromStr", "Mk", "Default", "Clone", "Rx"]
FMT = TR[:9]


def prelude():
    o = [r'''
#![allow(warnings)]
use parse_display::{Display, FromStr, DisplayFormat, FromStrFormat, FromStrRegex};
use std::fmt; use std::marker::PhantomData;
pub trait Mk {}
pub trait Tr { type A; }
pub struct W;
impl<T> DisplayFormat<T> for W { fn write(&self, f: &mut fmt::Formatter, v: &T) -> fmt::Result { Ok(()) } }
impl<T> FromStrFormat<T> for W { type Err = (); fn parse(&self, s: &str) -> Result<T, ()> { Err(()) } }
pub struct Wr<T>(pub T);
pub struct Cst<T>(pub PhantomData<T>);
pub struct As<X>(PhantomData<X>);
impl<X> Tr for As<X> { type A = X; }
pub struct Nd<T, U> { pub x: T, pub y: U }
pub struct Arr<const N: usize>;
impl<const N: usize> fmt::Display for Arr<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl<const N: usize> std::str::FromStr for Arr<N> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
// traits that hold for some values of a const parameter only
pub struct Some12<const N: usize>;
impl fmt::Display for Some12<1> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl fmt::Display for Some12<2> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl fmt::Debug for Some12<3> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::str::FromStr for Some12<2> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
impl std::str::FromStr for Some12<3> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
impl FromStrRegex for Some12<3> { fn from_str_regex() -> String { panic!() } }
pub struct Two<T, const N: usize>(PhantomData<T>);
impl<T: Mk> fmt::Display for Two<T, 1> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl<T: Clone> std::str::FromStr for Two<T, 1> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
impl<T> fmt::Display for Two<T, 2> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
pub trait Fam { type G<X>; const K: usize; type S; }
impl Fam for All { type G<X> = Wr<X>; const K: usize = 1; type S = All; }
impl Fam for u8 { type G<X> = Cst<X>; const K: usize = 1; type S = NoDisplay; }
pub struct Probe<T>(PhantomData<T>);
pub trait NoD { const D: bool = false; } impl<T> NoD for Probe<T> {}
pub trait NoF { const F: bool = false; } impl<T> NoF for Probe<T> {}
pub trait NoR { const R: bool = false; } impl<T> NoR for Probe<T> {}
impl<T: fmt::Display> Probe<T> { pub const D: bool = true; }
impl<T: std::str::FromStr> Probe<T> { pub const F: bool = true; }
impl<T: FromStrRegex> Probe<T> { pub const R: bool = true; }
''']

    def impl(t, g, name, where=""):
        if t == "FromStr":
            return "impl%s std::str::FromStr for %s%s { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }" % (g, name, where)
        if t == "Rx":
            return "impl%s FromStrRegex for %s%s { fn from_str_regex() -> String { panic!() } }" % (g, name, where)
        if t == "Mk":
            return "impl%s Mk for %s%s {}" % (g, name, where)
        if t == "Default":
            return "impl%s Default for %s%s { fn default() -> Self { panic!() } }" % (g, name, where)
        if t == "Clone":
            return "impl%s Clone for %s%s { fn clone(&self) -> Self { panic!() } }" % (g, name, where)
        return "impl%s fmt::%s for %s%s { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }" % (g, t, name, where)

    for t in TR:
        tp = {"FromStr": "std::str::FromStr", "Mk": "Mk", "Rx": "FromStrRegex", "Default": "Default", "Clone": "Clone"}.get(t, "fmt::" + t)
        o.append(impl(t, "<T: %s>" % tp, "Wr<T>"))
        o.append(impl(t, "<T>", "Cst<T>"))
    o.append("pub struct All;")
    o += [impl(t, "", "All") for t in TR]
    for k in TR:
        o.append("pub struct No%s;" % k)
        o += [impl(t, "", "No" + k) for t in TR if t != k and not (k == "FromStr" and t == "Rx")]

    def mac(name, wrap):
        def a(x):
            return "As<%s>" % x if wrap else x
        ps = ["$s::<%s, %s>" % (a("All"), a("All"))] + ["$s::<%s, %s>" % (a("No" + t), a("All")) for t in TR] + ["$s::<%s, %s>" % (a("All"), a("No" + t)) for t in TR]
        return "macro_rules! %s { ($s:ident, $c:ident) => { [%s] } }" % (name, ", ".join("Probe::<%s>::$c" % p for p in ps))

    o.append(mac("probe", False))
    o.append(mac("probe_as", True))
    o.append(r'''
fn show(i: usize, c: &str, v: &[bool]) { println!("{i} {c} {}", v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()); }
''')
    return "\n".join(o)


# field types: name -> (text, {trait} -> demanded (param, trait) set or None when never)
def ft(kind, p):
    """The type's text for parameter p, the reduction of `type: trait` to demands on p (None: cannot hold), and whether it is generic."""
    if kind == "T":
        return p, lambda t: {(p, t)}, True
    if kind == "Wr":
        return "Wr<%s>" % p, lambda t: {(p, t)}, True
    if kind == "Cst":
        return "Cst<%s>" % p, lambda t: set(), True
    if kind == "Box":
        return "Box<%s>" % p, lambda t: {(p, t)} if t in ("Display", "Debug") else set() if t == "Pointer" else None, True
    if kind == "Vec":
        return "Vec<%s>" % p, lambda t: {(p, t)} if t == "Debug" else None, True
    if kind == "Opt":
        return "Option<%s>" % p, lambda t: {(p, t)} if t == "Debug" else None, True
    if kind == "u8":
        return "All", lambda t: set(), False
    if kind == "A":
        return "%s::A" % p, lambda t: {(p, t)}, True
    if kind == "AQ":
        return "<%s as Tr>::A" % p, lambda t: {(p, t)}, True
    if kind == "path":
        return "self::Wr<%s>" % p, lambda t: {(p, t)}, True
    if kind == "OptWr":
        return "std::option::Option<Wr<%s>>" % p, lambda t: {(p, t)} if t == "Debug" else None, True
    raise KeyError(kind)


SYM = {"": "Display", "?": "Debug", "x": "LowerHex", "X": "UpperHex", "o": "Octal", "b": "Binary", "e": "LowerExp", "E": "UpperExp", "p": "Pointer", "x?": "Debug", "#?": "Debug", ">5": "Display", "08.3e": "LowerExp"}

# bounds: text -> (explicit demands given the derived trait, keeps default)
BOUNDS = {
    None: (lambda tr: set(), True),
    "bound()": (lambda tr: set(), False),
    "bound(T)": (lambda tr: {("T", tr)}, False),
    "bound(U)": (lambda tr: {("U", tr)}, False),
    "bound(T, U)": (lambda tr: {("T", tr), ("U", tr)}, False),
    "bound(Wr<T>)": (lambda tr: {("T", tr)}, False),
    "bound(..)": (lambda tr: set(), True),
    "bound(U, ..)": (lambda tr: {("U", tr)}, True),
    "bound(T, ..)": (lambda tr: {("T", tr)}, True),
    "bound(.., U)": (lambda tr: {("U", tr)}, True),
    "bound(T: Mk)": (lambda tr: {("T", "Mk")}, False),
    "bound(T: Mk, ..)": (lambda tr: {("T", "Mk")}, True),
    "bound(T: Mk + Clone, U)": (lambda tr: {("T", "Mk"), ("T", "Clone"), ("U", tr)}, False),
    'bound("T: Mk, U")': (lambda tr: {("T", "Mk"), ("U", tr)}, False),
    'bound("T : Mk", U, ..)': (lambda tr: {("T", "Mk"), ("U", tr)}, True),
    "bound(Wr<U>: Mk)": (lambda tr: {("U", "Mk")}, False),
    # written in two attributes
    "bound(T)|bound(U)": (lambda tr: {("T", tr), ("U", tr)}, False),
    "bound(U)|bound(..)": (lambda tr: {("U", tr)}, True),
    "bound(..)|bound(T: Mk)": (lambda tr: {("T", "Mk")}, True),
    "bound(..)|bound(U: Mk)": (lambda tr: {("U", "Mk")}, True),
    "bound()|bound(U)": (lambda tr: {("U", tr)}, False),
    'bound()|bound("U: Mk + Clone")': (lambda tr: {("U", "Mk"), ("U", "Clone")}, False),
}


class Field:
    def __init__(self, key, kind, p, attrs=(), fmt=None, opt=False, w=None, bd=None, bf=None, default=False):
        """fmt: the field's own format as a list of specs of `{}`; w: None, "d" (with on display), "f" (only on from_str) or "r" (regex_infer)."""
        self.key, self.kind, self.p, self.fmt, self.opt, self.w, self.bd, self.bf, self.default = key, kind, p, fmt, opt, w, bd, bf, default

    def text(self, named, frm=True):
        t = ft(self.kind, self.p)[0]
        a = []
        if self.fmt is not None:
            a.append('"<' + "-".join("{%s}" % (":" + s if s else "") for s in self.fmt) + '>"')
        if self.opt:
            a.append("opt")
        if self.w == "d":
            a.append("with = W")
        if self.bd:
            a.append(self.bd)
        o = "#[display(%s)] " % ", ".join(a) if a else ""
        a = []
        if self.w == "f":
            a.append("with = W")
        if self.w == "r":
            a.append("regex_infer")
        if self.bf:
            a.append(self.bf)
        if self.default:
            a.append("default")
        o += "#[from_str(%s)] " % ", ".join(a) if a and frm else ""
        return o + ("%s: %s" % (self.key, t) if named else t)

    def dem(self, trait):
        text, f, g = ft(self.kind, self.p)
        if self.opt:
            inner = {"Opt": "T", "OptWr": "Wr"}[self.kind]
            f = ft(inner, self.p)[1]
        return f(trait)


def field_display(f, spec):
    """Demands of one placeholder of field f; None if the program cannot be valid."""
    exp, ext = BOUNDS[f.bd]
    out = set(exp("Display"))
    if f.w == "d":
        return out
    specs = f.fmt if f.fmt is not None else [spec]
    for s in specs:
        d = f.dem(SYM[s])
        if d is None:
            return None
        if ext:
            out |= d
    # whatever is shut out by the bound has to hold anyway for the impl to compile
    return out


def need_display(f, spec):
    if f.w == "d":
        return set()
    out = set()
    for s in (f.fmt if f.fmt is not None else [spec]):
        d = f.dem(SYM[s])
        if d is None:
            return None
        out |= d
    return out


def implied(demands):
    return demands


def body_display(fields, phs):
    """(demands, needs) of a format: list of (field key, spec)."""
    dem, need = set(), set()
    by = {f.key: f for f in fields}
    for k, s in phs:
        d, n = field_display(by[k], s), need_display(by[k], s)
        if d is None or n is None:
            return None, None
        dem |= d
        need |= n
    return dem, need


def body_from(fields, phs):
    dem, need = set(), set()
    used = {k for k, _ in phs}
    for f in fields:
        if f.key not in used:
            continue
        b = f.bf if f.bf else f.bd
        exp, ext = BOUNDS[b]
        dem |= exp("FromStr")
        if f.w in ("d", "f"):
            continue
        d = f.dem("Rx" if f.w == "r" else "FromStr")
        if d is None:
            return None, None
        need |= d
        if ext:
            dem |= d
    return dem, need


def scope(b, tr, child, need_ok=True):
    exp, ext = BOUNDS[b]
    out = set(exp(tr))
    if ext:
        out |= child
    return out


def rphs(phs):
    return "-".join("{%s%s}" % (k, ":" + s if s else "") for k, s in phs)


class Space:
    def __init__(self):
        self.progs = []

    def struct(self, fields, phs, bd=None, bf=None, derive=("Display",), named=True, tr=False, wh=""):
        dem = {}
        if "Display" in derive:
            d, n = body_display(fields, phs)
            if d is None:
                return
            d = scope(bd, "Display", d)
            if not n <= d:
                return
            dem["D"] = d
        if "FromStr" in derive:
            if len({k for k, _ in phs}) != len(phs):
                return
            d, n = body_from(fields, phs)
            if d is None:
                return
            d = scope(bf or bd, "FromStr", d)
            need = set(n)
            for f in fields:
                if f.key not in {k for k, _ in phs}:
                    if not f.default:
                        return
                    dd = ft(f.kind, f.p)[1]("Default") if f.kind not in ("Vec", "Opt", "OptWr") else set()
                    need |= dd
            if not need <= d:
                return
            dem["F"] = dem["R"] = d
        at = "#[display(\"%s\"%s)]" % (rphs(phs), ", " + bd if bd else "")
        if bf and "FromStr" in derive:
            at += " #[from_str(%s)]" % bf
        self.emit("struct", fields, at, dem, derive, named, tr, wh)

    def emit(self, what, fields, at, dem, derive, named, tr, wh):
        g = "<T: Tr, U: Tr>" if tr else "<T, U>"
        fs = ", ".join(f.text(named, "FromStr" in derive) for f in fields)
        der = "#[derive(%s)] " % ", ".join(derive)
        if named:
            src = "%s%s pub struct S@%s %s { %s, ph: PhantomData<(T, U)> }" % (der, at, g, wh, fs)
            if "FromStr" in derive:
                src = src.replace(", ph:", ", #[from_str(default)] ph:")
        else:
            src = "%s%s pub struct S@%s(%s, %sPhantomData<(T, U)>) %s;" % (der, at, g, fs, "#[from_str(default)] " if "FromStr" in derive else "", wh)
        self.progs.append((src, dem, tr))

    def enum(self, variants, bd=None, bf=None, derive=("Display",)):
        """variants: (fields, phs, bound display, bound from_str)"""
        D, F = set(), set()
        vs = []
        for i, (fields, phs, vbd, vbf) in enumerate(variants):
            if "Display" in derive:
                d, n = body_display(fields, phs)
                if d is None:
                    return
                D |= scope(vbd, "Display", d)
                vs.append((n, None))
                Dn = n
            if "FromStr" in derive:
                if len({k for k, _ in phs}) != len(phs):
                    return
                d, n = body_from(fields, phs)
                if d is None:
                    return
                for f in fields:
                    if f.key not in {k for k, _ in phs}:
                        if not f.default:
                            return
                        n = n | (ft(f.kind, f.p)[1]("Default") if f.kind not in ("Vec", "Opt", "OptWr") else set())
                F |= scope(vbf or vbd, "FromStr", d)
                vs.append((None, n))
        dem = {}
        if "Display" in derive:
            D = scope(bd, "Display", D)
            if any(n is not None and not n <= D for n, _ in vs):
                return
            dem["D"] = D
        if "FromStr" in derive:
            F = scope(bf or bd, "FromStr", F)
            if any(n is not None and not n <= F for _, n in vs):
                return
            dem["F"] = dem["R"] = F
        o = []
        for i, (fields, phs, vbd, vbf) in enumerate(variants):
            a = "#[display(\"v%d%s\"%s)] " % (i, rphs(phs), ", " + vbd if vbd else "")
            if vbf and "FromStr" in derive:
                a += "#[from_str(%s)] " % vbf
            named = fields and not fields[0].key.isdigit()
            fs = ", ".join(f.text(named, "FromStr" in derive) for f in fields)
            o.append("%sV%d%s" % (a, i, "" if not fields else " { %s }" % fs if named else "(%s)" % fs))
        at = ""
        if bd:
            at += "#[display(%s)] " % bd
        if bf and "FromStr" in derive:
            at += "#[from_str(%s)] " % bf
        src = "#[derive(%s)] %spub enum S@<T, U> { %s, #[display(\"zz\")] #[from_str(ignore)] Ph(PhantomData<(T, U)>) }" % (", ".join(derive), at, ", ".join(o))
        if "FromStr" not in derive:
            src = src.replace("#[from_str(ignore)] ", "")
        self.progs.append((src, dem, False))


def space():
    th = TIER == "thorough"
    S = Space()
    kinds = ["T", "Wr", "Cst", "Box", "Vec", "Opt", "u8", "path"]
    BOTH = ("Display", "FromStr")
    ALLB = [b for b in BOUNDS]
    # every trait x every type of field x every bound, one placeholder
    for k in kinds:
        for s in SYM:
            for b in (ALLB if th or s in ("", "?", "x") else [None, "bound(..)", "bound(T)"]):
                S.struct([Field("a", k, "T"), Field("b", "T", "U", default=True)], [("a", s)], bd=b)
                if s in ("", "?"):
                    S.struct([Field("0", k, "T"), Field("1", "T", "U")], [("0", s)], bd=b, named=False)
            # the field's own format decides the trait
            S.struct([Field("a", k, "T", fmt=[s]), Field("b", "T", "U")], [("a", "")])
            S.struct([Field("a", k, "T", fmt=[s, "?"]), Field("b", "T", "U")], [("a", ""), ("b", "x")])
            S.enum([([Field("a", k, "T", fmt=[s])], [("a", "")], None, None), ([Field("0", "T", "U")], [("0", "o")], None, None)])
    for s in SYM:
        for t in SYM:
            S.struct([Field("a", "T", "T"), Field("b", "T", "U")], [("a", s), ("b", t)])
            S.struct([Field("a", "T", "T"), Field("b", "Wr", "T")], [("a", s), ("b", t)])
            S.struct([Field("0", "T", "T"), Field("1", "T", "U")], [("0", s), ("0", t)], named=False)
            S.enum([([Field("0", "T", "T")], [("0", s)], None, None), ([Field("x", "Wr", "U")], [("x", t)], None, None)])
    # both traits, every bound on display x every bound on from_str
    for bd, bf in itertools.product(ALLB, ALLB):
        for ks in ([("T", "T"), ("Wr", "U"), ("Cst", "T")] if th or bd is None or bf is None else [("T", "T"), ("Wr", "U")]):
            for der in (BOTH, ("FromStr",)):
                S.struct([Field("a", ks[0], ks[1]), Field("b", "u8", "U")], [("a", ""), ("b", "")], bd=bd, bf=bf, derive=der)
                if der == BOTH:
                    S.enum([([Field("a", ks[0], ks[1])], [("a", "")], None, None), ([], [], None, None)], bd=bd, bf=bf, derive=der)
    # with, opt, unused
    for k in ("T", "Wr", "Cst", "Opt", "OptWr"):
        for w in (None, "d", "f", "r"):
            for opt in (False, True):
                if opt and k not in ("Opt", "OptWr"):
                    continue
                for fm in (None, [""], ["?"]):
                    if fm == ["?"] and w:
                        continue
                    for used in (True, False):
                        for der in (("Display",), ("FromStr",), BOTH):
                            for b in (None, "bound(U, ..)", "bound()"):
                                for form in (0, 1):
                                    ph = [("a", "")] if used else []
                                    f = Field("a", k, "T", fmt=fm, opt=opt, w=w, default=not used)
                                    if form == 0:
                                        S.struct([f, Field("b", "T", "U")], ph + [("b", "")], bd=b, derive=der)
                                    else:
                                        S.enum([([f, Field("b", "T", "U")], ph + [("b", "")], b, None)], derive=der)
    # bounds on the field, the variant and the type together
    fb = [None, "bound()", "bound(T)", "bound(..)", "bound(T: Mk, ..)", "bound(U, ..)", 'bound("T: Mk, U")']
    for b0, b1, b2 in itertools.product(fb, fb, fb):
        S.enum([([Field("0", "T", "T", bd=b2)], [("0", "")], b1, None), ([Field("0", "Wr", "U")], [("0", "")], None, None)], bd=b0)
        S.enum([([Field("0", "Cst", "T", bd=b2)], [("0", "")], b1, None), ([Field("0", "Wr", "U")], [("0", "")], None, None)], bd=b0, derive=BOTH)
        S.enum([([Field("0", "Cst", "T", bf=b2)], [("0", "")], None, b1), ([Field("0", "Wr", "U")], [("0", "")], None, None)], bf=b0, derive=BOTH)
        S.enum([([Field("0", "Cst", "T", bd=b0, bf=b2)], [("0", "")], b1, None), ([Field("0", "Wr", "U")], [("0", "?" if th else "")], None, "bound(U)")], derive=BOTH if not th else ("Display",))
        S.struct([Field("a", "Cst", "T", bd=b1), Field("b", "Cst", "U", bd=b2)], [("a", ""), ("b", "")], bd=b0, derive=BOTH)
        S.struct([Field("a", "Cst", "T", bd=b0, bf=b1), Field("b", "T", "U", bf=b2)], [("a", ""), ("b", "")], derive=BOTH)
        S.struct([Field("a", "T", "T", bd=b1), Field("b", "Wr", "U", bd=b2)], [("a", ""), ("b", "")], bd=b0, derive=BOTH)
    # the bounds of a variant or field written in two attributes
    for b1, b2 in itertools.product([None, "bound(T)|bound(U)", "bound(..)|bound(T: Mk)", "bound()|bound(U)"], repeat=2):
        for b0 in (None, "bound(..)|bound(U: Mk)"):
            S.enum([([Field("0", "Cst", "T", bd=b2)], [("0", "")], b1, None), ([Field("0", "Wr", "U")], [("0", "")], None, None)], bd=b0, derive=BOTH)
            S.enum([([Field("0", "Cst", "T", bf=b2)], [("0", "")], None, b1), ([Field("0", "Wr", "U")], [("0", "")], None, None)], bf=b0, derive=BOTH)
            S.struct([Field("a", "Cst", "T", bd=b1), Field("b", "Cst", "U", bd=b2)], [("a", ""), ("b", "")], bd=b0, derive=BOTH)
    # associated types
    for k in ("A", "AQ"):
        for s in ("", "?", "x"):
            S.struct([Field("a", k, "T"), Field("b", k, "U")], [("a", s)], tr=True)
            S.struct([Field("a", k, "T", default=True), Field("b", k, "U")], [("b", s)], tr=True)
            S.struct([Field("0", k, "T"), Field("1", k, "U")], [("0", s), ("1", "")], tr=True, named=False)
        S.struct([Field("a", k, "T"), Field("b", k, "U")], [("a", ""), ("b", "")], tr=True, derive=BOTH)
    # a where clause of the type stays
    S.struct([Field("a", "T", "T"), Field("b", "T", "U")], [("a", "")])
    seen, out = set(), []
    for p in S.progs:
        # `Wr<T>: Trait` does not give `T: Trait`: a field of type T itself would not be served by it
        if "bound(Wr<T>)" in p[0] and re.search(r": T,|\(T,|Box<T>|Vec<T>|Option<T>", p[0]):
            continue
        src = p[0]
        while "|bound" in src:
            k = src.index("|bound")
            name = re.findall(r"#\[(display|from_str)\(", src[:k])[-1]
            src = "%s)] #[%s(%s" % (src[:k], name, src[k + 1:])
        if src not in seen:
            seen.add(src)
            out.append((src,) + p[1:])
    return out


EXTRA = r'''
// shapes of generics that only have to compile and to hold
pub mod shapes {
    use super::*;
    #[derive(Display)] #[display("{a}")] pub struct L<'a, T> { a: &'a T }
    #[derive(Display)] #[display("{a:?}")] pub struct L2<'a, 'b: 'a, T: ?Sized + 'b>{ a: &'a T, b: PhantomData<&'b T> }
    #[derive(Display, FromStr)] #[display("{a}{b}")] pub struct C<T, const N: usize> where T: Clone { a: T, b: Arr<N> }
    #[derive(Display)] #[display("{a:?}")] pub struct C2<T, const N: usize> { a: [T; N] }
    #[derive(Display, FromStr)] pub struct D<T = u8>(T);
    #[derive(Display, FromStr)] pub enum E<T: Clone = All> where T: Mk { #[display("{0}")] A(T), B }
    #[derive(Display)] #[display("{a}")] pub struct Dy<T: ?Sized> { a: Box<T> }
    #[derive(Display)] #[display("{0}")] pub struct R<r#T>(r#T);
    #[derive(Display)] #[display("{a:?}")] pub struct Fnp<T> { a: fn(T) -> T }
    #[derive(Display)] #[display("{a:?}")] pub struct Tu<T> { a: (T, u8, [T; 2]) }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Un<T> { a: u8, #[from_str(default)] b: PhantomData<T> }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Mc<T> { a: m!(T) }
    macro_rules! m { ($t:ty) => { $t } } use m;
    #[derive(Display, FromStr)] #[display("{a}{b}")] #[from_str(regex_infer)] pub struct Ri<T, U> { a: T, #[from_str(with = W)] b: U }
    #[derive(Display, FromStr)] pub enum Rv<T, U> { #[display("{0}")] #[from_str(regex_infer)] A(T), #[display("-{0}")] B(U) }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct K1<const N: usize> { a: Some12<N> }
    #[derive(Display, FromStr)] pub struct K2<const N: usize>(Some12<N>);
    #[derive(Display, FromStr)] pub enum K3<const N: usize> { #[display("{0}")] A(Some12<N>), #[display("b")] B(#[from_str(default)] PhantomData<Some12<N>>) }
    #[derive(Display)] #[display("{a:?}")] pub struct K4<const N: usize> { a: Some12<N>, b: Some12<9> }
    #[derive(FromStr)] #[display("{a}-{b}")] pub struct K5<const N: usize, const M: usize> { #[from_str(regex_infer)] a: Some12<N>, b: Some12<M> }
    #[derive(Display)] #[display("{a}", bound())] pub struct K6<const N: usize> { a: Arr<N> }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct K7<T, const N: usize> { a: Two<T, N> }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct K8<const N: usize> where Some12<N>: fmt::Debug { #[display("x")] #[from_str(default, regex = "x", with = W)] a: PhantomData<Some12<N>> }
    #[derive(Display)] #[display("{a}")] pub struct Bl<const BB: bool, const CC: char> { a: Bc<BB, CC> }
    pub struct Bc<const BB: bool, const CC: char>; impl fmt::Display for Bc<true, 'x'> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Ga<F: Fam, X> { a: F::G<X> }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Gs<F: Fam> { a: F::S }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Gq<F: Fam> { a: <F as Fam>::S }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Gw<F> where F: Fam { a: Wr<F::S> }
    #[derive(Display)] #[display("{a}")] pub struct Rf<'a, T: ?Sized> { a: &'a &'a T }
    #[derive(Display)] #[display("{a}")] pub struct Rm<'a, T> { a: &'a mut T }
    #[derive(Display)] #[display("{a:p}")] pub struct Pt<'a, T> { a: &'a T, b: *const T }
    #[derive(Display)] #[display("{a:?}")] pub struct Sl<'a, T> { a: &'a [T] }
    #[derive(Display)] #[display("{a:?}-{b:p}")] pub struct Fn2<T> { a: fn(&T) -> T, b: fn(T) }
    #[derive(Display)] #[display("{a}")] pub struct Dn<'a, T> { a: &'a (dyn Dsp<T> + 'a) }
    pub trait Dsp<T>: fmt::Display {}
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Nn<T> { a: Wr<Wr<Wr<T>>> }
    #[derive(Display)] #[display("{a:?}")] pub struct No<T> { a: Option<Vec<(T, Box<T>)>> }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Rec<T> { a: T, #[from_str(default)] b: Option<Box<Rec<T>>> }
    #[derive(Display, FromStr)] pub enum I1<T> { #[display("b")] B, #[from_str(ignore)] #[display("{0}")] C(T) }
    #[derive(Display, FromStr)] pub enum I2<T, U> { #[from_str(ignore)] #[display("{a:?}{b}")] C { a: Wr<T>, b: U }, #[display("{0}")] B(T) }
    #[derive(Display, FromStr)] #[display("{0}")] pub enum I3<T, U> { A(T), #[from_str(ignore)] B(U), C(u8) }
    #[derive(Display, FromStr)] #[from_str(regex_infer)] pub enum I4<T, U> { #[display("{0}")] A(T), #[from_str(ignore)] #[display("{0}")] B(U) }
    #[derive(FromStr)] pub enum I5<T, U> { #[from_str(ignore)] A(T, U), B, #[from_str(regex = "(?<0>.)")] C(T) }
    pub struct Px<T> { pub x: u8, pub t: PhantomData<T> } impl<T> Default for Px<T> { fn default() -> Self { panic!() } }
    pub struct Py<T> { pub p: Px<T> } impl<T> Default for Py<T> { fn default() -> Self { panic!() } }
    #[derive(Display, FromStr)] #[display("{a.x}")] pub struct Q1<T> { #[from_str(default)] a: Px<T> }
    #[derive(Display, FromStr)] #[display("{a.p.x}")] pub struct Q2<T> { #[from_str(default)] a: Py<T> }
    #[derive(Display, FromStr)] pub enum Q3<T> { #[display("{0.x}")] A(#[from_str(default)] Px<T>), #[display("{a}")] B { #[display("<{x}>")] #[from_str(default)] a: Px<T> } }
    #[derive(Display, FromStr)] #[display("{a.x}-{b}")] #[from_str(default)] pub struct Q4<T, U> { a: Px<T>, b: U } impl<T, U> Default for Q4<T, U> { fn default() -> Self { panic!() } }
    #[derive(Display, FromStr)] #[display("{a}")] pub struct Q5<T> { #[display("{p.x}")] #[from_str(default)] a: Py<T> }
    #[derive(FromStr)] #[from_str(regex = "(?<a.x>.)(?<b>.)")] pub struct Q6<T, U> { #[from_str(default)] a: Px<T>, b: U }
    pub fn check() {
        let v = [
            ("I1<NoFromStr>: F", Probe::<I1<NoFromStr>>::F && Probe::<I1<NoFromStr>>::R, true), ("I1<NoDisplay>: F", Probe::<I1<NoDisplay>>::F, true), ("I1<NoDisplay>", Probe::<I1<NoDisplay>>::D, false), ("I1<All>", Probe::<I1<All>>::D, true),
            ("I2<All, NoFromStr>: F", Probe::<I2<All, NoFromStr>>::F, true), ("I2<NoFromStr, All>: F", Probe::<I2<NoFromStr, All>>::F, false), ("I2<NoDebug, All>", Probe::<I2<NoDebug, All>>::D, false), ("I2<NoDebug, All>: F", Probe::<I2<NoDebug, All>>::F, true), ("I2<All, NoDisplay>", Probe::<I2<All, NoDisplay>>::D, false),
            ("I3<All, NoFromStr>: F", Probe::<I3<All, NoFromStr>>::F, true), ("I3<NoFromStr, All>: F", Probe::<I3<NoFromStr, All>>::F, false), ("I3<All, NoDisplay>", Probe::<I3<All, NoDisplay>>::D, false),
            ("I4<All, NoRx>: F", Probe::<I4<All, NoRx>>::F, true), ("I4<NoRx, All>: F", Probe::<I4<NoRx, All>>::F, false), ("I4<All, NoFromStr>: R", Probe::<I4<All, NoFromStr>>::R, true),
            ("I5<All, NoFromStr>: F", Probe::<I5<All, NoFromStr>>::F, true), ("I5<NoFromStr, All>: F", Probe::<I5<NoFromStr, All>>::F, false),
            ("Q1<NoDisplay>", Probe::<Q1<NoDisplay>>::D, true), ("Q1<NoFromStr>: F", Probe::<Q1<NoFromStr>>::F && Probe::<Q1<NoFromStr>>::R, true), ("Q2<NoDisplay>", Probe::<Q2<NoDisplay>>::D, true), ("Q2<NoFromStr>: F", Probe::<Q2<NoFromStr>>::F, true),
            ("Q3<NoDisplay>", Probe::<Q3<NoDisplay>>::D, true), ("Q3<NoFromStr>: F", Probe::<Q3<NoFromStr>>::F, true), ("Q4<NoDisplay, All>", Probe::<Q4<NoDisplay, All>>::D, true), ("Q4<NoFromStr, All>: F", Probe::<Q4<NoFromStr, All>>::F, true), ("Q4<All, NoDisplay>", Probe::<Q4<All, NoDisplay>>::D, false), ("Q4<All, NoFromStr>: F", Probe::<Q4<All, NoFromStr>>::F, false),
            ("Q5<NoDisplay>", Probe::<Q5<NoDisplay>>::D, true), ("Q5<NoFromStr>: F", Probe::<Q5<NoFromStr>>::F, true), ("Q6<NoFromStr, All>: F", Probe::<Q6<NoFromStr, All>>::F, true), ("Q6<All, NoFromStr>: F", Probe::<Q6<All, NoFromStr>>::F, false),
            ("K1<1>", Probe::<K1<1>>::D, true), ("K1<2>", Probe::<K1<2>>::D, true), ("K1<3>", Probe::<K1<3>>::D, false), ("K1<1>: F", Probe::<K1<1>>::F, false), ("K1<2>: F", Probe::<K1<2>>::F, true), ("K1<3>: F", Probe::<K1<3>>::F, true), ("K1<0>: R", Probe::<K1<0>>::R, false),
            ("K2<1>", Probe::<K2<1>>::D, true), ("K2<3>", Probe::<K2<3>>::D, false), ("K2<1>: F", Probe::<K2<1>>::F, false), ("K2<3>: F", Probe::<K2<3>>::F, true),
            ("K3<1>", Probe::<K3<1>>::D, true), ("K3<3>", Probe::<K3<3>>::D, false), ("K3<1>: F", Probe::<K3<1>>::F, false), ("K3<3>: F", Probe::<K3<3>>::F, true),
            ("K4<1>", Probe::<K4<1>>::D, false), ("K4<3>", Probe::<K4<3>>::D, true),
            ("K5<3, 2>", Probe::<K5<3, 2>>::F, true), ("K5<3, 3>", Probe::<K5<3, 3>>::F, true), ("K5<2, 3>", Probe::<K5<2, 3>>::F, false), ("K5<3, 1>", Probe::<K5<3, 1>>::F, false), ("K5<3, 1>: R", Probe::<K5<3, 1>>::R, false),
            ("K6<7>", Probe::<K6<7>>::D, true),
            ("K7<All, 1>", Probe::<K7<All, 1>>::D, true), ("K7<NoMk, 1>", Probe::<K7<NoMk, 1>>::D, false), ("K7<NoMk, 2>", Probe::<K7<NoMk, 2>>::D, true), ("K7<All, 2>: F", Probe::<K7<All, 2>>::F, false), ("K7<NoMk, 1>: F", Probe::<K7<NoMk, 1>>::F, true), ("K7<NoClone, 1>: F", Probe::<K7<NoClone, 1>>::F, false),
            ("K8<3>", Probe::<K8<3>>::D && Probe::<K8<3>>::F, true),
            ("Bl<true, 'x'>", Probe::<Bl<true, 'x'>>::D, true), ("Bl<false, 'x'>", Probe::<Bl<false, 'x'>>::D, false), ("Bl<true, 'y'>", Probe::<Bl<true, 'y'>>::D, false),
            ("Ga<All, All>", Probe::<Ga<All, All>>::D && Probe::<Ga<All, All>>::F, true), ("Ga<All, NoDisplay>", Probe::<Ga<All, NoDisplay>>::D, false), ("Ga<u8, NoDisplay>", Probe::<Ga<u8, NoDisplay>>::D, true), ("Ga<All, NoFromStr>: F", Probe::<Ga<All, NoFromStr>>::F, false), ("Ga<All, NoDisplay>: F", Probe::<Ga<All, NoDisplay>>::F, true),
            ("Gs<All>", Probe::<Gs<All>>::D, true), ("Gs<u8>", Probe::<Gs<u8>>::D, false), ("Gs<u8>: F", Probe::<Gs<u8>>::F, true), ("Gq<All>", Probe::<Gq<All>>::D, true), ("Gq<u8>", Probe::<Gq<u8>>::D, false), ("Gq<u8>: F", Probe::<Gq<u8>>::F, true), ("Gw<All>", Probe::<Gw<All>>::D, true), ("Gw<u8>", Probe::<Gw<u8>>::D, false), ("Gw<u8>: F", Probe::<Gw<u8>>::F, true),
            ("Rf<str>", Probe::<Rf<'static, str>>::D, true), ("Rf<NoDisplay>", Probe::<Rf<'static, NoDisplay>>::D, false), ("Rm<All>", Probe::<Rm<'static, All>>::D, true), ("Rm<NoDisplay>", Probe::<Rm<'static, NoDisplay>>::D, false),
            ("Pt<NoPointer>", Probe::<Pt<'static, NoPointer>>::D, true), ("Pt<NoDisplay>", Probe::<Pt<'static, NoDisplay>>::D, true),
            ("Sl<NoDebug>", Probe::<Sl<'static, NoDebug>>::D, false), ("Sl<NoDisplay>", Probe::<Sl<'static, NoDisplay>>::D, true), ("Fn2<NoDebug>", Probe::<Fn2<NoDebug>>::D, true), ("Dn<NoDisplay>", Probe::<Dn<'static, NoDisplay>>::D, true),
            ("Nn<All>", Probe::<Nn<All>>::D, true), ("Nn<NoDisplay>", Probe::<Nn<NoDisplay>>::D, false), ("Nn<NoFromStr>: F", Probe::<Nn<NoFromStr>>::F, false), ("No<NoDebug>", Probe::<No<NoDebug>>::D, false), ("No<NoDisplay>", Probe::<No<NoDisplay>>::D, true),
            ("Rec<All>", Probe::<Rec<All>>::D && Probe::<Rec<All>>::F, true), ("Rec<NoDisplay>", Probe::<Rec<NoDisplay>>::D, false), ("Rec<NoFromStr>", Probe::<Rec<NoFromStr>>::F, false),
            ("L<All>", Probe::<L<'static, All>>::D, true), ("L<NoDisplay>", Probe::<L<'static, NoDisplay>>::D, false),
            ("L2<str>", Probe::<L2<'static, 'static, str>>::D, true), ("L2<NoDebug>", Probe::<L2<'static, 'static, NoDebug>>::D, false),
            ("C<All, 3>", Probe::<C<All, 3>>::D, true), ("C<NoDisplay, 3>", Probe::<C<NoDisplay, 3>>::D, false), ("C<NoFromStr, 3>", Probe::<C<NoFromStr, 3>>::F, false),
            ("C<NoDisplay, 3>: FromStr", Probe::<C<NoDisplay, 3>>::F, true),
            ("C2<All, 3>", Probe::<C2<All, 3>>::D, true), ("C2<NoDebug, 3>", Probe::<C2<NoDebug, 3>>::D, false), ("C2<NoDisplay, 3>", Probe::<C2<NoDisplay, 3>>::D, true),
            ("D", Probe::<D>::D && Probe::<D>::F, true), ("D<NoDisplay>", Probe::<D<NoDisplay>>::D, false),
            ("E<All>", Probe::<E<All>>::D && Probe::<E<All>>::F, true), ("E<NoFromStr>", Probe::<E<NoFromStr>>::F, false),
            ("Dy<str>", Probe::<Dy<str>>::D, true), ("Dy<dyn Debug>", Probe::<Dy<dyn fmt::Debug>>::D, false),
            ("R<All>", Probe::<R<All>>::D, true), ("R<NoDisplay>", Probe::<R<NoDisplay>>::D, false),
            ("Fnp<NoDebug>", Probe::<Fnp<NoDebug>>::D, true),
            ("Tu<NoDebug>", Probe::<Tu<NoDebug>>::D, false), ("Tu<NoDisplay>", Probe::<Tu<NoDisplay>>::D, true),
            ("Ri<All, NoFromStr>", Probe::<Ri<All, NoFromStr>>::F, true), ("Ri<NoRx, All>", Probe::<Ri<NoRx, All>>::F, false), ("Ri<All, NoRx>", Probe::<Ri<All, NoRx>>::R, true),
            ("Ri<NoRx, All>: Display", Probe::<Ri<NoRx, All>>::D, true),
            ("Rv<NoRx, All>", Probe::<Rv<NoRx, All>>::F, false), ("Rv<All, NoRx>", Probe::<Rv<All, NoRx>>::F, true), ("Rv<All, NoFromStr>", Probe::<Rv<All, NoFromStr>>::R, false),
            ("Un<NoDisplay>", Probe::<Un<NoDisplay>>::D, true), ("Un<NoFromStr>", Probe::<Un<NoFromStr>>::F, true),
        ];
        for (n, g, w) in v { if g != w { println!("X {n}: implemented = {g}"); } }
        println!("N {}", v.len());
    }
}
'''.replace("    #[derive(Display, FromStr)] #[display(\"{a}\")] pub struct Mc<T> { a: m!(T) }\n    macro_rules! m { ($t:ty) => { $t } } use m;\n", "")


def wide():
    """Many parameters, many variants, many predicates, with every kind of where clause; each parameter alone lacks a trait."""
    decl, chk, n = [], [], 0
    wheres = [("", ""), ("where", "{p}: Mk"), ("where", "{p}: Mk + Clone"), ("inline", "{p}: Mk"), ("where", "Wr<{p}>: Sized"), ("one", "T0: Mk")]
    for k in range(1, 9):
        ps = ["T%d" % i for i in range(k)]
        for wk, wt in wheres:
            ws = [wt.format(p=p) for p in (ps[:1] if wk == "one" else ps)] if wt else []
            gen = "<%s>" % ", ".join(ws if wk == "inline" else ps)
            wc = " where " + ", ".join(ws) if ws and wk != "inline" else ""
            fmt = "-".join("{a%d}" % i for i in range(k))
            bds = ["", ", bound(%s)" % ", ".join(ps), ", bound(..)"] + [", bound(%s, ..)" % ps[-1]]
            for shape in ("struct", "tuple", "enum", "newtypes") + tuple(bds[1:]):
                name = "Wd%d" % n
                n += 1
                if shape == "tuple":
                    t = '#[display("%s")] pub struct %s%s(%s)%s;' % ("-".join("{%d}" % i for i in range(k)), name, gen, ", ".join("pub " + p for p in ps), wc)
                elif shape == "enum":
                    t = "pub enum %s%s%s { %s }" % (name, gen, wc, ", ".join('#[display("%d-{0}")] V%d(%s)' % (i, i, p) for i, p in enumerate(ps)))
                elif shape == "newtypes":
                    t = '#[display("{0}")] pub enum %s%s%s { %s }' % (name, gen, wc, ", ".join("V%d(Wr<%s>)" % (i, p) for i, p in enumerate(ps)))
                else:
                    t = '#[display("%s"%s)] pub struct %s%s%s { %s }' % (fmt, shape if shape != "struct" else "", name, gen, wc, ", ".join("a%d: %s" % (i, p) for i, p in enumerate(ps)))
                decl.append("#[derive(Display, FromStr)] " + t)
                for i in [None] + list(range(k)):
                    for lack in ("NoDisplay", "NoFromStr", "NoDebug"):
                        args = ", ".join(lack if j == i else "All" for j in range(k))
                        chk.append('("%s<%s>", Probe::<%s<%s>>::D, %s), ("%s<%s>: F", Probe::<%s<%s>>::F, %s)' % (
                            t.replace('"', "'"), args, name, args, str(i is None or lack != "NoDisplay").lower(),
                            t.replace('"', "'"), args, name, args, str(i is None or lack != "NoFromStr").lower()))
                        if i is None:
                            break
    return """
pub mod wide {
    use super::*;
    %s
    pub fn check() {
        let v: &[(&str, bool, bool)] = &[%s];
        for (n, g, w) in v { if g != w { println!("X {n:?}: implemented = {g}"); } }
        println!("N {}", v.len());
    }
}
""" % ("\n    ".join(decl), ",\n            ".join(x for x in chk))


def want(dem):
    r = [True]
    for p in "TU":
        r += [(p, t) not in dem and not (t == "FromStr" and (p, "Rx") in dem) for t in TR]
    return "".join("1" if x else "0" for x in r)


def check(run):
    a = engine()
    ps = space()
    n = 16 if TIER == "quick" else 32
    pre = prelude()

    def job(k):
        mine = [(i, p) for i, p in enumerate(ps) if i % n == k]
        bad = {}
        while True:
            L = (pre + (EXTRA if k == 0 else wide() if k == 1 else "")).split("\n")
            owner = {}
            main = ["fn main() {"]
            for i, (src, dem, tr) in mine:
                if i in bad:
                    continue
                L.append(src.replace("@", str(i)))
                owner[len(L)] = i
                for c in dem:
                    main.append('show(%d, "%s", &%s!(S%d, %s));' % (i, c, "probe_as" if tr else "probe", i, c))
            if k == 0:
                main.append("shapes::check();")
            if k == 1:
                main.append("wide::check();")
            main.append("}")
            src = "%s/c16_%d.rs" % (run.work, k)
            open(src, "w").write("\n".join(L + main))
            ok, errs, crashed = rustc(src, src + ".exe", externs(a, ("parse_display",)) + ["-C", "opt-level=0"])
            if ok:
                break
            hit = {}
            lost = []
            for m in errs:
                ls = [owner[l] for l in err_lines(m, os.path.basename(src)) if l in owner]
                if ls:
                    hit.setdefault(ls[0], m.get("rendered") or m["message"])
                else:
                    lost.append(m)
            if not hit:
                if k < 2 and lost:
                    return bad, [], (lost[0].get("rendered") or "")[:1500]
                raise CheckError("%s: %s %s" % (src, crashed, [m.get("rendered") for m in lost][:2]))
            bad.update(hit)
        r = subprocess.run([src + ".exe"], stdout=subprocess.PIPE, text=True, timeout=120)
        if r.returncode:
            raise CheckError("the probe program failed")
        return bad, r.stdout.splitlines(), None

    for bad, out, shapes in pmap(job, range(n)):
        for i, e in bad.items():
            run.add("states")
            run.violation("a valid generic program does not compile: its impl does not demand what it uses", {"program": ps[i][0], "error": e[:2000]})
        if shapes:
            run.violation("a valid generic program does not compile", {"program": "the shapes of EXTRA or wide() in driver/c16.py", "error": shapes})
        for l in out:
            f = l.split()
            if f[0] == "X":
                run.violation("an impl holds under other bounds than documented", {"shape": l[2:]})
                continue
            if f[0] == "N":
                run.add("transitions", int(f[1]))
                continue
            i, c, got = int(f[0]), f[1], f[2]
            w = want(ps[i][1][c])
            run.add("states")
            run.add("transitions", len(w))
            run.add("traces_validated_against_impl", len(w))
            if got != w:
                names = ["all"] + ["T:" + t for t in TR] + ["U:" + t for t in TR]
                run.violation("an impl holds under other bounds than documented", {
                    "program": ps[i][0], "trait": {"D": "Display", "F": "FromStr", "R": "FromStrRegex"}[c],
                    "documented": sorted(map(str, ps[i][1][c])), "wrongly demanded": [x for x, g, y in zip(names, got, w) if g == "0" and y == "1"],
                    "wrongly not demanded": [x for x, g, y in zip(names, got, w) if g == "1" and y == "0"]})
    run.add("programs", len(ps))
    for p in ps[5::997]:
        run.sample({"program": p[0], "demands": {c: sorted(map(list, d)) for c, d in p[1].items()}})
