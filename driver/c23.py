"""C23: the derives add no warning: every program of the display, parse and bound spaces and a product of items that the compiler
looks at closely, compiled once with the derives and once with derives that do nothing, with the lints on; the former may report
nothing that the latter does not.
"""
import itertools
import json
import os
import re
import subprocess

from common import TIER, VERIF, CheckError, engine, err_lines, env, externs, pmap

import c16
import c17

# (suite, one of how many programs in the quick tier, in the thorough tier)
SUITES = [("C01", 4, 2), ("C04", 1, 1), ("C05", 4, 4), ("C06", 4, 1), ("C07", 4, 1), ("C08", 8, 1), ("C09", 4, 6), ("C10", 4, 1), ("C11", 2, 1), ("C12", 2, 1), ("C13", 4, 1)]
# besides the lints that are on by default
OPT_IN = ["unsafe_code", "missing_docs", "missing_debug_implementations", "missing_copy_implementations", "unreachable_pub", "unused_lifetimes", "unused_import_braces", "unused_macro_rules",
          "elided_lifetimes_in_paths", "explicit_outlives_requirements", "single_use_lifetimes", "non_ascii_idents", "keyword_idents_2018", "keyword_idents_2024", "absolute_paths_not_starting_with_crate",
          "macro_use_extern_crate", "meta_variable_misuse", "redundant_lifetimes", "ambiguous_negative_literals", "unit_bindings", "unnameable_types"]
SKIP = {"unknown_lints", "warnings"}
NOP = '''extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_derive(Display, attributes(display))] pub fn d(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(FromStr, attributes(display, from_str))] pub fn f(_: TokenStream) -> TokenStream { TokenStream::new() }
'''
PER = 400
DEFAULT_FIELDS = "from_str_default_fields"

ITEMS_PRELUDE = '''
use parse_display::{Display, FromStr};
#[deprecated] pub type Old = u8;
#[deprecated] pub trait OldTr {}
pub trait Tr {}
#[derive(Clone, Copy, PartialEq)] pub enum Nv {}
impl std::fmt::Display for Nv { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
impl std::str::FromStr for Nv { type Err = (); fn from_str(_: &str) -> Result<Nv, ()> { Err(()) } }
#[must_use] #[derive(Clone, Default)] pub struct Must<T>(pub T);
impl<T: std::fmt::Display> std::fmt::Display for Must<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: std::str::FromStr> std::str::FromStr for Must<T> { type Err = T::Err; fn from_str(s: &str) -> Result<Self, T::Err> { s.parse().map(Must) } }
impl<T: std::str::FromStr> parse_display::FromStrRegex for Must<T> { fn from_str_regex() -> String { "[a-z0-9]*".into() } }
pub struct W8;
impl parse_display::DisplayFormat<u8> for W8 { fn write(&self, f: &mut std::fmt::Formatter<'_>, v: &u8) -> std::fmt::Result { write!(f, "{v}") } }
impl parse_display::FromStrFormat<u8> for W8 { type Err = (); fn parse(&self, s: &str) -> Result<u8, ()> { s.parse().map_err(|_| ()) } }
#[derive(Clone)] pub struct Two<T, U>(T, U);
impl<T, U> std::fmt::Display for Two<T, U> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T, U> std::str::FromStr for Two<T, U> { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Err(()) } }
'''


def lints():
    t = subprocess.run(["rustc", "-W", "help"], stdout=subprocess.PIPE, text=True, env=env()).stdout
    known, on = [], []
    for l in t.splitlines():
        m = re.match(r"\s+([a-z][a-z0-9-]+)\s+(allow|warn|deny)\s", l)
        if m:
            n = m.group(1).replace("-", "_")
            if n not in SKIP:
                known.append(n)
                if m.group(2) != "allow" or n in OPT_IN:
                    on.append(n)
    if len(on) < 100:
        raise CheckError("the lints of the compiler were not found")
    return known, on


def items():
    """Types that the compiler would report something of if it were not for an attribute of the type or for the derive's care."""
    # (generics, where, type of the field, attribute that the type needs in order not to be reported)
    tys = [
        ("", "", "u8", ""), ("", "", "Nv", ""), ("", "", "(u8)", "#[allow(unused_parens)]"), ("", "", "Old", "#[allow(deprecated)]"), ("", "", "Must<u8>", ""),
        ("<T>", "", "T", ""), ("<t>", "", "t", "#[allow(non_camel_case_types)]"), ("<T>", "", "(T)", "#[allow(unused_parens)]"), ("<T: Tr>", "", "T", ""), ("<T>", " where T: Tr", "T", ""),
        ("<T: OldTr>", "", "T", "#[allow(deprecated)]"), ("<T>", " where T: OldTr", "T", "#[allow(deprecated)]"), ("<T>", "", "Two<T, Old>", "#[allow(deprecated)]"), ("<T>", "", "Must<T>", ""),
        ("<const n: usize>", "", "Two<u8, [u8; n]>", "#[allow(non_upper_case_globals)]"), ("<const N: usize>", "", "Two<u8, [u8; N]>", ""), ("<T>", "", "Two<T, self::Old>", "#[allow(deprecated, unused_qualifications)]"),
        ("<T: ?Sized>", "", "Box<T>", ""), ("<T = u8>", "", "T", ""), ("<T: Copy + Tr>", " where T: Clone", "T", ""), ("<T>", "", "Two<fn(T) -> (T), ()>", "#[allow(unused_parens)]"), ("<T\u00e9>", "", "T\u00e9", "#[allow(non_ascii_idents)]"),
    ]
    own = ["", "#[deprecated]", "#[deprecated(note = \"x\")]", "#[must_use]", "#[non_exhaustive]", "#[doc(hidden)]", "#[allow(dead_code)]", "#[repr(C)]"]
    fattr = ["", "#[deprecated]", "#[doc(hidden)]", "#[allow(dead_code)]"]
    shapes = ["sn", "st", "newtype", "en", "et", "unit", "vdep", "default", "nested", "opt", "snake", "camel", "new", "variantnew"]
    for t in typed(tys, own, fattr, shapes):
        # an attribute of FromStr is none of Display
        yield t if "FromStr" in t else t.replace("#[from_str(default)] ", "").replace('#[from_str(regex = "[0-9]+")] ', "")


    # every order of the arguments, in one attribute and in one each, on a struct, an enum, a variant and a field
    menus = [
        ("S", ['regex = "(?<a>[0-9]+)"', "default", "bound(..)"]), ("S", ['regex = "(?<a>[0-9]+)"', 'default_fields("b")']), ("S", ["default_fields(b)", "bound()"]), ("S", ["new = Self::mk(a, b)", "bound()"]),
        ("E", ['default_fields("b")', "bound()"]), ("E", ["bound(..)", "default_fields(b)"]), ("V", ['regex = "(?<a>[0-9]+)"', 'default_fields("b")']), ("V", ['new = Self::mk(a, b)', 'regex = "(?<a>[0-9]+)(?<b>)"']),
        ("V", ["ignore", "default_fields(b)"]), ("V", ["ignore"]), ("F", ["default", 'regex = "[0-9]+"']), ("F", ["default", "regex_infer"]), ("F", ["bound(..)", "default"]), ("F", ["with = W8", 'regex = "[0-9]"', "default"]),
        ("F", ["with = W8", "default"]),
    ]
    for place, menu in menus:
        for n in range(1, len(menu) + 1):
            for xs in itertools.permutations(menu, n):
                for one in (True, False):
                    at = "#[from_str(%s)]" % ", ".join(xs) if one else " ".join("#[from_str(%s)]" % x for x in xs)
                    for ph in ("{a}", "{a}-{b}"):
                        at_ = lambda p: at if p == place else ""
                        if ph == "{a}" and place == "S" and not any(x.startswith("default") for x in xs) or ph == "{a}" and "new" in at:
                            continue
                        yield ("#[derive(Display, FromStr%s)] #[display(\"%s\")] %s pub struct S { #[display(bound())] %s a: u8, %s b: u8 } impl S { pub fn mk(a: u8, b: u8) -> Option<S> { Some(S { a, b }) } }"
                               % (", Default" if place == "S" else "", ph, at_("S"), at_("F"), "" if "default" in at and place == "S" or "new" in at else "#[from_str(default)]")) if place in "SF" else (
                            "#[derive(Display, FromStr)] %s pub enum S { #[display(\"%s\")] %s V { a: u8, %s b: u8 }, #[from_str(ignore)] W } impl S { pub fn mk(a: u8, b: u8) -> Option<S> { Some(S::V { a, b }) } }"
                            % (at_("E"), ph, at_("V"), "" if "default" in at or "new" in at else "#[from_str(default)]"))


def typed(tys, own, fattr, shapes):
    for der in ("Display, FromStr", "Display", "FromStr"):
        for (g, w, t, need), o, fa, sh in itertools.product(tys, own, fattr, shapes):
            if o == "#[repr(C)]" and sh in ("en", "et", "vdep", "camel", "nested", "opt"):
                continue
            # an expression of the user is the user's own use
            if sh in ("new", "variantnew") and "deprecated" in o:
                continue
            if not g and sh == "default" and t == "Nv":
                continue
            fa = fa + " " if fa else ""
            pre = "#[derive(%s)] %s %s" % (der, need, o)
            fs = "FromStr" in der
            if sh == "sn":
                yield "%s #[display(\"{a}-{b}\")] pub struct S%s%s { %sa: %s, %sb: u8 }" % (pre, g, w, fa, t, fa)
            elif sh == "st":
                yield "%s #[display(\"{1}-{0}\")] pub struct S%s(%s%s, %su8)%s;" % (pre, g, fa, t, fa, w)
            elif sh == "newtype":
                yield "%s pub struct S%s(%s%s)%s;" % (pre, g, fa, t, w)
            elif sh == "en":
                yield "%s pub enum S%s%s { #[display(\"{a}\")] V { %sa: %s, %s#[from_str(default)] b: u8 }, W }" % (pre, g, w, fa, t, fa)
            elif sh == "et":
                yield "%s #[display(style = \"snake_case\")] pub enum S%s%s { #[display(\"{}-{0}\")] VarOne(%s%s), #[display(\"{}:{1}\")] VarTwo(#[from_str(default)] u8, %su8), VarThree }" % (pre, g, w, fa, t, fa)
            elif sh == "unit" and not g:
                yield "%s #[display(\"x\")] pub struct S;" % pre
                yield "%s pub enum S { A, %sB }" % (pre, fa)
                if "repr" not in o:
                    yield "%s pub enum S {}" % pre
            elif sh == "vdep":
                yield "%s pub enum S%s%s { #[deprecated] #[display(\"{a}\")] V { %sa: %s }, #[deprecated] W, #[display(\"{0}!\")] #[deprecated] X(%su8) }" % (pre, g, w, fa, t, fa)
            elif sh == "default" and t not in ("Two<fn(T) -> (T), ()>",) and "Two" not in t and "Box" not in t:
                yield "%s #[display(\"{b}\")] pub struct S%s%s { #[from_str(default)] %sa: Must<u8>, %sb: %s }" % (pre, g, w, fa, fa, t)
            elif sh == "nested":
                yield "%s #[display(\"{a.0}-{b}\")] pub struct S%s%s { #[from_str(default)] %sa: Must<u8>, %sb: %s }" % (pre, g, w, fa, fa, t)
            elif sh == "opt":
                yield "%s #[display(\"{a}-{b}\")] pub struct S%s%s { #[display(\"x{}\", opt)] %sa: Option<%s>, #[from_str(regex = \"[0-9]+\")] %sb: u8 }" % (pre, g, w, fa, t, fa)
            elif sh == "snake":
                yield "%s #[allow(non_snake_case)] #[display(\"{Foo}-{r#type}-{_x}-{__y}\")] pub struct S%s%s { %sFoo: %s, %sr#type: u8, _x: u8, __y: u8 }" % (pre, g, w, fa, t, fa)
            elif sh == "camel":
                yield "%s #[allow(non_camel_case_types, non_snake_case)] pub enum s%s%s { lower_case, UPPER, #[display(\"{Foo}\")] under_score { %sFoo: %s }, #[display(\"{0}{1:x}\")] r#type(%su8, u8) }" % (pre, g, w, fa, t, fa)
            elif sh == "new" and fs:
                yield "%s #[display(\"{a}\")] #[from_str(new = Self::mk(a))] pub struct S%s%s { %sa: %s } impl%s S%s%s { #[must_use] #[allow(deprecated, non_camel_case_types, unused_parens)] fn mk(a: %s) -> Option<Self> { Some(S { a }) } }" % (
                    pre, g, w, fa, t, g.replace(" = u8", ""), args(g), w, t)
            elif sh == "variantnew" and fs:
                yield "%s pub enum S%s%s { #[display(\"{a}\")] #[from_str(new = Self::V { a })] V { %sa: %s }, #[display(\"y{0}\")] #[from_str(new = mk(_0).map(Self::W))] W(%su8) } #[must_use] fn mk(x: u8) -> Option<u8> { Some(x) }" % (pre, g, w, fa, t, fa)


def args(g):
    if not g:
        return ""
    return "<%s>" % ", ".join(re.sub(r"^const ", "", p.split(":")[0].split("=")[0].strip()) for p in g[1:-1].split(","))


WRAPS = ["%s", "pub fn outer() { %s }", "macro_rules! mk_ { ($($t:tt)*) => { $($t)* } } mk_! { %s }", "#[deprecated] pub mod inner { #[allow(unused_imports)] use super::*; %s }",
         "macro_rules! mk_ { () => { %s } } mk_!();"]


def compile_(src, out, ext, edition):
    """Returns ({(lint, line, message): rendered}, [errors])."""
    cmd = ["clippy-driver", "--edition", edition, "--error-format=json", "--emit=metadata", "--crate-type=lib", src, "-o", out, "--cap-lints", "warn"] + ext
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env(), CLIPPY_CONF_DIR=os.path.dirname(src)), timeout=800)
    warn, errs = {}, []
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level", "").startswith("error") and not m["message"].startswith("aborting"):
            errs.append(m)
        elif m.get("level") == "warning" and m.get("code"):
            code = (m.get("code") or {}).get("code", "")
            ls = err_lines(m, os.path.basename(src))
            warn[(code, ls[0] if ls else 0, m["message"])] = m.get("rendered", "")
    if r.returncode not in (0, 1):
        raise CheckError("the compiler ended with %d on %s: %s" % (r.returncode, src, r.stderr[-500:]))
    return warn, errs


def control(t):
    one = lambda m: "#[derive(%s)]" % re.sub(r"(?<![\w:])(?:::parse_display::|parse_display::)?(Display|FromStr)(?!\w)", r"::nop::\1", m.group(1))
    return re.sub(r"#\[derive\(([^\]]*)\)\]", one, t)


def check(run):
    a = engine()
    gen = a.get("bin:gen")
    nop = os.path.join(run.work, "nop.rs")
    open(nop, "w").write(NOP)
    so = os.path.join(run.work, "libnop.so")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "nop", nop, "-o", so], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError(r.stdout)
    th = TIER == "thorough"
    # group -> programs
    groups = {"engine": [], "bounds": [], "items": []}
    for s, *every in SUITES:
        d = os.path.join(run.work, s)
        os.makedirs(d)
        r = subprocess.run([gen, s, TIER, "1", d, "x", ""], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError(r.stdout)
        for i, l in enumerate(open(os.path.join(d, "programs.jsonl"))):
            if i % every[th] == 0:
                groups["engine"].append(json.loads(l)["source"])
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    for it in c17.ITEMS:
        nm = dict(c17.BASE)
        groups["engine"].append(c17.subst(it.pre, nm, "::parse_display", "")[0] + "\n" + c17.subst(it.text, nm, "::parse_display", "")[0])
    for i, p in enumerate(c16.space()):
        if th or i % 12 == 0:
            groups["bounds"].append(p[0].replace("S@", "S"))
    for i, t in enumerate(items()):
        if th:
            groups["items"] += [w % t for j, w in enumerate(WRAPS) if (i + j) % 2 == 0]
        elif i % 4 == 0 or "fn mk(a: u8" in t:
            groups["items"].append(WRAPS[(i // 4) % len(WRAPS)] % t)
    pre = {"engine": open(os.path.join(VERIF, "engine/mc/prelude.rs")).read(), "bounds": c16.prelude(), "items": ITEMS_PRELUDE}
    known, on = lints()
    work = []
    for g, ps in groups.items():
        # the same text twice is the same program
        ps = groups[g] = list(dict.fromkeys(ps))
        n = max(8, -(-len(ps) // PER))
        work += [(g, k, list(range(k, len(ps), n))) for k in range(n)]
    ext = externs(a) + ["--extern", "nop=" + so]
    stat = {"not_complete_without_the_derives": 0}

    def text(g, ids, ctl):
        L = ["#[allow(clippy::all, %s)] mod prel {" % ", ".join(known)] + pre[g].replace("#![allow(warnings)]", "").split("\n")
        L.append("#[warn(clippy::all, %s)] pub mod all { #[allow(unused_imports)] use super::*;" % ", ".join(on))
        owner = {}
        for i in ids:
            t = groups[g][i]
            for l in ("pub mod p%d { #[allow(unused_imports)] use super::*;\n%s\n}" % (i, control(t) if ctl else t)).split("\n"):
                L.append(l)
                owner[len(L)] = i
        L.append("} }")
        return "\n".join(L) + "\n", owner

    def job(w):
        g, k, ids = w
        return g, one(g, k, ids, ("2024", "2021", "2018")[k % 3] if g == "items" else "2024")

    def one(g, k, ids, ed):
        got = []
        for ctl in (True, False):
            src = os.path.join(run.work, "%s%d%s.rs" % (g, k, "n" if ctl else ""))
            t, owner = text(g, ids, ctl)
            open(src, "w").write(t)
            w, e = compile_(src, src + ".out", ext, ed)
            if e:
                # without the derives some programs are not complete: a type whose Display the helpers of the prelude need
                drop = {owner.get(l) for m in e for l in err_lines(m, os.path.basename(src))}
                left = [i for i in ids if i not in drop]
                if not ctl or len(left) == len(ids):
                    raise CheckError("%s %s: %s" % ("with no-op derives" if ctl else "with the derives", src, e[0].get("rendered")))
                stat["not_complete_without_the_derives"] += len(ids) - len(left)
                return one(g, k, left, ed)
            got.append(w)
            for f in (src, src + ".out"):
                if os.path.exists(f):
                    os.unlink(f)
        bad, told = [], set()
        have = {(c, l) for c, l, _ in got[0]}
        for (c, l, m), full in got[1].items():
            if c == "deprecated" and DEFAULT_FIELDS in m and "default_fields" in groups[g][owner.get(l, ids[0])]:
                told.add(owner.get(l))
            elif (c, l) not in have:
                bad.append((c, owner.get(l), full))
        for i in ids:
            if "default_fields" in groups[g][i] and i not in told and re.search(r"derive\([^)]*FromStr", groups[g][i]):
                bad.append(("the deprecation of default_fields is not reported", i, ""))
        return bad, len(got[1]), len(got[0]), len(ids), len(told)

    codes = {}
    for g, (bad, x, y, n, told) in pmap(job, work):
        run.add("reports_with_the_derives", x)
        run.add("reports_without", y)
        run.add("deprecations_of_default_fields", told)
        run.add("states", n)
        run.add("transitions", n * len(on))
        run.add("traces_validated_against_impl", n)
        for c, i, m in sorted(bad, key=str):
            codes[c] = codes.get(c, 0) + 1
            run.violation("the derive adds a report of the compiler", {"lint": c, "group": g, "program": groups[g][i] if i is not None else None, "report": m[:1500]})
    if codes:
        run.extra["new"] = codes
    run.extra.update(stat)
    run.extra["lints"] = len(on)
    run.extra["programs"] = {g: len(p) for g, p in groups.items()}
    for g, ps in groups.items():
        for p in ps[3::max(1, len(ps) // 3)]:
            run.sample({"group": g, "program": p[:500]})
