"""C20: attribute misuse and its valid neighbours, over bounded spaces of attributes x places, accepted or refused."""
import itertools
import subprocess

import accept
from c03 import lit, words
from common import TIER, engine, externs

PRELUDE = r'''
#![allow(warnings)]
use parse_display::{Display, FromStr, DisplayFormat, FromStrFormat};
pub struct W;
impl<T: std::fmt::Display> DisplayFormat<T> for W { fn write(&self, f: &mut std::fmt::Formatter, v: &T) -> std::fmt::Result { v.fmt(f) } }
impl<T: std::str::FromStr> FromStrFormat<T> for W { type Err = (); fn parse(&self, s: &str) -> Result<T, ()> { s.parse().map_err(|_| ()) } }
#[derive(Default, Clone, Debug)] pub struct N { pub x: u8, pub y: u8 }
impl std::fmt::Display for N { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::str::FromStr for N { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
#[derive(Default, Clone, Debug)] pub struct M { pub n: N, pub k: N, pub x: u8 }
#[derive(Default, Clone, Debug)] pub struct O(pub M, pub M);
#[derive(Default, Clone, Debug)] pub struct Q { pub a: M, pub b: O }
use std::option;
pub mod opt2 { pub type Option<T> = super::Opt2<T>; }
pub mod option2 { pub mod option { pub type Option<T> = super::super::Opt2<T>; } }
pub type MyOpt = u8;
pub trait Same { type T; }
impl<X> Same for X { type T = X; }
pub struct Opt2<T>(pub T);
impl<T: std::fmt::Display> std::fmt::Display for Opt2<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl<T> std::str::FromStr for Opt2<T> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } }
'''
STYLES = ["none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE",
          "Title Case", "Title case", "title case", "TITLE CASE"]


def groups(rx):
    """Names of the named groups of a pattern and the pattern with harmless names; None if left open."""
    i, names, out, cls = 0, [], "", False
    while i < len(rx):
        if rx[i] == "\\":
            out += rx[i:i + 2]
            i += 2
            continue
        if cls:
            if rx[i] == "[":
                return None
            if rx[i] == "]" and i > cls_at:
                cls = False
        elif rx[i] == "[":
            cls = True
            cls_at = i + 1
            if rx[i + 1:i + 2] == "^":
                out += "["
                i += 1
                cls_at = i + 1
        elif rx.startswith("(?<", i) or rx.startswith("(?P<", i):
            e = rx.find(">", i)
            if e < 0:
                out += rx[i]
                i += 1
                continue
            names.append(rx[rx.index("<", i) + 1:e])
            out += "(?<g%d>" % len(names)
            i = e + 1
            continue
        out += rx[i]
        i += 1
    return names, out


def check(run):
    th = TIER == "thorough"
    a = engine()
    P = []
    seen = set()

    def add(src, expect, what):
        expect = {True: "ok", False: "err"}.get(expect, expect)
        if src not in seen:
            seen.add(src)
            P.append({"src": src, "expect": expect, "what": what})

    # --- regexes ------------------------------------------------------------------------------------------------
    plain = list(words(["(", ")", "[", "]", "*", "a", "\\", "{", "1", "}", "?", "|", "^", "-"], 4 if th else 3))
    plain += [p for p in words(["(", ")", "[", "]", "*", "a", "|"], 5 if th else 4)]
    plain += ["a{2,1}", "a{1", "a{,2}", "(?z)", "(?i)", "(?i:a)", "(?-i)a", "(?x) a # b", "(?x)a#", "(?x: a #\n)", "[b-a]", "\\p{zz}", "\\p{Greek}",
              "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "\\1", "a{99999}{99999}", "a{1000}{1000}{10}", "(?-u:\\xFF)", "(?-u:a)", "\\xFF", "\\x{110000}", "\\u{e9}", "\\8",
              "\\d+", "\\q", "\\#", "\\<", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\Ga", "(?s).", "(?R)a$", "(?m)^a$", "[[:alpha:]]", "[[:zz:]]", "[a&&b]",
              "[a--b]", "[^]", "[]", "[]a]", "(?P>a)", "(?P=a)", "(?#a)", "(?>a)", "a++", "a*?", "a??", "a{1}?", "(a|", "a||b", "|", "(?:)", "()", "((((((a))))))",
              "(" * 100 + ")" * 100, "(" * 260 + ")" * 260, "(" * 3000 + ")" * 3000, "[" * 300, "a" * 5000, "(?" + "i" * 2 + ")a", "(?i-i)a", "(?ii-)", "\n", "\\n", "\\\n", "a\\",
              ")(", "a)(b", "a)|(b", "a)b|(?:c", ")", "](", "*a", "?", "+", "{1}", "}", "]", "\u00e9", "\\u00e9", "\\u12", "[\u00e9-\u00e0]", "(?x)[ a # ]", "(?x)a\\ b", "(?x)a\\#"]
    plain = list(dict.fromkeys(p for p in plain if "(?<" not in p and "\r" not in p))
    ok = rxok(a, plain)
    spots = [
        "#[derive(FromStr)] #[from_str(regex = %s)] struct T@;",
        "#[derive(FromStr)] #[from_str(regex = %s)] enum T@ { A, B }",
        "#[derive(FromStr)] enum T@ { #[from_str(regex = %s)] A, B }",
        "#[derive(FromStr)] #[display(\"<{a}>\")] struct T@ { #[from_str(regex = %s)] a: String }",
        "#[derive(FromStr)] #[display(\"{0}-{1}\")] struct T@(#[display(\"[{}]\")] #[from_str(regex = %s)] String, #[from_str(regex = \"b\")] u8);",
        "#[derive(FromStr)] enum T@ { #[display(\"{a}\")] V { #[from_str(regex = %s)] a: String } }",
        "#[derive(FromStr)] #[display(\"{a}\")] struct T@ { #[display(opt)] #[from_str(regex = %s)] a: Option<String> }",
    ]
    for i, r in enumerate(plain):
        for k, sp in enumerate(spots):
            if k == 0 or th or k in (3, 4) or (i + k) % 3 == 0 or len(r) > 3:
                add(sp % lit(r), ok[r], "regex %r" % r)
    # named groups
    toks = ["(?<a>", "(?P<a>", "(?<b>", "(?<>", "(?<0>", "(?<a.x>", "(?<zz>", "(?:", ")", "q", "|", "*", "\\(?<a>", "[", "]", "(?P<>", "(?<a.z>", "(?<.a>", "(?<a.>", "(?<a..x>"]
    named = [w for w in words(toks, 4 if th else 3) if "<" in w]
    if th:
        named = [w for i, w in enumerate(named) if len(w) < 24 or i % 5 == 0]
    named += ["(?<a>x)(?<b>y)", "(?<a>x){0}", "(?:(?<a>x)){0,0}(?<b>.)", "(?<a.x>1){0}(?<b>.)", "(?<>(?<a>))", "(?<>(?<a>x)){0}", "(?:(?<0>.)){0}", "(?<a>x)(?P<a>y)", "(?<a.x>1)(?<a.x>2)", "(?<a.x>1)(?<a.y>2)", "(?<a>1)|(?<a>2)", "((?<a>1)(?<b>2))*", "(?<a>(?<b>.))", "(?<r#a>.)", "(?<a b>.)",
              "(?<a-b>.)", "(?<\u00e9>.)", "(?<1>.)", "(?<01>.)", "(?<a[0]>.)", "(?<a", "(?<a>", "(?<a>)", "(?P<a)", "(?P<a>.", "(?<>.)", "(?<self>.)", "(?<_>.)", "(?<A>.)", "(?x)(?<a>x) # (?<a>y)", "(?x)(?<a>x) # (?<zz>"]
    named = list(dict.fromkeys(named))
    ren = {r: groups(r) for r in named}
    ok2 = rxok(a, [g[1] for g in ren.values() if g])
    for r in named:
        g = ren[r]
        for form, names, fields, empty in (
                ("#[derive(FromStr)] #[from_str(regex = %s)] struct T@ { #[from_str(default)] a: N, #[from_str(default)] b: u8 }", ("a", "b"), N_NAMED, False),
                ("#[derive(FromStr, Default)] #[from_str(regex = %s, default)] struct T@(u8, u8);", ("0", "1"), N_TUPLE, False),
                ("#[derive(FromStr)] enum T@ { #[from_str(regex = %s)] V { #[from_str(default)] a: N, #[from_str(default)] b: u8 }, W }", ("a", "b"), N_NAMED, True)):
            if g is None or "#" in r:
                e = "any"
            else:
                ns, simple = g
                e = ok2[simple]
                if len(set(ns)) != len(ns):
                    e = False
                for n in ns:
                    if n == "":
                        e = e and empty
                    elif n not in fields and n.isdigit() and n.lstrip("0") in fields:
                        e = e and "any"
                    elif n not in fields:
                        e = False
                if e is True and any(x != y and x.startswith(y + ".") for x in ns for y in ns if y):
                    e = "any"
            add(form % lit(r), e, "named groups %r" % r)
    # field regex with groups
    for r, e in [("(?<>x)", "ok"), ("a(?<>x)b", "ok"), ("(?<>x)(?<>y)", "err"), ("(?<a>x)", "any"), ("(?<zz>x)", "any"), ("(?<>", "err"), ("(?<>)x", "ok"), ("(?P<>x)", "ok"), ("\\(?<>x", "any"), ("[(?<>x)]", "ok")]:
        add("#[derive(FromStr)] #[display(\"<{a}>\")] struct T@ { #[from_str(regex = %s)] a: String }" % lit(r), e, "groups in a field regex %r" % r)
        add("#[derive(FromStr)] enum T@ { #[display(\"<{0}>\")] V(#[from_str(regex = %s)] String) }" % lit(r), e, "groups in a field regex %r" % r)

    # --- styles -------------------------------------------------------------------------------------------------
    cand = set(STYLES)
    for s in STYLES:
        for i in range(len(s) + 1):
            cand.add(s[:i])
            for c in "aZ_- 1":
                cand.add(s[:i] + c + s[i:])
                cand.add(s[:i] + c + s[i + 1:])
            cand.add(s[:i] + s[i + 1:])
            cand.add(s[:i] + s[i:i + 1].swapcase() + s[i + 1:])
    for s in ["Snake_Case", "PascalCase", "pascalCase", "lower", "upper", "LOWERCASE", "uppercase", "None", "NONE", "SCREAMING_SNAKE_CASE", "SCREAMING-KEBAB-CASE", "title", "camel_case", "Kebab-Case"]:
        cand.add(s)
    for k, s in enumerate(sorted(cand)):
        e = s in STYLES
        for j, t in enumerate(["#[derive(Display)] #[display(style = %s)] enum T@ { Aa, B }", "#[derive(FromStr)] enum T@ { #[display(style = %s)] Aa, B }",
                               "#[derive(FromStr)] #[display(style = %s)] enum T@ { Aa, B }", "#[derive(Display)] enum T@ { #[display(style = %s)] Aa, B }"]):
            if th or e or j == k % 4:
                add(t % lit(s), e, "style %r" % s)

    # --- missing formats ------------------------------------------------------------------------------------------
    bodies = {"unit": (0, ";", ""), "braces": (0, "{}", "{}"), "parens": (0, "();", "()"), "one": (1, "{ a: u8 }", "{ a: u8 }"), "one tuple": (1, "(u8);", "(u8)"),
              "two": (2, "{ a: u8, b: u8 }", "{ a: u8, b: u8 }"), "two tuple": (2, "(u8, u8);", "(u8, u8)"), "three": (3, "(u8, u8, u8);", "(u8, u8, u8)")}
    for d in ("Display", "FromStr", "Display, FromStr"):
        disp, frm = "Display" in d, "FromStr" in d
        for b, (n, sb, vb) in bodies.items():
            fields = "".join("-{%s}" % k for k in (["a", "b", "c"][:n] if "{" in sb else ["0", "1", "2"][:n]))
            rx = "".join("(?<%s>.)" % k for k in (["a", "b", "c"][:n] if "{" in sb else ["0", "1", "2"][:n]))
            for at, hasd, hasr in [("", 0, 0), ("#[display(%s)] " % lit("x" + fields), 1, 0), ("#[from_str(regex = %s)] " % lit("x" + rx), 0, 1), ("#[display(%s)] #[from_str(regex = %s)] " % (lit("x" + fields), lit("x" + rx)), 1, 1),
                                   ("#[display()] ", 0, 0), ("#[display(style = \"none\")] ", 0, 0)]:
                e = (not disp or hasd or n == 1) and (not frm or hasd or hasr or n == 1)
                if "from_str" in at and not frm:
                    continue
                add("#[derive(%s)] %sstruct T@%s" % (d, at, sb), bool(e), "format of a struct with %d fields" % n)
                unit = b == "unit"
                e = (not disp or hasd or unit) and (not frm or hasd or hasr or unit)
                add("#[derive(%s)] enum T@ { O, %sV%s }" % (d, at, vb), bool(e), "format of a variant with %d fields" % n)
                if "from_str" in at and disp and not hasd and not unit:
                    pass
                e1 = e if b != "unit" else (not frm or True)
                add("#[derive(%s)] %senum T@ { V%s }" % (d, at, vb), bool(e1 if not unit else True), "enum-level format for a variant with %d fields" % n)
            # ignored variants need no format to be parsed
            if frm:
                unit = b == "unit"
                add("#[derive(%s)] enum T@ { O, #[from_str(ignore)] V%s }" % (d, vb), (not disp) or unit, "ignored variant without a format")
    # --- unknown fields -------------------------------------------------------------------------------------------
    for d in ("Display", "FromStr"):
        for body, have in (("{ a: N, b: u8 }", ["a", "b"]), ("(N, u8)", ["0", "1"])):
            for name in ["a", "b", "c", "A", "0", "1", "2", "_a", "a_", "r#a", "self", "T", "a.x", "a.y", "a.z", "0.x", "0.y", "0.w", "a.0", "b.x", "a.x.y"]:
                n = name[2:] if name.startswith("r#") else name
                h, _, t = n.partition(".")
                e = h in have and (t == "" or (h == have[0] and t in ("x", "y")))
                at = "#[display(%s)]" % lit("{" + name + "}")
                df = " #[from_str(default)]" if d == "FromStr" else ""
                der = "#[derive(FromStr, Default)]" if df else "#[derive(Display)]"
                semi = "" if "{" in body else ";"
                add("%s %s%s struct T@ %s%s" % (der, at, df, body, semi), e, "field %s" % name)
                vb = body.replace("a:", "#[from_str(default)] a:").replace("b:", "#[from_str(default)] b:").replace("(N, u8)", "(#[from_str(default)] N, #[from_str(default)] u8)") if df else body
                add("#[derive(%s)] enum T@ { %s V%s, W }" % (d, at, vb), e, "field %s" % name)
                add("#[derive(%s)] %s enum T@ { V%s }" % (d, at, vb), e, "field %s" % name)
        for name in ["x", "y", "z", "a", "0", "x.y", "r#x", "X"]:
            for spot in ["#[display(\"{a}\")]%s struct T@ { #[display(%s)] a: N }", "enum_ T@ { #[display(\"{0}\")] V(#[display(%s)]%s N) }"]:
                e = name in ("x", "y", "r#x")
                f = lit("<{" + name + "}>")
                if spot.startswith("enum_"):
                    add("#[derive(%s)] enum T@ { #[display(\"{0}\")] V(#[display(%s)]%s N) }" % (d, f, " #[from_str(default)]" if d == "FromStr" else ""), e, "sub-field %s" % name)
                else:
                    add("#[derive(%s)] %s" % (d + (", Default" if d == "FromStr" else ""), spot % (" #[from_str(default)]" if d == "FromStr" else "", f)), e, "sub-field %s" % name)
    for body, have in (("{ a: u8, b: u8 }", ["a", "b"]), ("(u8, u8);", ["0", "1"])):
        f = "{%s}" % have[0]
        for l in itertools.chain.from_iterable(itertools.permutations(["a", "b", "c", "0", "1", "2"], k) for k in (1, 2)):
            e = all(x in have for x in l) and have[1] in l
            if all(x in have for x in l) and have[1] not in l:
                e = "any"
            add("#[derive(FromStr)] #[display(%s)] #[from_str(default_fields(%s))] struct T@ %s" % (lit(f), ", ".join(l), body), e, "default_fields(%s)" % ", ".join(l))

    # a name that no field has, wherever names are given and wherever the format comes from
    for body, have in (("{ a: u8, b: u8 }", ["a", "b"]), ("(u8, u8)", ["0", "1"]), ("{ a: u8 }", ["a"]), ("(u8)", ["0"]), ("", [])):
        semi = "" if "{" in body else ";"
        dis = "".join("-{%s}" % k for k in have)
        rx = "".join("-(?<%s>.)" % k for k in have)
        sources = ["#[display(%s)] #[from_str(%%s)]" % lit("x" + dis), "#[from_str(regex = %s, %%s)]" % lit("x" + rx), "#[display(%s)] #[from_str(regex = %s, %%s)]" % (lit("x" + dis), lit("x" + rx)),
                   "#[from_str(%%s, regex = %s)]" % lit("x" + rx)]
        if len(have) == 1:
            sources += ["#[from_str(%s)]", "#[from_str(%s, regex_infer)]", "#[from_str(default_fields(), %s)]"]
        exprs = {"{ a: u8, b: u8 }": "{ a, b }", "(u8, u8)": "(_0, _1)", "{ a: u8 }": "{ a }", "(u8)": "(_0)", "": ""}
        for src in sources:
            for names in ["a", "b", "c", "0", "1", "2", "A", "_0", "a, c", "0, 2", "c, a"]:
                e = all(x.strip() in have for x in names.split(","))
                e = "any" if e else "err"
                at = src % ("default_fields(%s)" % names)
                add("#[derive(FromStr)] %s struct T@%s%s" % (at, body, semi), e, "default_fields(%s)" % names)
                add("#[derive(FromStr, Default)] #[from_str(default)] %s struct T@%s%s" % (at, body, semi), e, "default_fields(%s)" % names)
                add("#[derive(FromStr)] %s struct T@%s%s" % (src % ("new = T@ %s, default_fields(%s)" % (exprs[body], names)), body, semi), e, "default_fields(%s)" % names)
                if len(have) == 1 and "regex = " not in src and "display(" not in src:
                    continue
                add("#[derive(FromStr)] enum T@ { %s V%s, W }" % (at, body), e, "default_fields(%s)" % names)
                add("#[derive(FromStr)] #[from_str(default_fields(%s))] enum T@ { %s V%s }" % (names, src.replace(", %s", "").replace("%s, ", "").replace("#[from_str(%s)]", ""), body), "err" if e == "err" else "any", "default_fields(%s) on the enum" % names)
    # --- captured twice --------------------------------------------------------------------------------------------
    phs = ["{a}", "{b}", "{a.x}", "{a.y}", "-"]
    for w in itertools.chain.from_iterable(itertools.product(phs, repeat=k) for k in (1, 2, 3)):
        ps = [p for p in w if p != "-"]
        dup = len(set(ps)) != len(ps)
        mixed = "{a}" in ps and any(p.startswith("{a.") for p in ps)
        f = lit("".join(w))
        add("#[derive(Display)] #[display(%s)] struct T@ { a: N, b: u8 }" % f, True, "displayed twice")
        e = "err" if dup else "any" if mixed else "ok"
        add("#[derive(FromStr, Default)] #[display(%s)] #[from_str(default)] struct T@ { a: N, b: u8 }" % f, e, "captured twice")
        add("#[derive(FromStr)] enum T@ { #[display(%s)] V { #[from_str(default)] a: N, #[from_str(default)] b: u8 } }" % f, e, "captured twice")
    # deeper: the same path twice is refused at every depth, its neighbours are not
    deep = ["{a.n.x}", "{a.n.y}", "{a.k.x}", "{a.x}", "{b.0.n.x}", "{b.1.n.x}", "{b.0.n.y}", "{b.0.x}", "-"]
    for w in itertools.chain.from_iterable(itertools.product(deep, repeat=k) for k in (1, 2, 3)):
        ps = [p for p in w if p != "-"]
        if len(w) == 3 and len(set(ps)) == 3:
            continue
        e = "err" if len(set(ps)) != len(ps) else "ok"
        f = lit("".join(w))
        add("#[derive(FromStr, Default)] #[display(%s)] #[from_str(default)] struct T@ { a: M, b: O }" % f, e, "captured twice, deep")
        if len(w) < 3:
            add("#[derive(FromStr)] enum T@ { #[display(%s)] V { #[from_str(default)] a: M, #[from_str(default)] b: O } }" % f, e, "captured twice, deep")
            add("#[derive(FromStr, Default)] #[display(\"{q}\")] #[from_str(default)] struct T@ { #[display(%s)] q: Q, z: u8 }" % f, e, "captured twice, deep, in a field format")
            rx = "".join(p.replace("{", "(?<").replace("}", ">[0-9])") for p in w)
            add("#[derive(FromStr, Default)] #[from_str(default, regex = \"%s\")] struct T@ { a: M, b: O }" % rx, e, "captured twice, deep, in a regex")
            add("#[derive(FromStr)] enum T@ { #[from_str(regex = \"%s\")] V { #[from_str(default)] a: M, #[from_str(default)] b: O } }" % rx, e, "captured twice, deep, in a regex")
    for w in itertools.chain.from_iterable(itertools.product(["{}", "{x}", "{y}", "-"], repeat=k) for k in (1, 2, 3)):
        ps = [p for p in w if p != "-"]
        e = "err" if len(set(ps)) != len(ps) else "any" if "{}" in ps and len(ps) > 1 else "ok"
        add("#[derive(FromStr, Default)] #[display(\"{a}\")] #[from_str(default)] struct T@ { #[display(%s)] a: N, b: u8 }" % lit("".join(w)), e, "captured twice in a field format")

    # --- opt ----------------------------------------------------------------------------------------------------------
    tys = {"u8": 0, "String": 0, "Option<u8>": 1, "std::option::Option<u8>": 1, "core::option::Option<u8>": 1, "::std::option::Option<u8>": 1, "::core::option::Option<u8>": 1, "option::Option<u8>": 1, "opt2::Option<u8>": 0, "option2::option::Option<u8>": 0,
           "Opt2<u8>": 0, "MyOpt": 0, "Vec<u8>": None, "(u8,)": None, "Option<N>": 1, "N": 0, "[u8; 1]": None, "&'static str": None, "Box<u8>": 0, "Option<Option<u8>>": None, "Result<u8, u8>": None,
           "&'static Option<u8>": 2, "&'static &'static Option<u8>": 2, "Box<Option<u8>>": 2, "Vec<Option<u8>>": 2, "(Option<u8>,)": 2, "[Option<u8>; 1]": 2, "*const Option<u8>": 2, "Result<Option<u8>, u8>": 2, "Opt2<Option<u8>>": 2, "fn() -> Option<u8>": 2,
           "std::rc::Rc<Option<u8>>": 2, "std::borrow::Cow<'static, Option<u8>>": 2, "<Option<u8> as Same>::T": 2, "std::task::Poll<u8>": 2, "std::mem::ManuallyDrop<Option<u8>>": 2}
    for t, o in tys.items():
        for dv in ("Display", "FromStr"):
            for at in ["#[display(opt)]", "#[display(\"<{}>\", opt)]", "#[display(opt, with = W)]"]:
                plain_ok = True if o == 1 else False
                e = plain_ok if o is not None else "any" if "Option" in t else False
                if o == 2:
                    e = False
                if dv == "FromStr" and "'static" in t:
                    e = False
                add("#[derive(%s)] #[display(\"-{a}\")] struct T@ { %s a: %s }" % (dv, at, t), e, "opt on %s" % t)
                add("#[derive(%s)] enum T@ { #[display(\"-{0}\")] V(%s %s), W }" % (dv, at, t), e, "opt on %s" % t)
                add("#[derive(%s)] #[display(\"-{0}\")] enum T@ { V(%s %s) }" % (dv, at, t), e, "opt on %s" % t)
            if o == 0 and t != "Box<u8>":
                add("#[derive(%s)] #[display(\"-{a}\")] struct T@ { a: %s }" % (dv, t), "ok", "without opt on %s" % t)

    # --- default ------------------------------------------------------------------------------------------------------
    for at, where, e in [("#[from_str(default)]", "enum", False), ("#[from_str(default)]", "variant", False), ("#[from_str(default)]", "unit variant", False), ("#[from_str(default)]", "field", True), ("", "field", False)]:
        for der in ("FromStr", "Display, FromStr"):
            for dflt in ("", ", Default"):
                v = {"enum": "#[derive(%s%s)] %s enum T@ { %sA, #[display(\"{0}\")] V(u8) }", "variant": "#[derive(%s%s)] enum T@ { %sA, #[display(\"{0}\")] %s V(u8) }",
                     "unit variant": "#[derive(%s%s)] enum T@ { %s %sA, #[display(\"{0}\")] V(u8) }", "field": "#[derive(%s%s)] enum T@ { %sA, #[display(\"{0}\")] V(u8, %s u8) }"}[where]
                df = "#[default] " if dflt else ""
                args = (der, dflt, at, df) if where in ("enum", "unit variant") else (der, dflt, df, at)
                add(v % args, e, "default on %s" % where)
    for body, f in (("{ a: u8, b: u8 }", "{a}"), ("(u8, u8);", "{0}")):
        add("#[derive(FromStr)] #[display(%s)] #[from_str(default)] struct T@ %s" % (lit(f), body), False, "default on a struct without Default")
        add("#[derive(FromStr, Default)] #[display(%s)] #[from_str(default)] struct T@ %s" % (lit(f), body), True, "default on a struct")
        add("#[derive(FromStr)] #[display(%s)] struct T@ %s" % (lit(f), body), False, "a field that is never set")
        add("#[derive(FromStr)] #[display(%s)] struct T@ %s" % (lit(f), body.replace(", b:", ", #[from_str(default)] b:").replace("(u8, u8)", "(u8, #[from_str(default)] u8)")), True, "default on a field")

    # a field that is never set, of every type; its neighbours
    tys = ["u8", "()", "std::marker::PhantomData<u8>", "[u8; 0]", "Option<u8>", "String", "Vec<u8>", "&'static str", "bool", "N", "Box<u8>", "(u8, u8)", "std::marker::PhantomPinned", "Option<()>", "Box<()>", "char"]
    for t in tys:
        dflt = True
        for fm, rx in (("#[display(\"{%s}\")]", 0), ("#[from_str(regex = \"(?<%s>.)\")]", 1), ("#[from_str(regex = \"(?<%s>.)\", regex_infer)]", 1)):
            for v in ("& struct T@ { a: u8, % b: " + t + " }", "& struct T@ { % a: " + t + ", b: u8 }", "& struct T@(u8, % " + t + ");", "enum T@ { A, & V(u8, % " + t + ") }", "enum T@ { & V { % a: " + t + ", b: u8 }, B }", "& enum T@ { V(u8, % " + t + "), W(u8) }"):
                k = "b" if "% a" in v else "a" if "b:" in v else "0"
                v2 = v.replace("&", fm % k, 1)
                add("#[derive(FromStr)] " + v2.replace("% ", ""), "err", "a field of type %s that is never set" % t)
                add("#[derive(FromStr)] " + v2.replace("% ", "#[from_str(default)] "), "ok" if dflt else "err", "a field of type %s that is never set, with default" % t)
                if not rx:
                    add("#[derive(Display)] " + v2.replace("% ", ""), "ok", "a field of type %s that is not displayed" % t)

    # --- misuse next to other attributes, in every place and order -------------------------------------------------------
    def together(mine, others):
        """The attribute alone, in one list with another and in two attributes, in both orders."""
        yield ["from_str(%s)" % mine]
        for o in others:
            if o.startswith("display"):
                yield ["from_str(%s)" % mine, o]
                yield [o, "from_str(%s)" % mine]
            else:
                yield ["from_str(%s, %s)" % (mine, o)]
                yield ["from_str(%s, %s)" % (o, mine)]
                yield ["from_str(%s)" % mine, "from_str(%s)" % o]
                yield ["from_str(%s)" % o, "from_str(%s)" % mine]

    others = ["ignore", "regex_infer", "bound()", "bound(..)", "default_fields()", "regex = \"x\"", "new = Self::A", "display(\"x\")", "display(style = \"none\")", "display(bound())"]
    for l in together("default", others):
        at = " ".join("#[%s]" % x for x in l)
        neighbour = at.replace("default, ", "").replace(", default)", ")").replace("(default)", "()")
        for d in ("FromStr", "Display, FromStr"):
            for t in ("enum T@ { &A, B, #[display(\"{0}\")] V(u8) }", "enum T@ { A, &B, #[display(\"-{0}\")] V(u8) }", "enum T@ { A, B, &C }", "enum T@ { A, & V(#[from_str(default)] u8) }", "enum T@ { A, & V { #[from_str(default)] a: u8 } }"):
                e = "any"
                if "display(\"x\")" in at or "A, B, &C" in t or "&A" in t or "&B" in t:
                    e = "ok"
                if "default_fields()" in at:
                    e = "any"
                add("#[derive(%s)] %s" % (d, t.replace("&", neighbour + " ")), e, "the neighbour of default on a variant")
                add("#[derive(%s)] %s" % (d, t.replace("&", at + " ")), "err", "default on a variant with %s" % at)
            if "ignore" in at or "new" in at or "x" in at:
                continue
            add("#[derive(%s)] %s enum T@ { A, B }" % (d, neighbour), "ok" if "fields" not in at else "any", "the neighbour of default on an enum")
            add("#[derive(%s)] %s enum T@ { A, B }" % (d, at), "err", "default on an enum with %s" % at)
            add("#[derive(%s, Default)] %s enum T@ { A, #[default] B }" % (d, at), "err", "default on an enum with %s" % at)
    fa = ["", "#[from_str(default)]", "#[from_str(regex = \"x\")]", "#[from_str(regex_infer)]", "#[from_str(with = W)]", "#[from_str(bound())]", "#[display(bound())]", "#[display(\"<{}>\")]", "#[display(with = W)]"]
    for x, y in itertools.product(fa, fa):
        if x and x == y:
            continue
        both = " ".join(z for z in (x, y) if z)
        for d in ("Display" if "from_str" not in both else "Display, FromStr", "FromStr"):
            # opt on something else
            for ty in ("u8", "Opt2<u8>"):
                for at in ("#[display(opt)] " + both, both + " #[display(opt)]"):
                    add("#[derive(%s)] #[display(\"-{a}\")] struct T@ { %s a: %s }" % (d, at, ty), "err", "opt on %s with %s" % (ty, both))
                    add("#[derive(%s)] enum T@ { A, #[display(\"-{0}\")] V(%s %s) }" % (d, at, ty), "err", "opt on %s with %s" % (ty, both))
            add("#[derive(%s)] #[display(\"-{a}\")] struct T@ { #[display(opt)] %s a: Option<u8> }" % (d, both), "ok", "opt with %s" % both)
            add("#[derive(%s)] enum T@ { A, #[display(\"-{0}\")] V(#[display(opt)] %s Option<u8>) }" % (d, both), "ok", "opt with %s" % both)
            add("#[derive(%s)] enum T@ { A, #[display(\"-{0}\")] V(%s u8) }" % (d, both), "ok", "no opt with %s" % both)
            # an unknown field next to one with attributes
            for s in ("", ":?", ":5", ":>3", ":p", ":x?"):
                if d == "FromStr" and s and x:
                    continue
                add("#[derive(%s)] #[display(\"-{a}{c%s}\")] struct T@ { %s a: u8, b: u8 }" % (d, s, both), "err", "an unknown field with a parameter")
                add("#[derive(%s)] #[display(\"-{c%s}\")] enum T@ { A, V { %s a: u8 } }" % (d, s, both), "err", "an unknown field with a parameter")
        # captured twice
        add("#[derive(FromStr)] #[display(\"{a}-{a}\")] struct T@ { %s a: u8 }" % both, "err", "captured twice with %s" % both)
        add("#[derive(FromStr)] enum T@ { A, #[display(\"{0}-{0}\")] V(%s u8) }" % both, "err", "captured twice with %s" % both)
        add("#[derive(FromStr)] #[display(\"{a}-{b}\")] struct T@ { %s a: u8, b: u8 }" % both, "ok", "captured once with %s" % both)
        # {} in a struct
        add("#[derive(FromStr)] #[display(\"{a}-{}\")] struct T@ { %s a: u8 }" % both, "err", "{} in a struct with %s" % both)
        add("#[derive(%s)] #[display(\"{a}-{}\")] struct T@ { %s a: u8 }" % ("Display, FromStr" if "from_str" in both else "Display", both), "err", "{} in a struct with %s" % both)
        # with of from_str says nothing about Display
        for s in ("?", "x", "5"):
            e = "err" if "display(with" in both and s != "5" else "ok"
            for v in ("#[display(\"{a:%s}\")] struct T@ { %s a: u8 }", "enum T@ { A, #[display(\"{a:%s}\")] V { %s a: u8 } }"):
                add("#[derive(%s)] " % ("Display, FromStr" if "from_str" in both else "Display") + v % (s, both), "any" if "display(\"<" in both else e, "with and {:%s}" % s)
    # a style that does not exist, wherever it stands
    for st, e in (("zz", "err"), ("none", "ok")):
        for d in ("Display", "FromStr"):
            sa = "style = \"%s\"" % st
            for v in ("#[display(%s)] enum T@ { A }", "enum T@ { #[display(\"x\", %s)] A }", "enum T@ { A, #[display(%s)] B }", "#[display(\"{0}\")] enum T@ { A(#[display(%s)] u8) }", "#[display(%s)] struct T@(u8);", "struct T@(#[display(%s)] u8);",
                      "#[display(\"x\")] enum T@ { #[display(%s)] A }", "#[display(style = \"none\")] #[display(%s)] enum T@ { A }", "#[display(%s)] #[display(style = \"none\")] enum T@ { A }"):
                add("#[derive(%s)] %s" % (d, v % sa), e, "style %s" % st)

    # --- with and another trait ------------------------------------------------------------------------------------------
    for t in ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E", "5", "5?", ">8x", "#?", ".2"]:
        other = t != "" and t[-1] in "?oxXpbeE"
        s = "{%s" + (":" + t if t else "") + "}"
        e = not other
        for opt in ("", "opt, "):
            ty = "Option<u8>" if opt else "u8"
            add("#[derive(Display)] #[display(%s)] struct T@ { #[display(%swith = W)] a: %s }" % (lit(s % "a"), opt, ty), e, "with and {:%s}" % t)
            add("#[derive(Display)] #[display(\"{a}\")] struct T@ { #[display(%s, %swith = W)] a: %s }" % (lit(s % ""), opt, ty), e, "with and {:%s} in the field format" % t)
            add("#[derive(Display)] enum T@ { #[display(%s)] V(#[display(%swith = W)] %s) }" % (lit(s % "0"), opt, ty), e, "with and {:%s}" % t)
            add("#[derive(Display)] #[display(%s)] enum T@ { V(#[display(with = W%s)] %s) }" % (lit(s % "0"), ", opt" if opt else "", ty), e, "with and {:%s}" % t)

    # --- the attribute's own syntax -----------------------------------------------------------------------------------------
    bad = ["display(foo)", "display(foo = 1)", "display(\"{a}\", foo)", "display(\"{a}\", \"{a}\")", "display(1)", "display('a')", "display(b\"a\")", "display({a})", "display(style)", "display(style = 1)",
           "display(style = none)", "display(with)", "display(opt = 1)", "display(opt = true)", "display(bound)", "display(regex = \"a\")", "display(default)", "display(ignore)", "display(new = 1)", "display(format = \"{a}\")",
           "display(\"{a}\" \"{a}\")", "display(,)", "display(\"{a}\",,)", "display(with = )", "display(crate)", "display(crate = 1)", "display(opt, opt)", "display(style = \"none\", style = \"none\")"]
    fbad = ["from_str(foo)", "from_str(foo = 1)", "from_str(\"{a}\")", "from_str(regex)", "from_str(regex = 1)", "from_str(regex = a)", "from_str(regex(\"a\"))", "from_str(default = 1)", "from_str(new)", "from_str(with)",
            "from_str(ignore = 1)", "from_str(opt)", "from_str(style = \"none\")", "from_str(regex_infer = 1)", "from_str(default_fields)", "from_str(regex = \"a\" regex_infer)", "from_str(bound)", "from_str(crate = a)", "from_str(default, default)"]
    for b in bad + fbad:
        for d in ("Display", "FromStr"):
            if b.startswith("from_str") and d == "Display":
                continue
            for sp in ["#[derive(%s)] #[%s] struct T@ { a: u8 }", "#[derive(%s)] struct T@ { #[%s] a: u8 }", "#[derive(%s)] #[%s] enum T@ { A }", "#[derive(%s)] enum T@ { #[%s] A }", "#[derive(%s)] enum T@ { #[display(\"{0}\")] A(#[%s] u8) }"]:
                add(sp % (d, b), False, "attribute %s" % b)
    good = ["display()", "display(\"{a}\",)", "display(opt,)", "display(\"<{a}>\", bound())", "display(bound(u8))", "display(bound(..))", "display(crate = parse_display)", "display(crate = ::parse_display)", "display(style = \"none\",)"]
    for b in good:
        if "opt" in b:
            continue
        add("#[derive(Display, FromStr)] #[%s] struct T@ { a: u8 }" % b, True, "attribute %s" % b)
        if "{a}" not in b:
            add("#[derive(Display, FromStr)] enum T@ { #[%s] A }" % b, True, "attribute %s" % b)
            add("#[derive(Display, FromStr)] #[%s] enum T@ { A }" % b, True, "attribute %s" % b)
    for b in ["from_str()", "from_str(regex = \"(?<a>.)\",)", "from_str(regex_infer)", "from_str(new = T@ { a })", "from_str(bound(), regex_infer)", "from_str(default_fields(a))", "from_str(default_fields())"]:
        add("#[derive(FromStr)] #[%s] struct T@ { a: u8 }" % b, True, "attribute %s" % b)
    for src, e in [("#[display = \"{a}\"]", False), ("#[display]", False)]:
        for d in ("Display", "FromStr"):
            add("#[derive(%s)] %s struct T@ { a: u8 }" % (d, src), e, "attribute %s" % src)
            add("#[derive(%s)] struct T@ { %s a: u8 }" % (d, src), e, "attribute %s" % src)
    for d in ("Display", "FromStr"):
        # two attributes of the same kind add up
        add("#[derive(%s)] #[display(\"{a}\")] #[display(bound(u8))] struct T@ { a: u8 }" % d, True, "two attributes")
        add("#[derive(%s)] #[display(\"{a}\")] #[doc = \"x\"] #[cfg(all())] #[display()] struct T@ { a: u8 }" % d, True, "two attributes")

    for e in ("ok", "err", "any"):
        run.add("expected_" + e, sum(p["expect"] == e for p in P))
    v = accept.decide(P, PRELUDE, externs(a, ("parse_display",)), run.work)
    accept.judge(run, P, v, "an item")
    for e in ("ok", "err"):
        for p in [p for p in P if p["expect"] == e][7::1501]:
            run.sample({"expect": e, "program": p["src"]})


N_NAMED = {"a", "b", "a.x", "a.y"}
N_TUPLE = {"0", "1"}


def rxok(a, ps):
    ps = list(dict.fromkeys(ps))
    r = subprocess.run([a["bin:rxok"]], input="\n".join(p.encode().hex() for p in ps) + "\n", stdout=subprocess.PIPE, text=True, check=True)
    return {p: l == "1" for p, l in zip(ps, r.stdout.split())}
