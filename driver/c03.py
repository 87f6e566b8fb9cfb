"""C03: every format string of bounded spaces x the places a format can stand, accepted or refused, against a reference grammar."""
import itertools
import re

import accept
from common import TIER, engine, externs

PRELUDE = r'''
#![allow(warnings)]
use parse_display::{Display, FromStr};
macro_rules! imp { ($t:ty: $($tr:ident)*) => { $(impl std::fmt::$tr for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } })*
  impl std::str::FromStr for $t { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Err(()) } } } }
#[derive(Default, Clone)] pub struct P;
#[derive(Default, Clone)] pub struct U(pub P, pub P);
#[derive(Default, Clone)] pub struct N { pub a: P, pub b: U, pub x: P }
imp!(P: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
imp!(U: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
imp!(N: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
'''
LEAF = {}
UT = {"0": LEAF, "1": LEAF}
NT = {"a": LEAF, "b": UT, "x": LEAF}
NAMED = {"a": LEAF, "b": NT, "x": UT}
TUPLE = {"0": LEAF, "1": NT}

# (name, text, tree, what an empty path means)
CTX = {
    "D named": ("#[derive(Display, Debug)] #[display(%s)] struct T@ { a: P, b: N, x: U }", NAMED, "self"),
    "D tuple": ("#[derive(Display, Debug)] #[display(%s)] struct T@(P, N);", TUPLE, "self"),
    "D unit": ("#[derive(Display, Debug)] #[display(%s)] struct T@;", {}, "self"),
    "D variant": ("#[derive(Display, Debug)] enum T@ { #[display(%s)] V { a: P, b: N, x: U }, W }", NAMED, "name"),
    "D enum": ("#[derive(Display, Debug)] #[display(%s)] enum T@ { V(P, N) }", TUPLE, "name"),
    "D field": ("#[derive(Display, Debug)] #[display(\"{q}\")] struct T@ { #[display(%s)] q: N }", NT, "value"),
    "D vfield": ("#[derive(Display, Debug)] enum T@ { #[display(\"{0}\")] V(#[display(%s)] N) }", NT, "value"),
    "F named": ("#[derive(FromStr, Default)] #[display(%s)] #[from_str(default)] struct T@ { a: P, b: N, x: U }", NAMED, "none"),
    "F tuple": ("#[derive(FromStr, Default)] #[display(%s)] #[from_str(default)] struct T@(P, N);", TUPLE, "none"),
    "F variant": ("#[derive(FromStr)] enum T@ { #[display(%s)] V { #[from_str(default)] a: P, #[from_str(default)] b: N, #[from_str(default)] x: U }, W }", NAMED, "name"),
    "F enum": ("#[derive(FromStr)] #[display(%s)] enum T@ { V(#[from_str(default)] P, #[from_str(default)] N) }", TUPLE, "name"),
    "F field": ("#[derive(FromStr, Default)] #[display(\"{q}\")] #[from_str(default)] struct T@ { #[display(%s)] q: N }", NT, "value"),
}
SPEC = re.compile(r"^(?:(?:.)?[<>^])?[+-]?#?0?(?:(?P<w>\d+)|(?P<wa>\w+\$))?(?:\.(?:(?P<p>\d+)|(?P<pa>\w+\$|\*)|(?P<pe>)))?(?P<t>\?|x\?|X\?|o|x|X|p|b|e|E|)(?P<ws>\s*)$", re.S)
SPECW = re.compile(r"^(?:(?:.)?[<>^])?[+-]?#?0?(?:\d+)?(?:\.\d+)?(?P<t>[A-Za-z0-9_]*\??)$", re.S)
IDENT = re.compile(r"^(?:[A-Za-z]\w*|_\w+)$", re.A)


def scan(s):
    """None if malformed, "any" if left open, otherwise the placeholders [(path, spec)]."""
    i, out, left_open = 0, [], False
    while i < len(s):
        if s.startswith("{{", i) or s.startswith("}}", i):
            i += 2
        elif s[i] == "}":
            return None
        elif s[i] != "{":
            i += 1
        else:
            j = i + 1
            while j < len(s) and s[j] not in "{}:":
                j += 1
            if j == len(s) or s[j] == "{":
                return None
            path = s[i + 1:j]
            spec = ""
            if s[j] == ":":
                # a `}` as the fill character is left open: std takes it, and `{a:}<b` may also mean an empty spec
                if re.match(r"\}[<>^]", s[j + 1:j + 3]):
                    left_open = True
                k = s.find("}", j + 1)
                if k < 0:
                    return None
                spec = s[j + 1:k]
                j = k
            out.append((path, spec))
            i = j + 1
    return "any" if left_open else out


def spec_kind(spec):
    """None if invalid, "any" if left open, otherwise the trait letter."""
    m = SPEC.match(spec)
    if not m:
        return None
    if m["wa"] or m["pa"] or m["pe"] is not None and "." in spec and m["p"] is None or m["ws"]:
        return "any"
    if (m["w"] and int(m["w"]) > 65535) or (m["p"] and int(m["p"]) > 65535):
        return "any"
    return "t" + m["t"]


def expect(s, ctx):
    _, tree, empty = CTX[ctx]
    ps = scan(s)
    if ps is None:
        return "err"
    if ps == "any":
        return "any"
    res = "ok"
    seen = []
    for path, spec in ps:
        k = spec_kind(spec)
        if k is None:
            return "err"
        if k == "any":
            res = "any"
            continue
        if path == "":
            if empty == "self":
                if k == "t":
                    return "err"
                if not k.endswith("?"):
                    res = "any"
            elif empty == "name":
                if k != "t" and (not k.endswith("?") or ctx[0] == "F"):
                    res = "any"
            elif empty == "none":
                if k == "t":
                    return "err"
                res = "any"
            else:
                seen.append(())
            continue
        if any(c.isspace() for c in path):
            return "err"
        t = tree
        key = []
        for n in path.split("."):
            if n.isdigit() and n.isascii():
                if n not in t:
                    if n.lstrip("0") in t or (n.strip("0") == "" and "0" in t):
                        res = "any"
                        t = t[n.lstrip("0") or "0"]
                        key.append(n.lstrip("0") or "0")
                        continue
                    return "err"
            else:
                r = n[2:] if n.startswith("r#") else n
                if not IDENT.match(r) or r not in t:
                    return "err"
                n = r
            t = t[n]
            key.append(n)
        seen.append(tuple(key))
    if ctx[0] == "F":
        for a, b in itertools.combinations(seen, 2):
            if a[:len(b)] == b or b[:len(a)] == a:
                res = "any"
    return res


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def lit(s):
    o = ""
    for c in s:
        o += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c)
    return '"' + o + '"'


def space():
    th = TIER == "thorough"
    out = {c: [] for c in CTX}
    seen = {c: set() for c in CTX}

    def add(c, s):
        if s not in seen[c]:
            seen[c].add(s)
            out[c].append(s)

    main, others = ["D named", "F named"], [c for c in CTX if c not in ("D named", "F named")]
    # raw strings
    for c in main:
        for s in words("{}:a.0<?", 4):
            add(c, s)
        for s in words("{}:a", 6 if th else 5):
            add(c, s)
    for c in others:
        for s in words("{}:a0", 4 if th else 3):
            add(c, s)
    # whole placeholders, then whatever
    for c in CTX:
        f = "a" if "a" in CTX[c][1] else "0"
        for s in words(["{", "}", "{{", "}}", "{%s}" % f, "{}", "{:?}", "t", ":", "{b.0}"], 3 if th or c in main else 2):
            add(c, s)
    # specs
    sa = ["<", "^", ">", "+", "-", "#", "0", "7", ".", "x", "?", "X", "e", "p", "{", "}", " ", "\u00e9", "\n", "*", "$", "a", "_", "%", "s"]
    for c in CTX:
        ph = [p for p in ("a", "0", "") if p in CTX[c][1] or (p == "" and CTX[c][2] != "none")]
        for s in words(sa, 3 if th else 2):
            for p in ph[:1] if c not in ("D named", "F named", "D variant") else ph:
                add(c, "{%s:%s}" % (p, s))
        if c in main:
            for s in words(["<", "+", "#", "0", "7", ".3", "x", "?", "o", "E"], 5 if th else 4):
                add(c, "{a:%s}" % s)
            for t in ["d", "i", "f", "s", "c", "u", "n", "foo", "x??", "xx", "?x", "bx", "b?", "o?", "p?", "e?", "E?", "Xx", "_", "1x", "x1"]:
                for pre in ["", "<", "5", ".2", "#", "+", "*>8.3"]:
                    add(c, "{a:%s%s}" % (pre, t))
            for w in ["65535", "65536", "99999999999", "99999999999999999999999999"]:
                add(c, "{a:%s}" % w)
                add(c, "{a:.%s}" % w)
                add(c, "{%s}" % w)
    # paths
    pa = ["a", "b", "x", "0", "1", ".", "_", "r#", "-", "+", "self", "#", "\u00e9", " ", "z", "Self", "r#self", "2", "'", "\"", "\\", "a b", "&", "()", "[0]"]
    for c in CTX:
        for s in words(pa, 3 if th else 2):
            add(c, "{%s}" % s)
        for s in words(["a", "b", "x", "0", "1", "."], 5 if th and c in main else 4 if c in main else 3):
            add(c, "{%s}" % s)
        for s in words(["a", "b", "x", "0", "1", "q"], 4 if th else 3 if c in main else 2):
            pass
        for s in ["b.b.0", "b.b.1", "b.b.2", "b.b.0.0", "b.a.a", "1.b.0", "1.b.1", "1.b.2", "x.0", "x.1", "x.2", "b..a", ".b.a", "b.a.", "b.b.", "..", ".", "1.b..0", "q.a", "q.b.0", "b.r#a", "r#b.r#a", "0.0", "b.0", "1.0"]:
            add(c, "{%s}" % s)
            add(c, "{%s:?}" % s)
    return out


def check(run):
    a = engine()
    progs = []
    for c, ss in space().items():
        for s in ss:
            if "\r" in s:
                continue
            progs.append({"src": CTX[c][0] % lit(s), "expect": expect(s, c), "what": "%s: %r" % (c, s)})
    for e in ("ok", "err", "any"):
        run.add("expected_" + e, sum(p["expect"] == e for p in progs))
    v = accept.decide(progs, PRELUDE, externs(a, ("parse_display",)), run.work)
    accept.judge(run, progs, v, "a format string")
    for e in ("ok", "err"):
        for p in [p for p in progs if p["expect"] == e][7::4001]:
            run.sample({"expect": e, "program": p["src"]})
    run.extra["contexts"] = sorted(CTX)
