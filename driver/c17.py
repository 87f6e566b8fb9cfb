"""C17: the derives compile and behave the same in every surrounding: shadowed names, no prelude, renamed items, macros, other crate paths.

Every item of a menu (one per feature of the derives) is put into every surrounding of a menu. In each surrounding the
type is displayed for its values and parsed from every sequence of its tokens; all results must be those of the plain
surrounding.
"""
import os
import re
import subprocess

from common import TIER, CheckError, engine, err_lines, externs, pmap, rustc

# Markers of the item texts: @S the type, @T a type parameter, @a @b fields, @V @W variants (inside strings: without r#),
# @8 u8, @O Option, @G String, @P the parse-display crate, @C the place of a crate attribute,
# [[type]], <<"literal">> and ((expr)) are fragments a macro can take as an argument.
D = "#[derive(@P::Display)] @C "
F = "#[derive(@P::FromStr)] @C "
B = "#[derive(@P::Display, @P::FromStr)] @C "
FMT = "::std::fmt::format(::core::format_args!(%s))"


class Item:
    def __init__(self, name, text, vals=(), out=None, toks=(), n=4, ty="@S", kinds="dfr", pre="", names="S"):
        self.name, self.text, self.vals, self.out, self.toks, self.n, self.ty, self.kinds, self.pre, self.names = name, text, vals, out, toks, n, ty, kinds, pre, names


def out(*fs):
    return FMT % ('"{:?}", (%s)' % " ".join("&v.%s," % f for f in fs))


WITH = '''pub struct W1;
impl<T: ::core::fmt::Display> @P::DisplayFormat<T> for W1 { fn write(&self, __f: &mut ::core::fmt::Formatter, __v: &T) -> ::core::fmt::Result { ::core::write!(__f, "w{}", __v) } }
impl<T: ::core::str::FromStr> @P::FromStrFormat<T> for W1 { type Err = T::Err; fn parse(&self, __s: &::core::primitive::str) -> ::core::result::Result<T, T::Err> { ::core::primitive::str::parse(&__s[1..]) } fn regex_pattern(&self) -> ::std::string::String { ::std::borrow::ToOwned::to_owned("w[0-9]*") } }
'''

ITEMS = [
    Item("named", B + '#[display(<<"{@a}-{@b}">>)] pub struct @S { pub @a: [[@8]], pub @b: [[@8]] }', ["@S { @a: 1, @b: 2 }"], out("@a", "@b"), ["1", "-", "x"], names="Sab"),
    Item("specs", D + '#[display(<<"{@a:>4}|{@b:?}|{@a:#x}|{@b:p}">>)] pub struct @S { pub @a: [[@8]], pub @b: [[&\'static @8]] }', ["@S { @a: 1, @b: &2 }"], kinds="d", names="Sab"),
    Item("tuple", B + '#[display(<<"{0}-{1}">>)] pub struct @S(pub [[@8]], pub [[@8]]);', ["@S(1, 2)"], out("0", "1"), ["1", "-", "x"]),
    Item("newtype", B + "pub struct @S(pub [[@8]]);", ["@S(1)"], out("0"), ["1", "-"]),
    Item("newtype2", B + "pub struct @S { pub @a: [[@8]] }", ["@S { @a: 1 }"], out("@a"), ["1", "-"], names="Sa"),
    Item("unit", B + '#[display(<<"a.b">>)] pub struct @S;', ["@S"], '::std::string::String::new()', ["a", ".", "b"]),
    Item("units", B + '#[display(style = "SNAKE_CASE")] pub enum @S { @V, @W }', ["@S::@V", "@S::@W"], FMT % '"{}", match v { @S::@V => 1, @S::@W => 2 }', ["^V", "^W"], 2, names="SVW"),
    Item("units0", B + 'pub enum @S { @V = 3, @W = 1 }', ["@S::@V", "@S::@W"], FMT % '"{}", match v { @S::@V => 1, @S::@W => 2 }', ["=V", "=W", "x"], 2, names="SVW"),
    Item("mixed", B + 'pub enum @S { #[display(<<"{}:{@a}">>)] @V { @a: [[@8]], #[from_str(default)] @b: [[@8]] }, @W, #[display("z{0}{1}")] Z([[@8]], [[char]]), #[display("lit")] #[from_str(ignore)] Y }',
         ["@S::@V { @a: 1, @b: 2 }", "@S::@W", "@S::Z(1, 'q')", "@S::Y"], FMT % '"{:?}", match v { @S::@V { @a: __1, @b: __2 } => (1, *__1, *__2), @S::@W => (2, 0, 0), @S::Z(__1, __2) => (3, *__1, *__2 as @8), @S::Y => (4, 0, 0) }',
         ["=V", "=W", ":", "1", "z", "lit"], 3, names="SVWab"),
    Item("enumfmt", B + '#[display(<<"<{}>">>, style = "kebab-case")] pub enum @S { @V, @W, #[display("q{0}")] Z([[@8]]) }', ["@S::@V", "@S::@W", "@S::Z(1)"],
         FMT % '"{}", match v { @S::@V => 1, @S::@W => 2, @S::Z(__1) => *__1 }', ["<", ">", "-V", "q", "1"], 3, names="SVW"),
    Item("selfspec", D + '#[derive(::core::fmt::Debug)] #[display(<<"{:?}">>)] pub enum @S { Aa, Bb([[@8]]) }', ["@S::Aa", "@S::Bb(3)"], kinds="d", names=""),
    Item("fieldfmt", B + '#[display(<<"{@a}{@b}">>)] pub struct @S { #[display(<<"<{}>">>)] pub @a: [[@8]], #[display(<<"({:>2}|{len})">>)] pub @b: [[Sub]] }'.replace("|{len}", ""),
         ["@S { @a: 1, @b: Sub(2) }"], FMT % '"{} {}", v.@a, v.@b.0', ["<", ">", "(", ")", "1"], 6, names="Sab", pre="#[derive(@P::Display, @P::FromStr)] @C pub struct Sub(pub @8);"),
    Item("nested", B + '#[display(<<"{@a.0}-{@b.x}">>)] pub struct @S { #[from_str(default)] pub @a: [[(@8, @8)]], #[from_str(default)] pub @b: [[Sub]] }',
         ["@S { @a: (1, 2), @b: Sub { x: 3, y: 4 } }"], FMT % '"{:?} {} {}", v.@a, v.@b.x, v.@b.y', ["1", "-"], names="Sab", pre="#[derive(::core::default::Default)] pub struct Sub { pub x: @8, pub y: @8 }"),
    Item("subfield", B + '#[display(<<"{@a}">>)] pub struct @S { #[display(<<"{x}+{y}">>)] #[from_str(default)] pub @a: [[Sub]] }',
         ["@S { @a: Sub { x: 3, y: 4 } }"], FMT % '"{} {}", v.@a.x, v.@a.y', ["1", "+"], names="Sa", pre="#[derive(::core::default::Default)] pub struct Sub { pub x: @8, pub y: @8 }"),
    Item("opt", B + '#[display(<<"{@a}.{@b}">>)] pub struct @S { #[display(<<"<{}>">>, opt)] pub @a: [[@O<@8>]], #[display(opt)] pub @b: [[@O<@8>]] }',
         ["@S { @a: @O::None, @b: @O::Some(2) }", "@S { @a: @O::Some(1), @b: @O::None }"], out("@a", "@b"), ["<", ">", ".", "1"], 5, names="Sab"),
    Item("optenum", B + 'pub enum @S { #[display(<<"{0:>3}x">>)] A(#[display(opt)] [[@O<@8>]]), #[display(<<"{@a}y">>)] B { #[display(<<"<{:?}>">>, opt)] @a: [[@O<@8>]] } }',
         ["@S::A(@O::Some(1))", "@S::A(@O::None)", "@S::B { @a: @O::Some(1) }"], FMT % '"{:?}", match v { @S::A(__1) => (1, *__1), @S::B { @a: __1 } => (2, *__1) }', ["1", "x", "y", "<", ">"], 4, names="Sa"),
    Item("with", B + '#[display(<<"{@a}-{@b}">>)] pub struct @S { #[display(with = ((W1)))] pub @a: [[@8]], #[from_str(with = ((W1)))] pub @b: [[@8]] }',
         ["@S { @a: 1, @b: 2 }"], out("@a", "@b"), ["w", "1", "-"], 5, names="Sab", pre=WITH),
    Item("withenum", B + 'pub enum @S { #[display(<<"{0}{1}">>)] A(#[display(with = ((W1)))] [[@8]], #[display(<<"<{}>">>, opt, with = ((W1)))] [[@O<@8>]]) }',
         ["@S::A(1, @O::Some(2))", "@S::A(1, @O::None)"], FMT % '"{:?}", match v { @S::A(__1, __2) => (__1, __2) }', ["w", "1", "<", ">"], 6, pre=WITH, names="S"),
    Item("infer", B + '#[display(<<"{@a}{@b}">>)] #[from_str(regex_infer)] pub struct @S { pub @a: [[@8]], pub @b: [[@G]] }', ["@S { @a: 1, @b: ::std::borrow::ToOwned::to_owned(\"x\") }"], out("@a", "@b"), ["1", "x"], names="Sab"),
    Item("infer2", B + 'pub enum @S { #[from_str(regex_infer)] #[display(<<"{0}{1}">>)] A([[@8]], [[@G]]), #[display("q{0}")] B(#[from_str(regex_infer)] [[@8]]) }', ["@S::A(1, ::std::borrow::ToOwned::to_owned(\"x\"))", "@S::B(1)"],
         FMT % '"{:?}", match v { @S::A(__1, __2) => (*__1, ::core::clone::Clone::clone(__2)), @S::B(__1) => (*__1, @G::new()) }', ["1", "x", "q"], names="S"),
    Item("regex", F + '#[from_str(regex = <<r"(?<@a>[0-9]+)(?<@b>\\w*)">>)] pub struct @S { pub @a: [[@8]], pub @b: [[@G]] }', (), out("@a", "@b"), ["1", "x", "-"], kinds="fr", names="Sab"),
    Item("regex2", B + '#[display(<<"{@a}|{@b}">>)] pub struct @S { #[from_str(regex = <<"[0-9]">>)] pub @a: [[@8]], #[display(<<"<{}>">>)] #[from_str(regex = <<"[0-9]+">>)] pub @b: [[@8]] }',
         ["@S { @a: 1, @b: 12 }"], out("@a", "@b"), ["1", "|", "<", ">"], 5, names="Sab"),
    Item("regex3", F + '#[from_str(regex = <<"(?<>)-(?<0>.)">>)] pub enum @S { @V([[char]]), @W([[@8]]), #[from_str(regex = <<"q(?<0>.)">>)] Z([[char]]) }', (),
         FMT % '"{:?}", match v { @S::@V(__1) => (1, *__1), @S::@W(__1) => (2, *__1 as [[char]]), @S::Z(__1) => (3, *__1) }', ["=V", "=W", "-", "1", "q"], 3, kinds="fr", names="SVW"),
    Item("default", F + '#[display(<<"{@a}">>)] #[from_str(default)] pub struct @S { pub @a: [[@8]], pub @b: [[@8]] } impl ::core::default::Default for @S { fn default() -> Self { @S { @a: 7, @b: 8 } } }', (), out("@a", "@b"), ["1", "-"], kinds="fr", names="Sab"),
    Item("default2", F + '#[display(<<"{@a}">>)] pub struct @S { pub @a: [[@8]], #[from_str(default)] pub @b: [[@O<@G>]] }', (), out("@a", "@b"), ["1", "-"], kinds="fr", names="Sab"),
    Item("new", B + '#[display(<<"{@a}-{@b}">>)] #[from_str(new = mk(@b, @a))] pub struct @S { pub @a: [[@8]], pub @b: [[@8]] } fn mk(__b: @8, __a: @8) -> @S { @S { @a: __a + 1, @b: __b + 2 } }', ["@S { @a: 1, @b: 2 }"], out("@a", "@b"), ["1", "-"], names="Sab"),
    Item("new2", B + '#[display(<<"{0}">>)] #[from_str(new = Self::mk(_0))] pub struct @S([[@8]]); impl @S { fn mk(__a: @8) -> @O<Self> { if __a == 1 { @O::None } else { @O::Some(@S(__a)) } } }', ["@S(1)"], out("0"), ["1", "2", "-"]),
    Item("new3", B + 'pub enum @S { #[display(<<"{@a}{@b}">>)] #[from_str(new = Self::mk(@a, @b))] A { @a: [[@8]], @b: [[char]] }, #[display(<<"{0}">>)] #[from_str(new = Self::B(_0))] B([[@G]]) } impl @S { fn mk(__a: @8, __b: [[char]]) -> ::core::result::Result<Self, @8> { if __a == 1 { ::core::result::Result::Err(0) } else { ::core::result::Result::Ok(@S::A { @a: __a, @b: __b }) } } }',
         ["@S::A { @a: 2, @b: 'x' }"], FMT % '"{:?}", match v { @S::A { @a: __1, @b: __2 } => (*__1, *__2, @G::new()), @S::B(__1) => (0, \'0\', ::core::clone::Clone::clone(__1)) }', ["1", "2", "x"], names="Sab"),
    Item("newwith", F + '#[display(<<"{@a}{@b}">>)] #[from_str(new = mk(@b))] pub struct @S { #[from_str(with = W1)] pub @a: [[@8]], #[from_str(with = W1)] pub @b: [[@8]] } fn mk(__b: @8) -> @S { @S { @a: 0, @b: __b } }'.replace("mk(@b)", "mk(@a, @b)").replace("fn mk(__b: @8) -> @S { @S { @a: 0", "fn mk(__a: @8, __b: @8) -> @S { @S { @a: __a"), (), out("@a", "@b"), ["w", "1"], 5, kinds="fr", names="Sab", pre=WITH),
    Item("generic", B + '#[display(<<"{@a}-{@b}">>)] pub struct @S<@T> { pub @a: [[@T]], pub @b: [[@8]] }', ["@S { @a: 1u8, @b: 2 }"], out("@a", "@b"), ["1", "-"], ty="@S<@8>", names="SabT"),
    Item("generic2", B + '#[display(bound(..))] pub enum @S<@T: ::core::clone::Clone, const N: usize> where @T: ::core::fmt::Debug { #[display(<<"{0}">>)] A(@T), #[display(<<"x{@a:?}">>, bound(@T : ::core::fmt::Debug, ..))] #[from_str(ignore)] B { @a: [[[@T; N]]] } }'.replace("usize", "::core::primitive::usize"),
         ["@S::A(1u8)", "@S::B { @a: [1u8, 2] }"], FMT % '"{:?}", match v { @S::A(__1) => ::core::option::Option::Some(__1), @S::B { .. } => ::core::option::Option::None }', ["1", "x"], ty="@S<@8, 2>", names="SaT"),
    Item("generic3", B + '#[display(<<"{@a}{@b}">>)] pub struct @S<@T> { #[from_str(regex_infer)] pub @a: [[@T]], #[display(<<"<{}>">>, opt)] pub @b: [[@O<@T>]] }', ["@S { @a: 1u8, @b: @O::Some(2u8) }"], out("@a", "@b"), ["1", "<", ">"], 5, ty="@S<@8>", names="SabT"),
    Item("lifetime", D + "#[display(<<\"{@a}-{@b:?}\">>)] pub struct @S<'a, 'f: 'a, @T: ?::core::marker::Sized> { pub @a: [[&'a @T]], pub @b: [[&'f @8]] }", ["@S { @a: \"q\", @b: &2 }"], ty="@S<'static, 'static, ::core::primitive::str>", kinds="d", names="SabT"),
    Item("empty", B + "pub enum @S { }", (), "match *v { }", ["", "a"], 2, names="S", kinds="dfr"),
    Item("recursive", B + 'pub enum @S { #[display(<<"({0})">>)] A(Bx), @V }', ["@S::A(Bx(::std::boxed::Box::new(@S::@V)))"], 'dep(v)', ["(", ")", "=V"], 5, names="SV", kinds="df",
         pre="""pub fn dep(__v: &@S) -> ::std::string::String { match __v { @S::A(__b) => { let mut __r = dep(&__b.0); ::std::string::String::push(&mut __r, '+'); __r } @S::@V => ::std::string::String::new() } }
pub struct Bx(::std::boxed::Box<@S>); impl ::core::fmt::Display for Bx { fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&*self.0, __f) } }
impl ::core::str::FromStr for Bx { type Err = @P::ParseError; fn from_str(__s: &::core::primitive::str) -> ::core::result::Result<Bx, @P::ParseError> { match ::core::str::FromStr::from_str(__s) { ::core::result::Result::Ok(__v) => ::core::result::Result::Ok(Bx(::std::boxed::Box::new(__v))), ::core::result::Result::Err(__e) => ::core::result::Result::Err(__e) } } }"""),
    Item("docs", '/** doc */ ' + B + '/// more\n#[display(<<"{@a}">>)] #[allow(dead_code)] #[repr(C)] pub struct @S { /// doc\n #[cfg(all())] pub(crate) @a: [[@8]], #[cfg(any())] pub @b: Missing }', ["@S { @a: 1 }"], out("@a"), ["1", "-"], names="Sab"),
    Item("rawstr", B + '#[display(<<r##"{@a}"#\n\\{{"##>>)] pub struct @S { pub @a: [[@8]] }', ["@S { @a: 1 }"], out("@a"), ["1", '\\"#\\n\\\\{', "{{"], names="Sa"),
    Item("manyattr", B + '#[display(<<"{@a}">>)] #[display(bound())] #[from_str(bound(@8))] #[display(style = "none")] pub struct @S { #[display(<<"x{}">>)] #[from_str(regex = <<"[1]">>)] #[from_str(with = W1)] pub @a: [[@8]] }'.replace(' #[display(style = "none")]', "").replace("#[from_str(with = W1)] ", ""),
         ["@S { @a: 1 }"], out("@a"), ["1", "x"], names="Sa", pre=WITH),
    Item("selfdef", B + '#[display(<<"{@a}">>)] pub struct @S { #[from_str(with = ((W1)), regex = "w1")] #[display(with = ((W1)))] pub @a: [[@8]] } impl @S { pub fn from_str(&self) {} pub fn fmt(&self) {} pub fn from_str_regex(&self) {} pub fn to_string(&self) {} pub fn default() {} }',
         ["@S { @a: 1 }"], out("@a"), ["1", "w"], names="Sa", pre=WITH),
]

TYPES = ["Option", "Result", "Some", "None", "Ok", "Err", "String", "Vec", "Box", "str", "bool", "usize", "u8", "char", "Regex", "Parser", "ParseError", "Formatter", "OnceLock",
         "s", "p", "c", "f", "m", "e", "value", "parse_variant", "field_value", "formatter", "re", "out_", "W"]
TRAITS = ["ToString", "ToOwned", "Default", "From", "Into", "FromStr", "Display", "Debug", "Iterator", "Clone", "Copy", "Drop", "AsRef", "Fn", "FnMut", "FnOnce", "Send", "Sync", "Sized", "Unpin", "IntoIterator", "TryFrom",
          "DisplayFormat", "FromStrFormat", "FromStrRegex", "IntoResult", "Write"]
MODS = ["core", "std", "alloc", "parse_display", "regex", "fmt", "helpers", "option", "result", "string", "sync", "primitive", "str", "s", "f", "value"]
MACROS = ["write", "format", "format_args", "panic", "assert", "assert_eq", "debug_assert", "debug_assert_eq", "matches", "vec", "concat", "stringify", "unreachable", "todo", "println", "compile_error", "try"]
VALS = ["s", "p", "c", "f", "m", "e", "value", "parse_variant", "field_value", "formatter", "_formatter", "PARSER", "re", "ss", "re_str", "fmt", "from_str", "value_1", "empty", "is_new"]
NAMES = ["s", "p", "c", "f", "m", "e", "value", "parse_variant", "field_value", "formatter", "_formatter", "PARSER", "__s", "__c", "__f", "__value", "__p", "_value_a", "_value_s", "_0", "re", "r#type", "r#fn", "r#match", "r#struct", "r#s",
         "core", "std", "Some", "None", "Ok", "u8", "str", "String", "empty", "value_1", "self_", "crate_", "default", "new", "parse", "fmt", "from_str", "write", "ignore", "r#dyn", "ä", "Σx"]
TNAMES = ["Option", "Result", "String", "Some", "None", "Ok", "Err", "str", "u8", "Parser", "ParseError", "Regex", "FromStr", "Display", "Default", "core", "std", "parse_display", "s", "p", "c", "f", "m", "e", "value", "PARSER", "formatter",
          "parse_variant", "field_value", "r#type", "r#fn", "r#match", "T", "Formatted", "FromStrRegex", "OptionFormatHelper", "Ä"]
VNAMES = ["Ok", "Err", "Some", "None", "String", "Option", "s", "p", "c", "f", "value", "PARSER", "r#type", "r#fn", "core", "std", "Default", "Ä", "FromStr", "parse_variant", "_X", "A1b"]
PNAMES = ["T", "s", "Option", "String", "Result", "F", "E", "Err", "core", "r#type", "Display", "Ok", "str", "u8", "__s"]

BASE = {"S": "S", "T": "T", "a": "a", "b": "bb", "V": "Vx", "W": "WyZ"}


def words(s):
    """The words of an identifier (C04's rule)."""
    out = []
    prev = None
    for ch in s:
        if not ch.isalnum():
            out.append("")
        elif "A" <= ch <= "Z" and not (prev is not None and "A" <= prev <= "Z") and out:
            out.append(ch)
        elif not out:
            out.append(ch)
        else:
            out[-1] += ch
        prev = ch
    return [w for w in out if w]


def asc(w, up):
    return "".join((c.upper() if up else c.lower()) if c.isascii() else c for c in w)


def raw(n):
    return n[2:] if n.startswith("r#") else n


def subst(text, nm, P, C, frag=None):
    """Replaces the markers; inside string literals identifiers lose their r#. frag: fragments to take out ('a' ident, 't', 'l', 'e')."""
    frag = frag or {}
    args = []

    def take(kind, val):
        args.append((kind, val))
        return "$x%d" % (len(args) - 1)

    def plain(t):
        t = t.replace("@8", "::core::primitive::u8").replace("@O", "::core::option::Option").replace("@G", "::std::string::String").replace("@P", P).replace("@C", C)
        t = re.sub(r"(?<![:\w])char\b", "::core::primitive::char", t)
        return re.sub(r"@([SabVWT])", lambda m: nm[m.group(1)], t)

    # fragments
    def piece(m):
        if m.group(1) is not None:
            v = re.sub(r"@([SabVWT])", lambda k: raw(nm[k.group(1)]), m.group(1))
            return take("literal", v) if "l" in frag else v
        if m.group(2) is not None:
            v = plain(m.group(2))
            return take("ty", v) if "t" in frag else v
        if m.group(3) is not None:
            return take("expr", plain(m.group(3))) if "e" in frag and "(" not in m.group(3) else plain(m.group(3))
        k = m.group(4)
        return take("ident", nm[k]) if "a" in frag else nm[k]

    t = re.sub(r"<<(r?#*\".*?\"#*)>>|\[\[(.*?)\]\](?!\])|\(\(([^()]*(?:\([^()]*\))?)\)\)|@([SabVWT])", piece, text, flags=re.S)
    return plain(t), args


def env_list():
    """(name, dict): decl = text put before the item; inner = attribute of the module; names = renaming; shape; P, C."""
    E = [("plain", {})]
    for n in TYPES:
        E.append(("type %s" % n, {"decl": "pub struct %s;" % n}))
    for n in TRAITS:
        E.append(("trait %s" % n, {"decl": "pub trait %s {}" % n}))
    for n in MODS:
        E.append(("mod %s" % n, {"decl": "pub mod %s {}" % n}))
    for n in MACROS:
        if n == "try":
            n = "r#try"
        E.append(("macro %s" % n, {"decl": "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"wrong macro\"); } }" % n}))
    for n in VALS:
        E.append(("const %s" % n, {"decl": "pub const %s: ::core::primitive::u8 = 1;" % n}))
        E.append(("static %s" % n, {"decl": "pub static %s: ::core::primitive::u8 = 1;" % n}))
        E.append(("fn %s" % n, {"decl": "pub fn %s() {}" % n}))
    for n in ["Ok", "Err", "Some", "None", "String", "Default"]:
        E.append(("const %s" % n, {"decl": "pub const %s: ::core::primitive::u8 = 1;" % n}))
        E.append(("fn %s" % n, {"decl": "pub fn %s(__x: ::core::primitive::u8) {}" % n}))
    meth = ["parse", "get", "map", "map_err", "map_or", "as_str", "captures", "get_or_init", "transpose", "write_str", "into_result", "fmt", "to_string", "select", "default", "from_str", "regex_pattern", "write", "write_fmt", "into", "clone"]
    E.append(("methods", {"decl": "pub trait Ext { %s } impl<Z: ?::core::marker::Sized> Ext for Z {}" % " ".join("fn %s(&self) {}" % m for m in meth)}))
    allsh = " ".join(["pub struct %s;" % n for n in TYPES if n not in ("s", "p", "c", "f", "m", "e", "value", "parse_variant", "field_value", "formatter", "re", "str")] + ["pub trait %s {}" % n for n in TRAITS if n not in ("Display", "FromStr")]
                     + ["pub mod %s {}" % n for n in MODS if n not in ("s", "f", "value")]
                     + ["macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"wrong macro\"); } }" % n for n in MACROS if n != "try"] + ["pub static %s: ::core::primitive::u8 = 1;" % n for n in VALS if n not in ("re",)])
    E.append(("everything shadowed", {"decl": allsh}))
    E.append(("no prelude", {"attr": "#[no_implicit_prelude] "}))
    E.append(("no prelude, everything shadowed", {"attr": "#[no_implicit_prelude] ", "decl": allsh}))
    E.append(("crate alias", {"decl": "use ::parse_display as other; use ::parse_display::{Display as D2, FromStr as F2};", "derive": ("D2", "F2")}))
    E.append(("in a function", {"shape": "fn"}))
    E.append(("in a closure", {"shape": "closure"}))
    E.append(("in a const", {"shape": "const"}))
    E.append(("in a generic function", {"shape": "gfn"}))
    for fr in ("", "a", "t", "l", "e", "at", "al", "tl", "atle"):
        E.append(("macro by example %s" % (fr or "-"), {"shape": "macro", "frag": fr}))
    E.append(("macro taking the item", {"shape": "item"}))
    E.append(("macro taking tokens", {"shape": "tt"}))
    E.append(("macro in a macro", {"shape": "nest"}))
    for n in NAMES:
        E.append(("field a %s" % n, {"names": {"a": n}, "need": "a"}))
        E.append(("field b %s" % n, {"names": {"b": n}, "need": "b"}))
    for x, y in ([("s", "c"), ("value", "p"), ("c", "m"), ("e", "value"), ("_value_a", "a"), ("r#type", "type_"), ("__s", "__c"), ("b", "a")] if TIER == "quick" else [(x, y) for x in NAMES for y in NAMES if raw(x) != raw(y)]):
        E.append(("fields %s, %s" % (x, y), {"names": {"a": x, "b": y}, "need": "b"}))
    for n in TNAMES:
        E.append(("type called %s" % n, {"names": {"S": n}, "need": "S"}))
    for n in VNAMES:
        E.append(("variant V %s" % n, {"names": {"V": n}, "need": "V"}))
        E.append(("variant W %s" % n, {"names": {"W": n}, "need": "W"}))
    for x, y in (("Ok", "Err"), ("Some", "None"), ("s", "value"), ("Err", "Ok")):
        E.append(("variants %s, %s" % (x, y), {"names": {"V": x, "W": y}, "need": "W"}))
    for n in PNAMES:
        E.append(("type parameter %s" % n, {"names": {"T": n}, "need": "T"}))
    # the crate under another name, not reachable as ::parse_display
    E.append(("crate path ::pdr", {"crate": "::pdr", "P": "::pdr"}))
    E.append(("crate path ::pdr, everything shadowed", {"crate": "::pdr", "P": "::pdr", "decl": allsh}))
    E.append(("crate path ::pdr, macro", {"crate": "::pdr", "P": "::pdr", "shape": "macro", "frag": "atl"}))
    E.append(("crate path in a module", {"crate": "crate::re::pd", "P": "crate::re::pd"}))
    E.append(("crate path, no prelude", {"crate": "crate::re::pd", "P": "crate::re::pd", "attr": "#[no_implicit_prelude] "}))
    E.append(("crate path self", {"crate": "self::inner", "P": "self::inner", "decl": "pub use crate::re::pd as inner;"}))
    # the crate that uses the derives is of another edition
    for ed in ("2015", "2018", "2021"):
        for n, d in [("", {}), (", everything shadowed", {"decl": allsh}), (", no prelude", {"attr": "#[no_implicit_prelude] "}), (", in a function", {"shape": "fn"}), (", macro", {"shape": "macro", "frag": "atl"}),
                     (", crate path", {"crate": "::pdr", "P": "::pdr"}), (", crate path in a module", {"crate": "crate::re::pd", "P": "crate::re::pd"})]:
            E.append(("edition %s%s" % (ed, n), dict(d, ed=ed)))
    return E


HELP = r'''
#![allow(warnings)]
pub mod h {
    use std::{fmt::{Display, Debug}, str::FromStr};
    pub fn disp<T: Display>(id: &str, k: usize, v: &T) { println!("{id}\td{k}\t{:?}", format!("{v}|{v:>9}|{v:.1}")); }
    pub fn parse<T: FromStr<Err = E>, E: Display>(id: &str, toks: &[&str], n: usize, out: fn(&T) -> String) {
        let mut idx: Vec<usize> = vec![];
        let mut r = String::new();
        loop {
            let s: String = idx.iter().map(|i| toks[*i]).collect();
            match std::panic::catch_unwind(|| s.parse::<T>().map(|v| out(&v)).map_err(|e| e.to_string())) {
                Ok(Ok(o)) => r.push_str(&format!("{:?}={o};", idx)),
                Ok(Err(e)) if e != "parse failed." => r.push_str(&format!("{:?}!{e};", idx)),
                Ok(Err(_)) => {}
                Err(_) => r.push_str(&format!("{:?}PANIC;", idx)),
            }
            COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let mut k = idx.len();
            loop {
                if k == 0 { let l = idx.len() + 1; if l > n || toks.is_empty() { println!("{id}\tf\t{r:?}"); return; } idx = vec![0; l]; break; }
                k -= 1;
                if idx[k] + 1 < toks.len() { idx[k] += 1; for j in k + 1..idx.len() { idx[j] = 0; } break; }
            }
        }
    }
    pub fn rx(id: &str, s: String) { println!("{id}\tr\t{s:?}"); }
    pub static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
}
'''


def program(item, eid, env, i):
    """The module for one (item, environment), or None."""
    if env.get("need") and env["need"] not in item.names:
        return None
    nm = dict(BASE)
    nm.update(env.get("names", {}))
    if len({raw(nm["a"]), raw(nm["b"])}) < 2 and "b" in item.names:
        return None
    if len({raw(nm["V"]), raw(nm["W"])}) < 2:
        return None
    if item.name == "regex3" and min(len(raw(nm["V"])), len(raw(nm["W"]))) < 2:
        return None
    if "new" in item.name and {nm["a"], nm["b"]} & {"Some", "None", "Ok", "Err"}:
        # a variable of that name cannot exist
        return None
    if "V" in item.names and {nm["V"], nm["W"]} & {"A", "B", "Y", "Z"}:
        return None
    if nm["S"] in (nm["T"],) and "T" in item.names:
        return None
    P = env.get("P", "::parse_display")
    C = "#[display(crate = %s)]" % env["crate"] if env.get("crate") else ""
    text = item.text
    if env.get("derive"):
        text = text.replace("@P::Display", env["derive"][0]).replace("@P::FromStr,", env["derive"][1] + ",").replace("@P::FromStr)", env["derive"][1] + ")")
    st, args = subst(text, nm, P, C, env.get("frag") if env.get("shape") == "macro" else None)
    pre, _ = subst(item.pre, nm, P, C)
    idt = "%d" % i

    def sub(x):
        return subst(x, nm, P, C)[0]

    calls = []
    ty = sub(item.ty)
    if "d" in item.kinds:
        for k, v in enumerate(item.vals):
            calls.append('crate::h::disp::<%s>("%s", %d, &%s);' % (ty, idt, k, sub(v)))
    if "f" in item.kinds:
        toks = []
        for t in item.toks:
            if t[:1] in "=^-" and t[1:] in ("V", "W"):
                w = raw(nm[t[1:]])
                if t[0] == "^":
                    w = "_".join(asc(x, True) for x in words(w))
                elif t[0] == "-":
                    w = "-".join(asc(x, False) for x in words(w))
                t = w
            toks.append('"%s"' % t)
        toks = "&[%s]" % ", ".join(toks)
        calls.append('crate::h::parse::<%s, _>("%s", %s, %d, |v| %s);' % (ty, idt, toks, item.n if TIER == "quick" else min(6, item.n + 1), sub(item.out)))
    if "r" in item.kinds:
        calls.append('crate::h::rx("%s", <%s as %s::FromStrRegex>::from_str_regex());' % (idt, ty, P))
    calls = " ".join(calls)
    decl = env.get("decl", "")
    shape = env.get("shape")
    head = "%spub mod e%d { %s %s " % (env.get("attr", ""), i, decl, "" if shape in ("fn", "closure", "gfn", "nest") else pre)
    if shape in ("fn", "closure", "gfn"):
        body = {"fn": "pub fn run() { %s }", "closure": "pub fn run() { let __z = || { %s }; __z() }", "gfn": "pub fn run() { fn g<Q: ::core::fmt::Debug>(__q: Q) { %s } g(1) }"}[shape] % " ".join([pre, st, calls])
    elif shape == "const":
        body = "%s pub fn run() { const _: () = { %s }; %s }" % (st, st, calls)
    elif shape == "macro":
        if env.get("frag") and not any(True for _ in args):
            return None
        pat = " ".join("$x%d:%s;" % (k, a[0]) for k, a in enumerate(args))
        body = "macro_rules! mk { (%s) => { %s } } mk! { %s } pub fn run() { %s }" % (pat, st, " ".join(a[1] + ";" for a in args), calls)
    elif shape == "item":
        m = re.match(r"(.*?[};]) (impl|fn) (.*)$", st, re.S)
        if m:
            return None
        body = "macro_rules! mk { ($i:item) => { $i } } mk! { %s } pub fn run() { %s }" % (st, calls)
    elif shape == "tt":
        body = "macro_rules! mk { ($($i:tt)*) => { $($i)* } } mk! { %s } pub fn run() { %s }" % (st, calls)
    elif shape == "nest":
        body = "macro_rules! mk { () => { macro_rules! mk2 { () => { %s %s } } mk2!(); pub fn run() { %s } } } mk!();" % (pre, st, calls)
    else:
        body = "%s pub fn run() { %s }" % (st, calls)
    return head + body + " }"


def check(run):
    a = engine()
    envs = env_list()
    progs = []
    for it in ITEMS:
        for eid, env in envs:
            t = program(it, eid, env, len(progs))
            if t is not None:
                progs.append((it, eid, env, t))
    groups = {}
    for i, p in enumerate(progs):
        groups.setdefault(("crate" if p[2].get("crate") else "std", p[2].get("ed", "2024")), []).append(i)
    jobs = []
    for g, ids in sorted(groups.items()):
        n = max(1, min(24, len(ids) // 60))
        jobs += [(g, k, ids[k::n]) for k in range(n)]
    pd = a["parse_display"]

    def job(j):
        g, k, mine = j
        bad = {}
        g, ed = g
        src = "%s/c17_%s_%s_%d.rs" % (run.work, g, ed, k)
        for _ in range(60):
            L = HELP.split("\n")
            if ed == "2015":
                L.append("extern crate core; pub extern crate %s;" % ("pdr" if g == "crate" else "parse_display"))
            if g == "crate":
                L.append("pub mod re { pub use ::pdr as pd; }")
            owner = {}
            for i in mine:
                if i in bad:
                    continue
                for l in progs[i][3].split("\n"):
                    L.append(l)
                    owner[len(L)] = i
            L.append("fn main() { std::panic::set_hook(Box::new(|_| {})); %s println!(\"COUNT\\t{}\\t\", h::COUNT.load(std::sync::atomic::Ordering::Relaxed)); }" % " ".join("e%d::run();" % i for i in mine if i not in bad))
            open(src, "w").write("\n".join(L))
            ext = ["-L", "dependency=" + a["deps"], "--extern", "%s=%s" % ("pdr" if g == "crate" else "parse_display", pd)]
            ok, errs, crashed = rustc(src, src + ".exe", ext + ["-C", "opt-level=0"], edition=ed)
            if ok:
                break
            hit = {}
            lost = []
            for m in errs:
                ls = [owner[l] for l in err_lines(m, os.path.basename(src)) if l in owner]
                if ls:
                    hit.setdefault(ls[0], m.get("rendered") or m["message"])
                else:
                    lost.append(m)
            if not hit:
                raise CheckError("%s: %s %s" % (src, crashed, [m.get("rendered") for m in lost][:2]))
            bad.update(hit)
        else:
            raise CheckError("%s: no end of errors" % src)
        r = subprocess.run([src + ".exe"], stdout=subprocess.PIPE, text=True, timeout=300)
        if r.returncode:
            raise CheckError("the program %s failed" % src)
        for f in (src, src + ".exe"):
            os.unlink(f)
        return bad, r.stdout.split("\n")

    res = {}
    bads = {}
    for bad, lines in pmap(job, jobs):
        bads.update(bad)
        for l in lines:
            if not l:
                continue
            i, w, v = l.split("\t", 2)
            if i == "COUNT":
                run.add("transitions", int(w))
                run.add("traces_validated_against_impl", int(w))
                continue
            res.setdefault(int(i), {})[w] = v
    plain = {p[0].name: i for i, p in enumerate(progs) if p[1] == "plain"}

    for i, (it, eid, env, t) in enumerate(progs):
        run.add("states")
        if i in bads:
            run.violation("a type does not compile in a surrounding where it can be written", {"item": it.name, "surrounding": eid, "program": t, "error": bads[i][:1500]})
            continue
        b = plain[it.name]
        if b in bads:
            continue
        for w in res.get(b, {}):
            x, y = res[b][w], res.get(i, {}).get(w, "")
            nv = set("VW") & set(env.get("names", {}))
            if nv:
                if w[0] == "d":
                    # names of other lengths are padded differently: compare the unpadded part
                    x, y = x.split("|")[0], y.split("|")[0]
                if w == "r":
                    continue
                x, y = norm2(progs[i], x), norm2(progs[i], y)
            if set("ab") & set(env.get("names", {})):
                # which of two failing fields is reported depends on the order of their names (C15)
                x, y = (re.sub(r"!field `[^`]*` parse failed\.", "!", z) for z in (x, y))
            x, y = (re.sub(r"0x[0-9a-f]{6,}", "PTR", z) for z in (x, y))
            if x != y:
                run.violation("a type behaves differently in another surrounding", {"item": it.name, "surrounding": eid, "program": t, "what": w, "plain": x[:800], "here": y[:800]})
    run.add("items", len(ITEMS))
    run.add("surroundings", len(envs))
    for p in progs[7::1999]:
        run.sample({"item": p[0].name, "surrounding": p[1], "program": p[3][:600]})


def norm2(prog, v):
    """Replaces the names of variants (in each style) by markers, in results of the plain and of the renamed program alike."""
    d = prog[2].get("names", {})
    for k in ("V", "W"):
        if k not in d:
            continue
        for z in (raw(d[k]), BASE[k]):
            for f in (lambda q: q, lambda q: "_".join(asc(x, True) for x in words(q)), lambda q: "-".join(asc(x, False) for x in words(q))):
                if v.startswith('"' + f(z)):
                    v = '"\x01' + k + v[1 + len(f(z)):]
                v = v.replace("<%s>" % f(z), "<\x01%s>" % k)
                v = v.replace("(%s)" % f(z), "(\x01%s)" % k)
    return v
