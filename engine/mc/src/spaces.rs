//! The program spaces: for each suite, the bounded set of type declarations that is explored.
use crate::desc::*;
use crate::explore::Case;
use crate::model::{Dom, STYLES, default_of as dflt};

/// All sequences over 0..n of length lo..=hi, shortest first.
pub fn seqs(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut layer = vec![vec![]];
    for len in 0..=hi {
        if len >= lo {
            out.extend(layer.iter().cloned());
        }
        if len < hi {
            layer = layer.iter().flat_map(|s: &Vec<usize>| (0..n).map(move |i| [s.clone(), vec![i]].concat())).collect();
        }
    }
    out
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    seqs(n, n, n).into_iter().filter(|s| (0..n).all(|i| s.contains(&i))).collect()
}
fn esc(s: &str) -> String {
    s.replace('{', "{{").replace('}', "}}")
}
fn ph(k: &str) -> String {
    format!("{{{k}}}")
}
fn thorough(tier: &str) -> bool {
    tier == "thorough"
}

/// A struct (tuple or named) or a one-variant-of-interest enum with the same fields and attributes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    SNamed,
    STuple,
    VNamed,
    VTuple,
}
use Form::*;
const FORMS: [Form; 4] = [SNamed, STuple, VNamed, VTuple];
impl Form {
    fn named(self) -> bool {
        matches!(self, SNamed | VNamed)
    }
    fn keys(self, names: &[&str]) -> Vec<String> {
        if self.named() { names.iter().map(|n| unraw(n).to_string()).collect() } else { (0..names.len()).map(|i| i.to_string()).collect() }
    }
    fn prog(self, at: Attrs, names: &[&str], fields: Vec<(Ty, Attrs)>) -> Prog {
        let fs: Vec<Field> = fields
            .into_iter()
            .enumerate()
            .map(|(i, (t, a))| fa(if self.named() { names[i] } else { "" }, t, a))
            .collect();
        match self {
            SNamed | STuple => strukt("T", at, fs),
            _ => enm("T", Default::default(), vec![var("V", at, fs), var("W", crate::desc::at().fmt("w:{}"), vec![])]),
        }
    }
}
const ABC: [&str; 6] = ["a", "b", "c", "d", "e", "g"];

pub fn inner(fmt: &str) -> Prog {
    strukt("In", at().fmt(fmt), vec![f("x", U8), f("y", Str)])
}

/// Structs in structs, `n` names deep: the paths that lead to the two innermost fields and to one on the way.
fn chain(n: usize, tuple: bool, disp: bool, def: bool) -> (Ty, Vec<String>) {
    let k = |s: &'static str| if tuple { "" } else { s };
    let fm = if tuple { "{0}|{1}" } else { "{x}|{y}" };
    let mut t = strukt("L0", if disp { at().fmt(fm) } else { at() }, vec![f(k("x"), U8), f(k("y"), Str)]);
    let (mut a, mut b, mut c) = if tuple { ("0".into(), "1".into(), "1".into()) } else { ("x".to_string(), "y".to_string(), "y".to_string()) };
    for i in 1..n {
        t = if disp { t } else { t.plain() };
        if def {
            t = t.def(Def::Derive);
        }
        let (n, e) = if tuple { ("1", "0") } else { ("n", "e") };
        let fm = format!("<{i}{{{n}}}{{{e}}}>");
        t = strukt(
            &format!("L{i}"),
            if disp { at().fmt(&fm) } else { at() },
            if tuple { vec![f("", U8), f("", t.ty())] } else { vec![f("n", t.ty()), f("e", U8)] },
        );
        a = format!("{n}.{a}");
        b = format!("{n}.{b}");
        c = if i == 1 { e.to_string() } else { format!("{n}.{c}") };
    }
    t = if disp { t } else { t.plain() };
    if def {
        t = t.def(Def::Derive);
    }
    (t.ty(), vec![a, b, c])
}

pub fn cases(suite: &str, tier: &str) -> Vec<Case> {
    with_layouts(cases_(suite, tier), if thorough(tier) { 12 } else { 3 })
}
/// Adds the programs whose arguments are written in several attributes, in every order of `Attrs::layout`: for every
/// set of arguments of one type, variant or field, the first `n` programs that have it.
fn with_layouts(mut cases: Vec<Case>, n: usize) -> Vec<Case> {
    fn key(place: &str, a: &Attrs) -> Option<String> {
        let b = |x: bool, s: &'static str| if x { s } else { "" };
        let d = [b(a.fmt.is_some(), "fmt "), b(a.style.is_some(), "style "), b(a.opt, "opt "), b(a.dwith.is_some(), "with ")];
        let f = [b(a.rx.is_some(), "rx "), b(a.infer, "infer "), b(a.fwith.is_some(), "fwith "), b(a.default, "default "), b(!a.default_fields.is_empty(), "fields "), b(a.ignore, "ignore "), b(a.new.is_some(), "new ")];
        let k = |x: &[&str]| x.iter().filter(|x| !x.is_empty()).count();
        (k(&d) > 1 || k(&f) > 1 || k(&d) > 0 && k(&f) > 0).then(|| format!("{place}: {}{}", d.concat(), f.concat()))
    }
    fn each(p: &mut Prog, f: &mut impl FnMut(&str, &mut Attrs)) {
        let top = if matches!(p.kind, Kind::S(_)) { "struct" } else { "enum" };
        f(top, &mut p.at);
        match &mut p.kind {
            Kind::S(b) => b.fields.iter_mut().for_each(|x| f("field", &mut x.at)),
            Kind::E(vs) => {
                for v in vs {
                    f("variant", &mut v.at);
                    v.body.fields.iter_mut().for_each(|x| f("field", &mut x.at));
                }
            }
        }
    }
    let mut count = std::collections::HashMap::new();
    let mut more = vec![];
    for c in &cases {
        let mut keys = vec![];
        each(&mut c.prog.clone(), &mut |place, a| if let Some(k) = key(place, a) { if !keys.contains(&k) { keys.push(k) } });
        for layout in 1..4u8 {
            if !keys.iter().any(|k| count.get(&(layout, k.clone())).copied().unwrap_or(0) < n) { continue; }
            for k in &keys { *count.entry((layout, k.clone())).or_insert(0) += 1; }
            let mut c = c.clone();
            each(&mut c.prog, &mut |_, a| a.layout = layout);
            more.push(c);
        }
    }
    cases.extend(more);
    cases
}
fn cases_(suite: &str, tier: &str) -> Vec<Case> {
    match suite {
        "C01" => c01(tier),
        "C05" => c05(tier),
        "C04" => c04(tier),
        "C06" => c06(tier),
        "C07" => c07(tier),
        "C08" => c08(tier),
        "C09" => c09(tier),
        "C10" => c10(tier),
        "C11" => c11(tier),
        "C12" => c12(tier),
        "C13" => c13(tier),
        "C15" => c15(tier),
        "C18" => c18(tier),
        "C21" => c21(tier),
        s => panic!("no suite {s}"),
    }
}

fn disp(p: Prog) -> Case {
    let mut c = Case::new(p.disp_only());
    c.do_disp = true;
    c.dom = Dom { u8: vec![1, 2, 30], i16: vec![-1, 2], s: vec!["", "a", "{0}", "é\n"], c: vec!['a', '{'] };
    c
}
fn parse(p: Prog) -> Case {
    let mut c = Case::new(p.from_only());
    c.do_parse = true;
    c.alpha = vec!['a', '1', '\n'];
    c
}

// ------------------------------------------------------------------------------------------ C01

pub const NAMES: [[&str; 3]; 12] = [
    ["a", "b", "c"],
    ["c", "a", "b"],
    ["r#type", "r#match", "r#fn"],
    ["r#a", "b", "r#c"],
    ["f", "s", "value"],
    ["self_", "_value_a", "_value_0"],
    ["_0", "_1", "_2"],
    ["_formatter", "key", "__f"],
    ["é", "日本", "Ñ"],
    ["A", "a", "aA"],
    ["a1", "a10", "a2"],
    ["x", "x_", "_x"],
];

fn c01(tier: &str) -> Vec<Case> {
    let mut out = vec![];
    let lits = ["-", "{{", "}}", "\n", " é", "\"\\", "0:?x"];
    // formats of two fields: every sequence of tokens
    let depth = if thorough(tier) { 4 } else { 3 };
    for form in [SNamed, STuple, VNamed, VTuple] {
        let hi = if matches!(form, SNamed | VTuple) { depth } else { 2 };
        let ks = form.keys(&ABC[..2]);
        for s in seqs(2 + lits.len(), 0, hi) {
            let fm: String = s.iter().map(|&i| if i < 2 { ph(&ks[i]) } else { lits[i - 2].to_string() }).collect();
            let v = matches!(form, VNamed | VTuple);
            out.push(disp(form.prog(at().fmt(&fm), &ABC, vec![(U8, at()), (Str, at())])));
            if v && hi == 2 {
                // the variant name among them
                for fm in [format!("{{}}{fm}"), format!("{fm}{{}}")] {
                    out.push(disp(form.prog(at().fmt(&fm), &ABC, vec![(U8, at()), (Str, at())])));
                }
            }
        }
    }
    // names of fields
    for ns in NAMES {
        for form in [SNamed, VNamed] {
            let ks = form.keys(&ns);
            for p in perms(3) {
                let fm: Vec<String> = p.iter().map(|&i| ph(&ks[i])).collect();
                let tys = vec![(U8, at()), (U8, at()), (Str, at())];
                out.push(disp(form.prog(at().fmt(&fm.join("-")), &ns, tys.clone())));
                // as written, r# included
                let fm: Vec<String> = p.iter().map(|&i| ph(ns[i])).collect();
                if ns.iter().any(|n| n.starts_with("r#")) {
                    out.push(disp(form.prog(at().fmt(&fm.join("-")), &ns, tys)));
                }
            }
        }
    }
    // many fields
    for n in [4usize, 5, 9, 10, 11, 12, 13, 21, 26] {
        for form in FORMS {
            let owned: Vec<String> = (0..n).map(|i| format!("f{}", (i * 7) % n)).collect();
            // names must be distinct: fall back to the plain numbering where 7 divides n
            let owned: Vec<String> = if n % 7 == 0 { (0..n).map(|i| format!("f{i}")).collect() } else { owned };
            let names: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
            let ks = form.keys(&names);
            let tys: Vec<(Ty, Attrs)> = (0..n).map(|i| (if i % 3 == 2 { Str } else { U8 }, at())).collect();
            let orders: [Vec<usize>; 3] =
                [(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * if n % 5 == 0 { 3 } else { 5 } + 1) % n).collect()];
            for o in orders {
                let fm: Vec<String> = o.iter().map(|&i| ph(&ks[i])).collect();
                out.push(disp(form.prog(at().fmt(&fm.join(",")), &names, tys.clone())));
            }
        }
    }
    // formats of fields
    let plain = strukt("In", at(), vec![f("x", U8), f("y", Str)]).plain();
    let tplain = strukt("In", at(), vec![f("", U8), f("", Str)]).plain();
    let deep = strukt("De", at(), vec![f("p", inner("{x}|{y}").def(Def::Derive).ty()), f("q", U8)]).plain();
    let tdeep = strukt("De", at(), vec![f("", U8), f("", strukt("In", at().fmt("{1}|{0}"), vec![f("", U8), f("", Str)]).def(Def::Derive).ty())]).plain();
    let mut kinds: Vec<(Ty, &str)> = vec![];
    let leaf_f = ["{}", "<{}>", "{}{}", "{{{}}}", "lit", "", "{{}}", "\n{}é"];
    for t in [U8, Str] {
        for fm in leaf_f {
            kinds.push((t.clone(), fm));
        }
    }
    for t in [inner("{x}|{y}").ty(), inner("{y}").disp_only().ty()] {
        for fm in ["{}", "<{}>", "{x}", "{y}{x}", "{y}-{}", "{}{{{x}}}", "{x}{x}"] {
            kinds.push((t.clone(), fm));
        }
    }
    for fm in ["{x}", "{y}{x}", "a{x}b"] {
        kinds.push((plain.clone().ty(), fm));
    }
    for fm in ["{0}", "{1}{0}", "a{1}b"] {
        kinds.push((tplain.clone().ty(), fm));
    }
    for fm in ["{p}", "{q}", "{p.x}", "{p.y}{q}", "{p.y}/{p}/{p.x}"] {
        kinds.push((deep.clone().ty(), fm));
    }
    for fm in ["{1}", "{0}", "{1.0}", "{1.1}{0}"] {
        kinds.push((tdeep.clone().ty(), fm));
    }
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (t, fm) in &kinds {
            for outer in [format!("{{{}}}", ks[0]), format!("[{{{}}}-{{{}}}]", ks[1], ks[0])] {
                let two = outer.len() > 4;
                let mut fs = vec![(t.clone(), at().fmt(fm))];
                if two {
                    fs.push((U8, at().fmt("b{}")));
                }
                out.push(disp(form.prog(at().fmt(&outer), &ABC, fs)));
            }
            // opt
            let fs = vec![(Opt(Box::new(t.clone())), at().fmt(fm).opt()), (U8, at())];
            out.push(disp(form.prog(at().fmt(&format!("{{{}}}+{{{}}}", ks[0], ks[1])), &ABC, fs)));
        }
        // newtypes
        if matches!(form, SNamed | STuple) {
            for (t, fm) in &kinds {
                out.push(disp(form.prog(at(), &ABC, vec![(t.clone(), at().fmt(fm))])));
            }
            for ns in NAMES {
                out.push(disp(form.prog(at(), &ns, vec![(U8, at())])));
            }
        }
    }
    // nested placeholders
    for (t, paths) in [
        (plain.clone().ty(), vec!["x", "y"]),
        (tplain.clone().ty(), vec!["0", "1"]),
        (deep.clone().ty(), vec!["p", "q", "p.x", "p.y"]),
        (tdeep.clone().ty(), vec!["0", "1", "1.0", "1.1"]),
    ] {
        for form in FORMS {
            let ks = form.keys(&ABC[..2]);
            for a in &paths {
                for b in &paths {
                    let fm = format!("{{{}.{a}}}-{{{}}}{{{}.{b}}}", ks[0], ks[1], ks[0]);
                    out.push(disp(form.prog(at().fmt(&fm), &ABC, vec![(t.clone(), at()), (Str, at().fmt("({})"))])));
                }
            }
        }
    }
    // deeper ones, through types with a Display of their own and without
    for n in 3..=(if thorough(tier) { 8 } else { 6 }) {
        for tuple in [false, true] {
            for own in [false, true] {
                let (t, paths) = chain(n, tuple, own, false);
                for form in FORMS {
                    let ks = form.keys(&ABC[..2]);
                    for a in &paths {
                        let fm = format!("{{{}.{a}}}/{{{}}}{{{}.{}}}", ks[0], ks[1], ks[0], paths[1]);
                        out.push(disp(form.prog(at().fmt(&fm), &ABC, vec![(t.clone(), at()), (Str, at())])));
                        out.push(disp(form.prog(at().fmt(&format!("{{{}}}", ks[0])), &ABC, vec![(t.clone(), at().fmt(&format!("-{{{a}}}{{{a}}}")))])));
                    }
                }
            }
        }
    }
    // enums: format of the enum and of the variants, names, styles
    let efs = [None, Some("{}"), Some("<{}>"), Some("e"), Some("{{}}{}"), Some("{}={0}"), Some("{0}")];
    let vfs = [None, Some("{}"), Some("v"), Some("{}!"), Some("{0}")];
    for ef in efs {
        for vf in vfs {
            for unit in [true, false] {
                let eff = vf.or(ef);
                let uses0 = eff.is_some_and(|s| s.contains("{0}"));
                if (unit && uses0) || (!unit && eff.is_none()) || ef.is_some_and(|s| s.contains("{0}")) {
                    // the enum's format must fit every variant: checked with the same fields below
                    if !(ef.is_some_and(|s| s.contains("{0}")) && !unit) {
                        continue;
                    }
                }
                let e0 = ef.is_some_and(|s| s.contains("{0}"));
                for (es, vs) in [(None, None), (Some("snake_case"), None), (None, Some("UPPERCASE")), (Some("kebab-case"), Some("Title case"))] {
                    let mut ea = at();
                    ea.fmt = ef.map(|s| s.into());
                    ea.style = es;
                    let mut va = at();
                    va.fmt = vf.map(|s| s.into());
                    va.style = vs;
                    let other = if e0 {
                        vec![var("OtherOne", at(), vec![f("", Str)])]
                    } else {
                        vec![var("OtherOne", at(), vec![]), var("r#Loop", at(), vec![])]
                    };
                    let fs = if unit { vec![] } else { vec![f("", U8)] };
                    for before in [true, false] {
                        let mut vars = other.clone();
                        vars.insert(if before { 0 } else { vars.len() }, var("SomeName", va.clone(), fs.clone()));
                        out.push(disp(enm("T", ea.clone(), vars)));
                    }
                }
            }
        }
    }
    // empty shapes
    for shape in [Shape::Unit, Shape::Tuple, Shape::Named] {
        for fm in ["x", "", "{{", "a}}b"] {
            let mut p = strukt("T", at().fmt(fm), vec![]);
            let Kind::S(b) = &mut p.kind else { panic!() };
            b.shape = shape;
            out.push(disp(p));
            let mut p = enm("T", at(), vec![var("A", at().fmt(fm), vec![]), var("B", at().fmt(fm), vec![f("", U8)])]);
            let Kind::E(b) = &mut p.kind else { panic!() };
            b[0].body.shape = shape;
            out.push(disp(p));
        }
    }
    // custom formats
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for w in [W::Ang, W::Brk, W::Inc, W::Alt, W::Verb] {
            for fm in [None, Some("{}"), Some("-{}-"), Some("{}{}")] {
                for opt in [false, true] {
                    let mut a = at().with(w);
                    a.fmt = fm.map(|s| s.into());
                    a.opt = opt;
                    let t = if opt { Opt(Box::new(U8)) } else { U8 };
                    out.push(disp(form.prog(at().fmt(&format!("{{{}}}/{{{}}}", ks[1], ks[0])), &ABC, vec![(t, a), (U8, at())])));
                }
            }
        }
    }
    out.extend(refs());
    out
}

/// Fields that are references, whole, in part, and with formats of the type referred to.
fn refs() -> Vec<Case> {
    let mut out = vec![];
    let r = |t: Ty| Ref(Box::new(t));
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (t, subs) in [(r(U8), vec![]), (r(Str), vec![]), (RStr, vec![]), (r(r(U8)), vec![]), (r(r(r(U8))), vec![]), (r(RStr), vec![]), (r(r(RStr)), vec![]), (r(inner("{x}|{y}").ty()), vec!["x", "y"]), (Opt(Box::new(r(U8))), vec![]), (Opt(Box::new(RStr)), vec![])] {
            for w in [None, Some(W::Ang), Some(W::Brk), Some(W::OnStr), Some(W::Inc)] {
                let to = |t: &Ty| {
                    let mut t = t.clone();
                    while let Ref(u) | Opt(u) = t {
                        t = *u;
                    }
                    t
                };
                // formats of one type only
                if w == Some(W::OnStr) && to(&t) != RStr || w == Some(W::Inc) && to(&t) != U8 {
                    continue;
                }
                for fm in [None, Some("{}"), Some("<{}>{}")] {
                    for o in ["{1}/{0}", "{0}", "{0}{0}"] {
                        let n = if o.contains("{1}") { 2 } else { 1 };
                        let o = o.replace("{1}", &ph("\0")).replace("{0}", &ph(&ks[0])).replace('\0', &ks[1]);
                        let mut a = at();
                        a.dwith = w;
                        a.fmt = fm.map(|s| s.into());
                        a.opt = matches!(t, Opt(_));
                        let fs = vec![(t.clone(), a), (r(U8), at())];
                        out.push(disp(form.prog(at().fmt(&o), &ABC, fs[..n].to_vec())));
                    }
                }
            }
            for s in subs {
                out.push(disp(form.prog(at().fmt(&format!("{{{0}.{s}}}{{{0}}}", ks[0])), &ABC, vec![(t.clone(), at())])));
                out.push(disp(form.prog(at().fmt(&format!("{{{0}}}", ks[0])), &ABC, vec![(t.clone(), at().fmt(&format!("{{{s}}}-{{}}")))])));
            }
            if matches!(form, SNamed | STuple) && !matches!(t, Opt(_)) {
                out.push(disp(form.prog(at(), &ABC, vec![(t.clone(), at())])));
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C05

/// Literal texts: every ASCII punctuation character, whitespace, non-ASCII, and texts that would be
/// something else in a regex.
fn literals() -> Vec<String> {
    let mut v: Vec<String> = (0x20u8..0x7f).filter(|c| !c.is_ascii_alphanumeric()).map(|c| (c as char).to_string()).collect();
    for s in [
        "\n", "\t", "\r", "\r\n", "\0", "é", "É", "日", "\u{301}", "\u{2028}", "😀", "ß", "x", "X", "1", "k", "\u{212a}", "ab", "a.b", "a*", ".*", "[a]", "(a", "a)",
        "(a)", "a|1", "^a$", "\\d", "\\", "\\n", "{1}", "a{2}", "(?i)", "(?<a>", "(?:a)", "$0", "\\b", "a+", "a?", "#a", " a ", "&&", "~~", "--", "\\x41", "{{}}",
    ] {
        v.push(s.into());
    }
    v
}

fn c05(tier: &str) -> Vec<Case> {
    let mut out = vec![];
    let th = thorough(tier);
    for l in literals() {
        let e = esc(&l);
        for (n, fm) in
            [(0, "L"), (1, "L{a}"), (1, "{a}L"), (2, "{a}L{b}"), (2, "L{a}L{b}L"), (2, "{b}L{a}"), (1, "L{a}LL")].into_iter()
        {
            let fm = fm.replace('L', &e);
            let mut c = parse(strukt("T", at().fmt(&fm), [f("a", Str), f("b", Str)][..n].to_vec()));
            c.seeds = vec![l.clone(), l.to_uppercase(), l.to_lowercase(), format!("a{l}1{l}"), format!("{l}a{l}{l}1")];
            c.budget = if th { 2000 } else { 120 };
            out.push(c);
        }
        let mut c = parse(enm("T", at(), vec![var("A", at().fmt(&format!("{e}{{0}}")), vec![f("", U8)]), var("B", at().fmt(&e), vec![])]));
        c.seeds = vec![l.clone(), format!("{l}1")];
        c.budget = 120;
        out.push(c);
    }
    // sequences of placeholders and literals
    let toks = ["", "-", "1", "aa"];
    let tyss: &[[Ty; 3]] = &[[Str, Str, Str], [U8, Str, I16], [Str, U8, Char]];
    for s in seqs(4, 1, if th { 5 } else { 4 }) {
        let n = s.iter().filter(|&&i| i == 0).count();
        if n == 0 || n > 3 {
            continue;
        }
        for (form_i, form) in FORMS.iter().enumerate() {
            for (ti, tys) in tyss.iter().enumerate() {
                for (pi, p) in perms(n).into_iter().enumerate() {
                    if !th && (form_i + ti + pi + s.len()) % 4 != 0 {
                        continue;
                    }
                    let ks = form.keys(&["c", "a", "b"][..n]);
                    let mut k = 0;
                    let fm: String = s
                        .iter()
                        .map(|&i| {
                            if i == 0 {
                                k += 1;
                                ph(&ks[p[k - 1]])
                            } else {
                                toks[i].into()
                            }
                        })
                        .collect();
                    let mut c = parse(form.prog(at().fmt(&fm), &["c", "a", "b"], tys[..n].iter().map(|t| (t.clone(), at())).collect()));
                    c.auto = false;
                    c.alpha = vec!['1', 'a', '-', '\n'];
                    c.budget = if th { 6000 } else { 350 };
                    out.push(c);
                }
            }
        }
    }
    // names
    for ns in NAMES {
        for form in [SNamed, VNamed] {
            let ks = form.keys(&ns);
            for p in perms(3) {
                for raw in [false, true] {
                    if raw && !ns.iter().any(|n| n.starts_with("r#")) {
                        continue;
                    }
                    let fm: Vec<String> = p.iter().map(|&i| if raw { ph(ns[i]) } else { ph(&ks[i]) }).collect();
                    let mut c = parse(form.prog(at().fmt(&fm.join("-")), &ns, vec![(U8, at()), (U8, at()), (Str, at())]));
                    c.auto = false;
                    c.budget = 100;
                    c.seeds = vec!["1-2-3".into(), "3-2-x".into(), "x-1-2".into(), "1-x-2".into()];
                    out.push(c);
                }
            }
        }
    }
    // many fields
    for n in [4usize, 5, 9, 10, 11, 12, 13, 21, 26] {
        for form in FORMS {
            let owned: Vec<String> = (0..n).map(|i| format!("f{}", if n % 7 == 0 { i } else { (i * 7) % n })).collect();
            let names: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
            let ks = form.keys(&names);
            let tys: Vec<(Ty, Attrs)> = (0..n).map(|i| (if i % 3 == 2 { Str } else { U8 }, at())).collect();
            let orders: [Vec<usize>; 3] =
                [(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * if n % 5 == 0 { 3 } else { 5 } + 1) % n).collect()];
            for o in orders {
                let fm: Vec<String> = o.iter().map(|&i| ph(&ks[i])).collect();
                let mut c = parse(form.prog(at().fmt(&fm.join(",")), &names, tys.clone()));
                c.auto = false;
                c.alpha = vec!['1', ',', 'a'];
                c.budget = 10;
                c.seeds = vec![(0..n).map(|i| (i + 10).to_string()).collect::<Vec<_>>().join(",")];
                out.push(c);
            }
        }
    }
    // derived types inside derived types
    let ins = [inner("{x}|{y}"), inner("{y}{x}"), inner("<{x}>{y}")];
    let en = enm("In", at(), vec![var("A", at(), vec![]), var("Bb", at().fmt("a{0}"), vec![f("", U8)]), var("C", at().fmt("a1"), vec![])]);
    for t in ins.into_iter().chain([en]) {
        for form in FORMS {
            let ks = form.keys(&ABC[..2]);
            for fm in ["{0}", "{0}-{1}", "{1}{0}", "|{0}|{1}"] {
                let n = if fm.contains("{1}") { 2 } else { 1 };
                let fm = fm.replace("{1}", "{\0}").replace("{0}", &ph(&ks[0])).replace("{\0}", &ph(&ks[1]));
                let fs = vec![(t.clone().ty(), at()), (Str, at())];
                let mut c = parse(form.prog(at().fmt(&fm), &ABC, fs[..n].to_vec()));
                c.alpha = vec!['1', 'a', '|'];
                c.budget = if th { 6000 } else { 500 };
                out.push(c);
            }
        }
    }
    // formats of fields
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for t in [U8, Str] {
            for ff in ["{}", "<{}>", "{{{}}}", "\n{}é", "{}{{}}", ".{}*", "(?<a>{}"] {
                for o in ["{0}", "{0}{1}", "-{1}.{0}"] {
                    let n = if o.contains("{1}") { 2 } else { 1 };
                    let fm = o.replace("{1}", "{\0}").replace("{0}", &ph(&ks[0])).replace("{\0}", &ph(&ks[1]));
                    let fs = vec![(t.clone(), at().fmt(ff)), (Str, at())];
                    let mut c = parse(form.prog(at().fmt(&fm), &ABC, fs[..n].to_vec()));
                    c.budget = 250;
                    out.push(c);
                }
            }
        }
        if matches!(form, SNamed | STuple) {
            for t in [U8, Str, Char, I16, Bool] {
                out.push(parse(form.prog(at(), &ABC, vec![(t.clone(), at())])));
                out.push(parse(form.prog(at(), &ABC, vec![(t, at().fmt("({})"))])));
            }
        }
    }
    // placeholders for fields of fields (the rest of the field comes from its default)
    let plain = strukt("In", at(), vec![f("x", U8), f("y", Str)]).plain().ty();
    let tplain = strukt("In", at(), vec![f("", Str), f("", U8)]).plain().ty();
    let deep = strukt("De", at(), vec![f("p", plain.clone()), f("q", Char)]).plain().ty();
    let tdeep = strukt("De", at(), vec![f("", Char), f("", tplain.clone())]).plain().ty();
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (t, subs) in [(&plain, ["x", "y"]), (&tplain, ["1", "0"]), (&deep, ["p.y", "p.x"]), (&deep, ["q", "p.y"]), (&tdeep, ["1.0", "1.1"]), (&tdeep, ["0", "1.0"])] {
            for fm in ["{S}", "{R}", "{S}-{R}", "{R}{S}", "{1}-{S}", "{S}{1}", "{R}-{1}-{S}", "1{1}{R}\n{S}"] {
                let n = if fm.contains("{1}") { 2 } else { 1 };
                let fm = fm.replace("{1}", &ph(&ks[1])).replace("{S}", &ph(&format!("{}.{}", ks[0], subs[0]))).replace("{R}", &ph(&format!("{}.{}", ks[0], subs[1])));
                let fs = vec![(t.clone(), at().default()), (Str, at())];
                let mut c = parse(form.prog(at().fmt(&fm), &ABC, fs[..n].to_vec()));
                c.alpha = vec!['1', 'a', '-', '\n'];
                c.budget = if th { 6000 } else { 350 };
                out.push(c);
                if !fm.contains('-') {
                    continue;
                }
                // the same in the format of the field
                let mut c = parse(form.prog(at().fmt(&ph(&ks[0])), &ABC, vec![(t.clone(), at().default().fmt(&format!("{}-{}", ph(subs[0]), ph(subs[1]))))]));
                c.alpha = vec!['1', 'a', '-', '\n'];
                c.budget = if th { 6000 } else { 350 };
                out.push(c);
            }
        }
    }
    for n in 3..=(if th { 7 } else { 5 }) {
        for tuple in [false, true] {
            let (t, paths) = chain(n, tuple, false, true);
            for form in FORMS {
                let ks = form.keys(&ABC[..2]);
                let fm = format!("{{{0}.{1}}}-{{{0}.{2}}}", ks[0], paths[0], paths[1]);
                let own = format!("{}-{}", ph(&paths[1]), ph(&paths[2]));
                for (fm, a) in [(fm, at().default()), (ph(&ks[0]), at().default().fmt(&own))] {
                    let mut c = parse(form.prog(at().fmt(&fm), &ABC, vec![(t.clone(), a)]));
                    c.alpha = vec!['1', 'a', '-', '\n'];
                    c.budget = 350;
                    out.push(c);
                }
            }
        }
    }
    // specs do not matter for parsing
    for fm in ["{a:>4}", "{a:04}-{b:?}", "{a:+}{b:*^8}"] {
        let n = if fm.contains("{b") { 2 } else { 1 };
        out.push(parse(strukt("T", at().fmt(fm), [f("a", U8), f("b", Str)][..n].to_vec())));
    }
    // no fields
    for shape in [Shape::Unit, Shape::Tuple, Shape::Named] {
        for fm in ["x", "", "{{", "a}}b", "."] {
            let mut p = strukt("T", at().fmt(fm), vec![]);
            let Kind::S(b) = &mut p.kind else { panic!() };
            b.shape = shape;
            out.push(parse(p));
            let mut p = enm("T", at(), vec![var("A", at().fmt(fm), vec![]), var("B", at().fmt("b{0}"), vec![f("", U8)])]);
            let Kind::E(b) = &mut p.kind else { panic!() };
            b[0].body.shape = shape;
            out.push(parse(p));
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C04

const KEYWORDS: [&str; 52] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
    "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
    "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];
fn ident_ok(s: &str) -> bool {
    s != "_" && !s.starts_with(|c: char| c.is_numeric() || c == '\u{203f}') && !s.is_empty() && !KEYWORDS.contains(&s)
}
fn c04(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let mut idents: Vec<String> = vec![];
    let mut add = |alpha: &[char], hi: usize| {
        for s in seqs(alpha.len(), 1, hi) {
            let t: String = s.iter().map(|&i| alpha[i]).collect();
            if ident_ok(&t) && !idents.contains(&t) {
                idents.push(t);
            }
        }
    };
    add(&['a', 'B', '1', '_'], if th { 6 } else { 5 });
    add(&['a', 'B', 'é', 'É', '_', '1'], if th { 5 } else { 3 });
    add(&['z', 'Z', '\u{203f}', '\u{663}', 'ß', 'ǅ', 'İ', '日'], if th { 4 } else { 3 });
    let mut words: Vec<String> = vec![];
    for c in 'a'..='z' {
        let u = c.to_ascii_uppercase();
        for t in [format!("{c}"), format!("{u}"), format!("{c}{u}"), format!("{u}{c}"), format!("q{u}{c}"), format!("{u}{u}{c}"), format!("{c}_{c}"), format!("{u}_{u}"), format!("{c}9{u}")] {
            words.push(t);
        }
    }
    for c in '0'..='9' {
        words.push(format!("a{c}B"));
        words.push(format!("A{c}b_{c}"));
    }
    for w in [
        "HTTPServer", "XMLHttpRequest2", "HelloWorld", "Hello_World", "helloWorld", "HELLO_WORLD", "__init__", "A1B2C3", "iPhone",
        "IPv4Addr", "snake_case_name", "Trailing_", "Double__Under", "X", "Ok", "Err", "Some", "None", "VeryLongVariantNameWithManyWords",
    ] {
        words.push(w.into());
    }
    for k in KEYWORDS {
        if !["crate", "self", "Self", "super"].contains(&k) {
            words.push(format!("r#{k}"));
        }
    }
    words.push("r#Plain".into());
    for w in words {
        if (w.starts_with("r#") || ident_ok(&w)) && !idents.contains(&w) {
            idents.push(w);
        }
    }
    let mut push = |p: Prog| {
        let mut c = Case::new(p);
        c.do_disp = true;
        c.do_parse = true;
        c.auto = true;
        c.max_len = 0;
        c.edits = false;
        out.push(c);
    };
    for style in STYLES {
        for ch in idents.chunks(250) {
            push(enm("T", at().style(style), ch.iter().map(|i| var(i, at(), vec![])).collect()));
        }
    }
    // no style at all
    for ch in idents.chunks(250).take(if th { 1000 } else { 2 }) {
        push(enm("T", at(), ch.iter().map(|i| var(i, at(), vec![])).collect()));
    }
    // the variant's style against the enum's, and names inside formats
    let few = ["someName", "HTTPServer2", "r#Type", "a_b"];
    for es in STYLES {
        for lay in 0..2u8 {
            let vars = STYLES
                .iter()
                .enumerate()
                .map(|(i, vs)| {
                    // distinct variant names
                    let n = format!("{}{}", few[i % 4], ["", "Q", "_x", "9Z"][i / 4]);
                    let a = at().style(vs).layout(lay);
                    match i % 3 {
                        0 => var(&n, a, vec![]),
                        1 => var(&n, a.fmt(&format!("{i}<{{}}>")), vec![]),
                        _ => var(&n, a.fmt(&format!("{{}}{i}{{0}}")), vec![f("", U8)]),
                    }
                })
                .collect();
            push(enm("T", at().style(es).layout(lay), vars));
        }
        // names in regular expressions
        for rx in ["(?<>)", "(?<>)-(?<0>.*)", "(?<0>[0-9])(?<>)", "(?<a>.*)!(?<>)"] {
            let fs: Vec<Field> = if rx.contains("<0>") { vec![f("", U8)] } else if rx.contains("<a>") { vec![f("a", Str)] } else { vec![] };
            let df = rx.replace("(?<>)", "{}").replace("(?<0>.*)", "{0}").replace("(?<0>[0-9])", "{0}").replace("(?<a>.*)", "{a}");
            push(enm("T", at().style(es), few.iter().map(|n| var(n, at().fmt(&df).rx(rx), fs.clone())).collect()));
            push(enm("T", at().style(es).fmt(&df).rx(rx), few.iter().map(|n| var(n, at(), fs.clone())).collect()));
            push(enm(
                "T",
                at().style(es).fmt(&df).rx(rx),
                few.iter().zip(["none", "UPPERCASE", "kebab-case", "Title Case"]).map(|(n, s)| var(n, at().style(s), fs.clone())).collect(),
            ));
        }
        push(enm("T", at().style(es).fmt("{}-{0}"), few.iter().map(|n| var(n, at(), vec![f("", U8)])).collect()));
        push(enm("T", at().style(es), vec![var("AbC", at(), vec![]), var("r#Type", at().style("none"), vec![]), var("xY", at().fmt("{}{{}}"), vec![])]));
    }
    out
}

// ------------------------------------------------------------------------------------------ C06

fn c06(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let mut push = |p: Prog, alpha: &[char]| {
        let mut c = Case::new(p);
        c.do_round = true;
        c.do_parse = true;
        c.alpha = alpha.to_vec();
        c.auto = false;
        c.budget = if th { 3000 } else { 160 };
        c.edits = th;
        c.dom = Dom { u8: vec![0, 1, 2, 30, 255], i16: vec![-1, 0, 2, -32768], s: vec!["", "a", "b1", "é\n"], c: vec!['a', '1', '.', '\n'] };
        out.push(c);
    };
    let seps = ["-", ".", "+", "{{", "}}", "\n", " é ", "(?", "\\", "ab,", "^$"];
    let tyss: &[[Ty; 3]] = &[[U8, Str, U8], [Str, Char, I16], [I16, Bool, Str], [Str, Str, Str]];
    for form in FORMS {
        for (si, sep) in seps.iter().enumerate() {
            for (ti, tys) in tyss.iter().enumerate() {
                for p in perms(3) {
                    if !th && (si + ti + p[0] * 2 + p[1]) % 3 != 0 {
                        continue;
                    }
                    let ks = form.keys(&ABC[..3]);
                    let fm = p.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join(sep);
                    for fm in [fm.clone(), format!("{sep}{fm}{sep}")] {
                        push(form.prog(at().fmt(&fm), &ABC, tys.iter().map(|t| (t.clone(), at())).collect()), &['1', 'a', '-', '.']);
                    }
                }
            }
        }
    }
    // attributes on fields
    let fields: Vec<(Ty, Attrs)> = vec![
        (U8, at().fmt("<{}>")),
        (Str, at().fmt("({})")),
        (U8, at().with(W::Ang)),
        (Str, at().with(W::Brk)),
        (U8, at().with(W::Inc)),
        (Opt(Box::new(U8)), at().opt()),
        (Opt(Box::new(U8)), at().opt().fmt("={}")),
        (Opt(Box::new(Str)), at().opt().fmt("={}")),
        (Opt(Box::new(U8)), at().opt().with(W::Brk)),
        (U8, at().rx("[0-9]+")),
        (Str, at().rx("[a-z]*")),
        (U8, at().infer()),
        (inner("{x}|{y}").ty(), at()),
        (inner("{x}|{y}").ty(), at().fmt("<{}>")),
        (inner("<{y}>{x}").ty(), at().infer()),
        (Opt(Box::new(inner("{x}|{y}").ty())), at().opt().fmt("?{}")),
        (inner("{x}|{y}").def(Def::Derive).ty(), at().fmt("{x}~{y}").default()),
        (enm("En", at().style("snake_case"), vec![var("AaBb", at(), vec![]), var("C", at().fmt("{}={0}"), vec![f("", U8)])]).ty(), at()),
    ];
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (i, a) in fields.iter().enumerate() {
            for (j, b) in fields.iter().enumerate() {
                if !th && (i * 3 + j) % 2 == 1 {
                    continue;
                }
                // only one definition of In per program
                let same = |t: &Ty| format!("{t:?}").contains("\"In\"");
                if same(&a.0) && same(&b.0) && a.0 != b.0 {
                    continue;
                }
                // `{x}~{y}` captures sub-fields only: the field itself needs a default
                let tys = vec![a.clone(), b.clone()];
                push(form.prog(at().fmt(&format!("{{{}}};{{{}}}", ks[0], ks[1])), &ABC, tys), &['1', 'a', ';', '|']);
            }
            if matches!(form, SNamed | STuple) {
                push(form.prog(at(), &ABC, vec![a.clone()]), &['1', 'a', '<', '|']);
            }
        }
    }
    // formats of fields and of variants: every sequence of tokens with the value once
    let toks = ["{}", "{{", "}}", "a", "\n", ".*"];
    for q in seqs(toks.len(), 2, if th { 4 } else { 3 }) {
        if q.iter().filter(|&&i| i == 0).count() != 1 {
            continue;
        }
        let fm: String = q.iter().map(|&i| toks[i]).collect();
        for (k, form) in FORMS.into_iter().enumerate() {
            if !th && (q.iter().sum::<usize>() + k) % 2 == 1 {
                continue;
            }
            let ks = form.keys(&ABC[..2]);
            for (t, a) in [(I16, at()), (U8, at().with(W::Ang)), (Opt(Box::new(U8)), at().opt())] {
                push(form.prog(at().fmt(&format!("{{{}}};{{{}}}", ks[1], ks[0])), &ABC, vec![(t, a.fmt(&fm)), (U8, at())]), &['1', ';', '{', '}']);
            }
        }
        let vf: String = q.iter().map(|&i| if i == 0 { "{}={0}" } else { toks[i] }).collect();
        push(enm("T", at().fmt(&fm), vec![var("Aa", at(), vec![]), var("B", at().fmt(&vf), vec![f("", U8)]), var("C", at(), vec![])]), &['A', 'a', '{', '}']);
    }
    // three levels
    for f1 in ["{x}.{y}", "<{y}>{x}"] {
        for f2 in ["{p}-{q}", "{q}:{p}"] {
            for f3 in ["{0}/{1}", "[{1}]{0}"] {
                let a = inner(f1).ty();
                let b = strukt("Md", at().fmt(f2), vec![f("p", a.clone()), f("q", I16)]).ty();
                push(strukt("T", at().fmt(f3), vec![f("", b.clone()), f("", a.clone())]), &['1', '-', '.', '/']);
                push(
                    enm("T", at().style("lowercase"), vec![var("Foo", at(), vec![]), var("Bar", at().fmt(&format!("{{}} {f3}")), vec![f("", b.clone()), f("", a)]), var("Baz", at().fmt("b{0}"), vec![f("", b)])]),
                    &['1', 'b', '.', '/'],
                );
            }
        }
    }
    // enums
    for style in STYLES {
        let vs = vec![
            var("HelloWorld", at(), vec![]),
            var("r#Loop", at(), vec![]),
            var("abcDef", at().fmt("{}-{0}"), vec![f("", U8)]),
            var("Gh", at().fmt("{}.{a}.{b}"), vec![f("a", I16), f("b", Str)]),
            var("Ij", at().fmt("[{}]").style("snake_case"), vec![]),
        ];
        push(enm("T", at().style(style), vs.clone()), &['1', '-', '.', 'g']);
        push(strukt("O", at().fmt("{0}!{1}"), vec![f("", enm("T", at().style(style), vs).ty()), f("", U8)]), &['1', '!', '.', 'g']);
        push(enm("T", at().style(style).fmt("{}={0}"), vec![var("AaB", at(), vec![f("", U8)]), var("Cc", at(), vec![f("", U8)]), var("Dd", at().fmt("{}"), vec![f("", U8)]).tap_default()]), &['1', '=', 'c']);
    }
    out
}
trait Tap {
    fn tap_default(self) -> Self;
}
impl Tap for Var {
    /// fields that are not in the format have defaults
    fn tap_default(mut self) -> Self {
        for f in &mut self.body.fields {
            f.at.default = true;
        }
        self
    }
}

// ------------------------------------------------------------------------------------------ C07

fn c07(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    // the palette of variants; names are given by position
    let pal: Vec<Box<dyn Fn(&str) -> Var>> = vec![
        Box::new(|n| var(n, at().fmt("1"), vec![])),
        Box::new(|n| var(n, at().fmt("a"), vec![])),
        Box::new(|n| var(n, at().fmt("{0}"), vec![f("", U8)])),
        Box::new(|n| var(n, at().fmt("{0}"), vec![f("", Str)])),
        Box::new(|n| var(n, at().fmt("a{x}"), vec![f("x", U8)])),
        Box::new(|n| var(n, at().fmt("{0}{1}"), vec![f("", Char), f("", U8)])),
        Box::new(|n| var(n, at().rx("a*(?<0>[0-9]*)"), vec![f("", Str)])),
        Box::new(|n| var(n, at().rx("a|1"), vec![])),
        Box::new(|n| var(n, at().fmt("{0}").ignore(), vec![f("", Str)])),
        Box::new(|n| var(n, at().fmt("{0}").new_(New::Opt), vec![f("", U8)])),
        Box::new(|n| var(n, at().fmt("1").new_(New::Never), vec![])),
        Box::new(|n| var(n, at().fmt("a").new_(New::Plain), vec![])),
        Box::new(|n| var(n, at().fmt("{0}"), vec![f("", enm("In", at(), vec![var("X", at().fmt("a1"), vec![]), var("Y", at().fmt("a{0}"), vec![f("", U8)])]).ty())])),
        Box::new(|n| var(n, at().fmt("{0}"), vec![fa("", Opt(Box::new(U8)), at().opt().fmt("a{}"))])),
        Box::new(|n| var(n, at().fmt(""), vec![])),
        Box::new(|n| var(n, at().fmt("a1").ignore(), vec![])),
    ];
    let names = ["Aa", "Bb", "Cc", "Dd"];
    for s in seqs(pal.len(), 1, 3).into_iter().chain(if th { seqs(pal.len(), 4, 4) } else { vec![] }) {
        if !th && s.len() == 3 && (s[0] * 5 + s[1] * 3 + s[2]) % 2 == 1 {
            continue;
        }
        if s.len() == 4 && (s[0] + s[1] * 3 + s[2] * 5 + s[3] * 7) % 8 != 0 {
            continue;
        }
        let vars = s.iter().enumerate().map(|(i, &k)| pal[k](names[i])).collect();
        let mut c = parse(enm("T", at(), vars));
        c.auto = false;
        c.alpha = vec!['1', 'a', '2'];
        c.budget = if s.len() < 3 || th { 1100 } else { 125 };
        c.seeds = vec!["256".into()];
        c.edits = false;
        out.push(c);
    }
    // names against other formats; style collisions; all ignored; many variants
    for style in [None, Some("lowercase"), Some("snake_case")] {
        for t in [U8, Str] {
            for pos in 0..4 {
                let mut vars = vec![var("Ab", at(), vec![]), var("aB", at(), vec![]), var("A1", at(), vec![])];
                vars.insert(pos, var("X", at().fmt("{0}"), vec![f("", t.clone())]));
                let mut a = at();
                a.style = style;
                let mut c = parse(enm("T", a, vars));
                c.seeds = vec!["ab".into(), "a_b".into(), "Ab".into(), "A1".into(), "a1".into()];
                c.alpha = vec!['a', '1'];
                c.budget = 130;
                out.push(c);
            }
        }
    }
    for mask in 0..16usize {
        let vars = (0..4)
            .map(|i| {
                let a = [at(), at().fmt("{0}"), at().fmt("p{0}"), at().fmt("q")][i].clone();
                let fs = [vec![], vec![f("", U8)], vec![f("", Str)], vec![]][i].clone();
                var(["A", "B", "C", "D"][i], if mask >> i & 1 == 1 { a.ignore() } else { a }, fs)
            })
            .collect();
        let mut c = parse(enm("T", at(), vars));
        c.alpha = vec!['A', '1', 'p', 'q'];
        c.budget = 350;
        out.push(c);
    }
    // ignored variants that have other arguments, in one attribute and in several
    for mask in 1..16usize {
        for inner_ in ["X", "{0}"] {
            for lay in 0..4u8 {
                let mut a = at().layout(lay).ignore();
                if mask & 1 != 0 { a = a.rx(if inner_ == "X" { "a|1" } else { "a?(?<0>[0-9]*)" }); }
                if mask & 2 != 0 { a = a.fmt(inner_); }
                if mask & 4 != 0 { a.new = Some(New::Plain); }
                if mask & 8 != 0 { a.infer = true; a.style = Some("lowercase"); }
                let fs = if inner_ == "X" { vec![] } else { vec![f("", Str)] };
                for first in [true, false] {
                    let mut vars = vec![var("B", at().fmt("1"), vec![])];
                    vars.insert(if first { 0 } else { 1 }, var("A", a.clone(), fs.clone()));
                    let mut c = parse(enm("T", at(), vars));
                    c.alpha = vec!['a', '1', 'X'];
                    c.budget = 60;
                    out.push(c);
                }
            }
        }
    }
    for n in [11usize, 30] {
        for lit_last in [false, true] {
            let mut vars: Vec<Var> = (0..n).map(|i| var(&format!("V{i}"), if i % 3 == 0 { at().fmt(&format!("{i}")) } else { at().fmt(&format!("{i}{{0}}")) }, if i % 3 == 0 { vec![] } else { vec![f("", Str)] })).collect();
            if lit_last {
                vars.reverse();
            }
            let mut c = parse(enm("T", at(), vars));
            c.alpha = vec!['1', '2', '0', '9'];
            c.auto = false;
            c.budget = 90;
            c.edits = false;
            c.seeds = (0..n).map(|i| format!("{i}")).chain((0..n).map(|i| format!("{i}x"))).collect();
            out.push(c);
        }
    }
    // enum-level formats and regexes, and variants that have their own
    for er in [at().fmt("{}={0}"), at().fmt("{0}"), at().rx("(?<>)=(?<0>.*)"), at().rx("(?<0>[0-9]+)|(?<>)"), at().fmt("{}={0}").rx("(?<>)!(?<0>.*)")] {
        for vs in [vec![None, None, None], vec![None, Some("{0}"), None], vec![Some("x{0}"), None, Some("{}")], vec![Some("{}={0}"), Some("{0}"), None]] {
            let vars = vs
                .iter()
                .enumerate()
                .map(|(i, v)| {
                    let mut a = at();
                    a.fmt = v.map(|s: &str| s.into());
                    let mut fl = fa("", [U8, Str, U8][i].clone(), at());
                    fl.at.default = true;
                    var(["Aa", "B", "C"][i], a, vec![fl])
                })
                .collect::<Vec<_>>();
            let mut c = parse(enm("T", er.clone(), vars));
            c.auto = false;
            c.alpha = vec!['1', 'x', 'B', '='];
            c.seeds = vec!["Aa=1".into(), "B=x".into(), "C=7".into(), "Aa!1".into(), "C!1".into(), "C".into(), "Aa".into()];
            c.budget = 350;
            out.push(c);
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C08

fn c08(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let mut push = |p: Prog, alpha: &str, seeds: &[&str]| {
        let mut c = parse(p);
        c.auto = false;
        c.alpha = alpha.chars().collect();
        c.budget = if th { 20000 } else { 700 };
        c.seeds = seeds.iter().map(|s| s.to_string()).collect();
        c.do_rx = true;
        out.push(c);
    };
    let pats = [
        "[a-z]+", "x|xy", ".*", ".*?", "(?s:.+)", "[^,]*", "x{2,3}", r"\d+", "(?i:x)y", "(x)(y)?", "(?:x|y)+", "", r"[(?<]x?", r"\(x", "(?s).*x",
        "(?U)x+", r"\w+\b", "^x", "x$", "é+", "x{0,2}?", r"[\]\-x]+", "x*?y", "(?:x(?:y|1)*)?", "(?i)X",
    ];
    let tmpl = [
        "(?<@0>P)", "x(?<@0>P)1", "(?<@0>P),(?<@1>[0-9]+)", "(?<@1>[0-9]?)(?<@0>P)", "(?:(?<@0>P)|,)(?<@1>1)?", "(?P<@0>P)|!(?P<@1>1)",
        "(?i)x(?<@0>P)(?<@1>)", "(?x) (?<@0>P) \n 1 (?<@1> . ) ", "((?<@0>P)(?<@1>1))+?",
    ];
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (pi, p) in pats.iter().enumerate() {
            for (ti, t) in tmpl.iter().enumerate() {
                if !th && (pi + ti + form as usize) % 2 == 1 {
                    continue;
                }
                // anchors inside are fine, but a flag setting must stay inside its group
                let n = if t.contains("@1") { 2 } else { 1 };
                for ty in [Str, U8] {
                    if !th && ty == U8 && pi % 4 != 0 {
                        continue;
                    }
                    let rx = t.replace('P', "\0").replace("(?\0<", "(?P<").replace('\0', p).replace("@0", &ks[0]).replace("@1", &ks[1]);
                    let fs = vec![(ty.clone(), at()), (Str, at())];
                    push(form.prog(at().rx(&rx), &ABC, fs[..n].to_vec()), "x1y,", &["", "xX", "Xy1", "(x1", "é\n1", "!1", "x\n1", "xé,1"]);
                }
            }
        }
    }
    // names: dotted, numeric, P-style, lookalikes
    let plain = strukt("In", at(), vec![f("x", U8), f("y", Str), f("x_y", Str)]).plain().ty();
    let tplain = strukt("In", at(), vec![f("", U8), f("", Str)]).plain().ty();
    for form in FORMS {
        let ks = form.keys(&["a", "a_x"]);
        let (k, l) = (&ks[0], &ks[1]);
        for p in ["", "P"] {
            for (rx, base) in [
                (format!("(?{p}<{k}.x>[0-9]+)(?{p}<{l}>.*)"), &plain),
                (format!("(?{p}<{k}.x>[0-9]+)(?{p}<{k}.y>.*)(?{p}<{l}>x?)"), &plain),
                (format!("(?{p}<{k}.y>.?)(?{p}<{l}>y*)(?{p}<{k}.x>[0-9]+)"), &plain),
                (format!("(?{p}<{k}.x_y>x?)(?{p}<{l}>y*)(?{p}<{k}.x>[0-9]+)"), &plain),
                (format!("(?{p}<{k}.0>[0-9]+)-(?{p}<{l}>.*)"), &tplain),
                (format!("(?{p}<{k}.1>x*)(?{p}<{k}.0>[0-9]+)(?{p}<{l}>.*)"), &tplain),
            ] {
                push(form.prog(at().rx(&rx), &["a", "a_x"], vec![(base.clone(), at().default()), (Str, at())]), "x1y-", &["12xy", "256"]);
            }
        }
    }
    for ns in [["r#type", "b"], ["r#fn", "r#match"], ["value_1", "value_0"], ["empty", "self_"], ["_0", "_1"], ["_a", "a_"], ["A", "a"]] {
        for form in [SNamed, VNamed] {
            let ks = form.keys(&ns);
            push(form.prog(at().rx(&format!("(?<{}>x*)(?P<{}>[0-9]*)", ks[0], ks[1])), &ns, vec![(Str, at()), (Str, at())]), "x1", &[]);
            push(form.prog(at().rx(&format!("(?<{}>x*)(?P<{}>[0-9]*)", ks[1], ks[0])), &ns, vec![(Str, at()), (Str, at())]), "x1", &[]);
        }
    }
    // groups that never take part in a match
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for dead in ["{0}", "{0,0}", "{0}?"] {
            for t in ["(?<@0>x)D(?<@1>.*)", "(?<@1>x?)(?:1(?<@0>x*))D", "(?:(?<@0>x)|(?<@1>1))D.", "(?<@1>(?<@0>1)D.*)", "(?i)(?:x(?<@0>))D(?<@1>)x", "(?:(?P<@0>x)Dy)*(?P<@1>1?)", "(?:(?<@0>x)Dy)D(?P<@1>.)", "x{0}(?<@0>.)(?<@1>.)D"] {
                for (t0, opt) in [(Str, false), (U8, false), (Opt(Box::new(Str)), true), (Opt(Box::new(U8)), true)] {
                    for dflt in [false, true] {
                        let rx = t.replace("D", dead).replace("@0", &ks[0]).replace("@1", &ks[1]);
                        let mut a = at();
                        a.opt = opt;
                        a.default = dflt;
                        push(form.prog(at().rx(&rx), &ABC, vec![(t0.clone(), a), (Str, at())]), "x1yX", &[]);
                    }
                }
            }
        }
    }
    // escaped and group-like text
    for (rx, seeds) in [
        (r"\(?<0>(?<0>x)", &["(<0>x", "<0>x"][..]),
        (r"\\(?<0>x)", &["\\x", "x"]),
        (r"\\\(?<0>(?<0>x)", &["\\(<0>x", "\\<0>x", "\\x"]),
        (r"\\\\(?<0>x+)", &["\\\\x", "\\x"]),
        (r"\\\\\(?P<0>(?P<0>x+)", &["\\\\(P<0>x", "\\\\P<0>x"]),
        (r"[(?<0>]+(?<0>x)", &["(x", "<x", "?x", "0x", ">x", "x"]),
        (r"[\(?P<0>]+(?P<0>x)", &["(x", "Px"]),
        (r"[^(?<0>](?<0>x)", &["xx", "(x"]),
        (r"(?<0>[(?<0>]x)", &["(x", "xx", "0x"]),
        (r"(?<0>\(?<1>)", &["(<1>", "<1>"]),
        (r"(?<0>x)(?:\(?<nope>)?", &["x", "x(<nope>", "x<nope>"]),
        ("(?x)(?<0>x) # (?<1>", &["x", "xx"]),
        (r"\(\?<0>(?<0>x)", &["(?<0>x"]),
        (r"(?<0>x{1,2})\{(?<1>1)?\}", &["x{1}", "xx{}"]),
    ] {
        for form in [STuple, VTuple] {
            let n = if rx.contains(r"(?<1>1") { 2 } else { 1 };
            let fs = vec![(Str, at()), (Str, at())];
            push(form.prog(at().rx(rx), &ABC, fs[..n].to_vec()), "x(<0", seeds);
        }
    }
    // braces and other text that would matter in format! or in a regex when patterns are put together
    for rx in ["x{1}(?<0>y)", r"\{(?<0>x*)\}", r"[{}](?<0>x*)", "(?<0>[^{}]*)", r"#(?<0>x*) y"] {
        for form in [STuple, VTuple] {
            push(form.prog(at().rx(rx), &ABC, vec![(Str, at())]), "x{}y", &["#x y", "xy", "x1y"]);
        }
    }
    // the empty name
    for style in [None, Some("kebab-case"), Some("Title Case"), Some("snake_case")] {
        for rx in ["(?<>)", "x(?<>)y", "(?P<>)=(?<0>[0-9]+)", "(?i)(?<>)", "(?:(?<>)|x)(?<0>1)?", "(?<0>1?)(?<>anything)", "\\(?<>(?<>)"] {
            for own in [false, true] {
                let fs = if rx.contains("<0>") { vec![f("", Str)] } else { vec![] };
                let mut a = at();
                a.style = style;
                let mut va = at();
                if own {
                    va.rx = Some(rx.into());
                } else {
                    a.rx = Some(rx.into());
                }
                let vars = ["AbCd", "r#Xy", "x"].iter().map(|n| var(n, va.clone(), fs.clone())).collect();
                push(enm("T", a, vars), "x1yX", &["ab-cd", "AbCd", "abcd", "Ab Cd", "ab_cd", "xAbCdy", "xXyy", "xab_cdy", "AbCd=1", "ab-cd=12", "x=1", "ab_cd1", "1ab-cd", "(<>x", "<>x"]);
            }
        }
    }
    // a group at every place of a regex: alternatives, sequences, groups and repetitions, two deep
    let mut ctx: Vec<String> = vec![];
    for n in 2..=(if th { 5 } else { 4 }) {
        for hole in 0..n {
            let w = |sep: &str| (0..n).map(|i| if i == hole { "@".to_string() } else { "xy,z"[i.min(3)..=i.min(3)].to_string() }).collect::<Vec<_>>().join(sep);
            ctx.push(format!("(?:{})", w("|")));
            if n != 4 {
                ctx.push(w(""));
            }
        }
    }
    ctx.extend(["(@)", "(?i:@)", "(?:@)?", "(?:@)*", "(?:@){1,2}", "(?:@)+?"].map(String::from));
    let mut regs: Vec<String> = ctx.iter().map(|c| c.replace("(?:@|", "@|").replace("@)", "@)")).collect();
    for c in &ctx {
        for d in &ctx {
            regs.push(c.replace('@', d));
        }
    }
    for (i, rx) in regs.iter().enumerate() {
        if rx.matches('(').count() != rx.matches(')').count() {
            continue;
        }
        for kind in 0..4 {
            if !th && (i + kind) % 4 != 0 && i >= ctx.len() {
                continue;
            }
            let (seeds, al): (&[&str], _) = (&["x1", "1x", "xy1", "xy,1", "xAb", "Abx", "AbAb", "11", "xyAb", "ab", "xy,Ab", "xyz1", "1y,z", "Aby,z"], "xy1,");
            match kind {
                0 => push(enm("T", at(), vec![var("Ab", at().rx(&rx.replace('@', "(?<>)")), vec![]), var("B", at(), vec![])]), al, seeds),
                1 => push(STuple.prog(at().rx(&rx.replace('@', "(?<0>[0-9]?)")), &ABC, vec![(Str, at())]), al, seeds),
                2 => push(SNamed.prog(at().fmt("{a}"), &ABC, vec![(Str, at().rx(&rx.replace('@', "(?P<>1)")))]), al, seeds),
                _ => push(enm("T", at().rx(&rx.replace('@', "(?<>)(?<0>1?)")), vec![var("Ab", at(), vec![f("", Str)]), var("X", at(), vec![f("", Str)])]), al, seeds),
            }
        }
    }
    // the parts a regex is made of, next to a group
    let leaves = [
        ("^", ""), ("$", ""), (r"\A", ""), (r"\z", ""), (r"\b", "_"), (r"\B", "_"), ("(?m)^", "\n"), ("(?m:$)", "\n"), ("(?m:^|1)", "\n"), ("[^x]", "\n"), ("[^x-z]", "é"), ("[x-z1]", "z"), (r"\d", ""), (r"\D", "é"),
        (r"\w", "é_"), (r"\W", "é_"), (r"\s", " \n"), (r"\S", " "), ("[[:digit:]x]", ""), ("[[:^alpha:]]", "A"), (r"[\D--y]", ""), ("[x-z&&[^y]]", "z"), ("[w-y~~x-z]", "wz"), (r"\x41", "A"), (r"\u{e9}", "é"), (r"\u00E9+", "é"),
        (r"\x{1F600}", "😀"), (r"[\x41\n]", "A\n"), (r"\.", "."), (r"\-", "-"), (r"\\", "\\"), (r"\[", "["), (r"\^\$", "^$"), (r"\{\}", "{}"), (r"[{}]", "{}"), (r"\|", "|"), (r"\*\+\?", "*+?"), (r"\(\)", "()"), (r"\#", "#"), ("#", "#"),
        (" ", " "), ("\"", "\""), ("'", "'"), ("/", "/"), ("&", "&"), ("~", "~"), ("<>", "<>"), ("-", "-"), ("]", "]"), ("}", "}"), ("\n", "\n"), ("\t", "\t"), ("é", "é"), ("日本", "日本"), ("e\u{301}", "e\u{301}"), (".", "\n"), ("(?s:.)", "\n"),
        ("(?s)", "\n"), ("(?i)", "X"), ("(?-i)", "X"), ("(?i:x|é)", "XÉé"), ("(?U)", ""), ("(?U:x*)", ""), ("(?x) # c\n", ""), ("(?x: x y )", ""), ("(?is)x", "X"), ("(?i-s:x.)", "X"), (r"\p{Lu}", "Éé"), (r"\pL", "Éé"), (r"\P{L}", "É"),
        (r"[\p{Lu}x]", "É"), ("x{2}", ""), ("x{1,}", ""), ("x{0}", ""), ("x{0,1}", ""), ("x{1,2}?", ""), ("(?:x{2}){2}", ""), ("(?:x?){2}", ""), ("(?:x*)?", ""), ("(?:x+?)?", ""), ("(?:x+)??", ""), ("(?:x??)*", ""), ("(?:)", ""), ("()", ""), ("(?:|x)", ""),
        ("(?:x|)", ""), ("(?:x||y)", ""), ("(x|(y|1)?)", ""), ("xy|x", ""), ("[x]", ""), ("[^\\n]", "\n"), (r"[\^x]", "^"), (r"[x\-y]", "-"), ("[-x]", "-"), ("[x-]", "-"), ("[]x]", "]"), (r"[\\]", "\\"), (r"\\n", "\\n"),
    ];
    let lctx = ["L@", "@L", "@|L", "L|@", "(?:L)?@", "(?:L)*@", "(?:@L)+", "x(?:L@|y)", "(L@)?", "@(?:L){2}", "(?:L)@(?:L)", "(?i:L@)y"];
    for (li, (l, al)) in leaves.iter().enumerate() {
        for (ci, c) in lctx.iter().enumerate() {
            if c.contains("(?i:") && ["--", "&&", "~~"].iter().any(|o| l.contains(o)) {
                continue;
            }
            let rx = c.replace('L', l);
            let al = format!("x1y{al}");
            for kind in 0..5 {
                if !th && (li + ci + kind) % 3 != 0 {
                    continue;
                }
                let put = |g: &str| rx.replace('@', g);
                let seeds: &[&str] = &["Ab", "AbX", "1x", "xAb", "abx", "\nAb", "Ab\n", "Ab\n1", "AbAb", "xxAb", "x1"];
                match kind {
                    0 => push(enm("T", at(), vec![var("Ab", at().rx(&put("(?<>)")), vec![]), var("B", at(), vec![])]), &al, seeds),
                    1 => push(STuple.prog(at().rx(&put("(?<0>[0-9]?)")), &ABC, vec![(Str, at())]), &al, seeds),
                    2 => push(SNamed.prog(at().fmt("{a}"), &ABC, vec![(Str, at().rx(&put("(?P<>1)")))]), &al, seeds),
                    3 => push(SNamed.prog(at().fmt("<{a}>{b}"), &ABC[..2], vec![(Str, at().rx(&put("(?:1y?)"))), (Str, at())]), &format!("{al}<>"), &["<1>", "<>", "<x1>", "<1x>y", "<x1x>\n", "<\n1>"]),
                    _ => push(STuple.prog(at().fmt("{0}"), &ABC, vec![(Opt(Box::new(Str)), at().opt().rx(&put("(?<>1)")))]), &al, seeds),
                }
            }
        }
    }
    // precedence: regex of the variant, format of the variant, regex of the enum, format of the enum
    for mask in 0..16usize {
        let mut ea = at();
        let mut va = at();
        if mask & 1 != 0 {
            ea.fmt = Some("ef{0}".into());
        }
        if mask & 2 != 0 {
            ea.rx = Some("er(?<0>.*)".into());
        }
        if mask & 4 != 0 {
            va.fmt = Some("vf{0}".into());
        }
        if mask & 8 != 0 {
            va.rx = Some("vr(?<0>.*)".into());
        }
        if mask & 3 == 0 {
            continue;
        }
        for lay in 0..4 {
            let vars = vec![var("A", va.clone().layout(lay), vec![f("", Str)]), var("B", at(), vec![f("", Str)])];
            push(enm("T", ea.clone().layout(lay), vars), "efrv", &["ef1", "er1", "vf1", "vr1"]);
        }
    }
    for lay in 0..4 {
        for form in FORMS {
            let ks = form.keys(&ABC[..1]);
            push(form.prog(at().fmt(&format!("f{{{}}}", ks[0])).rx(&format!("r(?<{}>.*)", ks[0])).layout(lay), &ABC, vec![(Str, at())]), "frx", &[]);
        }
    }
    // regexes of fields
    let fpats = ["[a-z]+", "x|xy", ".*", "x.y", "[0-9]{1,2}", "(?i)x", "(x)|y", r"\(?<a>x?", "[(?<a>]*", "", "(?:x|1)*?", "^x", "(?s).", "x*"];
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for (pi, p) in fpats.iter().enumerate() {
            for (fi, fm) in [None, Some("{}"), Some("<{}>"), Some("x{}"), Some("{{{}.")].iter().enumerate() {
                for (oi, outer) in ["@0", "@0@1", "@1-@0", "y@0y"].iter().enumerate() {
                    if !th && (pi + fi + oi + form as usize) % 2 == 1 {
                        continue;
                    }
                    let n = if outer.contains("@1") { 2 } else { 1 };
                    let o = outer.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]));
                    let mut a = at().rx(p);
                    a.fmt = fm.map(|s| s.into());
                    let fs = vec![(Str, a.clone()), (Str, at())];
                    push(form.prog(at().fmt(&o), &ABC, fs[..n].to_vec()), "x1y<", &["{x.", "<x>", "<(>", "x\ny", "xX", "X"]);
                    if matches!(form, SNamed | STuple) && n == 1 && oi == 0 {
                        push(form.prog(at(), &ABC, vec![(Str, a)]), "x1y<", &["{x.", "<x>", "x\ny"]);
                    }
                }
            }
        }
        // groups: the empty name is the field, names are sub-fields; a format is not used then
        for (rx, t, d) in [
            ("x(?<>[0-9]*)y?", Str, false),
            ("(?P<>x*)1", Str, false),
            ("(?<>[0-9]+)|x", Str, false),
            ("(?<x>[0-9]+)(?<y>.*)", plain.clone(), true),
            ("(?<y>x*)(?P<x>[0-9]+)", plain.clone(), true),
            ("(?<1>x*)(?<0>[0-9]+)", tplain.clone(), true),
            ("(?<>[^;]*);(?<x>[0-9]+)", inner("{x}|{y}").ty(), false),
        ] {
            for fm in [None, Some("<{}>")] {
                for outer in ["@0", "-@0,@1"] {
                    let n = if outer.contains("@1") { 2 } else { 1 };
                    let o = outer.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]));
                    let mut a = at().rx(rx);
                    a.fmt = fm.map(|s: &str| s.into());
                    a.default = d;
                    let fs = vec![(t.clone(), a), (Str, at())];
                    push(form.prog(at().fmt(&o), &ABC, fs[..n].to_vec()), "x1y-", &["1|a;3", "-1,x", "-x1,", "<x1>"]);
                }
            }
        }
        // a format of sub-fields and a regex without names, which is used for the whole field only
        for (t, subs) in [(plain.clone(), ["x", "y"]), (tplain.clone(), ["0", "1"])] {
            for rx in ["[0-9]+", "x", "1?", ".*"] {
                for fm in ["{X}", "{Y}", "<{X}", "{Y}-{X}", "-", "{X}{{}}"] {
                    for outer in ["@0", "@1-@0"] {
                        let n = if outer.contains("@1") { 2 } else { 1 };
                        let o = outer.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]));
                        let a = at().rx(rx).default().fmt(&fm.replace('X', subs[0]).replace('Y', subs[1]));
                        let fs = vec![(t.clone(), a), (Str, at())];
                        push(form.prog(at().fmt(&o), &ABC, fs[..n].to_vec()), "x1<-", &["1{}", "x-x-12", "y\n-1"]);
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C10

/// A value that differs from `v` in every part.
fn other(v: &V) -> V {
    match v {
        V::I(n) => V::I(n + 7),
        V::S(s) => V::S(format!("{s}z")),
        V::R(vs) => V::R(vs.iter().map(other).collect()),
        v => v.clone(),
    }
}
fn c10(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let mut push = |p: Prog| {
        let mut c = parse(p);
        c.auto = true;
        c.alpha = vec!['1', 'a', '-'];
        c.budget = if th { 2000 } else { 60 };
        c.seeds = vec!["1".into(), "1-2".into(), "7-x-9".into(), "x-7".into(), "7".into(), "x".into()];
        out.push(c);
    };
    let tys = [U8, Str, U8];
    let defs = [V::I(41), V::S("dd".into()), V::I(43)];
    for form in [SNamed, STuple] {
        let ks = form.keys(&["b", "a", "c"]);
        let names = ["b", "a", "c"];
        for n in 1..=3usize {
            // which fields are in the format, in every order
            for s in seqs(n, 0, n) {
                if (0..n).any(|i| s.iter().filter(|&&x| x == i).count() > 1) {
                    continue;
                }
                let fm = s.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join("-");
                let fm = if fm.is_empty() { "e".to_string() } else { fm };
                // struct default present or not; each field: no default / attribute / in default_fields
                for sd in [false, true] {
                    for fd in seqs(3, n, n) {
                        if (0..n).any(|i| !s.contains(&i) && !sd && fd[i] == 0) {
                            continue;
                        }
                        if !th && n == 3 && s.len() > 1 && (fd[0] + fd[1] * 2 + fd[2] + s[0]) % 3 != 0 {
                            continue;
                        }
                        let mut a = at().fmt(&fm);
                        a.default = sd;
                        a.default_fields = (0..n).filter(|&i| fd[i] == 2).map(|i| ks[i].clone()).collect();
                        a.layout = ((s.len() + fd.iter().sum::<usize>()) % 4) as u8;
                        let fs = (0..n)
                            .map(|i| {
                                let mut x = at();
                                x.default = fd[i] == 1;
                                (tys[i].clone(), x)
                            })
                            .collect();
                        let p = form.prog(a, &names, fs).def(Def::Custom(V::R(defs[..n].to_vec())));
                        push(p);
                    }
                }
            }
        }
    }
    // the variant form: defaults on fields and default_fields on variant and enum
    for form in [VNamed, VTuple] {
        let ks = form.keys(&["b", "a", "c"]);
        for s in seqs(3, 0, 2) {
            if s.len() == 2 && s[0] == s[1] {
                continue;
            }
            let fm = s.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join("-");
            let fm = if fm.is_empty() { "e".to_string() } else { fm };
            for fd in seqs(2, 3, 3) {
                let mut a = at().fmt(&fm);
                a.default_fields = (0..3).filter(|&i| fd[i] == 1 && !s.contains(&i)).map(|i| ks[i].clone()).collect();
                a.layout = ((s.len() + fd[0] + fd[1] * 2) % 4) as u8;
                let fs = (0..3)
                    .map(|i| {
                        let mut x = at();
                        x.default = fd[i] == 0;
                        (tys[i].clone(), x)
                    })
                    .collect();
                let p = form.prog(a.clone(), &["b", "a", "c"], fs);
                push(p.clone());
                // the same list on the enum, which then holds for each of its variants
                if let Kind::E(mut vs) = p.kind {
                    let mut ea = at();
                    ea.default_fields = std::mem::take(&mut vs[0].at.default_fields);
                    vs.pop();
                    let mut v2 = vs[0].clone();
                    v2.name = "V2".into();
                    v2.at.fmt = Some(format!("2{fm}"));
                    vs.push(v2);
                    push(enm("T", ea, vs));
                }
            }
        }
    }
    // each field: an attribute of its own, the variant's list, the enum's, or both lists
    for form in [VNamed, VTuple] {
        let names = ["b", "a", "c"];
        let ks = form.keys(&names);
        for s in seqs(3, 0, if th { 2 } else { 1 }) {
            if s.len() == 2 && s[0] == s[1] {
                continue;
            }
            let fm = s.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join("-");
            for fd in seqs(4, 3, 3) {
                if !fd.contains(&2) && !fd.contains(&3) {
                    continue;
                }
                let list = |x: usize| -> Vec<String> { (0..3).filter(|&i| fd[i] == x || fd[i] == 3).map(|i| ks[i].clone()).collect() };
                let fs = (0..3)
                    .map(|i| {
                        let mut x = at();
                        x.default = fd[i] == 0;
                        (tys[i].clone(), x)
                    })
                    .collect();
                let mut a = at().fmt(&format!("1{fm}"));
                a.default_fields = list(1);
                let p = form.prog(a, &names, fs);
                if let Kind::E(mut vs) = p.kind {
                    let mut ea = at();
                    ea.default_fields = list(2);
                    vs.pop();
                    let mut v2 = vs[0].clone();
                    v2.name = "V2".into();
                    v2.at.fmt = Some(format!("2{fm}"));
                    vs.push(v2);
                    push(enm("T", ea, vs));
                }
            }
        }
    }
    // nested placeholders: only the sub-field changes
    let cust = V::R(vec![V::I(51), V::S("yy".into())]);
    for nd in [Def::Derive, Def::Custom(cust)] {
        let named = strukt("In", at(), vec![f("x", U8), f("y", Str)]).plain().def(nd.clone()).ty();
        let tup = strukt("In", at(), vec![f("", U8), f("", Str)]).plain().def(nd.clone()).ty();
        let deep = strukt("De", at(), vec![f("p", named.clone()), f("q", U8)]).plain().ty();
        let deepc = strukt("De", at(), vec![f("p", named.clone()), f("q", U8)])
            .plain()
            .def(Def::Custom(V::R(vec![V::R(vec![V::I(61), V::S("pp".into())]), V::I(62)])))
            .ty();
        for (t, paths) in [
            (named, vec![vec!["x"], vec!["y"], vec!["x", "y"], vec!["y", "x"]]),
            (tup, vec![vec!["0"], vec!["1"], vec!["1", "0"]]),
            (deep, vec![vec!["q"], vec!["p.x"], vec!["p.y", "q"], vec!["p.y", "p.x"]]),
            (deepc, vec![vec!["q"], vec!["p.x"], vec!["p.y", "q"], vec!["p.y", "p.x"]]),
        ] {
            for form in FORMS {
                let ks = form.keys(&ABC[..2]);
                for ps in &paths {
                    for sd in [false, true] {
                        for fd in [false, true] {
                            if !sd && !fd || (sd && !matches!(form, SNamed | STuple)) {
                                continue;
                            }
                            for extra in [false, true] {
                                let mut fm: Vec<String> = ps.iter().map(|p| format!("{{{}.{p}}}", ks[0])).collect();
                                if extra {
                                    fm.push(ph(&ks[1]));
                                }
                                for in_field in [false, true] {
                                    // the placeholders in the struct's format, or in the field's own format
                                    let (top, own) = if in_field {
                                        let own = ps.iter().map(|p| ph(p)).collect::<Vec<_>>().join("-");
                                        (if extra { format!("{{{}}}-{{{}}}", ks[0], ks[1]) } else { ph(&ks[0]) }, Some(own))
                                    } else {
                                        (fm.join("-"), None)
                                    };
                                    let mut a = at().fmt(&top);
                                    a.default = sd;
                                    let mut x = at();
                                    x.default = fd;
                                    x.fmt = own;
                                    let mut y = at();
                                    y.default = !extra && !sd;
                                    let mut p = form.prog(a, &ABC, vec![(t.clone(), x), (U8, y)]);
                                    if sd {
                                        p = p.def(Def::Custom(V::R(vec![other(&dflt(&t)), V::I(42)])));
                                    }
                                    push(p);
                                }
                            }
                        }
                    }
                }
            }
        }
        // deeper ones
        for n in 3..=5 {
            for tuple in [false, true] {
                let (t, paths) = chain(n, tuple, false, true);
                for form in FORMS {
                    let ks = form.keys(&ABC[..1]);
                    for (i, j) in [(0, 1), (1, 2), (2, 0)] {
                        for sd in [false, true] {
                            if sd && !matches!(form, SNamed | STuple) {
                                continue;
                            }
                            let mut a = at().fmt(&format!("{{{0}.{1}}}/{{{0}.{2}}}", ks[0], paths[i], paths[j]));
                            a.default = sd;
                            let mut x = at();
                            x.default = !sd;
                            let mut p = form.prog(a, &ABC, vec![(t.clone(), x)]);
                            if sd {
                                p = p.def(Def::Custom(V::R(vec![other(&dflt(&t))])));
                            }
                            push(p);
                        }
                    }
                }
            }
        }
        // a field captured whole and in part
        let disp = strukt("In", at().fmt("{x}|{y}"), vec![f("x", U8), f("y", Str)]).def(nd.clone()).ty();
        for form in FORMS {
            let ks = form.keys(&ABC[..1]);
            for fm in ["{@}/{@.x}", "{@.y}/{@}", "{@.y}/{@}/{@.x}"] {
                for sd in [false, true] {
                    for fd in [false, true] {
                        if sd && !matches!(form, SNamed | STuple) {
                            continue;
                        }
                        let mut a = at().fmt(&fm.replace('@', &ks[0]));
                        a.default = sd;
                        let mut x = at();
                        x.default = fd;
                        let mut p = form.prog(a, &ABC, vec![(disp.clone(), x)]);
                        if sd {
                            p = p.def(Def::Custom(V::R(vec![other(&dflt(&disp))])));
                        }
                        push(p);
                    }
                }
            }
        }
    }
    // Option fields and optional fields keep or take defaults
    for form in [SNamed, STuple] {
        let ks = form.keys(&ABC[..2]);
        for sd in [false, true] {
            for fd in [false, true] {
                if !sd && !fd {
                    continue;
                }
                let mut a = at().fmt(&ph(&ks[1]));
                a.default = sd;
                let mut x = at().opt();
                x.default = fd;
                let p = form.prog(a.clone(), &ABC, vec![(Opt(Box::new(U8)), x.clone()), (Str, at())]);
                push(p.def(Def::Custom(V::R(vec![V::Some(Box::new(V::I(9))), V::S("dd".into())]))));
                let mut a2 = a;
                a2.fmt = Some(format!("{{{}}}-{{{}}}", ks[0], ks[1]));
                let p = form.prog(a2, &ABC, vec![(Opt(Box::new(U8)), x), (Str, at())]);
                push(p.def(Def::Custom(V::R(vec![V::Some(Box::new(V::I(9))), V::S("dd".into())]))));
            }
        }
    }
    // many fields, a regex, an empty struct
    for form in [SNamed, STuple] {
        for n in [5usize, 11, 12] {
            let owned: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let names: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
            let ks = form.keys(&names);
            for pick in [0, 1, n - 1, n / 2] {
                for rx in [false, true] {
                    let a = if rx { at().rx(&format!("(?<{}>[0-9]+)", ks[pick])) } else { at().fmt(&ph(&ks[pick])) };
                    let p = form.prog(a.default(), &names, (0..n).map(|_| (U8, at())).collect());
                    push(p.def(Def::Custom(V::R((0..n).map(|i| V::I(i as i64 + 100)).collect()))));
                }
            }
        }
    }
    for ns in NAMES {
        for i in 0..3 {
            push(SNamed.prog(at().fmt(&ph(unraw(ns[i]))).default(), &ns, vec![(U8, at()), (U8, at()), (U8, at())]).def(Def::Custom(V::R(vec![V::I(71), V::I(72), V::I(73)]))));
            let mut a = at().fmt(&ph(unraw(ns[i])));
            a.default_fields = (0..3).filter(|&j| j != i).map(|j| ns[j].to_string()).collect();
            push(SNamed.prog(a, &ns, vec![(U8, at()), (U8, at()), (U8, at())]));
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C11

fn c11(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let mut push = |p: Prog, seeds: &[String]| {
        let mut c = parse(p);
        c.alpha = vec!['1', '2', 'b', '-'];
        c.auto = false;
        c.budget = if th { 2000 } else { 90 };
        c.seeds = seeds.to_vec();
        c.do_msg = true;
        out.push(c);
    };
    let news = [New::Plain, New::Opt, New::Res, New::Never];
    for n in news {
        for form in FORMS {
            for k in 0..=3usize {
                for ns in NAMES {
                    if !form.named() && ns[0] != "a" {
                        continue;
                    }
                    let ks = form.keys(&ns[..k]);
                    for p in perms(k) {
                        if !th && k == 3 && ns[0] != "a" && p[0] > p[1] {
                            continue;
                        }
                        for tys in [[U8, Str, U8], [Str, U8, Char]] {
                            let fm = if k == 0 { "1".to_string() } else { p.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join("-") };
                            let seeds: Vec<String> = if k == 0 { vec![] } else { vec![vec!["7"; k].join("-"), vec!["2"; k].join("-"), vec!["b"; k].join("-")] };
                            let prog = form.prog(at().fmt(&fm).new_(n), &ns, tys[..k].iter().map(|t| (t.clone(), at())).collect());
                            let seeds: Vec<String> = seeds.iter().flat_map(|s| [s.clone(), s.replacen('7', "2", 1), s.replacen('2', "b", 1), s.replacen('7', "x", 1)]).collect();
                            push(prog, &seeds);
                        }
                    }
                }
            }
            // many fields
            for k in [10usize, 11, 12] {
                let owned: Vec<String> = (0..k).map(|i| format!("f{i}")).collect();
                let names: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
                let ks = form.keys(&names);
                let fm = ks.iter().map(|k| ph(k)).collect::<Vec<_>>().join("-");
                let seeds = vec![(0..k).map(|i| (i + 20).to_string()).collect::<Vec<_>>().join("-"), vec!["2"; k].join("-")];
                push(form.prog(at().fmt(&fm).new_(n), &names, (0..k).map(|_| (U8, at())).collect()), &seeds);
            }
            // with other features: defaults, opt, regexes, custom formats, nested placeholders
            let ks = form.keys(&ABC[..2]);
            let o = format!("{{{}}}-{{{}}}", ks[0], ks[1]);
            let seeds: Vec<String> = ["7-1", "-1", "<7>-1", "2-1", "<2>-2", "[7]-1", "b-1", "7-", "2-"].iter().map(|s| s.to_string()).collect();
            for (t, a) in [
                (U8, at().with(W::Ang)),
                (U8, at().with(W::Brk)),
                (Opt(Box::new(U8)), at().opt()),
                (Opt(Box::new(U8)), at().opt().fmt("<{}>")),
                (U8, at().rx("[27]")),
                (Str, at().infer()),
            ] {
                push(form.prog(at().fmt(&o).new_(n), &ABC, vec![(t.clone(), a.clone()), (U8, at())]), &seeds);
                push(form.prog(at().fmt(&o).new_(n), &ABC, vec![(U8, at()), (t.clone(), a)]), &seeds);
            }
            push(form.prog(at().fmt(&ph(&ks[1])).new_(n), &ABC, vec![(U8, at().default()), (U8, at())]), &seeds);
            push(form.prog(at().fmt(&ph(&ks[0])).new_(n), &ABC, vec![(U8, at()), (Str, at().default())]), &seeds);
            push(form.prog(at().rx(&format!("(?<{}>.*)-(?<{}>[0-9]*)", ks[1], ks[0])).new_(n), &ABC, vec![(U8, at()), (Str, at())]), &seeds);
            let plain = strukt("In", at(), vec![f("x", U8), f("y", Str)]).plain().ty();
            push(form.prog(at().fmt(&format!("{{{}.x}}-{{{}}}", ks[0], ks[1])).new_(n), &ABC, vec![(plain.clone(), at().default()), (U8, at())]), &seeds);
            // `new` together with a default of the struct: the expression decides
            if matches!(form, SNamed | STuple) {
                push(form.prog(at().fmt(&o).new_(n).default(), &ABC, vec![(U8, at()), (U8, at())]).def(Def::Custom(V::R(vec![V::I(5), V::I(6)]))), &seeds);
                push(form.prog(at().new_(n), &ABC, vec![(U8, at())]), &seeds);
            }
        }
    }
    // several variants with new
    for n1 in news {
        for n2 in news {
            for lits in 0..4usize {
                let v = |name: &str, n, lit: bool| if lit { var(name, at().fmt("2").new_(n), vec![]) } else { var(name, at().fmt("{0}").new_(n), vec![f("", U8)]) };
                push(enm("T", at(), vec![v("A", n1, lits & 1 != 0), v("B", n2, lits & 2 != 0), var("C", at().fmt("{x}"), vec![f("x", Str)])]), &[]);
                push(enm("T", at(), vec![var("C", at().fmt("{x}"), vec![f("x", Char)]), v("A", n1, lits & 1 != 0), v("B", n2, lits & 2 != 0)]), &[]);
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C12

fn c12(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let en = || enm("In", at(), vec![var("A", at(), vec![]), var("B", at().fmt("a{0}"), vec![f("", U8)])]).ty();
    let mut fields: Vec<(Ty, Attrs)> = vec![];
    for t in [U8, Str, Char] {
        for fm in [None, Some("{}"), Some("<{}>"), Some("a{}"), Some("{}{{"), Some(".{}*")] {
            for k in 0..3 {
                let mut a = at().opt();
                a.fmt = fm.map(|s: &str| s.into());
                match k {
                    1 => a.rx = Some("[0-9a]+".into()),
                    2 => a.infer = true,
                    _ => {}
                }
                fields.push((t.clone(), a));
            }
        }
        fields.push((t.clone(), at().opt().rx("<(?<>[^>]*)>")));
    }
    for w in [W::Ang, W::Brk, W::Inc, W::IncAny] {
        for fm in [None, Some("={}")] {
            let mut a = at().opt().with(w);
            a.fmt = fm.map(|s: &str| s.into());
            fields.push((U8, a.clone()));
            a.dwith = None;
            a.fwith = Some(w);
            fields.push((U8, a));
        }
    }
    for fm in [None, Some("<{}>"), Some("{}")] {
        for infer in [false, true] {
            for t in [inner("{x}|{y}").ty(), en()] {
                let mut a = at().opt();
                a.fmt = fm.map(|s: &str| s.into());
                a.infer = infer;
                fields.push((t, a));
            }
        }
    }
    let outers = ["@0", "@0@1", "@1@0", "(@0)", "@1-@0", "a@0,@1", "@0@2"];
    for form in FORMS {
        let ks = form.keys(&ABC[..3]);
        for (fi, (t, a)) in fields.iter().enumerate() {
            for (oi, o) in outers.iter().enumerate() {
                if !th && oi > 1 && (fi + oi + form as usize) % 2 == 1 {
                    continue;
                }
                let mut a = a.clone();
                a.spell = ((fi + oi + form as usize) % 6) as u8;
                let mut fs = vec![(Opt(Box::new(t.clone())), a)];
                // @1 a text, @2 another optional field
                if o.contains("@1") {
                    fs.push((Str, at()));
                }
                let mut o = o.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]));
                if o.contains("@2") {
                    fs.push((Opt(Box::new(U8)), at().opt().fmt(":{}")));
                    o = o.replace("@2", &ph(&ks[1]));
                }
                let mut c = Case::new(form.prog(at().fmt(&o), &ABC, fs));
                c.do_parse = true;
                c.do_disp = true;
                c.do_rx = true;
                c.auto = true;
                c.alpha = vec!['1', 'a'];
                c.budget = if th { 2000 } else { 130 };
                c.edits = th || fi % 3 == 0;
                c.dom = Dom { u8: vec![1, 2, 30], i16: vec![-1], s: vec!["", "a"], c: vec!['a', '1'] };
                out.push(c);
            }
            if matches!(form, SNamed | STuple) {
                let mut c = Case::new(form.prog(at(), &ABC, vec![(Opt(Box::new(t.clone())), a.clone())]));
                c.do_parse = true;
                c.do_disp = true;
                c.do_rx = true;
                c.alpha = vec!['1', 'a'];
                c.budget = 130;
                out.push(c);
            }
        }
        // what None leaves out is decided for each field alone
        for s in seqs(2, 3, 3) {
            let fs = s.iter().enumerate().map(|(i, &o)| if o == 1 { (Opt(Box::new(U8)), at().opt().fmt([":{}", "+{}", "{}"][i])) } else { ([U8, Char, Str][i].clone(), at()) }).collect();
            for sep in ["", "-"] {
                let fm = ks.iter().map(|k| ph(k)).collect::<Vec<_>>().join(sep);
                let mut c = Case::new(form.prog(at().fmt(&fm), &ABC, if s.contains(&1) { clone_fs(&fs) } else { continue }));
                c.do_parse = true;
                c.do_disp = true;
                c.do_rx = true;
                c.alpha = vec!['1', ':'];
                c.budget = 350;
                out.push(c);
            }
        }
        // the sub-field of an optional value, for Display
        for fm in ["{x}", "{y}-{x}", "<{x}>{}"] {
            let mut c = disp(form.prog(at().fmt(&format!("[{}]", ph(&ks[0]))), &ABC, vec![(Opt(Box::new(inner("{x}|{y}").ty())), at().opt().fmt(fm))]));
            c.do_disp = true;
            out.push(c);
        }
        // an Option that is not `opt` but has its own format
        let mut c = disp(form.prog(at().fmt(&ph(&ks[1])), &ABC, vec![(Opt(Box::new(U8)), at()), (U8, at())]));
        c.do_disp = true;
        out.push(c);
    }
    out
}
fn clone_fs(v: &Vec<(Ty, Attrs)>) -> Vec<(Ty, Attrs)> {
    v.clone()
}

// ------------------------------------------------------------------------------------------ C13

fn c13(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    let ws = [None, Some(W::Ang), Some(W::Brk), Some(W::Inc)];
    let mut push = |p: Prog, n: usize| {
        let mut c = Case::new(p);
        c.do_parse = true;
        c.do_disp = true;
        c.do_rx = true;
        c.auto = false;
        // n = 0: for the pattern of Alt, n = 1: for those of Pat
        c.alpha = if n == 1 {
            vec!['a', '1', 'x', '\n', 'A']
        } else if n == 0 { vec!['a', 'b', 'c', '<', 'x', ' ', 'A'] } else { vec!['1', '<', '>', '[', ']', '-'][..n].to_vec() };
        c.budget = if th { 3000 } else if n == 0 { 800 } else { 60 };
        c.seeds = ["1", "<1>", "[1]", "(1)", "(<1>)", "([1])", "(30)", "<30>-2", "[30]-2", "30-2", "[[1]]", "<>", "0", "a"].iter().map(|s| s.to_string()).collect();
        c.edits = th;
        c.dom = Dom { u8: vec![1, 2, 30], i16: vec![-1], s: vec!["", "a"], c: vec!['a'] };
        out.push(c);
    };
    for form in FORMS {
        let ks = form.keys(&ABC[..2]);
        for dw in ws {
            for fw in ws {
                for rx in [None, Some("[0-9]"), Some("<(?<>.*)>")] {
                    for fm in [None, Some("({})")] {
                        for infer in 0..3 {
                            for opt in [false, true] {
                                for lay in 0..4u8 {
                                    if dw.is_none() && fw.is_none() {
                                        continue;
                                    }
                                    let interesting = dw.is_some() as u8 + fw.is_some() as u8 + rx.is_some() as u8 + (infer > 0) as u8;
                                    if !th && interesting < 2 && lay > 0 {
                                        continue;
                                    }
                                    if !th && lay > 0 && (lay as usize + infer + opt as usize + form as usize + fm.is_some() as usize) % 3 != 0 {
                                        continue;
                                    }
                                    // a regex with a group over a custom format: the group's text goes to the format
                                    let mut a = at().layout(lay);
                                    a.dwith = dw;
                                    a.fwith = fw;
                                    a.rx = rx.map(|s: &str| s.into());
                                    a.fmt = fm.map(|s: &str| s.into());
                                    a.infer = infer == 1;
                                    a.opt = opt;
                                    let t = if opt { Opt(Box::new(U8)) } else { U8 };
                                    let mut top = at().fmt(&format!("{{{}}}-{{{}}}", ks[0], ks[1])).layout(lay);
                                    top.infer = infer == 2;
                                    push(form.prog(top, &ABC, vec![(t, a), (U8, at())]), 2);
                                }
                            }
                        }
                    }
                }
            }
        }
        // regex_infer next to every other argument, in one attribute and in several
        for w in [None, Some(W::Ang), Some(W::Brk), Some(W::Inc)] {
            for mask in 0..8usize {
                for lay in 0..4u8 {
                    for place in 0..2 {
                        let mut a = at().layout(lay);
                        let mut top = at().fmt(&format!("{{{}}}-{{{}}}", ks[0], ks[1])).layout(lay);
                        if mask & 1 != 0 { a.fmt = Some("({})".into()); }
                        if mask & 2 != 0 && place == 0 { a.default = true; }
                        if mask & 4 != 0 { top.new = Some(New::Plain); }
                        if mask & 2 != 0 && place == 1 { continue; }
                        if place == 0 { a.infer = true; a.fwith = w; } else { top.infer = true; a.dwith = w; a.fwith = w; }
                        push(form.prog(top, &ABC, vec![(U8, a), (U8, at())]), 2);
                    }
                }
            }
        }
        // position among other fields, several custom formats, a regex pattern that contains groups and alternatives
        for (w1, w2) in [(W::Ang, W::Brk), (W::Brk, W::Ang), (W::Brk, W::Brk), (W::Inc, W::Inc), (W::Inc, W::Brk)] {
            for o in ["@0@1", "@1@0", "@0,@1", "x@1@0y"] {
                push(form.prog(at().fmt(&o.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]))), &ABC, vec![(U8, at().with(w1)), (U8, at().with(w2))]), 5);
            }
        }
        for o in ["@0", "@0@1", "x@0c", "@1@0"] {
            for fm in [None, Some("<{}>")] {
                for (t, w) in [(Str, W::Alt), (Char, W::Alt), (Str, W::Verb)] {
                    let n = if o.contains("@1") { 2 } else { 1 };
                    let mut a = at().with(w);
                    a.fmt = fm.map(|s: &str| s.into());
                    let fs = vec![(t.clone(), a), (Str, at())];
push(form.prog(at().fmt(&o.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]))), &ABC, fs[..n].to_vec()), 0);
                }
            }
        }
        // patterns of every kind
        for n in 0..crate::PATS.len() as u8 {
            for (oi, o) in ["@0", "@0@1", "@1-@0", "x@01"].into_iter().enumerate() {
                for fm in [None, Some("<{}>")] {
                    for opt in [false, true] {
                        if !th && fm.is_some() && (n as usize + oi + opt as usize + form as usize) % 3 != 0 {
                            continue;
                        }
                        let k = if o.contains("@1") { 2 } else { 1 };
                        let mut a = at().with(W::Pat(n));
                        a.opt = opt;
                        a.fmt = fm.map(|s| s.into());
                        let t = if opt { Opt(Box::new(Str)) } else { Str };
                        let fs = vec![(t, a), (Str, at())];
                        push(form.prog(at().fmt(&o.replace("@0", &ph(&ks[0])).replace("@1", &ph(&ks[1]))), &ABC, fs[..k].to_vec()), 1);
                    }
                }
            }
        }
        // an error of the custom format's parse fails the field, also in an enum with alternatives
        push(form.prog(at().fmt(&format!("{{{}}}", ks[0])), &ABC, vec![(Str, at().with(W::Pick))]), 6);
        // custom formats on a derived type and on fields with defaults and new
        push(form.prog(at().fmt(&format!("{{{}}}", ks[0])), &ABC, vec![(inner("{x}|{y}").ty(), at().with(W::Brk))]), 6);
        push(form.prog(at().fmt(&format!("{{{}}}", ks[1])), &ABC, vec![(U8, at().with(W::Brk).default()), (U8, at().with(W::Ang))]), 6);
        push(form.prog(at().fmt(&format!("{{{}}}", ks[0])).new_(New::Opt), &ABC, vec![(U8, at().with(W::Brk))]), 6);
        if matches!(form, SNamed | STuple) {
            for w in [W::Ang, W::Brk, W::Inc, W::IncAny] {
                for lay in 0..4 {
                    push(form.prog(at(), &ABC, vec![(U8, at().with(w).layout(lay))]), 6);
                    push(form.prog(at(), &ABC, vec![(U8, at().fwith(w).layout(lay))]), 6);
                    push(form.prog(at(), &ABC, vec![(U8, at().with(w).fmt("({})").layout(lay))]), 6);
                }
            }
        }
    }
    // from_str attributes of types and variants never change Display
    for lay in 0..4 {
        for form in FORMS {
            let ks = form.keys(&ABC[..1]);
            push(form.prog(at().fmt(&format!("({{{}}})", ks[0])).rx(&format!("<(?<{}>.*)>", ks[0])).layout(lay), &ABC, vec![(U8, at())]), 6);
            push(form.prog(at().fmt(&format!("({{{}}})", ks[0])).rx(&format!("<(?<{}>.*)>", ks[0])).new_(New::Plain).layout(lay), &ABC, vec![(U8, at().fwith(W::Inc))]), 6);
        }
        push(enm("T", at().fmt("{}").rx("<(?<>)>").layout(lay), vec![var("A", at(), vec![]), var("B", at().ignore().layout(lay), vec![]), var("C", at().rx("1").style("lowercase").layout(lay), vec![])]), 6);
    }
    out.extend(refs());
    out
}

// ------------------------------------------------------------------------------------------ C09 and C15: programs of the other spaces

fn c09(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    for (sp, every) in [(c05(tier), 4), (c07(tier), 4), (c10(tier), 20), (c11(tier), 15), (c04(tier), 30)] {
        let every = if th { 1 } else { every };
        for (i, mut c) in sp.into_iter().enumerate() {
            if i % every != 0 {
                continue;
            }
            c.prog.disp = false;
            c.do_disp = false;
            c.do_msg = false;
            c.do_parse = true;
            c.do_rx = true;
            out.push(c);
        }
    }
    // one type's pattern inside another: the outer type infers it
    let pieces = literals();
    let mut ins: Vec<Prog> = vec![];
    for l in pieces.iter().filter(|l| th || l.len() < 3) {
        ins.push(strukt("In", at().fmt(&esc(l)), vec![]));
    }
    for l in ["|", "a|1", "{{", ".", "[", "(", "\\", "#", " ", "-", "\n", "é", "x{{1}}"] {
        ins.push(strukt("In", at().fmt(&format!("{l}{{0}}")), vec![f("", U8)]));
        ins.push(enm("In", at(), vec![var("A", at().fmt(l), vec![]), var("B", at().fmt(&format!("1{l}")), vec![])]));
        ins.push(enm("In", at(), vec![var("A", at().fmt(&format!("{l}{{0}}")), vec![f("", U8)]), var("B", at().fmt(l), vec![]), var("C", at().fmt("zz"), vec![])]));
    }
    for rx in ["a|1", "(?i)a(?<0>1*)", "(?<0>a)|1", "^a(?<0>.*)$", "(?x) a (?<0>1) ", "(?s).*(?<0>1)", "(?U)a+(?<0>1*)", "a.(?<0>1?)"] {
        let mut b = strukt("In", at().rx(rx), vec![f("", Str)]);
        if !rx.contains("<0>") {
            b = strukt("In", at().rx(rx), vec![]);
        }
        b = b.from_only();
        ins.push(b.clone());
        let Kind::S(body) = b.kind else { panic!() };
        let mut e = enm("In", at(), vec![var("A", at().rx(rx), vec![]), var("B", at().fmt("-"), vec![])]);
        let Kind::E(vs) = &mut e.kind else { panic!() };
        vs[0].body = body;
        ins.push(e.from_only());
    }
    ins.push(strukt("In", at().fmt("{a}{b}"), vec![fa("a", Opt(Box::new(U8)), at().opt().fmt("a{}")), fa("b", Char, at().infer())]));
    ins.push(strukt("In", at().fmt("{a}{b}").infer(), vec![f("a", U8), f("b", Bool)]));
    ins.push(strukt("In", at().fmt("{a},{b}"), vec![fa("a", U8, at().with(W::Brk)), fa("b", Str, at().with(W::Alt))]));
    // nothing can be parsed
    ins.push(enm("In", at(), vec![]).from_only());
    ins.push(enm("In", at(), vec![var("A", at().ignore(), vec![]), var("B", at().ignore(), vec![f("", U8)])]).from_only());
    for p in ins {
        let t = p.ty();
        for (o, k) in [("@0", 0), ("a@0", 1), ("@0@1", 0), ("@1@0", 2), ("-@0-@1", 3)] {
            let n = if o.contains("@1") { 2 } else { 1 };
            let fm = o.replace("@0", "{x}").replace("@1", "{y}");
            let mut top = at().fmt(&fm);
            let mut fl = at();
            if k % 2 == 0 {
                fl.infer = true;
            } else {
                top.infer = true;
            }
            let fs = vec![fa("x", t.clone(), fl.clone()), fa("y", Str, at().rx("[^a]*"))];
            let prog = if k < 2 {
                strukt("T", top, fs[..n].to_vec())
            } else {
                let mut ea = at();
                ea.infer = std::mem::take(&mut top.infer);
                enm("T", ea, vec![var("V", top, fs[..n].to_vec()), var("W", at().fmt("w"), vec![])])
            };
            let mut c = parse(prog);
            c.do_rx = true;
            c.auto = true;
            c.alpha = vec!['a', '1', '\n'];
            c.budget = if th { 3000 } else { 130 };
            out.push(c);
        }
        // Option of it
        let mut c = parse(strukt("T", at().fmt("{x}-{y}"), vec![fa("x", Opt(Box::new(t.clone())), at().opt().infer()), f("y", U8)]));
        c.do_rx = true;
        c.alpha = vec!['a', '1'];
        c.budget = 130;
        out.push(c);
        // inferred through two levels
        let mid = strukt("Md", at().fmt("<{m}>").infer(), vec![f("m", t.clone())]).from_only().ty();
        let mut c = parse(strukt("T", at().fmt("{x}{y}").infer(), vec![f("x", mid), f("y", U8)]));
        c.do_rx = true;
        c.alpha = vec!['a', '1', '<', '>'];
        c.budget = 350;
        out.push(c);
    }
    out
}

fn c15(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out = vec![];
    // which field the error names: logged conversions
    let nums = [Lg, Lg, Lg, Lg];
    for form in [SNamed, STuple, VNamed] {
        for names in [["a", "b", "c", "d"], ["d", "c", "b", "a"], ["b", "r#type", "a", "c"]] {
            if !form.named() && names[0] != "a" {
                continue;
            }
            let ks = form.keys(&names);
            for n in 1..=4usize {
                for p in perms(n) {
                    for (mode, new) in [(0, None), (1, None), (0, Some(New::Plain)), (0, Some(New::Opt))] {
                        if mode == 1 && form == VNamed {
                            continue;
                        }
                        let fm = p.iter().map(|&i| ph(&ks[i])).collect::<Vec<_>>().join("-");
                        let mut a = at().fmt(&fm);
                        a.new = new;
                        a.default = mode == 1;
                        let mut prog = form.prog(a, &names, nums[..n].iter().map(|t| (t.clone(), at())).collect());
                        if mode == 1 {
                            prog = prog.def(Def::Custom(V::R((0..n).map(|i| V::I(i as i64)).collect())));
                        }
                        let mut c = parse(prog);
                        c.do_msg = true;
                        c.auto = false;
                        c.alpha = vec![];
                        c.budget = 1;
                        c.edits = false;
                        // every subset of fields fails, with distinct texts
                        for mask in 0..1usize << n {
                            c.seeds.push((0..n).map(|i| if mask >> i & 1 == 1 { format!("x{i}") } else { format!("{}", i + 1) }).collect::<Vec<_>>().join("-"));
                        }
                        c.seeds.push("nothing".into());
                        out.push(c);
                    }
                }
            }
        }
    }
    // nested names, field formats, opt, custom formats
    let plain = strukt("In", at(), vec![f("x", Lg), f("y", Lg)]).plain().ty();
    let deep = strukt("De", at(), vec![f("p", plain.clone()), f("q", Lg)]).plain().ty();
    for form in FORMS {
        let ks = form.keys(&ABC[..3]);
        let mut push = |fm: &str, fs: Vec<(Ty, Attrs)>, at_: Attrs| {
            let mut c = parse(form.prog(at_.fmt(&fm.replace("@0", &ks[0]).replace("@1", &ks[1]).replace("@2", &ks[2])), &ABC, fs));
            c.do_msg = true;
            c.auto = false;
            c.alpha = vec!['1', 'x', '-', '<'];
            c.budget = if th { 5000 } else { 400 };
            for m in 0..27 {
                let t = |k: usize| ["7", "x", "300"][k];
                c.seeds.push(format!("{}-{}-{}", t(m % 3), t(m / 3 % 3), t(m / 9)));
                c.seeds.push(format!("<{}>-{}-[{}]", t(m % 3), t(m / 3 % 3), t(m / 9)));
            }
            out.push(c);
        };
        push("{@0.x}-{@0.y}-{@1}", vec![(plain.clone(), at().default()), (Lg, at())], at());
        push("{@1}-{@0.y}-{@0.x}", vec![(plain.clone(), at().default()), (Lg, at())], at());
        push("{@0.p.y}-{@0.q}-{@1}", vec![(deep.clone(), at().default()), (Lg, at())], at());
        push("{@1}-{@0.p.x}-{@0.p.y}", vec![(deep.clone(), at().default()), (Lg, at())], at());
        push("{@0}-{@1}-{@2}", vec![(Lg, at().fmt("<{}>")), (Lg, at()), (Lg, at().fmt("[{}]"))], at());
        push("{@0}-{@1}-{@2}", vec![(Opt(Box::new(Lg)), at().opt().fmt("<{}>")), (Opt(Box::new(Lg)), at().opt()), (Lg, at().fmt("[{}]"))], at());
        push("{@0}-{@1}-{@2}", vec![(U8, at().with(W::Ang)), (U8, at()), (U8, at().with(W::Brk))], at());
        push("{@0}-{@1}", vec![(U8, at().with(W::Pick)), (U8, at().rx("[0-9x]+"))], at());
        push("{@0}-{@1}", vec![(U8, at().infer()), (Char, at())], at());
        push("{@0}", vec![(plain.clone(), at().default().fmt("{x}-{y}"))], at());
        push("{@0}", vec![(plain.clone(), at().default().rx("(?<x>.*)-(?<y>.*)"))], at());
        // groups that take no part in the match
        for rx in ["(?<@0.x>[^-]*)|-(?<@0.y>.*)", "(?:(?<@0.x>[0-9x]+)-|<)?(?:(?<@0.y>[0-9]+)-)?.*", "(?<@0>7)?(?<@1>x)?(?<@2>3)?.*"] {
            let mut c = parse(form.prog(
                at().rx(&rx.replace("@0", &ks[0]).replace("@1", &ks[1]).replace("@2", &ks[2])),
                &ABC,
                if rx.contains("@1") { vec![(Lg, at()), (U8, at()), (Str, at())] } else { vec![(strukt("In", at(), vec![f("x", Str), f("y", Str)]).plain().ty(), at().default())] },
            ));
            c.do_msg = true;
            c.auto = false;
            c.alpha = vec!['1', 'x', '-', '<'];
            c.budget = if th { 5000 } else { 400 };
            out.push(c);
        }
    }
    // patterns that are large only once they are put together
    let w = strukt("In", at(), vec![fa("", Str, at().rx(r"x|y\w{60}"))]).from_only().ty();
    for form in FORMS {
        for k in [1, 8, 12] {
            for opt in [false, true] {
                let names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
                let ks = form.keys(&names[..k]);
                let fm = ks.iter().map(|n| ph(n)).collect::<Vec<_>>().join("-");
                let t = if opt { Opt(Box::new(w.clone())) } else { w.clone() };
                let mut fl = at().infer();
                fl.opt = opt;
                let mut c = parse(form.prog(at().fmt(&fm), &names, vec![(t, fl); k]));
                c.do_msg = true;
                c.auto = false;
                c.edits = false;
                c.alpha = vec!['x', '-'];
                c.budget = 20;
                c.seeds = vec![vec!["x"; k].join("-"), vec!["z"; k].join("-"), vec!["x"; k - 1].join("-")];
                out.push(c);
            }
        }
    }
    for (sp, every) in [(c05(tier), 4), (c07(tier), 6), (c08(tier), 6), (c10(tier), 8), (c11(tier), 8), (c12(tier), 8), (c13(tier), 12)] {
        for (i, mut c) in sp.into_iter().enumerate() {
            if i % (if th { 1 } else { every }) != 0 {
                continue;
            }
            c.prog.disp = false;
            c.do_disp = false;
            c.do_rx = false;
            c.do_parse = c.prog.from;
            c.do_msg = true;
            if c.do_parse {
                out.push(c);
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C18

/// The same program with the derives changed, in the nested types too.
fn rederive(p: &Prog, disp: bool, from: bool) -> Prog {
    fn ty(t: &Ty, disp: bool, from: bool) -> Ty {
        match t {
            Ty::P(p) => Ty::P(std::rc::Rc::new(rederive(p, disp, from))),
            Ty::Opt(t) => Ty::Opt(Box::new(ty(t, disp, from))),
            Ty::Ref(t) => Ty::Ref(Box::new(ty(t, disp, from))),
            t => t.clone(),
        }
    }
    let mut p = p.clone();
    p.disp &= disp;
    p.from &= from;
    // without FromStr its attribute does not exist
    let keep = p.from;
    let attrs = |a: &mut Attrs| {
        if !keep {
            *a = Attrs { fmt: a.fmt.take(), style: a.style, opt: a.opt, dwith: a.dwith, layout: a.layout, extra: std::mem::take(&mut a.extra), ..at() };
        }
    };
    let body = |b: &mut Body| {
        b.fields.iter_mut().for_each(|f| {
            attrs(&mut f.at);
            f.ty = ty(&f.ty, disp, from);
        })
    };
    attrs(&mut p.at);
    match &mut p.kind {
        Kind::S(b) => body(b),
        Kind::E(vs) => vs.iter_mut().for_each(|v| {
            attrs(&mut v.at);
            body(&mut v.body)
        }),
    }
    p
}
/// All formats are purely literal.
fn is_literal(p: &Prog) -> bool {
    let nested = |b: &Body| b.fields.iter().any(|f| matches!(f.ty, Ty::P(_)));
    let any = match &p.kind {
        Kind::S(b) => nested(b),
        Kind::E(vs) => vs.iter().any(|v| nested(&v.body)),
    };
    p.from
        && !any
        && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            crate::model::Model::default().branches(p).iter().all(|b| b.literal.is_some())
        }))
        .unwrap_or(false)
}

fn c18(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    std::panic::set_hook(Box::new(|_| {}));
    let mut out: Vec<Case> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut push = |mut c: Case| {
        // the name `std` is not there without the feature
        let core = |b: &mut Body| b.fields.iter_mut().for_each(|f| f.at.spell += (f.at.spell % 2 == 1 && f.at.spell < 5) as u8);
        match &mut c.prog.kind {
            Kind::S(b) => core(b),
            Kind::E(vs) => vs.iter_mut().for_each(|v| core(&mut v.body)),
        }
        if seen.insert(crate::render::source(&c.prog)) {
            c.do_rx = false;
            c.do_msg = false;
            c.do_round = false;
            out.push(c);
        }
    };
    // literal parsing: kinds of bodies, attributes and the order of the arms
    let lits = ["x", "", "x{{", "}}", "\n", "é", "a b", "."];
    let shapes = |n: usize| -> Body {
        match n {
            0 => body(vec![]),
            1 => Body { shape: Shape::Tuple, fields: vec![] },
            2 => Body { shape: Shape::Named, fields: vec![] },
            3 => body(vec![fa("", U8, Attrs { default: true, ..at() })]),
            4 => body(vec![fa("a", U8, Attrs { default: true, ..at() }), fa("b", Opt(Box::new(Str)), Attrs { default: true, ..at() })]),
            _ => body(vec![fa("a", U8, Attrs { default: true, ..at().fmt("<{}>") })]),
        }
    };
    let lit = |p: Prog| {
        let mut c = Case::new(p);
        c.do_parse = true;
        c.do_disp = true;
        c.dom = Dom { u8: vec![0, 7], i16: vec![], s: vec!["a"], c: vec![] };
        c.alpha = vec!['x', '{', '}'];
        c
    };
    for l in lits {
        for sh in 0..6 {
            for new in [None, Some(New::Plain), Some(New::Opt), Some(New::Res), Some(New::Never)] {
                if new.is_some() && sh > 0 && sh < 3 {
                    continue;
                }
                let mut a = at().fmt(l);
                a.new = new;
                for default in [false, true] {
                    if default && new.is_some() {
                        continue;
                    }
                    let mut p = strukt("T", a.clone(), vec![]);
                    p.kind = Kind::S(shapes(sh));
                    if default {
                        p.at.default = true;
                        p.def = Def::Derive;
                    }
                    push(lit(p));
                }
                // as a variant, before and after variants with the same text
                for at_enum in [at(), at().style("UPPERCASE"), at().style("snake_case")] {
                    for pos in 0..3 {
                        let mut vs = vec![];
                        let v = Var { name: "XyZ".into(), body: shapes(sh), at: a.clone() };
                        let other = |i: usize| match i {
                            0 => var("X", at(), vec![]),
                            1 => var("Same", at().fmt(l), vec![]),
                            _ => var("Ig", at().ignore(), vec![f("", Opt(Box::new(U8)))]),
                        };
                        for i in 0..3 {
                            if i == pos {
                                vs.push(v.clone());
                            }
                            vs.push(other(i));
                        }
                        let mut p = enm("T", at_enum.clone(), vs);
                        p.disp = false;
                        let mut c = lit(p);
                        c.do_disp = false;
                        push(c);
                    }
                }
            }
        }
    }
    // a literal format of the enum, alone and with the variant names
    for l in ["{}", "<{}>", "{}{}", "x", "{{{}}}"] {
        for style in [None, Some("kebab-case"), Some("Title Case")] {
            let mut a = at().fmt(l);
            a.style = style;
            push(lit(enm("T", a, vec![var("AbC", at(), vec![]), var("X", at().fmt("x"), vec![]), var("Y1", at().style("none"), vec![])])));
        }
    }
    for s in ["C01", "C04", "C05", "C07", "C08", "C10", "C11", "C12", "C13"] {
        for c in cases(s, if th && s != "C05" && s != "C07" { "thorough" } else { "quick" }) {
            if is_literal(&c.prog) {
                push(Case { prog: rederive(&c.prog, c.do_disp, true), ..c.clone() });
            } else if c.do_disp && c.prog.disp {
                push(Case { prog: rederive(&c.prog, true, false), do_parse: false, ..c });
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C21

/// Numbers become numbers whose Display can be made to fail.
fn faulty(p: &Prog) -> Prog {
    fn ty(t: &Ty) -> Ty {
        match t {
            Ty::U8 => Ty::Lg,
            Ty::P(p) => Ty::P(std::rc::Rc::new(faulty(p))),
            Ty::Opt(t) => Ty::Opt(Box::new(ty(t))),
            Ty::Ref(t) => Ty::Ref(Box::new(ty(t))),
            t => t.clone(),
        }
    }
    let mut p = p.clone();
    let body = |b: &mut Body| {
        b.fields.iter_mut().for_each(|f| {
            if !matches!(f.at.dwith, Some(W::Inc | W::IncAny)) {
                f.ty = ty(&f.ty);
            }
        })
    };
    match &mut p.kind {
        Kind::S(b) => body(b),
        Kind::E(vs) => vs.iter_mut().for_each(|v| body(&mut v.body)),
    }
    p
}
fn c21(tier: &str) -> Vec<Case> {
    let th = thorough(tier);
    let mut out: Vec<Case> = vec![];
    let mut seen = std::collections::HashSet::new();
    for s in ["C01", "C05", "C10", "C12", "C13", "C15"] {
        for c in cases(s, if th && matches!(s, "C01" | "C10" | "C12") { "thorough" } else { "quick" }) {
            if !(c.prog.disp && (c.do_disp || c.do_round)) {
                continue;
            }
            let mut n = Case::new(faulty(&rederive(&c.prog, true, false)));
            n.dom = Dom { u8: vec![30], i16: vec![-1], s: vec!["a"], c: vec!['{'] };
            n.do_fault = true;
            if seen.insert(crate::render::source(&n.prog)) {
                out.push(n);
            }
        }
    }
    out
}
