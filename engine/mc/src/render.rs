//! Descriptor -> Rust source.
use crate::desc::*;
use std::fmt::Write;

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::U8 => "u8".into(),
        Ty::I16 => "i16".into(),
        Ty::Str => "String".into(),
        Ty::Char => "char".into(),
        Ty::Bool => "bool".into(),
        Ty::Lg => "Lg".into(),
        Ty::Opt(t) => format!("Option<{}>", ty(t)),
        Ty::P(p) => p.name.clone(),
        Ty::Ref(t) => format!("&'static {}", ty(t)),
        Ty::RStr => "&'static str".into(),
    }
}

fn field_ty(f: &Field) -> String {
    let t = ty(&f.ty);
    let p = ["", "std::option::", "core::option::", "::std::option::", "::core::option::", "option::"][f.at.spell as usize];
    if matches!(f.ty, Ty::Opt(_)) { format!("{p}{t}") } else { t }
}

fn args(b: Option<&Body>, a: &Attrs, vname: Option<&str>) -> (Vec<String>, Vec<String>) {
    let mut d = vec![];
    let mut f = vec![];
    if let Some(x) = &a.fmt {
        d.push(format!("{x:?}"));
    }
    if let Some(x) = a.style {
        d.push(format!("style = {x:?}"));
    }
    if a.opt {
        d.push("opt".into());
    }
    if let Some(w) = a.dwith {
        d.push(format!("with = {w:?}"));
    }
    if let Some(x) = &a.rx {
        f.push(format!("regex = {x:?}"));
    }
    if a.infer {
        f.push("regex_infer".into());
    }
    if let Some(w) = a.fwith {
        f.push(format!("with = {w:?}"));
    }
    if a.default {
        f.push("default".into());
    }
    if !a.default_fields.is_empty() {
        // as names, as string literals, and in several attributes
        let q: Vec<String> = a.default_fields.iter().enumerate().map(|(i, k)| if (a.layout as usize + i) % 2 == 0 { k.clone() } else { format!("\"{k}\"") }).collect();
        if a.layout < 2 {
            f.push(format!("default_fields({})", q.join(", ")));
        } else {
            f.extend(q.iter().map(|k| format!("default_fields({k})")));
        }
    }
    if a.ignore {
        f.push("ignore".into());
    }
    if a.new.is_some() {
        let b = b.unwrap();
        let vars: Vec<_> = (0..b.fields.len())
            .map(|i| match b.shape {
                Shape::Named => b.fields[i].name.clone(),
                _ => format!("_{i}"),
            })
            .collect();
        f.push(format!("new = Self::{}({})", new_fn(vname), vars.join(", ")));
    }
    (d, f)
}
pub fn new_fn(vname: Option<&str>) -> String {
    format!("make_{}", unraw(vname.unwrap_or("self")).to_lowercase())
}
fn attrs(b: Option<&Body>, a: &Attrs, vname: Option<&str>) -> String {
    let (d, f) = args(b, a, vname);
    let mut v: Vec<String> = vec![];
    let one = |k: &str, x: &[String]| format!("#[{k}({})]", x.join(", "));
    match a.layout {
        0 | 1 => {
            if !d.is_empty() {
                v.push(one("display", &d));
            }
            if !f.is_empty() {
                v.push(one("from_str", &f));
            }
            if a.layout == 1 {
                v.reverse();
            }
        }
        _ => {
            for x in d {
                v.push(one("display", &[x]));
            }
            for x in f {
                v.push(one("from_str", &[x]));
            }
            if a.layout == 3 {
                v.reverse();
            }
        }
    }
    if !a.extra.is_empty() {
        v.push(a.extra.clone());
    }
    if v.is_empty() { String::new() } else { v.join(" ") + " " }
}

fn decl_body(b: &Body, tail: &str) -> String {
    let fs: Vec<_> = b
        .fields
        .iter()
        .map(|f| {
            let a = attrs(None, &f.at, None);
            match b.shape {
                Shape::Named => format!("{a}{}: {}", f.name, field_ty(f)),
                _ => format!("{a}{}", field_ty(f)),
            }
        })
        .collect();
    match b.shape {
        Shape::Unit => tail.into(),
        Shape::Named => format!(" {{ {} }}", fs.join(", ")),
        Shape::Tuple => format!("({}){tail}", fs.join(", ")),
    }
}

fn value(t: &Ty, v: &V) -> String {
    match (t, v) {
        (Ty::Lg, V::I(i)) => format!("Lg({i})"),
        (_, V::I(i)) => format!("{i}"),
        (_, V::S(s)) => format!("{s:?}.to_string()"),
        (_, V::C(c)) => format!("{c:?}"),
        (_, V::B(b)) => format!("{b}"),
        (_, V::Nil) => "None".into(),
        (Ty::Opt(t), V::Some(v)) => format!("Some({})", value(t, v)),
        (Ty::P(p), v) => expr(p, v),
        _ => panic!(),
    }
}
/// A Rust expression that builds the value.
pub fn expr(p: &Prog, v: &V) -> String {
    let (path, b) = match (&p.kind, v) {
        (Kind::S(b), _) => (p.name.clone(), b),
        (Kind::E(vs), V::E(i, _)) => (format!("{}::{}", p.name, vs[*i].name), &vs[*i].body),
        _ => panic!(),
    };
    let xs: Vec<_> = b.fields.iter().zip(v.rec()).map(|(f, v)| value(&f.ty, v)).collect();
    match b.shape {
        Shape::Unit => path,
        Shape::Tuple => format!("{path}({})", xs.join(", ")),
        Shape::Named => {
            let xs: Vec<_> = b.fields.iter().zip(xs).map(|(f, x)| format!("{}: {x}", f.name)).collect();
            format!("{path} {{ {} }}", xs.join(", "))
        }
    }
}

/// The declaration of one type, with everything a user writes.
pub fn decl(p: &Prog) -> String {
    let mut s = String::new();
    let mut ds = vec![];
    if p.disp {
        ds.push("Display");
    }
    if p.from {
        ds.push("FromStr");
    }
    if p.def == Def::Derive {
        ds.push("Default");
    }
    let ds = if ds.is_empty() { String::new() } else { format!("#[derive({})] ", ds.join(", ")) };
    let b = if let Kind::S(b) = &p.kind { Some(b) } else { None };
    write!(s, "{ds}{}", attrs(b, &p.at, None)).unwrap();
    match &p.kind {
        Kind::S(b) => writeln!(s, "pub struct {}{}", p.name, decl_body(b, ";")).unwrap(),
        Kind::E(vs) => {
            writeln!(s, "pub enum {} {{", p.name).unwrap();
            for v in vs {
                let a = attrs(Some(&v.body), &v.at, Some(&v.name));
                writeln!(s, "    {a}{}{},", v.name, decl_body(&v.body, "")).unwrap();
            }
            writeln!(s, "}}").unwrap();
        }
    }
    if let Def::Custom(v) = &p.def {
        writeln!(s, "impl Default for {} {{ fn default() -> Self {{ {} }} }}", p.name, expr(p, v)).unwrap();
    }
    let mut mk = |b: &Body, new: New, vname: Option<&str>| {
        let ps: Vec<_> = b.fields.iter().enumerate().map(|(i, f)| format!("p{i}: {}", ty(&f.ty))).collect();
        let path = match vname {
            None => "Self".to_string(),
            Some(v) => format!("Self::{v}"),
        };
        let inits: Vec<_> = b
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| if b.shape == Shape::Named { format!("{}: p{i}", f.name) } else { format!("p{i}") })
            .collect();
        let e = match b.shape {
            Shape::Unit => path,
            Shape::Tuple => format!("{path}({})", inits.join(", ")),
            Shape::Named => format!("{path} {{ {} }}", inits.join(", ")),
        };
        let bad = if b.fields.is_empty() { "false".to_string() } else { "is_bad(&Mv::un(&p0))".into() };
        let (ret, e) = match new {
            New::Plain => ("Self".into(), e),
            New::Opt => ("Option<Self>".into(), format!("if {bad} {{ None }} else {{ Some({e}) }}")),
            New::Res => ("Result<Self, &'static str>".to_string(), format!("if {bad} {{ Err(\"bad\") }} else {{ Ok({e}) }}")),
            New::Never => ("Option<Self>".into(), format!("if true {{ None }} else {{ Some({e}) }}")),
        };
        writeln!(s, "impl {} {{ fn {}({}) -> {ret} {{ {e} }} }}", p.name, new_fn(vname), ps.join(", ")).unwrap();
    };
    match &p.kind {
        Kind::S(b) => {
            if let Some(n) = p.at.new {
                mk(b, n, None)
            }
        }
        Kind::E(vs) => {
            for v in vs {
                if let Some(n) = v.at.new {
                    mk(&v.body, n, Some(&v.name))
                }
            }
        }
    }
    s
}

/// Conversion between the real type and reference values.
pub fn glue(p: &Prog) -> String {
    let mut s = String::new();
    let mut mk = String::new();
    let mut un = String::new();
    let mut one = |path: &str, b: &Body, wrap: &str, pat: &str| {
        let name = |i: usize| if b.shape == Shape::Named { b.fields[i].name.clone() } else { i.to_string() };
        let n = b.fields.len();
        let inits: Vec<_> = (0..n).map(|i| format!("{}: Mv::mk(&r[{i}])", name(i))).collect();
        let pats: Vec<_> = (0..n).map(|i| format!("{}: x{i}", name(i))).collect();
        let uns: Vec<_> = (0..n).map(|i| format!("Mv::un(x{i})")).collect();
        write!(mk, "{pat} => {path} {{ {} }},", inits.join(", ")).unwrap();
        write!(un, "{path} {{ {} }} => {wrap}vec![{}]),", pats.join(", "), uns.join(", ")).unwrap();
    };
    match &p.kind {
        Kind::S(b) => one(&p.name, b, "V::R(", "(_, r)"),
        Kind::E(vs) => {
            for (i, v) in vs.iter().enumerate() {
                one(&format!("{}::{}", p.name, v.name), &v.body, &format!("V::E({i}, "), &format!("({i}, r)"));
            }
        }
    }
    writeln!(
        s,
        "impl Mv for {} {{ fn mk(v: &V) -> Self {{ match (tag(v), v.rec()) {{ {mk} #[allow(unreachable_patterns)] _ => panic!() }} }} fn un(&self) -> V {{ match self {{ {un} #[allow(unreachable_patterns)] _ => panic!() }} }} }}",
        p.name
    )
    .unwrap();
    s
}

/// All declarations of a program, as a user would write them.
pub fn source(p: &Prog) -> String {
    let mut ns = vec![];
    nested(p, &mut ns);
    let mut s = String::new();
    for n in &ns {
        s += &decl(n);
    }
    s + &decl(p)
}
pub fn source_glue(p: &Prog) -> String {
    let mut ns = vec![];
    nested(p, &mut ns);
    let mut s = String::new();
    for n in &ns {
        s += &glue(n);
    }
    s + &glue(p)
}
