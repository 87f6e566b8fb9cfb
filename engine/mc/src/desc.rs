//! Program descriptors: the alphabet of type declarations that the spaces are built from.
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U8,
    I16,
    Str,
    Char,
    Bool,
    /// a number whose FromStr writes down what it is given
    Lg,
    Opt(Box<Ty>),
    /// `&'static T`, only displayed
    Ref(Box<Ty>),
    /// `&'static str`, only displayed
    RStr,
    P(Rc<Prog>),
}
pub use Ty::*;

/// Reference values.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    I(i64),
    S(String),
    C(char),
    B(bool),
    Nil,
    Some(Box<V>),
    R(Vec<V>),
    E(usize, Vec<V>),
}
impl V {
    pub fn rec(&self) -> &[V] {
        match self {
            V::R(v) => v,
            V::E(_, v) => v,
            _ => panic!("not a record: {self:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Tuple,
    Named,
}

/// Custom formats (the implementations are in prelude.rs).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    /// `<v>`, any text between the brackets
    Ang,
    /// `[v]` with pattern `\[[^\[\]]*\]`
    Brk,
    /// decimal value + 1, pattern `[0-9]+` (u8 only)
    Inc,
    /// decimal value + 1, no pattern (u8 only)
    IncAny,
    /// fails to format when the value displays as "9"/"x!" and fails to parse "z"
    Pick,
    /// display through the inner Display with the caller's formatter; pattern `a|aa|(b)c` with a group
    Alt,
    /// like `Alt`, with the pattern VERB_RX (flags, a comment, an escaped space)
    Verb,
    /// the inner Display and FromStr; the pattern is `mc::PATS[n]`
    Pat(u8),
    /// `~text~`, a format of `str` only (not of `&str`), only displayed
    OnStr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum New {
    /// returns Self
    Plain,
    /// returns Option<Self>, None when the first field is the type's "bad" value
    Opt,
    /// returns Result<Self, &str>, Err when the first field is the type's "bad" value
    Res,
    /// always refuses
    Never,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attrs {
    pub fmt: Option<String>,
    pub style: Option<&'static str>,
    pub rx: Option<String>,
    pub infer: bool,
    pub new: Option<New>,
    pub default: bool,
    pub default_fields: Vec<String>,
    pub ignore: bool,
    // field only
    pub opt: bool,
    pub dwith: Option<W>,
    pub fwith: Option<W>,
    /// 0: one attribute per trait, display first; 1: from_str first; 2: one attribute per argument;
    /// 3: one attribute per argument, reversed
    pub layout: u8,
    /// how the `Option` of the field's type is written
    pub spell: u8,
    /// any other attribute text
    pub extra: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    /// as written in the declaration; empty in tuples
    pub name: String,
    pub ty: Ty,
    pub at: Attrs,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    pub shape: Shape,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub name: String,
    pub body: Body,
    pub at: Attrs,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    S(Body),
    E(Vec<Var>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    No,
    Derive,
    Custom(V),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub name: String,
    pub kind: Kind,
    pub at: Attrs,
    pub disp: bool,
    pub from: bool,
    pub def: Def,
    /// the item is written without any derive of this crate
    pub note: String,
}

pub fn at() -> Attrs {
    Default::default()
}
impl Attrs {
    pub fn fmt(mut self, s: &str) -> Self {
        self.fmt = Some(s.into());
        self
    }
    pub fn rx(mut self, s: &str) -> Self {
        self.rx = Some(s.into());
        self
    }
    pub fn style(mut self, s: &'static str) -> Self {
        self.style = Some(s);
        self
    }
    pub fn infer(mut self) -> Self {
        self.infer = true;
        self
    }
    pub fn default(mut self) -> Self {
        self.default = true;
        self
    }
    pub fn ignore(mut self) -> Self {
        self.ignore = true;
        self
    }
    pub fn opt(mut self) -> Self {
        self.opt = true;
        self
    }
    pub fn new_(mut self, n: New) -> Self {
        self.new = Some(n);
        self
    }
    pub fn with(mut self, w: W) -> Self {
        self.dwith = Some(w);
        self
    }
    pub fn fwith(mut self, w: W) -> Self {
        self.fwith = Some(w);
        self
    }
    pub fn layout(mut self, l: u8) -> Self {
        self.layout = l;
        self
    }
}
pub fn f(name: &str, ty: Ty) -> Field {
    Field { name: name.into(), ty, at: at() }
}
pub fn fa(name: &str, ty: Ty, at: Attrs) -> Field {
    Field { name: name.into(), ty, at }
}
pub fn body(fields: Vec<Field>) -> Body {
    let shape = if fields.is_empty() {
        Shape::Unit
    } else if fields[0].name.is_empty() {
        Shape::Tuple
    } else {
        Shape::Named
    };
    Body { shape, fields }
}
pub fn strukt(name: &str, at: Attrs, fields: Vec<Field>) -> Prog {
    Prog {
        name: name.into(),
        kind: Kind::S(body(fields)),
        at,
        disp: true,
        from: true,
        def: Def::No,
        note: String::new(),
    }
}
pub fn enm(name: &str, at: Attrs, vars: Vec<Var>) -> Prog {
    Prog {
        name: name.into(),
        kind: Kind::E(vars),
        at,
        disp: true,
        from: true,
        def: Def::No,
        note: String::new(),
    }
}
pub fn var(name: &str, at: Attrs, fields: Vec<Field>) -> Var {
    Var { name: name.into(), body: body(fields), at }
}
impl Prog {
    pub fn plain(mut self) -> Self {
        self.disp = false;
        self.from = false;
        self.def = Def::Derive;
        self
    }
    pub fn disp_only(mut self) -> Self {
        self.from = false;
        self
    }
    pub fn from_only(mut self) -> Self {
        self.disp = false;
        self
    }
    pub fn def(mut self, d: Def) -> Self {
        self.def = d;
        self
    }
    pub fn note(mut self, s: &str) -> Self {
        self.note = s.into();
        self
    }
    pub fn ty(self) -> Ty {
        Ty::P(Rc::new(self))
    }
}

pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
impl Body {
    pub fn key(&self, i: usize) -> String {
        match self.shape {
            Shape::Named => unraw(&self.fields[i].name).into(),
            _ => i.to_string(),
        }
    }
    pub fn find(&self, key: &str) -> Option<usize> {
        (0..self.fields.len()).find(|&i| self.key(i) == unraw(key))
    }
}

/// Types reachable from `p`, inner first (each once, by name).
pub fn nested(p: &Prog, out: &mut Vec<Rc<Prog>>) {
    fn ty(t: &Ty, out: &mut Vec<Rc<Prog>>) {
        match t {
            Ty::Opt(t) | Ty::Ref(t) => ty(t, out),
            Ty::P(p) => {
                nested(p, out);
                if !out.iter().any(|q| q.name == p.name) {
                    out.push(p.clone());
                }
            }
            _ => {}
        }
    }
    let mut b = |b: &Body| {
        for f in &b.fields {
            ty(&f.ty, out)
        }
    };
    match &p.kind {
        Kind::S(body) => b(body),
        Kind::E(vs) => vs.iter().for_each(|v| b(&v.body)),
    }
}
