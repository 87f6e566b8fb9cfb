//! The reference semantics: what Display prints and what FromStr accepts, read off a descriptor.
use crate::desc::*;
use crate::re::{self, Grp, Re};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- format strings

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(String),
    Ph { path: Vec<String>, spec: String },
}
/// Parses a display format. None if it is malformed (paths and specs are not looked at).
pub fn parse_fmt(s: &str) -> Option<Vec<Part>> {
    let c: Vec<char> = s.chars().collect();
    let mut out: Vec<Part> = vec![];
    let mut i = 0;
    let push = |out: &mut Vec<Part>, ch: char| match out.last_mut() {
        Some(Part::Lit(l)) => l.push(ch),
        _ => out.push(Part::Lit(ch.to_string())),
    };
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => {
                push(&mut out, '{');
                i += 2;
            }
            '}' if c.get(i + 1) == Some(&'}') => {
                push(&mut out, '}');
                i += 2;
            }
            '}' => return None,
            '{' => {
                let mut arg = String::new();
                i += 1;
                while i < c.len() && c[i] != ':' && c[i] != '}' && c[i] != '{' {
                    arg.push(c[i]);
                    i += 1;
                }
                let mut spec = String::new();
                if c.get(i) == Some(&':') {
                    i += 1;
                    while i < c.len() && c[i] != '}' {
                        spec.push(c[i]);
                        i += 1;
                    }
                }
                if c.get(i) != Some(&'}') {
                    return None;
                }
                i += 1;
                let path = if arg.is_empty() { vec![] } else { arg.split('.').map(|k| unraw(k).to_string()).collect() };
                out.push(Part::Ph { path, spec });
            }
            ch => {
                push(&mut out, ch);
                i += 1;
            }
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- variant names

pub const STYLES: [&str; 13] = [
    "none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE",
    "Title Case", "Title case", "title case", "TITLE CASE",
];
pub fn words(ident: &str) -> Vec<String> {
    let mut ws: Vec<String> = vec![];
    let mut prev: Option<char> = None;
    for c in ident.chars() {
        if !c.is_alphanumeric() {
            prev = None;
            continue;
        }
        let starts = match prev {
            None => true,
            Some(p) => c.is_ascii_uppercase() && !p.is_ascii_uppercase(),
        };
        if starts {
            ws.push(String::new());
        }
        ws.last_mut().unwrap().push(c);
        prev = Some(c);
    }
    ws
}
pub fn styled(ident: &str, style: Option<&str>) -> String {
    let ident = unraw(ident);
    let lower = |w: &String| w.to_ascii_lowercase();
    let upper = |w: &String| w.to_ascii_uppercase();
    let cap = |w: &String| {
        let mut cs = w.chars();
        let h = cs.next().unwrap().to_ascii_uppercase();
        format!("{h}{}", cs.as_str().to_ascii_lowercase())
    };
    let ws = words(ident);
    let map = |f: &dyn Fn(&String) -> String, sep: &str| ws.iter().map(f).collect::<Vec<_>>().join(sep);
    let head = |first: &dyn Fn(&String) -> String, rest: &dyn Fn(&String) -> String, sep: &str| {
        ws.iter().enumerate().map(|(i, w)| if i == 0 { first(w) } else { rest(w) }).collect::<Vec<_>>().join(sep)
    };
    match style.unwrap_or("none") {
        "none" => ident.into(),
        "lowercase" => map(&lower, ""),
        "UPPERCASE" => map(&upper, ""),
        "snake_case" => map(&lower, "_"),
        "SNAKE_CASE" => map(&upper, "_"),
        "camelCase" => head(&lower, &cap, ""),
        "CamelCase" => map(&cap, ""),
        "kebab-case" => map(&lower, "-"),
        "KEBAB-CASE" => map(&upper, "-"),
        "Title Case" => map(&cap, " "),
        "Title case" => head(&cap, &lower, " "),
        "title case" => map(&lower, " "),
        "TITLE CASE" => map(&upper, " "),
        s => panic!("style {s}"),
    }
}

// ---------------------------------------------------------------- leaves and custom formats

/// The value a `new` function of the harness refuses in its first field.
pub fn is_bad(v: &V) -> bool {
    match v {
        V::I(i) => *i == 2,
        V::S(s) => s == "b",
        V::C(c) => *c == 'b',
        V::B(b) => !*b,
        V::Nil => true,
        V::Some(v) => is_bad(v),
        V::R(v) | V::E(_, v) => v.first().is_some_and(is_bad),
    }
}
fn parse_leaf(t: &Ty, s: &str) -> Option<V> {
    Some(match t {
        Ty::U8 | Ty::Lg => V::I(s.parse::<u8>().ok()? as i64),
        Ty::I16 => V::I(s.parse::<i16>().ok()? as i64),
        Ty::Str => V::S(s.into()),
        Ty::Char => V::C(s.parse().ok()?),
        Ty::Bool => V::B(s.parse().ok()?),
        _ => panic!("{t:?} has no FromStr"),
    })
}
pub const ALT_RX: &str = "a|aa|(b)c";
pub const VERB_RX: &str = "(?xi) a b* # x\n | (c) \\ ?";
/// Patterns of custom formats, and the same written in another way.
pub const PATS: [(&str, &str); 22] = [
    ("", ""),
    ("x?", "x?"),
    ("(?:a)1?", "a1?"),
    ("(1)|(a)|a1", "1|a|a1"),
    ("(?i)a", "(?i)a"),
    ("a|", "a|"),
    ("|a", "|a"),
    ("(a)(1)?", "(a)(1)?"),
    ("(?s).", "(?s)."),
    (".*", ".*"),
    (".*?", ".*?"),
    ("(?s:.*?)", "(?s:.*?)"),
    ("(?s:.*)", "(?s:.*)"),
    ("(?U)a*", "a*?"),
    ("^a", "^a"),
    ("a$", "a$"),
    ("[^1]", "[^1]"),
    ("\\n", "\\n"),
    ("a{2}|1", "a{2}|1"),
    ("\\ba", "\\ba"),
    ("((a)|(1))*", "((a)|(1))*"),
    ("a(?i)a|1", "a(?i:a)|(?i:1)"),
];
fn w_rx(w: W) -> Option<Re> {
    let p = |s: &str| Some(re::parse(s, &mut |_| panic!()).0);
    match w {
        W::Brk => p(r"\[[^\[\]]*\]"),
        W::Inc => p("[0-9]+"),
        W::Alt => p(ALT_RX),
        W::Verb => p(VERB_RX),
        W::Pat(n) => p(PATS[n as usize].1),
        W::Ang | W::IncAny | W::Pick | W::OnStr => None,
    }
}

pub fn default_of(t: &Ty) -> V {
    match t {
        Ty::U8 | Ty::I16 | Ty::Lg => V::I(0),
        Ty::Str => V::S(String::new()),
        Ty::Char => V::C('\0'),
        Ty::Bool => V::B(false),
        Ty::Opt(_) => V::Nil,
        Ty::Ref(t) => default_of(t),
        Ty::RStr => V::S(String::new()),
        Ty::P(p) => default_prog(p),
    }
}
pub fn default_prog(p: &Prog) -> V {
    match (&p.def, &p.kind) {
        (Def::Custom(v), _) => v.clone(),
        (Def::Derive, Kind::S(b)) => V::R(b.fields.iter().map(|f| default_of(&f.ty)).collect()),
        _ => panic!("{} has no Default", p.name),
    }
}

// ---------------------------------------------------------------- the model

/// One way to parse: a struct, or one variant of an enum.
pub struct Branch {
    pub variant: Option<usize>,
    pub body: Body,
    pub re: Re,
    pub nfa: re::Nfa,
    /// field, path below the field
    pub caps: Vec<(usize, Vec<String>)>,
    /// the text, if the format is purely literal
    pub literal: Option<String>,
    pub new: Option<New>,
    /// Default of the struct / of the enum is the base of the value
    pub base: Option<V>,
    pub infer: bool,
    pub default_fields: Vec<usize>,
}

#[derive(Default)]
pub struct Model {
    cache: RefCell<HashMap<String, Rc<Vec<Branch>>>>,
    pub steps: RefCell<u64>,
    mark: std::cell::Cell<bool>,
}
/// Does not occur in any literal.
pub const MARK: char = '\u{E000}';

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// the text does not match the format (or an enum, or `new`, refuses)
    NoMatch,
    /// these fields' texts failed to parse (name, text)
    Fields(Vec<(String, String)>),
}

struct B<'a> {
    m: &'a Model,
    body: &'a Body,
    infer: bool,
    caps: Vec<(usize, Vec<String>)>,
    literal: Option<String>,
    items: Vec<Re>,
}
impl B<'_> {
    fn slot(&mut self, field: usize, path: &[String]) -> usize {
        let k = (field, path.to_vec());
        assert!(!self.caps.contains(&k), "captured twice: {k:?}");
        self.caps.push(k);
        self.caps.len() - 1
    }
    fn push_lit(&mut self, s: &str) {
        if let Some(l) = &mut self.literal {
            l.push_str(s);
        }
        self.items.push(re::lits(s));
    }
    fn push(&mut self, r: Re) {
        self.literal = None;
        self.items.push(r);
    }
    fn find(&self, key: &str) -> usize {
        self.body.find(key).unwrap_or_else(|| panic!("no field {key} in {:?}", self.body))
    }
    /// format of a struct (name = None) or variant
    fn top_fmt(&mut self, s: &str, name: Option<&str>) {
        for p in parse_fmt(s).unwrap_or_else(|| panic!("bad format {s}")) {
            match p {
                Part::Lit(l) => self.push_lit(&l),
                Part::Ph { path, .. } if path.is_empty() => self.push_lit(name.expect("{} in struct")),
                Part::Ph { path, .. } if path.len() == 1 => {
                    let i = self.find(&path[0]);
                    self.field(i)
                }
                Part::Ph { path, .. } => {
                    let i = self.find(&path[0]);
                    let n = self.slot(i, &path[1..]);
                    self.push(Re::Cap(n, Box::new(re::any_lazy())));
                }
            }
        }
    }
    fn top_rx(&mut self, s: &str, name: Option<&str>) {
        let r = {
            let me = RefCell::new(&mut *self);
            re::parse(s, &mut |g| {
                if g.is_empty() {
                    return Grp::Replace(re::lits(name.expect("empty capture in struct")));
                }
                let path: Vec<String> = g.split('.').map(|x| x.to_string()).collect();
                let mut me = me.borrow_mut();
                let i = me.find(&path[0]);
                Grp::Slot(me.slot(i, &path[1..]))
            })
            .0
        };
        self.push(r);
    }
    fn field(&mut self, i: usize) {
        let f = self.body.fields[i].clone();
        let outer = std::mem::take(&mut self.items);
        self.field_inner(i, &f);
        let inner = std::mem::replace(&mut self.items, outer);
        if f.at.opt {
            self.literal = None;
            self.items.push(Re::Rep { re: Box::new(Re::Cat(inner)), min: 0, max: Some(1), greedy: false });
        } else {
            self.items.push(Re::Cat(inner));
        }
    }
    fn whole(&mut self, i: usize, f: &Field) {
        let vt = value_ty(f);
        let r = if let Some(w) = f.at.fwith.or(f.at.dwith) {
            w_rx(w).unwrap_or_else(re::any_lazy)
        } else if f.at.infer || self.infer {
            self.m.lang(vt)
        } else {
            re::any_lazy()
        };
        let n = self.slot(i, &[]);
        self.push(Re::Cap(n, Box::new(r)));
    }
    fn field_inner(&mut self, i: usize, f: &Field) {
        if let Some(rx) = &f.at.rx {
            let (_, named) = re::parse(rx, &mut |_| Grp::Slot(0));
            if named {
                let r = {
                    let me = RefCell::new(&mut *self);
                    re::parse(rx, &mut |g| {
                        let path: Vec<String> =
                            if g.is_empty() { vec![] } else { g.split('.').map(|x| x.to_string()).collect() };
                        Grp::Slot(me.borrow_mut().slot(i, &path))
                    })
                    .0
                };
                self.push(r);
                return;
            }
            let r = re::parse(rx, &mut |_| panic!()).0;
            if let Some(fm) = &f.at.fmt {
                self.field_fmt(i, f, fm, Some(r));
            } else {
                let n = self.slot(i, &[]);
                self.push(Re::Cap(n, Box::new(r)));
            }
        } else if let Some(fm) = &f.at.fmt {
            self.field_fmt(i, f, fm, None);
        } else {
            self.whole(i, f);
        }
    }
    fn field_fmt(&mut self, i: usize, f: &Field, fm: &str, rx: Option<Re>) {
        for p in parse_fmt(fm).unwrap() {
            match p {
                Part::Lit(l) => self.push_lit(&l),
                Part::Ph { path, .. } if path.is_empty() => match &rx {
                    Some(r) => {
                        let n = self.slot(i, &[]);
                        self.push(Re::Cap(n, Box::new(r.clone())));
                    }
                    None => self.whole(i, f),
                },
                Part::Ph { path, .. } => {
                    let n = self.slot(i, &path);
                    self.push(Re::Cap(n, Box::new(re::any_lazy())));
                }
            }
        }
    }
}
fn value_ty(f: &Field) -> &Ty {
    match (&f.ty, f.at.opt) {
        (Ty::Opt(t), true) => t,
        (t, _) => t,
    }
}
/// Removes captures (the pattern as it is embedded in other patterns).
fn uncap(r: &Re) -> Re {
    match r {
        Re::Cap(_, r) => uncap(r),
        Re::Cat(v) => Re::Cat(v.iter().map(uncap).collect()),
        Re::Alt(v) => Re::Alt(v.iter().map(uncap).collect()),
        Re::Rep { re, min, max, greedy } => Re::Rep { re: Box::new(uncap(re)), min: *min, max: *max, greedy: *greedy },
        r => r.clone(),
    }
}

impl Model {
    pub fn branches(&self, p: &Prog) -> Rc<Vec<Branch>> {
        if let Some(b) = self.cache.borrow().get(&p.name) {
            return b.clone();
        }
        let mut out = vec![];
        match &p.kind {
            Kind::S(b) => out.push(self.branch(p, None, b, None, &p.at)),
            Kind::E(vs) => {
                for (i, v) in vs.iter().enumerate() {
                    if !v.at.ignore {
                        out.push(self.branch(p, Some(i), &v.body, Some(&v.name), &v.at));
                    }
                }
            }
        }
        let out = Rc::new(out);
        self.cache.borrow_mut().insert(p.name.clone(), out.clone());
        out
    }
    fn branch(&self, p: &Prog, variant: Option<usize>, b: &Body, vname: Option<&str>, a: &Attrs) -> Branch {
        let infer = p.at.infer || a.infer;
        let mut bl =
            B { m: self, body: b, infer, caps: vec![], literal: Some(String::new()), items: vec![] };
        let name = vname.map(|v| styled(v, a.style.or(p.at.style)));
        let name = name.as_deref();
        if let Some(rx) = &a.rx {
            bl.top_rx(rx, name);
        } else if let Some(fm) = &a.fmt {
            bl.top_fmt(fm, name);
        } else if let (Some(rx), true) = (&p.at.rx, variant.is_some()) {
            bl.top_rx(rx, name);
        } else if let (Some(fm), true) = (&p.at.fmt, variant.is_some()) {
            bl.top_fmt(fm, name);
        } else if variant.is_some() {
            assert!(b.shape == Shape::Unit, "variant without format");
            bl.push_lit(name.unwrap());
        } else {
            assert!(b.fields.len() == 1, "struct without format");
            bl.field(0);
        }
        let mut df: Vec<usize> = vec![];
        for k in p.at.default_fields.iter().chain(&a.default_fields) {
            df.push(b.find(k).unwrap());
        }
        let re = Re::Cat(bl.items);
        Branch {
            variant,
            body: b.clone(),
            nfa: re::Nfa::new(&re, bl.caps.len()),
            re,
            caps: bl.caps,
            literal: bl.literal,
            new: a.new,
            base: if a.default || (variant.is_some() && p.at.default) { Some(default_prog(p)) } else { None },
            infer,
            default_fields: df,
        }
    }
    /// The strings that match the type's format, as a pattern without captures.
    pub fn lang(&self, t: &Ty) -> Re {
        let p = |s: &str| re::parse(s, &mut |_| panic!()).0;
        match t {
            Ty::U8 | Ty::Lg => p(r"\+?[0-9]+"),
            Ty::I16 => p(r"[+-]?[0-9]+"),
            Ty::Str => re::any_lazy(),
            Ty::Char => re::any_char(),
            Ty::Bool => p("true|false"),
            Ty::P(p) => self.lang_prog(p),
            Ty::Opt(_) | Ty::Ref(_) | Ty::RStr => panic!("{t:?} has no FromStrRegex"),
        }
    }
    pub fn lang_prog(&self, p: &Prog) -> Re {
        let bs = self.branches(p);
        if bs.is_empty() {
            return Re::Set(re::Set { neg: false, fold: false, rs: vec![] });
        }
        Re::Alt(bs.iter().map(|b| uncap(&b.re)).collect())
    }

    pub fn parse_ty(&self, t: &Ty, s: &str) -> Option<V> {
        match t {
            Ty::P(p) => self.parse(p, s).ok(),
            t => parse_leaf(t, s),
        }
    }
    fn parse_field(&self, f: &Field, s: &str) -> Option<V> {
        let t = value_ty(f);
        match f.at.fwith.or(f.at.dwith) {
            None => self.parse_ty(t, s),
            Some(W::Ang) => self.parse_ty(t, s.strip_prefix('<')?.strip_suffix('>')?),
            Some(W::Brk) => self.parse_ty(t, s.strip_prefix('[')?.strip_suffix(']')?),
            Some(W::Inc | W::IncAny) => match parse_leaf(&Ty::U8, s)? {
                V::I(0) => None,
                V::I(i) => Some(V::I(i - 1)),
                _ => None,
            },
            Some(W::Pick) => if s == "z" { None } else { self.parse_ty(t, s) },
            Some(W::Alt | W::Verb | W::Pat(_)) => self.parse_ty(t, s),
            Some(W::OnStr) => panic!(),
        }
    }

    pub fn matches(&self, p: &Prog, s: &str) -> bool {
        let cs: Vec<char> = s.chars().collect();
        self.branches(p).iter().any(|b| b.nfa.full_match(&cs, &mut self.steps.borrow_mut()).is_some())
    }

    pub fn parse(&self, p: &Prog, s: &str) -> Result<V, Fail> {
        let bs = self.branches(p);
        let cs: Vec<char> = s.chars().collect();
        if let Kind::S(_) = p.kind {
            return self.try_branch(p, &bs[0], &cs);
        }
        for b in bs.iter().filter(|b| b.literal.is_some()) {
            if let Ok(v) = self.try_branch(p, b, &cs) {
                return Ok(v);
            }
        }
        for b in bs.iter().filter(|b| b.literal.is_none()) {
            if let Ok(v) = self.try_branch(p, b, &cs) {
                return Ok(v);
            }
        }
        Err(Fail::NoMatch)
    }
    fn try_branch(&self, p: &Prog, b: &Branch, s: &[char]) -> Result<V, Fail> {
        let caps = match &b.literal {
            Some(l) => {
                *self.steps.borrow_mut() += 1;
                if !l.chars().eq(s.iter().copied()) {
                    return Err(Fail::NoMatch);
                }
                vec![]
            }
            None => b.nfa.full_match(s, &mut self.steps.borrow_mut()).ok_or(Fail::NoMatch)?,
        };
        let text = |slot: usize| caps[slot].map(|(x, y)| s[x..y].iter().collect::<String>());
        let mut bad = vec![];
        let mut vals: Vec<V> = vec![];
        let base: Option<&[V]> = if b.new.is_none() {
            b.base.as_ref().map(|v| match v {
                V::R(r) => &r[..],
                _ => panic!("enum default"),
            })
        } else {
            None
        };
        for (i, f) in b.body.fields.iter().enumerate() {
            let whole = b.caps.iter().position(|c| c.0 == i && c.1.is_empty());
            let v = if let Some(slot) = whole {
                let t = text(slot);
                let tt = t.clone().unwrap_or_default();
                let v = match (f.at.opt, t) {
                    (true, None) => Some(V::Nil),
                    (true, Some(t)) => self.parse_field(f, &t).map(|v| V::Some(Box::new(v))),
                    (false, t) => self.parse_field(f, &t.unwrap_or_default()),
                };
                match v {
                    Some(v) => v,
                    None => {
                        bad.push((b.body.key(i), tt));
                        V::Nil
                    }
                }
            } else if f.at.default || b.default_fields.contains(&i) {
                default_of(&f.ty)
            } else if let Some(base) = base {
                base[i].clone()
            } else {
                panic!("field {} of {} is not in the format", b.body.key(i), p.name)
            };
            vals.push(v);
        }
        for (slot, (i, path)) in b.caps.iter().enumerate() {
            if path.is_empty() {
                continue;
            }
            let t = text(slot).unwrap_or_default();
            let ok = set_path(&b.body.fields[*i].ty, &mut vals[*i], path, &|ty| self.parse_ty(ty, &t));
            if !ok {
                bad.push((format!("{}.{}", b.body.key(*i), path.join(".")), t));
            }
        }
        if !bad.is_empty() {
            return Err(Fail::Fields(bad));
        }
        if let Some(n) = b.new {
            let refuse = match n {
                New::Plain => false,
                New::Opt | New::Res => vals.first().is_some_and(is_bad),
                New::Never => true,
            };
            if refuse {
                return Err(Fail::NoMatch);
            }
        }
        Ok(match b.variant {
            None => V::R(vals),
            Some(i) => V::E(i, vals),
        })
    }

    // ------------------------------------------------------------ display

    pub fn display(&self, p: &Prog, v: &V) -> String {
        let (b, name, fm) = match &p.kind {
            Kind::S(b) => (b, None, p.at.fmt.clone()),
            Kind::E(vs) => {
                let V::E(i, _) = v else { panic!() };
                let x = &vs[*i];
                let name = styled(&x.name, x.at.style.or(p.at.style));
                let fm = x.at.fmt.clone().or(p.at.fmt.clone());
                (&x.body, Some(name), fm)
            }
        };
        let vals = v.rec();
        let mut out = String::new();
        let Some(fm) = fm else {
            return match name {
                Some(n) => {
                    assert!(b.shape == Shape::Unit);
                    n
                }
                None => {
                    assert!(vals.len() == 1);
                    self.disp_field(&b.fields[0], &vals[0])
                }
            };
        };
        for part in parse_fmt(&fm).unwrap() {
            *self.steps.borrow_mut() += 1;
            match part {
                Part::Lit(l) => out += &l,
                Part::Ph { path, .. } if path.is_empty() => out += name.as_ref().unwrap(),
                Part::Ph { path, .. } => {
                    let i = b.find(&path[0]).unwrap();
                    if path.len() == 1 {
                        out += &self.disp_field(&b.fields[i], &vals[i]);
                    } else {
                        let (t, v) = get_path(&b.fields[i].ty, &vals[i], &path[1..]);
                        out += &self.disp_ty(t, v);
                    }
                }
            }
        }
        out
    }
    /// The displayed text with MARK before every text that comes from an Lg.
    pub fn display_marked(&self, p: &Prog, v: &V) -> String {
        self.mark.set(true);
        let s = self.display(p, v);
        self.mark.set(false);
        s
    }
    pub fn disp_ty(&self, t: &Ty, v: &V) -> String {
        match (t, v) {
            (Ty::P(p), v) => self.display(p, v),
            (Ty::Ref(t), v) => self.disp_ty(t, v),
            (Ty::Lg, V::I(i)) if self.mark.get() => format!("{MARK}{i}"),
            (_, V::I(i)) => i.to_string(),
            (_, V::S(s)) => s.clone(),
            (_, V::C(c)) => c.to_string(),
            (_, V::B(b)) => b.to_string(),
            _ => panic!("{t:?} has no Display"),
        }
    }
    fn disp_field(&self, f: &Field, v: &V) -> String {
        let (t, v) = if f.at.opt {
            match (&f.ty, v) {
                (_, V::Nil) => return String::new(),
                (Ty::Opt(t), V::Some(v)) => (&**t, &**v),
                _ => panic!(),
            }
        } else {
            (&f.ty, v)
        };
        let itself = || match f.at.dwith {
            None | Some(W::Pick) | Some(W::Alt | W::Verb | W::Pat(_)) => self.disp_ty(t, v),
            Some(W::OnStr) => format!("~{}~", self.disp_ty(t, v)),
            Some(W::Ang) => format!("<{}>", self.disp_ty(t, v)),
            Some(W::Brk) => format!("[{}]", self.disp_ty(t, v)),
            Some(W::Inc | W::IncAny) => match v {
                V::I(i) => (i + 1).to_string(),
                _ => panic!(),
            },
        };
        let Some(fm) = &f.at.fmt else { return itself() };
        let mut out = String::new();
        for part in parse_fmt(fm).unwrap() {
            match part {
                Part::Lit(l) => out += &l,
                Part::Ph { path, .. } if path.is_empty() => out += &itself(),
                Part::Ph { path, .. } => {
                    let (t, v) = get_path(t, v, &path);
                    out += &self.disp_ty(t, v);
                }
            }
        }
        out
    }
}

fn get_path<'a>(t: &'a Ty, v: &'a V, path: &[String]) -> (&'a Ty, &'a V) {
    match path.split_first() {
        None => (t, v),
        Some((k, rest)) => {
            if let Ty::Ref(t) = t {
                return get_path(t, v, path);
            }
            let Ty::P(p) = t else { panic!("{k} in {t:?}") };
            let Kind::S(b) = &p.kind else { panic!() };
            let i = b.find(k).unwrap();
            get_path(&b.fields[i].ty, &v.rec()[i], rest)
        }
    }
}
fn set_path(t: &Ty, v: &mut V, path: &[String], get: &dyn Fn(&Ty) -> Option<V>) -> bool {
    match path.split_first() {
        None => match get(t) {
            Some(x) => {
                *v = x;
                true
            }
            None => false,
        },
        Some((k, rest)) => {
            let Ty::P(p) = t else { panic!("{k} in {t:?}") };
            let Kind::S(b) = &p.kind else { panic!() };
            let i = b.find(k).unwrap();
            let V::R(vs) = v else {
                // the field itself failed to parse
                return get_ty_only(&b.fields[i].ty, rest, get);
            };
            set_path(&b.fields[i].ty, &mut vs[i], rest, get)
        }
    }
}
fn get_ty_only(t: &Ty, path: &[String], get: &dyn Fn(&Ty) -> Option<V>) -> bool {
    match path.split_first() {
        None => get(t).is_some(),
        Some((k, rest)) => {
            let Ty::P(p) = t else { panic!() };
            let Kind::S(b) = &p.kind else { panic!() };
            let i = b.find(k).unwrap();
            get_ty_only(&b.fields[i].ty, rest, get)
        }
    }
}

// ---------------------------------------------------------------- value domains

#[derive(Clone)]
pub struct Dom {
    pub u8: Vec<i64>,
    pub i16: Vec<i64>,
    pub s: Vec<&'static str>,
    pub c: Vec<char>,
}
impl Default for Dom {
    fn default() -> Self {
        Dom { u8: vec![1, 2, 30], i16: vec![-1, 2], s: vec!["", "a", "b1"], c: vec!['a', 'b'] }
    }
}
pub fn values(d: &Dom, t: &Ty) -> Vec<V> {
    match t {
        Ty::U8 | Ty::Lg => d.u8.iter().map(|&i| V::I(i)).collect(),
        Ty::I16 => d.i16.iter().map(|&i| V::I(i)).collect(),
        Ty::Str => d.s.iter().map(|s| V::S(s.to_string())).collect(),
        Ty::Char => d.c.iter().map(|&c| V::C(c)).collect(),
        Ty::Bool => vec![V::B(true), V::B(false)],
        Ty::Opt(t) => {
            let mut v = vec![V::Nil];
            v.extend(values(d, t).into_iter().map(|v| V::Some(Box::new(v))));
            v
        }
        Ty::P(p) => prog_values(d, p),
        Ty::Ref(t) => values(d, t),
        Ty::RStr => values(d, &Ty::Str),
    }
}
const PRODUCT_CAP: usize = 200;
fn distinct(t: &Ty, i: usize) -> Option<V> {
    Some(match t {
        Ty::U8 | Ty::Lg => V::I(i as i64 + 10),
        Ty::I16 => V::I(-(i as i64) - 10),
        Ty::Str => V::S(format!("s{i}")),
        Ty::Char => V::C((b'A' + (i % 26) as u8) as char),
        Ty::Opt(t) => V::Some(Box::new(distinct(t, i)?)),
        Ty::Ref(t) => distinct(t, i)?,
        Ty::RStr => distinct(&Ty::Str, i)?,
        _ => return None,
    })
}
pub fn prog_values(d: &Dom, p: &Prog) -> Vec<V> {
    let prod = |b: &Body| {
        let doms: Vec<Vec<V>> = b.fields.iter().map(|f| values(d, &f.ty)).collect();
        if doms.iter().try_fold(1usize, |a, v| a.checked_mul(v.len()).filter(|&n| n <= PRODUCT_CAP)).is_none() {
            // too many: all different, and every single deviation from that
            let base: Vec<V> = b.fields.iter().zip(&doms).enumerate().map(|(i, (f, dom))| distinct(&f.ty, i).unwrap_or(dom[i % dom.len()].clone())).collect();
            let mut acc = vec![base.clone()];
            for (i, dom) in doms.iter().enumerate() {
                for v in dom {
                    let mut x = base.clone();
                    x[i] = v.clone();
                    acc.push(x);
                }
            }
            return acc;
        }
        let mut acc: Vec<Vec<V>> = vec![vec![]];
        for f in &b.fields {
            let vs = values(d, &f.ty);
            acc = acc.iter().flat_map(|a| vs.iter().map(move |v| [a.clone(), vec![v.clone()]].concat())).collect();
        }
        acc
    };
    match &p.kind {
        Kind::S(b) => prod(b).into_iter().map(V::R).collect(),
        Kind::E(vs) => vs
            .iter()
            .enumerate()
            .flat_map(|(i, v)| prod(&v.body).into_iter().map(move |x| V::E(i, x)))
            .collect(),
    }
}
