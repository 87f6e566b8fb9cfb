//! A small regex matcher (an automaton explored in order of preference) with leftmost-first (Perl-like) preference, used as the
//! reference semantics for patterns.  It is deliberately independent of the `regex` crate: patterns
//! are composed as trees, never as text, so that the way the derive embeds one pattern in another
//! is checked rather than copied.

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Set(Set),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep { re: Box<Re>, min: usize, max: Option<usize>, greedy: bool },
    Cap(usize, Box<Re>),
    Start,
    End,
    LineStart,
    LineEnd,
    WordB(bool),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Set {
    pub neg: bool,
    pub fold: bool,
    pub rs: Vec<(char, char)>,
}
impl Set {
    pub fn has(&self, c: char) -> bool {
        let f = |c: char| self.rs.iter().any(|&(a, b)| a <= c && c <= b);
        let mut r = f(c);
        if self.fold {
            let one = |c: char, mut it: Box<dyn Iterator<Item = char>>| match (it.next(), it.next()) {
                (Some(x), None) => x,
                _ => c,
            };
            let (l, u) = (one(c, Box::new(c.to_lowercase())), one(c, Box::new(c.to_uppercase())));
            r = r || f(l) || f(u) || f(one(u, Box::new(u.to_lowercase())));
        }
        r != self.neg
    }
}

pub fn lit(c: char) -> Re {
    Re::Set(Set { neg: false, fold: false, rs: vec![(c, c)] })
}
pub fn lits(s: &str) -> Re {
    Re::Cat(s.chars().map(lit).collect())
}
pub fn any_lazy() -> Re {
    Re::Rep { re: Box::new(any_char()), min: 0, max: None, greedy: false }
}
pub fn any_char() -> Re {
    Re::Set(Set { neg: true, fold: false, rs: vec![] })
}

pub type Caps = Vec<Option<(usize, usize)>>;

fn is_word(c: Option<&char>) -> bool {
    c.is_some_and(|c| c.is_alphanumeric() || matches!(c, '_' | '\u{300}'..='\u{36f}' | '\u{200c}' | '\u{200d}'))
}

enum Inst {
    Set(Set),
    /// tries the first before the second
    Split(usize, usize),
    Jmp(usize),
    Save(usize),
    Start,
    End,
    LineStart,
    LineEnd,
    WordB(bool),
    Match,
}
/// The pattern as an automaton.
fn nullable(re: &Re) -> bool {
    match re {
        Re::Set(_) => false,
        Re::Cat(v) => v.iter().all(nullable),
        Re::Alt(v) => v.iter().any(nullable),
        Re::Cap(_, r) => nullable(r),
        Re::Rep { re, min, .. } => *min == 0 || nullable(re),
        Re::Start | Re::End | Re::LineStart | Re::LineEnd | Re::WordB(_) => true,
    }
}

pub struct Nfa {
    insts: Vec<Inst>,
    ncaps: usize,
}
impl Nfa {
    pub fn new(re: &Re, ncaps: usize) -> Nfa {
        let mut n = Nfa { insts: vec![], ncaps };
        n.emit(re);
        n.insts.push(Inst::Match);
        n
    }
    fn emit(&mut self, re: &Re) {
        match re {
            Re::Set(s) => self.insts.push(Inst::Set(s.clone())),
            Re::Cat(v) => v.iter().for_each(|r| self.emit(r)),
            Re::Alt(v) => {
                let mut ends = vec![];
                for (i, r) in v.iter().enumerate() {
                    if i + 1 < v.len() {
                        let split = self.insts.len();
                        self.insts.push(Inst::Match);
                        self.emit(r);
                        ends.push(self.insts.len());
                        self.insts.push(Inst::Match);
                        self.insts[split] = Inst::Split(split + 1, self.insts.len());
                    } else {
                        self.emit(r);
                    }
                }
                let end = self.insts.len();
                for e in ends {
                    self.insts[e] = Inst::Jmp(end);
                }
            }
            Re::Cap(n, r) => {
                self.insts.push(Inst::Save(n * 2));
                self.emit(r);
                self.insts.push(Inst::Save(n * 2 + 1));
            }
            Re::Rep { re, min, max, greedy } => {
                // as the regex crate does it, which decides what an iteration that is empty counts for
                let again = max.is_none() && (*min > 0 || nullable(re));
                for _ in 0..if again { (*min).max(1) - 1 } else { *min } {
                    self.emit(re);
                }
                let split = |greedy: bool, body: usize, out: usize| if greedy { Inst::Split(body, out) } else { Inst::Split(out, body) };
                match max {
                    None if again => {
                        let opt = (*min == 0).then(|| {
                            self.insts.push(Inst::Match);
                            self.insts.len() - 1
                        });
                        let at = self.insts.len();
                        self.emit(re);
                        let out = self.insts.len() + 1;
                        self.insts.push(split(*greedy, at, out));
                        if let Some(o) = opt {
                            self.insts[o] = split(*greedy, at, out);
                        }
                    }
                    None => {
                        let at = self.insts.len();
                        self.insts.push(Inst::Match);
                        self.emit(re);
                        self.insts.push(Inst::Jmp(at));
                        self.insts[at] = split(*greedy, at + 1, self.insts.len());
                    }
                    Some(max) => {
                        let mut ats = vec![];
                        for _ in *min..*max {
                            ats.push(self.insts.len());
                            self.insts.push(Inst::Match);
                            self.emit(re);
                        }
                        let end = self.insts.len();
                        for at in ats {
                            self.insts[at] = split(*greedy, at + 1, end);
                        }
                    }
                }
            }
            Re::Start => self.insts.push(Inst::Start),
            Re::End => self.insts.push(Inst::End),
            Re::LineStart => self.insts.push(Inst::LineStart),
            Re::LineEnd => self.insts.push(Inst::LineEnd),
            Re::WordB(b) => self.insts.push(Inst::WordB(*b)),
        }
    }
    /// Full match; the captures of the preferred match. `steps` counts the (state, position) pairs visited.
    /// A pair that failed once fails always (there are no back references), so each is visited once.
    pub fn full_match(&self, s: &[char], steps: &mut u64) -> Option<Caps> {
        enum Job {
            Go(usize, usize),
            Restore(usize, Option<usize>),
        }
        let w = s.len() + 1;
        let mut seen = vec![false; self.insts.len() * w];
        let mut saves: Vec<Option<usize>> = vec![None; self.ncaps * 2];
        let mut jobs = vec![Job::Go(0, 0)];
        while let Some(j) = jobs.pop() {
            let (mut pc, mut i) = match j {
                Job::Restore(n, v) => {
                    saves[n] = v;
                    continue;
                }
                Job::Go(pc, i) => (pc, i),
            };
            loop {
                if std::mem::replace(&mut seen[pc * w + i], true) {
                    break;
                }
                *steps += 1;
                match &self.insts[pc] {
                    Inst::Set(set) => {
                        if i < s.len() && set.has(s[i]) {
                            i += 1;
                            pc += 1;
                        } else {
                            break;
                        }
                    }
                    Inst::Split(a, b) => {
                        jobs.push(Job::Go(*b, i));
                        pc = *a;
                    }
                    Inst::Jmp(a) => pc = *a,
                    Inst::Save(n) => {
                        jobs.push(Job::Restore(*n, saves[*n]));
                        saves[*n] = Some(i);
                        pc += 1;
                    }
                    Inst::Start if i == 0 => pc += 1,
                    Inst::End if i == s.len() => pc += 1,
                    Inst::LineStart if i == 0 || s[i - 1] == '\n' => pc += 1,
                    Inst::LineEnd if i == s.len() || s[i] == '\n' => pc += 1,
                    Inst::WordB(want) => {
                        let a = i > 0 && is_word(s.get(i - 1));
                        if (a != is_word(s.get(i))) != *want {
                            break;
                        }
                        pc += 1;
                    }
                    Inst::Start | Inst::End | Inst::LineStart | Inst::LineEnd => break,
                    Inst::Match => {
                        if i == s.len() {
                            return Some((0..self.ncaps).map(|n| Some((saves[n * 2]?, saves[n * 2 + 1]?))).collect());
                        }
                        break;
                    }
                }
            }
        }
        None
    }
}
/// Full match of `re` against `s`.
pub fn full_match(re: &Re, ncaps: usize, s: &[char], steps: &mut u64) -> Option<Caps> {
    Nfa::new(re, ncaps).full_match(s, steps)
}

/// How group names are turned into capture slots (or a replacement pattern).
pub enum Grp {
    Slot(usize),
    Replace(Re),
}

pub struct Parser<'a> {
    c: Vec<char>,
    i: usize,
    on_group: &'a mut dyn FnMut(&str) -> Grp,
    pub named: bool,
}
#[derive(Clone, Copy)]
struct Flags {
    i: bool,
    s: bool,
    m: bool,
    u: bool,
    x: bool,
}

/// Parses a pattern.  Supported: literals, escapes, classes, `.`, anchors, groups (plain, non-capturing,
/// named in both styles with any name characters), flags `i s m U x`, greedy and lazy repetitions, alternation.
pub fn parse(s: &str, on_group: &mut dyn FnMut(&str) -> Grp) -> (Re, bool) {
    let mut p = Parser { c: s.chars().collect(), i: 0, on_group, named: false };
    let mut f = Flags { i: false, s: false, m: false, u: false, x: false };
    let r = p.alt(&mut f);
    assert!(p.i == p.c.len(), "pattern not consumed: {s}");
    (r, p.named)
}

impl Parser<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn looking(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.c.get(self.i + k) == Some(&c))
    }
    fn alt(&mut self, f: &mut Flags) -> Re {
        let mut alts = vec![];
        let mut cat = vec![];
        loop {
            match self.peek() {
                None | Some(')') => break,
                Some('|') => {
                    self.i += 1;
                    alts.push(Re::Cat(std::mem::take(&mut cat)));
                }
                _ => {
                    if let Some(r) = self.piece(f) {
                        cat.push(r);
                    }
                }
            }
        }
        alts.push(Re::Cat(cat));
        if alts.len() == 1 { alts.pop().unwrap() } else { Re::Alt(alts) }
    }
    fn piece(&mut self, f: &mut Flags) -> Option<Re> {
        if f.x {
            while self.peek().is_some_and(|c| c.is_whitespace() || c == '#') {
                if self.peek() == Some('#') {
                    while self.peek().is_some_and(|c| c != '\n') {
                        self.i += 1;
                    }
                } else {
                    self.i += 1;
                }
            }
            match self.peek() {
                None | Some(')') | Some('|') => return None,
                _ => {}
            }
        }
        let mut r = self.atom(f)?;
        loop {
            let (min, max) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    let end = self.c[self.i..].iter().position(|&c| c == '}').unwrap() + self.i;
                    let t: String = self.c[self.i + 1..end].iter().collect();
                    self.i = end;
                    match t.split_once(',') {
                        None => (t.parse().unwrap(), Some(t.parse().unwrap())),
                        Some((a, "")) => (a.parse().unwrap(), None),
                        Some((a, b)) => (a.parse().unwrap(), Some(b.parse().unwrap())),
                    }
                }
                _ => return Some(r),
            };
            self.i += 1;
            let mut greedy = true;
            if self.peek() == Some('?') {
                self.i += 1;
                greedy = false;
            }
            r = Re::Rep { re: Box::new(r), min, max, greedy: greedy != f.u };
        }
    }
    fn atom(&mut self, f: &mut Flags) -> Option<Re> {
        let c = self.peek().unwrap();
        self.i += 1;
        let one = |c: char, f: &Flags| Re::Set(Set { neg: false, fold: f.i, rs: vec![(c, c)] });
        Some(match c {
            '.' => {
                if f.s {
                    any_char()
                } else {
                    Re::Set(Set { neg: true, fold: false, rs: vec![('\n', '\n')] })
                }
            }
            '^' if f.m => Re::LineStart,
            '$' if f.m => Re::LineEnd,
            '^' => Re::Start,
            '$' => Re::End,
            '[' => {
                let mut set = self.class(f);
                set.fold = f.i;
                Re::Set(set)
            }
            '\\' => {
                let e = self.peek().unwrap();
                self.i += 1;
                match e {
                    'n' => one('\n', f),
                    't' => one('\t', f),
                    'A' => Re::Start,
                    'z' => Re::End,
                    'b' => Re::WordB(true),
                    'B' => Re::WordB(false),
                    'd' | 'D' | 'w' | 'W' | 's' | 'S' => Re::Set(perl(e)),
                    'p' | 'P' => Re::Set(Set { fold: f.i, ..self.property(e == 'P') }),
                    e => one(self.escape(e), f),
                }
            }
            '(' => {
                let mut inner = *f;
                let mut slot = None;
                let mut repl = None;
                if self.looking("?<") || self.looking("?P<") {
                    self.i += if self.looking("?P<") { 3 } else { 2 };
                    let mut name = String::new();
                    while self.peek() != Some('>') {
                        name.push(self.peek().unwrap());
                        self.i += 1;
                    }
                    self.i += 1;
                    self.named = true;
                    match (self.on_group)(&name) {
                        Grp::Slot(n) => slot = Some(n),
                        Grp::Replace(r) => repl = Some(r),
                    }
                } else if self.looking("?") {
                    self.i += 1;
                    let mut on = true;
                    loop {
                        let c = self.peek().unwrap();
                        self.i += 1;
                        match c {
                            ':' => break,
                            ')' => {
                                *f = inner;
                                return None;
                            }
                            '-' => on = false,
                            'i' => inner.i = on,
                            's' => inner.s = on,
                            'U' => inner.u = on,
                            'x' => inner.x = on,
                            'm' => inner.m = on,
                            'R' | 'u' => panic!("flag {c} is not modelled"),
                            c => panic!("unknown flag {c}"),
                        }
                    }
                }
                let r = self.alt(&mut inner);
                assert_eq!(self.peek(), Some(')'));
                self.i += 1;
                match (slot, repl) {
                    (Some(n), _) => Re::Cap(n, Box::new(r)),
                    (_, Some(x)) => if inner.i { fold(x) } else { x },
                    _ => r,
                }
            }
            c => one(c, f),
        })
    }
    /// The character of an escape whose backslash and letter are consumed.
    fn escape(&mut self, e: char) -> char {
        match e {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            'a' => '\x07',
            'f' => '\x0c',
            'v' => '\x0b',
            'x' | 'u' | 'U' => {
                let mut t = String::new();
                if self.peek() == Some('{') {
                    self.i += 1;
                    while self.peek() != Some('}') {
                        t.push(self.peek().unwrap());
                        self.i += 1;
                    }
                    self.i += 1;
                } else {
                    for _ in 0..[2, 4, 8][['x', 'u', 'U'].iter().position(|&c| c == e).unwrap()] {
                        t.push(self.peek().unwrap());
                        self.i += 1;
                    }
                }
                char::from_u32(u32::from_str_radix(&t, 16).unwrap()).unwrap()
            }
            e => e,
        }
    }
    /// `\p{..}`, whose letter is consumed; exact up to U+00FF.
    fn property(&mut self, neg: bool) -> Set {
        let mut name = String::new();
        if self.peek() == Some('{') {
            self.i += 1;
            while self.peek() != Some('}') {
                name.push(self.peek().unwrap());
                self.i += 1;
            }
        } else {
            name.push(self.peek().unwrap());
        }
        self.i += 1;
        let f: fn(char) -> bool = match &name[..] {
            "Lu" => char::is_uppercase,
            "Ll" => char::is_lowercase,
            "L" => char::is_alphabetic,
            "Nd" => |c| c.is_ascii_digit(),
            n => panic!("the property {n} is not modelled"),
        };
        let rs = ('\0'..='\u{ff}').filter(|&c| f(c) && !matches!(c, 'ª' | 'º')).map(|c| (c, c)).collect();
        Set { neg, fold: false, rs }
    }
    fn class(&mut self, _: &Flags) -> Set {
        let mut neg = false;
        if self.peek() == Some('^') {
            neg = true;
            self.i += 1;
        }
        let mut rs: Vec<(char, char)> = vec![];
        let mut op: Option<(char, Vec<(char, char)>)> = None;
        let mut first = true;
        let join = |op: Option<(char, Vec<(char, char)>)>, rs: Vec<(char, char)>| match op {
            None => rs,
            Some(('&', l)) => inter(&l, &rs),
            Some(('-', l)) => inter(&l, &negate(&rs)),
            Some((_, l)) => {
                let mut r = inter(&l, &negate(&rs));
                r.extend(inter(&negate(&l), &rs));
                r
            }
        };
        loop {
            if self.looking("[:") {
                let end = self.c[self.i..].iter().position(|&c| c == ']').unwrap() + self.i;
                let t: String = self.c[self.i + 2..end - 1].iter().collect();
                self.i = end + 1;
                let n = t.starts_with('^');
                let r = match t.trim_start_matches('^') {
                    "alpha" => vec![('a', 'z'), ('A', 'Z')],
                    "digit" => vec![('0', '9')],
                    "upper" => vec![('A', 'Z')],
                    "space" => vec![('\t', '\r'), (' ', ' ')],
                    n => panic!("the class {n} is not modelled"),
                };
                rs.extend(if n { negate(&r) } else { r });
                first = false;
                continue;
            }
            if let Some(o) = ["&&", "--", "~~"].iter().find(|o| !first && self.looking(o)) {
                self.i += 2;
                op = Some((o.chars().next().unwrap(), join(op.take(), std::mem::take(&mut rs))));
                continue;
            }
            let mut c = self.peek().unwrap();
            self.i += 1;
            if c == ']' && !first {
                break;
            }
            first = false;
            if c == '[' && !matches!(self.peek(), Some('(' | '{')) {
                let s = self.class(&Flags { i: false, s: false, m: false, u: false, x: false });
                rs.extend(if s.neg { negate(&s.rs) } else { s.rs });
                continue;
            }
            if c == '\\' {
                c = self.peek().unwrap();
                self.i += 1;
                match c {
                    'd' | 'w' | 's' => {
                        rs.extend(perl(c).rs);
                        continue;
                    }
                    'D' | 'W' | 'S' => {
                        rs.extend(negate(&perl(c).rs));
                        continue;
                    }
                    'p' | 'P' => {
                        let s = self.property(c == 'P');
                        rs.extend(if s.neg { negate(&s.rs) } else { s.rs });
                        continue;
                    }
                    _ => c = self.escape(c),
                }
            }
            if self.peek() == Some('-') && !matches!(self.c.get(self.i + 1), Some(']' | '-')) {
                self.i += 1;
                let mut e = self.peek().unwrap();
                self.i += 1;
                if e == '\\' {
                    e = self.peek().unwrap();
                    self.i += 1;
                    e = self.escape(e);
                }
                rs.push((c, e));
            } else {
                rs.push((c, c));
            }
        }
        Set { neg, fold: false, rs: join(op, rs) }
    }
}
/// Everything else.
fn negate(rs: &[(char, char)]) -> Vec<(char, char)> {
    let mut v = rs.to_vec();
    v.sort();
    let mut out = vec![];
    let mut next = Some('\0');
    let succ = |c: char| if c == char::MAX { None } else { Some(char::from_u32(c as u32 + 1).unwrap_or('\u{e000}')) };
    let pred = |c: char| char::from_u32((c as u32).wrapping_sub(1)).unwrap_or('\u{d7ff}');
    for (a, b) in v {
        let Some(n) = next else { break };
        if n < a {
            out.push((n, pred(a)));
        }
        if b >= n {
            next = succ(b);
        }
    }
    if let Some(n) = next {
        out.push((n, char::MAX));
    }
    out
}
fn inter(a: &[(char, char)], b: &[(char, char)]) -> Vec<(char, char)> {
    a.iter().flat_map(|&(a0, a1)| b.iter().map(move |&(b0, b1)| (a0.max(b0), a1.min(b1)))).filter(|(x, y)| x <= y).collect()
}
/// The variant's name put in the scope of a case-insensitive flag matches like any text there.
fn fold(r: Re) -> Re {
    match r {
        Re::Set(s) => Re::Set(Set { fold: true, ..s }),
        Re::Cat(v) => Re::Cat(v.into_iter().map(fold).collect()),
        Re::Alt(v) => Re::Alt(v.into_iter().map(fold).collect()),
        Re::Cap(n, r) => Re::Cap(n, Box::new(fold(*r))),
        Re::Rep { re, min, max, greedy } => Re::Rep { re: Box::new(fold(*re)), min, max, greedy },
        r => r,
    }
}
fn perl(c: char) -> Set {
    let rs = match c.to_ascii_lowercase() {
        'd' => vec![('0', '9')],
        'w' => vec![('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_'), ('\u{c0}', '\u{d6}'), ('\u{d8}', '\u{f6}'), ('\u{f8}', '\u{24f}')],
        _ => vec![(' ', ' '), ('\t', '\r'), ('\u{85}', '\u{85}'), ('\u{a0}', '\u{a0}'), ('\u{1680}', '\u{1680}'), ('\u{2000}', '\u{200a}'), ('\u{2028}', '\u{2029}'), ('\u{202f}', '\u{202f}'), ('\u{205f}', '\u{205f}'), ('\u{3000}', '\u{3000}')],
    };
    Set { neg: c.is_ascii_uppercase(), fold: false, rs }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn t(p: &str, s: &str) -> Option<Vec<Option<String>>> {
        let mut n = 0;
        let (re, _) = parse(p, &mut |_| {
            n += 1;
            Grp::Slot(n - 1)
        });
        let cs: Vec<char> = s.chars().collect();
        full_match(&re, n, &cs, &mut 0)
            .map(|c| c.iter().map(|x| x.map(|(a, b)| cs[a..b].iter().collect())).collect())
    }
    #[test]
    fn basics() {
        assert_eq!(t("(?<a>.*?)(?<b>.*)", "xy"), Some(vec![Some("".into()), Some("xy".into())]));
        assert_eq!(t("(?<a>a|ab)(?<b>c|bcd)(?<c>d*)", "abcd"), Some(vec![Some("a".into()), Some("bcd".into()), Some("".into())]));
        assert_eq!(t("(?:(?<a>x))??x?", "x"), Some(vec![None]));
        assert_eq!(t("[^a-c]{2}", "dd"), Some(vec![]));
        assert_eq!(t("[^a-c]{2}", "da"), None);
        assert_eq!(t("(?i:A)b", "ab"), Some(vec![]));
        assert_eq!(t("(?i:A)b", "aB"), None);
        // against the regex crate's own documentation
        let yes = |p: &str, s: &str| assert!(t(p, s).is_some(), "{p} {s:?}");
        let no = |p: &str, s: &str| assert!(t(p, s).is_none(), "{p} {s:?}");
        yes(r"\x41\x{e9}\u0042\u{1F600}\n", "AéB😀\n");
        yes("(?m)x$\n^y", "x\ny");
        no("x$\n^y", "x\ny");
        yes("[[:alpha:]_]+", "aZ_");
        no("[[:^alpha:]]", "a");
        yes("[a-z&&[^x]]", "y");
        no("[a-z&&[^x]]", "x");
        yes("[a-z--x]", "y");
        no("[a-z--x]", "x");
        yes("[a-c~~b-d]+", "ad");
        no("[a-c~~b-d]", "b");
        yes(r"\p{Lu}\pL[\PL]", "Aé1");
        yes(r"[^\D]", "1");
        yes(r"[]x]+", "]x");
    }
}
