//! Exploration loops: run a real (compiled) program over its whole bounded input space and compare
//! every step with the reference model.
use crate::desc::*;
use crate::model::*;
use crate::render;
use crate::report::Report;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// The compiled program.
pub struct Subj {
    pub idx: usize,
    pub disp: Option<fn(&V) -> Result<String, String>>,
    /// display into a given sink
    pub sink: Option<fn(&V, &mut dyn std::fmt::Write) -> std::fmt::Result>,
    pub parse: Option<fn(&str) -> Result<V, String>>,
    /// from_str_regex
    pub rx: Option<fn() -> String>,
    /// full match of a string against from_str_regex
    pub rx_match: Option<fn(&str, &str) -> Option<bool>>,
}

/// One program and its input space.
#[derive(Clone)]
pub struct Case {
    pub prog: Prog,
    pub dom: Dom,
    /// input alphabet; literals of the displayed texts are added if `auto`
    pub alpha: Vec<char>,
    pub auto: bool,
    /// all strings over the alphabet up to the greatest length whose number is at most this
    pub budget: usize,
    pub max_len: usize,
    /// extra inputs; their single-edit neighbours are explored too
    pub seeds: Vec<String>,
    pub do_disp: bool,
    pub do_parse: bool,
    pub do_rx: bool,
    pub do_msg: bool,
    pub do_round: bool,
    pub do_fault: bool,
    pub edits: bool,
}
impl Case {
    pub fn new(prog: Prog) -> Case {
        Case {
            do_disp: false,
            do_parse: false,
            prog,
            dom: Dom::default(),
            alpha: vec![],
            auto: true,
            budget: 600,
            max_len: 8,
            seeds: vec![],
            do_rx: false,
            do_msg: false,
            do_round: false,
            do_fault: false,
            edits: true,
        }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("PANIC: {m}")
    })
}

pub fn run(suite: &str, tier: &str, subjects: Vec<Subj>) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases = crate::spaces::cases(suite, tier);
    let mut r = Report::default();
    for s in &subjects {
        eprintln!("PROG {}", s.idx);
        one(&cases[s.idx], s, &mut r);
    }
    r.finish();
}

/// All strings over `alpha` up to the length the budget allows, shortest first.
pub fn strings(alpha: &[char], budget: usize, max_len: usize) -> (Vec<String>, usize) {
    let mut out = vec![String::new()];
    let mut layer = vec![String::new()];
    let mut len = 0;
    while len < max_len && !alpha.is_empty() && out.len() + layer.len() * alpha.len() <= budget.max(alpha.len() + 1) {
        let mut next = Vec::with_capacity(layer.len() * alpha.len());
        for s in &layer {
            for &c in alpha {
                let mut t = s.clone();
                t.push(c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
        len += 1;
    }
    (out, len)
}
pub fn edits(s: &str, alpha: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mk = |v: Vec<char>| v.into_iter().collect::<String>();
    for i in 0..=c.len() {
        for &a in alpha {
            let mut v = c.clone();
            v.insert(i, a);
            out.push(mk(v));
            if i < c.len() && c[i] != a {
                let mut v = c.clone();
                v[i] = a;
                out.push(mk(v));
            }
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            out.push(mk(v));
        }
        if i + 1 < c.len() && c[i] != c[i + 1] {
            let mut v = c.clone();
            v.swap(i, i + 1);
            out.push(mk(v));
        }
    }
    out.push(mk([c.clone(), c.clone()].concat()));
    out
}

/// A sink that fails at one write, and keeps what it got.
struct Sink {
    writes: Vec<String>,
    fail_at: Option<usize>,
    /// writes after the failing one
    late: usize,
    failed: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.late += 1;
            return Err(std::fmt::Error);
        }
        if self.fail_at == Some(self.writes.len()) {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.writes.push(s.into());
        Ok(())
    }
}
/// Every write failing and every field's formatter failing.
fn faults(m: &Model, p: &Prog, s: &Subj, v: &V, src: &str, r: &mut Report) {
    let f = s.sink.unwrap();
    let marked = m.display_marked(p, v);
    let text = marked.replace(MARK, "");
    let go = |fail_at: Option<usize>, fault: Option<usize>| {
        let mut k = Sink { writes: vec![], fail_at, late: 0, failed: false };
        crate::CALLS.with(|c| c.set(0));
        crate::FAULT.with(|c| c.set(fault));
        let res = guard(|| f(v, &mut k));
        crate::FAULT.with(|c| c.set(None));
        let res = match res {
            Ok(Ok(())) => "Ok".to_string(),
            Ok(Err(_)) => "Err".into(),
            Err(e) => e,
        };
        (res, k.writes, k.late, crate::CALLS.with(|c| c.get()))
    };
    r.add("traces_validated_against_impl", 1);
    r.add("states", 1);
    let (res, writes, _, calls) = go(None, None);
    let at = || render::expr(p, v);
    if res != "Ok" || writes.concat() != text {
        r.violation(s.idx, src, "display", &at(), &text, &format!("{res} {:?}", writes.concat()));
        return;
    }
    r.sample(|| format!("{src} value {v:?}: {} writes, {calls} fields", writes.len()));
    for k in 0..writes.len() {
        r.add("states", 1);
        r.add("transitions", k as u64 + 1);
        r.add("traces_validated_against_impl", 1);
        r.add("sink_faults", 1);
        let (res, got, late, _) = go(Some(k), None);
        r.outcome(&(s.idx, k, &got));
        if res != "Err" || got != writes[..k] || late > 0 {
            let want = format!("Err after {:?}", writes[..k].concat());
            r.violation(s.idx, src, "display into a sink that fails", &format!("{} write {k}", at()), &want, &format!("{res} after {:?}, {late} writes after the failure", got.concat()));
        }
    }
    let parts: Vec<&str> = marked.split(MARK).collect();
    for j in 0..parts.len() - 1 {
        r.add("states", 1);
        r.add("transitions", j as u64 + 1);
        r.add("traces_validated_against_impl", 1);
        r.add("field_faults", 1);
        let want = parts[..=j].concat() + "!";
        let (res, got, _, calls) = go(None, Some(j));
        r.outcome(&(s.idx, j, &want));
        if res != "Err" || got.concat() != want || calls != j + 1 {
            r.violation(s.idx, src, "display with a field that fails", &format!("{} field formatter {j}", at()), &format!("Err after {want:?}"), &format!("{res} after {:?}, {calls} formatters called", got.concat()));
        }
    }
    // a failure leaves nothing behind
    let (res, got, _, _) = go(None, None);
    if res != "Ok" || got != writes {
        r.violation(s.idx, src, "display after a failure", &at(), &text, &format!("{res} {:?}", got.concat()));
    }
}

fn one(case: &Case, s: &Subj, r: &mut Report) {
    let p = &case.prog;
    let m = Model::default();
    let src = render::source(p);
    r.add("programs", 1);
    let vals = prog_values(&case.dom, p);
    let needs_vals = case.do_disp || case.do_round || (case.do_parse && case.auto);
    let mut texts: Vec<String> = vec![];
    if needs_vals {
        for v in &vals {
            match guard(|| m.display(p, v)) {
                Ok(t) => texts.push(t),
                Err(e) if case.do_disp || case.do_round => panic!("model: {e}\n{src}"),
                Err(_) => break,
            }
        }
    }
    if case.do_disp {
        let d = s.disp.unwrap();
        for (v, want) in vals.iter().zip(&texts) {
            let before = *m.steps.borrow();
            let _ = m.display(p, v);
            let steps = *m.steps.borrow() - before;
            r.add("transitions", steps + 1);
            r.add("states", 1);
            r.add("traces_validated_against_impl", 1);
            let got = guard(|| d(v)).unwrap_or_else(Err);
            r.outcome(&want);
            r.sample(|| format!("{src} value {v:?} displays {want:?}"));
            if got.as_ref() != Ok(want) {
                r.violation(s.idx, &src, "display", &format!("{}", render::expr(p, v)), want, &format!("{got:?}"));
            }
        }
    }
    if case.do_fault {
        for v in &vals {
            faults(&m, p, s, v, &src, r);
        }
    }
    if case.do_round {
        let d = s.disp.unwrap();
        let f = s.parse.unwrap();
        for (v, text) in vals.iter().zip(&texts) {
            // only where the reference semantics say that the text is unambiguous
            r.add("states", 1);
            if m.parse(p, text).as_ref() != Ok(v) {
                r.add("ambiguous_skipped", 1);
                continue;
            }
            r.add("round_trips", 1);
            r.add("transitions", 2);
            r.add("traces_validated_against_impl", 1);
            let got = guard(|| d(v).and_then(|t| f(&t))).unwrap_or_else(Err);
            r.outcome(&text);
            r.sample(|| format!("{src} value {v:?} <-> {text:?}"));
            if got.as_ref() != Ok(v) {
                r.violation(s.idx, &src, "parse(display(v))", &render::expr(p, v), &format!("{v:?}"), &format!("{got:?} (displayed as {:?})", guard(|| d(v))));
            }
        }
    }
    if !(case.do_parse || case.do_rx) {
        return;
    }
    let mut alpha = case.alpha.clone();
    if case.auto {
        for t in texts.iter().chain(&case.seeds) {
            for c in t.chars() {
                if !alpha.contains(&c) {
                    alpha.push(c);
                }
            }
        }
    }
    let (mut inputs, len) = strings(&alpha, case.budget, case.max_len);
    r.add("max_exhaustive_length_sum", len as u64);
    let mut seen: HashSet<String> = inputs.iter().cloned().collect();
    let mut edges = inputs.len() as u64 - 1;
    let mut add = |t: String, inputs: &mut Vec<String>| {
        if seen.insert(t.clone()) {
            inputs.push(t);
        }
    };
    for t in texts.iter().chain(&case.seeds) {
        add(t.clone(), &mut inputs);
        if case.edits {
            for e in edits(t, &alpha) {
                edges += 1;
                add(e, &mut inputs);
            }
        }
    }
    // characters that a parser may be tempted to drop or to fold, around and after the start of what is displayed
    for t in texts.iter().chain(&case.seeds).take(if case.edits { 24 } else { 6 }) {
        for c in [' ', '\t', '\n', '\r', '\0', '\u{a0}', '\u{feff}', 'é', '\u{2028}', '+', '0', '"', '_'] {
            edges += 2;
            add(format!("{c}{t}"), &mut inputs);
            add(format!("{t}{c}"), &mut inputs);
        }
        for u in [t.to_lowercase(), t.to_uppercase(), t.trim().to_string(), t.replace(' ', ""), t.replace(['-', '_'], ""), format!("{t}\r\n"), format!("\"{t}\"")] {
            edges += 1;
            add(u, &mut inputs);
        }
    }
    r.add("states", inputs.len() as u64);
    r.add("transitions", edges);
    let before = *m.steps.borrow();
    let rx = s.rx.filter(|_| case.do_rx).map(|f| guard(f));
    for t in &inputs {
        if case.do_parse {
            let f = s.parse.unwrap();
            r.add("traces_validated_against_impl", 1);
            let want = m.parse(p, t);
            crate::LOG.with(|l| l.borrow_mut().clear());
            let got = guard(|| f(t)).unwrap_or_else(Err);
            let log = crate::LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
            let ok = match (&want, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(e), Err(g)) => {
                    if g.starts_with("PANIC") {
                        false
                    } else if case.do_msg {
                        match e {
                            Fail::NoMatch => g == "parse failed.",
                            // the first that failed in the order of the logged conversions (if they are logged)
                            Fail::Fields(fs) => {
                                let first = log.iter().find(|t| fs.iter().any(|f| f.1 == **t));
                                fs.iter().any(|(f, t)| *g == format!("field `{f}` parse failed.") && first.is_none_or(|x| x == t))
                            }
                        }
                    } else {
                        true
                    }
                }
                _ => false,
            };
            if want.is_ok() {
                r.add("accepted", 1);
            } else {
                r.add("rejected", 1);
            }
            if case.do_msg {
                r.outcome(&(s.idx, format!("{want:?}")));
                r.sample(|| format!("{src} parses {t:?}: {want:?}"));
            } else if let Ok(v) = &want {
                r.outcome(v);
                r.sample(|| format!("{src} parses {t:?} as {v:?}"));
            }
            if !ok {
                r.violation(s.idx, &src, "from_str", t, &format!("{want:?}"), &format!("{got:?}"));
            }
            if case.do_round {
                if let (Ok(v), Some(d)) = (&want, s.disp) {
                    if m.display(p, v) == *t {
                        r.add("reverse_round_trips", 1);
                        let got = guard(|| f(t).and_then(|v| d(&v))).unwrap_or_else(Err);
                        if got.as_ref() != Ok(t) {
                            r.violation(s.idx, &src, "display(parse(s))", t, t, &format!("{got:?}"));
                        }
                    }
                }
            }
        }
        if let (Some(rx), Some(mf)) = (&rx, s.rx_match) {
            r.add("traces_validated_against_impl", 1);
            let want = m.matches(p, t);
            let got = match rx {
                Ok(rx) => guard(|| mf(rx, t)),
                Err(e) => Err(e.clone()),
            };
            r.add(if want { "matched" } else { "unmatched" }, 1);
            if got != Ok(Some(want)) {
                r.violation(s.idx, &src, "from_str_regex", t, &format!("full match: {want}"), &format!("{got:?} (pattern {rx:?})"));
            }
            if case.do_parse {
                continue;
            }
            r.outcome(&(s.idx, want));
            if want {
                r.sample(|| format!("{src} from_str_regex {rx:?} matches {t:?}"));
            }
        }
    }
    r.add("model_steps", *m.steps.borrow() - before);
}
