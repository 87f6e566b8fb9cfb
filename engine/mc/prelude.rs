#![allow(warnings)]
use mc::{Lg, Mv, V, is_bad, tag};
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use std::option;
use std::fmt::{Formatter, Write as _};

pub struct Ang;
pub struct Brk;
pub struct Inc;
pub struct IncAny;
pub struct Pick;
pub struct Alt;
pub struct Verb;
pub struct Pat(pub usize);
pub struct OnStr;
impl DisplayFormat<str> for OnStr {
    fn write(&self, f: &mut Formatter, v: &str) -> std::fmt::Result { write!(f, "~{v}~") }
}
#[derive(Debug)]
pub struct WErr;

impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Ang {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { write!(f, "<{v}>") }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Ang {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> {
        s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).ok_or(WErr)?.parse().map_err(|_| WErr)
    }
}
impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Brk {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { write!(f, "[{v}]") }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Brk {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> {
        s.strip_prefix('[').and_then(|s| s.strip_suffix(']')).ok_or(WErr)?.parse().map_err(|_| WErr)
    }
    fn regex_pattern(&self) -> String { r"\[[^\[\]]*\]".into() }
}
impl DisplayFormat<u8> for Inc {
    fn write(&self, f: &mut Formatter, v: &u8) -> std::fmt::Result { write!(f, "{}", *v as u32 + 1) }
}
impl FromStrFormat<u8> for Inc {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<u8, WErr> { s.parse::<u8>().ok().and_then(|n| n.checked_sub(1)).ok_or(WErr) }
    #[allow(deprecated)]
    fn regex(&self) -> Option<String> { Some("[0-9]+".into()) }
}
impl DisplayFormat<u8> for IncAny {
    fn write(&self, f: &mut Formatter, v: &u8) -> std::fmt::Result { write!(f, "{}", *v as u32 + 1) }
}
impl FromStrFormat<u8> for IncAny {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<u8, WErr> { s.parse::<u8>().ok().and_then(|n| n.checked_sub(1)).ok_or(WErr) }
}
impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Pick {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { v.fmt(f) }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Pick {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> { if s == "z" { Err(WErr) } else { s.parse().map_err(|_| WErr) } }
}
impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Alt {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { v.fmt(f) }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Alt {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> { s.parse().map_err(|_| WErr) }
    fn regex_pattern(&self) -> String { "a|aa|(b)c".into() }
}
impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Verb {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { v.fmt(f) }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Verb {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> { s.parse().map_err(|_| WErr) }
    fn regex_pattern(&self) -> String { "(?xi) a b* # x\n | (c) \\ ?".into() }
}
impl<T: std::fmt::Display + ?Sized> DisplayFormat<T> for Pat {
    fn write(&self, f: &mut Formatter, v: &T) -> std::fmt::Result { v.fmt(f) }
}
impl<T: std::str::FromStr> FromStrFormat<T> for Pat {
    type Err = WErr;
    fn parse(&self, s: &str) -> Result<T, WErr> { s.parse().map_err(|_| WErr) }
    fn regex_pattern(&self) -> String { mc::PATS[self.0].0.into() }
}

fn d<T: Mv + std::fmt::Display>(v: &V) -> Result<String, String> {
    let t = T::mk(v);
    let mut s = String::new();
    if write!(s, "{t}").is_err() { return Err("fmt::Error".into()); }
    // the text does not depend on the formatter it is written with
    let mut w = String::new();
    for (n, a) in [("{:>99}", format_args!("{t:>99}")), ("{:.0}", format_args!("{t:.0}")), ("{:#}", format_args!("{t:#}")), ("{:+03}", format_args!("{t:+03}"))] {
        w.clear();
        if write!(w, "{a}").is_err() || w != s { return Err([n, " gives ", w.as_str(), ", {} gives ", s.as_str()].concat()); }
    }
    Ok(s)
}
fn sk<T: Mv + std::fmt::Display>(v: &V, w: &mut dyn std::fmt::Write) -> std::fmt::Result { let t = T::mk(v); write!(w, "{t}") }
fn p<T: Mv + std::str::FromStr<Err = parse_display::ParseError>>(s: &str) -> Result<V, String> {
    match s.parse::<T>() { Ok(t) => Ok(t.un()), Err(e) => Err(e.to_string()) }
}
fn rx<T: parse_display::FromStrRegex>() -> String { T::from_str_regex() }
std::thread_local! { static RX: std::cell::RefCell<Option<(String, Option<regex::Regex>)>> = Default::default(); }
fn rx_match(rx: &str, s: &str) -> Option<bool> {
    RX.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().is_none_or(|c| c.0 != rx) {
            // embedded between two literals, so that a pattern that is not self-contained is noticed
            *c = Some((rx.into(), regex::Regex::new(&format!(r"\A(?:{rx})\z")).ok()));
        }
        c.as_ref().unwrap().1.as_ref().map(|r| r.is_match(s))
    })
}
