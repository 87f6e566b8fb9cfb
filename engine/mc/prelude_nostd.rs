#![no_std]
#![allow(warnings)]
// The names `std` and `::std` do not resolve in this crate; what the types of the programs need is
// imported by name.
#[macro_use]
extern crate std as real_std;
use mc::{Lg, Mv, V, is_bad, tag};
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use core::option;
use core::fmt::{Formatter, Write as _};
use real_std::prelude::rust_2024::*;

pub struct Ang;
pub struct Brk;
pub struct Inc;
pub struct IncAny;
pub struct Pick;
pub struct Alt;
pub struct Verb;
pub struct Pat(pub usize);
pub struct OnStr;
impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Ang {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { write!(f, "<{v}>") }
}
impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Brk {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { write!(f, "[{v}]") }
}
impl DisplayFormat<u8> for Inc {
    fn write(&self, f: &mut Formatter, v: &u8) -> core::fmt::Result { write!(f, "{}", *v as u32 + 1) }
}
impl DisplayFormat<u8> for IncAny {
    fn write(&self, f: &mut Formatter, v: &u8) -> core::fmt::Result { write!(f, "{}", *v as u32 + 1) }
}
impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Pick {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { v.fmt(f) }
}
impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Alt {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { v.fmt(f) }
}

impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Verb {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { v.fmt(f) }
}
impl<T: core::fmt::Display + ?Sized> DisplayFormat<T> for Pat {
    fn write(&self, f: &mut Formatter, v: &T) -> core::fmt::Result { v.fmt(f) }
}
impl DisplayFormat<str> for OnStr {
    fn write(&self, f: &mut Formatter, v: &str) -> core::fmt::Result { write!(f, "~{v}~") }
}

fn d<T: Mv + core::fmt::Display>(v: &V) -> Result<String, String> {
    let t = T::mk(v);
    let mut s = String::new();
    if write!(s, "{t}").is_err() { return Err("fmt::Error".into()); }
    // the text does not depend on the formatter it is written with
    let mut w = String::new();
    for (n, a) in [("{:>99}", format_args!("{t:>99}")), ("{:.0}", format_args!("{t:.0}")), ("{:#}", format_args!("{t:#}")), ("{:+03}", format_args!("{t:+03}"))] {
        w.clear();
        if write!(w, "{a}").is_err() || w != s { return Err([n, " gives ", w.as_str(), ", {} gives ", s.as_str()].concat()); }
    }
    Ok(s)
}
fn sk<T: Mv + core::fmt::Display>(v: &V, w: &mut dyn core::fmt::Write) -> core::fmt::Result { let t = T::mk(v); write!(w, "{t}") }
fn p<T: Mv + core::str::FromStr<Err = parse_display::ParseError>>(s: &str) -> Result<V, String> {
    match s.parse::<T>() { Ok(t) => Ok(t.un()), Err(e) => Err(e.to_string()) }
}
