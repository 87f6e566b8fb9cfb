//! Reference models, program spaces and exploration loops for model checking parse-display.
pub mod desc;
pub mod explore;
pub mod model;
pub mod re;
pub mod render;
pub mod report;
pub mod spaces;

pub use desc::*;
pub use explore::{Case, Subj, run};
pub use model::{PATS, is_bad};

/// Conversion between a generated type and reference values.
pub trait Mv: Sized {
    fn mk(v: &V) -> Self;
    fn un(&self) -> V;
}
/// Display and FromStr of a number; FromStr logs its inputs.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Lg(pub u8);
thread_local! { pub static LOG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
thread_local! {
    pub static FAULT: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    pub static CALLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
impl std::fmt::Display for Lg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // fault injection: the call number FAULT writes one character and fails
        let n = CALLS.with(|c| c.replace(c.get() + 1));
        if FAULT.with(|c| c.get()) == Some(n) {
            f.write_str("!")?;
            return Err(std::fmt::Error);
        }
        self.0.fmt(f)
    }
}
impl std::str::FromStr for Lg {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        LOG.with(|l| l.borrow_mut().push(s.into()));
        s.parse().map(Lg)
    }
}
impl Mv for Lg {
    fn mk(v: &V) -> Self {
        Lg(u8::mk(v))
    }
    fn un(&self) -> V {
        self.0.un()
    }
}
pub fn tag(v: &V) -> usize {
    match v {
        V::E(i, _) => *i,
        _ => 0,
    }
}
macro_rules! mv_int {
    ($($t:ty),*) => {$(impl Mv for $t {
        fn mk(v: &V) -> Self { let V::I(i) = v else { panic!() }; (*i).try_into().unwrap() }
        fn un(&self) -> V { V::I((*self).try_into().unwrap()) }
    })*};
}
mv_int!(u8, i16, u32, i64);
impl Mv for String {
    fn mk(v: &V) -> Self {
        let V::S(s) = v else { panic!() };
        s.clone()
    }
    fn un(&self) -> V {
        V::S(self.clone())
    }
}
impl Mv for char {
    fn mk(v: &V) -> Self {
        let V::C(c) = v else { panic!() };
        *c
    }
    fn un(&self) -> V {
        V::C(*self)
    }
}
impl Mv for bool {
    fn mk(v: &V) -> Self {
        let V::B(c) = v else { panic!() };
        *c
    }
    fn un(&self) -> V {
        V::B(*self)
    }
}
impl<T: Mv> Mv for &'static T {
    fn mk(v: &V) -> Self {
        Box::leak(Box::new(T::mk(v)))
    }
    fn un(&self) -> V {
        T::un(self)
    }
}
impl Mv for &'static str {
    fn mk(v: &V) -> Self {
        String::leak(String::mk(v))
    }
    fn un(&self) -> V {
        V::S(self.to_string())
    }
}
impl<T: Mv> Mv for Option<T> {
    fn mk(v: &V) -> Self {
        match v {
            V::Nil => None,
            V::Some(v) => Some(T::mk(v)),
            _ => panic!(),
        }
    }
    fn un(&self) -> V {
        match self {
            None => V::Nil,
            Some(v) => V::Some(Box::new(v.un())),
        }
    }
}
