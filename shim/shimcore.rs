//! Stands in for `core` in the code under test (C14), see shim.rs.
#![no_std]
#![allow(warnings)]
pub use core::*;
pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use shim::sync::atomic::*;
    }
}
pub mod hint {
    pub use core::hint::*;
    pub use shim::hint::spin_loop;
}
