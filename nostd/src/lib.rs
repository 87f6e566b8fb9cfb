#![no_std]
pub use parse_display;
