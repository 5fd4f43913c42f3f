//! Stands in for `std` in the copy of the crate under test: everything is the real `std`, except threads,
//! clocks, locks, thread channels, the hash maps' hasher, and console output (dropped).
pub use ::std::*;
pub mod collections;
pub mod sync;
pub mod thread;
pub mod time;

#[macro_export]
macro_rules! println { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }}; }
#[macro_export]
macro_rules! print { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }}; }
#[macro_export]
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }}; }
#[macro_export]
macro_rules! eprint { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }}; }
