#![allow(dead_code, unused)]
#![cfg(kani)]
pub mod mask;
pub mod oracle;
#[macro_use] pub mod watched;
mod iter;
mod ops;
mod multi;
mod map;
mod bits;
mod index;
mod constu;
