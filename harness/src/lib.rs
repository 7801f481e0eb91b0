//! Proof harnesses. Each module holds the harnesses of one property, behind a feature of its name.
//!
//! Compiled twice by the driver:
//! * with `--cfg kani_contracts`, where `fn_check!` is a `proof_for_contract` harness of the contract
//!   that is attached to the function in /repo;
//! * without it, where `fn_check!` asserts the same specification after a plain call. This is what
//!   decides, and what a counterexample is replayed against.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(dead_code, unused_imports, unused_macros, non_snake_case, deprecated, clippy::all)]
#![cfg(kani)]

#[macro_use]
mod macros;

#[cfg(any(feature = "c14", feature = "c15", feature = "c16"))]
mod text;
#[cfg(any(feature = "c14", feature = "c15"))]
mod sfen;


#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c25")]
mod shared;
