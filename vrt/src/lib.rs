//! Support library for the generated-input checks of funcmap.
//!
//! - `choice`: choice sequences (random or replayed) and shrinking on them
//! - `tok`: instrumented element types (identity, drop ledger)
//! - `gen` / `dump`: value generation and canonical consumption of values
//! - `mem`: counts heap blocks (leaked memory)
//! - `rm`: reference mappings for library types (written without funcmap)
//! - `eng`: the comparison engine used by generated programs
#![allow(clippy::all)]

pub mod arr;
pub mod choice;
pub mod dump;
pub mod eng;
pub mod fam;
pub mod gen;
pub mod hand;
pub mod law;
pub mod lib_eng;
pub mod mem;
pub mod rm;
pub mod tok;

pub use dump::Dump;
pub use fam::{Fam, Fams};
pub use gen::{Gen, G};
pub use tok::{Cp, Tok, H, L, S, W, Z};

/// Holds for every type: lets generated definitions carry bounds freely.
pub trait Tr0 {}
impl<T: ?Sized> Tr0 for T {}
pub trait Tr1<X: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Tr1<X> for T {}
/// Type-level identity.
pub trait As {
    type X;
}
impl<T> As for T {
    type X = T;
}
