//! Reference model of LR(1) parsing (written from the textbook definitions, independently of
//! parsegen), the runtime recorder used by compiled parsers, and the explorer that drives them.
pub mod drive;
pub mod earley;
pub mod grammar;
pub mod lr1;
pub mod rt;
pub mod tok;
pub mod ty;

/// A type that crates under test have too, under the same path from the root.
#[derive(Debug, Clone)]
pub struct Same(pub u8);

/// Hands the path of this crate's `Same` on to a macro.
#[macro_export]
macro_rules! hand_over {
    ($m:ident) => { $m! { $crate :: Same } };
}
