use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@ include ../vx_helpers.rs
//@ include ../sweep_lists.rs
//@ include ../reals.rs
//@ include ../sweep_core.rs
//@ include ../sweep_hand.rs
//@ include ../sweep_solve.rs
//@ include ../sweep_theorems.rs
//@ include ../sweep_receive.rs
//@ include hydrogen.rs
}
fn main() {}
