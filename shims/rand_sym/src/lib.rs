//! A random number generator whose draws are symbolic: any value of the range asked for.
use symx::{assume, R};
pub mod rngs { #[derive(Clone)] pub struct StdRng; }
pub trait SeedableRng { fn seed_from_u64(_: u64) -> Self; }
impl SeedableRng for rngs::StdRng { fn seed_from_u64(_: u64) -> Self { rngs::StdRng } }
pub trait Rng {
    fn gen_range(&mut self, r: std::ops::Range<R>) -> R { let v = R::var("random"); assume(r.start <= v); assume(v < r.end); v }
    fn gen(&mut self) -> R { let v = R::var("random"); assume(R::int(0) <= v); assume(v < R::int(1)); v }
}
impl Rng for rngs::StdRng {}
pub use Rng as RngCore;
