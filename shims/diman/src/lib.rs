//! The type aliases of the unit crate, which is not available offline.
pub type Quotient<A, B> = <A as std::ops::Div<B>>::Output;
pub type Product<A, B> = <A as std::ops::Mul<B>>::Output;
