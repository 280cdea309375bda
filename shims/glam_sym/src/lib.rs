//! glam's vector types over symbolic reals.
use std::ops::*;
use symx::R;
macro_rules! vector { ($v:ident, $n:expr, $($c:ident $i:expr),*) => {
    #[derive(Clone, Copy, Debug, PartialEq, Default)]
    pub struct $v { $(pub $c: R),* }
    impl $v {
        pub const ZERO: $v = $v { $($c: R::int(0)),* };
        pub const ONE: $v = $v { $($c: R::int(1)),* };
        pub const fn new($($c: R),*) -> Self { $v { $($c),* } }
        pub const fn splat(x: R) -> Self { $v { $($c: x),* } }
        pub fn dot(self, o: Self) -> R { let mut s = R::int(0); $( s = s + self.$c * o.$c; )* s }
        pub fn length_squared(self) -> R { self.dot(self) }
        pub fn length(self) -> R { self.length_squared().sqrt() }
        pub fn distance(self, o: Self) -> R { (self - o).length() }
        pub fn distance_squared(self, o: Self) -> R { (self - o).length_squared() }
        pub fn normalize(self) -> Self { self * (R::int(1) / self.length()) }
        pub fn min(self, o: Self) -> Self { $v { $($c: self.$c.min(o.$c)),* } }
        pub fn max(self, o: Self) -> Self { $v { $($c: self.$c.max(o.$c)),* } }
        pub fn clamp(self, a: Self, b: Self) -> Self { self.max(a).min(b) }
        pub fn abs(self) -> Self { $v { $($c: self.$c.abs()),* } }
        pub fn floor(self) -> Self { $v { $($c: self.$c.floor()),* } }
        pub fn ceil(self) -> Self { $v { $($c: self.$c.ceil()),* } }
        pub fn round(self) -> Self { $v { $($c: self.$c.round()),* } }
        pub fn recip(self) -> Self { $v { $($c: R::int(1) / self.$c),* } }
        pub fn lerp(self, o: Self, s: R) -> Self { self + (o - self) * s }
        pub fn max_element(self) -> R { let a = self.to_array(); a[1..].iter().fold(a[0], |x, y| x.max(*y)) }
        pub fn min_element(self) -> R { let a = self.to_array(); a[1..].iter().fold(a[0], |x, y| x.min(*y)) }
        pub fn to_array(self) -> [R; $n] { [$(self.$c),*] }
        pub fn from_array(a: [R; $n]) -> Self { $v { $($c: a[$i]),* } }
        pub fn is_finite(self) -> bool { true $(&& self.$c.is_finite())* }
        pub fn is_nan(self) -> bool { false $(|| self.$c.is_nan())* }
    }
    impl From<[R; $n]> for $v { fn from(a: [R; $n]) -> Self { Self::from_array(a) } }
    impl From<$v> for [R; $n] { fn from(a: $v) -> Self { a.to_array() } }
    impl Neg for $v { type Output = $v; fn neg(self) -> $v { $v { $($c: -self.$c),* } } }
    impl Mul<$v> for R { type Output = $v; fn mul(self, o: $v) -> $v { o * self } }
    impl Div<$v> for R { type Output = $v; fn div(self, o: $v) -> $v { $v { $($c: self / o.$c),* } } }
    impl Add<$v> for R { type Output = $v; fn add(self, o: $v) -> $v { $v { $($c: self + o.$c),* } } }
    impl Sub<$v> for R { type Output = $v; fn sub(self, o: $v) -> $v { $v { $($c: self - o.$c),* } } }
    impl Index<usize> for $v { type Output = R; fn index(&self, i: usize) -> &R { [$(&self.$c),*][i] } }
    impl IndexMut<usize> for $v { fn index_mut(&mut self, i: usize) -> &mut R { $( if i == $i { return &mut self.$c } )* panic!("index") } }
    impl std::iter::Sum for $v { fn sum<I: Iterator<Item = $v>>(i: I) -> $v { i.fold($v::ZERO, |a, b| a + b) } }
    impl<'a> std::iter::Sum<&'a $v> for $v { fn sum<I: Iterator<Item = &'a $v>>(i: I) -> $v { i.fold($v::ZERO, |a, b| a + *b) } }
    vector!(@op $v Add add AddAssign add_assign, $($c)*);
    vector!(@op $v Sub sub SubAssign sub_assign, $($c)*);
    vector!(@op $v Mul mul MulAssign mul_assign, $($c)*);
    vector!(@op $v Div div DivAssign div_assign, $($c)*);
};
(@op $v:ident $t:ident $f:ident $ta:ident $fa:ident, $($c:ident)*) => {
    impl $t<$v> for $v { type Output = $v; fn $f(self, o: $v) -> $v { $v { $($c: self.$c.$f(o.$c)),* } } }
    impl<'a> $t<&'a $v> for $v { type Output = $v; fn $f(self, o: &'a $v) -> $v { $v { $($c: self.$c.$f(o.$c)),* } } }
    impl $t<R> for $v { type Output = $v; fn $f(self, o: R) -> $v { $v { $($c: self.$c.$f(o)),* } } }
    impl $ta<$v> for $v { fn $fa(&mut self, o: $v) { *self = self.$f(o) } }
    impl $ta<R> for $v { fn $fa(&mut self, o: R) { *self = self.$f(o) } }
}; }
vector!(DVec2, 2, x 0, y 1);
vector!(DVec3, 3, x 0, y 1, z 2);
impl DVec2 {
    pub const X: DVec2 = DVec2 { x: R::int(1), y: R::int(0) };
    pub const Y: DVec2 = DVec2 { x: R::int(0), y: R::int(1) };
    pub fn perp(self) -> DVec2 { DVec2 { x: -self.y, y: self.x } }
    pub fn perp_dot(self, o: DVec2) -> R { self.x * o.y - self.y * o.x }
}
impl DVec3 {
    pub const X: DVec3 = DVec3 { x: R::int(1), y: R::int(0), z: R::int(0) };
    pub const Y: DVec3 = DVec3 { x: R::int(0), y: R::int(1), z: R::int(0) };
    pub const Z: DVec3 = DVec3 { x: R::int(0), y: R::int(0), z: R::int(1) };
    pub fn cross(self, o: DVec3) -> DVec3 { DVec3 { x: self.y * o.z - self.z * o.y, y: self.z * o.x - self.x * o.z, z: self.x * o.y - self.y * o.x } }
}
