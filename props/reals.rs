// Numbers as reals: the machine's floating point is treated as exact arithmetic here.  Every operation is
// defined (not assumed); only what an `if` learns from a number (comparisons) is an assumed contract.
pub struct R { pub r: Ghost<real> }
impl R {
    pub open spec fn v(&self) -> real { self.r@ }
    pub fn zero() -> (x: R) ensures x.v() == 0real { R { r: Ghost(0real) } }
    pub fn one() -> (x: R) ensures x.v() == 1real { R { r: Ghost(1real) } }
    pub fn of(n: usize) -> (x: R) ensures x.v() == n as real { R { r: Ghost(n as real) } }
    #[verifier::external_body]
    pub fn is_positive(&self) -> (b: bool) ensures b == (self.v() > 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_negative(&self) -> (b: bool) ensures b == (self.v() < 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn lt(&self, o: &R) -> (b: bool) ensures b == (self.v() < o.v()) { unimplemented!() }
}
pub open spec fn num(x: real) -> R { R { r: Ghost(x) } }
impl Clone for R { fn clone(&self) -> (x: R) ensures x == *self { R { r: Ghost(self.r@) } } }
impl Copy for R {}
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { num(self.v() - o.v()) }
}
impl core::ops::Sub for R { type Output = R; fn sub(self, o: R) -> (x: R) { R { r: Ghost(self.r@ - o.r@) } } }
impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { num(self.v() + o.v()) }
}
impl core::ops::Add for R { type Output = R; fn add(self, o: R) -> (x: R) { R { r: Ghost(self.r@ + o.r@) } } }
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { num(self.v() * o.v()) }
}
impl core::ops::Mul for R { type Output = R; fn mul(self, o: R) -> (x: R) { R { r: Ghost(self.r@ * o.r@) } } }
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: R) -> bool { true }
    open spec fn div_spec(self, o: R) -> R { num(self.v() / o.v()) }
}
impl core::ops::Div for R { type Output = R; fn div(self, o: R) -> (x: R) { R { r: Ghost(self.r@ / o.r@) } } }
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { num(-self.v()) }
}
impl core::ops::Neg for R { type Output = R; fn neg(self) -> (x: R) { R { r: Ghost(-self.r@) } } }
impl vstd::std_specs::ops::AddAssignSpecImpl<R> for R {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: R) -> bool { true }
    open spec fn add_assign_spec(&self, o: R) -> &R { &num(self.v() + o.v()) }
}
impl core::ops::AddAssign for R { fn add_assign(&mut self, o: R) { self.r = Ghost(self.r@ + o.r@); } }
