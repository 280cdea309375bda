//! ordered_float over symbolic reals.
use std::cmp::Ordering;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OrderedFloat<T>(pub T);
impl<T: PartialEq> Eq for OrderedFloat<T> {}
impl<T: PartialOrd> PartialOrd for OrderedFloat<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp(&o.0) } fn lt(&self, o: &Self) -> bool { self.0 < o.0 } fn gt(&self, o: &Self) -> bool { self.0 > o.0 } }
impl<T: PartialOrd> Ord for OrderedFloat<T> { fn cmp(&self, o: &Self) -> Ordering { self.0.partial_cmp(&o.0).unwrap() } }
impl<T> std::ops::Deref for OrderedFloat<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
