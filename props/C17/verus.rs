use vstd::prelude::*;
verus! {

// ---- assumed contract of std::mem::MaybeUninit: reading needs a value that was put there -----------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T> { t: Option<T> }
impl<T> MaybeUninit<T> {
    /// what it holds; nothing: not initialised
    pub uninterp spec fn holds(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.holds() == Some(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r.holds() == None::<T> { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T) requires self.holds().is_some() ensures r == self.holds().unwrap() { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_ref(&self) -> (r: &T) requires self.holds().is_some() ensures *r == self.holds().unwrap() { unimplemented!() }
}

#[verifier::reject_recursive_types(T)]
//@ extract src/communication/communicated_option.rs :: struct CommunicatedOption
//@ end

impl<T> CommunicatedOption<T> {
    /// marked valid exactly when a value is there
    pub closed spec fn wf(&self) -> bool { self.valid == self.data.holds().is_some() }
    /// the optional value it stands for
    pub closed spec fn stands_for(&self) -> Option<T> { if self.valid { self.data.holds() } else { None } }

    //@ extract src/communication/communicated_option.rs :: impl<T> From<Option<T>> for CommunicatedOption<T> :: fn from
    //@ ret r
    //@ spec
        ensures r.wf(), r.stands_for() == data
    //@ end
}
impl<T: Clone> CommunicatedOption<T> {
    //@ extract src/communication/communicated_option.rs :: impl<T> Clone for CommunicatedOption<T> where T: Clone :: fn clone
    //@ ret r
    //@ spec
        requires self.wf()
        ensures r.wf(), r.stands_for().is_some() == self.stands_for().is_some(),
            self.stands_for().is_some() ==> cloned(self.stands_for().unwrap(), r.stands_for().unwrap())
    //@ end
}
pub struct Back<T> { t: T }
impl<T> Back<T> {
    //@ extract src/communication/communicated_option.rs :: impl<T> From<CommunicatedOption<T>> for Option<T> :: fn from
    //@ ret r
    //@ spec
        requires other.wf()
        ensures r == other.stands_for()
    //@ end
}
/// the way there and back
fn round_trip<T>(x: Option<T>) -> (r: Option<T>) ensures r == x { Back::<T>::from(CommunicatedOption::<T>::from(x)) }

// ---- tree-node index -----------------------------------------------------------------------------------
/// the number of children of a node, 4 in 2D and 8 in 3D (the constant itself is under the executable contract)
pub uninterp spec fn children() -> usize;
#[verifier::external_body]
pub fn vx_children() -> (r: usize) ensures r == children(), children() == 4 || children() == 8 { unimplemented!() }

pub enum NodeIndex { ThisNode, Child(u8) }
pub open spec fn is_index(n: NodeIndex) -> bool { match n { NodeIndex::ThisNode => true, NodeIndex::Child(c) => c < children() } }
impl NodeIndex {
    //@ extract src/quadtree/node_index.rs :: impl From<u8> for NodeIndex :: fn from
    //@ ret r
    //@ rewrite * `TWO_TO_NUM_DIMENSIONS` `vx_children()`
    //@ spec
        ensures val as usize == children() ==> r == NodeIndex::ThisNode, val as usize != children() ==> r == NodeIndex::Child(val)
    //@ end
}
pub struct Byte {}
impl Byte {
    //@ extract src/quadtree/node_index.rs :: impl From<NodeIndex> for u8 :: fn from
    //@ rewrite 1 `-> Self` `-> u8`
    //@ rewrite * `TWO_TO_NUM_DIMENSIONS` `vx_children()`
    //@ ret r
    //@ spec
        ensures val == NodeIndex::ThisNode ==> r as usize == children(), match val { NodeIndex::Child(c) => r == c, NodeIndex::ThisNode => true }
    //@ end
}
fn index_round_trip(n: NodeIndex) -> (r: NodeIndex) requires is_index(n) ensures r == n { let b = Byte::from(n); let _c = vx_children(); NodeIndex::from(b) }
fn byte_round_trip(b: u8) -> (r: u8) ensures r == b { let _c = vx_children(); Byte::from(NodeIndex::from(b)) }
}
fn main() {}
