// Executable contract of the tree-node index, for both dimensions.
pub mod vxn {
    use vxcore::*;

    use super::NodeIndex;
    use super::TWO_TO_NUM_DIMENSIONS;
    pub fn node_index() {
        check("number of children of a tree node", TWO_TO_NUM_DIMENSIONS == if cfg!(feature = "2d") { 4 } else { 8 }, || "TWO_TO_NUM_DIMENSIONS".into(), || TWO_TO_NUM_DIMENSIONS.to_string());
        for n in std::iter::once(NodeIndex::ThisNode).chain((0..TWO_TO_NUM_DIMENSIONS as u8).map(NodeIndex::Child)) {
            let inp = || format!("{n:?}");
            case(true, inp);
            let b: u8 = n.into();
            let back: NodeIndex = b.into();
            check("a tree-node index survives the conversion to a byte", back == n, inp, || format!("{b} {back:?}"));
        }
        for b in 0..=255u8 {
            let n: NodeIndex = b.into();
            let back: u8 = n.into();
            case(true, || format!("byte {b}"));
            check("a byte survives the conversion to a tree-node index", back == b, || format!("byte {b}"), || format!("{n:?} {back}"));
        }
    }
    pub fn run() { quiet(); node_index(); done() }
}
