"""Mirror crate of the regular grid: src/sweep/grid and the box it fills."""
import re

import boxmirror
import parts

G = "src/sweep/grid/cartesian.rs"
LIB = boxmirror.LIB.replace("pub mod communication { pub type Rank = mpi::Rank; }", """
pub mod communication { pub type Rank = mpi::Rank; pub struct WorldSize(pub usize); pub struct WorldRank(pub Rank);
    impl Clone for WorldSize { fn clone(&self) -> Self { WorldSize(self.0) } } impl Copy for WorldSize {}
    impl std::ops::Deref for WorldSize { type Target = usize; fn deref(&self) -> &usize { &self.0 } }
    impl std::ops::Deref for WorldRank { type Target = Rank; fn deref(&self) -> &Rank { &self.0 } }
}
pub mod components { pub struct Position(pub crate::units::VecLength); impl std::ops::Deref for Position { type Target = crate::units::VecLength; fn deref(&self) -> &crate::units::VecLength { &self.0 } } }
pub mod hash_map { pub type HashMap<K, V> = std::collections::HashMap<K, V>; pub type HashSet<K> = std::collections::HashSet<K>; }
pub mod sweep { pub mod grid; }
""").replace("pub struct Simulation;", "pub use crate::communication::{WorldRank, WorldSize}; pub use crate::particle::LocalParticle; pub struct Simulation;")
DEPS = boxmirror.DEPS + ["log"]


def ints(t):
    """Machine integers (the coordinates of cells, ranks) as symbolic integers."""
    t = re.sub(r"(?<!NUM_DIMENSIONS )\bas (i32|Rank)\b", ".vx_int()", t)
    t = re.sub(r"(?<!NUM_DIMENSIONS as )\bi32\b", "symx::I", t)
    return "use symx::ToInt as _;\n" + re.sub(r"\bas Float\b", ".vx_real()", t)


# what walks over all cells: there is one cell at a time in the symbolic run
WALK = parts.without_methods("init_cartesian_grid_system", "iter_all_contained", "construct", "spawn_local_cells", "next_index", "get_all_integer_positions")
SYMLIB = LIB.replace("pub type Rank = mpi::Rank;", "pub type Rank = symx::I;").replace("pub type HashMap<K, V> = std::collections::HashMap<K, V>;", """
    /// stand-in: a list of pairs, searched with the equality of its (symbolic) keys
    pub struct HashMap<K, V>(pub Vec<(K, V)>);
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap(vec![]) } }
    impl<K: PartialEq, V> HashMap<K, V> {
        pub fn get(&self, k: &K) -> Option<&V> { self.0.iter().find(|e| e.0 == *k).map(|e| &e.1) }
        pub fn contains_key(&self, k: &K) -> bool { self.get(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> { for e in &mut self.0 { if e.0 == k { return Some(std::mem::replace(&mut e.1, v)) } } self.0.push((k, v)); None }
    }
    impl<'a, K: PartialEq, V> std::ops::Index<&'a K> for HashMap<K, V> { type Output = V; fn index(&self, k: &K) -> &V { self.get(k).expect("an entry for the key") } }
""").replace("pub mod particle;", "pub mod particle { use crate::communication::Rank; #[derive(Clone, Debug, PartialEq, Eq, Hash, Copy, PartialOrd, Ord)] pub struct ParticleId { pub index: u32, pub rank: Rank } pub struct LocalParticle; pub struct HaloParticle { pub rank: Rank } }")


def files(sym, append):
    fs = [f for f in boxmirror.files(sym, "", boxmirror.USES) if f["src"] != "src/particle.rs"]
    p = [boxmirror.plain] + parts.entry(G, sym)["transform"]
    if sym:
        return fs + [
            {"src": G, "transform": [WALK, ints] + p, "append": append, "drop": ["use bevy_ecs", "use log"]},
            parts.entry("src/sweep/grid/cell.rs", sym),
            parts.entry("src/sweep/grid/mod.rs", sym, append="pub use cartesian::vx;\n", drop=["use cartesian::init_cartesian_grid_system"]),
        ]
    return fs + [
        {"src": "src/particle.rs", "keep": ["use mpi", "use crate::communication", "struct ParticleId", "struct LocalParticle", "struct HaloParticle"], "append": "use vxderive::{Component, Named};"},
        {"src": G, "transform": p, "append": append},
        parts.entry("src/sweep/grid/cell.rs", sym),
        parts.entry("src/sweep/grid/mod.rs", sym, append="pub use cartesian::vx;\n"),
    ]
