"""Mirror crate of the chemistry: src/chemistry."""
import parts
import sweepmirror
import units

H = "src/chemistry/hydrogen_only/mod.rs"
T = "src/chemistry/timescale.rs"
C = "src/chemistry/mod.rs"
LIB, DEPS = sweepmirror.LIB, sweepmirror.DEPS


def files(append):
    fs = sweepmirror.files("pub use self::direction::Directions as VxDirections;\n")
    return [dict(f, append=f.get("append", "") + append) if f["src"] == H else f for f in fs]


SYMLIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; }
pub mod hash_map { pub type HashMap<K, V> = std::collections::HashMap<K, V>; }
pub mod chemistry;
pub mod sweep {
    // what the chemistry sees of a cell
    pub mod grid { pub struct Cell { pub size: crate::units::Length, pub volume: crate::units::Volume } }
    pub mod site { pub struct Site<C: crate::chemistry::Chemistry> { pub species: C::Species, pub density: crate::units::Density } }
}
"""
SYMDEPS = ["mpi", "derive_custom", "derive_more", "diman", "log", parts.VXDERIVE]


def symbolic_files(append, abstract=()):
    """The chemistry over symbolic reals; the methods named in abstract are taken out (append gives them contracts)."""
    e = lambda src, **kw: parts.entry(src, True, **kw)
    h = e(H, append=append)
    h["transform"] = [h["transform"][0], parts.without_methods(*abstract)] + h["transform"][1:]
    return units.files(symbolic=True) + [units.cosmology(True), e(C), e(T), h]
