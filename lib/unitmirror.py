"""Mirror crate of units, cosmology, the readers of snapshots and the time of outputs."""
import re

import boxmirror
import iomirror
import parts
import units

C = "src/cosmology.rs"
SI = "src/units/specific_impls.rs"
A = "src/arepo_postprocess/unit_reader.rs"
NEW = "impl CosmologyParams { pub fn vx_new(omega_0: vxfloat, omega_lambda: vxfloat) -> Self { CosmologyParams { omega_0, omega_lambda } } }\n"


def cosmology(files, append):
    return [dict(f, append=f.get("append", "") + append) if f["src"] == C else f for f in files]


def attributes(f):
    return units.cosmology(attributes=True) if f["src"] == C else f


def concrete_files(append):
    own = lambda t: re.sub(r"\bsubsweep::", "crate::", t)
    fs = iomirror.files("", output=iomirror.writer("", cosmic=True)) + [
        {"src": A, "dst": "arepo.rs", "transform": [own]},
        parts.entry("src/time_spec.rs", False, transform=[parts.noserde, boxmirror.plain]),
    ]
    fs = [attributes(f) for f in fs]
    return cosmology(fs, NEW.replace("vxfloat", "f64") + append)


LIB = iomirror.LIBW + "pub mod arepo; pub mod time_spec;\n"
DEPS = ["mpi", "bevy_ecs", "derive_more", "lazy_static", parts.VXDERIVE, "hdf5", "ndarray", "log", "derive_custom", "glam"]
