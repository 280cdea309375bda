LEVEL = "proof"
F = "src/voronoi/indexed_arena.rs"


def run(ctx):
    ctx.assumptions += [
        "generational-arena 0.2 (a dependency): insert hands out an index never handed out before, get/contains/remove/index act on exactly that index (assumed contract of Arena)",
        "an identifier type converts to and from the index without loss (both identifier types of the code are one-field wrappers with derived conversions; they are written in a macro, delaunay/mod.rs)",
        "`&arena[i]` and `&mut arena[i]` of the dependency are written as vx_index/vx_index_mut in the extracted text",
        "iter and into_iter are single adapter chains over the dependency's iterators: bounded executable contract only",
    ]
    ctx.verus("verus.rs", [F + "::IndexedArena::" + f for f in ("get", "insert", "remove", "contains", "len", "reserve", "index", "index_mut")] + [F + "::IndexedVec::" + f for f in ("insert", "index", "index_mut")])
    ctx.concrete(
        "c22",
        "bounded: seeded histories of up to 400 operations on both stores against a map, every identifier ever handed out looked up after every step",
        files=[{"src": F, "append": open(ctx.dir + "/contract.rs").read()}],
        lib_rs="pub mod voronoi { pub mod indexed_arena; }\n",
        main_rs="fn main() { c22::voronoi::indexed_arena::vx::run() }\n",
        deps=["generational-arena", "vxcore"],
    )
