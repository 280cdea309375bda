import parts

LEVEL = "proof"
X = "src/communication/exchange_communicator.rs"
W = "src/communication/mpi_world.rs"
LIB = """
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; pub mod exchange_communicator;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified;
    pub use mpi_world::MpiWorld; pub use exchange_communicator::ExchangeCommunicator;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
"""
FILES = ["src/communication/" + f + ".rs" for f in ("data_by_rank", "sized_communicator", "identified")]
DEPS = ["mpi", "bevy_ecs", "derive_more", "lazy_static", "vxcore", parts.VXDERIVE]


TAG = """
thread_local!(static VX_HASH: std::cell::Cell<u64> = std::cell::Cell::new(0));
/// any hash a type may have
fn get_hash_for_type<T: 'static>() -> u64 { VX_HASH.with(|h| h.get()) }
pub fn vx_run() {
    use vxcore::*;
    let mut g = Rng::new(seed());
    let mut seen = std::collections::HashMap::new();
    for low in 0..=0xffffu64 {
        let h = (g.next() << 16) | low;
        VX_HASH.with(|c| c.set(h));
        let inp = || format!("a type whose TypeId hashes to {h:#x}");
        case(true, inp);
        let t = guarded("every type has a tag", inp, get_tag_for_type::<u8>);
        check("a tag is one MPI accepts (0 to 32767)", (0..=32767).contains(&t), inp, || format!("tag {t}"));
        VX_HASH.with(|c| c.set(h));
        let u = guarded("every type has a tag", inp, get_tag_for_type::<u8>);
        check("the tag is the same every time", t == u, inp, || format!("{t}, then {u}"));
        *seen.entry(t).or_insert(0) += 1;
    }
    check("types share tags only rarely", seen.len() >= 1000, &|| "all types whose hashes end in 0 to 65535".to_string(), || format!("only {} different tags", seen.len()));
    done();
}
"""


def run(ctx):
    ctx.assumptions += [
        "MPI delivers messages between two ranks with one tag in the order sent, all of them (assumed; the stand-in for MPI does so)",
        "verus: MpiWorld's send and receive functions have the contract 'one message more sent / taken' (assumed there; they are the real functions in the executable contract)",
        "verus: the closure given to mpi::request::scope is run once, in place; AsRef<[T]> yields the slice of the entry",
        "empty blocking sends do not wait for their receiver (MPI's eager protocol); with it no rank waits before all its messages of the round are on their way",
        "hashes of different types differ in their low 15 bits (collisions of tags are possible, as the source says)",
    ]
    ctx.verus("verus.rs", [X + "::ExchangeCommunicator::" + f for f in ("blocking_send_vec", "empty_send_to_others", "receive_vec", "exchange_all", "exchange_same_for_all")])
    ctx.concrete(
        "c04tag",
        "exhaustive in the 16 bits of the hash that are used: every type gets a legal tag",
        files=[{"src": f} for f in FILES] + [{"src": W, "drop": ["fn get_hash_for_type"], "append": TAG}],
        lib_rs=LIB.replace("pub mod exchange_communicator;", "").replace("pub use exchange_communicator::ExchangeCommunicator;", ""),
        main_rs="fn main() { c04tag::communication::mpi_world::vx_run() }\n",
        deps=DEPS,
    )
    c = open(ctx.dir + "/contract.rs").read()
    ctx.concrete(
        "c04",
        "bounded: seeded exchanges of up to 4 rounds on 1 to 6, 9 and 16 ranks (threads, any interleaving the machine produces; sends that wait for their receiver and sends that do not), gathers of every kind",
        files=[{"src": f} for f in FILES] + [{"src": W}, {"src": X, "append": c}],
        lib_rs=LIB,
        main_rs="fn main() { c04::communication::exchange_communicator::vx::run() }\n",
        deps=DEPS,
    )
