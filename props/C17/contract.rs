// Executable contract of the message types: announced layout, there-and-back, optional values.
pub mod vx {
    use std::cell::Cell;
    use std::fmt::Debug;
    use std::rc::Rc;

    use mpi::datatype::{pack_raw, unpack_raw, AsUser, UserDatatype};
    use mpi::traits::Equivalence;
    use vxcore::*;

    use crate::communication::communicated_option::CommunicatedOption;
    use crate::communication::identified::Identified;
    use crate::extent::Extent;
    use crate::peano_hilbert::{PeanoKey2d, PeanoKey3d};

    fn dt<T: Equivalence>() -> UserDatatype { T::equivalent_datatype().as_user() }

    /// `bytes`: the number of bytes all fields together have
    fn layout<T: Equivalence>(name: &str, bytes: usize) {
        let d = guarded("the datatype can be built", || name.to_string(), || dt::<T>());
        let inp = || format!("type {name}");
        let obs = || format!("type map {:?}, extent {}, size of the value {}", d.map, d.extent, std::mem::size_of::<T>());
        case(true, inp);
        let mut m = d.map.clone();
        m.sort();
        check("every announced byte lies in the value", m.iter().all(|(o, l)| *o >= 0 && *o as usize + l <= std::mem::size_of::<T>()), inp, obs);
        check("no byte is announced twice", m.windows(2).all(|w| w[0].0 + w[0].1 as isize <= w[1].0), inp, obs);
        check("all bytes of all fields are announced", m.iter().map(|x| x.1).sum::<usize>() == bytes, inp, obs);
        check("values in a message are as far apart as in memory", d.extent == std::mem::size_of::<T>(), inp, obs);
    }

    /// messages of several values arrive as they were sent, whatever was in the buffer
    fn transfer<T: Equivalence>(name: &str, make: impl Fn(&mut Rng) -> T, same: impl Fn(&T, &T) -> bool, show: impl Fn(&T) -> String, bytes: usize) {
        layout::<T>(name, bytes);
        let d = dt::<T>();
        let mut g = Rng::new(seed() + name.len() as u64);
        for round in 0..40 {
            let n = 1 + round % 5;
            let sent: Vec<T> = (0..n).map(|_| make(&mut g)).collect();
            let mut got: Vec<T> = (0..n).map(|_| make(&mut g)).collect();
            unsafe {
                let b = pack_raw(&d, sent.as_ptr() as *const u8, n);
                unpack_raw(&d, &b, got.as_mut_ptr() as *mut u8, n);
            }
            case(true, || format!("{name}: {}", sent.iter().map(&show).collect::<Vec<_>>().join(", ")));
            for (a, b) in sent.iter().zip(&got) {
                check("a value arrives as it was sent", same(a, b), || format!("{name}: {}", show(a)), || show(b));
            }
        }
    }

    fn opt<T: Equivalence + Clone + PartialEq + Debug>(name: &str, make: impl Fn(&mut Rng) -> T, bytes: usize) {
        layout::<CommunicatedOption<T>>(&format!("CommunicatedOption<{name}>"), 1 + bytes);
        let d = dt::<CommunicatedOption<T>>();
        let mut g = Rng::new(seed() + 77);
        for round in 0..60 {
            let n = 1 + round % 4;
            let any = |g: &mut Rng| if g.bool() { Some(make(g)) } else { None };
            let sent: Vec<Option<T>> = (0..n).map(|_| any(&mut g)).collect();
            let inp = || format!("Option<{name}>: {:?}", sent);
            case(sent.iter().any(|x| x.is_some()), inp);
            let out: Vec<CommunicatedOption<T>> = sent.iter().cloned().map(|x| x.into()).collect();
            let mut got: Vec<CommunicatedOption<T>> = (0..n).map(|_| any(&mut g).into()).collect();
            unsafe {
                let b = pack_raw(&d, out.as_ptr() as *const u8, n);
                unpack_raw(&d, &b, got.as_mut_ptr() as *mut u8, n);
            }
            let copy: Vec<Option<T>> = got.iter().map(|x| x.clone().into()).collect();
            let back: Vec<Option<T>> = got.into_iter().map(|x| x.into()).collect();
            check("an optional value arrives as it was sent", back == sent, inp, || format!("{:?}", back));
            check("a copy of an optional value equals it", copy == sent, inp, || format!("{:?}", copy));
            let direct: Vec<Option<T>> = out.into_iter().map(|x| x.into()).collect();
            check("packing and unpacking an optional value gives it back", direct == sent, inp, || format!("{:?}", direct));
        }
    }

    // counts how often a value is copied and destroyed
    struct Counted { v: Box<u64>, copies: Rc<Cell<u32>>, drops: Rc<Cell<u32>> }
    impl Clone for Counted { fn clone(&self) -> Self { self.copies.set(self.copies.get() + 1); Counted { v: self.v.clone(), copies: self.copies.clone(), drops: self.drops.clone() } } }
    impl Drop for Counted { fn drop(&mut self) { self.drops.set(self.drops.get() + 1) } }
    fn counted() {
        for v in [0u64, 1, 17, u64::MAX] {
            let (copies, drops) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
            let c: CommunicatedOption<Counted> = Some(Counted { v: Box::new(v), copies: copies.clone(), drops: drops.clone() }).into();
            check("packing neither copies nor destroys the value", copies.get() == 0 && drops.get() == 0, || format!("Some({v})"), || format!("copies {}, drops {}", copies.get(), drops.get()));
            let c2 = c.clone();
            check("copying copies the value once", copies.get() == 1 && drops.get() == 0, || format!("Some({v})"), || format!("copies {}, drops {}", copies.get(), drops.get()));
            let (a, b): (Option<Counted>, Option<Counted>) = (c.into(), c2.into());
            check("both hold the value", a.as_ref().map(|x| *x.v) == Some(v) && b.as_ref().map(|x| *x.v) == Some(v), || format!("Some({v})"), || format!("{:?} {:?}", a.as_ref().map(|x| *x.v), b.as_ref().map(|x| *x.v)));
            check("unpacking neither copies nor destroys the value", copies.get() == 1 && drops.get() == 0, || format!("Some({v})"), || format!("copies {}, drops {}", copies.get(), drops.get()));
            case(true, || format!("counted {v}"));
        }
        // a missing value is never read: its copy operation would be called, or its bytes dereferenced
        thread_local! { static READS: Cell<u32> = Cell::new(0); }
        struct Unreadable(#[allow(dead_code)] u64);
        impl Clone for Unreadable { fn clone(&self) -> Self { READS.with(|r| r.set(r.get() + 1)); Unreadable(0) } }
        impl Drop for Unreadable { fn drop(&mut self) { READS.with(|r| r.set(r.get() + 1)) } }
        let c: CommunicatedOption<Unreadable> = None.into();
        let c2 = c.clone();
        let (a, b): (Option<Unreadable>, Option<Unreadable>) = (c.into(), c2.into());
        check("a missing value stays missing", a.is_none() && b.is_none(), || "None".into(), || format!("{} {}", a.is_some(), b.is_some()));
        drop((a, b));
        check("a missing value is never read", READS.with(|r| r.get()) == 0, || "None".into(), || format!("{} reads", READS.with(|r| r.get())));
        case(true, || "None".into());
    }

    #[derive(Equivalence, Clone, PartialEq, Debug, Default)]
    struct Mixed { a: u32, b: bool, c: f64, d: [u16; 3] }
    fn mixed(g: &mut Rng) -> Mixed { Mixed { a: g.next() as u32, b: g.bool(), c: g.float(-1e9, 1e9), d: [g.next() as u16, g.next() as u16, g.next() as u16] } }

    fn extent<P: Equivalence + PartialEq + Clone + Debug>(name: &str, make: impl Fn(&mut Rng) -> P, bytes: usize) {
        transfer::<Extent<P>>(
            &format!("Extent<{name}>"),
            |g| Extent { min: make(g), max: make(g), center: make(g) },
            |a, b| a.min == b.min && a.max == b.max && a.center == b.center,
            |e| format!("{:?} {:?} {:?}", e.min, e.max, e.center),
            3 * bytes,
        );
    }

    pub fn run() {
        quiet();
        super::vxn::node_index();
        counted();
        opt::<u8>("u8", |g| g.next() as u8, 1);
        opt::<bool>("bool", |g| g.bool(), 1);
        opt::<u16>("u16", |g| g.next() as u16, 2);
        opt::<i32>("i32", |g| g.next() as i32, 4);
        opt::<u64>("u64", |g| g.next(), 8);
        opt::<f64>("f64", |g| g.float(-1e300, 1e300), 8);
        opt::<[u8; 3]>("[u8; 3]", |g| [g.next() as u8, g.next() as u8, g.next() as u8], 3);
        opt::<[f64; 3]>("[f64; 3]", |g| [g.float(-1., 1.), g.float(-1., 1.), g.float(-1., 1.)], 24);
        opt::<Mixed>("Mixed", mixed, 4 + 1 + 8 + 6);
        opt::<PeanoKey2d>("PeanoKey2d", |g| PeanoKey2d(g.next()), 8);
        transfer::<Identified<u8>>("Identified<u8>", |g| Identified { key: g.next(), data: g.next() as u8 }, |a, b| a == b, |a| format!("{} {}", a.key, a.data), 9);
        transfer::<Identified<f64>>("Identified<f64>", |g| Identified { key: g.next(), data: g.float(-1e9, 1e9) }, |a, b| a == b, |a| format!("{} {}", a.key, a.data), 16);
        transfer::<Identified<Mixed>>("Identified<Mixed>", |g| Identified { key: g.next(), data: mixed(g) }, |a, b| a == b, |a| format!("{} {:?}", a.key, a.data), 8 + 19);
        for bits in [0u64, 1, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, 1 << 63] {
            let i = Identified::new(bevy_ecs::prelude::Entity::from_bits(bits), 5u8);
            check("the entity of an identified value is the one given", i.entity().to_bits() == bits && i.data == 5, || format!("entity {bits}"), || format!("{:?}", i.entity()));
        }
        extent::<[f64; 2]>("[f64; 2]", |g| [g.float(-1., 1.), g.float(-1., 1.)], 16);
        extent::<[f64; 3]>("[f64; 3]", |g| [g.float(-1., 1.), g.float(-1., 1.), g.float(-1., 1.)], 24);
        extent::<f64>("f64", |g| g.float(-1., 1.), 8);
        extent::<u8>("u8", |g| g.next() as u8, 1);
        transfer::<PeanoKey2d>("PeanoKey2d", |g| PeanoKey2d(g.next()), |a, b| a == b, |a| format!("{a:?}"), 8);
        transfer::<PeanoKey3d>("PeanoKey3d", |g| PeanoKey3d((g.next() as u128) << 64 | g.next() as u128), |a, b| a == b, |a| format!("{a:?}"), 16);
        more::run();
        done();
    }

    mod more {
        use super::*;
        use crate::dimension::{ThreeD, TwoD};
        use crate::particle::ParticleId;
        use crate::simulation_box::{PeriodicWrapType2d, PeriodicWrapType3d, WrapType};
        use crate::sweep::direction::DirectionIndex;
        use crate::sweep::task::RateData;
        use crate::voronoi::constructor::halo_iteration::{SearchData, SearchResult};
        use crate::voronoi::constructor::parallel::mpi_types::IntoEquivalenceType;
        use crate::voronoi::{Point2d, Point3d};
        fn id(g: &mut Rng) -> ParticleId { ParticleId { index: g.next() as u32, rank: g.next() as i32 } }
        const W: [WrapType; 3] = [WrapType::NoWrap, WrapType::Minus, WrapType::Plus];
        fn via<T: IntoEquivalenceType>(t: &T, t2: &T) -> T {
            let d = dt::<T::Equiv>();
            let (a, mut b) = (t.to_equivalent(), t2.to_equivalent());
            unsafe {
                let bytes = pack_raw(&d, &a as *const T::Equiv as *const u8, 1);
                unpack_raw(&d, &bytes, &mut b as *mut T::Equiv as *mut u8, 1);
            }
            T::from_equivalent(&b)
        }
        pub fn run() {
            transfer::<ParticleId>("ParticleId", id, |a, b| a == b, |a| format!("{a:?}"), 8);
            transfer::<DirectionIndex>("DirectionIndex", |g| DirectionIndex(g.next() as usize), |a, b| a == b, |a| format!("{a:?}"), 8);
            transfer::<RateData<crate::chemistry::Plain>>(
                "RateData",
                |g| RateData { id: id(g), dir: DirectionIndex(g.next() as usize), rate: g.float(-1e50, 1e50), periodic: g.bool() },
                |a, b| a.id == b.id && a.dir == b.dir && a.rate == b.rate && a.periodic == b.periodic,
                |a| format!("{:?} {:?} {} {}", a.id, a.dir, a.rate, a.periodic),
                8 + 8 + 8 + 1,
            );
            layout::<<SearchData<TwoD> as IntoEquivalenceType>::Equiv>("SearchDataTwoDSend", 24);
            layout::<<SearchData<ThreeD> as IntoEquivalenceType>::Equiv>("SearchDataThreeDSend", 32);
            layout::<<SearchResult<TwoD> as IntoEquivalenceType>::Equiv>("SearchResultTwoDSend", 16 + 8 + 16);
            layout::<<SearchResult<ThreeD> as IntoEquivalenceType>::Equiv>("SearchResultThreeDSend", 24 + 8 + 24);
            let mut g = Rng::new(seed() + 5);
            let mut f = || g.float(-1e9, 1e9);
            for _ in 0..200 {
                let (a, b) = (SearchData::<TwoD> { point: Point2d::new(f(), f()), radius: f() }, SearchData::<TwoD> { point: Point2d::new(f(), f()), radius: f() });
                let c = via(&a, &b);
                case(true, || format!("{a:?}"));
                check("a search request arrives as it was sent", c.point == a.point && c.radius == a.radius, || format!("{a:?}"), || format!("{c:?}"));
                let (a, b) = (SearchData::<ThreeD> { point: Point3d::new(f(), f(), f()), radius: f() }, SearchData::<ThreeD> { point: Point3d::new(f(), f(), f()), radius: f() });
                let c = via(&a, &b);
                check("a search request arrives as it was sent", c.point == a.point && c.radius == a.radius, || format!("{a:?}"), || format!("{c:?}"));
            }
            let mut g = Rng::new(seed() + 6);
            for x in W { for y in W { for z in W { for x2 in W {
                let i = |g: &mut Rng| id(g);
                let p = |g: &mut Rng| Point3d::new(g.float(-1e9, 1e9), g.float(-1e9, 1e9), g.float(-1e9, 1e9));
                let a = SearchResult::<ThreeD> { point: p(&mut g), id: i(&mut g), periodic_wrap_type: PeriodicWrapType3d { x, y, z } };
                let b = SearchResult::<ThreeD> { point: p(&mut g), id: i(&mut g), periodic_wrap_type: PeriodicWrapType3d { x: x2, y: x2, z: x } };
                let c = guarded("unpacking a search result", || format!("wrap types {x:?}{y:?}{z:?}"), || via(&a, &b));
                case(true, || format!("search result with wrap types {x:?}{y:?}{z:?}"));
                check("a search result arrives as it was sent", c.point == a.point && c.id == a.id && c.periodic_wrap_type == a.periodic_wrap_type, || format!("{:?} {:?} {:?}", a.point, a.id, a.periodic_wrap_type), || format!("{:?} {:?} {:?}", c.point, c.id, c.periodic_wrap_type));
                let q = |g: &mut Rng| Point2d::new(g.float(-1e9, 1e9), g.float(-1e9, 1e9));
                let a = SearchResult::<TwoD> { point: q(&mut g), id: i(&mut g), periodic_wrap_type: PeriodicWrapType2d { x, y } };
                let b = SearchResult::<TwoD> { point: q(&mut g), id: i(&mut g), periodic_wrap_type: PeriodicWrapType2d { x: x2, y: z } };
                let c = guarded("unpacking a search result", || format!("wrap types {x:?}{y:?}"), || via(&a, &b));
                check("a search result arrives as it was sent", c.point == a.point && c.id == a.id && c.periodic_wrap_type == a.periodic_wrap_type, || format!("{:?} {:?} {:?}", a.point, a.id, a.periodic_wrap_type), || format!("{:?} {:?} {:?}", c.point, c.id, c.periodic_wrap_type));
            } } } }
        }
    }
}
