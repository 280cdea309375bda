//! Stand-in for rsmpi.  Ranks are threads of one process; messages are queues per (source,
//! destination, tag), first in first out, as MPI guarantees; datatypes are real type maps: only the
//! bytes a datatype names are transferred.  A state in which every rank waits for something that
//! cannot come is reported as a deadlock (all waiting ranks panic).
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex};

pub type Rank = i32;
pub type Count = i32;
pub type Tag = i32;
pub type Address = isize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Threading { Single, Funneled, Serialized, Multiple }

// ------------------------------------------------------------------ datatypes
pub mod internal { pub mod memoffset { pub use core::mem::offset_of; } }
pub mod datatype {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct UserDatatype { pub map: Vec<(isize, usize)>, pub extent: usize, pub align: usize }
    pub type SystemDatatype = UserDatatype;
    pub trait AsUser { fn as_user(&self) -> UserDatatype; }
    impl AsUser for UserDatatype { fn as_user(&self) -> UserDatatype { self.clone() } }
    impl UserDatatype {
        pub fn basic(size: usize) -> Self { UserDatatype { map: vec![(0, size)], extent: size, align: size.max(1).min(16) } }
        pub fn contiguous<D: AsUser>(count: Count, old: &D) -> Self {
            let o = old.as_user();
            let mut map = vec![];
            for i in 0..count as usize {
                for (off, len) in &o.map { map.push((off + (i * o.extent) as isize, *len)); }
            }
            UserDatatype { map, extent: o.extent * count as usize, align: o.align }
        }
        pub fn structured<D: AsUser>(counts: &[Count], displacements: &[Address], types: &[D]) -> Self {
            assert_eq!(counts.len(), displacements.len());
            assert_eq!(counts.len(), types.len());
            let mut map = vec![];
            let (mut ub, mut align) = (0isize, 1);
            for ((c, d), t) in counts.iter().zip(displacements).zip(types) {
                let t = UserDatatype::contiguous(*c, t);
                for (off, len) in &t.map { map.push((off + d, *len)); }
                ub = ub.max(d + t.extent as isize);
                align = align.max(t.align);
            }
            let extent = (ub as usize + align - 1) / align * align;
            UserDatatype { map, extent, align }
        }
        pub fn from_fields(fields: Vec<(usize, UserDatatype)>, size: usize) -> Self {
            let mut map = vec![];
            let mut align = 1;
            for (d, t) in fields { for (off, len) in &t.map { map.push((off + d as isize, *len)); } align = align.max(t.align); }
            UserDatatype { map, extent: size, align }
        }
        pub fn packed_size(&self) -> usize { self.map.iter().map(|x| x.1).sum() }
    }
    pub unsafe fn pack_raw(t: &UserDatatype, base: *const u8, n: usize) -> Vec<u8> {
        let mut out = vec![];
        for i in 0..n { for (off, len) in &t.map {
            let p = base.offset((i * t.extent) as isize + off);
            out.extend_from_slice(std::slice::from_raw_parts(p, *len));
        } }
        out
    }
    pub unsafe fn unpack_raw(t: &UserDatatype, bytes: &[u8], base: *mut u8, n: usize) {
        let mut pos = 0;
        for i in 0..n { for (off, len) in &t.map {
            let p = base.offset((i * t.extent) as isize + off);
            std::ptr::copy_nonoverlapping(bytes[pos..].as_ptr(), p, *len);
            pos += len;
        } }
    }
    pub struct PartitionMut<'a, T> { pub buf: &'a mut [T], pub counts: Vec<Count>, pub displs: Vec<Count> }
    impl<'a, T> PartitionMut<'a, T> {
        pub fn new(buf: &'a mut Vec<T>, counts: &[Count], displs: &[Count]) -> Self {
            let n = buf.len() as Count;
            assert_eq!(counts.len(), displs.len());
            assert!(counts.iter().zip(displs).all(|(c, d)| *c >= 0 && *d >= 0 && c + d <= n), "partition out of bounds");
            PartitionMut { buf, counts: counts.to_vec(), displs: displs.to_vec() }
        }
    }
}
use datatype::*;

pub unsafe trait Equivalence { type Out: AsUser; fn equivalent_datatype() -> Self::Out; }
macro_rules! basic { ($($t:ty),*) => { $( unsafe impl Equivalence for $t { type Out = UserDatatype; fn equivalent_datatype() -> UserDatatype { UserDatatype::basic(std::mem::size_of::<$t>()) } } )* } }
basic!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool);
unsafe impl<T: Equivalence, const N: usize> Equivalence for [T; N] { type Out = UserDatatype; fn equivalent_datatype() -> UserDatatype { UserDatatype::contiguous(N as i32, &T::equivalent_datatype()) } }
unsafe impl<A: Equivalence, B: Equivalence> Equivalence for (A, B) { type Out = UserDatatype; fn equivalent_datatype() -> UserDatatype {
    UserDatatype::from_fields(vec![(core::mem::offset_of!((A, B), 0), A::equivalent_datatype().as_user()), (core::mem::offset_of!((A, B), 1), B::equivalent_datatype().as_user())], std::mem::size_of::<(A, B)>()) } }
unsafe impl<A: Equivalence, B: Equivalence, C: Equivalence> Equivalence for (A, B, C) { type Out = UserDatatype; fn equivalent_datatype() -> UserDatatype {
    UserDatatype::from_fields(vec![(core::mem::offset_of!((A, B, C), 0), A::equivalent_datatype().as_user()), (core::mem::offset_of!((A, B, C), 1), B::equivalent_datatype().as_user()), (core::mem::offset_of!((A, B, C), 2), C::equivalent_datatype().as_user())], std::mem::size_of::<(A, B, C)>()) } }
fn dt<T: Equivalence>() -> UserDatatype {
    let d = T::equivalent_datatype().as_user();
    d
}

// ------------------------------------------------------------------ the world
#[derive(Clone, Debug, PartialEq)]
enum Waiting { No, Message(Option<Rank>, Option<Tag>), Collective(u64), Taken(u64), Done }
#[derive(Default)]
struct Coll { parts: HashMap<Rank, Vec<u8>>, taken: usize, what: String }
struct Inner {
    queues: HashMap<(Rank, Rank, Tag), VecDeque<(Vec<u8>, usize, u64)>>,
    /// messages sent and not yet taken; waiting for a send means waiting for this, if `rendezvous`
    open: std::collections::HashSet<u64>,
    next: u64,
    /// random late arrival of messages for probes that do not wait: state of the generator
    late: Option<u64>,
    waiting: Vec<Waiting>,
    colls: HashMap<u64, Coll>,
    coll_no: Vec<u64>,
    deadlock: Option<String>,
    sent: HashMap<(Rank, Rank), usize>,
}
impl Inner {
    /// the queue with the oldest message for `me` that matches (None: any source, any tag)
    fn oldest(&self, src: Option<Rank>, me: Rank, tag: Option<Tag>) -> Option<(Rank, Rank, Tag)> {
        if let (Some(s), Some(t)) = (src, tag) { return self.queues.get(&(s, me, t)).filter(|q| !q.is_empty()).map(|_| (s, me, t)); }
        self.queues.iter().filter(|((s, d, t), q)| *d == me && src.map_or(true, |x| x == *s) && tag.map_or(true, |x| x == *t) && !q.is_empty()).min_by_key(|(_, q)| q[0].2).map(|(k, _)| *k)
    }
}
pub struct World { size: usize, rendezvous: bool, inner: Mutex<Inner>, cv: Condvar }
impl World {
    pub fn new(size: usize) -> Arc<World> { World::with(size, false, None) }
    pub fn with(size: usize, rendezvous: bool, late: Option<u64>) -> Arc<World> {
        Arc::new(World { size, rendezvous, cv: Condvar::new(), inner: Mutex::new(Inner { open: Default::default(), next: 1, late, queues: HashMap::new(), waiting: vec![Waiting::No; size], colls: HashMap::new(), coll_no: vec![0; size], deadlock: None, sent: HashMap::new() }) })
    }
    /// messages sent and not received
    pub fn undelivered(&self) -> usize { self.inner.lock().unwrap().queues.values().map(|q| q.len()).sum() }
    pub fn num_sent(&self, a: Rank, b: Rank) -> usize { *self.inner.lock().unwrap().sent.get(&(a, b)).unwrap_or(&0) }
    fn satisfied(i: &Inner, size: usize, me: usize, w: &Waiting) -> bool {
        match w {
            Waiting::No => true,
            Waiting::Done => false,
            Waiting::Message(src, tag) => i.oldest(*src, me as Rank, *tag).is_some(),
            Waiting::Taken(id) => !i.open.contains(id),
            Waiting::Collective(n) => i.colls.get(n).map_or(false, |c| c.parts.len() == size),
        }
    }
    fn wait<'a>(&'a self, mut g: std::sync::MutexGuard<'a, Inner>, me: Rank, w: Waiting) -> std::sync::MutexGuard<'a, Inner> {
        loop {
            if World::satisfied(&g, self.size, me as usize, &w) { g.waiting[me as usize] = Waiting::No; return g; }
            g.waiting[me as usize] = w.clone();
            self.check_deadlock(&mut g);
            if let Some(d) = g.deadlock.clone() { drop(g); panic!("deadlock: {}", d); }
            g = self.cv.wait(g).unwrap();
        }
    }
    fn check_deadlock(&self, g: &mut Inner) {
        if g.deadlock.is_none() && g.waiting.iter().enumerate().all(|(r, w)| !World::satisfied(g, self.size, r, w)) && g.waiting.iter().any(|w| *w != Waiting::Done) {
            g.deadlock = Some(format!("{:?}", g.waiting));
            self.cv.notify_all();
        }
    }
    fn finish(&self, me: Rank) {
        let mut g = match self.inner.lock() { Ok(g) => g, Err(e) => e.into_inner() };
        g.waiting[me as usize] = Waiting::Done;
        self.check_deadlock(&mut g);
        self.cv.notify_all();
    }
    fn push(&self, from: Rank, to: Rank, tag: Tag, data: Vec<u8>, n: usize) -> u64 {
        assert!(to >= 0 && (to as usize) < self.size, "MPI_ERR_RANK: no rank {}", to);
        assert!(tag >= 0, "MPI_ERR_TAG: {}", tag);
        let mut g = self.inner.lock().unwrap();
        let id = g.next;
        g.next += 1;
        if !data.is_empty() { g.open.insert(id); }
        g.queues.entry((from, to, tag)).or_default().push_back((data, n, id));
        *g.sent.entry((from, to)).or_default() += 1;
        self.cv.notify_all();
        id
    }
    fn taken(&self, g: &mut Inner, id: u64) { g.open.remove(&id); self.cv.notify_all(); }
    /// has the send been completed?  (without rendezvous: at once)
    pub fn completed(&self, id: u64) -> bool { !self.rendezvous || !self.inner.lock().unwrap().open.contains(&id) }
    fn wait_taken(&self, me: Rank, id: u64) {
        if self.rendezvous && !std::thread::panicking() { let g = self.inner.lock().unwrap(); drop(self.wait(g, me, Waiting::Taken(id))); }
    }
    fn gather(&self, me: Rank, what: &str, part: Vec<u8>) -> Vec<Vec<u8>> {
        let mut g = self.inner.lock().unwrap();
        let n = g.coll_no[me as usize];
        g.coll_no[me as usize] += 1;
        {
            let c = g.colls.entry(n).or_default();
            if c.parts.is_empty() { c.what = what.into() }
            assert_eq!(c.what, what, "ranks disagree on the collective operation");
            c.parts.insert(me, part);
        }
        self.cv.notify_all();
        g = self.wait(g, me, Waiting::Collective(n));
        let c = g.colls.get_mut(&n).unwrap();
        let r = (0..self.size as Rank).map(|k| c.parts[&k].clone()).collect();
        c.taken += 1;
        if c.taken == self.size { g.colls.remove(&n); }
        r
    }
}
thread_local! { static CURRENT: RefCell<Option<(Arc<World>, Rank)>> = RefCell::new(None); }
fn current() -> (Arc<World>, Rank) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() { *c = Some((World::new(1), 0)); }
        c.clone().unwrap()
    })
}
/// Runs f on `size` ranks.  Err: the panic messages.
pub fn simulate<R: Send + 'static>(size: usize, f: impl Fn(Rank) -> R + Send + Sync + 'static) -> (Arc<World>, Vec<Result<R, String>>) { simulate_in(World::new(size), f) }
/// The same in a given world.
pub fn simulate_in<R: Send + 'static>(w: Arc<World>, f: impl Fn(Rank) -> R + Send + Sync + 'static) -> (Arc<World>, Vec<Result<R, String>>) {
    let size = w.size;
    let f = Arc::new(f);
    let hs: Vec<_> = (0..size as Rank).map(|r| {
        let (w, f) = (w.clone(), f.clone());
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            CURRENT.with(|c| *c.borrow_mut() = Some((w.clone(), r)));
            struct End(Arc<World>, Rank);
            impl Drop for End { fn drop(&mut self) { self.0.finish(self.1) } }
            let _e = End(w, r);
            f(r)
        }).unwrap()
    }).collect();
    let res = hs.into_iter().map(|h| h.join().map_err(|e| e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into()))).collect();
    (w, res)
}

pub mod environment {
    use super::*;
    pub struct Universe;
    impl Universe { pub fn world(&self) -> topology::SimpleCommunicator { topology::SimpleCommunicator::world() } pub fn set_buffer_size(&mut self, _: usize) {} }
}
pub fn initialize_with_threading(t: Threading) -> Option<(environment::Universe, Threading)> { Some((environment::Universe, t)) }

pub mod topology {
    use super::*;
    pub use super::Rank;
    #[derive(Clone)]
    pub struct SimpleCommunicator { pub(crate) w: Arc<World>, pub(crate) me: Rank }
    impl SimpleCommunicator { pub fn world() -> Self { let (w, me) = current(); SimpleCommunicator { w, me } } }
    pub struct Process { pub(crate) w: Arc<World>, pub(crate) me: Rank, pub(crate) other: Rank }
    impl Process { pub fn rank(&self) -> Rank { self.other } }
    pub struct AnyProcess { pub(crate) w: Arc<World>, pub(crate) me: Rank }
}
use topology::*;
pub mod collective {
    #[derive(Clone, Copy, Debug)]
    pub enum SystemOperation { Sum, Product, Max, Min, LogicalAnd, LogicalOr, LogicalXor, BitwiseAnd, BitwiseOr, BitwiseXor }
    use SystemOperation::*;
    #[allow(non_snake_case)]
    impl SystemOperation {
        pub fn sum() -> Self { Sum } pub fn product() -> Self { Product } pub fn max() -> Self { Max } pub fn min() -> Self { Min }
        pub fn logical_and() -> Self { LogicalAnd } pub fn logical_or() -> Self { LogicalOr } pub fn logical_xor() -> Self { LogicalXor }
        pub fn bitwise_and() -> Self { BitwiseAnd } pub fn bitwise_or() -> Self { BitwiseOr } pub fn bitwise_xor() -> Self { BitwiseXor }
    }
    pub trait Reducible: super::Equivalence + Copy { fn apply(self, o: Self, op: SystemOperation) -> Self; }
    macro_rules! int { ($($t:ty),*) => { $( impl Reducible for $t { fn apply(self, o: Self, op: SystemOperation) -> Self { match op {
        Sum => self.wrapping_add(o), Product => self.wrapping_mul(o), Max => self.max(o), Min => self.min(o),
        LogicalAnd => ((self != 0) && (o != 0)) as $t, LogicalOr => ((self != 0) || (o != 0)) as $t, LogicalXor => ((self != 0) ^ (o != 0)) as $t,
        BitwiseAnd => self & o, BitwiseOr => self | o, BitwiseXor => self ^ o } } } )* } }
    int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    macro_rules! fl { ($($t:ty),*) => { $( impl Reducible for $t { fn apply(self, o: Self, op: SystemOperation) -> Self { match op { Sum => self + o, Product => self * o, Max => self.max(o), Min => self.min(o), _ => panic!("no such operation on floats") } } } )* } }
    fl!(f32, f64);
    impl Reducible for bool { fn apply(self, o: Self, op: SystemOperation) -> Self { match op { Sum | LogicalOr | BitwiseOr | Max => self || o, Product | LogicalAnd | BitwiseAnd | Min => self && o, _ => self ^ o } } }
}

pub struct Message { data: Vec<u8>, n: usize }
#[derive(Clone, Copy, Debug)]
pub struct Status { src: Rank, tag: Tag, n: usize }
impl Status { pub fn source_rank(&self) -> Rank { self.src } pub fn tag(&self) -> Tag { self.tag } pub fn count<D>(&self, _: D) -> Count { self.n as Count } }

pub mod traits {
    use super::*;
    pub use super::Equivalence;
    pub use vxderive::Equivalence;
    pub trait Buffer { fn bytes(&self) -> (Vec<u8>, usize); }
    impl<T: Equivalence> Buffer for [T] { fn bytes(&self) -> (Vec<u8>, usize) { (unsafe { pack_raw(&dt::<T>(), self.as_ptr() as *const u8, self.len()) }, self.len()) } }
    impl<T: Equivalence> Buffer for T { fn bytes(&self) -> (Vec<u8>, usize) { (unsafe { pack_raw(&dt::<T>(), self as *const T as *const u8, 1) }, 1) } }
    pub trait Communicator {
        fn sc(&self) -> &SimpleCommunicator;
        fn rank(&self) -> Rank { self.sc().me }
        fn size(&self) -> Rank { self.sc().w.size as Rank }
        fn process_at_rank(&self, r: Rank) -> Process { assert!(r >= 0 && r < self.size(), "MPI_ERR_RANK: no rank {}", r); Process { w: self.sc().w.clone(), me: self.sc().me, other: r } }
        fn this_process(&self) -> Process { self.process_at_rank(self.rank()) }
        fn any_process(&self) -> AnyProcess { AnyProcess { w: self.sc().w.clone(), me: self.sc().me } }
        fn pack<T: Equivalence>(&self, t: &T) -> Vec<u8> { t.bytes().0 }
        unsafe fn unpack_into<T: Equivalence>(&self, b: &[u8], t: &mut T, pos: Count) -> Count { unpack_raw(&dt::<T>(), &b[pos as usize..], t as *mut T as *mut u8, 1); pos + dt::<T>().packed_size() as Count }
    }
    impl Communicator for SimpleCommunicator { fn sc(&self) -> &SimpleCommunicator { self } }
    pub trait CommunicatorCollectives: Communicator {
        fn barrier(&self) { self.sc().w.gather(self.sc().me, "barrier", vec![]); }
        fn all_gather_into<T: Equivalence>(&self, send: &T, recv: &mut [T]) {
            let parts = self.sc().w.gather(self.sc().me, "all_gather", send.bytes().0);
            assert!(recv.len() >= parts.len(), "receive buffer too short");
            for (i, p) in parts.iter().enumerate() { unsafe { unpack_raw(&dt::<T>(), p, &mut recv[i] as *mut T as *mut u8, 1) } }
        }
        fn all_reduce_into<T: collective::Reducible>(&self, send: &T, recv: &mut T, op: collective::SystemOperation) {
            let parts = self.sc().w.gather(self.sc().me, "all_reduce", send.bytes().0);
            let mut v: Option<T> = None;
            for p in parts { let mut t = *send; unsafe { unpack_raw(&dt::<T>(), &p, &mut t as *mut T as *mut u8, 1) }; v = Some(match v { None => t, Some(a) => a.apply(t, op) }) }
            *recv = v.unwrap();
        }
        fn all_to_all_into<T: Equivalence>(&self, send: &[T], recv: &mut [T]) {
            let parts = self.sc().w.gather(self.sc().me, "all_to_all", send.bytes().0);
            let (n, sz, me) = (parts.len(), dt::<T>().packed_size(), self.sc().me as usize);
            let k = send.len() / n;
            for (i, p) in parts.iter().enumerate() { for q in 0..k { unsafe { unpack_raw(&dt::<T>(), &p[(me * k + q) * sz..], &mut recv[i * k + q] as *mut T as *mut u8, 1) } } }
        }
        fn all_gather_varcount_into<T: Equivalence>(&self, send: &[T], part: &mut PartitionMut<T>) {
            let parts = self.sc().w.gather(self.sc().me, "all_gather_varcount", send.bytes().0);
            let d = dt::<T>();
            for (i, p) in parts.iter().enumerate() {
                let n = p.len() / d.packed_size().max(1);
                assert_eq!(n as Count, part.counts[i], "count of rank {} does not match what it sent", i);
                unsafe { unpack_raw(&d, p, part.buf.as_mut_ptr().add(part.displs[i] as usize) as *mut u8, n) }
            }
        }
    }
    impl CommunicatorCollectives for SimpleCommunicator {}
    pub trait Destination {
        fn p(&self) -> &Process;
        fn vx_push<B: Buffer + ?Sized>(&self, b: &B, tag: Tag) -> u64 { let (d, n) = b.bytes(); self.p().w.push(self.p().me, self.p().other, tag, d, n) }
        fn send_with_tag<B: Buffer + ?Sized>(&self, b: &B, tag: Tag) { let id = self.vx_push(b, tag); self.p().w.wait_taken(self.p().me, id) }
        fn send<B: Buffer + ?Sized>(&self, b: &B) { self.send_with_tag(b, 0) }
        fn synchronous_send_with_tag<B: Buffer + ?Sized>(&self, b: &B, tag: Tag) { self.send_with_tag(b, tag) }
        fn synchronous_send<B: Buffer + ?Sized>(&self, b: &B) { self.send_with_tag(b, 0) }
        fn ready_send_with_tag<B: Buffer + ?Sized>(&self, b: &B, tag: Tag) { self.send_with_tag(b, tag) }
        fn ready_send<B: Buffer + ?Sized>(&self, b: &B) { self.send_with_tag(b, 0) }
        fn buffered_send_with_tag<B: Buffer + ?Sized>(&self, b: &B, tag: Tag) { self.vx_push(b, tag); }
        fn buffered_send<B: Buffer + ?Sized>(&self, b: &B) { self.vx_push(b, 0); }
        fn immediate_send_with_tag<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, _scope: Sc, b: &'a B, tag: Tag) -> request::Request<'a, B, Sc> { request::Request::new(self.vx_push(b, tag)) }
        fn immediate_send<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, scope: Sc, b: &'a B) -> request::Request<'a, B, Sc> { self.immediate_send_with_tag(scope, b, 0) }
        fn immediate_synchronous_send_with_tag<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, scope: Sc, b: &'a B, tag: Tag) -> request::Request<'a, B, Sc> { self.immediate_send_with_tag(scope, b, tag) }
        fn immediate_synchronous_send<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, scope: Sc, b: &'a B) -> request::Request<'a, B, Sc> { self.immediate_send_with_tag(scope, b, 0) }
        fn immediate_ready_send_with_tag<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, scope: Sc, b: &'a B, tag: Tag) -> request::Request<'a, B, Sc> { self.immediate_send_with_tag(scope, b, tag) }
        fn immediate_buffered_send_with_tag<'a, Sc: request::Scope<'a>, B: Buffer + ?Sized>(&self, scope: Sc, b: &'a B, tag: Tag) -> request::Request<'a, B, Sc> { self.immediate_send_with_tag(scope, b, tag) }
    }
    impl Destination for Process { fn p(&self) -> &Process { self } }
    pub trait Source {
        fn vx_at(&self) -> (&Arc<World>, Rank, Option<Rank>);
        fn vx_take(&self, tag: Option<Tag>, wait: bool, keep: bool) -> Option<(Message, Status)> {
            let (w, me, src) = self.vx_at();
            let mut g = w.inner.lock().unwrap();
            if wait { g = w.wait(g, me, Waiting::Message(src, tag)); }
            else if let Some(s) = g.late.as_mut() {
                *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if (*s >> 33) % 3 == 0 { drop(g); std::thread::yield_now(); return None; }
            }
            let k = g.oldest(src, me, tag)?;
            if keep { let (_, n, _) = &g.queues[&k][0]; return Some((Message { data: vec![], n: *n }, Status { src: k.0, tag: k.2, n: *n })); }
            let (data, n, id) = g.queues.get_mut(&k).unwrap().pop_front().unwrap();
            w.taken(&mut g, id);
            Some((Message { data, n }, Status { src: k.0, tag: k.2, n }))
        }
        fn matched_probe_with_tag(&self, tag: Tag) -> (Message, Status) { self.vx_take(Some(tag), true, false).unwrap() }
        fn matched_probe(&self) -> (Message, Status) { self.vx_take(None, true, false).unwrap() }
        fn immediate_matched_probe_with_tag(&self, tag: Tag) -> Option<(Message, Status)> { self.vx_take(Some(tag), false, false) }
        fn immediate_matched_probe(&self) -> Option<(Message, Status)> { self.vx_take(None, false, false) }
        fn probe_with_tag(&self, tag: Tag) -> Status { self.vx_take(Some(tag), true, true).unwrap().1 }
        fn probe(&self) -> Status { self.vx_take(None, true, true).unwrap().1 }
        fn immediate_probe_with_tag(&self, tag: Tag) -> Option<Status> { self.vx_take(Some(tag), false, true).map(|x| x.1) }
        fn immediate_probe(&self) -> Option<Status> { self.vx_take(None, false, true).map(|x| x.1) }
        fn receive_vec_with_tag<T: Equivalence>(&self, tag: Tag) -> (Vec<T>, Status) { self.matched_probe_with_tag(tag).matched_receive_vec() }
        fn receive_vec<T: Equivalence>(&self) -> (Vec<T>, Status) { self.matched_probe().matched_receive_vec() }
        fn receive_with_tag<T: Equivalence>(&self, tag: Tag) -> (T, Status) { let (mut v, s) = self.receive_vec_with_tag(tag); (v.pop().unwrap(), s) }
        fn receive<T: Equivalence>(&self) -> (T, Status) { let (mut v, s) = self.receive_vec(); (v.pop().unwrap(), s) }
    }
    impl Source for Process { fn vx_at(&self) -> (&Arc<World>, Rank, Option<Rank>) { (&self.w, self.me, Some(self.other)) } }
    impl Source for AnyProcess { fn vx_at(&self) -> (&Arc<World>, Rank, Option<Rank>) { (&self.w, self.me, None) } }
    pub trait MatchedReceiveVec { fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, Status); }
    impl MatchedReceiveVec for (Message, Status) {
        fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, Status) {
            let d = dt::<T>();
            assert_eq!(self.0.data.len(), self.0.n * d.packed_size(), "message of another type");
            let mut v: Vec<T> = Vec::with_capacity(self.0.n);
            unsafe { unpack_raw(&d, &self.0.data, v.as_mut_ptr() as *mut u8, self.0.n); v.set_len(self.0.n); }
            (v, self.1)
        }
    }
    pub trait MatchesRaw {}
    impl MatchesRaw for UserDatatype {}
}

pub mod request {
    use super::*;
    use std::marker::PhantomData;
    pub unsafe trait Scope<'a> {}
    pub struct LocalScope<'a>(PhantomData<&'a ()>);
    unsafe impl<'a, 'b> Scope<'a> for &'b LocalScope<'a> {}
    pub fn scope<'a, F, R>(f: F) -> R where F: FnOnce(&LocalScope<'a>) -> R { f(&LocalScope(PhantomData)) }
    pub struct Request<'a, D: ?Sized, S: Scope<'a> = &'a LocalScope<'a>> { raw: ffi::MPI_Request, _m: PhantomData<(&'a (), fn(&D), S)> }
    impl<'a, D: ?Sized, S: Scope<'a>> Request<'a, D, S> {
        pub(crate) fn new(raw: u64) -> Self { Request { raw, _m: PhantomData } }
        pub fn wait(self) -> Status { let (w, me) = current(); w.wait_taken(me, self.raw); Status { src: me, tag: 0, n: 0 } }
        pub fn test(self) -> Result<Status, Self> { let (w, me) = current(); if w.completed(self.raw) { Ok(Status { src: me, tag: 0, n: 0 }) } else { Err(self) } }
        pub fn wait_without_status(self) { self.wait(); }
        pub unsafe fn into_raw(self) -> (ffi::MPI_Request, ()) { (self.raw, ()) }
        pub unsafe fn from_raw<E: ?Sized>(raw: ffi::MPI_Request, _d: &'a E, _s: S) -> Self { Request { raw, _m: PhantomData } }
    }
    pub struct WaitGuard<'a, D: ?Sized, S: Scope<'a> = &'a LocalScope<'a>>(Request<'a, D, S>);
    impl<'a, D: ?Sized, S: Scope<'a>> Drop for WaitGuard<'a, D, S> { fn drop(&mut self) { let (w, me) = current(); w.wait_taken(me, self.0.raw); } }
    impl<'a, D: ?Sized, S: Scope<'a>> From<Request<'a, D, S>> for WaitGuard<'a, D, S> { fn from(r: Request<'a, D, S>) -> Self { WaitGuard(r) } }
}
pub mod ffi {
    #![allow(non_camel_case_types, non_snake_case)]
    pub type MPI_Request = u64;
    pub struct MPI_Status;
    pub unsafe fn MPI_Test(r: &mut MPI_Request, flag: *mut i32, _s: *mut MPI_Status) -> i32 { let (w, _) = super::current(); *flag = w.completed(*r) as i32; 0 }
}
