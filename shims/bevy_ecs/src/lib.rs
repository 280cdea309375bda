//! Stand-in for bevy_ecs: markers, and system parameters as plain references.
use std::cell::RefCell;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
pub use vxderive::{Bundle, Component, Resource};

macro_rules! wrap {
    ($($n:ident),*) => { $(
        pub struct $n<'a, T> { vx: &'a mut T }
        #[allow(non_snake_case)] pub fn $n<T>(vx: &mut T) -> $n<'_, T> { $n { vx } }
        impl<'a, T> Deref for $n<'a, T> { type Target = T; fn deref(&self) -> &T { self.vx } }
        impl<'a, T> DerefMut for $n<'a, T> { fn deref_mut(&mut self) -> &mut T { self.vx } }
    )* };
}
wrap!(ResMut, NonSendMut);
pub struct Res<'a, T> { vx: &'a T }
#[allow(non_snake_case)] pub fn Res<T>(vx: &T) -> Res<'_, T> { Res { vx } }
impl<'a, T> Deref for Res<'a, T> { type Target = T; fn deref(&self) -> &T { self.vx } }
pub struct NonSend<'a, T> { vx: &'a T }
#[allow(non_snake_case)] pub fn NonSend<T>(vx: &T) -> NonSend<'_, T> { NonSend { vx } }
impl<'a, T> Deref for NonSend<'a, T> { type Target = T; fn deref(&self) -> &T { self.vx } }
pub struct EventReader<T>(pub Vec<T>);
impl<T> EventReader<T> {
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&mut self) -> std::vec::Drain<'_, T> { self.0.drain(..) }
}
/// what a system was handed by value stays visible through a clone
pub struct EventWriter<T>(pub Rc<RefCell<Vec<T>>>);
impl<T> Clone for EventWriter<T> { fn clone(&self) -> Self { EventWriter(self.0.clone()) } }
impl<T> Default for EventWriter<T> { fn default() -> Self { EventWriter(Rc::new(RefCell::new(vec![]))) } }
impl<T> EventWriter<T> { pub fn send(&mut self, t: T) { self.0.borrow_mut().push(t) } pub fn vx_len(&self) -> usize { self.0.borrow().len() } }
#[derive(Clone, Default)]
pub struct Commands { pub inserted: Rc<RefCell<Vec<Box<dyn std::any::Any>>>>, pub spawned: Rc<RefCell<Vec<Vec<Box<dyn std::any::Any>>>>>, pub entities: Rc<RefCell<Vec<Vec<Box<dyn std::any::Any>>>>> }
/// a tuple of components, taken apart
pub trait VxBundle { fn vx_parts(self) -> Vec<Box<dyn std::any::Any>>; }
macro_rules! bundles { ($($($n:ident)+;)*) => { $( impl<$($n: 'static),+> VxBundle for ($($n,)+) { #[allow(non_snake_case)] fn vx_parts(self) -> Vec<Box<dyn std::any::Any>> { let ($($n,)+) = self; vec![$(Box::new($n)),+] } } )* } }
bundles! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; }
/// the entity just spawned
pub struct EntityCommands { all: Rc<RefCell<Vec<Vec<Box<dyn std::any::Any>>>>>, at: usize }
impl EntityCommands {
    pub fn insert<B: 'static>(&mut self, b: B) -> &mut Self { self.all.borrow_mut()[self.at].push(Box::new(b)); self }
    pub fn id(&self) -> Entity { Entity(self.at as u64) }
}
impl Commands {
    pub fn spawn<B: VxBundle>(&mut self, b: B) -> EntityCommands { self.spawned.borrow_mut().push(b.vx_parts()); EntityCommands { all: self.spawned.clone(), at: self.spawned.borrow().len() - 1 } }
    pub fn spawn_empty(&mut self) -> EntityCommands { self.spawned.borrow_mut().push(vec![]); EntityCommands { all: self.spawned.clone(), at: self.spawned.borrow().len() - 1 } }
    /// what is inserted at existing entities is in `entities`, by their number
    pub fn entity(&mut self, e: Entity) -> EntityCommands { let mut v = self.entities.borrow_mut(); while v.len() <= e.0 as usize { v.push(vec![]) } drop(v); EntityCommands { all: self.entities.clone(), at: e.0 as usize } }
    pub fn insert_resource<T: 'static>(&mut self, t: T) { self.inserted.borrow_mut().push(Box::new(t)) }
    pub fn vx_get<T: Copy + 'static>(&self) -> Option<T> { self.inserted.borrow().iter().rev().find_map(|b| b.downcast_ref::<T>().copied()) }
    pub fn vx_take<T: 'static>(&self) -> Option<T> { self.inserted.borrow_mut().pop().and_then(|b| b.downcast::<T>().ok()).map(|b| *b) }
}
pub trait Component {}
impl<T> Component for T {}
pub trait Resource {}
impl<T> Resource for T {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Entity(pub u64);
impl Entity { pub fn from_bits(b: u64) -> Self { Entity(b) } pub fn to_bits(self) -> u64 { self.0 } pub fn from_raw(i: u32) -> Self { Entity(i as u64) } }
pub mod schedule { #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum ShouldRun { Yes, No } }
pub mod entity { pub use crate::Entity; }
pub mod component { pub use crate::Component; }
pub mod event { pub use crate::{EventReader, EventWriter}; }
pub mod system { pub use crate::{Commands, NonSend, NonSendMut, Res, ResMut, Resource}; }
pub mod prelude { pub use crate::{schedule::ShouldRun, Bundle, Commands, Component, Entity, EventReader, EventWriter, NonSend, NonSendMut, Res, ResMut, Resource}; }
