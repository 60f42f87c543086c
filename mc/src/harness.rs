//! A uniform, type-erased interface over every way the public API offers to touch an entity, so that
//! scenarios can enumerate the ways instead of naming them. `harness_impl!` implements it for a world
//! by expanding the real API calls and query macros for each archetype.

use gecs::prelude::*;

/// Upper bound on components per archetype in any harness world.
pub const MAXC: usize = if cfg!(feature = "comp32") { 32 } else { 16 };

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Vals {
    pub n: u8,
    pub v: [u32; MAXC],
}

impl std::fmt::Debug for Vals {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:x?}", &self.v[..self.n as usize])
    }
}

impl Vals {
    pub const fn empty() -> Self {
        Vals { n: 0, v: [0; MAXC] }
    }
    #[inline]
    pub fn push(&mut self, v: u32) {
        self.v[self.n as usize] = v;
        self.n += 1;
    }
    pub fn as_slice(&self) -> &[u32] {
        &self.v[..self.n as usize]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    E(EntityAny),
    D(EntityDirectAny),
}

/// One of the four key kinds: (entity | direct entity) x (typed | dynamically typed).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Key {
    pub h: H,
    pub typed: bool,
    /// Typed by the unchecked conversion (the handle may belong to another archetype).
    pub unchecked: bool,
}

impl Key {
    pub fn ent(e: EntityAny, typed: bool) -> Key {
        Key { h: H::E(e), typed, unchecked: false }
    }
    pub fn dir(d: EntityDirectAny, typed: bool) -> Key {
        Key { h: H::D(d), typed, unchecked: false }
    }
}

/// Everything one lookup reveals about the entity it found.
#[derive(Clone, Copy, Debug)]
pub struct Seen {
    pub vals: Option<Vals>,
    pub entity: Option<EntityAny>,
    pub direct: Option<EntityDirectAny>,
    pub index: Option<usize>,
}

impl Seen {
    pub const NOTHING: Seen = Seen { vals: None, entity: None, direct: None, index: None };
}

macro_rules! enum_all {
    ($(#[$m:meta])* $name:ident { $($v:ident),* $(,)? }) => {
        $(#[$m])*
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum $name { $($v),* }
        impl $name {
            pub const ALL: &'static [$name] = &[$($name::$v),*];
        }
    };
}

enum_all! {
    /// Lookups by key.
    Look {
        WorldContains, WorldToDirect, ArchContains, ArchResolve, ArchToDirect,
        ArchView, ArchViewFields, ArchBorrow, ArchBorrowMut, WorldView, WorldBorrow,
        Find, FindMut, FindBorrow, FindBorrowMut,
        ResolveGetSlice, ResolveGetSliceMut, ResolveBorrowSlice, ResolveBorrowSliceMut, ResolveAllSlices,
        FindOnlyHandles, FindBorrowOnlyHandles,
    }
}

impl Look {
    /// `World::view` and `World::borrow` only take typed keys.
    pub fn takes(self, typed: bool) -> bool {
        typed || !matches!(self, Look::WorldView | Look::WorldBorrow)
    }
}

enum_all! {
    /// Writes of one component of one entity.
    Write {
        Find, FindBorrow, View, ViewField, WorldView, Borrow, WorldBorrow,
        GetSliceMut, BorrowSliceMut, AllSlices, ArchIterMut, EcsIter, EcsIterBorrow, EcsIterDestroy,
    }
}

impl Write {
    /// Those that start from any kind of key.
    pub const ALL_KEYED: &'static [Write] = &[
        Write::Find, Write::FindBorrow, Write::View, Write::ViewField, Write::WorldView, Write::Borrow, Write::WorldBorrow,
        Write::GetSliceMut, Write::BorrowSliceMut, Write::AllSlices,
    ];
}

enum_all! {
    /// Passes over the entities of one archetype.
    Scan {
        ArchIter, ArchIterMut, EcsIter, EcsIterMut, EcsIterBorrow, EcsIterBorrowMut, EcsIterDestroy,
        Slices, SlicesMut, BorrowSlices, BorrowSlicesMut, AllSlices,
    }
}

enum_all! {
    /// Passes over the entities of every archetype at once.
    ScanAll { Iter, IterWild, IterBorrow, IterBorrowWild, IterDestroy, IterDestroyWild }
}

/// What a pass presents for each entity.
#[derive(Clone, Copy, Debug)]
pub struct Item {
    pub arch: usize,
    pub entity: EntityAny,
    pub direct: Option<EntityDirectAny>,
    pub vals: Option<Vals>,
}

/// One call on an iterator. `Count`, `Last` and `Rest` consume it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum It {
    Next,
    Nth(usize),
    Hint,
    Take(usize),
    /// `skip(n)` on the borrowed iterator, then one item.
    Skip(usize),
    /// `any` that answers true on the n-th item it is given.
    Any(usize),
    Count,
    Last,
    /// `for_each`.
    Rest,
    Fold,
    /// A plain `for` loop.
    Loop,
    StepBy(usize),
    Collect,
}

impl It {
    pub const ENDS: [It; 8] = [It::Count, It::Last, It::Rest, It::Fold, It::Loop, It::StepBy(2), It::StepBy(3), It::Collect];
}

/// What an iterator call answered (entities by handle, values in one word each).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev<T = (EntityAny, Vals)> {
    Item(Option<T>),
    Items(Vec<T>),
    Hint(usize, Option<usize>),
    Count(usize),
}

/// Runs the script on an iterator. The iterator's own methods are called, not those of an adaptor.
pub fn run_script<I: Iterator, T>(mut it: I, mut conv: impl FnMut(I::Item) -> T, script: &[It]) -> Vec<Ev<T>> {
    let mut out = Vec::new();
    for (k, s) in script.iter().enumerate() {
        let all = match s {
            It::Next => {
                out.push(Ev::Item(it.next().map(&mut conv)));
                continue;
            }
            It::Nth(n) => {
                out.push(Ev::Item(it.nth(*n).map(&mut conv)));
                continue;
            }
            It::Skip(n) => {
                out.push(Ev::Item(it.by_ref().skip(*n).next().map(&mut conv)));
                continue;
            }
            It::Hint => {
                let (lo, hi) = it.size_hint();
                out.push(Ev::Hint(lo, hi));
                continue;
            }
            It::Take(n) => {
                out.push(Ev::Items(it.by_ref().take(*n).map(&mut conv).collect()));
                continue;
            }
            It::Any(n) => {
                let mut seen = Vec::new();
                it.any(|x| {
                    seen.push(conv(x));
                    seen.len() > *n
                });
                out.push(Ev::Items(seen));
                continue;
            }
            It::Count => Ev::Count(it.count()),
            It::Last => Ev::Item(it.last().map(conv)),
            It::Rest => {
                let mut rest = Vec::new();
                it.for_each(|x| rest.push(conv(x)));
                Ev::Items(rest)
            }
            It::Fold => Ev::Items(it.fold(Vec::new(), |mut v, x| {
                v.push(conv(x));
                v
            })),
            It::Loop => {
                let mut rest = Vec::new();
                for x in it {
                    rest.push(conv(x));
                }
                Ev::Items(rest)
            }
            It::StepBy(n) => Ev::Items(it.step_by(*n).map(conv).collect()),
            It::Collect => Ev::Items(it.collect::<Vec<_>>().into_iter().map(conv).collect()),
        };
        assert!(k + 1 == script.len());
        out.push(all);
        return out;
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    World,
    Arch,
    WorldWithin,
    ArchWithin,
}

impl How {
    pub const ALL: [How; 4] = [How::World, How::WorldWithin, How::Arch, How::ArchWithin];
    pub fn within(self) -> bool {
        matches!(self, How::WorldWithin | How::ArchWithin)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Info {
    pub name: &'static str,
    pub id: u8,
    pub comps: usize,
    /// Registered values and registered zero-sized values per entity.
    pub counts: (i64, i64),
    pub norm: &'static [fn(u32) -> u32],
}

/// Result of a destroy: `None` refused, `Some(None)` accepted without returning components,
/// `Some(Some(_))` accepted and returned these.
pub type Destroyed = Option<Option<Vals>>;

pub trait HWorld: World + Clone + 'static {
    const N: usize;
    fn info(a: usize) -> Info;
    fn build(caps: &[usize]) -> Self;
    fn create_e(&mut self, a: usize, how: How, vals: &Vals) -> Result<EntityAny, Vals>;
    fn look(&mut self, a: usize, path: Look, key: Key) -> Option<Seen>;
    /// Lookups with a shared borrow only (used while something else is borrowed).
    fn destroy_e(&mut self, a: usize, at_world: bool, key: Key) -> Destroyed;
    fn write(&mut self, a: usize, path: Write, key: Key, comp: usize, v: u32) -> bool;
    fn scan(&mut self, a: usize, path: Scan, f: &mut dyn FnMut(Item) -> bool);
    fn scan_all(&mut self, path: ScanAll, f: &mut dyn FnMut(Item) -> bool);
    /// Runs a script of iterator calls on `Archetype::iter` / `iter_mut`.
    fn iter_script(&mut self, a: usize, mutable: bool, script: &[It]) -> Vec<Ev>;
    fn iter_destroy_one(&mut self, a: usize, f: &mut dyn FnMut(Item) -> EcsStepDestroy);
    fn iter_destroy_all(&mut self, wild: bool, f: &mut dyn FnMut(Item) -> EcsStepDestroy);
    fn len_of(&self, a: usize) -> usize;
    fn empty_of(&self, a: usize) -> bool;
    fn cap_of(&self, a: usize) -> usize;
    fn entities_of(&self, a: usize, f: &mut dyn FnMut(EntityAny));
    /// Lengths of every slice accessor of the archetype.
    fn slice_lens(&mut self, a: usize, f: &mut dyn FnMut(&'static str, usize));
    /// (created, destroyed) event lists at archetype level.
    #[cfg(feature = "ev")]
    fn events_of(&self, a: usize) -> (Vec<EntityAny>, Vec<EntityAny>);
    #[cfg(feature = "ev")]
    fn clear_events_of(&mut self, a: usize);
}

#[macro_export]
macro_rules! with_key {
    ($key:expr, $A:ty, |$k:ident| $body:expr) => {
        match ($key.h, $key.typed) {
            ($crate::harness::H::E(e), true) => {
                let $k = if $key.unchecked { Entity::<$A>::from_any_unchecked(e) } else { Entity::<$A>::from_any(e) };
                $body
            }
            ($crate::harness::H::E($k), false) => $body,
            ($crate::harness::H::D(d), true) => {
                let $k = if $key.unchecked { EntityDirect::<$A>::from_any_unchecked(d) } else { EntityDirect::<$A>::from_any(d) };
                $body
            }
            ($crate::harness::H::D($k), false) => $body,
        }
    };
}

/// As `with_key`, but with keys of unknown type by reference, shared or mutable (which finds take too).
#[macro_export]
macro_rules! with_key_or_ref {
    ($key:expr, $A:ty, |$k:ident| $body:expr $(, $m:tt)?) => {
        match ($key.h, $key.typed) {
            (_, true) => $crate::with_typed_key!($key, $A, |$k| $body),
            ($crate::harness::H::E(mut e), false) => {
                let $k = &$($m)? e;
                let found = $body;
                let _ = &mut e;
                assert!($crate::harness::H::E(e) == $key.h, "a find altered its key");
                found
            }
            ($crate::harness::H::D(mut d), false) => {
                let $k = &$($m)? d;
                let found = $body;
                let _ = &mut d;
                assert!($crate::harness::H::D(d) == $key.h, "a find altered its key");
                found
            }
        }
    };
}

#[macro_export]
macro_rules! with_typed_key {
    ($key:expr, $A:ty, |$k:ident| $body:expr) => {
        match $key.h {
            $crate::harness::H::E(e) => {
                let $k = if $key.unchecked { Entity::<$A>::from_any_unchecked(e) } else { Entity::<$A>::from_any(e) };
                $body
            }
            $crate::harness::H::D(d) => {
                let $k = if $key.unchecked { EntityDirect::<$A>::from_any_unchecked(d) } else { EntityDirect::<$A>::from_any(d) };
                $body
            }
        }
    };
}

/// Implements [`HWorld`] for a world. To be used in the module that declares the world.
#[macro_export]
macro_rules! harness_impl {
    ($World:ident, $Caps:ident, $n:literal, [$( $idx:literal $Arch:ident $arch:ident ( $( $ci:literal $C:ident $c:ident ),* ) )*]) => {
        #[allow(unused_mut, unused_variables, unused_assignments)]
        impl $crate::harness::HWorld for $World {
            const N: usize = $n;

            fn info(a: usize) -> $crate::harness::Info {
                use $crate::reg::Comp;
                match a {
                    $($idx => $crate::harness::Info {
                        name: stringify!($Arch),
                        id: <$Arch as Archetype>::ARCHETYPE_ID,
                        comps: 0 $(+ { let _ = $ci; 1 })*,
                        counts: (0 $(+ <$C as Comp>::COUNTS.0)*, 0 $(+ <$C as Comp>::COUNTS.1)*),
                        norm: &[$(<$C as Comp>::norm),*],
                    },)*
                    _ => unreachable!(),
                }
            }

            fn build(caps: &[usize]) -> Self {
                <$World as World>::with_capacity($Caps { $($arch: caps[$idx]),* })
            }

            fn create_e(&mut self, a: usize, how: $crate::harness::How, vals: &$crate::harness::Vals) -> Result<EntityAny, $crate::harness::Vals> {
                use $crate::harness::{How, Vals};
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx => {
                        let data = ($(<$C as Comp>::make(vals.v[$ci]),)*);
                        let back = |c: <$Arch as Archetype>::Components| {
                            let mut out = Vals::empty();
                            $( out.push(<_ as Components>::get::<$C>(&c).get()); )*
                            out
                        };
                        match how {
                            How::World => Ok(World::create::<$Arch>(world, data).into_any()),
                            How::Arch => Ok(world.archetype_mut::<$Arch>().create(data).into_any()),
                            How::WorldWithin => World::create_within_capacity::<$Arch>(world, data).map(|e| e.into_any()).map_err(back),
                            How::ArchWithin => world.$arch.create_within_capacity(data).map(|e| e.into_any()).map_err(back),
                        }
                    })*
                    _ => unreachable!(),
                }
            }

            fn look(&mut self, a: usize, path: $crate::harness::Look, key: $crate::harness::Key) -> Option<$crate::harness::Seen> {
                use $crate::harness::{Look, Seen, Vals};
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx => match path {
                        Look::WorldContains => $crate::with_key!(key, $Arch, |k| world.contains(k).then_some(Seen::NOTHING)),
                        Look::WorldToDirect => $crate::with_key!(key, $Arch, |k| world.to_direct(k).map(|d| Seen { direct: Some(d.into_any()), ..Seen::NOTHING })),
                        Look::ArchContains => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().contains(k).then_some(Seen::NOTHING)),
                        Look::ArchResolve => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| Seen {
                            entity: world.archetype::<$Arch>().entities().get(i).map(|e| e.into_any()),
                            index: Some(i),
                            ..Seen::NOTHING
                        })),
                        Look::ArchToDirect => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().to_direct(k).map(|d| Seen { direct: Some(d.into_any()), ..Seen::NOTHING })),
                        Look::ArchView => $crate::with_key!(key, $Arch, |k| world.archetype_mut::<$Arch>().view(k).map(|mut view| {
                            let mut vals = Vals::empty();
                            $( vals.push(View::component::<$C>(&view).get()); )*
                            $( let again = View::component_mut::<$C>(&mut view).get(); if again != vals.v[$ci] { vals.v[$ci] = u32::MAX - 7; } )*
                            Seen { vals: Some(vals), entity: Some(view.entity.into_any()), index: Some(View::index(&view)), direct: None }
                        })),
                        Look::ArchViewFields => $crate::with_key!(key, $Arch, |k| world.archetype_mut::<$Arch>().view(k).map(|view| {
                            let mut vals = Vals::empty();
                            $( vals.push(view.$c.get()); )*
                            Seen { vals: Some(vals), entity: Some(view.entity.into_any()), index: Some(View::index(&view)), direct: None }
                        })),
                        Look::ArchBorrow => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().borrow(k).map(|b| {
                            let mut vals = Vals::empty();
                            $( vals.push(Borrow::component::<$C>(&b).get()); )*
                            Seen { vals: Some(vals), entity: Some(Borrow::entity(&b).into_any()), index: Some(Borrow::index(&b)), direct: None }
                        })),
                        Look::ArchBorrowMut => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().borrow(k).map(|b| {
                            let mut vals = Vals::empty();
                            $( vals.push(Borrow::component_mut::<$C>(&b).get()); )*
                            Seen { vals: Some(vals), entity: Some(Borrow::entity(&b).into_any()), index: Some(Borrow::index(&b)), direct: None }
                        })),
                        Look::WorldView => $crate::with_typed_key!(key, $Arch, |k| World::view::<$Arch, _>(world, k).map(|view| {
                            let mut vals = Vals::empty();
                            $( vals.push(view.$c.get()); )*
                            Seen { vals: Some(vals), entity: Some(view.entity.into_any()), index: Some(View::index(&view)), direct: None }
                        })),
                        Look::WorldBorrow => $crate::with_typed_key!(key, $Arch, |k| World::borrow::<$Arch, _>(world, k).map(|b| {
                            let mut vals = Vals::empty();
                            $( vals.push(Borrow::component::<$C>(&b).get()); )*
                            Seen { vals: Some(vals), entity: Some(Borrow::entity(&b).into_any()), index: Some(Borrow::index(&b)), direct: None }
                        })),
                        Look::Find => $crate::with_key!(key, $Arch, |k| ecs_find!(world, k, |e: &Entity<$Arch>, d: &EntityDirect<$Arch>, $($c: &$C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            Seen { vals: Some(vals), entity: Some(e.into_any()), direct: Some(d.into_any()), index: None }
                        })),
                        Look::FindMut => $crate::with_key!(key, $Arch, |k| ecs_find!(world, k, |e: &Entity<_>, d: &EntityDirectAny, _own: &Entity<$Arch>, $($c: &mut $C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            Seen { vals: Some(vals), entity: Some(e.into_any()), direct: Some(*d), index: None }
                        })),
                        Look::FindBorrow => $crate::with_key!(key, $Arch, |k| ecs_find_borrow!(world, k, |e: &Entity<$Arch>, d: &EntityDirect<$Arch>, $($c: &$C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            Seen { vals: Some(vals), entity: Some(e.into_any()), direct: Some(d.into_any()), index: None }
                        })),
                        Look::FindBorrowMut => $crate::with_key!(key, $Arch, |k| ecs_find_borrow!(world, k, |e: &EntityAny, d: &EntityDirect<_>, _own: &Entity<$Arch>, $($c: &mut $C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            Seen { vals: Some(vals), entity: Some(*e), direct: Some(d.into_any()), index: None }
                        })),
                        Look::ResolveGetSlice => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| {
                            let mut vals = Vals::empty();
                            $( vals.push(world.archetype_mut::<$Arch>().get_slice::<$C>()[i].get()); )*
                            Seen { vals: Some(vals), entity: Some(world.archetype::<$Arch>().entities()[i].into_any()), direct: None, index: Some(i) }
                        })),
                        Look::ResolveGetSliceMut => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| {
                            let mut vals = Vals::empty();
                            $( vals.push(world.archetype_mut::<$Arch>().get_slice_mut::<$C>()[i].get()); )*
                            Seen { vals: Some(vals), entity: Some(world.archetype::<$Arch>().entities()[i].into_any()), direct: None, index: Some(i) }
                        })),
                        Look::ResolveBorrowSlice => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| {
                            let mut vals = Vals::empty();
                            $( vals.push(world.archetype::<$Arch>().borrow_slice::<$C>()[i].get()); )*
                            Seen { vals: Some(vals), entity: Some(world.archetype::<$Arch>().entities()[i].into_any()), direct: None, index: Some(i) }
                        })),
                        Look::ResolveBorrowSliceMut => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| {
                            let mut vals = Vals::empty();
                            $( vals.push(world.archetype::<$Arch>().borrow_slice_mut::<$C>()[i].get()); )*
                            Seen { vals: Some(vals), entity: Some(world.archetype::<$Arch>().entities()[i].into_any()), direct: None, index: Some(i) }
                        })),
                        Look::ResolveAllSlices => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| {
                            let slices = world.archetype_mut::<$Arch>().get_all_slices_mut();
                            let mut vals = Vals::empty();
                            $( vals.push(slices.$c[i].get()); )*
                            Seen { vals: Some(vals), entity: Some(slices.entity[i].into_any()), direct: None, index: Some(i) }
                        })),
                        Look::FindOnlyHandles => $crate::with_key_or_ref!(key, $Arch, |k| ecs_find!(world, k, |e: &Entity<_>, d: &EntityDirect<_>| {
                            Seen { vals: None, entity: Some(e.into_any()), direct: Some(d.into_any()), index: None }
                        })),
                        Look::FindBorrowOnlyHandles => $crate::with_key_or_ref!(key, $Arch, |k| ecs_find_borrow!(world, k, |e: &EntityAny, d: &EntityDirectAny| {
                            Seen { vals: None, entity: Some(*e), direct: Some(*d), index: None }
                        }), mut),
                    },)*
                    _ => unreachable!(),
                }
            }

            fn destroy_e(&mut self, a: usize, at_world: bool, key: $crate::harness::Key) -> $crate::harness::Destroyed {
                use $crate::harness::{Vals, H};
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx => {
                        let back = |c: <$Arch as Archetype>::Components| {
                            let mut out = Vals::empty();
                            let ($($c,)*) = c.into_tuple();
                            $( out.push($c.get()); )*
                            Some(out)
                        };
                        if at_world {
                            match (key.h, key.typed) {
                                (H::E(e), true) => world.destroy(if key.unchecked { Entity::<$Arch>::from_any_unchecked(e) } else { Entity::<$Arch>::from_any(e) }).map(back),
                                (H::D(d), true) => world.destroy(if key.unchecked { EntityDirect::<$Arch>::from_any_unchecked(d) } else { EntityDirect::<$Arch>::from_any(d) }).map(back),
                                (H::E(e), false) => world.destroy(e).map(|()| None),
                                (H::D(d), false) => world.destroy(d).map(|()| None),
                            }
                        } else {
                            $crate::with_key!(key, $Arch, |k| Archetype::destroy(world.archetype_mut::<$Arch>(), k).map(back))
                        }
                    })*
                    _ => unreachable!(),
                }
            }

            fn write(&mut self, a: usize, path: $crate::harness::Write, key: $crate::harness::Key, comp: usize, v: u32) -> bool {
                use $crate::harness::{Write, Key};
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx if path == Write::ArchIterMut => {
                        let Key { h: $crate::harness::H::E(want), .. } = key else { return false };
                        let mut hit = false;
                        for (e, $($c),*) in world.archetype_mut::<$Arch>().iter_mut() {
                            if e.into_any() == want {
                                match comp { $($ci => $c.set(v),)* _ => unreachable!() }
                                hit = true;
                            }
                        }
                        hit
                    })*
                    $($idx => match comp {
                        $($ci => match path {
                            Write::Find => $crate::with_key!(key, $Arch, |k| ecs_find!(world, k, |_e: &Entity<$Arch>, x: &mut $C| x.set(v)).is_some()),
                            Write::FindBorrow => $crate::with_key!(key, $Arch, |k| ecs_find_borrow!(world, k, |_e: &Entity<$Arch>, x: &mut $C| x.set(v)).is_some()),
                            Write::View => $crate::with_key!(key, $Arch, |k| world.archetype_mut::<$Arch>().view(k).map(|mut w| View::component_mut::<$C>(&mut w).set(v)).is_some()),
                            Write::ViewField => $crate::with_key!(key, $Arch, |k| world.archetype_mut::<$Arch>().view(k).map(|w| w.$c.set(v)).is_some()),
                            Write::WorldView => $crate::with_typed_key!(key, $Arch, |k| World::view::<$Arch, _>(world, k).map(|mut w| View::component_mut::<$C>(&mut w).set(v)).is_some()),
                            Write::Borrow => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().borrow(k).map(|b| Borrow::component_mut::<$C>(&b).set(v)).is_some()),
                            Write::WorldBorrow => $crate::with_typed_key!(key, $Arch, |k| World::borrow::<$Arch, _>(world, k).map(|b| Borrow::component_mut::<$C>(&b).set(v)).is_some()),
                            Write::GetSliceMut => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| world.archetype_mut::<$Arch>().get_slice_mut::<$C>()[i].set(v)).is_some()),
                            Write::BorrowSliceMut => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| world.archetype::<$Arch>().borrow_slice_mut::<$C>()[i].set(v)).is_some()),
                            Write::AllSlices => $crate::with_key!(key, $Arch, |k| world.archetype::<$Arch>().resolve(k).map(|i| world.archetype_mut::<$Arch>().get_all_slices_mut().$c[i].set(v)).is_some()),
                            Write::ArchIterMut => unreachable!(),
                            Write::EcsIter => {
                                let Key { h: $crate::harness::H::E(want), .. } = key else { return false };
                                let mut hit = false;
                                ecs_iter!(world, |e: &Entity<$Arch>, x: &mut $C| { if e.into_any() == want { x.set(v); hit = true; } });
                                hit
                            }
                            Write::EcsIterBorrow => {
                                let Key { h: $crate::harness::H::E(want), .. } = key else { return false };
                                let mut hit = false;
                                ecs_iter_borrow!(world, |e: &Entity<$Arch>, x: &mut $C| { if e.into_any() == want { x.set(v); hit = true; } });
                                hit
                            }
                            Write::EcsIterDestroy => {
                                let Key { h: $crate::harness::H::E(want), .. } = key else { return false };
                                let mut hit = false;
                                ecs_iter_destroy!(world, |e: &Entity<$Arch>, x: &mut $C| { if e.into_any() == want { x.set(v); hit = true; } EcsStepDestroy::Continue });
                                hit
                            }
                        },)*
                        _ => unreachable!(),
                    },)*
                    _ => unreachable!(),
                }
            }

            fn scan(&mut self, a: usize, path: $crate::harness::Scan, f: &mut dyn FnMut($crate::harness::Item) -> bool) {
                use $crate::harness::{Item, Scan, Vals};
                use $crate::reg::Comp;
                let world = self;
                let go = |more: bool| if more { EcsStep::Continue } else { EcsStep::Break };
                match a {
                    $($idx => match path {
                        Scan::ArchIter => {
                            for (e, $($c),*) in world.archetype_mut::<$Arch>().iter() {
                                let mut vals = Vals::empty();
                                $( vals.push($c.get()); )*
                                if !f(Item { arch: $idx, entity: e.into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::ArchIterMut => {
                            for (e, $($c),*) in world.archetype_mut::<$Arch>().iter_mut() {
                                let mut vals = Vals::empty();
                                $( vals.push($c.get()); )*
                                if !f(Item { arch: $idx, entity: e.into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::EcsIter => ecs_iter!(world, |e: &Entity<$Arch>, d: &EntityDirect<_>, $($c: &$C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            go(f(Item { arch: $idx, entity: e.into_any(), direct: Some(d.into_any()), vals: Some(vals) }))
                        }),
                        Scan::EcsIterMut => ecs_iter!(world, |$($c: &mut $C,)* d: &EntityDirect<$Arch>, e: &EntityAny| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            go(f(Item { arch: $idx, entity: *e, direct: Some(d.into_any()), vals: Some(vals) }))
                        }),
                        Scan::EcsIterBorrow => ecs_iter_borrow!(world, |e: &Entity<$Arch>, d: &EntityDirectAny, $($c: &$C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            go(f(Item { arch: $idx, entity: e.into_any(), direct: Some(*d), vals: Some(vals) }))
                        }),
                        Scan::EcsIterBorrowMut => ecs_iter_borrow!(world, |$($c: &mut $C,)* d: &EntityDirect<$Arch>, e: &Entity<_>| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            go(f(Item { arch: $idx, entity: e.into_any(), direct: Some(d.into_any()), vals: Some(vals) }))
                        }),
                        Scan::EcsIterDestroy => ecs_iter_destroy!(world, |e: &Entity<$Arch>, d: &EntityDirect<$Arch>, $($c: &mut $C),*| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            match f(Item { arch: $idx, entity: e.into_any(), direct: Some(d.into_any()), vals: Some(vals) }) {
                                true => EcsStepDestroy::Continue,
                                false => EcsStepDestroy::Break,
                            }
                        }),
                        Scan::Slices => {
                            let n = world.archetype::<$Arch>().entities().len();
                            for i in 0..n {
                                let mut vals = Vals::empty();
                                $( vals.push(world.archetype_mut::<$Arch>().get_slice::<$C>()[i].get()); )*
                                if !f(Item { arch: $idx, entity: world.archetype::<$Arch>().entities()[i].into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::SlicesMut => {
                            let n = world.archetype::<$Arch>().entities().len();
                            for i in 0..n {
                                let mut vals = Vals::empty();
                                $( vals.push(world.archetype_mut::<$Arch>().get_slice_mut::<$C>()[i].get()); )*
                                if !f(Item { arch: $idx, entity: world.archetype::<$Arch>().entities()[i].into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::BorrowSlices => {
                            let arch = world.archetype::<$Arch>();
                            $( let $c = arch.borrow_slice::<$C>(); )*
                            for (i, e) in arch.entities().iter().enumerate() {
                                let mut vals = Vals::empty();
                                $( vals.push($c[i].get()); )*
                                if !f(Item { arch: $idx, entity: e.into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::BorrowSlicesMut => {
                            let arch = world.archetype::<$Arch>();
                            $( let $c = arch.borrow_slice_mut::<$C>(); )*
                            for (i, e) in arch.entities().iter().enumerate() {
                                let mut vals = Vals::empty();
                                $( vals.push($c[i].get()); )*
                                if !f(Item { arch: $idx, entity: e.into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                        Scan::AllSlices => {
                            let slices = world.archetype_mut::<$Arch>().get_all_slices_mut();
                            for (i, e) in slices.entity.iter().enumerate() {
                                let mut vals = Vals::empty();
                                $( vals.push(slices.$c[i].get()); )*
                                if !f(Item { arch: $idx, entity: e.into_any(), direct: None, vals: Some(vals) }) { break; }
                            }
                        }
                    },)*
                    _ => unreachable!(),
                }
            }

            fn scan_all(&mut self, path: $crate::harness::ScanAll, f: &mut dyn FnMut($crate::harness::Item) -> bool) {
                use $crate::harness::{Item, ScanAll};
                let world = self;
                let go = |more: bool| if more { EcsStep::Continue } else { EcsStep::Break };
                let god = |more: bool| if more { EcsStepDestroy::Continue } else { EcsStepDestroy::Break };
                match path {
                    ScanAll::Iter => ecs_iter!(world, |e: &EntityAny, d: &EntityDirectAny| go(f(Item { arch: usize::MAX, entity: *e, direct: Some(*d), vals: None }))),
                    ScanAll::IterWild => ecs_iter!(world, |e: &Entity<_>, d: &EntityDirect<_>| go(f(Item { arch: usize::MAX, entity: e.into_any(), direct: Some(d.into_any()), vals: None }))),
                    ScanAll::IterBorrow => ecs_iter_borrow!(world, |e: &EntityAny, d: &EntityDirectAny| go(f(Item { arch: usize::MAX, entity: *e, direct: Some(*d), vals: None }))),
                    ScanAll::IterBorrowWild => ecs_iter_borrow!(world, |e: &Entity<_>, d: &EntityDirect<_>| go(f(Item { arch: usize::MAX, entity: e.into_any(), direct: Some(d.into_any()), vals: None }))),
                    ScanAll::IterDestroy => ecs_iter_destroy!(world, |e: &EntityAny, d: &EntityDirectAny| god(f(Item { arch: usize::MAX, entity: *e, direct: Some(*d), vals: None }))),
                    ScanAll::IterDestroyWild => ecs_iter_destroy!(world, |e: &Entity<_>, d: &EntityDirect<_>| god(f(Item { arch: usize::MAX, entity: e.into_any(), direct: Some(d.into_any()), vals: None }))),
                }
            }

            fn iter_script(&mut self, a: usize, mutable: bool, script: &[$crate::harness::It]) -> Vec<$crate::harness::Ev> {
                use $crate::harness::Vals;
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx => if mutable {
                        $crate::harness::run_script(world.archetype_mut::<$Arch>().iter_mut(), |(e, $($c),*)| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            (e.into_any(), vals)
                        }, script)
                    } else {
                        $crate::harness::run_script(world.archetype_mut::<$Arch>().iter(), |(e, $($c),*)| {
                            let mut vals = Vals::empty();
                            $( vals.push($c.get()); )*
                            (e.into_any(), vals)
                        }, script)
                    },)*
                    _ => unreachable!(),
                }
            }

            fn iter_destroy_one(&mut self, a: usize, f: &mut dyn FnMut($crate::harness::Item) -> EcsStepDestroy) {
                use $crate::harness::{Item, Vals};
                use $crate::reg::Comp;
                let world = self;
                match a {
                    $($idx => ecs_iter_destroy!(world, |e: &Entity<$Arch>, d: &EntityDirect<$Arch>, $($c: &mut $C),*| {
                        let mut vals = Vals::empty();
                        $( vals.push($c.get()); )*
                        f(Item { arch: $idx, entity: e.into_any(), direct: Some(d.into_any()), vals: Some(vals) })
                    }),)*
                    _ => unreachable!(),
                }
            }

            fn iter_destroy_all(&mut self, wild: bool, f: &mut dyn FnMut($crate::harness::Item) -> EcsStepDestroy) {
                use $crate::harness::Item;
                let world = self;
                if wild {
                    ecs_iter_destroy!(world, |e: &Entity<_>, d: &EntityDirect<_>| f(Item { arch: usize::MAX, entity: e.into_any(), direct: Some(d.into_any()), vals: None }));
                } else {
                    ecs_iter_destroy!(world, |e: &EntityAny, d: &EntityDirectAny| f(Item { arch: usize::MAX, entity: *e, direct: Some(*d), vals: None }));
                }
            }

            fn len_of(&self, a: usize) -> usize {
                match a { $($idx => self.archetype::<$Arch>().len(),)* _ => unreachable!() }
            }
            fn empty_of(&self, a: usize) -> bool {
                match a { $($idx => self.archetype::<$Arch>().is_empty(),)* _ => unreachable!() }
            }
            fn cap_of(&self, a: usize) -> usize {
                match a { $($idx => self.archetype::<$Arch>().capacity(),)* _ => unreachable!() }
            }
            fn entities_of(&self, a: usize, f: &mut dyn FnMut(EntityAny)) {
                match a { $($idx => for e in self.archetype::<$Arch>().entities() { f(e.into_any()) },)* _ => unreachable!() }
            }
            fn slice_lens(&mut self, a: usize, f: &mut dyn FnMut(&'static str, usize)) {
                match a {
                    $($idx => {
                        let arch = self.archetype_mut::<$Arch>();
                        f("entities()", arch.entities().len());
                        f("iter()", arch.iter().count());
                        f("iter_mut()", arch.iter_mut().count());
                        $(
                            f(concat!("get_slice::<", stringify!($C), ">"), arch.get_slice::<$C>().len());
                            f(concat!("get_slice_mut::<", stringify!($C), ">"), arch.get_slice_mut::<$C>().len());
                            f(concat!("borrow_slice::<", stringify!($C), ">"), arch.borrow_slice::<$C>().len());
                            f(concat!("borrow_slice_mut::<", stringify!($C), ">"), arch.borrow_slice_mut::<$C>().len());
                        )*
                        let slices = arch.get_all_slices_mut();
                        f("get_all_slices_mut().entity", slices.entity.len());
                        $( f(concat!("get_all_slices_mut().", stringify!($c)), slices.$c.len()); )*
                    })*
                    _ => unreachable!(),
                }
            }
            #[cfg(feature = "ev")]
            fn events_of(&self, a: usize) -> (Vec<EntityAny>, Vec<EntityAny>) {
                match a {
                    $($idx => {
                        let arch = self.archetype::<$Arch>();
                        (arch.iter_created().map(|e| e.into_any()).collect(), arch.iter_destroyed().map(|e| e.into_any()).collect())
                    })*
                    _ => unreachable!(),
                }
            }
            #[cfg(feature = "ev")]
            fn clear_events_of(&mut self, a: usize) {
                match a { $($idx => self.archetype_mut::<$Arch>().clear_events(),)* _ => unreachable!() }
            }
        }
    };
}
