//! The worlds the histories run on.

/// Three archetypes with explicit, non-contiguous ids; heap-owning, over-aligned, zero-sized and plain
/// components.
pub mod hist {
    use crate::reg::{Pad, Tok, Val, Zst};
    use gecs::prelude::*;

    ecs_world! {
        ecs_name!(Hist);

        #[archetype_id(7)]
        ecs_archetype!(ArchA, Tok, Val);
        ecs_archetype!(ArchB, Pad, Tok, Zst);
        #[archetype_id(2)]
        ecs_archetype!(ArchC, Val, Zst);
    }

    crate::harness_impl!(Hist, HistCapacity, 3, [
        0 ArchA arch_a (0 Tok tok, 1 Val val)
        1 ArchB arch_b (0 Pad pad, 1 Tok tok, 2 Zst zst)
        2 ArchC arch_c (0 Val val, 1 Zst zst)
    ]);
}
pub use hist::Hist;

/// Foreign archetypes: ids that `Hist` does not have (0, 3, 255) and one that it has (2).
pub mod foreign {
    use crate::reg::{Tok, Val, Zst};
    use gecs::prelude::*;

    ecs_world! {
        ecs_name!(Foreign);

        ecs_archetype!(ForeignA, Tok, Val);
        #[archetype_id(2)]
        ecs_archetype!(ForeignB, Val);
        ecs_archetype!(ForeignC, Zst);
        #[archetype_id(255)]
        ecs_archetype!(ForeignD, Val, Tok);
    }

    crate::harness_impl!(Foreign, ForeignCapacity, 4, [
        0 ForeignA foreign_a (0 Tok tok, 1 Val val)
        1 ForeignB foreign_b (0 Val val)
        2 ForeignC foreign_c (0 Zst zst)
        3 ForeignD foreign_d (0 Val val, 1 Tok tok)
    ]);
}
pub use foreign::Foreign;

/// Queries over several archetypes of `Hist` that share components.
pub mod sets {
    use super::hist::*;
    use crate::reg::{Comp, Pad, Tok, Val, Zst};
    use gecs::prelude::*;

    /// What a query parameter was bound to, by component type.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum T {
        Tok,
        Val,
        Pad,
        Zst,
        PadOrVal,
    }

    impl T {
        /// Which component of archetype `a` that is.
        pub fn index(self, a: usize) -> Option<usize> {
            match (self, a) {
                (T::Tok, 0) => Some(0),
                (T::Val, 0) => Some(1),
                (T::Pad, 1) => Some(0),
                (T::Tok, 1) => Some(1),
                (T::Zst, 1) => Some(2),
                (T::Val, 2) => Some(0),
                (T::Zst, 2) => Some(1),
                (T::PadOrVal, 0) => Some(1),
                (T::PadOrVal, 1) => Some(0),
                (T::PadOrVal, 2) => Some(0),
                _ => None,
            }
        }
    }

    /// One presented entity: handle, direct handle, bound components.
    pub type F<'a> = &'a mut dyn FnMut(EntityAny, Option<EntityDirectAny>, &[(T, u32)]) -> u8;

    pub const SETS: usize = 9;

    /// The archetypes set `q` must act on.
    pub fn matched(q: usize) -> &'static [usize] {
        match q {
            0 => &[0, 1],
            1 => &[0, 2],
            2 => &[1, 2],
            3 => &[0],
            4 => &[1],
            5 => &[0, 1, 2],
            6 => &[1, 2],
            7 => &[1],
            8 => &[2],
            _ => unreachable!(),
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Mac {
        Iter,
        IterBorrow,
        IterDestroy,
    }
    pub const MACS: [Mac; 3] = [Mac::Iter, Mac::IterBorrow, Mac::IterDestroy];

    fn step(d: u8) -> EcsStep {
        if d == 0 { EcsStep::Continue } else { EcsStep::Break }
    }

    fn step_destroy(d: u8) -> EcsStepDestroy {
        match d {
            0 => EcsStepDestroy::Continue,
            1 => EcsStepDestroy::Break,
            2 => EcsStepDestroy::ContinueDestroy,
            _ => EcsStepDestroy::BreakDestroy,
        }
    }

    macro_rules! all {
        ($mac:ident, $w:ident, $q:ident, $f:ident, $s:ident) => {
            match $q {
                0 => $mac!($w, |e: &EntityAny, t: &Tok| $s($f(*e, None, &[(T::Tok, t.get())]))),
                1 => $mac!($w, |v: &mut Val, d: &EntityDirect<_>, e: &Entity<_>| $s($f(e.into_any(), Some(d.into_any()), &[(T::Val, v.get())]))),
                2 => $mac!($w, |z: &Zst, e: &EntityAny, d: &EntityDirectAny| $s($f(*e, Some(*d), &[(T::Zst, z.get())]))),
                3 => $mac!($w, |e: &Entity<_>, t: &mut Tok, v: &Val| $s($f(e.into_any(), None, &[(T::Tok, t.get()), (T::Val, v.get())]))),
                4 => $mac!($w, |z: &mut Zst, t: &Tok, p: &mut Pad, e: &EntityAny| $s($f(*e, None, &[(T::Tok, t.get()), (T::Zst, z.get()), (T::Pad, p.get())]))),
                5 => $mac!($w, |x: &OneOf<Pad, Val>, e: &EntityAny| $s($f(*e, None, &[(T::PadOrVal, x.get())]))),
                6 => $mac!($w, |e: &Entity<_>, x: &mut OneOf<Val, Pad>, d: &EntityDirectAny, z: &mut Zst| $s($f(e.into_any(), Some(*d), &[(T::PadOrVal, x.get()), (T::Zst, z.get())]))),
                7 => $mac!($w, |e: &Entity<ArchB>, d: &EntityDirect<ArchB>| $s($f(e.into_any(), Some(d.into_any()), &[]))),
                8 => $mac!($w, |d: &EntityDirect<ArchC>, e: &EntityAny, v: &mut Val| $s($f(*e, Some(d.into_any()), &[(T::Val, v.get())]))),
                _ => unreachable!(),
            }
        };
    }

    /// Runs query `q` by macro `mac`. `f` returns 0 Continue, 1 Break, 2 ContinueDestroy, 3 BreakDestroy.
    pub fn run(w: &mut Hist, mac: Mac, q: usize, f: F) {
        match mac {
            Mac::Iter => all!(ecs_iter, w, q, f, step),
            Mac::IterBorrow => all!(ecs_iter_borrow, w, q, f, step),
            Mac::IterDestroy => all!(ecs_iter_destroy, w, q, f, step_destroy),
        }
    }

    macro_rules! find {
        ($mac:ident, $w:ident, $k:ident, $q:ident) => {
            match $q {
                0 => $mac!($w, $k, |e: &EntityAny, t: &Tok| (*e, vec![(T::Tok, t.get())])),
                1 => $mac!($w, $k, |v: &mut Val, e: &Entity<_>| (e.into_any(), vec![(T::Val, v.get())])),
                2 => $mac!($w, $k, |z: &Zst, e: &EntityAny| (*e, vec![(T::Zst, z.get())])),
                3 => $mac!($w, $k, |e: &Entity<_>, t: &mut Tok, v: &Val| (e.into_any(), vec![(T::Tok, t.get()), (T::Val, v.get())])),
                4 => $mac!($w, $k, |z: &mut Zst, t: &Tok, p: &mut Pad, e: &EntityAny| (*e, vec![(T::Tok, t.get()), (T::Zst, z.get()), (T::Pad, p.get())])),
                5 => $mac!($w, $k, |x: &OneOf<Pad, Val>, e: &EntityAny| (*e, vec![(T::PadOrVal, x.get())])),
                6 => $mac!($w, $k, |e: &Entity<_>, x: &mut OneOf<Val, Pad>, z: &mut Zst| (e.into_any(), vec![(T::PadOrVal, x.get()), (T::Zst, z.get())])),
                7 => $mac!($w, $k, |e: &Entity<ArchB>| (e.into_any(), vec![])),
                8 => $mac!($w, $k, |_d: &EntityDirect<ArchC>, e: &EntityAny, v: &mut Val| (*e, vec![(T::Val, v.get())])),
                _ => unreachable!(),
            }
        };
    }

    pub type Found = Option<(EntityAny, Vec<(T, u32)>)>;

    /// Query `q` by `ecs_find!` / `ecs_find_borrow!` with a dynamically typed key.
    pub fn find(w: &mut Hist, borrow: bool, q: usize, key: crate::harness::H) -> Found {
        use crate::harness::H;
        match (key, borrow) {
            (H::E(k), false) => find!(ecs_find, w, k, q),
            (H::E(k), true) => find!(ecs_find_borrow, w, k, q),
            (H::D(k), false) => find!(ecs_find, w, k, q),
            (H::D(k), true) => find!(ecs_find_borrow, w, k, q),
        }
    }
}
