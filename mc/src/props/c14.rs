//! C14: handle conversions are lossless, type-faithful and consistent with Eq and Hash.
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

use gecs::error::EcsError;
use gecs::prelude::*;
use mc::explore::*;
use mc::hist::{history, HistCfg};
use mc::sys::Sys;
use mc::worlds::{Foreign, Hist};
use mc::{ensure, fail};

/// Archetypes with scattered ids, implicit ones between explicit ones, out of order.
pub mod ids {
    use gecs::prelude::*;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Nil;

    ecs_world! {
        ecs_name!(Ids);

        ecs_archetype!(I0, Nil);
        ecs_archetype!(I1, Nil);
        #[archetype_id(255)]
        ecs_archetype!(I255, Nil);
        #[archetype_id(2)]
        ecs_archetype!(I2, Nil);
        ecs_archetype!(I3, Nil);
        #[archetype_id(128)]
        ecs_archetype!(I128, Nil);
        #[archetype_id(127)]
        ecs_archetype!(I127, Nil);
        #[archetype_id(253)]
        ecs_archetype!(I253, Nil);
        ecs_archetype!(I254, Nil);
        #[archetype_id(16)]
        ecs_archetype!(I16, Nil);
        #[archetype_id(64)]
        ecs_archetype!(I64, Nil);
        #[archetype_id(32)]
        ecs_archetype!(I32, Nil);
        #[archetype_id(85)]
        ecs_archetype!(I85, Nil);
        #[archetype_id(170)]
        ecs_archetype!(I170, Nil);
        #[archetype_id(8)]
        ecs_archetype!(I8, Nil);
        #[archetype_id(4)]
        ecs_archetype!(I4, Nil);
    }
}
use ids::*;

macro_rules! each {
    ($m:ident) => {
        $m!((I0 i_0 0) (I1 i_1 1) (I255 i_255 255) (I2 i_2 2) (I3 i_3 3) (I128 i_128 128) (I127 i_127 127) (I253 i_253 253)
            (I254 i_254 254) (I16 i_16 16) (I64 i_64 64) (I32 i_32 32) (I85 i_85 85) (I170 i_170 170) (I8 i_8 8) (I4 i_4 4))
    };
}

/// The generations at which new positions and archetypes of this thread start.
fn starts(slot: u32, arch: u32) {
    mc::sys::set_version_start(slot.try_into().unwrap(), arch.try_into().unwrap());
}

fn declared(id: u8) -> bool {
    macro_rules! d {
        ($(($A:ident $f:ident $id:literal))*) => { matches!(id, $($id)|*) };
    }
    each!(d)
}

/// Everything a hasher is fed.
#[derive(Default, PartialEq, Debug)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

fn hashes<T: Hash>(t: &T) -> (Tape, u64) {
    let (mut a, mut b) = (Tape::default(), DefaultHasher::new());
    t.hash(&mut a);
    t.hash(&mut b);
    (a, b.finish())
}

#[inline(always)]
fn same<T: Copy + Eq>(a: T, b: T) -> bool {
    a == b && !(a != b) && b == a
}

/// Conversions of one raw pair, without anything that panics.
#[inline]
fn raw_ok(raw: (u32, u32)) -> R {
    let id = raw.0 as u8;
    let any = match EntityAny::from_raw(raw) {
        Ok(any) => {
            ensure!(raw.1 != 0, "from_raw({raw:?}) accepts generation 0");
            any
        }
        Err(EcsError::InvalidRawEntity) => {
            ensure!(raw.1 == 0, "from_raw({raw:?}) is rejected");
            return Ok(());
        }
        Err(e) => fail!("from_raw({raw:?}) fails with {e:?}"),
    };
    ensure!(any.raw() == raw, "from_raw({raw:?}).raw() is {:?}", any.raw());
    ensure!(any.archetype_id() == id, "archetype_id() of {raw:?} is {}", any.archetype_id());
    ensure!(any.into_any().raw() == raw, "into_any() of {raw:?} is {:?}", any.into_any().raw());
    Ok(())
}

#[inline]
fn typed_ok<A: Archetype>(raw: (u32, u32), any: EntityAny, id: u8) -> R {
    match Entity::<A>::try_from(any) {
        Ok(e) => {
            ensure!(any.archetype_id() == id, "a handle of archetype {} converts to archetype {id}", any.archetype_id());
            ensure!(e.into_any().raw() == raw, "{raw:?} became {:?} by try_from and into_any", e.into_any().raw());
            ensure!(EntityAny::from(e).raw() == raw, "{raw:?} became {:?} by try_from and from", EntityAny::from(e).raw());
            ensure!(e.archetype_id() == id, "archetype_id() of a typed handle of archetype {id} is {}", e.archetype_id());
            let r: &EntityAny = (&e).into();
            ensure!(r.raw() == raw && same(*r, any), "{raw:?} became {:?} by reference", r.raw());
            let mut f = e;
            let m: &mut EntityAny = (&mut f).into();
            ensure!(m.raw() == raw && same(*m, any), "{raw:?} became {:?} by mutable reference", m.raw());
            ensure!(same(f, e), "{raw:?} changed by borrowing it mutably");
            let g = Entity::<A>::from_any_unchecked(any);
            ensure!(same(g, e) && g.into_any().raw() == raw, "from_any_unchecked differs from try_from for {raw:?}");
            let g = Entity::<A>::from_any(any);
            ensure!(same(g, e) && g.into_any().raw() == raw, "from_any differs from try_from for {raw:?}");
            ensure!(same(e.into_any(), any), "{raw:?} differs from itself after a round trip");
        }
        Err(EcsError::InvalidEntityType) => ensure!(any.archetype_id() != id, "a handle of archetype {id} does not convert to it"),
        Err(e) => fail!("try_from({raw:?}) to archetype {id} fails with {e:?}"),
    }
    Ok(())
}

#[inline]
fn select_ok(raw: (u32, u32), any: EntityAny) -> R {
    let id = raw.0 as u8;
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => {
            match SelectEntity::try_from(any) {
                $(Ok(SelectEntity::$A(e)) => ensure!(id == $id && e.into_any().raw() == raw, "SelectEntity of {raw:?} is {}({:?})", stringify!($A), e.into_any().raw()),)*
                Err(EcsError::InvalidEntityType) => ensure!(!declared(id), "SelectEntity rejects {raw:?}"),
                Err(e) => fail!("SelectEntity of {raw:?} fails with {e:?}"),
            }
            for via in [SelectArchetype::try_from(any), SelectArchetype::try_from(id)] {
                match via {
                    $(Ok(SelectArchetype::$A) => ensure!(id == $id, "SelectArchetype of {raw:?} is {}", stringify!($A)),)*
                    Err(EcsError::InvalidEntityType) => ensure!(!declared(id), "SelectArchetype rejects {raw:?}"),
                    Err(e) => fail!("SelectArchetype of {raw:?} fails with {e:?}"),
                }
            }
        };
    }
    each!(go);
    Ok(())
}

/// Everything about one raw pair that does not panic.
#[inline]
fn key_ok(raw: (u32, u32)) -> R {
    raw_ok(raw)?;
    let Ok(any) = EntityAny::from_raw(raw) else { return Ok(()) };
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => { $( typed_ok::<$A>(raw, any, $id)?; )* };
    }
    each!(go);
    select_ok(raw, any)
}

/// `from_any` panics exactly on a mismatch; equal handles hash equally.
fn key_slow(raw: (u32, u32)) -> R<u64> {
    key_ok(raw)?;
    let Ok(any) = EntityAny::from_raw(raw) else { return Ok(0) };
    let id = raw.0 as u8;
    let again = EntityAny::from_raw(any.raw()).unwrap();
    ensure!(same(any, again), "from_raw(raw(h)) != h for {raw:?}");
    ensure!(hashes(&any) == hashes(&again), "equal handles {raw:?} hash differently");
    let mut panicked = 0;
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => { $(
            match panics(|| Entity::<$A>::from_any(any)) {
                Some(e) => {
                    ensure!(id == $id, "from_any makes a handle of archetype {} one of archetype {id}", $id);
                    let other = Entity::<$A>::try_from(again).unwrap();
                    ensure!(same(e, other), "typed handles of {raw:?} differ");
                    ensure!(hashes(&e) == hashes(&other), "equal typed handles {raw:?} hash differently");
                }
                None => {
                    ensure!(id != $id, "from_any refuses {raw:?} for its own archetype: {}", last_panic());
                    panicked += 1;
                }
            }
        )* };
    }
    each!(go);
    Ok(panicked)
}

/// Generations (or positions) at which something could go wrong.
fn edges(bits: u32) -> Vec<u32> {
    let max = if bits == 32 { u32::MAX } else { (1 << bits) - 1 };
    let mut out = vec![0, 1, 2, 3, max, max - 1, max - 2, 0x5555_5555 & max, 0xAAAA_AAAA & max, 0xDEAD_BEEF & max];
    for b in 0..bits {
        out.extend([1 << b, (1u32 << b) - 1, (1u32 << b) | 1, max ^ (1 << b), max >> b]);
    }
    out.sort();
    out.dedup();
    out
}

fn versions() -> Vec<u32> {
    edges(32)
}

/// All keys whose position's high byte is `part`, with generation `v`.
fn all_keys(ch: &mut Ch, full: bool, vs: &[u32]) -> R {
    let part = ch.choose(256)? as u32;
    let v = vs[ch.choose(vs.len())?];
    ch.note(|| format!("keys {part:02x}000000..={part:02x}ffffff, generation {v}"));
    for k in 0..1u32 << 24 {
        if k & 0xFFFFF == 0 {
            beat();
        }
        let raw = ((part << 24) | k, v);
        if full {
            key_ok(raw)?;
        } else {
            raw_ok(raw)?;
        }
    }
    ch.stats.probes += 1 << 24;
    ch.stats.states += 1 << 24;
    ch.step();
    Ok(())
}

/// All positions with the archetype ids in `of`.
fn all_positions(ch: &mut Ch, of: &[u8], vs: &[u32]) -> R {
    let part = ch.choose(64)? as u32;
    let v = vs[ch.choose(vs.len())?];
    ch.note(|| format!("positions {:06x}..={:06x}, generation {v}", part << 18, (part << 18) | 0x3FFFF));
    for p in 0..1u32 << 18 {
        if p & 0xFFFF == 0 {
            beat();
        }
        for id in of {
            key_ok(((((part << 18) | p) << 8) | *id as u32, v))?;
        }
    }
    ch.stats.probes += (of.len() as u64) << 18;
    ch.stats.states += (of.len() as u64) << 18;
    ch.step();
    Ok(())
}

/// All generations of one key.
fn all_generations(ch: &mut Ch, full: bool, keys: &[u32]) -> R {
    let key = keys[ch.choose(keys.len())?];
    let part = ch.choose(256)? as u32;
    ch.note(|| format!("key {key:08x}, generations {part:02x}000000..={part:02x}ffffff"));
    for v in 0..1u32 << 24 {
        if v & 0xFFFFF == 0 {
            beat();
        }
        let raw = (key, (part << 24) | v);
        if full {
            key_ok(raw)?;
        } else {
            raw_ok(raw)?;
            if let Ok(any) = EntityAny::from_raw(raw) {
                typed_ok::<I255>(raw, any, 255)?;
                typed_ok::<I4>(raw, any, 4)?;
            }
        }
    }
    ch.stats.probes += 1 << 24;
    ch.stats.states += 1 << 24;
    ch.step();
    Ok(())
}

/// All 256 ids at edge positions and generations, panicking conversions included.
fn grid(ch: &mut Ch, vs: &[u32], step: usize) -> R {
    let id = (ch.choose(255 / step + 1)? * step) as u32;
    ch.note(|| format!("archetype id {id}: edge positions x edge generations"));
    let mut n = 0;
    for p in edges(24) {
        beat();
        for v in vs {
            let raw = ((p << 8) | id, *v);
            ch.stats.panics += key_slow(raw)?;
            n += 1;
        }
        for v in versions() {
            key_ok(((p << 8) | id, v))?;
            n += 1;
        }
    }
    ch.stats.probes += n;
    ch.stats.states += n;
    ch.step();
    Ok(())
}

/// Equality is identity of the raw pair; equal handles hash equally; sets and maps agree.
fn equality(ch: &mut Ch) -> R {
    let mut ks = edges(32);
    for p in [0, 1, 2, (1 << 24) - 1] {
        for id in [0, 1, 2, 4, 64, 128, 254, 255] {
            ks.push((p << 8) | id);
        }
    }
    ks.sort();
    ks.dedup();
    let vs: Vec<u32> = versions().into_iter().filter(|v| *v != 0).collect();
    // One handle against all others, for every handle.
    let at = ch.choose(ks.len())?;
    let k = ks[at];
    ch.note(|| format!("key {k:08x} against {} keys, each with {} generations", ks.len(), vs.len()));
    let mut pairs = 0u64;
    for v in &vs {
        beat();
        let a = EntityAny::from_raw((k, *v)).unwrap();
        let ha = hashes(&a);
        for k2 in &ks {
            for v2 in &vs {
                let b = EntityAny::from_raw((*k2, *v2)).unwrap();
                let want = k == *k2 && v == v2;
                ensure!((a == b) == want, "({k:08x}, {v}) == ({k2:08x}, {v2}) is {}", a == b);
                ensure!((a != b) != want, "({k:08x}, {v}) != ({k2:08x}, {v2}) is {}", a != b);
                if want {
                    ensure!(ha == hashes(&b), "equal handles ({k:08x}, {v}) hash differently");
                }
            }
        }
        pairs += (ks.len() * vs.len()) as u64;
        // Typed handles.
        macro_rules! go {
            ($(($A:ident $f:ident $id:literal))*) => { $(
                if k as u8 == $id {
                    let a = Entity::<$A>::try_from(a).map_err(|e| Halt::Violation(format!("try_from fails: {e:?}")))?;
                    for k2 in ks.iter().filter(|k2| **k2 as u8 == $id) {
                        for v2 in &vs {
                            let b = Entity::<$A>::from_any(EntityAny::from_raw((*k2, *v2)).unwrap());
                            let want = k == *k2 && v == v2;
                            ensure!((a == b) == want && (a != b) != want, "typed ({k:08x}, {v}) == ({k2:08x}, {v2}) is {}", a == b);
                            if want {
                                ensure!(hashes(&a) == hashes(&b), "equal typed handles ({k:08x}, {v}) hash differently");
                            }
                        }
                    }
                }
            )* };
        }
        each!(go);
    }
    if at == 0 {
        let mut set = HashSet::new();
        let mut map = HashMap::new();
        for k in &ks {
            for v in &vs {
                let a = EntityAny::from_raw((*k, *v)).unwrap();
                ensure!(set.insert(a), "({k:08x}, {v}) is already in the set");
                map.insert(a, (*k, *v));
            }
        }
        for k in &ks {
            for v in &vs {
                let a = EntityAny::from_raw((*k, *v)).unwrap();
                ensure!(set.contains(&a) && map.get(&a) == Some(&(*k, *v)), "({k:08x}, {v}) is not found in a map");
            }
        }
        pairs += set.len() as u64;
    }
    ch.stats.probes += pairs;
    ch.stats.states += pairs;
    ch.step();
    Ok(())
}

/// A direct handle of archetype `id`: it converts to that archetype only, and stays itself.
#[inline]
fn direct_ok(d: EntityDirectAny, id: u8) -> R {
    ensure!(d.archetype_id() == id, "archetype_id() of a direct handle of archetype {id} is {}", d.archetype_id());
    ensure!(same(d.into_any(), d), "into_any changes a direct handle of archetype {id}");
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => {
            $( direct_typed_ok::<$A>(d, $id)?; )*
            match SelectEntityDirect::try_from(d) {
                $(Ok(SelectEntityDirect::$A(e)) => ensure!(id == $id && same(e.into_any(), d), "SelectEntityDirect of {d:?} is {}({e:?})", stringify!($A)),)*
                Err(EcsError::InvalidEntityType) => ensure!(!declared(id), "SelectEntityDirect rejects {d:?}"),
                Err(e) => fail!("SelectEntityDirect of {d:?} fails with {e:?}"),
            }
        };
    }
    each!(go);
    Ok(())
}

#[inline]
fn direct_typed_ok<A: Archetype>(d: EntityDirectAny, id: u8) -> R {
    match EntityDirect::<A>::try_from(d) {
        Ok(e) => {
            ensure!(d.archetype_id() == id, "a direct handle of archetype {} converts to archetype {id}", d.archetype_id());
            ensure!(same(e.into_any(), d) && same(EntityDirectAny::from(e), d), "{d:?} became {e:?}");
            ensure!(e.archetype_id() == id, "archetype_id() of a typed direct handle of archetype {id} is {}", e.archetype_id());
            let r: &EntityDirectAny = (&e).into();
            ensure!(same(*r, d), "{d:?} became {r:?} by reference");
            let mut f = e;
            let m: &mut EntityDirectAny = (&mut f).into();
            ensure!(same(*m, d), "{d:?} became {m:?} by mutable reference");
            ensure!(same(f, e), "{d:?} changed by borrowing it mutably");
            ensure!(same(EntityDirect::<A>::from_any(d), e), "from_any differs from try_from for {d:?}");
            ensure!(same(EntityDirect::<A>::from_any_unchecked(d), e), "from_any_unchecked differs from try_from for {d:?}");
        }
        Err(EcsError::InvalidEntityType) => ensure!(d.archetype_id() != id, "a direct handle of archetype {id} does not convert to it"),
        Err(e) => fail!("try_from({d:?}) fails with {e:?}"),
    }
    Ok(())
}

fn direct_slow(d: EntityDirectAny, id: u8) -> R<u64> {
    direct_ok(d, id)?;
    let copy = d;
    ensure!(hashes(&d) == hashes(&copy), "equal direct handles hash differently");
    let mut panicked = 0;
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => { $(
            match panics(|| EntityDirect::<$A>::from_any(d)) {
                Some(e) => {
                    ensure!(id == $id, "from_any makes a direct handle of archetype {id} one of archetype {}", $id);
                    let other = EntityDirect::<$A>::try_from(copy).unwrap();
                    ensure!(same(e, other), "typed direct handles differ");
                    ensure!(hashes(&e) == hashes(&other), "equal typed direct handles hash differently");
                    ensure!(hashes(&e.into_any()) == hashes(&d), "a direct handle hashes differently after a round trip");
                }
                None => {
                    ensure!(id != $id, "from_any refuses a direct handle of its own archetype: {}", last_panic());
                    panicked += 1;
                }
            }
        )* };
    }
    each!(go);
    Ok(panicked)
}

/// One archetype filled to 2^24 entities: all positions, issued.
fn filled(ch: &mut Ch) -> R {
    let which = ch.choose(4)?;
    macro_rules! go {
        ($A:ident, $f:ident, $id:literal) => {{
            ch.note(|| format!("2^24 entities of archetype id {}", $id));
            starts(if which & 1 == 0 { 1 } else { 1 << 31 }, if which & 1 == 0 { 1 } else { 1 << 31 });
            let mut w = Ids::new();
            w.$f = Archetype::with_capacity(1 << 24);
            starts(1, 1);
            ensure!(<$A as Archetype>::ARCHETYPE_ID == $id, "ARCHETYPE_ID is {}", <$A as Archetype>::ARCHETYPE_ID);
            let mut all = Vec::with_capacity(1 << 24);
            for i in 0..1u32 << 24 {
                if i & 0xFFFF == 0 {
                    beat();
                }
                let e = w.create::<$A>((Nil,));
                let any = e.into_any();
                ensure!(any.archetype_id() == $id && e.archetype_id() == $id, "a new entity has archetype id {}", any.archetype_id());
                key_ok(any.raw())?;
                ensure!(same(EntityAny::from_raw(any.raw()).unwrap(), any), "raw round trip of {any:?}");
                all.push(any.raw());
            }
            // Distinct entities have distinct raw pairs, and these are equal only to themselves.
            let mut sorted = all.clone();
            sorted.sort_unstable();
            ensure!(sorted.windows(2).all(|p| p[0] != p[1]), "two entities of archetype {} have equal handles", $id);
            drop(sorted);
            let mut prev: Option<EntityDirectAny> = None;
            let mut n = 0usize;
            let mut bad: R = Ok(());
            ecs_iter!(w, |d: &EntityDirectAny, t: &EntityDirect<$A>, e: &Entity<$A>| {
                if n & 0xFFFF == 0 {
                    beat();
                }
                n += 1;
                let mut go = || -> R {
                    direct_ok(*d, $id)?;
                    ensure!(same(t.into_any(), *d), "typed and dynamic direct handle of one entity differ");
                    if let Some(p) = prev {
                        ensure!(p != *d && !(p == *d), "two entities have the same direct handle {d:?}");
                    }
                    let _ = e;
                    Ok(())
                };
                match go() {
                    Ok(()) => {
                        prev = Some(*d);
                        EcsStep::Continue
                    }
                    Err(e) => {
                        bad = Err(e);
                        EcsStep::Break
                    }
                }
            });
            bad?;
            ensure!(n == 1 << 24, "{n} of 2^24 entities visited");
            // Handles still lead to their entity after every conversion.
            let picks: Vec<usize> = edges(24).into_iter().map(|p| p as usize).collect();
            for i in &picks {
                let any = EntityAny::from_raw(all[*i]).unwrap();
                let d: EntityDirectAny = match w.$f.to_direct(any) { Some(d) => d, None => fail!("handle {any:?} is lost") };
                let at = w.$f.resolve(any);
                ensure!(at.is_some() && w.$f.resolve(d) == at, "{any:?} resolves to {at:?}, its direct handle to {:?}", w.$f.resolve(d));
                ensure!(w.$f.entities()[at.unwrap()].into_any() == any, "{any:?} resolves to another entity");
                ch.stats.panics += direct_slow(d, $id)?;
                let t = EntityDirect::<$A>::from_any(d);
                ensure!(w.$f.resolve(t) == at && w.$f.resolve(t.into_any()) == at, "a converted direct handle leads elsewhere");
                for j in &picks {
                    let other = w.$f.to_direct(EntityAny::from_raw(all[*j]).unwrap()).unwrap();
                    ensure!((other == d) == (i == j), "direct handles of entities {i} and {j} compare {}", other == d);
                }
            }
            let mut set: HashSet<Entity<$A>> = HashSet::new();
            let mut dset: HashSet<EntityDirectAny> = HashSet::new();
            for i in &picks {
                let any = EntityAny::from_raw(all[*i]).unwrap();
                ensure!(set.insert(any.try_into().unwrap()), "an entity is already in the set");
                ensure!(dset.insert(w.$f.to_direct(any).unwrap()), "a direct handle is already in the set");
            }
        }};
    }
    match which / 2 {
        0 => go!(I255, i_255, 255),
        _ => go!(I0, i_0, 0),
    }
    ch.stats.probes += 2 << 24;
    ch.stats.states += 2 << 24;
    ch.step();
    Ok(())
}

/// Every place a handle comes from reports the id of the archetype that created it.
fn sources(ch: &mut Ch) -> R {
    let cap = ch.choose(3)?;
    let n = ch.choose(4)?;
    let dead = ch.choose(n + 1)?;
    let (slot, arch) = [(1, 1), (u32::MAX - 8, u32::MAX - 16), (1 << 31, 255)][ch.choose(3)?];
    ch.note(|| format!("capacity {cap}, {n} entities per archetype, {dead} destroyed, generations from {slot}/{arch}"));
    starts(slot, arch);
    let mut w = Ids::new();
    macro_rules! fill {
        ($(($A:ident $f:ident $id:literal))*) => { $(
            w.$f = Archetype::with_capacity(cap);
        )* starts(1, 1); $(
            ensure!($A::ARCHETYPE_ID == $id, "{}::ARCHETYPE_ID is {}", stringify!($A), $A::ARCHETYPE_ID);
            let mut made: Vec<Entity<$A>> = Vec::new();
            for i in 0..n {
                let e = match i {
                    0 => w.create::<$A>((Nil,)),
                    1 => w.$f.create((Nil,)),
                    _ => match w.create_within_capacity::<$A>((Nil,)) { Ok(e) => e, Err(_) => w.create::<$A>((Nil,)) },
                };
                made.push(e);
            }
            let mut dirs: Vec<(usize, EntityDirectAny)> = Vec::new();
            for (i, e) in made.iter().enumerate() {
                dirs.push((i, w.to_direct(*e).unwrap().into_any()));
            }
            for e in made.iter().take(dead) {
                ensure!(w.destroy(*e).is_some(), "destroy is refused");
            }
            for (i, e) in made.iter().enumerate().skip(dead) {
                dirs.push((i, w.to_direct(e.into_any()).unwrap()));
                dirs.push((i, w.$f.to_direct(*e).unwrap().into_any()));
            }
            // One replacement: a distinct entity, possibly in the same place.
            if dead > 0 {
                let e = w.create::<$A>((Nil,));
                dirs.push((made.len(), w.to_direct(e).unwrap().into()));
                made.push(e);
            }
            for (i, e) in made.iter().enumerate() {
                ch.stats.panics += key_slow(e.into_any().raw())?;
                ensure!(e.archetype_id() == $id && e.into_any().archetype_id() == $id, "archetype_id of {e:?}");
                for (j, f) in made.iter().enumerate() {
                    ensure!((e == f) == (i == j) && (e.into_any() == f.into_any()) == (i == j), "entities {i} and {j} compare {}", e == f);
                }
            }
            for (i, d) in &dirs {
                ch.stats.panics += direct_slow(*d, $id)?;
                for (j, f) in &dirs {
                    ensure!(i == j || (d != f && !(d == f)), "direct handles of entities {i} and {j} are equal");
                    let (d, f) = (EntityDirect::<$A>::from_any(*d), EntityDirect::<$A>::from_any(*f));
                    ensure!(i == j || (d != f && !(d == f)), "typed direct handles of entities {i} and {j} are equal");
                }
            }
            let live: Vec<Entity<$A>> = made.iter().copied().skip(dead).collect();
            let is = |any: EntityAny, from: &str| -> R {
                ensure!(any.archetype_id() == $id, "{from} yields a handle of archetype {} in archetype {}", any.archetype_id(), $id);
                ensure!(live.iter().any(|e| e.into_any() == any), "{from} yields {any:?}, which is no live entity's handle");
                ensure!(matches!(SelectEntity::try_from(any), Ok(SelectEntity::$A(e)) if e.into_any() == any), "SelectEntity of a handle from {from}");
                ensure!(matches!(SelectArchetype::try_from(any), Ok(SelectArchetype::$A)), "SelectArchetype of a handle from {from}");
                Ok(())
            };
            for e in w.$f.entities() {
                ensure!(e.archetype_id() == $id, "archetype_id() of an entry of entities()");
                is(e.into_any(), "entities()")?;
            }
            for (e, _) in w.$f.iter() {
                is(e.into_any(), "iter()")?;
            }
            for (e, _) in w.$f.iter_mut() {
                is(e.into_any(), "iter_mut()")?;
            }
            for e in w.$f.get_all_slices_mut().entity {
                is(e.into_any(), "get_all_slices_mut()")?;
            }
            for e in &live {
                is(w.view(*e).unwrap().entity.into_any(), "view()")?;
                is(w.$f.view(e.into_any()).unwrap().entity.into_any(), "view()")?;
                is(w.borrow(*e).unwrap().entity().into_any(), "borrow()")?;
                let got = ecs_find!(w, *e, |a: &EntityAny, t: &Entity<_>, s: &Entity<$A>, d: &EntityDirectAny, td: &EntityDirect<$A>| (*a, t.into_any(), s.into_any(), *d, td.into_any(), t.archetype_id()));
                let Some((a, t, s, d, td, tid)) = got else { fail!("ecs_find! does not find {e:?}") };
                is(a, "ecs_find!")?;
                is(t, "ecs_find!")?;
                is(s, "ecs_find!")?;
                ensure!(tid == $id, "archetype_id() of a typed parameter is {tid}");
                ensure!(d.archetype_id() == $id && d == td, "direct handles of one entity differ: {d:?}, {td:?}");
                let got = ecs_find_borrow!(w, e.into_any(), |a: &EntityAny, t: &Entity<_>| (*a, t.into_any()));
                let Some((a, t)) = got else { fail!("ecs_find_borrow! does not find {e:?}") };
                is(a, "ecs_find_borrow!")?;
                is(t, "ecs_find_borrow!")?;
            }
            let mut bad: R = Ok(());
            ecs_iter!(w, |a: &EntityAny, t: &Entity<$A>, d: &EntityDirect<_>| {
                if let Err(e) = is(*a, "ecs_iter!").and(is(t.into_any(), "ecs_iter!")).and(direct_ok(d.into_any(), $id)) {
                    bad = Err(e);
                }
            });
            ecs_iter_borrow!(w, |a: &EntityAny, t: &Entity<$A>, d: &EntityDirectAny| {
                if let Err(e) = is(*a, "ecs_iter_borrow!").and(is(t.into_any(), "ecs_iter_borrow!")).and(direct_ok(*d, $id)) {
                    bad = Err(e);
                }
            });
            ecs_iter_destroy!(w, |a: &EntityAny, t: &Entity<$A>, d: &EntityDirectAny| {
                if let Err(e) = is(*a, "ecs_iter_destroy!").and(is(t.into_any(), "ecs_iter_destroy!")).and(direct_ok(*d, $id)) {
                    bad = Err(e);
                }
                EcsStepDestroy::Continue
            });
            bad?;
            #[cfg(feature = "ev")]
            {
                for e in w.$f.iter_created().chain(w.$f.iter_destroyed()) {
                    ensure!(e.archetype_id() == $id && e.into_any().archetype_id() == $id, "an event of archetype {} has {e:?}", $id);
                    ensure!(made.contains(e), "an event names {e:?}, which was never an entity");
                }
            }
            ch.stats.probes += (made.len() * made.len() + dirs.len() * dirs.len()) as u64;
        )* };
    }
    each!(fill);
    // Queries over all archetypes: the wildcard's type is the matched archetype.
    let mut bad: R = Ok(());
    let mut per = HashMap::new();
    ecs_iter!(w, |a: &EntityAny, t: &Entity<_>, d: &EntityDirect<_>, n: &Nil| {
        let _ = n;
        *per.entry(a.archetype_id()).or_insert(0usize) += 1;
        let id = a.archetype_id();
        if t.archetype_id() != id || d.archetype_id() != id || t.into_any() != *a {
            bad = Err(Halt::Violation(format!("an entity of archetype {id} is presented as {t:?}, {d:?}")));
        }
    });
    bad?;
    #[cfg(feature = "ev")]
    for e in w.iter_created().chain(w.iter_destroyed()) {
        ensure!(declared(e.archetype_id()), "an event has archetype id {}", e.archetype_id());
    }
    ensure!(per.values().all(|n| *n == per.values().copied().next().unwrap()), "entities per archetype: {per:?}");
    ch.step();
    ch.state();
    Ok(())
}

/// A mutable reference to a typed handle, seen as a dynamic one, writes through to it.
fn references(ch: &mut Ch) -> R {
    let (p, q) = (ch.choose(4)?, ch.choose(4)?);
    let mut w = Ids::new();
    macro_rules! go {
        ($(($A:ident $f:ident $id:literal))*) => { $(
            let es: Vec<Entity<$A>> = (0..4).map(|_| w.create::<$A>((Nil,))).collect();
            let ds: Vec<EntityDirect<$A>> = es.iter().map(|e| w.to_direct(*e).unwrap()).collect();
            let (mut x, mut y) = (es[p], ds[p]);
            *<&mut EntityAny>::from(&mut x) = es[q].into_any();
            *<&mut EntityDirectAny>::from(&mut y) = ds[q].into_any();
            ensure!(x == es[q] && y == ds[q], "a write through a converted reference of archetype {} is lost", $id);
            ensure!(w.$f.resolve(x) == w.$f.resolve(es[q]) && w.$f.resolve(y) == w.$f.resolve(es[q]), "a handle written through a reference leads elsewhere");
            let rx: &EntityAny = (&es[p]).into();
            ensure!(std::ptr::eq(rx as *const _ as *const u8, &es[p] as *const _ as *const u8), "a converted reference points elsewhere");
            ensure!(w.contains(*rx), "a converted reference leads nowhere");
            let rd: &EntityDirectAny = (&ds[p]).into();
            ensure!(w.contains(*rd), "a converted direct reference leads nowhere");
            ensure!(same(*rx, es[p].into_any()) && same(*rd, ds[p].into_any()), "a converted reference shows another handle");
        )* };
    }
    each!(go);
    // The same conversion accepts a handle of another archetype.
    let foreign = w.create::<I1>((Nil,));
    let mut e = w.create::<I0>((Nil,));
    *<&mut EntityAny>::from(&mut e) = foreign.into_any();
    if e.archetype_id() != e.into_any().archetype_id() && p == 0 && q == 0 {
        println!("KNOWN mut-ref-conversion &mut Entity<A> -> &mut EntityAny -> handle of another archetype");
    }
    ch.step();
    ch.state();
    Ok(())
}

/// All handles of a history, live and dead.
fn issued(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    const IDS: [u8; 3] = [7, 8, 2];
    let s = &worlds[0];
    let mut set = HashSet::new();
    let mut map = HashMap::new();
    for (i, e) in s.m.ents.iter().enumerate() {
        ensure!(e.any.archetype_id() == IDS[e.arch], "archetype_id() of {:?} is not {}", e.any, IDS[e.arch]);
        key_ok(e.any.raw())?;
        ensure!(set.insert(e.any), "two entities have the handle {:?}", e.any);
        map.insert(e.any, i);
        for f in &s.m.ents[..i] {
            ensure!(e.any != f.any && !(e.any == f.any), "distinct entities have equal handles {:?}", e.any);
            ensure!(e.any.raw() != f.any.raw(), "distinct entities have equal raw handles {:?}", e.any);
        }
    }
    for (i, e) in s.m.ents.iter().enumerate() {
        let again = EntityAny::from_raw(e.any.raw()).unwrap();
        ensure!(set.contains(&again) && map.get(&again) == Some(&i), "{:?} is not found in a map", e.any);
        ensure!(hashes(&again) == hashes(&e.any), "equal handles hash differently");
    }
    let mut dset: HashMap<EntityDirectAny, usize> = HashMap::new();
    for d in &s.m.dirs {
        let a = s.m.ents[d.ent].arch;
        direct_ok(d.h, IDS[a])?;
        if let Some(other) = dset.insert(d.h, d.ent) {
            ensure!(other == d.ent, "direct handles of distinct entities are equal: {:?}", d.h);
        }
        for f in &s.m.dirs {
            ensure!(f.ent == d.ent || f.h != d.h, "direct handles of distinct entities are equal: {:?}", d.h);
            if f.h == d.h {
                ensure!(hashes(&f.h) == hashes(&d.h), "equal direct handles hash differently");
            }
        }
    }
    ch.stats.probes += (s.m.ents.len() * s.m.ents.len() + s.m.dirs.len() * s.m.dirs.len()) as u64;
    Ok(())
}

/// Handles of a world whose archetypes have ids this world lacks.
fn foreigners(ch: &mut Ch) -> R {
    let n = 1 + ch.choose(3)?;
    let dead = ch.choose(n + 1)?;
    let mut s: Sys<Foreign> = Sys::new(&[0, 1, 2, 3]);
    const IDS: [u8; 4] = [0, 2, 3, 255];
    for a in 0..4 {
        let mut es = Vec::new();
        for _ in 0..n {
            es.push(s.create(a, mc::harness::How::World)?.unwrap());
        }
        for i in es.iter().take(dead) {
            s.destroy(*i, 0)?;
        }
        for i in es {
            let any = s.m.ents[i].any;
            ensure!(any.archetype_id() == IDS[a], "archetype_id() of {any:?}");
            ch.stats.panics += key_slow(any.raw())?;
        }
        s.probe_directs(ch, false)?;
        for d in s.m.dirs.iter() {
            let a = s.m.ents[d.ent].arch;
            ch.stats.panics += direct_slow(d.h, IDS[a])?;
        }
    }
    ch.step();
    ch.state();
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let edge: Vec<u32> = vec![0, 1, 2, 255, 256, 1 << 16, (1 << 24) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    let e = edge.clone();
    out.push(Scenario::new("c14-grid", "256 ids x edge positions x edge generations, panicking conversions included", move |ch| grid(ch, &e, if tier.micro() { 51 } else { 1 })));
    if !tier.micro() {
        out.push(Scenario::new("c14-equality", "all pairs of edge handles: Eq, Hash, sets, maps", equality));
    }
    out.push(Scenario::new("c14-sources", "handles from every part of the API, 16 archetypes with scattered ids", sources));
    out.push(Scenario::new("c14-references", "references to handles", references));
    out.push(Scenario::new("c14-foreign", "handles of another world's archetypes", foreigners));
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(9, 11), &[a], &[&[0, 0, 0], &[2, 2, 2]]).with(|c| {
            c.presets = vec![(1, 1), (u32::MAX - 16, u32::MAX - 64)];
            c.directs = vec![mc::harness::Look::ArchToDirect];
            c.max_directs = 4;
        });
        out.push(Scenario::new(format!("c14-issued-{a}"), "all handles issued in all histories", move |ch| history(ch, &cfg, &issued)));
    }
    if tier.mini() {
        return out;
    }
    let of: Vec<u8> = tier.pick(vec![0, 1, 2, 5, 127, 128, 254, 255], (0..=255).collect());
    let vs = tier.pick(vec![1, u32::MAX], vec![1, 2, 0x8000_0000, u32::MAX]);
    out.push(Scenario::new("c14-positions", "all 2^24 positions x archetype ids", move |ch| all_positions(ch, &of, &vs)));
    let full = tier == Tier::Thorough;
    out.push(Scenario::new("c14-keys", "all 2^32 keys", move |ch| all_keys(ch, full, if full { &[1, 0xDEAD_BEEF] } else { &[0x8000_0001] })));
    out.push(Scenario::new("c14-zero", "all 2^32 keys with generation 0", move |ch| all_keys(ch, false, &[0])));
    let keys = tier.pick(vec![0xFFFF_FFFF, 4], vec![0, 0xFFFF_FFFF, 0xFFFF_FF05, 0x8000_0001]);
    out.push(Scenario::new("c14-generations", "all 2^32 generations", move |ch| all_generations(ch, full, &keys)));
    out.push(Scenario::new("c14-filled", "archetypes holding 2^24 entities", filled).threads(tier.pick(2, 2)));
    out
}
