//! C10: a panic escaping any operation leaves the world consistent and memory-safe.
use gecs::prelude::*;
use mc::ensure;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::reg::{self, Comp, Pad, Tok, Val, Zst};
use mc::sys::*;
use mc::worlds::hist::*;

type S = Sys<Hist>;

/// An operation out of which a panic unwinds (or may unwind), with the point at which it is raised.
#[derive(Clone, Copy, Debug)]
enum Fault {
    /// The body of a pass over one archetype panics at the k-th entity.
    Scan(usize, usize, Scan, usize),
    ScanAll(usize, ScanAll, usize),
    /// As above after writing to every entity presented before, and to the one at which it panics.
    IterWrite(usize, usize, u8, usize),
    /// The closure of a find panics after writing.
    Find(usize, usize, usize, bool),
    /// `ecs_iter_destroy!` whose closure panics at visit k; all decisions before.
    IterDestroy(usize, Scope, usize),
    /// The k-th component drop during a destroy panics.
    DestroyDrop(usize, usize, usize, usize),
    /// The k-th component drop during a destroying loop panics.
    LoopDrop(usize, Scope, usize),
    /// The k-th component clone during `World::clone` panics (2: `clone_from` onto another world).
    Clone(usize, usize, bool),
    /// `World::clone` while column c is mutably borrowed.
    CloneBorrowed(usize, usize, usize),
    /// The k-th drop while a world is dropped (true: by being overwritten by `clone_from`).
    DropWorld(usize, usize, bool),
    /// Overwriting component 0 of an entity, whose drop panics, through path p.
    Assign(usize, usize, usize),
    /// A query nested in another asks for a column that is mutably borrowed.
    Conflict(usize, usize, u8),
    /// A creation at the capacity limit (growth beyond 2^24) cannot be reached here: see c12-limit.
    /// Refused components whose drop panics.
    Refused(usize, usize),
}

/// Number of drops/clones that can be made to panic, per entity of each archetype.
const FUSES: [usize; 3] = [1, 3, 1];

fn faults(worlds: &[S], kinds: &Kinds) -> Vec<Fault> {
    let mut out = Vec::new();
    for (s, sys) in worlds.iter().enumerate() {
        let live = |a: usize| sys.m.live[a].len();
        let total: usize = (0..3).map(live).sum();
        let weight: usize = (0..3).map(|a| live(a) * FUSES[a]).sum();
        for &a in &kinds.arches {
            if kinds.closures {
                for k in 0..live(a) {
                    for scan in Scan::ALL {
                        out.push(Fault::Scan(s, a, *scan, k));
                    }
                    for way in 0..5 {
                        out.push(Fault::IterWrite(s, a, way, k));
                    }
                    out.push(Fault::IterDestroy(s, Scope::One(a), k));
                }
            }
            for &i in &sys.m.live[a] {
                if kinds.closures {
                    for k in 0..4 {
                        out.push(Fault::Find(s, i, k, false));
                        out.push(Fault::Find(s, i, k, true));
                    }
                    for way in 0..3 {
                        out.push(Fault::Conflict(s, i, way));
                    }
                }
                if kinds.drops {
                    for way in 0..8 {
                        for k in 0..FUSES[a] {
                            out.push(Fault::DestroyDrop(s, i, way, k));
                        }
                    }
                    if a < 2 {
                        for path in 0..ASSIGNS {
                            out.push(Fault::Assign(s, i, path));
                        }
                    }
                }
            }
            if kinds.drops {
                for k in 0..live(a) * FUSES[a] {
                    out.push(Fault::LoopDrop(s, Scope::One(a), k));
                }
                if live(a) == sys.w.cap_of(a) {
                    for k in 0..FUSES[a] {
                        out.push(Fault::Refused(s, a * 4 + k));
                    }
                }
            }
            if kinds.clones {
                for c in 0..Hist::info(a).comps {
                    out.push(Fault::CloneBorrowed(s, a, c));
                }
            }
        }
        if kinds.arches.len() > 1 {
            if kinds.closures {
                for k in 0..total {
                    for scan in ScanAll::ALL {
                        out.push(Fault::ScanAll(s, *scan, k));
                    }
                    out.push(Fault::IterDestroy(s, Scope::All, k));
                    out.push(Fault::IterDestroy(s, Scope::AllWild, k));
                }
            }
            if kinds.drops {
                for k in 0..weight {
                    out.push(Fault::LoopDrop(s, Scope::All, k));
                }
            }
        }
        if kinds.clones {
            for k in 0..weight {
                out.push(Fault::Clone(s, k, false));
                if worlds.len() > 1 {
                    out.push(Fault::Clone(s, k, true));
                }
            }
        }
        if kinds.drops && worlds.len() > 1 {
            for k in 0..weight {
                out.push(Fault::DropWorld(s, k, false));
                out.push(Fault::DropWorld(s, k, true));
            }
        }
    }
    out
}

struct Kinds {
    arches: Vec<usize>,
    closures: bool,
    clones: bool,
    drops: bool,
}

const BOOM: &str = "injected: closure";

/// Which of `doubtful` are still there: what is gone is booked as destroyed. Direct handles may or may
/// not have survived.
fn observe(s: &mut S, doubtful: &[usize]) {
    for &i in doubtful {
        let e = s.m.ents[i];
        if e.alive {
            if s.w.look(e.arch, Look::ArchContains, Key::ent(e.any, true)).is_none() {
                s.bury(i);
            } else {
                s.m.changes[e.arch] += 1;
            }
        }
    }
}

fn at(out: Option<()>, expect: bool, what: &str, ch: &mut Ch) -> R {
    ch.stats.faults += 1;
    if out.is_none() {
        ch.stats.panics += 1;
        ensure!(expect, "{what} panics: {}", last_panic());
    } else {
        ensure!(!expect, "{what}: the panic was swallowed");
    }
    Ok(())
}

const ASSIGNS: usize = 7;

/// `*component = new` through various paths.
fn assign(w: &mut Hist, a: usize, any: EntityAny, path: usize, v: u32) {
    macro_rules! go {
        ($A:ty, $C:ident, $field:ident) => {{
            let e = Entity::<$A>::from_any(any);
            match path {
                0 => drop(ecs_find!(w, e, |x: &mut $C| *x = $C::make(v))),
                1 => drop(ecs_find_borrow!(w, e, |x: &mut $C| *x = $C::make(v))),
                2 => *w.view(e).unwrap().$field = $C::make(v),
                3 => *w.borrow(e).unwrap().component_mut::<$C>() = $C::make(v),
                4 => ecs_iter!(w, |h: &Entity<$A>, x: &mut $C| {
                    if *h == e {
                        *x = $C::make(v)
                    }
                }),
                5 => ecs_iter_borrow!(w, |h: &Entity<$A>, x: &mut $C| {
                    if *h == e {
                        *x = $C::make(v)
                    }
                }),
                _ => {
                    let i = w.archetype::<$A>().resolve(e).unwrap();
                    w.archetype::<$A>().borrow_slice_mut::<$C>()[i] = $C::make(v)
                }
            }
        }};
    }
    match a {
        0 => go!(ArchA, Tok, tok),
        _ => go!(ArchB, Pad, pad),
    }
}

/// Writes to component 0 of every entity presented, then panics at the k-th.
fn iter_write(w: &mut Hist, a: usize, way: u8, mut k: usize, f: &mut dyn FnMut(EntityAny) -> u32) {
    macro_rules! go {
        ($A:ty, $C:ident) => {{
            let mut body = |h: EntityAny, x: &mut $C| {
                x.set(f(h));
                if k == 0 {
                    panic!("{BOOM}");
                }
                k -= 1;
            };
            match way {
                0 => ecs_iter!(w, |h: &Entity<$A>, x: &mut $C| body(h.into_any(), x)),
                1 => ecs_iter_borrow!(w, |x: &mut $C, h: &Entity<$A>| body(h.into_any(), x)),
                2 => ecs_iter_destroy!(w, |h: &Entity<$A>, x: &mut $C| {
                    body(h.into_any(), x);
                    EcsStepDestroy::Continue
                }),
                3 => {
                    let all = w.archetype_mut::<$A>().get_all_slices_mut();
                    let _ = &all;
                    let handles: Vec<EntityAny> = all.entity.iter().map(|e| e.into_any()).collect();
                    let arch = w.archetype::<$A>();
                    let mut slice = arch.borrow_slice_mut::<$C>();
                    for (h, x) in handles.iter().zip(slice.iter_mut()) {
                        body(*h, x);
                    }
                }
                _ => {
                    let handles: Vec<EntityAny> = w.archetype::<$A>().entities().iter().map(|e| e.into_any()).collect();
                    for (h, x) in handles.iter().zip(w.archetype_mut::<$A>().get_slice_mut::<$C>()) {
                        body(*h, x);
                    }
                }
            }
        }};
    }
    match a {
        0 => go!(ArchA, Tok),
        1 => go!(ArchB, Pad),
        _ => go!(ArchC, Val),
    }
}

/// Writes and panics inside the closure of a find.
fn find_write(w: &mut Hist, a: usize, key: Key, borrow: bool, v: u32) {
    macro_rules! go {
        ($A:ty, $C:ident) => {
            mc::with_key!(key, $A, |k| if borrow {
                ecs_find_borrow!(w, k, |x: &mut $C| {
                    x.set(v);
                    if v != 0 {
                        panic!("{BOOM}")
                    }
                });
            } else {
                ecs_find!(w, k, |x: &mut $C, _h: &EntityAny| {
                    x.set(v);
                    if v != 0 {
                        panic!("{BOOM}")
                    }
                });
            })
        };
    }
    match a {
        0 => go!(ArchA, Tok),
        1 => go!(ArchB, Pad),
        _ => go!(ArchC, Val),
    }
}

/// A borrow conflict: nested in a pass or find over entity `any`'s archetype.
fn conflict(w: &Hist, a: usize, any: EntityAny, way: u8) {
    macro_rules! go {
        ($A:ty, $C:ident) => {{
            let e = Entity::<$A>::from_any(any);
            match way {
                0 => ecs_iter_borrow!(w, |_h: &Entity<$A>, _x: &mut $C| {
                    ecs_find_borrow!(w, e, |y: &$C| y.get());
                }),
                1 => drop(ecs_find_borrow!(w, e, |x: &$C| {
                    x.get();
                    let _g = w.archetype::<$A>().borrow_slice_mut::<$C>();
                })),
                _ => {
                    let b = w.borrow(e).unwrap();
                    let _x = b.component_mut::<$C>();
                    ecs_iter_borrow!(w, |y: &$C, h: &EntityAny| {
                        if h.archetype_id() == <$A as Archetype>::ARCHETYPE_ID {
                            y.get();
                        }
                    })
                }
            }
        }};
    }
    match a {
        0 => go!(ArchA, Tok),
        1 => go!(ArchB, Pad),
        _ => go!(ArchC, Val),
    }
}

/// Holds component `c` of archetype `a` mutably borrowed while cloning.
fn clone_borrowed(w: &Hist, a: usize, c: usize) {
    macro_rules! go {
        ($A:ty, $C:ident) => {{
            let _g = w.archetype::<$A>().borrow_slice_mut::<$C>();
            drop(w.clone());
        }};
    }
    match (a, c) {
        (0, 0) => go!(ArchA, Tok),
        (0, _) => go!(ArchA, Val),
        (1, 0) => go!(ArchB, Pad),
        (1, 1) => go!(ArchB, Tok),
        (1, _) => go!(ArchB, Zst),
        (2, 0) => go!(ArchC, Val),
        _ => go!(ArchC, Zst),
    }
}

fn inject(worlds: &mut Vec<S>, f: Fault, ch: &mut Ch) -> R {
    ch.note(|| format!("fault: {f:?}"));
    match f {
        Fault::Scan(s, a, scan, k) => {
            let mut n = 0;
            let w = &mut worlds[s].w;
            let r = panics(|| {
                w.scan(a, scan, &mut |_| {
                    n += 1;
                    if n > k {
                        panic!("{BOOM}");
                    }
                    true
                })
            });
            at(r, true, "a pass", ch)?;
        }
        Fault::ScanAll(s, scan, k) => {
            let mut n = 0;
            let w = &mut worlds[s].w;
            let r = panics(|| {
                w.scan_all(scan, &mut |_| {
                    n += 1;
                    if n > k {
                        panic!("{BOOM}");
                    }
                    true
                })
            });
            at(r, true, "a query", ch)?;
        }
        Fault::IterWrite(s, a, way, k) => {
            let Sys { w, m } = &mut worlds[s];
            let (mut serial, mut written) = (m.serial, Vec::new());
            let r = panics(|| {
                iter_write(w, a, way, k, &mut |h| {
                    serial += 1;
                    let v = raw_vals::<Hist>(a, serial).v[0];
                    written.push((h, v));
                    v
                })
            });
            at(r, true, "a writing pass", ch)?;
            m.serial = serial;
            for (h, v) in written {
                let Some(i) = m.live[a].iter().copied().find(|i| m.ents[*i].any == h) else { mc::fail!("a pass presented {h:?}, which is not alive") };
                m.ents[i].vals.v[0] = v;
            }
        }
        Fault::Find(s, i, k, borrow) => {
            let e = worlds[s].m.ents[i];
            let key = way_key(&mut worlds[s], i, k);
            let v = worlds[s].fresh_vals(e.arch).v[0];
            let w = &mut worlds[s].w;
            let r = panics(|| find_write(w, e.arch, key, borrow, v));
            at(r, true, "a find", ch)?;
            worlds[s].m.ents[i].vals.v[0] = v;
        }
        Fault::IterDestroy(s, scope, k) => looped(&mut worlds[s], scope, Some(k), ch)?,
        Fault::LoopDrop(s, scope, k) => {
            reg::arm_drop(k);
            looped(&mut worlds[s], scope, None, ch)?;
        }
        Fault::DestroyDrop(s, i, way, k) => {
            let e = worlds[s].m.ents[i];
            let key = way_key(&mut worlds[s], i, way);
            reg::arm_drop(k);
            let w = &mut worlds[s].w;
            let r = panics(|| assert!(w.destroy_e(e.arch, way & 4 == 0, key).is_some(), "refused"));
            let armed = reg::disarm();
            at(r, true, "a destroy", ch)?;
            ensure!(!armed, "destroy refused live entity #{i} or did not drop its components");
            observe(&mut worlds[s], &[i]);
        }
        Fault::Clone(s, k, onto) => {
            reg::arm_clone(k);
            let r = if onto {
                // Overwrites the other world only if it succeeds.
                let t = if s == 0 { 1 } else { 0 };
                let (x, y) = worlds.split_at_mut(1);
                let (from, to) = if s == 0 { (&x[0].w, &mut y[t - 1].w) } else { (&y[s - 1].w, &mut x[0].w) };
                panics(|| to.clone_from(from))
            } else {
                let w = &worlds[s].w;
                panics(|| drop(w.clone()))
            };
            let armed = reg::disarm();
            at(r, true, "a clone", ch)?;
            ensure!(!armed, "only some components were cloned");
        }
        Fault::CloneBorrowed(s, a, c) => {
            let w = &worlds[s].w;
            let r = panics(|| clone_borrowed(w, a, c));
            at(r, true, "clone with a mutably borrowed column", ch)?;
        }
        Fault::DropWorld(s, k, over) => {
            let Sys { mut w, m } = worlds.remove(s);
            reg::arm_drop(k);
            let r = if over {
                let from = &worlds[0].w;
                let r = panics(|| w = from.clone());
                // Overwritten all the same.
                let armed = reg::disarm();
                ensure!(!armed, "not all components were dropped");
                worlds.push(Sys { w, m: worlds[0].m.clone() });
                r
            } else {
                panics(|| drop(w))
            };
            let armed = reg::disarm();
            at(r, true, "dropping a world", ch)?;
            ensure!(!armed || over, "not all components were dropped");
            drop(m);
        }
        Fault::Assign(s, i, path) => {
            let e = worlds[s].m.ents[i];
            let v = worlds[s].fresh_vals(e.arch).v[0];
            reg::arm_drop(0);
            let w = &mut worlds[s].w;
            let r = panics(|| assign(w, e.arch, e.any, path, v));
            let armed = reg::disarm();
            at(r, true, "an assignment", ch)?;
            ensure!(!armed, "the assignment did not happen");
            worlds[s].m.ents[i].vals.v[0] = v;
        }
        Fault::Conflict(s, i, way) => {
            let e = worlds[s].m.ents[i];
            let w = &worlds[s].w;
            let r = panics(|| conflict(w, e.arch, e.any, way));
            at(r, true, "a conflicting borrow", ch)?;
        }
        Fault::Refused(s, ak) => {
            let (a, k) = (ak / 4, ak % 4);
            let raw = worlds[s].fresh_vals(a);
            reg::arm_drop(k);
            let w = &mut worlds[s].w;
            let r = panics(|| assert!(w.create_e(a, How::WorldWithin, &raw).is_err(), "not refused"));
            let armed = reg::disarm();
            ensure!(r.is_none() && !armed, "create_within_capacity of a full archetype did not return the components");
            ch.stats.panics += 1;
        }
    }
    // Afterwards nothing is borrowed, and everything is as the model says.
    Ok(())
}

/// `ecs_iter_destroy!` with every decision sequence, panicking by closure at visit `at_k`, or by an
/// armed drop, or by a counter overflow.
fn looped(s: &mut S, scope: Scope, at_k: Option<usize>, ch: &mut Ch) -> R {
    let expected: Vec<usize> = match scope {
        Scope::One(a) => s.m.live[a].clone(),
        _ => s.m.live.iter().flatten().copied().collect(),
    };
    let (mut visited, mut doomed): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    let mut err: R = Ok(());
    let mut stop = false;
    let m = &s.m;
    let w = &mut s.w;
    let r = panics(|| {
        let mut body = |item: Item| -> EcsStepDestroy {
            let mut one = || -> R<EcsStepDestroy> {
                ensure!(!stop, "ecs_iter_destroy! went on after Break");
                let Some(i) = expected.iter().copied().find(|i| m.ents[*i].any == item.entity) else {
                    mc::fail!("ecs_iter_destroy! presented {:?}, which is not a live matching entity", item.entity)
                };
                ensure!(!visited.contains(&i), "ecs_iter_destroy! visited entity #{i} twice");
                if let Some(vals) = item.vals {
                    ensure!(vals == m.ents[i].vals, "ecs_iter_destroy! paired entity #{i} with {vals:?}");
                }
                visited.push(i);
                if at_k == Some(visited.len() - 1) {
                    panic!("{BOOM}");
                }
                // With an armed drop every decision destroys or breaks; else every decision that goes on.
                let d = if at_k.is_some() { ch.choose(2)? } else { ch.choose(3)? };
                ch.note(|| format!("  visit of #{i}: {}", ["Continue", "ContinueDestroy", "BreakDestroy"][d]));
                Ok(match d {
                    0 => EcsStepDestroy::Continue,
                    1 => {
                        doomed.push(i);
                        EcsStepDestroy::ContinueDestroy
                    }
                    _ => {
                        doomed.push(i);
                        stop = true;
                        EcsStepDestroy::BreakDestroy
                    }
                })
            };
            match one() {
                Ok(d) => d,
                Err(e) => {
                    if err.is_ok() {
                        err = Err(e);
                    }
                    stop = true;
                    EcsStepDestroy::Break
                }
            }
        };
        match scope {
            Scope::One(a) => w.iter_destroy_one(a, &mut body),
            Scope::All => w.iter_destroy_all(false, &mut body),
            Scope::AllWild => w.iter_destroy_all(true, &mut body),
        }
    });
    let armed = reg::disarm();
    err?;
    ch.stats.faults += 1;
    ch.stats.panics += r.is_none() as u64;
    if r.is_some() {
        ensure!(at_k.is_none(), "ecs_iter_destroy!: the closure's panic was swallowed");
        ensure!(stop || visited.len() == expected.len(), "ecs_iter_destroy! visited {} of {} entities", visited.len(), expected.len());
    } else {
        ensure!(at_k.is_some() || !armed, "ecs_iter_destroy! panics: {}", last_panic());
    }
    observe(s, &doomed);
    if r.is_some() {
        for i in doomed {
            ensure!(!s.m.ents[i].alive, "ecs_iter_destroy! did not destroy entity #{i} as decided");
        }
    }
    Ok(())
}

fn check(worlds: &mut [S], full: bool, ch: &mut Ch) -> R {
    for s in worlds.iter_mut() {
        if full {
            s.probe_all(ch)?;
        } else {
            s.probe_quick(ch)?;
        }
    }
    probe_ownership(&worlds.iter().collect::<Vec<_>>())
}

/// Closing: every world can be refilled, emptied, cloned and dropped.
fn finish(worlds: &mut Vec<S>, ch: &mut Ch) -> R {
    for s in worlds.iter_mut() {
        for a in 0..3 {
            if s.w.cap_of(a) <= 8 {
                s.refill(a)?;
            }
            s.create(a, How::World)?;
        }
        s.probe_quick(ch)?;
        let copy = s.w.clone();
        drop(copy);
    }
    probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
    for s in worlds.iter_mut() {
        for a in 0..3 {
            for i in s.m.live[a].clone() {
                s.destroy(i, 1)?;
            }
        }
        s.probe_quick(ch)?;
    }
    probe_ownership(&worlds.iter().collect::<Vec<_>>())
}

/// Prefix, fault, more operations (or a second fault), then put to every use.
fn run(ch: &mut Ch, before: &HistCfg, kinds: &Kinds, after: &HistCfg, second: bool) -> R {
    let caps = &before.caps[ch.choose(before.caps.len())?];
    let n = ch.choose(before.depth + 1)?;
    ch.note(|| format!("capacities {caps:?}, {n} operations, then a fault"));
    let mut worlds: Vec<S> = vec![Sys::new(caps)];
    for _ in 0..n {
        let ops = menu(before, &worlds);
        let op = ops[ch.choose(ops.len())?];
        apply(before, &mut worlds, op, ch)?;
        ch.step();
    }
    for round in 0..if second { 2 } else { 1 } {
        let fs = faults(&worlds, kinds);
        if fs.is_empty() {
            break;
        }
        let f = fs[ch.choose(fs.len())?];
        inject(&mut worlds, f, ch)?;
        ch.step();
        if ch.state() {
            check(&mut worlds, !second || round == 0, ch)?;
        }
    }
    for _ in 0..after.depth {
        let ops = menu(after, &worlds);
        let op = ops[ch.choose(ops.len())?];
        apply(after, &mut worlds, op, ch)?;
        ch.step();
        if ch.state() {
            check(&mut worlds, false, ch)?;
        }
    }
    finish(&mut worlds, ch)
}

/// Histories through the last generations and versions: any destroy may panic by overflow (and only
/// then); every way of destroying is used.
fn overflow(ch: &mut Ch, depth: usize, arches: &[usize]) -> R {
    const SLOTS: [u32; 3] = [1, u32::MAX, u32::MAX - 1];
    const ARCHS: [u32; 4] = [1, u32::MAX, u32::MAX - 1, u32::MAX - 2];
    let slot = SLOTS[ch.choose(3)?];
    let arch = ARCHS[ch.choose(4)?];
    let cap = [3, 1][ch.choose(2)?];
    ch.note(|| format!("generations start at {slot}, versions at {arch}, capacities {cap}"));
    let mut worlds: Vec<S> = vec![Sys::new_preset(&[cap; 3], slot, arch)];
    for step in 0..depth {
        let s = &mut worlds[0];
        let mut ops: Vec<Option<(usize, usize)>> = Vec::new();
        let mut creates = Vec::new();
        let mut loops = Vec::new();
        for &a in arches {
            if s.m.live[a].len() < 3 {
                creates.push(a);
            }
            for &i in &s.m.live[a] {
                for way in 0..8 {
                    ops.push(Some((i, way)));
                }
            }
            if !s.m.live[a].is_empty() {
                loops.push(Scope::One(a));
            }
        }
        if arches.len() > 1 && !loops.is_empty() {
            loops.push(Scope::All);
            loops.push(Scope::AllWild);
        }
        let c = ch.choose(creates.len() + ops.len() + loops.len())?;
        if c < creates.len() {
            ch.note(|| format!("create in {}", creates[c]));
            s.create(creates[c], How::World)?;
        } else if c < creates.len() + ops.len() {
            let (i, way) = ops[c - creates.len()].unwrap();
            ch.note(|| format!("destroy #{i} by way {way}"));
            let e = s.m.ents[i];
            let key = way_key(s, i, way);
            let w = &mut s.w;
            let r = panics(|| w.destroy_e(e.arch, way & 4 == 0, key));
            ch.stats.faults += 1;
            match r {
                Some(d) => {
                    ensure!(d.is_some(), "destroy({key:?}) refused live entity #{i}");
                    if let Some(Some(vals)) = d {
                        ensure!(vals == e.vals, "destroy of entity #{i} returned {vals:?} instead of {:?}", e.vals);
                    }
                    s.bury(i);
                }
                None => {
                    ch.stats.panics += 1;
                    ensure!(!cfg!(feature = "wrapping"), "destroy panics ({}) although versions wrap", last_panic());
                    observe(s, &[i]);
                }
            }
        } else {
            let scope = loops[c - creates.len() - ops.len()];
            ch.note(|| format!("ecs_iter_destroy! over {scope:?}"));
            let before = ch.stats.panics;
            looped(s, scope, None, ch)?;
            ensure!(!cfg!(feature = "wrapping") || ch.stats.panics == before, "ecs_iter_destroy! panics ({}) although versions wrap", last_panic());
        }
        ch.step();
        if ch.state() {
            check(&mut worlds, step < 3, ch)?;
        }
    }
    // Emptied as far as possible, and dropped.
    let s = &mut worlds[0];
    for a in 0..3 {
        for i in s.m.live[a].clone() {
            let any = s.m.ents[i].any;
            let w = &mut s.w;
            match panics(|| w.destroy_e(a, true, Key::ent(any, false))) {
                Some(d) => {
                    ensure!(d.is_some(), "destroy refused live entity #{i}");
                    s.bury(i);
                }
                None => observe(s, &[i]),
            }
        }
        s.create(a, How::World)?;
    }
    s.probe_quick(ch)?;
    let copy = s.fork();
    probe_ownership(&[s, &copy])
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[3, 3, 3]];
    let all = || Kinds { arches: vec![0, 1, 2], closures: true, clones: true, drops: true };
    for a in 0..3 {
        let before = HistCfg::new(tier.depth(5, 7), &[a], caps).with(|c| c.max_live = tier.pick(3, 4));
        let after = HistCfg::new(tier.depth(2, 2), &[a], caps).with(|c| {
            c.ways = vec![7];
            c.iter_destroy = vec![Scope::One(a)];
            c.decisions = vec![0, 2];
            c.worlds = 2;
        });
        let kinds = Kinds { arches: vec![a], closures: true, clones: true, drops: true };
        out.push(Scenario::new(format!("c10-one-{a}"), "one archetype: every prefix, every fault at every point, then used on", move |ch| run(ch, &before, &kinds, &after, false)).guarded());
    }
    let before = HistCfg::new(tier.depth(5, 5), &[0, 1, 2], &[&[0, 1, 2]]).with(|c| c.max_live = tier.pick(2, 3));
    let after = HistCfg::new(tier.pick(0, 1), &[0, 1, 2], caps);
    out.push(Scenario::new("c10-three", "three archetypes: every prefix, every fault at every point", move |ch| run(ch, &before, &all(), &after, false)).guarded());
    let before = HistCfg::new(tier.depth(3, 4), &[1], caps).with(|c| c.max_live = tier.pick(2, 3));
    let after = HistCfg::new(tier.pick(0, 1), &[1], caps);
    let kinds = Kinds { arches: vec![1], closures: true, clones: true, drops: true };
    out.push(Scenario::new("c10-twice", "two faults in a row", move |ch| run(ch, &before, &kinds, &after, true)).guarded());
    let before = HistCfg::new(tier.depth(4, 5), &[0, 1], &[&[1, 0, 0], &[0, 2, 0]]).with(|c| {
        c.worlds = 2;
        c.max_live = 2;
        c.ways = vec![1];
    });
    let after = HistCfg::new(tier.pick(0, 1), &[0, 1], caps);
    let kinds = Kinds { arches: vec![0, 1], closures: false, clones: true, drops: true };
    out.push(Scenario::new("c10-clones", "a world and its clone: panics in Clone, clone_from and Drop", move |ch| run(ch, &before, &kinds, &after, false)).guarded());
    for a in 0..3 {
        let depth = tier.depth(5, 6);
        out.push(Scenario::new(format!("c10-overflow-{a}"), "sequences through the last generations and versions, by every way of destroying", move |ch| overflow(ch, depth, &[a])).guarded());
    }
    let depth = tier.depth(4, 5);
    out.push(Scenario::new("c10-overflow-across", "as above over two archetypes at once", move |ch| overflow(ch, depth, &[0, 1])).guarded());
    if !tier.mini() {
        out.push(Scenario::new("c10-limit", "the capacity panic of create at 2^24 entities", move |ch| super::c12::limit(ch, &[(1 << 24) - 3])).threads(1));
    }
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 1..=max {
        out.push(Scenario::new(format!("c10-shape-{n}"), format!("archetype of {n} components: a panic in every single Clone and Drop"), move |ch| super::shapes::faults(n, ch)).guarded());
    }
    out
}
