//! C12: len and capacity are exact; creation respects capacity and the 2^24 limit.
use gecs::prelude::*;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::reg::{Comp, Tok, Val, Zst};
use mc::scale::*;
use mc::sys::*;
use mc::worlds::hist::*;
use mc::worlds::*;
use mc::ensure;

pub const LIMIT: usize = 1 << 24;

/// A history of every length; then every archetype is filled to capacity, grown once and filled again.
fn run(ch: &mut Ch, cfg: &HistCfg) -> R {
    let caps = &cfg.caps[ch.choose(cfg.caps.len())?];
    let depth = ch.choose(cfg.depth + 1)?;
    let mut worlds: Vec<Sys<Hist>> = vec![Sys::new(caps)];
    ch.note(|| format!("capacities {caps:?}, {depth} operations, then refilled"));
    for a in 0..3 {
        let cap = worlds[0].w.cap_of(a);
        ensure!(cap >= caps[a], "with_capacity({}) has capacity {cap}", caps[a]);
    }
    for _ in 0..depth {
        let ops = menu(cfg, &worlds);
        let op = ops[ch.choose(ops.len())?];
        apply(cfg, &mut worlds, op, ch)?;
        ch.step();
        if ch.state() {
            for s in worlds.iter_mut() {
                s.probe_counts(ch)?;
            }
        }
    }
    for s in worlds.iter_mut() {
        for a in &cfg.arches {
            for _ in 0..2 {
                if s.w.cap_of(*a) <= 64 {
                    s.refill(*a)?;
                    s.probe_counts(ch)?;
                    s.create(*a, How::World)?;
                    s.probe_counts(ch)?;
                }
            }
        }
        s.probe_handles_fast(ch)?;
    }
    for s in worlds.iter_mut() {
        s.probe_counts(ch)?;
    }
    Ok(())
}

/// Where the columns and the handles of an archetype are stored.
fn addresses(w: &mut Hist, a: usize) -> Vec<usize> {
    match a {
        0 => {
            let x = w.arch_a.get_all_slices_mut();
            vec![x.entity.as_ptr() as usize, x.tok.as_ptr() as usize, x.val.as_ptr() as usize]
        }
        1 => {
            let x = w.arch_b.get_all_slices_mut();
            vec![x.entity.as_ptr() as usize, x.pad.as_ptr() as usize, x.tok.as_ptr() as usize]
        }
        _ => {
            let x = w.arch_c.get_all_slices_mut();
            vec![x.entity.as_ptr() as usize, x.val.as_ptr() as usize]
        }
    }
}

/// with_capacity(n): n creations succeed without moving anything, also after emptying.
fn reserved(ch: &mut Ch, sizes: &[usize]) -> R {
    let a = ch.choose(3)?;
    let n = sizes[ch.choose(sizes.len())?];
    let how = How::ALL[ch.choose(4)?];
    if !ch.state() {
        return Ok(());
    }
    ch.note(|| format!("archetype {a}: with_capacity({n}), {n} creations by {how:?}"));
    let mut caps = [0; 3];
    caps[a] = n;
    let mut s: Sys<Hist> = Sys::new(&caps);
    s.m.unique = false;
    let cap = s.w.cap_of(a);
    ensure!(cap >= n, "with_capacity({n}) has capacity {cap}");
    let before = addresses(&mut s.w, a);
    for round in 0..2 {
        for k in 0..n {
            if k % 4096 == 0 {
                beat();
            }
            ensure!(s.create(a, how)?.is_some(), "{how:?} number {k} was refused after with_capacity({n})");
        }
        s.probe_counts(ch)?;
        ensure!(s.w.cap_of(a) == cap, "with_capacity({n}): {n} creations changed the capacity from {cap} to {}", s.w.cap_of(a));
        ensure!(addresses(&mut s.w, a) == before, "with_capacity({n}): the storage moved within {n} creations");
        if round == 0 {
            destroy_pattern(&mut s, a, Pattern::Third)?;
            destroy_pattern(&mut s, a, Pattern::Forward)?;
            s.probe_counts(ch)?;
        }
    }
    Ok(())
}

fn row(v: u32) -> (Val, Zst) {
    (Val::make(v), Zst::make(0))
}

/// Up to and at the limit of 2^24 entities.
pub fn limit(ch: &mut Ch, starts: &[usize]) -> R {
    let start = starts[ch.choose(starts.len())?];
    let mut w: Hist = World::with_capacity(HistCapacity { arch_a: 1, arch_b: 0, arch_c: start });
    let other = w.create::<ArchA>((mc::reg::Tok::make(77), Val::make(78)));
    ch.note(|| format!("with_capacity({start}), created up to 2^24"));
    let cap0 = w.arch_c.capacity();
    ensure!(cap0 >= start, "with_capacity({start}) has capacity {cap0}");
    let mut handles: Vec<Entity<ArchC>> = Vec::with_capacity(LIMIT);
    let mut cap = cap0;
    for k in 0..LIMIT {
        if k & 0xFFFF == 0 {
            beat();
        }
        let Some(e) = panics(|| w.create::<ArchC>(row(k as u32))) else { mc::fail!("create panics ({}) at {k} entities", last_panic()) };
        handles.push(e);
        let now = w.arch_c.capacity();
        ensure!(now >= cap, "capacity decreased from {cap} to {now}");
        cap = now;
    }
    ch.stats.transitions += LIMIT as u64;
    ensure!(w.arch_c.len() == LIMIT, "len is {} after 2^24 creations", w.arch_c.len());
    ensure!(cap == LIMIT, "capacity is {cap} with 2^24 entities");
    let check = |w: &mut Hist, handles: &[Entity<ArchC>], ch: &mut Ch| -> R {
        ensure!(w.arch_c.len() == LIMIT && w.arch_c.capacity() == LIMIT, "len {} and capacity {} at the limit", w.arch_c.len(), w.arch_c.capacity());
        for (k, e) in handles.iter().enumerate() {
            if k & 0xFFFF == 0 {
                beat();
            }
            let Some(i) = w.arch_c.resolve(*e) else { mc::fail!("entity {k} of 2^24 is not found") };
            let slice = w.arch_c.get_slice::<Val>();
            ensure!(slice[i].get() == k as u32, "entity {k} of 2^24 has value {}", slice[i].get());
            ensure!(w.arch_c.entities()[i] == *e, "entity {k} of 2^24 is stored at index {i} of another");
        }
        ch.stats.probes += LIMIT as u64;
        // Every way to the data of a full archetype.
        let last = handles[LIMIT - 1];
        let i = w.arch_c.resolve(last).unwrap();
        let ways = panics(|| {
            let slices = w.arch_c.get_all_slices_mut();
            let mut out = vec![slices.val.len(), slices.val[i].get() as usize, slices.entity.len()];
            out.push(w.arch_c.get_slice_mut::<Val>().len());
            out.push(w.arch_c.borrow_slice::<Val>().len());
            out.push(w.arch_c.borrow_slice_mut::<Val>().len());
            out.push(w.arch_c.entities().len());
            out.push(w.arch_c.borrow_slice::<Val>()[i].get() as usize);
            out.push(w.arch_c.borrow_slice_mut::<Val>()[i].get() as usize);
            out.extend(w.view(last).map(|v| v.val.get() as usize));
            let read = w.borrow(last).map(|b| b.component::<Val>().get() as usize);
            out.extend(read);
            let read = w.borrow(last).map(|b| b.component_mut::<Val>().get() as usize);
            out.extend(read);
            let read = ecs_find!(w, last, |v: &mut Val, _: &EntityDirectAny| v.get() as usize);
            out.extend(read);
            let read = ecs_find_borrow!(w, last, |v: &mut Val, _: &EntityDirect<_>| v.get() as usize);
            out.extend(read);
            out
        });
        let Some(ways) = ways else { mc::fail!("access to an archetype of 2^24 entities panics: {}", last_panic()) };
        let want: Vec<usize> = [1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0].map(|len| LIMIT - 1 + len).to_vec();
        ensure!(ways == want, "lengths of and values in an archetype of 2^24 entities: {ways:?}, should be {want:?}");
        let found = ecs_find!(w, other, |t: &Tok, v: &Val| (t.get(), v.get()));
        ensure!(found == Some((77, 78)), "an entity of another archetype was changed: {found:?}");
        health()
    };
    check(&mut w, &handles, ch)?;
    for how in 0..2 {
        let r = panics(|| if how == 0 { w.create::<ArchC>(row(1)) } else { w.archetype_mut::<ArchC>().create(row(1)) });
        ensure!(r.is_none(), "create succeeds with 2^24 entities");
        ch.stats.panics += 1;
        let zsts = mc::reg::live().1;
        ensure!(zsts == LIMIT as i64, "the refused creation's components were not dropped once: {zsts} alive, {LIMIT} owned");
    }
    ensure!(w.create_within_capacity::<ArchC>(row(1)).is_err(), "create_within_capacity succeeds with 2^24 entities");
    check(&mut w, &handles, ch)?;
    // Positions freed at the limit are reusable.
    for k in [0, LIMIT / 2, LIMIT - 1, 12345] {
        ensure!(w.destroy(handles[k]).is_some(), "destroy of entity {k} is refused at the limit");
        ensure!(w.arch_c.len() == LIMIT - 1, "len is {} after a destroy at the limit", w.arch_c.len());
        ensure!(!w.contains(handles[k]), "a destroyed entity is found at the limit");
        let Some(e) = panics(|| w.create::<ArchC>(row(k as u32))) else { mc::fail!("create panics ({}) at 2^24 - 1 entities", last_panic()) };
        ensure!(e != handles[k], "handle {e:?} was issued twice");
        handles[k] = e;
        let r = panics(|| w.create::<ArchC>(row(1)));
        ensure!(r.is_none(), "create succeeds with 2^24 entities");
    }
    ch.stats.states += 1;
    check(&mut w, &handles, ch)?;
    let mut n = 0;
    ecs_iter_destroy!(w, |v: &Val, e: &Entity<ArchC>| {
        let _ = e;
        n += 1;
        if n & 0xFFFF == 0 {
            beat();
        }
        if v.get() % 2 == 0 { EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }
    });
    ensure!(n == LIMIT && w.arch_c.len() == LIMIT / 2, "a loop over 2^24 entities visited {n}, {} remain", w.arch_c.len());
    ensure!(w.arch_c.capacity() == LIMIT, "capacity is {}", w.arch_c.capacity());
    health()
}

/// with_capacity beyond the limit panics, for every archetype, and leaks nothing.
fn beyond(ch: &mut Ch) -> R {
    let sizes = [LIMIT + 1, LIMIT + 2, 2 * LIMIT, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 6, (LIMIT << 8) + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    let n = sizes[ch.choose(sizes.len())?];
    let a = ch.choose(3)?;
    let level = ch.choose(2)?;
    ch.note(|| format!("archetype {a}: with_capacity({n:#x})"));
    let mut caps = [3; 3];
    caps[a] = n;
    let r = if level == 0 {
        panics(|| drop(Hist::build(&caps)))
    } else {
        panics(|| match a {
            0 => drop(ArchA::with_capacity(n)),
            1 => drop(ArchB::with_capacity(n)),
            _ => drop(ArchC::with_capacity(n)),
        })
    };
    ensure!(r.is_none(), "with_capacity({n}) succeeds");
    ch.stats.states += 1;
    ch.stats.panics += 1;
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[2, 2, 2], &[3, 3, 3], &[5, 5, 5]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(9, 10), &[a], caps).with(|c| c.hows = vec![How::World, How::ArchWithin]);
        out.push(Scenario::new(format!("c12-deep-{a}"), "create/create_within_capacity/destroy sequences of every length, then filled and grown twice", move |ch| run(ch, &cfg)));
    }
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 1, 2], &[&[0, 1, 2], &[2, 0, 1]]).with(|c| {
        c.hows = How::ALL.to_vec();
        c.ways = vec![0, 1, 6, 7];
        c.iter_destroy = vec![Scope::One(0), Scope::All];
        c.worlds = 2;
    });
    out.push(Scenario::new("c12-alphabet", "every way to create, several to destroy, loops, clones; then filled and grown twice", move |ch| run(ch, &cfg)));
    let cfg = HistCfg::new(tier.depth(6, 7), &[0, 2], caps).with(|c| {
        c.iter_destroy = vec![Scope::One(0), Scope::One(2)];
        c.decisions = vec![0, 2, 3];
        c.max_live = 4;
    });
    out.push(Scenario::new("c12-loops", "create, destroy, loops; then filled and grown twice", move |ch| run(ch, &cfg)));
    let mut sizes: Vec<usize> = (0..=tier.pick(70, 300)).collect();
    if !tier.mini() {
        sizes.extend([127, 128, 129, 255, 256, 257, 1000, 65_535, 65_536, 65_537]);
    }
    if tier == Tier::Thorough {
        sizes.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    }
    out.push(Scenario::new("c12-reserved", "with_capacity(n): n creations move nothing", move |ch| reserved(ch, &sizes)));
    out.push(Scenario::new("c12-beyond", "with_capacity beyond 2^24 panics", beyond).guarded());
    if tier.mini() {
        out.push(Scenario::new("c12-limit", "creation up to and at 2^24 entities", move |ch| limit(ch, &[LIMIT])).threads(1));
    } else {
        let starts = tier.pick(vec![LIMIT - 3, 0, LIMIT], vec![LIMIT - 1, LIMIT, 0, LIMIT / 2, LIMIT / 2 + 1, 3, LIMIT - 2]);
        out.push(Scenario::new("c12-limit", "creation up to and at 2^24 entities, from several starting capacities", move |ch| limit(ch, &starts)).threads(2));
        out.extend(scale_scenarios::<Hist>("c12", tier));
    }
    out
}
