//! An archetype filled to the limit of 2^24 entities: every position there can be is in use.
use crate::ensure;
use crate::explore::*;
use gecs::prelude::*;

pub const LIMIT: usize = 1 << 24;

pub mod world {
    use gecs::prelude::*;

    #[derive(Clone)]
    pub struct X(pub u32);
    #[derive(Clone)]
    pub struct Y(pub u16);

    ecs_world! {
        ecs_name!(Full);
        ecs_archetype!(Few, X);
        #[archetype_id(255)]
        ecs_archetype!(Many, Y, X);
    }
}
use world::*;

/// What the property at hand needs checked for all entities; every one of them is checked at the edges.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    Handles,
    Values,
    Iteration,
    Loop,
    Unique,
    Direct,
    Clone,
    Forged,
}

fn y(k: u32) -> u16 {
    (k ^ (k >> 13)) as u16
}

/// Entities around all powers of two, and the last ones.
fn edges() -> Vec<usize> {
    let mut out: Vec<usize> = (0..=24).flat_map(|b| [(1usize << b).wrapping_sub(2), (1 << b) - 1, 1 << b, (1 << b) + 1]).filter(|k| *k < LIMIT).collect();
    out.extend([LIMIT - 3, 1234567, 0xAAAAAA, 0x555555]);
    out.sort();
    out.dedup();
    out
}

fn probe(w: &mut Full, k: usize, e: Entity<Many>, ch: &mut Ch) -> R {
    let any: EntityAny = e.into();
    let want = (k as u32, y(k as u32));
    macro_rules! is {
        ($what:literal, $got:expr) => {{
            let got = $got;
            ensure!(got == Some(want), "{} of entity {k} ({any:?}) among 2^24 finds {got:?}, should be {want:?}", $what);
            ch.stats.probes += 1;
        }};
    }
    ensure!(w.contains(e) && w.contains(any) && w.many.contains(e) && w.many.contains(any), "entity {k} ({any:?}) among 2^24 is not contained");
    is!("view", w.view(e).map(|v| (v.x.0, v.y.0)));
    is!("view by EntityAny", w.many.view(any).map(|v| (v.x.0, v.y.0)));
    is!("borrow", w.borrow(e).map(|b| (b.component::<X>().0, b.component::<Y>().0)));
    is!("ecs_find!", ecs_find!(w, e, |x: &X, y: &Y| (x.0, y.0)));
    is!("ecs_find! by EntityAny", ecs_find!(w, any, |x: &X, y: &Y| (x.0, y.0)));
    is!("ecs_find_borrow!", ecs_find_borrow!(w, any, |x: &X, y: &Y| (x.0, y.0)));
    is!("resolve", w.many.resolve(e).map(|i| (w.many.get_slice_mut::<X>()[i].0, w.many.get_slice_mut::<Y>()[i].0)));
    is!("get_slice", w.many.resolve(any).map(|i| (w.many.get_slice::<X>()[i].0, w.many.get_slice::<Y>()[i].0)));
    is!("borrow_slice", w.many.resolve(e).map(|i| (w.many.borrow_slice::<X>()[i].0, w.many.borrow_slice::<Y>()[i].0)));
    is!("borrow_slice_mut", w.many.resolve(e).map(|i| (w.many.borrow_slice_mut::<X>()[i].0, w.many.borrow_slice_mut::<Y>()[i].0)));
    is!("borrow, mutably", w.many.borrow(e).map(|b| (b.component_mut::<X>().0, b.component_mut::<Y>().0)));
    is!("get_all_slices_mut", w.many.resolve(e).map(|i| {
        let s = w.many.get_all_slices_mut();
        (s.x[i].0, s.y[i].0)
    }));
    let d = w.to_direct(e);
    is!("to_direct", d.and_then(|d| ecs_find!(w, d, |x: &X, y: &Y| (x.0, y.0))));
    is!("to_direct, any", w.to_direct(any).and_then(|d| w.many.view(d).map(|v| (v.x.0, v.y.0))));
    let d = d.unwrap();
    let at = w.many.resolve(d).map(|i| w.many.entities()[i]);
    ensure!(at == Some(e), "the direct handle of entity {k} leads to {at:?}");
    Ok(())
}

fn gone(w: &mut Full, k: usize, e: Entity<Many>, ch: &mut Ch) -> R {
    let any: EntityAny = e.into();
    let found = w.contains(e) || w.contains(any) || w.view(e).is_some() || w.many.borrow(any).is_some() || w.many.resolve(e).is_some() || w.to_direct(e).is_some()
        || ecs_find!(w, any, |_: &X| ()).is_some() || ecs_find_borrow!(w, e, |_: &X| ()).is_some() || w.destroy(e).is_some() || w.destroy(any).is_some();
    ensure!(!found, "destroyed entity {k} ({any:?}) among 2^24 is found");
    ch.stats.probes += 10;
    Ok(())
}

fn create(w: &mut Full, k: usize) -> Entity<Many> {
    let k = k as u32;
    w.create::<Many>((Y(y(k)), X(k)))
}

/// Every live entity once, with its own values: `live` by number.
fn iteration(w: &mut Full, of: &[Entity<Many>], live: &[u64], n: usize, which: usize) -> R {
    let mut seen = vec![0u64; LIMIT / 64];
    let mut count = 0usize;
    let mut bad = None;
    let mut note = |e: Entity<Many>, x: u32, yy: u16| {
        count += 1;
        let k = x as usize;
        if count & 0xFFFFF == 0 {
            beat();
        }
        if bad.is_some() {
            return;
        }
        if k >= LIMIT || live[k / 64] >> (k % 64) & 1 == 0 {
            bad = Some(format!("an entity {k} that is not alive is presented"));
        } else if seen[k / 64] >> (k % 64) & 1 == 1 {
            bad = Some(format!("entity {k} is presented twice"));
        } else if of[k] != e || yy != y(x) {
            bad = Some(format!("entity {k} is presented as {e:?} with {yy}, should be {:?} with {}", of[k], y(x)));
        } else {
            seen[k / 64] |= 1 << (k % 64);
        }
    };
    match which {
        0 => ecs_iter!(w, |e: &Entity<Many>, x: &X, y: &Y| note(*e, x.0, y.0)),
        1 => ecs_iter_borrow!(w, |e: &Entity<Many>, x: &X, y: &Y| note(*e, x.0, y.0)),
        2 => {
            for (e, y, x) in w.many.iter() {
                note(*e, x.0, y.0);
            }
        }
        3 => {
            for (e, y, x) in w.many.iter_mut() {
                note(*e, x.0, y.0);
            }
        }
        _ => {
            let s = w.many.get_all_slices_mut();
            for ((e, y), x) in s.entity.iter().zip(s.y.iter()).zip(s.x.iter()) {
                note(*e, x.0, y.0);
            }
        }
    }
    if let Some(text) = bad {
        crate::fail!("pass {which} over 2^24 positions: {text}");
    }
    ensure!(count == n && w.many.len() == n, "pass {which} presents {count} of {n} entities, len() is {}", w.many.len());
    Ok(())
}

fn distinct(what: &str, of: impl Iterator<Item = Entity<Many>>) -> R {
    let mut all: Vec<(u32, u32)> = of.map(|e| e.into_any().raw()).collect();
    beat();
    all.sort_unstable();
    beat();
    for p in all.windows(2) {
        ensure!(p[0] != p[1], "{what}: handle {:?} was issued twice", EntityAny::from_raw(p[0]).unwrap());
    }
    Ok(())
}

/// Every handle ever issued with its generation and its archetype altered: found only if that is the handle of a live entity.
fn forged(w: &mut Full, issued: &[Entity<Many>], live: &[Entity<Many>], ch: &mut Ch) -> R {
    let word = |r: (u32, u32)| (r.0 as u64) << 32 | r.1 as u64;
    let mut all: Vec<u64> = live.iter().map(|e| word(e.into_any().raw())).collect();
    beat();
    all.sort_unstable();
    beat();
    // Lookups may also panic, which is slow: then the edges have to do.
    let mut refused = 0;
    for (k, e) in issued.iter().enumerate() {
        if k & 0xFFFFF == 0 {
            beat();
        }
        if refused > 10000 {
            break;
        }
        let (key, v) = e.into_any().raw();
        for v in [v.wrapping_sub(1), v.wrapping_add(1), v.wrapping_add(2), v ^ 0x8000_0000, v ^ 0x0001_0000, v ^ 0x100, u32::MAX] {
            let Ok(any) = EntityAny::from_raw((key, v)) else { continue };
            // The same position is in range, whatever the generation.
            let got = panics(|| (w.many.contains(any), w.many.resolve(any).map(|i| w.many.entities()[i].into_any().raw())));
            let Some((a, b)) = got else {
                ensure!(all.binary_search(&word((key, v))).is_err(), "lookup of {any:?}, alive, panics");
                refused += 1;
                continue;
            };
            if !a && b.is_none() {
                continue;
            }
            let is = all.binary_search(&word((key, v))).is_ok();
            ensure!(is && a && b == Some((key, v)), "forged handle {any:?} (made from {e:?}), {}: contains is {a}, resolve leads to {b:?}", if is { "alive" } else { "not alive" });
        }
        for x in [1u32, 0x80, 0xFF] {
            let Ok(any) = EntityAny::from_raw((key ^ x, v)) else { continue };
            let found = panics(|| w.many.contains(any) || w.many.resolve(any).is_some());
            refused += found.is_none() as u32;
            ensure!(found != Some(true), "forged handle {any:?}, of another archetype than {e:?}, is found");
        }
    }
    // Each position of the key altered; the position may be out of range, which may panic.
    for k in edges() {
        let (key, v) = issued[k].into_any().raw();
        for bit in 0..64 {
            let (key, v) = if bit < 32 { (key ^ 1 << bit, v) } else { (key, v ^ 1 << (bit - 32)) };
            let Ok(any) = EntityAny::from_raw((key, v)) else { continue };
            let is = all.binary_search(&word((key, v))).is_ok();
            let got = panics(|| (w.contains(any), ecs_find!(w, any, |x: &X, e: &EntityAny| (x.0, e.raw()))));
            let Some((a, b)) = got else {
                ensure!(!is, "lookup of {any:?}, alive, panics");
                continue;
            };
            let few = panics(|| w.few.contains(any)) == Some(true);
            ensure!(a == (is || few) && b.is_some() == a && b.is_none_or(|b| b.1 == (key, v)), "forged handle {any:?}: contains is {a}, ecs_find! finds {b:?}, alive is {is}");
            ch.stats.probes += 2;
        }
    }
    ch.stats.probes += issued.len() as u64 * 20;
    Ok(())
}

/// Whether each of some removals from a large population takes longer than that of one of constant cost could.
fn slow_removals() -> bool {
    let mut w = Full::default();
    let all: Vec<_> = (0..1 << 20).map(|k| create(&mut w, k)).collect();
    beat();
    all.iter().take(16).all(|e| {
        let t = std::time::Instant::now();
        w.destroy(*e);
        t.elapsed().as_micros() > 50
    })
}

pub fn full(ch: &mut Ch, focus: Focus) -> R {
    let start = [LIMIT, 0][ch.choose(2)?];
    ch.note(|| format!("2^24 entities from capacity {start}, {focus:?}"));
    let mut w = Full::with_capacity(FullCapacity { few: 2, many: start });
    let few = w.create::<Few>((X(77),));
    let mut of: Vec<Entity<Many>> = Vec::with_capacity(LIMIT);
    for k in 0..LIMIT {
        if k & 0xFFFFF == 0 {
            beat();
            ch.step();
        }
        of.push(create(&mut w, k));
    }
    let mut live = vec![u64::MAX; LIMIT / 64];
    let edges = edges();
    ch.stats.states += 1;
    for k in &edges {
        probe(&mut w, *k, of[*k], ch)?;
    }
    let directs: Vec<(usize, EntityDirect<Many>)> = edges.iter().map(|k| (*k, w.to_direct(of[*k]).unwrap())).collect();
    let pass = |w: &mut Full, of: &[Entity<Many>], live: &[u64], n: usize| -> R {
        match focus {
            Focus::Iteration => (0..5).try_for_each(|i| iteration(w, of, live, n, i)),
            Focus::Values | Focus::Clone => iteration(w, of, live, n, 0),
            _ => Ok(()),
        }
    };
    pass(&mut w, &of, &live, LIMIT)?;
    if focus == Focus::Direct {
        for (k, e) in of.iter().enumerate() {
            if k & 0xFFFFF == 0 {
                beat();
            }
            let d = w.many.to_direct(*e);
            let at = d.and_then(|d| w.many.resolve(d)).map(|i| w.many.entities()[i]);
            ensure!(at == Some(*e), "the direct handle {d:?} of entity {k} ({e:?}) leads to {at:?}");
        }
    }
    if focus == Focus::Forged {
        forged(&mut w, &of, &of, ch)?;
    }
    let mut copy = None;
    if focus == Focus::Clone {
        copy = Some(w.clone());
    }
    // A third goes: one by one, or in a loop. Few if a removal takes time that grows with the population.
    let every = if slow_removals() { 65537 } else { 3 };
    let goes = |k: usize| k % every == 1 || k == LIMIT - 1;
    let mut dead = 0;
    if focus == Focus::Loop {
        let (mut visits, mut wrong) = (0usize, None);
        let mut seen = vec![0u64; LIMIT / 64];
        ecs_iter_destroy!(w, |e: &Entity<Many>, x: &X, d: &EntityDirect<Many>| {
            let k = x.0 as usize;
            visits += 1;
            if visits & 0xFFFFF == 0 {
                beat();
            }
            if of[k] != *e || seen[k / 64] >> (k % 64) & 1 == 1 || d.archetype_id() != 255 {
                wrong.get_or_insert((k, *e));
            }
            seen[k / 64] |= 1 << (k % 64);
            if goes(k) { EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }
        });
        ensure!(wrong.is_none(), "ecs_iter_destroy! over 2^24 entities presents {wrong:?} wrongly or twice");
        ensure!(visits == LIMIT, "ecs_iter_destroy! visits {visits} of 2^24 entities");
    }
    for k in 0..LIMIT {
        if k & 0xFFFFF == 0 || goes(k) && every > 3 {
            beat();
        }
        if !goes(k) {
            continue;
        }
        if focus != Focus::Loop {
            let r = if k % 2 == 0 { w.destroy(of[k]) } else { w.many.destroy(of[k]) };
            let got = r.map(|r| (r.x.0, r.y.0));
            ensure!(got == Some((k as u32, y(k as u32))), "destroy of entity {k} returns {got:?}");
        }
        live[k / 64] &= !(1 << (k % 64));
        dead += 1;
    }
    ensure!(w.many.len() == LIMIT - dead, "len() is {} after {dead} of 2^24 were destroyed", w.many.len());
    ch.stats.states += 1;
    for k in &edges {
        if goes(*k) {
            gone(&mut w, *k, of[*k], ch)?;
        } else {
            probe(&mut w, *k, of[*k], ch)?;
        }
    }
    for (k, d) in &directs {
        let found = w.contains(*d) || w.view(*d).is_some() || ecs_find!(w, *d, |_: &X| ()).is_some() || w.many.resolve(*d).is_some() || w.destroy(*d).is_some();
        ensure!(!found, "the direct handle of entity {k} is accepted after removals");
    }
    if focus == Focus::Handles || focus == Focus::Loop {
        for (k, e) in of.iter().enumerate() {
            if k & 0xFFFFF == 0 {
                beat();
            }
            let (a, b) = (w.many.contains(*e), w.many.resolve(*e).map(|i| w.many.entities()[i]));
            let want = !goes(k);
            ensure!(a == want && b == want.then_some(*e), "handle of entity {k}, {}: contains is {a}, resolve leads to {b:?}", if want { "alive" } else { "destroyed" });
        }
    }
    pass(&mut w, &of, &live, LIMIT - dead)?;
    if focus == Focus::Forged {
        let rest: Vec<_> = of.iter().enumerate().filter(|(k, _)| !goes(*k)).map(|(_, e)| *e).collect();
        forged(&mut w, &of, &rest, ch)?;
    }
    // Refilled; the handles of the dead stay dead.
    let old = of.clone();
    let mut fresh = Vec::new();
    for k in (0..LIMIT).filter(|k| goes(*k)) {
        if fresh.len() & 0xFFFFF == 0 {
            beat();
        }
        of[k] = create(&mut w, k);
        fresh.push(of[k]);
        live[k / 64] |= 1 << (k % 64);
    }
    ch.stats.states += 1;
    if focus == Focus::Unique {
        distinct("2^24 entities, a third destroyed and replaced", old.iter().copied().chain(fresh))?;
    } else {
        for k in (0..LIMIT).filter(|k| goes(*k)) {
            ensure!(of[k] != old[k], "handle {:?} was issued twice", of[k]);
        }
    }
    for k in &edges {
        probe(&mut w, *k, of[*k], ch)?;
        if goes(*k) {
            gone(&mut w, *k, old[*k], ch)?;
        }
    }
    if focus == Focus::Handles {
        for k in 0..LIMIT {
            if k & 0xFFFFF == 0 {
                beat();
            }
            let b = w.many.resolve(of[k]).map(|i| w.many.entities()[i]);
            ensure!(b == Some(of[k]), "entity {k} ({:?}), alive: resolve leads to {b:?}", of[k]);
            ensure!(!goes(k) || !w.many.contains(old[k]), "destroyed entity {k} ({:?}) is found", old[k]);
        }
    }
    pass(&mut w, &of, &live, LIMIT)?;
    if focus == Focus::Forged {
        let issued: Vec<_> = old.iter().copied().enumerate().filter(|(k, _)| goes(*k)).map(|(_, e)| e).chain(of.iter().copied()).collect();
        forged(&mut w, &issued, &of, ch)?;
    }
    if let Some(mut copy) = copy {
        live.fill(u64::MAX);
        for k in &edges {
            probe(&mut copy, *k, old[*k], ch)?;
        }
        ensure!(copy.many.capacity() >= LIMIT && copy.many.len() == LIMIT, "the clone has {} of {} entities", copy.many.len(), LIMIT);
        iteration(&mut copy, &old, &live, LIMIT, 0)?;
        let order = copy.many.entities()[..].iter().enumerate().step_by(4097).all(|(_, e)| copy.many.contains(*e));
        ensure!(order, "an entity of the clone is not contained in it");
    }
    let x = ecs_find!(w, few, |x: &X| x.0);
    ensure!(x == Some(77), "the entity of the other archetype has {x:?}");
    Ok(())
}

pub fn scenario(prefix: &str, focus: Focus, tier: Tier) -> Vec<Scenario> {
    if tier.mini() {
        return Vec::new();
    }
    vec![Scenario::new(format!("{prefix}-full"), "all 2^24 positions of an archetype in use, a third destroyed and replaced", move |ch| full(ch, focus)).threads(2)]
}
