//! C07: ecs_iter_destroy! visits each entity once and destroys exactly the flagged ones.
use gecs::prelude::*;
use mc::ensure;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::reg::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::sets::{self, Mac};
use mc::worlds::hist::*;
use mc::worlds::*;

/// How the storage came to hold its population (holes, reused positions, permuted order).
const PASTS: usize = 6;

fn populate(s: &mut Sys<Hist>, a: usize, n: usize, past: usize) -> R {
    let create = |s: &mut Sys<Hist>, k: usize| -> R<Vec<usize>> { (0..k).map(|_| Ok(s.create(a, How::World)?.unwrap())).collect() };
    match past {
        0 => drop(create(s, n)?),
        // The first positions were freed again.
        1 => {
            let early = create(s, 2)?;
            create(s, n)?;
            for i in early {
                s.destroy(i, 0)?;
            }
        }
        // Everything was recycled once.
        2 => {
            for i in create(s, n)? {
                s.destroy(i, 0)?;
            }
            create(s, n)?;
        }
        // A hole in the middle that a newer entity fills.
        3 => {
            let old = create(s, n)?;
            if n > 0 {
                s.destroy(old[n / 2], 0)?;
                create(s, 1)?;
            }
        }
        // Recycled in reverse, more room than entities.
        4 => {
            for i in create(s, n + 3)?.into_iter().rev() {
                s.destroy(i, 0)?;
            }
            create(s, n)?;
        }
        // The order was permuted by an earlier loop.
        _ => {
            create(s, n + 1)?;
            s.iter_destroy(Scope::One(a), &mut |_, k, _| Ok(if k == 0 { 2 } else { 0 }))?;
        }
    }
    Ok(())
}

/// Direct handles to all entities, issued before the loop.
fn directs(s: &mut Sys<Hist>) -> R {
    for a in 0..Hist::N {
        for i in s.m.live[a].clone() {
            let key = Key::ent(s.m.ents[i].any, true);
            s.issue_direct(i, Look::ArchToDirect, key)?;
        }
    }
    Ok(())
}

fn decided(ch: &mut Ch, n: usize, i: usize) -> R<u8> {
    let d = ch.choose(4)? as u8;
    ch.note(|| format!("  visit {n}: entity #{i} -> {}", ["Continue", "Break", "ContinueDestroy", "BreakDestroy"][d as usize]));
    Ok(d)
}

/// One loop with every decision sequence, everything probed; then a creation, everything probed; then a
/// loop that destroys every second one.
fn lone(ch: &mut Ch, a: usize, max: usize) -> R {
    let cap = [0, 2][ch.choose(2)?];
    let n = ch.choose(max + 1)?;
    let past = ch.choose(PASTS)?;
    ch.note(|| format!("archetype {a} with {n} entities (past {past}), initial capacity {cap}"));
    let mut s: Sys<Hist> = Sys::new(&[cap; 3]);
    populate(&mut s, a, n, past)?;
    directs(&mut s)?;
    s.iter_destroy(Scope::One(a), &mut |_, k, i| decided(ch, k, i))?;
    ch.step();
    ch.stats.states += 1;
    s.probe_all(ch)?;
    s.create(a, How::World)?;
    s.probe_quick(ch)?;
    s.iter_destroy(Scope::One(a), &mut |_, k, _| Ok((k % 2 * 2) as u8))?;
    s.probe_quick(ch)?;
    s.refill(a)?;
    s.probe_quick(ch)
}

/// A loop over all archetypes.
fn total(ch: &mut Ch, max: usize) -> R {
    let scope = [Scope::All, Scope::AllWild][ch.choose(2)?];
    let n: Vec<usize> = (0..3).map(|_| ch.choose(max + 1)).collect::<R<Vec<_>>>()?;
    let past = [0, 3][ch.choose(2)?];
    ch.note(|| format!("populations {n:?} (past {past}), {scope:?}"));
    let mut s: Sys<Hist> = Sys::new(&[0, 1, 2]);
    for a in 0..3 {
        populate(&mut s, a, n[a], past)?;
    }
    directs(&mut s)?;
    s.iter_destroy(scope, &mut |_, k, i| decided(ch, k, i))?;
    ch.step();
    ch.stats.states += 1;
    s.probe_all(ch)
}

/// Loops whose query matches archetypes by shared components, and whose closure writes.
fn sets(ch: &mut Ch, max: usize) -> R {
    let q = ch.choose(sets::SETS)?;
    let arches = sets::matched(q);
    let n: Vec<usize> = (0..3).map(|a| if arches.contains(&a) { ch.choose(max + 1) } else { Ok(2) }).collect::<R<Vec<_>>>()?;
    ch.note(|| format!("query {q} over archetypes {arches:?}, populations {n:?}"));
    let mut s: Sys<Hist> = Sys::new(&[0, 1, 2]);
    for a in 0..3 {
        populate(&mut s, a, n[a], a)?;
    }
    directs(&mut s)?;
    let expected: Vec<usize> = arches.iter().flat_map(|a| s.m.live[*a].clone()).collect();
    s.iter_destroy_with(
        &expected,
        &mut |w, f| {
            sets::run(w, Mac::IterDestroy, q, &mut |any, direct, _| {
                match f(Item { arch: usize::MAX, entity: any, direct, vals: None }) {
                    EcsStepDestroy::Continue => 0,
                    EcsStepDestroy::Break => 1,
                    EcsStepDestroy::ContinueDestroy => 2,
                    EcsStepDestroy::BreakDestroy => 3,
                }
            })
        },
        &mut |_, k, i| decided(ch, k, i),
    )?;
    ch.step();
    ch.stats.states += 1;
    s.probe_all(ch)
}

/// The closure writes components of every entity it visits, flagged or not; what it wrote must stay
/// with that entity.
fn writing(ch: &mut Ch, max: usize) -> R {
    let n = ch.choose(max + 1)?;
    let past = ch.choose(PASTS)?;
    ch.note(|| format!("archetype 0 with {n} entities (past {past}), the closure writes"));
    let mut s: Sys<Hist> = Sys::new(&[0, 0, 0]);
    populate(&mut s, 0, n, past)?;
    populate(&mut s, 2, 2, 0)?;
    let before: Vec<(EntityAny, u32)> = s.m.live[0].iter().map(|i| (s.m.ents[*i].any, s.m.ents[*i].vals.v[0])).collect();
    let mut wrote: Vec<(EntityAny, u32)> = Vec::new();
    let mut err: R = Ok(());
    let expected = s.m.live[0].clone();
    s.iter_destroy_with(
        &expected,
        &mut |w, f| {
            ecs_iter_destroy!(w, |tok: &mut Tok, e: &Entity<ArchA>, val: &mut Val| {
                let any = e.into_any();
                let had = before.iter().find(|b| b.0 == any).map(|b| b.1);
                if had != Some(tok.get()) && err.is_ok() {
                    err = Err(Halt::Violation(format!("the loop paired {any:?} with {:x}, its value is {had:x?}", tok.get())));
                }
                let v = 0x100_0000 + tok.get();
                tok.set(v);
                val.set(v + 1);
                wrote.push((any, v));
                f(Item { arch: 0, entity: any, direct: None, vals: None })
            })
        },
        &mut |_, k, i| decided(ch, k, i),
    )?;
    err?;
    for (any, v) in wrote {
        let i = s.m.ents.iter().position(|e| e.any == any).unwrap();
        s.m.ents[i].vals.v[0] = v;
        s.m.ents[i].vals.v[1] = v + 1;
    }
    ch.step();
    ch.stats.states += 1;
    s.probe_all(ch)?;
    s.probe_values(ch)
}

fn full(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_all(ch)?;
    }
    Ok(())
}

/// All values that a closure may return, including conversions from `EcsStep` and `()`.
fn results(ch: &mut Ch) -> R {
    let n = ch.choose(4)?;
    let mut s: Sys<Hist> = Sys::new(&[0, 0, 0]);
    populate(&mut s, 0, n, 0)?;
    if !ch.state() {
        return Ok(());
    }
    let count = |s: &Sys<Hist>| s.w.archetype::<hist::ArchA>().len();
    let mut k = 0;
    ecs_iter_destroy!(s.w, |_t: &Tok| {
        k += 1;
    });
    ensure!(k == n && count(&s) == n, "a closure without result destroyed or stopped");
    let mut k = 0;
    ecs_iter_destroy!(s.w, |_t: &Tok| {
        k += 1;
        EcsStep::Continue
    });
    ensure!(k == n && count(&s) == n, "EcsStep::Continue destroyed or stopped");
    let mut k = 0;
    ecs_iter_destroy!(s.w, |_t: &Tok| {
        k += 1;
        EcsStep::Break
    });
    ensure!(k == n.min(1) && count(&s) == n, "EcsStep::Break destroyed or did not stop");
    let mut k = 0;
    ecs_iter_destroy!(s.w, |_t: &Tok| {
        k += 1;
        EcsStepDestroy::default()
    });
    ensure!(k == n && count(&s) == n, "EcsStepDestroy::default() is not Continue");
    let flagged = [EcsStepDestroy::Continue, EcsStepDestroy::Break, EcsStepDestroy::ContinueDestroy, EcsStepDestroy::BreakDestroy].map(|d| d.is_destroy());
    ensure!(flagged == [false, false, true, true], "is_destroy() is {flagged:?}");
    s.probe_all(ch)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    for a in 0..3 {
        let max = tier.depth(6, 8);
        out.push(Scenario::new(format!("c07-lone-{a}"), "one archetype: population x past x every decision sequence, everything probed after", move |ch| lone(ch, a, max)).guarded());
    }
    let max = tier.depth(3, 3);
    out.push(Scenario::new("c07-total", "all archetypes: populations x every decision sequence", move |ch| total(ch, max)).guarded());
    let max = tier.depth(3, 4);
    out.push(Scenario::new("c07-sets", "queries over shared components: populations x every decision sequence", move |ch| sets(ch, max)).guarded());
    let max = tier.depth(5, 7);
    out.push(Scenario::new("c07-writing", "closures that write: population x past x every decision sequence", move |ch| writing(ch, max)).guarded());
    out.push(Scenario::new("c07-results", "every type a closure may return", results).guarded());
    for a in 0..2 {
        let cfg = HistCfg::new(tier.depth(7, 9), &[a], &[&[0, 0, 0], &[3, 3, 3]]).with(|c| {
            c.iter_destroy = vec![Scope::One(a)];
            c.max_live = 4;
            c.max_directs = 1;
            c.decisions = vec![0, 2, 3];
        });
        out.push(Scenario::new(format!("c07-history-{a}"), "create, destroy and loops with all decision sequences interleaved, everything probed", move |ch| history(ch, &cfg, &full)));
    }
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 1, 2], &[&[0, 1, 2]]).with(|c| {
        c.iter_destroy = vec![Scope::One(0), Scope::One(1), Scope::One(2), Scope::All, Scope::AllWild];
        c.worlds = 2;
        c.presets = vec![(1, 1), ((1 << 16) - 2, (1 << 16) - 2), ((1 << 24) - 2, (1 << 31) - 2)];
    });
    out.push(Scenario::new("c07-mixed", "three archetypes, clones, loops over one or all", move |ch| history(ch, &cfg, &full)));
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c07", tier));
    }
    out.extend(mc::full::scenario("c07", mc::full::Focus::Loop, tier));
    out
}
