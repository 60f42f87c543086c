//! C08: no handle is ever issued twice within a world.
use gecs::prelude::*;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::hist::*;
use mc::worlds::*;
use mc::{ensure, fail};

/// Every creation is compared with every handle issued before (`Model::unique`).
fn nothing(_: &mut Ch, _: &mut Vec<Sys<Hist>>) -> R {
    Ok(())
}

fn stale(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_handles_fast(ch)?;
    }
    Ok(())
}

/// Histories at the end of the generations: a destroy may panic when a counter is about to overflow,
/// and nothing may be issued twice before or after.
fn overflow(ch: &mut Ch, depth: usize, room: u32) -> R {
    let which = ch.choose(3)?;
    let room = ch.choose(room as usize + 1)? as u32;
    let cap = [1, 2, 3][ch.choose(3)?];
    let a = [0, 2][ch.choose(2)?];
    let start = u32::MAX - room;
    let (slot, arch) = [(start, 1), (1, start), (start, start)][which];
    ch.note(|| format!("archetype {a}, capacity {cap}, generations start at {slot:#x}, archetype version at {arch:#x}"));
    let mut s: Sys<Hist> = Sys::new_preset(&[cap; 3], slot, arch);
    let wrapping = cfg!(feature = "wrapping");
    let mut removals = 0u32;
    for _ in 0..depth {
        let live = s.m.live[a].clone();
        let loops = !live.is_empty() as usize;
        let k = ch.choose(1 + live.len() * 4 + loops)?;
        if k == 0 {
            ch.note(|| "create".into());
            s.create(a, How::World)?;
        } else if k <= live.len() * 4 {
            let (i, way) = (live[(k - 1) / 4], [0, 1, 3, 6][(k - 1) % 4]);
            let e = s.m.ents[i];
            let last = e.any.raw().1 == u32::MAX || arch.checked_add(removals + 1).is_none();
            ch.note(|| format!("destroy #{i} {:?} by way {way}", e.any));
            match panics(|| s.destroy(i, way)) {
                Some(r) => {
                    r?;
                    removals += 1;
                    // What came back must not be one of the handles of the world any more, ever: `unique`.
                }
                None => {
                    ch.stats.panics += 1;
                    ensure!(!wrapping, "destroy panics ({}) although versions wrap", last_panic());
                    ensure!(last, "destroy of #{i} {:?} panics ({}) although no counter overflows", e.any, last_panic());
                    // Present or absent: both are consistent, seen from outside.
                    let there = s.w.look(a, Look::ArchContains, Key::ent(e.any, true)).is_some();
                    if !there {
                        s.bury(i);
                        removals += 1;
                    }
                }
            }
        } else {
            // A loop that destroys everything.
            ch.note(|| "ecs_iter_destroy! everything".into());
            let before = s.m.live[a].clone();
            let m = s.m.clone();
            let mut visited = 0u32;
            let r = panics(|| {
                s.w.iter_destroy_one(a, &mut |_| {
                    visited += 1;
                    EcsStepDestroy::ContinueDestroy
                })
            });
            s.m = m;
            if r.is_none() {
                ch.stats.panics += 1;
                let near = before.iter().any(|i| s.m.ents[*i].any.raw().1 == u32::MAX) || arch.checked_add(removals + before.len() as u32).is_none();
                ensure!(!wrapping && near, "ecs_iter_destroy! panics ({}) although no counter overflows", last_panic());
            }
            for i in before {
                let any = s.m.ents[i].any;
                if s.w.look(a, Look::ArchContains, Key::ent(any, true)).is_none() {
                    s.bury(i);
                    removals += 1;
                } else {
                    ensure!(r.is_none(), "ecs_iter_destroy! did not destroy #{i} {any:?}");
                }
            }
        }
        ch.step();
        if ch.state() {
            s.probe_handles_fast(ch)?;
            s.probe_counts(ch)?;
        }
    }
    health()
}

/// `cycles` destroy/create cycles of the positions of a small archetype: no handle twice.
fn cycles(ch: &mut Ch, cycles: u64) -> R {
    let keep = ch.choose(3)?; // How many other entities live meanwhile.
    let cap = ch.choose(2)? * 4;
    let order = ch.choose(2)?; // Create before or after destroying.
    let depth = if keep == 0 && cap == 0 && order == 0 { cycles } else { cycles >> 4 };
    if !ch.state() {
        return Ok(());
    }
    ch.note(|| format!("{depth} cycles next to {keep} entities, capacity {cap}, order {order}"));
    let mut w: Hist = World::with_capacity(HistCapacity { arch_a: 0, arch_b: 0, arch_c: cap });
    let make = |v: u32| (<mc::reg::Val as mc::reg::Comp>::make(v), <mc::reg::Zst as mc::reg::Comp>::make(0));
    for k in 0..keep {
        w.create::<ArchC>(make(k as u32));
    }
    // One bit per (position, generation), positions as they come up.
    let mut seen: Vec<(u32, Vec<u64>)> = Vec::new();
    let mut note = |e: Entity<ArchC>| -> R {
        let (key, version) = e.into_any().raw();
        let bits = match seen.iter_mut().position(|s| s.0 == key) {
            Some(p) => &mut seen[p].1,
            None => {
                seen.push((key, Vec::new()));
                &mut seen.last_mut().unwrap().1
            }
        };
        let (word, bit) = (version as usize >> 6, 1u64 << (version & 63));
        if bits.len() <= word {
            if word > (2 * depth as usize >> 6) + 1024 {
                // Sparse versions: legal, but not what this bitmap is for.
                return Ok(());
            }
            bits.resize((word + 1).next_power_of_two().min((1 << 26) + 1), 0);
        }
        if bits[word] & bit != 0 {
            fail!("handle {e:?} was issued twice");
        }
        bits[word] |= bit;
        Ok(())
    };
    let mut e = w.create::<ArchC>(make(0));
    note(e)?;
    for k in 0..depth {
        if k & 0xFFFF == 0 {
            beat();
        }
        let ok = if order == 0 {
            let gone = panics_rare(&mut w, e);
            if gone {
                e = w.create::<ArchC>(make(k as u32));
            }
            gone
        } else {
            let next = w.create::<ArchC>(make(k as u32));
            let gone = panics_rare(&mut w, e);
            e = next;
            gone
        };
        if !ok {
            ensure!(!cfg!(feature = "wrapping") && k + 8 > u32::MAX as u64 - 8, "destroy panics ({}) after {k} cycles", last_panic());
            ch.note(|| format!("overflow panic after {k} cycles"));
            break;
        }
        note(e)?;
    }
    ch.stats.transitions += depth;
    Ok(())
}

/// All 2^32 - 1 generations of one position and beyond, where generations wrap: nothing panics, no two
/// handles of one era are the same, and the first handle matches again only when it has come round.
fn wrap(ch: &mut Ch) -> R {
    ch.choose(1)?;
    if !ch.state() {
        return Ok(());
    }
    let mut w: Hist = World::with_capacity(HistCapacity { arch_a: 0, arch_b: 0, arch_c: 1 });
    let make = |v: u32| (<mc::reg::Val as mc::reg::Comp>::make(v), <mc::reg::Zst as mc::reg::Comp>::make(0));
    let first = w.create::<ArchC>(make(0));
    let mut e = first;
    let (mut last, mut k) = (0u32, 0u64);
    loop {
        if k & 0xFF_FFFF == 0 {
            beat();
        }
        let (key, version) = e.into_any().raw();
        ensure!(key == first.into_any().raw().0, "the only position of the archetype changes");
        // Generations count up, so none occurs twice before the wrap.
        if version <= last {
            break;
        }
        last = version;
        ensure!(w.destroy(e).is_some(), "destroy refuses the live entity {e:?} after {k} cycles");
        ensure!(!w.contains(e), "{e:?} is found after its destruction, {k} cycles in");
        e = w.create::<ArchC>(make(k as u32));
        k += 1;
    }
    ch.stats.transitions += k;
    ensure!(k >= u32::MAX as u64 - 1, "generations wrap after {k} cycles already");
    for _ in 0..64 {
        let (again, version) = (e == first, e.into_any().raw().1);
        ensure!(w.contains(first) == again, "the first handle is {} at generation {version}", w.contains(first));
        ensure!(w.archetype::<ArchC>().len() == 1, "len is {}", w.archetype::<ArchC>().len());
        ensure!(w.destroy(e).is_some() && !w.contains(e), "destroy refuses the live entity {e:?}");
        e = w.create::<ArchC>(make(k as u32));
    }
    health()
}

fn panics_rare(w: &mut Hist, e: Entity<ArchC>) -> bool {
    panics(|| w.destroy(e).is_some()) == Some(true)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[3, 3, 3]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(12, 14), &[a], caps);
        out.push(Scenario::new(format!("c08-deep-{a}"), "all create/destroy sequences of one archetype", move |ch| history(ch, &cfg, &nothing)));
    }
    let cfg = HistCfg::new(tier.depth(8, 9), &[0, 1, 2], &[&[0, 1, 2], &[1, 1, 1]]);
    out.push(Scenario::new("c08-across", "create/destroy over three archetypes: handles differ across archetypes", move |ch| history(ch, &cfg, &nothing)));
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 2], &[&[0, 0, 1], &[2, 0, 0]]).with(|c| {
        c.hows = How::ALL.to_vec();
        c.ways = (0..8).collect();
        c.iter_destroy = vec![Scope::One(0), Scope::All];
        c.decisions = vec![0, 2, 3];
        c.worlds = 2;
        c.max_live = 3;
    });
    out.push(Scenario::new("c08-alphabet", "every way to create and destroy, loops, clones", move |ch| history(ch, &cfg, &stale)));
    let cfg = HistCfg::new(tier.depth(11, 12), &[2], &[&[0, 0, 1], &[0, 0, 3]]).with(|c| c.presets = presets(12));
    out.push(Scenario::new("c08-generations", "create/destroy around 2^8, 2^16, 2^24, 2^31 and below 2^32", move |ch| history(ch, &cfg, &nothing)));
    let depth = tier.depth(6, 7);
    out.push(Scenario::new("c08-overflow", "create/destroy/loop sequences through the last generations", move |ch| overflow(ch, depth, 2)));
    if !tier.mini() {
        out.push(Scenario::new("c08-cycles", "millions of destroy/create cycles of one position", |ch| cycles(ch, 40_000_000)));
        out.extend(scale_scenarios::<Hist>("c08", tier));
    }
    if tier == Tier::Thorough && cfg!(feature = "wrapping") {
        out.push(Scenario::new("c08-wrap", "all 2^32 generations of one position, and around again", wrap).threads(1));
    } else if tier == Tier::Thorough {
        out.push(Scenario::new("c08-all-cycles", "all 2^32 generations of one position", |ch| cycles(ch, 1 << 33)).threads(3));
    }
    out.extend(mc::full::scenario("c08", mc::full::Focus::Unique, tier));
    out
}
