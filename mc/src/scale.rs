//! Large histories: sizes and removal patterns are enumerated, everything between is deterministic.

use crate::explore::{beat, Ch, R};
use crate::harness::*;
use gecs::prelude::*;
use crate::sys::*;
use crate::{ensure, fail};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pattern {
    Forward,
    Backward,
    Even,
    Third,
    FirstHalf,
    LastHalf,
    Shuffled,
    IterDestroyEven,
    IterDestroyAll,
}

impl Pattern {
    pub const ALL: &'static [Pattern] = &[
        Pattern::Shuffled,
        Pattern::Forward,
        Pattern::Backward,
        Pattern::Even,
        Pattern::Third,
        Pattern::FirstHalf,
        Pattern::LastHalf,
        Pattern::IterDestroyEven,
        Pattern::IterDestroyAll,
    ];
}

fn victims(live: &[usize], p: Pattern, seed: u64) -> Vec<usize> {
    let n = live.len();
    match p {
        Pattern::Forward => live.to_vec(),
        Pattern::Backward => live.iter().rev().copied().collect(),
        Pattern::Even => live.iter().step_by(2).copied().collect(),
        Pattern::Third => live.iter().skip(1).step_by(3).copied().collect(),
        Pattern::FirstHalf => live[..n / 2].to_vec(),
        Pattern::LastHalf => live[n / 2..].iter().rev().copied().collect(),
        Pattern::Shuffled => {
            let mut v = live.to_vec();
            let mut x = seed | 1;
            for i in (1..v.len()).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.swap(i, (x >> 33) as usize % (i + 1));
            }
            v.truncate(n - n / 5);
            v
        }
        Pattern::IterDestroyEven | Pattern::IterDestroyAll => unreachable!(),
    }
}

/// Probes that stay linear in the number of entities.
pub fn probe_big<W: HWorld>(sys: &mut Sys<W>, a: usize, ch: &mut Ch) -> R {
    sys.probe_counts(ch)?;
    for i in 0..sys.m.ents.len() {
        if i % 4096 == 0 {
            beat();
        }
        let e = sys.m.ents[i];
        let key = Key::ent(e.any, i % 2 == 0);
        sys.probe_look(i, Look::ArchBorrow, key)?;
        sys.probe_look(i, Look::FindOnlyHandles, key)?;
        ch.stats.probes += 2;
    }
    sys.probe_scan(a, Scan::EcsIter, ch)?;
    sys.probe_scan(a, Scan::AllSlices, ch)?;
    sys.probe_scan(a, Scan::ArchIterMut, ch)?;
    sys.probe_scan_all(ScanAll::IterBorrow, ch)?;
    sys.probe_lens(a)?;
    sys.probe_events(ch)?;
    sys.health()
}

pub fn destroy_pattern<W: HWorld>(sys: &mut Sys<W>, a: usize, p: Pattern) -> R {
    match p {
        Pattern::IterDestroyEven | Pattern::IterDestroyAll => {
            let all = p == Pattern::IterDestroyAll;
            sys.iter_destroy(Scope::One(a), &mut |_, n, _| Ok(if all || n % 2 == 0 { 2 } else { 0 }))?;
            sys.m.dirs.clear();
        }
        _ => {
            for (k, i) in victims(&sys.m.live[a].clone(), p, 12345).into_iter().enumerate() {
                if k % 4096 == 0 {
                    beat();
                }
                sys.destroy(i, k % 8)?;
            }
        }
    }
    Ok(())
}

/// create n, destroy by a pattern, refill beyond n, destroy by a pattern, clone, refill the clone.
pub fn scale<W: HWorld>(ch: &mut Ch, arches: &[usize], sizes: &[usize], clone: bool) -> R {
    let a = arches[ch.choose(arches.len())?];
    let n = sizes[ch.choose(sizes.len())?];
    let cap = [0, n / 2, n][ch.choose(3)?];
    let p = Pattern::ALL[ch.choose(Pattern::ALL.len())?];
    ch.note(|| format!("archetype {a}, {n} entities from capacity {cap}, pattern {p:?}"));
    let mut caps = vec![0; W::N];
    caps[a] = cap;
    let mut sys: Sys<W> = Sys::new(&caps);
    sys.m.unique = false;
    for k in 0..n {
        if k % 4096 == 0 {
            beat();
        }
        sys.create(a, if k % 2 == 0 { How::World } else { How::Arch })?;
        ch.step();
    }
    ch.state();
    probe_big(&mut sys, a, ch)?;
    destroy_pattern(&mut sys, a, p)?;
    ch.state();
    probe_big(&mut sys, a, ch)?;
    sys.refill(a)?;
    for _ in 0..3 {
        sys.create(a, How::World)?;
    }
    ch.state();
    probe_big(&mut sys, a, ch)?;
    destroy_pattern(&mut sys, a, Pattern::Third)?;
    if clone {
        let mut copy = sys.fork();
        ch.state();
        probe_big(&mut copy, a, ch)?;
        copy.refill(a)?;
        probe_big(&mut copy, a, ch)?;
        probe_ownership(&[&sys, &copy])?;
        drop(copy);
        probe_big(&mut sys, a, ch)?;
        sys.refill(a)?;
    }
    destroy_pattern(&mut sys, a, Pattern::Backward)?;
    ch.state();
    probe_big(&mut sys, a, ch)?;
    ensure!(sys.m.live[a].is_empty(), "harness: not everything was destroyed");
    let mut all = std::collections::HashSet::with_hasher(Fast::default());
    for e in &sys.m.ents {
        if !all.insert(bits(e.any)) {
            fail!("handle {:?} was issued twice", e.any);
        }
    }
    probe_ownership(&[&sys])?;
    Ok(())
}


/// Whatever is done in blocks has its own case for each remainder.
pub fn every_size(tier: crate::explore::Tier) -> &'static [usize] {
    let n = if tier == crate::explore::Tier::Thorough { 2100 } else { 600 };
    Box::leak((1..=n).collect::<Vec<usize>>().into_boxed_slice())
}

/// The standard scale scenarios.
pub fn scale_scenarios<W: HWorld>(prefix: &str, tier: crate::explore::Tier) -> Vec<crate::explore::Scenario> {
    use crate::explore::{Scenario, Tier};
    let every = every_size(tier);
    let mut out = vec![
        Scenario::new(format!("{prefix}-scale"), "populations of 70 and 1030, all removal patterns and starting capacities", |ch| {
            scale::<W>(ch, &[0, 1, 2], &[70, 1030], true)
        }),
        Scenario::new(format!("{prefix}-every-size"), "every population up to 600 (thorough 2100), all removal patterns and starting capacities", move |ch| {
            scale::<W>(ch, &[0], every, true)
        }),
        Scenario::new(format!("{prefix}-scale16"), "populations beyond 2^16, all removal patterns", |ch| scale::<W>(ch, &[0], &[66_000], true)),
    ];
    if tier == Tier::Thorough {
        out.push(
            Scenario::new(format!("{prefix}-scale20"), "populations beyond 2^20, all removal patterns", |ch| scale::<W>(ch, &[0, 1], &[1_050_000], true))
                .threads(4),
        );
    }
    out
}

/// One position is used again and again, `total` times, next to some bystanders. Handles (and direct
/// handles) issued 2^k uses ago must be refused each time, whatever part of a generation code compares.
pub fn recycle<W: HWorld>(ch: &mut Ch, arches: &[usize], total: usize, bystanders: usize, ways: &[usize]) -> R {
    let a = arches[ch.choose(arches.len())?];
    let bystanders = ch.choose(bystanders)?;
    let way = ways[ch.choose(ways.len())?];
    ch.note(|| format!("archetype {a}: {total} uses of one position next to {bystanders} others, destroyed by way {way}"));
    let mut caps = vec![0; W::N];
    caps[a] = bystanders + 1;
    let mut sys: Sys<W> = Sys::new(&caps);
    sys.m.unique = false;
    for _ in 0..bystanders {
        sys.create(a, How::World)?;
    }
    let kept = (bystanders, sys.m.ents.clone());
    let mut old: Vec<(EntityAny, EntityDirectAny)> = Vec::with_capacity(total);
    let mut all = std::collections::HashSet::with_capacity_and_hasher(total.min(1 << 20), Fast::default());
    for t in 0..total {
        if t % 4096 == 0 {
            beat();
            ch.step();
            sys.clear_events(None);
        }
        // The model is not asked to remember the dead.
        sys.m.ents.truncate(kept.0);
        let i = sys.create(a, How::WorldWithin)?;
        let Some(i) = i else { fail!("no room for use {t} of the one free position") };
        let any = sys.m.ents[i].any;
        let Some(seen) = sys.w.look(a, Look::ArchToDirect, Key::ent(any, true)) else { fail!("to_direct refuses the entity of use {t}") };
        let direct = seen.direct.unwrap();
        let full = t.is_power_of_two() || (t + 1).is_power_of_two() || t + 1 == total;
        let mut back = 1;
        while back <= t {
            let (e, d) = old[t - back];
            ensure!(e != any, "handle {any:?} was issued for use {t} and {back} uses earlier");
            for typed in [true, false] {
                for (what, key) in [("handle", Key::ent(e, typed)), ("direct handle", Key::dir(d, typed))] {
                    for path in Look::ALL.iter().copied().filter(|p| p.takes(typed)) {
                        if !full && path != if typed { Look::ArchBorrow } else { Look::WorldContains } {
                            continue;
                        }
                        ch.stats.probes += 1;
                        if let Some(seen) = sys.w.look(a, path, key) {
                            fail!("{path:?}({key:?}) accepts the {what} of {back} uses earlier in use {t}, finding {seen:?}");
                        }
                    }
                    if full {
                        for at_world in [true, false] {
                            ensure!(sys.w.destroy_e(a, at_world, key).is_none(), "destroy({key:?}) accepts the {what} of {back} uses earlier in use {t}");
                        }
                    }
                }
            }
            back *= 2;
        }
        sys.probe_look(i, Look::ArchBorrow, Key::ent(any, false))?;
        if all.len() < 1 << 20 && !all.insert(bits(any)) {
            fail!("handle {any:?} was issued twice, again for use {t}");
        }
        old.push((any, direct));
        sys.destroy(i, way)?;
        if full {
            ch.state();
            for i in 0..kept.0 {
                sys.probe_look(i, Look::Find, Key::ent(kept.1[i].any, true))?;
            }
            sys.health()?;
        }
    }
    Ok(())
}

pub fn recycle_scenarios<W: HWorld>(prefix: &str, tier: crate::explore::Tier) -> Vec<crate::explore::Scenario> {
    use crate::explore::{Scenario, Tier};
    let mut out = vec![Scenario::new(
        format!("{prefix}-recycle17"),
        "one position used 2^17 times; handles and direct handles of 2^k uses ago, for all k, are refused at each use",
        |ch| recycle::<W>(ch, &[0, 1, 2], (1 << 17) + 2, 3, &[0, 1, 2, 3, 4, 5, 6, 7]),
    )];
    if tier == Tier::Thorough {
        out.push(
            Scenario::new(
                format!("{prefix}-recycle25"),
                "one position used 2^25 times; handles and direct handles of 2^k uses ago, for all k, are refused at each use",
                |ch| recycle::<W>(ch, &[0], (1 << 25) + 2, 2, &[0]),
            )
            .threads(3),
        );
    }
    out
}
