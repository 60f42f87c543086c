//! C04: each component value is dropped exactly once; nothing leaks or double-drops.
use mc::ensure;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::*;
use mc::reg;

fn owned(worlds: &[Sys<Hist>]) -> (i64, i64) {
    worlds.iter().map(|s| s.owned()).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1))
}

/// Histories of every length up to the depth; the worlds are dropped wherever the history ends (the
/// guarded run then requires that nothing is left).
fn run(ch: &mut Ch, cfg: &HistCfg) -> R {
    let caps = &cfg.caps[ch.choose(cfg.caps.len())?];
    let depth = ch.choose(cfg.depth + 1)?;
    let mut worlds: Vec<Sys<Hist>> = vec![Sys::new(caps)];
    ch.note(|| format!("capacities {caps:?}, {depth} operations, then everything is dropped"));
    for _ in 0..depth {
        let ops = menu(cfg, &worlds);
        let op = ops[ch.choose(ops.len())?];
        let (clones, drops, before) = (reg::clones(), reg::drops(), owned(&worlds));
        let source = match op {
            Op::Clone(s) => Some(worlds[s].owned()),
            _ => None,
        };
        apply(cfg, &mut worlds, op, ch)?;
        ch.step();
        let (clones, drops, after) = (reg::clones() - clones, reg::drops() - drops, owned(&worlds));
        let what = |n: i64, m: u64, verb: &str| format!("{op:?}: {m} component values were {verb}, {n} should have been");
        let want_clones = source.map_or(0, |o| o.0 + o.1);
        ensure!(clones as i64 == want_clones, "{}", what(want_clones, clones, "cloned"));
        if !matches!(op, Op::Create(..)) {
            let want_drops = (before.0 + before.1 - after.0 - after.1).max(0);
            ensure!(drops as i64 == want_drops, "{}", what(want_drops, drops, "dropped"));
        }
        if ch.state() {
            probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
            for s in worlds.iter_mut() {
                s.probe_handles_fast(ch)?;
            }
            probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
        }
    }
    drop(worlds);
    let left = reg::live();
    ensure!(left == (0, 0), "after dropping the worlds {left:?} component values are alive");
    health()
}

/// Worlds whose archetypes are cloned, replaced and moved one at a time.
fn archetypes(ch: &mut Ch, depth: usize) -> R {
    let mut worlds: Vec<Sys<Hist>> = vec![Sys::new(&[0, 2, 1]), Sys::new(&[1, 0, 0])];
    for a in 0..3 {
        for _ in 0..=a {
            worlds[0].create(a, How::World)?;
        }
        worlds[1].create(a, How::World)?;
    }
    for _ in 0..depth {
        let s = ch.choose(2)?;
        let a = ch.choose(3)?;
        let op = ch.choose(5)?;
        ch.note(|| format!("op {op} on archetype {a} of world {s}"));
        match op {
            0 => {
                worlds[s].create(a, How::Arch)?;
            }
            1 => {
                if let Some(i) = worlds[s].m.live[a].first().copied() {
                    worlds[s].destroy(i, 4)?;
                }
            }
            // Swap one archetype (with its model entities) between the worlds: moves every value.
            2 => {
                let (l, r) = worlds.split_at_mut(1);
                let (l, r) = (&mut l[0], &mut r[0]);
                match a {
                    0 => std::mem::swap(&mut l.w.arch_a, &mut r.w.arch_a),
                    1 => std::mem::swap(&mut l.w.arch_b, &mut r.w.arch_b),
                    _ => std::mem::swap(&mut l.w.arch_c, &mut r.w.arch_c),
                }
                return finish(worlds);
            }
            // A world moved to the heap and back.
            3 => {
                let w = Box::new(worlds.remove(s));
                worlds.push(*w);
            }
            // Replaced by a clone of the other.
            _ => {
                let copy = worlds[1 - s].fork();
                worlds[s] = copy;
            }
        }
        ch.step();
        if ch.state() {
            probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
        }
    }
    finish(worlds)
}

fn finish(worlds: Vec<Sys<Hist>>) -> R {
    probe_ownership(&worlds.iter().collect::<Vec<_>>())?;
    drop(worlds);
    let left = reg::live();
    ensure!(left == (0, 0), "after dropping the worlds {left:?} component values are alive");
    health()
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[2, 2, 2]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(9, 11), &[a], caps).with(|c| c.hows = vec![How::World, How::ArchWithin]);
        out.push(Scenario::new(format!("c04-deep-{a}"), "create/create_within_capacity/destroy sequences of one archetype, dropped at every point", move |ch| run(ch, &cfg)).guarded());
    }
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 1, 2], &[&[0, 1, 0], &[1, 0, 2]]).with(|c| {
        c.hows = How::ALL.to_vec();
        c.ways = (0..8).collect();
        c.iter_destroy = vec![Scope::One(0), Scope::One(1), Scope::All];
        c.worlds = 2;
        c.drops = true;
    });
    out.push(Scenario::new("c04-alphabet", "every way to create and destroy, ecs_iter_destroy! with all decisions, clone, drop; three archetypes", move |ch| run(ch, &cfg)).guarded());
    for a in 0..2 {
        let cfg = HistCfg::new(tier.depth(7, 9), &[a], &[&[0, 0, 0], &[2, 2, 2]]).with(|c| {
            c.worlds = 3;
            c.drops = true;
            c.max_live = 4;
        });
        out.push(Scenario::new(format!("c04-clones-{a}"), "create/destroy/clone/drop of up to three worlds", move |ch| run(ch, &cfg)).guarded());
        let cfg = HistCfg::new(tier.depth(7, 9), &[a], &[&[0, 0, 0], &[3, 3, 3]]).with(|c| {
            c.iter_destroy = vec![Scope::One(a)];
            c.decisions = vec![0, 2, 3];
            c.ways = vec![1, 6];
            c.max_live = 4;
        });
        out.push(Scenario::new(format!("c04-loops-{a}"), "create, destroy by dynamic and direct keys, ecs_iter_destroy! with all decision sequences", move |ch| run(ch, &cfg)).guarded());
    }
    let depth = tier.depth(4, 5);
    out.push(Scenario::new("c04-moves", "worlds and archetypes moved, swapped and replaced", move |ch| archetypes(ch, depth)).guarded());
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 1..=max {
        let depth = if n <= 10 { tier.depth(3, 4) } else { tier.depth(2, 3) };
        out.push(Scenario::new(format!("c04-shape-{n}"), format!("archetype of {n} components of every size class: create/destroy/write/clone sequences"), move |ch| super::shapes::run(n, ch, depth)).guarded());
    }
    if !tier.mini() {
        let sizes = tier.pick(vec![33, 400], vec![33, 257, 5000]);
        out.push(Scenario::new("c04-scale", "large populations: grow, destroy by patterns, refill, clone, drop", move |ch| scale::<Hist>(ch, &[0, 1], &sizes, true)).guarded());
        let every = every_size(tier);
        let every = &every[..every.len() * 5 / 6];
        out.push(Scenario::new("c04-every-size", "every population up to 500 (thorough 1750), all removal patterns and starting capacities", move |ch| scale::<Hist>(ch, &[0], every, true)).guarded());
    }
    out
}
