//! C01: a handle resolves if and only if its entity is alive.
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::*;

fn full(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_handles(ch)?;
    }
    Ok(())
}

fn fast(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_handles_fast(ch)?;
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[2, 2, 2], &[3, 3, 3]];
    for a in 0..3 {
        let cfg = HistCfg::new(if a == 0 { tier.depth(12, 15) } else { tier.depth(10, 13) }, &[a], caps);
        out.push(Scenario::new(
            format!("c01-deep-{a}"),
            "all create/destroy sequences of one archetype, from capacities 0..3",
            move |ch| history(ch, &cfg, &fast),
        ));
    }
    let cfg = HistCfg::new(tier.depth(4, 5), &[0, 1, 2], &[&[0, 1, 2], &[2, 0, 1]]).with(|c| {
        c.hows = How::ALL.to_vec();
        c.ways = (0..8).collect();
        c.iter_destroy = vec![Scope::One(0), Scope::One(1), Scope::All];
        c.worlds = 2;
    });
    out.push(Scenario::new(
        "c01-alphabet",
        "every way to create and destroy, ecs_iter_destroy! with all decisions, clone; three archetypes",
        move |ch| history(ch, &cfg, &full),
    ));
    for a in 0..2 {
        let cfg = HistCfg::new(tier.depth(6, 8), &[a], &[&[0, 0, 0], &[2, 2, 2]]).with(|c| {
            c.ways = (0..8).collect();
            c.max_live = 4;
        });
        out.push(Scenario::new(
            format!("c01-ways-{a}"),
            "create and destroy by any of the eight ways, one archetype",
            move |ch| history(ch, &cfg, &full),
        ));
        let cfg = HistCfg::new(tier.depth(7, 9), &[a], caps).with(|c| {
            c.decisions = vec![0, 2, 3];
            c.iter_destroy = vec![Scope::One(a)];
            c.max_live = 4;
        });
        out.push(Scenario::new(
            format!("c01-loops-{a}"),
            "create, destroy and ecs_iter_destroy! with all decision sequences, one archetype",
            move |ch| history(ch, &cfg, &full),
        ));
    }
    let cfg = HistCfg::new(tier.depth(7, 9), &[0], &[&[0, 0, 0], &[2, 0, 0], &[3, 0, 0]]).with(|c| {
        c.worlds = 2;
        c.drops = true;
    });
    out.push(Scenario::new("c01-clones", "create/destroy/clone/drop, both worlds probed", move |ch| history(ch, &cfg, &full)));
    let cfg = HistCfg::new(tier.depth(6, 8), &[0, 2], &[&[0, 0, 1], &[2, 0, 3]]).with(|c| {
        c.presets = presets(8);
        c.max_live = 3;
    });
    out.push(Scenario::new(
        "c01-generations",
        "create/destroy with generations that start next to 2^8, 2^16, 2^24, 2^31 and 2^32",
        move |ch| history(ch, &cfg, &full),
    ));
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c01", tier));
        out.extend(recycle_scenarios::<Hist>("c01", tier));
    }
    out.extend(mc::full::scenario("c01", mc::full::Focus::Handles, tier));
    out
}
