//! C17: event logs record exactly the creations and destructions since the last clear.
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::*;

#[cfg(all(feature = "ev", not(feature = "lean")))]
#[path = "manyevents.rs"]
mod manyevents;

fn logs(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_events(ch)?;
        s.probe_counts(ch)?;
    }
    Ok(())
}

fn full(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_events(ch)?;
        s.probe_quick(ch)?;
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    if !cfg!(feature = "ev") {
        return out;
    }
    let caps: &[&[usize]] = &[&[0, 0, 0], &[2, 2, 2]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(10, 11), &[a], caps).with(|c| c.clear_events = true);
        out.push(Scenario::new(format!("c17-deep-{a}"), "create/destroy/clear sequences of one archetype", move |ch| history(ch, &cfg, &logs)));
    }
    for a in 0..2 {
        let cfg = HistCfg::new(tier.depth(5, 6), &[a], caps).with(|c| {
            c.hows = How::ALL.to_vec();
            c.ways = (0..8).collect();
            c.clear_events = true;
            c.max_live = 3;
        });
        out.push(Scenario::new(format!("c17-ways-{a}"), "every way to create and destroy, refused creations included", move |ch| history(ch, &cfg, &full)));
        let cfg = HistCfg::new(tier.depth(8, 9), &[a], caps).with(|c| {
            c.iter_destroy = vec![Scope::One(a)];
            c.decisions = vec![0, 2, 3];
            c.max_live = 4;
        });
        out.push(Scenario::new(format!("c17-loops-{a}"), "create, destroy, ecs_iter_destroy! with all decision sequences", move |ch| history(ch, &cfg, &full)));
    }
    let cfg = HistCfg::new(tier.depth(5, 6), &[0, 1, 2], &[&[0, 1, 2]]).with(|c| {
        c.ways = vec![0, 1];
        c.iter_destroy = vec![Scope::One(1), Scope::All];
        c.decisions = vec![0, 2];
        c.clear_events = true;
        c.max_live = 2;
        c.worlds = 2;
    });
    out.push(Scenario::new("c17-world", "three archetypes: logs of the world and of each archetype, clones", move |ch| history(ch, &cfg, &full)));
    let cfg = HistCfg::new(tier.depth(7, 8), &[0, 1, 2], &[&[0, 0, 0]]).with(|c| c.clear_events = true);
    let len = tier.depth(2, 3);
    let cfg2 = HistCfg::new(tier.depth(5, 6), &[0, 1, 2], &[&[0, 0, 0]]).with(|c| c.clear_events = true);
    out.push(Scenario::new("c17-scripts", "all scripts of next/nth/skip/size_hint/take/any/count/last/fold/step_by on the world's event iterators", move |ch| {
        history(ch, &cfg2, &|ch: &mut Ch, w: &mut Vec<Sys<Hist>>| w[0].probe_event_scripts(len, ch))
    }));
    out.push(Scenario::new("c17-size-hints", "world iterators at every position for every distribution of events over archetypes", move |ch| history(ch, &cfg, &logs)));
    #[cfg(all(feature = "ev", not(feature = "lean")))]
    if !tier.micro() {
        out.extend(manyevents::scenarios(tier));
    }
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c17", tier));
    }
    out
}
