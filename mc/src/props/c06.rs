//! C06: iteration visits every matching live entity exactly once with its own data; Break ends it all.
use gecs::prelude::*;
use mc::explore::*;
use mc::harness::*;
use mc::hist::*;
use mc::scale::*;
use mc::sys::*;
use mc::worlds::sets::{self, Mac};
use mc::worlds::*;
use mc::{ensure, fail};

/// Every pass of every kind, stopped after every possible number of items.
fn probe_break(s: &mut Sys<Hist>, ch: &mut Ch) -> R {
    for a in 0..Hist::N {
        let n = s.m.live[a].len();
        for path in Scan::ALL {
            for stop in 0..n {
                let (mut items, m) = (Vec::new(), &s.m);
                s.w.scan(a, *path, &mut |item| {
                    items.push((item.entity, item.vals));
                    items.len() <= stop
                });
                check_part(m, &[a], &items, stop + 1, path.name())?;
                ch.stats.probes += 1;
            }
        }
    }
    let all: usize = s.m.live.iter().map(|l| l.len()).sum();
    for path in ScanAll::ALL {
        for stop in 0..all {
            let mut items = Vec::new();
            s.w.scan_all(*path, &mut |item| {
                items.push((item.entity, item.vals));
                items.len() <= stop
            });
            check_part(&s.m, &[0, 1, 2], &items, stop + 1, "query over all archetypes")?;
            ch.stats.probes += 1;
        }
    }
    Ok(())
}

fn check_part(m: &Model, arches: &[usize], items: &[(EntityAny, Option<Vals>)], n: usize, what: &str) -> R {
    ensure!(items.len() == n, "{what} presented {} entities although its closure broke at the {n}th", items.len());
    for (k, (any, vals)) in items.iter().enumerate() {
        let Some(e) = m.ents.iter().find(|e| e.alive && e.any == *any && arches.contains(&e.arch)) else { fail!("{what} presented {any:?}, which is not a live matching entity") };
        ensure!(items[..k].iter().all(|i| i.0 != *any), "{what} presented {any:?} twice");
        ensure!(vals.map_or(true, |v| v == e.vals), "{what} paired {any:?} with {vals:?}, its values are {:?}", e.vals);
    }
    Ok(())
}

/// Queries over archetypes that share components: complete and broken off at every item.
fn probe_sets(s: &mut Sys<Hist>, ch: &mut Ch) -> R {
    for q in 0..sets::SETS {
        let arches = sets::matched(q);
        let n: usize = arches.iter().map(|a| s.m.live[*a].len()).sum();
        for mac in sets::MACS {
            for stop in 0..=n {
                let m = &s.m;
                let mut seen: Vec<EntityAny> = Vec::new();
                let mut err: R = Ok(());
                sets::run(&mut s.w, mac, q, &mut |any, direct, bound| {
                    let mut one = || -> R {
                        let Some(e) = m.ents.iter().find(|e| e.alive && e.any == any && arches.contains(&e.arch)) else { fail!("{mac:?} query {q} presented {any:?}, which is not a live matching entity") };
                        ensure!(!seen.contains(&any), "{mac:?} query {q} presented {any:?} twice");
                        for (t, v) in bound {
                            let i = t.index(e.arch).unwrap();
                            ensure!(e.vals.v[i] == *v, "{mac:?} query {q} paired {any:?} with {t:?} = {v:x}, its value is {:x}", e.vals.v[i]);
                        }
                        if let Some(d) = direct {
                            ensure!(d.archetype_id() == any.archetype_id(), "{mac:?} query {q} paired {any:?} with a direct handle of archetype {}", d.archetype_id());
                        }
                        Ok(())
                    };
                    let r = one();
                    if r.is_err() && err.is_ok() {
                        err = r;
                    }
                    seen.push(any);
                    (seen.len() > stop || err.is_err()) as u8
                });
                err?;
                let want = n.min(stop + 1);
                ensure!(seen.len() == want, "{mac:?} query {q} over archetypes {arches:?} presented {} of {n} entities, should have been {want}", seen.len());
                ch.stats.probes += 1;
            }
        }
    }
    Ok(())
}

/// Every short script of iterator calls answers as it would on a list in the same order.
fn probe_scripts(s: &mut Sys<Hist>, a: usize, len: usize, ch: &mut Ch) -> R {
    let n = s.m.live[a].len();
    let mut steps = vec![It::Next, It::Hint, It::Take(1), It::Take(2), It::Skip(1), It::Any(1)];
    for k in 0..=n + 1 {
        steps.push(It::Nth(k));
    }
    let ends: Vec<Option<It>> = std::iter::once(None).chain(It::ENDS.into_iter().map(Some)).collect();
    for mutable in [false, true] {
        let Ev::Items(list) = s.w.iter_script(a, mutable, &[It::Rest]).remove(0) else { unreachable!() };
        ensure!(list.len() == n, "iteration by for_each presents {} of {n} entities", list.len());
        for k in 0..=len {
            for code in 0..steps.len().pow(k as u32) {
                let mut script: Vec<It> = Vec::new();
                let mut c = code;
                for _ in 0..k {
                    script.push(steps[c % steps.len()]);
                    c /= steps.len();
                }
                for end in ends.iter().copied() {
                    let mut script = script.clone();
                    script.extend(end);
                    let got = s.w.iter_script(a, mutable, &script);
                    let want = run_script(list.iter().copied(), |x| x, &script);
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        let ok = match (g, w) {
                            // A size hint need not be tight, but must be right.
                            (Ev::Hint(lo, hi), Ev::Hint(n, _)) => lo <= n && hi.map_or(true, |hi| hi >= *n),
                            _ => g == w,
                        };
                        ensure!(ok, "{} of {n} entities, calls {script:?}: call {i} answers {g:?}, should be {w:?}", if mutable { "iter_mut()" } else { "iter()" });
                    }
                    ch.stats.probes += 1;
                }
            }
        }
    }
    Ok(())
}

fn passes(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_iteration(ch)?;
    }
    Ok(())
}

fn everything(ch: &mut Ch, worlds: &mut Vec<Sys<Hist>>) -> R {
    for s in worlds {
        s.probe_iteration(ch)?;
        probe_sets(s, ch)?;
        probe_break(s, ch)?;
        s.probe_iteration(ch)?;
    }
    Ok(())
}

/// Other kinds of closure results: `()` and explicit steps, early breaks inside nested queries.
fn nested(ch: &mut Ch) -> R {
    let caps = [[0, 0, 0], [4, 4, 4]][ch.choose(2)?];
    let mut s: Sys<Hist> = Sys::new(&caps);
    let n: Vec<usize> = (0..3).map(|_| ch.choose(4)).collect::<R<Vec<_>>>()?;
    for a in 0..3 {
        for _ in 0..n[a] {
            s.create(a, How::World)?;
        }
    }
    let outer_stop = ch.choose(n[0] + n[1] + 1)?;
    let inner_stop = ch.choose(n[0] + n[2] + 1)?;
    ch.note(|| format!("populations {n:?}, outer loop breaks at {outer_stop}, inner at {inner_stop}"));
    if !ch.state() {
        return Ok(());
    }
    use hist::*;
    use mc::reg::*;
    let w = &s.w;
    let (mut outer, mut pairs) = (0, 0);
    ecs_iter_borrow!(w, |_e: &EntityAny, _t: &Tok| {
        let mut inner = 0;
        ecs_iter_borrow!(w, |_v: &Val, _x: &Entity<_>| {
            inner += 1;
            pairs += 1;
            if inner > inner_stop { EcsStep::Break } else { EcsStep::Continue }
        });
        outer += 1;
        if outer > outer_stop { EcsStep::Break } else { EcsStep::Continue }
    });
    let want = (outer_stop + 1).min(n[0] + n[1]);
    let each = (inner_stop + 1).min(n[0] + n[2]);
    ensure!(outer == want, "outer loop ran {outer} times, should be {want}");
    ensure!(pairs == want * each, "inner loop ran {pairs} times, should be {}", want * each);
    let (mut unit, mut plain, mut d) = (0, 0, 0);
    ecs_iter!((&mut s.w), |_t: &mut Tok| {
        unit += 1;
    });
    ecs_iter!(&mut s.w, |_t: &Tok| {
        plain += 1;
        EcsStep::Continue
    });
    ecs_iter_destroy!(s.w, |_v: &Val| {
        d += 1;
    });
    ensure!(unit == n[0] + n[1] && plain == unit && d == n[0] + n[2], "closures without steps ran {unit}, {plain}, {d} times");
    let mut k = 0;
    ecs_iter_destroy!(s.w, |_v: &Val| {
        k += 1;
        if k > inner_stop { EcsStep::Break } else { EcsStep::Continue }
    });
    ensure!(k == each, "ecs_iter_destroy! with EcsStep ran {k} times, should be {each}");
    s.probe_iteration(ch)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = Vec::new();
    let caps: &[&[usize]] = &[&[0, 0, 0], &[1, 1, 1], &[3, 3, 3]];
    for a in 0..3 {
        let cfg = HistCfg::new(tier.depth(10, 13), &[a], caps).with(|c| c.max_live = 5);
        out.push(Scenario::new(format!("c06-history-{a}"), "create/destroy sequences of one archetype, all passes after each step", move |ch| history(ch, &cfg, &passes)));
    }
    let cfg = HistCfg::new(tier.depth(5, 7), &[0, 1, 2], &[&[0, 1, 2], &[2, 0, 0]]).with(|c| {
        c.ways = vec![0, 7];
        c.iter_destroy = vec![Scope::One(0), Scope::All];
        c.decisions = vec![0, 2, 3];
        c.worlds = 2;
    });
    out.push(Scenario::new(
        "c06-break",
        "three archetypes: all passes and shared-component queries, complete and stopped after every number of items",
        move |ch| history(ch, &cfg, &everything),
    ));
    let cfg = HistCfg::new(tier.depth(8, 9), &[0, 1, 2], &[&[0, 0, 0]]).with(|c| c.ways = vec![]);
    out.push(Scenario::new(
        "c06-populations",
        "every order of creating entities in three archetypes, everything stopped everywhere",
        move |ch| history(ch, &cfg, &everything),
    ));
    let (len, depth) = (tier.depth(3, 4), tier.depth(6, 7));
    for a in 0..2 {
        let cfg = HistCfg::new(depth, &[a], &[&[0, 0, 0], &[5, 5, 5]]).with(|c| c.max_live = 4);
        out.push(Scenario::new(
            format!("c06-iterators-{a}"),
            "all scripts of next/nth/size_hint/take/count/last/for_each on iter and iter_mut",
            move |ch| history(ch, &cfg, &|ch: &mut Ch, w: &mut Vec<Sys<Hist>>| probe_scripts(&mut w[0], a, len, ch)),
        ));
    }
    out.push(Scenario::new("c06-nested", "nested loops over shared borrows broken off everywhere; all result types of closures", nested));
    let max = if cfg!(feature = "comp32") { 32 } else { 16 };
    for n in 1..=max {
        let depth = if n <= 10 { tier.depth(3, 4) } else { tier.depth(2, 3) };
        out.push(Scenario::new(format!("c06-shape-{n}"), format!("archetype of {n} components: all passes"), move |ch| super::shapes::run(n, ch, depth)));
    }
    if !tier.mini() {
        out.extend(scale_scenarios::<Hist>("c06", tier));
    }
    out.extend(mc::full::scenario("c06", mc::full::Focus::Iteration, tier));
    out
}

#[allow(unused)]
fn _uses(_: Mac) {}
