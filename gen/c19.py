"""C19: features and build profiles change nothing but what they document.

One program (mc/src/bin/c19.rs) holds the explorations of all other properties, plus scenarios that condense all the
API shows into digests. It is built in every combination of features and debug assertions; the explorations must find
nothing in any of them, and the digests must be the same in all. Client programs are compiled and run in all of them.
"""
import concurrent.futures
import itertools
import json
import os
import subprocess
import time

import __main__ as ck
import emit
from programs import Batch, Runner, Unit, book
from rust import Toolchain, parallel

FEATURES = [("ev", "events"), ("comp32", "32_components"), ("wrapping", "wrapping_version")]


def combos():
    """(features of mc, features of gecs, release) in all 16 combinations."""
    for release in (False, True):
        for on in itertools.product((False, True), repeat=3):
            yield tuple(f[0] for f, x in zip(FEATURES, on) if x), tuple(f[1] for f, x in zip(FEATURES, on) if x), release


def config(mine, release, lean=True, profile=None):
    return ck.Config(profile or ("mini-release" if release else "mini"), mine + (("lean",) if lean else ()))


# ---------------------------------------------------------------------------------------------------------------------
# Digests

def overflows_alike(a, b):
    return ("wrapping" in a.features) == ("wrapping" in b.features)


def comparable(name, a, b):
    return name != "c19-overflow" or overflows_alike(a, b)


def dump(c, name, tier):
    r = subprocess.run([c.exe("c19"), "--tier", tier, "--exact", name, "--dump"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=ck.VERIF)
    out = {}
    for line in r.stdout.splitlines():
        if line.startswith("OBS "):
            f = line.split(" ")
            out[tuple(int(x) for x in f[1].split(",") if x)] = f[2]
    return out


def trace(c, name, path, tier):
    r = subprocess.run([c.exe("c19"), "--tier", tier, "--replay", name, "--path", ",".join(map(str, path))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=ck.VERIF)
    return r.stdout


def differ(res, tier, a, na, b, nb):
    """Two builds (or two widths) show different things: find the first history on which they do."""
    da, db = dump(a, na, tier), dump(b, nb, tier)
    paths = [p for p in sorted(set(da) | set(db), key=lambda p: (len(p), p)) if da.get(p) != db.get(p)]
    if not paths:
        raise ck.Broken(f"{na} [{a.name}] and {nb} [{b.name}] differ in their digests, but in no observation")
    p = paths[0]
    ta, tb = trace(a, na, p, tier), trace(b, nb, p, tier)
    what = f"{na} [{a.name}] and {nb} [{b.name}] show different things of the same history {','.join(map(str, p))}"
    text = [f"property {res.prop}", what, "", f"--- {a.name}", ta, "", f"--- {b.name}", tb, "", "replay (builds as in the check):",
            f"  {a.exe('c19')} --tier {tier} --replay {na} --path '{','.join(map(str, p))}'",
            f"  {b.exe('c19')} --tier {tier} --replay {nb} --path '{','.join(map(str, p))}'", ""]
    path = ck.write_replay(res.prop, f"{a.name}-{b.name}-{na}", "\n".join(text))
    res.violations.append((path, what))


def digests(res, configs, tier):
    """Runs the digest scenarios in every build and compares."""
    found = {}
    for c in configs:
        n = len(res.scenarios)
        ck.run_bin(res, c, "c19", tier, only="c19-")
        if res.violations:
            return
        for s in res.scenarios[n:]:
            found.setdefault(s["name"], []).append((c, s["digest"], s["observations"]))
            s["name"] += " (digest)"
    compared = 0
    for name, rows in found.items():
        for c, digest, obs in rows:
            first = next(r for r in rows if comparable(name, r[0], c))
            compared += 1
            if first[1] != digest:
                return differ(res, tier, first[0], name, c, name)
    wide = [(name, rows) for name, rows in found.items() if name.startswith("c19-wide-")]
    for name, rows in wide[1:]:
        if rows[0][1] != wide[0][1][0][1]:
            return differ(res, tier, wide[0][1][0][0], wide[0][0], rows[0][0], name)
    res.add("digests_compared", compared)
    res.add("observations_compared", sum(r[2] for rows in found.values() for r in rows))


# ---------------------------------------------------------------------------------------------------------------------
# Client programs

HEAD = """#![forbid(unsafe_code)]
#![allow(warnings)]
use gecs::prelude::*;
"""

SHARED = """
pub trait Num { fn n(&self) -> u64; fn set(&mut self, v: u64); fn new(v: u64) -> Self; }
macro_rules! comps { ($($c:ident)*) => { $( #[derive(Clone, Debug, PartialEq)] pub struct $c(pub u64); impl Num for $c { fn n(&self) -> u64 { self.0 } fn set(&mut self, v: u64) { self.0 = v } fn new(v: u64) -> Self { $c(v) } } )* } }
comps!(COMPS);
pub fn eq<T: PartialEq + std::fmt::Debug>(unit: u32, what: &str, got: T, want: T) {
    if got != want { println!("MISMATCH unit={unit} {what}: {got:?}, should be {want:?}"); }
}
"""

NAMES = [a + b for a in "KLMN" for b in "abcdefghijkl"]

# Names of cfgs that a user's crate may have set for features of its own: they are none of gecs's business.
USER_CFGS = ['feature="events"', 'feature="32_components"', 'feature="wrapping_version"', 'feature="default"', "debug_assertions_custom"]


def wide(q, n, keys):
    """Everything on one archetype of `n` components."""
    cs = NAMES[:n]
    f = [emit.snake(c) for c in cs]
    row = "(" + "".join(f"{c}::new(s * 64 + {i}), " for i, c in enumerate(cs)) + ")"
    want = "vec![" + ", ".join(f"s * 64 + {i}" for i in range(n)) + "]"
    got = lambda pre="", post=".n()": "vec![" + ", ".join(f"{pre}{x}{post}" for x in f) + "]"
    par = lambda m: ", ".join(f"{x}: &{m}{c}" for x, c in zip(f, cs))
    return f"""pub mod u{q} {{ use super::*; use gecs::prelude::*;
ecs_world! {{ ecs_name!(W{q}); ecs_archetype!(Arch, {", ".join(cs)}); }}
fn row(s: u64) -> ({"".join(c + ", " for c in cs)}) {{ {row} }}
fn want(s: u64) -> Vec<u64> {{ {want} }}
pub fn check() {{
  let mut w = W{q}::with_capacity(W{q}Capacity {{ arch: 1 }});
  let mut es: Vec<(Entity<Arch>, u64)> = (1..=3).map(|s| (w.create::<Arch>(row(s)), s)).collect();
  let copy = w.clone();
  eq({q}, "destroyed", w.destroy(es[0].0).map(|d| {{ let ({", ".join(f)},) = d.into_tuple(); {got()} }}), Some(want(1)));
  let gone = es.remove(0).0;
  eq({q}, "within capacity", w.create_within_capacity::<Arch>(row(4)).map(|e| es.push((e, 4))).is_ok(), true);
  eq({q}, "len", w.archetype::<Arch>().len(), 3);
  for (e, s) in &es {{ let (e, s) = (*e, *s);
    eq({q}, "ecs_find!", ecs_find!(w, e, |{par("mut ")}| {got()}), Some(want(s)));
    eq({q}, "ecs_find_borrow!", ecs_find_borrow!(w, e, |{par("mut ")}| {got()}), Some(want(s)));
    eq({q}, "view", w.view(e).map(|v| {got("v.")}), Some(want(s)));
    eq({q}, "borrow", w.borrow(e).map(|b| vec![{", ".join(f"Borrow::component::<{c}>(&b).n()" for c in cs)}]), Some(want(s)));
    let i = w.arch.resolve(e).unwrap();
    eq({q}, "slices", vec![{", ".join(f"w.arch.get_slice::<{c}>()[i].n()" for c in cs)}], want(s));
    eq({q}, "borrowed slices", vec![{", ".join(f"w.arch.borrow_slice::<{c}>()[i].n()" for c in cs)}], want(s));
    let a = w.arch.get_all_slices_mut(); eq({q}, "all slices", {got("a.", "[i].n()")}, want(s));
  }}
  eq({q}, "stale", w.contains(gone), false);
  let mut seen = 0;
  for (e, {", ".join(f)}) in w.arch.iter() {{ let s = es.iter().find(|x| x.0 == *e).unwrap().1; eq({q}, "iter", {got()}, want(s)); seen += 1; }}
  for (e, {", ".join(f)}) in w.arch.iter_mut() {{ let s = es.iter().find(|x| x.0 == *e).unwrap().1; eq({q}, "iter_mut", {got()}, want(s)); seen += 1; }}
  ecs_iter!(w, |e: &Entity<Arch>, {par("")}| {{ let s = es.iter().find(|x| x.0 == *e).unwrap().1; eq({q}, "ecs_iter!", {got()}, want(s)); seen += 1; }});
  ecs_iter_borrow!(w, |e: &Entity<Arch>, {par("mut ")}| {{ let s = es.iter().find(|x| x.0 == *e).unwrap().1; eq({q}, "ecs_iter_borrow!", {got()}, want(s)); seen += 1; }});
  ecs_iter_destroy!(w, |e: &Entity<Arch>, {par("mut ")}| {{ let s = es.iter().find(|x| x.0 == *e).unwrap().1; eq({q}, "ecs_iter_destroy!", {got()}, want(s)); seen += 1; if s == 2 {{ EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }});
  eq({q}, "visits", seen, 15);
  eq({q}, "len after the loop", w.arch.len(), 2);
  eq({q}, "the clone", copy.archetype::<Arch>().len(), 3);
  eq({q}, "component ids", vec![{", ".join(f"<Arch as ArchetypeHas<{c}>>::COMPONENT_ID" for c in cs)}], (0..{n}u8).collect::<Vec<_>>());
  {keys}
}} }}"""


def basic(q):
    return f"""pub mod u{q} {{ use super::*; use gecs::prelude::*;
ecs_world! {{ ecs_name!(W{q}); #[archetype_id(3)] ecs_archetype!(Foo, Ka, Kb); ecs_archetype!(Bar, Kb, #[component_id(9)] Kc); #[cfg(all())] ecs_archetype!(Baz, Kc, #[cfg(any())] Ka, #[cfg(all())] Kd); #[cfg(any())] ecs_archetype!(Gone, Ka); }}
pub fn check() {{
  let mut w = W{q}::with_capacity(W{q}Capacity {{ foo: 0, bar: 2, baz: 1 }});
  eq({q}, "ids", [Foo::ARCHETYPE_ID, Bar::ARCHETYPE_ID, Baz::ARCHETYPE_ID], [3, 4, 5]);
  eq({q}, "component ids", [ecs_component_id!(Ka, Foo), ecs_component_id!(Kb, Foo), ecs_component_id!(Kb, Bar), ecs_component_id!(Kc, Bar), ecs_component_id!(Kc, Baz), ecs_component_id!(Kd, Baz)], [0, 1, 0, 9, 0, 1]);
  let f: Vec<_> = (0..5).map(|i| w.create::<Foo>((Ka(i), Kb(10 + i)))).collect();
  let b: Vec<_> = (0..3).map(|i| w.create::<Bar>((Kb(20 + i), Kc(30 + i)))).collect();
  let z = w.create::<Baz>((Kc(40), Kd(50)));
  let mut sum = 0; let mut n = 0;
  ecs_iter!(w, |x: &mut Kb| {{ sum += x.n(); n += 1; x.0 += 100; }});
  eq({q}, "Kb", (sum, n), (10 * 5 + 10 + 63, 8));
  ecs_iter_borrow!(w, |x: &OneOf<Ka, Kc>, e: &EntityAny| {{ n += 1; sum += x.n(); }});
  eq({q}, "OneOf", (sum, n), (123 + 10 + 93 + 40, 17));
  ecs_iter_destroy!(w, |x: &Kb, e: &EntityAny| {{ if x.n() % 2 == 0 {{ EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }});
  eq({q}, "left", (w.foo.len(), w.bar.len(), w.baz.len()), (2, 1, 1));
  eq({q}, "contains", f.iter().map(|e| w.contains(*e)).collect::<Vec<_>>(), vec![false, true, false, true, false]);
  eq({q}, "contains any", b.iter().map(|e| w.contains(e.into_any())).collect::<Vec<_>>(), vec![false, true, false]);
  eq({q}, "find", ecs_find!(w, z, |x: &Kc, y: &mut Kd| x.n() + y.n()), Some(90));
  eq({q}, "find any", ecs_find_borrow!(w, b[1].into_any(), |x: &Kb| x.n()), Some(121));
  eq({q}, "select", matches!(SelectEntity::try_from(z.into_any()), Ok(SelectEntity::Baz(e)) if e == z), true);
  let d = w.to_direct(z).unwrap();
  eq({q}, "direct", w.destroy(d).map(|c| (c.kc, c.kd)), Some((Kc(40), Kd(50))));
  eq({q}, "twice", w.destroy(z).is_some(), false);
  let e = w.create::<Baz>((Kc(1), Kd(2)));
  eq({q}, "reuse", e == z, false);
  let boom = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ecs_iter_borrow!(w, |a: &Ka| {{ let x = w.foo.borrow_slice_mut::<Ka>(); }})));
  eq({q}, "conflict", boom.is_err(), true);
}} }}"""


def events(q):
    return f"""pub mod u{q} {{ use super::*; use gecs::prelude::*;
ecs_world! {{ ecs_name!(W{q}); ecs_archetype!(Foo, Ka, Kb); ecs_archetype!(Bar, Kb); }}
pub fn check() {{
  let mut w = W{q}::default();
  let f: Vec<_> = (0..4).map(|i| w.create::<Foo>((Ka(i), Kb(i)))).collect();
  let b = w.create::<Bar>((Kb(0),)); w.destroy(b); w.destroy(f[2].into_any()); let d = w.to_direct(f[0]).unwrap(); w.foo.destroy(d);
  ecs_iter_destroy!(w, |k: &Ka| if k.n() == 3 {{ EcsStepDestroy::BreakDestroy }} else {{ EcsStepDestroy::Continue }});
  eq({q}, "created", w.foo.iter_created().copied().collect::<Vec<_>>(), f.clone());
  eq({q}, "destroyed", w.foo.iter_destroyed().copied().collect::<Vec<_>>(), vec![f[2], f[0], f[3]]);
  eq({q}, "created, bar", w.bar.iter_created().copied().collect::<Vec<_>>(), vec![b]);
  let mut all: Vec<EntityAny> = w.iter_created().copied().collect(); all.sort_by_key(|e| e.raw());
  let mut want: Vec<EntityAny> = f.iter().map(|e| e.into_any()).chain([b.into_any()]).collect(); want.sort_by_key(|e| e.raw());
  eq({q}, "created, world", all, want);
  eq({q}, "destroyed, world", w.iter_destroyed().count(), 4);
  w.bar.clear_events(); eq({q}, "cleared bar", (w.bar.iter_created().count(), w.bar.iter_destroyed().count(), w.foo.iter_created().count()), (0, 0, 4));
  w.clear_events(); eq({q}, "cleared", (w.iter_created().count(), w.iter_destroyed().count()), (0, 0));
  eq({q}, "left", w.foo.len(), 1);
}} }}"""


EVENT_CALLS = ["w.iter_created();", "w.iter_destroyed();", "w.clear_events();", "w.foo.iter_created();", "w.foo.iter_destroyed();", "w.foo.clear_events();",
               "World::iter_created(w);", "World::clear_events(w);", "Archetype::iter_created(&w.foo);", "Archetype::clear_events(&mut w.foo);"]

REJECTED = ["ecs_iter!(w, |e: &mut EntityAny| {});", "ecs_iter!(w, |a: &Ka, b: &Kc| {});", "ecs_iter!(w, |a: &OneOf<Ka, Kb>| {});", "ecs_iter_borrow!(w, |e: &mut Entity<Foo>| {});",
            "ecs_iter!(w, |a: &mut Ka, b: &mut Ka| {});", "let e = w.foo.entities()[0]; let v = w.view(e).unwrap(); w.destroy(e); v.entity();", "w.view(w.foo.entities()[0].into_any());"]


def units(gecs, thorough):
    """(positive units, negative units): which programs must be accepted with these features of gecs."""
    good, bad = [], []

    def add(text, desc, ok, call=True):
        q = len(good) + len(bad) + 1
        (good if ok else bad).append(Unit(q, desc, text(q), f"u{q}::check()" if ok and call else None))

    limit = 32 if "32_components" in gecs else 16
    widths = list(range(1, 41)) if thorough else sorted({1, 16, limit // 2 + 1, limit, limit + 1, 31, 32, 33, 40})
    for n in widths:
        add(lambda q: wide(q, n, ""), f"a world whose archetype has {n} components", n <= limit)
    add(basic, "cfgs, ids, queries, handles", True)
    if "events" in gecs:
        add(events, "event logs", True)
    world = "ecs_world! {{ ecs_name!(V{q}); ecs_archetype!(Foo, Ka, Kb); ecs_archetype!(Bar, Kc); }}"
    for call in EVENT_CALLS:
        add(lambda q: f"pub mod u{q} {{ use super::*; use gecs::prelude::*;\n{world.format(q=q)}\npub fn check(w: &mut V{q}) {{ {call} }}\n}}", f"`{call}`", "events" in gecs, call=False)
    for call in REJECTED:
        add(lambda q: f"pub mod u{q} {{ use super::*; use gecs::prelude::*;\n{world.format(q=q)}\npub fn check(w: &mut V{q}) {{ {call} }}\n}}", f"`{call}`", False)
    # Implementations of the user's own that would collide with methods that are not there.
    add(lambda q: f"pub mod u{q} {{ use super::*; use gecs::prelude::*;\n{world.format(q=q)}\npub struct Mine(pub V{q}); impl Mine {{ pub fn clear_events(&mut self) {{}} }}\npub fn check() {{ Mine(V{q}::default()).clear_events() }}\n}}", "own methods of the same names", True)
    return good, bad


class Prebuilt(Toolchain):
    """The gecs that a harness build contains."""

    def __init__(self, config, gecs, release):
        super().__init__(gecs, f"programs-C19-{config.name}", release=release)
        self.config = config

    def cargo(self):
        return self.config.cargo(["c19"]) + ["--message-format=json-render-diagnostics"], ck.cargo_env(self.config.target, self.config.flags)


def programs(res, configs, thorough):
    t0 = time.time()
    tcs = [Prebuilt(c, gecs, release) for c, (_, gecs, release) in zip(configs, combos())]
    parallel([lambda t=t: t.build(rt=False) for t in tcs])
    groups, runners, jobs = {}, [], []
    for tc in tcs:
        r = Runner(res, "C19", tc)
        runners.append(r)
        good, bad = units(tc.features, thorough)
        profile = "release" if tc.release else "debug"
        # What a user's own cfgs could change is decided when expanding.
        own = not tc.release and (thorough or len(tc.features) in (0, 3))
        for cfgs in ((), tuple(USER_CFGS))[:1 + own]:
            g = groups.setdefault(f"client programs, user's own cfgs {'set' if cfgs else 'not set'}, {profile}", {"what": "programs accepted and run, or rejected, as each feature combination documents", "good": 0, "bad": 0, "states": 0, "sample": good[-1].desc})
            g["good"] += len(good)
            g["bad"] += len(bad)
            g["states"] += len(good) + len(bad)
            name = f"{tc.config.name}-{'own' if cfgs else 'no'}-cfgs"
            shared = SHARED.replace("COMPS", " ".join(NAMES))
            jobs.append(lambda r=r, b=Batch(name, HEAD, shared, good, cfgs=cfgs): r.run(b))
            jobs.append(lambda r=r, b=Batch(name + "-rejected", HEAD, shared, bad, cfgs=cfgs, negative=True, link=False): r.run(b))
    jobs = [lambda j=j: None if res.violations else j() for j in jobs]
    parallel(jobs)
    for r in runners:
        for k, v in r.stats.items():
            res.add(k, v)
    book(res, groups, t0)


# ---------------------------------------------------------------------------------------------------------------------

def build(res, configs):
    """Builds all; a configuration that alone does not build is a violation."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as pool:
        futs = [(c, pool.submit(c.build, ["c19"], 2)) for c in configs]
    failed = [(c, f.exception()) for c, f in futs if f.exception()]
    for c, e in failed:
        if not isinstance(e, ck.BuildFailed):
            raise e
    if len(failed) == len(configs):
        raise failed[0][1]
    for c, e in failed:
        path = ck.write_replay(res.prop, f"{c.name}-build", f"property {res.prop}\nThe harness, which uses documented API only, builds in other configurations but not in {c.name}:\n\n{e.log}")
        res.violations.append((path, f"the harness does not build in configuration {c.name}, but it does in others"))
        return


def timed(what, t=[time.time()]):
    if os.environ.get("MC_TIMES"):
        print(f"{what}: {time.time() - t[0]:.1f} s", flush=True)
    t[0] = time.time()


def run(res, spec):
    thorough = res.tier == "thorough"
    configs = [config(mine, release) for mine, _, release in combos()]
    timed("start")
    build(res, configs)
    timed("build")
    if res.violations:
        return
    digests(res, configs, "quick" if thorough else "mini")
    if res.violations:
        return
    timed("digests")
    programs(res, configs, thorough)
    timed("programs")
    if res.violations:
        return
    # Every triple of (feature or profile) settings occurs in the half of even parity.
    for c, (mine, _, release) in zip(configs, combos()):
        if thorough or (len(mine) + release) % 2 == 0:
            ck.run_bin(res, c, "c19", "micro")
            if res.violations:
                return
    timed("explorations")
    if thorough:
        deep = [config(("wrapping",), False, False, "deep"), config(("ev", "comp32", "wrapping"), False, False, "deep"),
                config(("ev", "wrapping"), True, False, "deep-release"), config(("comp32",), True, False, "deep-release")]
        build(res, deep)
        for c in deep:
            if not res.violations:
                ck.run_bin(res, c, "c19", "mini")
        if not res.violations:
            # Without any preset: 2^32 real cycles.
            c = ck.Config("release", ("wrapping",))
            c.build(["c08"])
            ck.run_bin(res, c, "c08", "thorough", only="c08-wrap")
    # Findings recorded under another property are that property's.
    listed = {key for _, key in ck.known_findings()}
    res.known = [k for k in res.known if k.partition(" ")[0] not in listed]
