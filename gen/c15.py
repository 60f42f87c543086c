"""C15: archetype and component ids follow the discriminant rule and are unique."""
import itertools
import time

import emit
import model as m
from c05 import NAMES
from programs import Batch, Runner, Unit, book
from rust import Toolchain

COMPS = ["Pos", "PosX", "XPos", "XPosX", "Os", "Vel"]


def text(qid, world, plain, spell=lambda c: c, via=0, pre=""):
    """A module that declares the world and compares every id. `plain`: the world as it counts; None if it must be rejected."""
    w = world.name
    out = [f"pub mod u{qid} {{ use gecs::prelude::*; use rt::*;", pre, emit.decl(world, spell, qid if plain is not None or qid % 2 else 0)]
    if plain is None:
        return "\n".join(out) + "\n}"
    ids = m.ids(plain)
    for (a, cs), arch in zip(ids, plain.archs):
        out.append(f"const _: () = assert!({arch.name}::ARCHETYPE_ID == {a});")
        for c, comp in zip(cs, arch.comps):
            out.append(f"const _: () = assert!(<{arch.name} as ArchetypeHas<{comp.name}>>::COMPONENT_ID == {c} && ecs_component_id!({comp.name}, {arch.name}) == {c});")
    out.append(f"pub fn check(r: &mut Rec) {{ let mut w = {w}::with_capacity({w}Capacity {{ {', '.join(emit.snake(a.name) + ': 1' for a in plain.archs)} }});")
    for i, ((a, cs), arch) in enumerate(zip(ids, plain.archs)):
        vals = "".join(f"{c.name}::make({j}), " for j, c in enumerate(arch.comps))
        out.append(f"  {{ let e = w.create::<{arch.name}>(({vals})); let any = e.into_any(); let d = w.to_direct(e).unwrap();")
        out.append(f"    for x in [e.archetype_id(), any.archetype_id(), d.archetype_id(), d.into_any().archetype_id(), {arch.name}::ARCHETYPE_ID] {{ r.eq({qid}, \"archetype id of {arch.name}\", x as u64, {a}); }}")
        out.append(f"    r.eq({qid}, \"SelectEntity of {arch.name}\", matches!(SelectEntity::try_from(any), Ok(SelectEntity::{arch.name}(x)) if x == e) as u64, 1);")
        out.append(f"    r.eq({qid}, \"SelectEntityDirect of {arch.name}\", matches!(SelectEntityDirect::try_from(d.into_any()), Ok(SelectEntityDirect::{arch.name}(x)) if x == d) as u64, 1);")
        out.append(f"    r.eq({qid}, \"SelectArchetype of {arch.name}\", matches!(SelectArchetype::try_from(any), Ok(SelectArchetype::{arch.name})) as u64, 1);")
        for c, comp in zip(cs, arch.comps):
            out.append(f"    r.eq({qid}, \"COMPONENT_ID of {comp.name} in {arch.name}\", <{arch.name} as ArchetypeHas<{comp.name}>>::COMPONENT_ID as u64, {c});")
            out.append(f"    r.eq({qid}, \"ecs_component_id!({comp.name}, {arch.name})\", ecs_component_id!({comp.name}, {arch.name}) as u64, {c});")
        out.append("  }")
    arms = "".join(f"Ok(SelectArchetype::{a.name}) => {i}, " for i, a in enumerate(plain.archs))
    want = "".join(f"{a} => {i}, " for i, (a, _) in enumerate(ids))
    out.append(f"  for id in 0..=255u8 {{ let got = match SelectArchetype::try_from(id) {{ {arms} Err(_) => 999u64 }}; let want = match id {{ {want} _ => 999u64 }}; r.eq({qid}, \"SelectArchetype of an id\", got, want); }}")
    # ecs_component_id! of the matched archetype, by one of the macros.
    names = sorted({c.name for a in plain.archs for c in a.comps})
    forms = ["ecs_iter!(w, |{p}| {{ {b} }});", "ecs_iter_borrow!(w, |{p}| {{ {b} }});", "ecs_iter_destroy!(w, |{p}| {{ {b} EcsStepDestroy::Continue }});",
             "for k in {ks} {{ ecs_find!(w, k, |{p}| {{ {b} }}); }}", "for k in {ks} {{ ecs_find_borrow!(w, k, |{p}| {{ {b} }}); }}"]
    ks = "[" + ", ".join(f"w.{emit.snake(a.name)}.entities()[0].into_any()" for a in plain.archs) + "]"
    for j, c in enumerate(names):
        want = "".join(f"{a} => {cs[[x.name for x in arch.comps].index(c)]}, " for (a, cs), arch in zip(ids, plain.archs) if c in [x.name for x in arch.comps])
        body = f"let want: u64 = match e.archetype_id() {{ {want} _ => 998 }}; r.eq({qid}, \"ecs_component_id!({c})\", ecs_component_id!({c}) as u64, want); n += 1;"
        count = sum(c in [x.name for x in a.comps] for a in plain.archs)
        out.append("  { let mut n = 0u64; " + forms[(via + j) % 5].format(p=f"c: &{c}, e: &EntityAny", b=body, ks=ks) + f" r.eq({qid}, \"number of archetypes with {c}\", n, {count}); }}")
    out.append("}\n}")
    return "\n".join(out)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def describe(world):
    return " ".join(emit.decl(world).split())


class Gen:
    def __init__(self):
        self.good, self.bad, self.n, self.groups = [], [], 0, {}

    def add(self, group, what, world, truth=None):
        truth = truth or {"all()": True, "any()": False}
        plain = m.strip(world, truth)
        if not plain.archs or any(not a.comps for a in plain.archs):
            return
        self.n += 1
        try:
            m.ids(plain)
        except m.Reject:
            plain = None
        g = self.groups.setdefault(group, {"what": what, "good": 0, "bad": 0, "states": 0, "sample": describe(world)})
        g["states"] += sum(1 + len(a.comps) for a in world.archs)
        g["good" if plain else "bad"] += 1
        u = Unit(self.n, describe(world), text(self.n, world, plain, via=self.n), f"u{self.n}::check(&mut r)" if plain else None)
        (self.good if plain else self.bad).append((u, sum(len(a.comps) + 2 for a in plain.archs) if plain else 1))

    def batches(self, tag, link=True):
        out, cur, size = [], [], 0
        for u, s in self.good:
            cur.append(u)
            size += s
            if size > 90:
                out.append(cur)
                cur, size = [], 0
        if cur:
            out.append(cur)
        init = "    let mut r = Rec::default();\n"
        res = [Batch(f"{tag}-{i}", emit.HEAD, "", us, init) for i, us in enumerate(out)]
        res += [Batch(f"{tag}-neg-{i}", emit.HEAD, "", us, negative=True, link=False) for i, us in enumerate(chunks([u for u, _ in self.bad], 300))]
        return res


def arch_seq(k, seq):
    """A world whose archetypes have these explicit ids; items are id | None or (id | None, enabled)."""
    archs = []
    for i, it in enumerate(seq):
        ident, on = it if isinstance(it, tuple) else (it, None)
        cfg = () if on is None else (("all()",) if on else ("any()",))
        archs.append(m.Arch(NAMES[(i + k) % len(NAMES)], (m.Comp(COMPS[i % 3]),) + ((m.Comp(COMPS[3]),) if (i + k) % 4 == 0 else ()), ident, cfg))
    return m.World(f"A{k}", tuple(archs))


def comp_arch(k, name, seq):
    comps = []
    for i, it in enumerate(seq):
        ident, on = it if isinstance(it, tuple) else (it, None)
        comps.append(m.Comp(COMPS[(i + k) % 6], ident, () if on is None else (("all()",) if on else ("any()",))))
    return m.Arch(name, tuple(comps))


def run(res, spec):
    thorough = res.tier == "thorough"
    tc = Toolchain((), "programs-C15").build()
    t0 = time.time()
    g = Gen()
    k = 0

    def seqs(dom, lens):
        return [s for n in lens for s in itertools.product(dom, repeat=n)]

    doms = [(seqs([None, 0, 1, 2, 254, 255], (1, 2, 3)), "explicit archetype ids from {0,1,2,254,255} or none, up to 3 archetypes"),
            (seqs([None, 0, 1, 3], (4,) if not thorough else (4, 5)), "4 (thorough: and 5) archetypes"),
            (seqs([None, 5, 253, 255], (4,)), "4 archetypes near 255"),
            (seqs([(i, on) for i in (None, 0, 1, 255) for on in (True, False)], (2, 3) if thorough else (2,)), "with disabled archetypes")]
    if not thorough:
        # Every position of one or two disabled archetypes among three.
        doms.append(([s for s in seqs([(i, on) for i in (None, 0, 2) for on in (True, False)], (3,)) if any(not on for _, on in s) and any(i is not None for i, _ in s)],
                     "three archetypes, some disabled"))
    for lst, what in doms:
        for s in lst:
            k += 1
            g.add("archetype ids: " + what, what, arch_seq(k, s))

    # Component ids: archetypes of one world are independent scopes, so accepted ones share a world.
    doms = [(seqs([None, 0, 1, 2, 254, 255], (1, 2, 3)), "explicit component ids, up to 3 components"),
            (seqs([None, 0, 1, 3], (4,) if not thorough else (4, 5)), "4 components"),
            (seqs([None, 5, 253, 255], (4,)), "4 components near 255"),
            (seqs([(i, on) for i in (None, 0, 2, 255) for on in (True, False)], (2, 3)), "with disabled components")]
    for lst, what in doms:
        ok = []
        for s in lst:
            k += 1
            a = comp_arch(k, "Solo", s)
            plain = m.strip(m.World("X", (a,)), {"all()": True, "any()": False})
            if not plain.archs[0].comps:
                continue
            try:
                m.ids(plain)
            except m.Reject:
                g.add("component ids: " + what, what, m.World(f"Solo{k}", (a,)))
                # The same clash in the second archetype of a world.
                if k % 5 == 0:
                    g.add("component ids: " + what, what, m.World(f"Duo{k}", (m.Arch("First", (m.Comp("Pos"), m.Comp("PosX"))), a)))
                continue
            ok.append(s)
        for part in chunks(ok, 8):
            k += 1
            g.add("component ids: " + what, what, m.World(f"Many{k}", tuple(comp_arch(k + i * 5, NAMES[i], s) for i, s in enumerate(part))))

    # Counting up to and past 255; literals that are no id.
    what = "counting up to and past 255"
    one = (m.Comp("Pos"),)
    g.add(what, what, m.World("Past", tuple(m.Arch(f"Arch{i}", one) for i in range(257))))
    g.add(what, what, m.World("Tail6", (m.Arch("First", one, 250),) + tuple(m.Arch(f"Arch{i}", one) for i in range(5))))
    g.add(what, what, m.World("Tail7", (m.Arch("First", one, 250),) + tuple(m.Arch(f"Arch{i}", one) for i in range(6))))
    g.add(what, what, m.World("Down", tuple(m.Arch(f"Arch{i}", one, 255 - 17 * i) for i in range(16))))
    g.add(what, what, m.World("Into", (m.Arch("Late", one, 3), m.Arch("Early", one, 0)) + tuple(m.Arch(f"Arch{i}", one) for i in range(3))))
    g.add(what, what, m.World("Wide", (m.Arch("All", tuple(m.Comp(f"C{i}", 240 if i == 0 else None) for i in range(16))),)))
    g.add(what, what, m.World("Wider", (m.Arch("All", tuple(m.Comp(f"C{i}", 241 if i == 0 else None) for i in range(16))),)))
    g.add(what, what, m.World("Stairs", (m.Arch("All", tuple(m.Comp(f"C{i}", 250 - 16 * i if i % 3 == 0 else None) for i in range(16))),)))
    for bad in ("256", "-1", "1000", "\"1\""):
        g.n += 1
        g.bad.append((Unit(g.n, f"archetype_id({bad})", f"pub mod u{g.n} {{ use gecs::prelude::*; use rt::*; ecs_world! {{ ecs_name!(Lit{g.n}); #[archetype_id({bad})] ecs_archetype!(Foo, Pos); }} }}"), 1))
        g.n += 1
        g.bad.append((Unit(g.n, f"component_id({bad})", f"pub mod u{g.n} {{ use gecs::prelude::*; use rt::*; ecs_world! {{ ecs_name!(Lit{g.n}); ecs_archetype!(Foo, #[component_id({bad})] Pos); }} }}"), 1))

    # All 256 ids in one world: constants only.
    full = m.World("Full", tuple(m.Arch(f"Arch{i}", one) for i in range(256)))
    asserts = "".join(f"const _: () = assert!(Arch{i}::ARCHETYPE_ID == {i});\n" for i in range(256))
    fullb = Batch("full", emit.HEAD, "", [Unit(0, "256 archetypes", "pub mod full { use gecs::prelude::*; use rt::*;\n" + emit.decl(full) + "\n" + asserts + "}")], link=False)
    work = [fullb] + g.batches("ids")
    runner = Runner(res, "C15", tc)
    runner.all(work)
    g.groups[what]["good"] += 1
    g.groups[what]["states"] += 512
    book(res, g.groups, t0)
