"""C18: generated code is free of unsafe, and unsound client programs do not compile.

A client program is a few statements over one world. Its model says which data each holder (a view, a borrow, an
iterator, a slice, ..) accesses and how, and so which later statements make it unsound; every combination of a
holder, a way to reach the world, and a later statement is one program, and each unsound one has a sound twin.
"""
import itertools
import os
import subprocess
import time

import __main__ as ck
import c05
import emit
import model as m
from c15 import chunks
from programs import Batch, Runner, Unit, book
from rust import Toolchain, parallel

HEAD = """#![forbid(unsafe_code)]
#![allow(warnings)]
use gecs::prelude::*;
use std::cell::*; use std::rc::Rc; use std::sync::*; use std::marker::PhantomData;
"""

WORLD = """
#[derive(Clone)] pub struct Pos(pub u32); #[derive(Clone)] pub struct Vel(pub u32); #[derive(Clone)] pub struct Tag(pub u32);
ecs_world! { ecs_name!(W); ecs_archetype!(Foo, Pos, Vel); ecs_archetype!(Bar, Pos); ecs_archetype!(Baz, Vel, Tag); }
pub fn touch<T: ?Sized>(_: &T) {}
pub fn live<'a, T: 'a>(_: &'a (), _: T) {}
pub fn forever<T: 'static>(_: T) {}
pub trait Value { fn value(&self) -> u64; }
impl Value for Pos { fn value(&self) -> u64 { self.0 as u64 } }
impl Value for Vel { fn value(&self) -> u64 { self.0 as u64 } }
impl Value for Tag { fn value(&self) -> u64 { self.0 as u64 } }
impl<A: Archetype> Value for Entity<A> { fn value(&self) -> u64 { self.archetype_id() as u64 } }
impl<A: Archetype> Value for EntityDirect<A> { fn value(&self) -> u64 { self.archetype_id() as u64 } }
impl Value for EntityAny { fn value(&self) -> u64 { self.archetype_id() as u64 } }
impl Value for EntityDirectAny { fn value(&self) -> u64 { self.archetype_id() as u64 } }
"""

HANDLES = "e: Entity<Foo>, d: EntityDirect<Foo>, ea: EntityAny, da: EntityDirectAny, g: Entity<Bar>"


class Root:
    """A way to reach the storage: `M` exclusively, `S` shared."""

    def __init__(self, name, sig, m_path, s_path, generic=False, world=True, owned=False):
        self.name, self.sig, self.M, self.S = name, sig, m_path, s_path
        self.generic, self.world, self.owned = generic, world, owned
        self.A = "A" if generic else "Foo"
        self.new = "c()" if generic else "(Pos(1), Vel(1))"


ROOTS = [
    Root("w.archetype_mut::<A>()", f"(w: &mut W, o: &mut W, {HANDLES})", "w.archetype_mut::<Foo>()", "w.archetype::<Foo>()"),
    Root("w.field", f"(w: &mut W, o: &mut W, {HANDLES})", "w.foo", "w.foo"),
    Root("owned world", f"(mut w: W, o: &mut W, {HANDLES})", "w.foo", "w.foo", owned=True),
    Root("an archetype", f"(a: &mut Foo, {HANDLES})", "a", "a", world=False),
    Root("generic archetype", "<A: Archetype + ArchetypeHas<Pos> + ArchetypeHas<Vel>>(a: &mut A, e: Entity<A>, d: EntityDirect<A>, c: impl Fn() -> A::Components)", "a", "a", generic=True, world=False),
    Root("generic world", "<Q: World + WorldHas<A>, A: Archetype + ArchetypeHas<Pos> + ArchetypeHas<Vel>>(w: &mut Q, e: Entity<A>, d: EntityDirect<A>, c: impl Fn() -> A::Components)",
         "w.archetype_mut::<A>()", "w.archetype::<A>()", generic=True),
]


class Holder:
    """`text` binds `h`. `acc`: how it accesses component data, entity handles and the event log:
    x exclusively, s shared, rm / rs guarded by the column's RefCell (mutably / shared), absent: not at all."""

    def __init__(self, name, text, pos=None, ent=None, log=None, key=None, fields=False, world=False, escape=True, events=False, field_root=True):
        self.name, self.text, self.key, self.fields, self.world = name, text, key, fields, world
        self.acc = {"pos": pos, "ent": ent, "log": log}
        self.escape, self.events, self.field_root = escape, events, field_root

    def on(self, root):
        if root.generic and self.fields or self.world and not root.world:
            return False
        return self.field_root or not self.text.startswith("let h = w.archetype") or root.world

    def bind(self, root, key, var="h"):
        t = self.text.format(M=root.M, S=root.S, A=root.A, k=key)
        return t if var == "h" else t.replace("let h ", f"let {var} ").replace("let mut h ", f"let mut {var} ").replace("let mut v ", f"let mut v_{var} ").replace("v.comp", f"v_{var}.comp").replace(
            "let b ", f"let b_{var} ").replace("b.comp", f"b_{var}.comp").replace("b.entity", f"b_{var}.entity").replace("let h:", f"let {var}:").replace(", h", f", {var}")

    def keys(self, root):
        if self.key == "typed":
            return ["e", "d"]
        if self.key == "any":
            return ["e", "d"] if root.generic else ["e", "d", "ea", "da"]
        return [""]


H = [
    Holder("view", "let mut h = {M}.view({k}).unwrap();", "x", "s", key="any"),
    Holder("component of a view", "let mut v = {M}.view({k}).unwrap(); let h = v.component::<Pos>();", "s", key="any", escape=False),
    Holder("component_mut of a view", "let mut v = {M}.view({k}).unwrap(); let h = v.component_mut::<Pos>();", "x", key="any", escape=False),
    Holder("field of a view", "let h = {M}.view({k}).unwrap().pos;", "x", key="any", fields=True),
    Holder("entity of a view", "let h = {M}.view({k}).unwrap().entity;", None, "s", key="any", fields=True),
    Holder("borrow", "let h = {S}.borrow({k}).unwrap();", "rm", "s", key="any"),
    Holder("component of a borrow", "let b = {S}.borrow({k}).unwrap(); let h = b.component::<Pos>();", "rs", key="any", escape=False),
    Holder("component_mut of a borrow", "let b = {S}.borrow({k}).unwrap(); let h = b.component_mut::<Pos>();", "rm", key="any", escape=False),
    Holder("entity of a borrow", "let b = {S}.borrow({k}).unwrap(); let h = b.entity();", None, "s", key="any", escape=False),
    Holder("entities", "let h = {S}.entities();", None, "s"),
    Holder("an entity of entities", "let h = {S}.entities().get(0).unwrap();", None, "s"),
    Holder("iter", "let mut h = {M}.iter();", "s", "s"),
    Holder("iter_mut", "let mut h = {M}.iter_mut();", "x", "s"),
    Holder("item of iter", "let h = {M}.iter().next().unwrap();", "s", "s"),
    Holder("item of iter_mut", "let h = {M}.iter_mut().next().unwrap();", "x", "s"),
    Holder("component of an item of iter", "let (_, h, _) = {M}.iter().next().unwrap();", "s", fields=True),
    Holder("component of an item of iter_mut", "let (_, h, _) = {M}.iter_mut().next().unwrap();", "x", fields=True),
    Holder("entity of an item of iter_mut", "let h = {M}.iter_mut().next().unwrap().0;", None, "s", fields=True),
    Holder("collected iter", "let h: Vec<_> = {M}.iter().collect();", "s", "s"),
    Holder("collected iter_mut", "let h: Vec<_> = {M}.iter_mut().collect();", "x", "s"),
    Holder("get_slice", "let h = {M}.get_slice::<Pos>();", "s"),
    Holder("element of get_slice", "let h = &{M}.get_slice::<Pos>()[0];", "s"),
    Holder("get_slice_mut", "let h = {M}.get_slice_mut::<Pos>();", "x"),
    Holder("element of get_slice_mut", "let h = &mut {M}.get_slice_mut::<Pos>()[0];", "x"),
    Holder("borrow_slice", "let h = {S}.borrow_slice::<Pos>();", "rs"),
    Holder("borrow_slice_mut", "let h = {S}.borrow_slice_mut::<Pos>();", "rm"),
    Holder("all slices", "let h = {M}.get_all_slices_mut();", "x", "s"),
    Holder("component slice of all slices", "let h = {M}.get_all_slices_mut().pos;", "x", fields=True),
    Holder("element of all slices", "let h = &mut {M}.get_all_slices_mut().pos[0];", "x", fields=True),
    Holder("entity slice of all slices", "let h = {M}.get_all_slices_mut().entity;", None, "s", fields=True),
    Holder("world view", "let mut h = w.view({k}).unwrap();", "x", "s", key="typed", world=True),
    Holder("component of a world view", "let mut v = w.view({k}).unwrap(); let h = v.component::<Pos>();", "s", key="typed", world=True, escape=False),
    Holder("component_mut of a world view", "let mut v = w.view({k}).unwrap(); let h = v.component_mut::<Pos>();", "x", key="typed", world=True, escape=False),
    Holder("field of a world view", "let h = w.view({k}).unwrap().pos;", "x", key="typed", world=True, fields=True),
    Holder("world borrow", "let h = w.borrow({k}).unwrap();", "rm", "s", key="typed", world=True),
    Holder("component of a world borrow", "let b = w.borrow({k}).unwrap(); let h = b.component::<Pos>();", "rs", key="typed", world=True, escape=False),
    Holder("component_mut of a world borrow", "let b = w.borrow({k}).unwrap(); let h = b.component_mut::<Pos>();", "rm", key="typed", world=True, escape=False),
    Holder("&archetype", "let h = w.archetype::<{A}>();", "rm", "s", world=True),
    Holder("&mut archetype", "let h = w.archetype_mut::<{A}>();", "x", "s", world=True),
]

EVENT_H = [
    Holder("iter_created", "let mut h = {S}.iter_created();", log="s", events=True),
    Holder("iter_destroyed", "let mut h = {S}.iter_destroyed();", log="s", events=True),
    Holder("item of iter_created", "let h = {S}.iter_created().next().unwrap();", log="s", events=True),
    Holder("item of iter_destroyed", "let h = {S}.iter_destroyed().next().unwrap();", log="s", events=True),
    Holder("world iter_created", "let mut h = w.iter_created();", log="s", world=True, events=True),
    Holder("world iter_destroyed", "let mut h = w.iter_destroyed();", log="s", world=True, events=True),
    Holder("item of world iter_created", "let h = w.iter_created().next().unwrap();", log="s", world=True, events=True),
    Holder("item of world iter_destroyed", "let h = w.iter_destroyed().next().unwrap();", log="s", world=True, events=True),
]


def ops(root, events):
    """Structural changes of the world."""
    new = root.new
    out = [("create", f"{root.M}.create({new});"), ("create_within_capacity", f"let _ = {root.M}.create_within_capacity({new});"),
           ("destroy(Entity)", f"{root.M}.destroy(e);"), ("destroy(EntityDirect)", f"{root.M}.destroy(d);")]
    if not root.generic:
        out += [("destroy(EntityAny)", f"{root.M}.destroy(ea);"), ("destroy(EntityDirectAny)", f"{root.M}.destroy(da);")]
    if events:
        out.append(("clear_events", f"{root.M}.clear_events();"))
    if not root.world:
        t = "A" if root.generic else "Foo"
        out += [("assignment", f"*a = <{t} as Archetype>::new();"), ("mem::replace", f"drop(std::mem::replace(a, <{t} as Archetype>::with_capacity(2)));")]
        return out
    if root.generic:
        return out + [("world create", "w.create::<A>(c());"), ("world create_within_capacity", "let _ = w.create_within_capacity::<A>(c());"), ("assignment", "*w = Q::new();")]
    out += [("world create", "w.create::<Foo>((Pos(1), Vel(1)));"), ("world create_within_capacity", "let _ = w.create_within_capacity::<Foo>((Pos(1), Vel(1)));"),
            ("world create elsewhere", "w.create::<Bar>((Pos(1),));")]
    out += [(f"world destroy({k})", f"w.destroy({k});") for k in ("e", "d", "ea", "da", "g")]
    if events:
        out.append(("world clear_events", "w.clear_events();"))
    out += [("ecs_iter_destroy!", "ecs_iter_destroy!(w, |x: &EntityAny| EcsStepDestroy::ContinueDestroy);"),
            ("ecs_iter_destroy! by component", "ecs_iter_destroy!(w, |x: &mut Pos| EcsStepDestroy::ContinueDestroy);"),
            ("replacement of a field", "w.foo = Foo::new();"), ("mem::take of a field", "drop(std::mem::take(&mut w.foo));")]
    if root.owned:
        out += [("assignment", "w = W::new();"), ("drop", "drop(w);"), ("move", "let moved = w;"), ("mem::swap", "std::mem::swap(&mut w, o);")]
    else:
        out += [("assignment", "*w = W::new();"), ("mem::swap", "std::mem::swap(w, o);"), ("clone_from", "w.clone_from(o);")]
    return out


def must_reject_pair(a, b):
    """`b` is made while `a` lives: unsound unless rejected."""
    for data in ("pos", "ent", "log"):
        x, y = a.acc[data], b.acc[data]
        if not x or not y:
            continue
        if "x" in (x, y) or (x, y) in (("s", "rm"), ("rm", "s")):
            return True
    return False


class Out:
    def __init__(self):
        self.n, self.groups = 0, {}
        self.bad, self.good = {}, {}

    def add(self, group, kind, ok, desc, text):
        """`kind` separates programs whose errors stem from different compiler passes."""
        self.n += 1
        g = self.groups.setdefault(group, {"what": group, "good": 0, "bad": 0, "states": 0, "sample": desc})
        g["good" if ok else "bad"] += 1
        g["states"] += 1
        (self.good if ok else self.bad).setdefault(kind, []).append(Unit(self.n, desc, text.replace("fn u", f"pub fn u{self.n}", 1).replace("pub pub", "pub")))

    def batches(self, tag, shared, good_size=600, bad_size=300, head=HEAD):
        out = []
        for kind, us in self.good.items():
            out += [Batch(f"{tag}-{kind}-{i}", head, shared, c, link=False) for i, c in enumerate(chunks(us, good_size))]
        for kind, us in self.bad.items():
            out += [Batch(f"{tag}-{kind}-neg-{i}", head, shared, c, negative=True, link=False) for i, c in enumerate(chunks(us, bad_size))]
        return out


def straight(out, events, thorough):
    """holder; structural change; use -- and the twin with the use first."""
    holders = H + (EVENT_H if events else [])
    for root in ROOTS:
        for h in holders:
            if not h.on(root):
                continue
            for name, op in ops(root, events):
                if "clear_events" in name and not h.events:
                    continue
                for key in h.keys(root):
                    if key in ("d", "ea", "da") and not thorough and (len(name) + len(h.name)) % 3:
                        continue
                    bind = h.bind(root, key)
                    desc = f"[{root.name}] {bind} {op} use(h)"
                    out.add("structural change while holding", "held", False, desc, f"fn u{root.sig} {{ {bind} {op} touch(&h); }}")
                    out.add("structural change while holding", "held", True, desc + " -- twin: used before", f"fn u{root.sig} {{ {{ {bind} touch(&h); }} {op} }}")
    # Two worlds, and two archetypes of a world by its fields, are independent.
    root = ROOTS[1]
    for h in holders:
        if h.world:
            continue
        for key in h.keys(root):
            for op in ("o.create::<Foo>((Pos(1), Vel(1)));", "w.bar.create((Pos(1),));", "w.baz = Baz::new();"):
                bind = h.bind(root, key)
                out.add("independent structural change while holding", "held", True, f"[{root.name}] {bind} {op} use(h)", f"fn u{root.sig} {{ {bind} {op} touch(&h); }}")
    # Reading the world next to what only borrows it shared.
    for root in ROOTS[:2]:
        for h in holders:
            if h.text.format(M="?", S="", A="", k="").find("?") >= 0 or "w.view" in h.text or "archetype_mut" in h.text:
                continue
            for key in h.keys(root):
                bind = h.bind(root, key)
                op = "touch(&w.foo.len()); touch(&w.contains(e)); touch(&w.to_direct(ea)); touch(w.bar.entities()); touch(&w.foo.borrow(e)); touch(&w.clone());"
                out.add("reads while holding", "held", True, f"[{root.name}] {bind} (reads) use(h)", f"fn u{root.sig} {{ {bind} {op} touch(&h); }}")


def pairs(out, thorough):
    """Two holders at once."""
    for ri, root in enumerate(ROOTS):
        if not thorough and ri in (2, 5):
            continue
        for i, a in enumerate(H):
            for j, b in enumerate(H):
                if not a.on(root) or not b.on(root) or (not thorough and ri and (i + j) % 2 == 0):
                    continue
                ka, kb = a.keys(root), b.keys(root)
                ks = itertools.product(ka, kb) if thorough else [(ka[(i + j) % len(ka)], kb[j % len(kb)])]
                for k1, k2 in ks:
                    text = f"{a.bind(root, k1, 'h1')} {b.bind(root, k2, 'h2')} touch(&h1); touch(&h2);"
                    desc = f"[{root.name}] {text}"
                    shared = all("{S}" in x.text or "w.borrow" in x.text or "w.archetype::" in x.text for x in (a, b))
                    if must_reject_pair(a, b):
                        if shared:
                            raise ck.Broken(f"model contradicts itself: {desc}")
                        out.add("two holders at once", "pair", False, desc, f"fn u{root.sig} {{ {text} }}")
                    elif shared and a.acc["pos"] in (None, "rm", "rs"):
                        out.add("two holders at once", "pair", True, desc, f"fn u{root.sig} {{ {text} }}")
                    if k1 == ka[0] and k2 == kb[0] and must_reject_pair(a, b):
                        text = f"{{ {a.bind(root, k1, 'h1')} touch(&h1); }} {b.bind(root, k2, 'h2')} touch(&h2);"
                        out.add("two holders at once", "pair", True, f"[{root.name}] twin: {text}", f"fn u{root.sig} {{ {text} }}")
    # Within one holder.
    sig = f"(w: &mut W, {HANDLES})"
    inner = [
        ("let mut v = w.view(e).unwrap();", "v.component_mut::<Pos>()", "x"), ("let mut v = w.view(e).unwrap();", "v.component::<Pos>()", "s"),
        ("let mut v = w.view(e).unwrap();", "&mut v.pos", "x"), ("let mut v = w.view(e).unwrap();", "&v.pos", "s"), ("let mut v = w.view(e).unwrap();", "&mut *v.pos", "x"),
        ("let mut v = w.foo.get_all_slices_mut();", "&mut v.pos[0]", "x"), ("let mut v = w.foo.get_all_slices_mut();", "&v.pos[0]", "s"),
        ("let mut v = FooComponents::from((Pos(1), Vel(1)));", "v.get_mut::<Pos>()", "x"), ("let mut v = FooComponents::from((Pos(1), Vel(1)));", "v.get::<Pos>()", "s"),
        ("let mut v = w.foo.get_slice_mut::<Pos>();", "&mut v[0]", "x"), ("let mut v = w.foo.get_slice_mut::<Pos>();", "&v[0]", "s"),
        ("let mut v = w.foo.borrow_slice_mut::<Pos>();", "&mut v[0]", "x"), ("let mut v = w.foo.borrow_slice_mut::<Pos>();", "&v[0]", "s"),
        ("let b = w.borrow(e).unwrap(); let mut v = b.component_mut::<Pos>();", "&mut v.0", "x"), ("let b = w.borrow(e).unwrap(); let mut v = b.component_mut::<Pos>();", "&v.0", "s"),
    ]
    for (bind, a, x), (bind2, b, y) in itertools.product(inner, repeat=2):
        if bind != bind2:
            continue
        bad = "x" in (x, y)
        text = f"{bind} let h1 = {a}; let h2 = {b}; touch(&*h1); touch(&*h2);"
        out.add("two accesses through one holder", "pair", not bad, text, f"fn u{sig} {{ {text} }}")
        if bad:
            text = f"{bind} {{ let h1 = {a}; touch(&*h1); }} let h2 = {b}; touch(&*h2);"
            out.add("two accesses through one holder", "pair", True, "twin: " + text, f"fn u{sig} {{ {text} }}")
    # Different components through one view, and several items of one iterator, are independent.
    for text in ("let v = w.view(e).unwrap(); let h1 = v.pos; let h2 = v.vel; touch(h1); touch(h2); touch(v.entity);",
                 "let v = w.foo.get_all_slices_mut(); let h1 = v.pos; let h2 = v.vel; touch(h1); touch(h2); touch(v.entity);",
                 "let mut v = w.foo.iter_mut(); let h1 = v.next(); let h2 = v.next(); touch(&h1); touch(&h2);",
                 "let mut v = w.foo.iter(); let h1 = v.next(); let h2 = v.next(); touch(&h1); touch(&h2); drop(v); touch(&h1);",
                 "let b = w.borrow(e).unwrap(); let h1 = b.component_mut::<Pos>(); let h2 = b.component_mut::<Vel>(); touch(&h1); touch(&h2);",
                 "let b = w.borrow(e).unwrap(); let c = b; touch(&b); touch(&c);",
                 "let h1 = w.foo.view(e); let h2 = w.bar.view(g); touch(&h1); touch(&h2);"):
        out.add("independent accesses", "pair", True, text, f"fn u{sig} {{ {text} }}")
    for text in ("let v = w.view(e).unwrap(); let h1 = v.pos; let h2 = v.pos; touch(h1); touch(h2);",
                 "let v = w.view(e).unwrap(); let v2 = v; touch(&v); touch(&v2);", "let v = w.view(e).unwrap(); let v2 = v.clone(); touch(&v.pos); touch(&v2.pos);",
                 "let v = w.foo.get_all_slices_mut(); let v2 = v; touch(&v); touch(&v2);", "let v = w.foo.get_all_slices_mut(); let v2 = v.clone(); touch(&v.pos); touch(&v2.pos);",
                 "let mut v = w.foo.iter_mut(); let mut v2 = v; touch(&v.next()); touch(&v2.next());", "let mut v = w.foo.iter_mut(); let mut v2 = v.clone(); let (x, y) = (v.next(), v2.next()); touch(&x); touch(&y);",
                 "let mut v = w.foo.iter_mut().next().unwrap(); let v2 = v.1; let v3 = v.1; touch(v2); touch(v3);"):
        out.add("copies of exclusive holders", "types", False, text, f"fn u{sig} {{ {text} }}")


def escapes(out, events):
    """Holders that would outlive the world or archetype they came from."""
    for root in ROOTS:
        for h in H + (EVENT_H if events else []):
            if not h.on(root) or not h.escape or root.owned:
                continue
            for key in h.keys(root):
                bind = h.bind(root, key)
                sig = root.sig.replace("(w: &mut", "(z: &'a (), w: &'a mut").replace("(a: &mut", "(z: &'a (), a: &'a mut")
                sig = sig.replace("<", "<'a, ", 1) if root.generic else "<'a>" + sig
                tie = "" if not root.generic else (" where A: 'a" if "Q:" not in sig else " where A: 'a, Q: 'a")
                out.add("escape to 'static", "escape", False, f"[{root.name}] {bind} forever(h)", f"fn u{sig}{tie} {{ {bind} forever(h); }}")
                out.add("escape to 'static", "escape", True, f"[{root.name}] {bind} lives as long as the world", f"fn u{sig}{tie} {{ {bind} live::<'a, _>(z, h); }}")
                if not root.generic:
                    sig2 = f"({HANDLES})"
                    make = "let mut w = W::new();" if root.world else "let mut tmp = Foo::new(); let a = &mut tmp;"
                    out.add("use after the world is gone", "escape", False, f"[{root.name}] {{ {make} {bind} h }}", f"fn u{sig2} {{ let x = {{ {make} {bind} h }}; touch(&x); }}")
                    out.add("use after the world is gone", "escape", True, f"[{root.name}] twin: {make} {bind} use(h)", f"fn u{sig2} {{ {make} {bind} touch(&h); }}")


PARAMS = [("&Pos", "p.0"), ("&mut Pos", "p.0"), ("&Entity<Foo>", "*p"), ("&Entity<_>", "p.into_any()"), ("&EntityAny", "*p"), ("&EntityDirect<Foo>", "*p"),
          ("&EntityDirect<_>", "p.into_any()"), ("&EntityDirectAny", "*p"), ("&OneOf<Pos, Tag>", "p.value()"), ("&mut OneOf<Tag, Pos>", "p.value()")]


def queries(keys=("e", "d", "ea", "da")):
    out = [("ecs_iter!(w, |%s| { %s });", False, True), ("ecs_iter_borrow!(w, |%s| { %s });", True, True),
           ("ecs_iter_destroy!(w, |%s| { %s EcsStepDestroy::ContinueDestroy });", False, True)]
    for k in keys:
        out += [(f"ecs_find!(w, {k}, |%s| {{ %s }});", False, False), (f"ecs_find_borrow!(w, {k}, |%s| {{ %s }});", True, False)]
    return out


def closures(out, thorough):
    """Structural changes and second accesses from inside a query, and parameters that leave it."""
    root = ROOTS[0]
    sig = root.sig
    inner_exclusive = [("ecs_iter!", "ecs_iter!(w, |q: &Pos| { touch(q); });"), ("ecs_find!", "ecs_find!(w, g, |q: &Pos| { touch(q); });"), ("ecs_iter_destroy!", "ecs_iter_destroy!(w, |q: &EntityAny| EcsStepDestroy::ContinueDestroy);"),
                       ("view", "touch(&w.view(e));"), ("get_slice_mut", "touch(w.foo.get_slice_mut::<Pos>());"), ("archetype_mut", "touch(w.archetype_mut::<Foo>());")]
    inner_shared = ["ecs_iter_borrow!(w, |q: &mut Pos| { touch(q); });", "ecs_find_borrow!(w, g, |q: &Pos| { touch(q); });", "touch(&w.borrow(e));", "touch(w.foo.entities());", "touch(&w.foo.borrow_slice::<Vel>());"]
    for qi, (q, cell, iterates) in enumerate(queries()):
        for pi, (param, copy) in enumerate(PARAMS):
            some = "{ " if not iterates else ""
            for name, op in ops(root, False) + inner_exclusive:
                text = q % (f"p: {param}", f"{op} touch(p);")
                out.add("structural change or exclusive access inside a query", "closure", False, text, f"fn u{sig} {{ {text} }}")
                if thorough or (qi + pi) % 3 == 0:
                    if name == "mem::swap" or name == "ecs_iter_destroy!" or "ecs" in op:
                        other = op.replace("(w, o)", "(o, &mut W::new())").replace("!(w,", "!(o,")
                    else:
                        other = op.replace("w.", "o.").replace("*w", "*o")
                    if name == "clone_from":
                        other = "o.clone_from(&W::new());"
                    text = q % (f"p: {param}", f"{other} touch(p);")
                    out.add("structural change of another world inside a query", "closure", True, text, f"fn u{sig} {{ {text} }}")
            for op in inner_shared:
                text = q % (f"p: {param}", f"{op} touch(p);")
                if cell:
                    out.add("shared accesses inside a borrowing query", "closure", True, text, f"fn u{sig} {{ {text} }}")
                elif "mut" in param or "&mut" in op or "w.borrow" in op:
                    if "Entity" not in param or "ecs_find!" not in q:
                        out.add("guarded accesses inside an exclusive query", "closure", False, text, f"fn u{sig} {{ {text} }}")
            # Leaks.
            after = {True: "ecs_iter_borrow!(w, |q: &mut Pos| { touch(q); });", False: "w.create::<Foo>((Pos(1), Vel(1)));"}
            # Only one type may leave: restrict the query to one archetype, or to one of the components.
            only = f"p: {param.replace('Pos, Tag', 'Pos, Nothing').replace('Tag, Pos', 'Nothing, Pos')}" + (", x: &Pos, y: &Vel" if "<_>" in param else "")
            for op in sorted({after[cell], after[False], "w.destroy(e);"}):
                text = "let mut out = Vec::new(); " + q % (only, "out.push(p);") + f" {op} touch(&out);"
                out.add("parameters leaving a query", "closure", False, text, f"fn u{sig} {{ {text} }}")
                text = "let mut out = Vec::new(); " + q % (only, f"out.push({copy});") + f" {op} touch(&out);"
                out.add("parameters leaving a query", "closure", True, "twin: " + text, f"fn u{sig} {{ {text} }}")
            if not iterates:
                k = q.replace(";", "").replace("{ %s }", "%s")
                for op in sorted({after[cell], after[False]}):
                    text = "let out = " + k % (only, "p") + f"; {op} touch(&out);"
                    out.add("parameters leaving a query", "closure", False, text, f"fn u{sig} {{ {text} }}")
                    text = "let out = " + k % (only, copy) + f"; {op} touch(&out);"
                    out.add("parameters leaving a query", "closure", True, "twin: " + text, f"fn u{sig} {{ {text} }}")


def handles(out):
    """Entity handles cannot be written through anything the world gives out."""
    sig = f"(w: &mut W, x: Entity<Foo>, xa: EntityAny, xd: EntityDirect<Foo>, xda: EntityDirectAny, {HANDLES})"
    kinds = [("Entity<Foo>", "x"), ("Entity<_>", None), ("EntityAny", "xa"), ("EntityDirect<Foo>", "xd"), ("EntityDirect<_>", None), ("EntityDirectAny", "xda")]
    for q, _, _ in queries():
        for t, new in kinds:
            for before, after in (("", ""), ("a: &Pos, ", ""), ("", ", a: &mut Vel"), ("a: &mut Pos, ", ", b: &Vel"), ("b: &EntityAny, ", ""), ("#[cfg(all())] ", "")):
                text = q % (f"{before}p: &mut {t}{after}", "touch(p);")
                out.add("mutable entity parameters", "parse", False, text, f"fn u{sig} {{ {text} }}")
                text = q % (f"{before}p: &{t}{after}", "touch(p);")
                out.add("mutable entity parameters", "parse", True, "twin: " + text, f"fn u{sig} {{ {text} }}")
            if new:
                text = q % (f"p: &{t}", f"*p = {new};")
                out.add("writes to handles", "assign", False, text, f"fn u{sig} {{ {text} }}")
                text = q % (f"p: &{t}", f"let mut y = {new}; y = *p;")
                out.add("writes to handles", "assign", True, "twin: " + text, f"fn u{sig} {{ {text} }}")
    for place in ("*w.view(e).unwrap().entity", "w.foo.get_all_slices_mut().entity[0]", "*w.foo.iter_mut().next().unwrap().0", "*w.foo.iter().next().unwrap().0", "w.foo.entities()[0]",
                  "*w.borrow(e).unwrap().entity()", "*w.foo.view(d).unwrap().entity", "*w.foo.borrow(ea).unwrap().entity()"):
        for text in (f"{place} = x;", f"std::mem::swap(&mut {place}, &mut x);"):
            out.add("writes to handles", "assign", False, text, f"fn u{sig.replace(' x:', ' mut x:')} {{ {text} }}")
        out.add("writes to handles", "assign", True, f"let mut y = x; y = {place};", f"fn u{sig} {{ let mut y = x; y = {place}; touch(&y); }}")
    # What the storage keeps is not public.
    for text in ("touch(&gecs::__internal::DataPtr::<u32>::with_capacity(4).raw_data(4));", "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); touch(&p.ptr_data());",
                 "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); p.grow(4, 8);", "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); p.dealloc(4);",
                 "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); p.write(0, 1);", "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); touch(p.slice(4));",
                 "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); touch(p.slice_mut(4));", "let mut p = gecs::__internal::DataPtr::<u32>::with_capacity(4); touch(&p.swap_remove(0, 1));",
                 "w.foo.data.force_create((Pos(1), Vel(1)));", "w.foo.data.force_destroy(0, 0);", "w.foo.data.len = 10;", "w.foo.data.d0.borrow_mut();", "w.foo.data.slots;", "w.foo.data.grow();"):
        out.add("unchecked internals", "internals", False, text, f"fn u{sig} {{ {text} }}")


def conversions(out):
    """References to handles that are converted keep the lifetime and exclusiveness of what they came from."""
    sig = f"(w: &mut W, {HANDLES})"
    kinds = [("e", "EntityAny"), ("d", "EntityDirectAny")]
    changes = ["w.create::<Foo>((Pos(1), Vel(1)));", "w.destroy(ea);", "w.foo = Foo::new();", "*w = W::new();", "let _ = w.foo.create_within_capacity((Pos(1), Vel(1)));"]
    ways = ["let r: &{t} = ({s}).into();", "let r = <&{t}>::from({s});", "let r: &{t} = Into::<&{t}>::into({s});"]
    held = ["&w.foo.entities()[0]", "w.foo.entities().get(0).unwrap()", "w.view(e).unwrap().entity", "w.foo.iter().next().unwrap().0", "w.foo.iter_mut().next().unwrap().0", "w.foo.get_all_slices_mut().entity.get(0).unwrap()"]
    for s in held:
        for way in ways:
            bind = way.format(t="EntityAny", s=s)
            for op in changes:
                out.add("converted references", "held", False, f"{bind} {op} use(r)", f"fn u{sig} {{ {bind} {op} touch(r); }}")
                out.add("converted references", "held", True, f"twin: {bind} use(r) {op}", f"fn u{sig} {{ {{ {bind} touch(r); }} {op} }}")
                copy = bind.replace("let r", "let q") + " let r = *q;"
                out.add("converted references", "held", True, f"twin: copied: {copy} {op} use(r)", f"fn u{sig} {{ {copy} {op} touch(&r); }}")
            out.add("converted references", "escape", False, f"{bind} forever(r)", f"fn u{sig} {{ {bind} forever(r); }}")
    for k, t in kinds:
        typed = {"e": "Entity<Foo>", "d": "EntityDirect<Foo>"}[k]
        for way in ways:
            for mut in ("", "mut "):
                to = t if not mut else f"mut {t}"
                bind = way.format(t=to, s=f"&{mut}x")
                # Outliving what they refer to.
                out.add("converted references", "escape", False, f"{bind}, used after x is gone", f"fn u{sig} {{ let y; {{ let mut x = {k}; {bind} y = r; }} touch(y); }}")
                out.add("converted references", "escape", True, f"twin: {bind}", f"fn u{sig} {{ let y; {{ let mut x = {k}; {bind} y = *r; }} touch(&y); }}")
                out.add("converted references", "escape", False, f"{bind} forever(r)", f"fn u{sig} {{ let mut x = {k}; {bind} forever(r); }}")
                out.add("converted references", "escape", False, f"{bind} returned", f"fn u<'a>(w: &'a mut W, x: &{mut}{typed}) -> &'a {mut}{t} {{ x.into() }}".replace("fn u<", "fn u<", 1))
                out.add("converted references", "escape", True, f"twin: {bind} returned", f"fn u<'a>(w: &mut W, x: &'a {mut}{typed}) -> &'a {mut}{t} {{ x.into() }}")
                # Two at once.
                for other, x in (("&x", "s"), ("&mut x", "x")):
                    bad = bool(mut) or x == "x"
                    text = f"let mut x = {k}; {bind} let q = {other}; touch(&*q); touch(&*r);"
                    out.add("converted references", "pair", not bad, text, f"fn u{sig} {{ {text} }}")
                    if bad:
                        text = f"let mut x = {k}; {{ {bind} touch(&*r); }} let q = {other}; touch(&*q);"
                        out.add("converted references", "pair", True, "twin: " + text, f"fn u{sig} {{ {text} }}")
                text = f"let mut x = {k}; {bind} x = {k}; touch(&*r);"
                out.add("converted references", "assign", False, text, f"fn u{sig} {{ {text} }}")
            # No exclusive reference from a shared one, and none to another kind of handle.
            for s, to in ((f"&x", f"mut {t}"), ("w.foo.entities().get(0).unwrap()", "mut EntityAny")):
                bind = way.format(t=to, s=s)
                out.add("converted references", "types", False, bind, f"fn u{sig} {{ let mut x = {k}; {bind} touch(&*r); }}")
            other = [x[1] for x in kinds if x[1] != t][0]
            for mut in ("", "mut "):
                bind = way.format(t=mut + other, s=f"&{mut}x")
                out.add("converted references", "types", False, bind, f"fn u{sig} {{ let mut x = {k}; {bind} touch(&*r); }}")
                bind = way.format(t=f"{mut}{typed}", s=f"&{mut}x")
                a = {"e": "ea", "d": "da"}[k]
                out.add("converted references", "types", False, bind, f"fn u{sig} {{ let mut x = {a}; {bind} touch(&*r); }}")


def aliases(tag, thorough, groups, runner, tc):
    """Queries that bind one component twice, at least once mutably."""
    world = c05.world("QW", c05.subsets(c05.POOL3))
    ids = m.ids(world)
    shared = emit.decl(world) + "\n" + emit.build_fn(world, ids)
    params = c05.comp_params(c05.POOL3) + c05.oneof_params(c05.POOL3, 2 if thorough else 1)
    lists = list(itertools.product(params, repeat=2))
    some = params if thorough else params[:6] + params[6::3]
    for a, b, c in itertools.product(some, repeat=3):
        lists.append((a, b, c))
    lists += [(a, m.Param("enta"), b) for a, b in itertools.product(params, repeat=2)]
    forms = ["ecs_iter!(w, |%s| {});", "ecs_find!(w, k, |%s| {});", "ecs_iter_destroy!(w, |%s| EcsStepDestroy::Continue);", "ecs_find!(w, k.0, |%s| {});"]
    g = groups.setdefault("one component twice in a query", {"what": "all lists of two and three parameters over three components that bind one component twice, at least once mutably", "good": 0, "bad": 0, "states": 0, "sample": ""})
    bad, either = [], []
    for n, ps in enumerate(lists):
        try:
            matched = m.match(world, ps)
        except m.Reject:
            continue
        if not any(any(b[i] and b[i] == b[j] and (ps[i].mut or ps[j].mut) for i in range(len(ps)) for j in range(i)) for b in matched.values()):
            continue
        use = forms if thorough and len(ps) == 2 else forms[:3] if len(ps) == 2 else [forms[n % 4]]
        for f, form in enumerate(use):
            key = "k: EntityAny" if form != forms[3] else "k: (EntityDirectAny,)"
            text = form % emit.params(ps)
            qid = n * 4 + f
            g["bad"] += 1
            g["states"] += len(matched)
            g["sample"] = text
            bad.append(Unit(qid, f"{text} in {' '.join(emit.decl(world).split())}", f"pub fn n{qid}(w: &mut QW, {key}) {{ {text} }}"))
        if len(ps) == 2:
            # Guarded by the columns' RefCells: may be rejected, or panic when run; never hand out both.
            dirty = [i for i, b in matched.items() if any(b[x] and b[x] == b[y] and (ps[x].mut or ps[y].mut) for x in range(len(ps)) for y in range(x))]
            arch = f"[{', '.join(f'{world.archs[i].name}::ARCHETYPE_ID' for i in dirty)}]"
            for f, form in enumerate(("ecs_iter_borrow!(w, |x: &EntityAny, %s| { assert!(!%s.contains(&x.archetype_id()), \"both given out\"); });", "ecs_find_borrow!(w, k, |x: &EntityAny, %s| { assert!(!%s.contains(&x.archetype_id()), \"both given out\"); });")):
                qid = 100000 + n * 2 + f
                text = form % (emit.params(ps), arch)
                body = text if f == 0 else f"let (k, _, _) = r.keys.iter().copied().find(|k| k.0.archetype_id() == {arch}[0]).unwrap(); {text}"
                either.append(Unit(qid, text, f"pub fn n{qid}(w: &mut QW, r: &mut Rec) {{ r.unit({qid}, &[], &[]); {body} }}", f"guard(n{qid}, &mut w, &mut r)"))
    out = [Batch(f"{tag}-alias-{i}", emit.HEAD, shared, us, negative=True, link=False) for i, us in enumerate(chunks(bad, 250))]

    guard = """
pub fn guard(f: fn(&mut QW, &mut Rec), w: &mut QW, r: &mut Rec) {
  let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(w, r))).err();
  let both = e.map_or(true, |e| e.downcast_ref::<&str>().map_or(false, |s| *s == "both given out") || e.downcast_ref::<String>().map_or(false, |s| s.contains("both given out")));
  if both { r.fail("a borrowing query handed out one component twice, once mutably".into()); } r.checks += 1;
}
"""
    init = "    std::panic::set_hook(Box::new(|_| ())); let mut r = Rec::default(); let mut w = build(&mut r);\n"

    def run_either(us, i):
        b = Batch(f"{tag}-guarded-{i}", emit.HEAD, shared + guard, us, init)
        ok, errs, exe = tc.compile(b.name, b.source(us)[1], False)
        if not ok:  # Rejecting such queries is fine as well.
            crate = b.source(us)[0]
            hit = {crate.unit_at(e[0]) for e in errs}
            us = [u for u in us if u not in hit]
            b = Batch(f"{tag}-guarded-{i}", emit.HEAD, shared + guard, us, init)
        runner.run(b)

    g = groups.setdefault("one component twice in a borrowing query", {"what": "the same by ecs_iter_borrow! and ecs_find_borrow!: rejected, or the guard panics before the closure runs", "good": 0, "bad": 0, "states": 0, "sample": either[-1].desc})
    g["good"] += len(either)
    return out, [lambda us=us, i=i: run_either(us, i) for i, us in enumerate(chunks(either, 80))]


KINDS = {"SS": (True, True), "CS": (True, False), "NS": (False, True), "NN": (False, False)}
AUTO_HEAD = HEAD + """
pub struct SS<const N: usize>(pub u32); pub struct CS<const N: usize>(pub Cell<u32>); pub struct NN<const N: usize>(pub Rc<u32>);
pub struct NS<const N: usize>(pub u32, pub PhantomData<MutexGuard<'static, u8>>);
"""
AUTO_SHARED = """
pub struct P<T>(PhantomData<T>);
pub fn of<T>(_: &T) -> P<T> { P(PhantomData) }
pub trait NoSend { fn send(&self) -> bool { false } } impl<T> NoSend for &P<T> {}
pub trait YesSend { fn send(&self) -> bool { true } } impl<T: Send> YesSend for P<T> {}
pub trait NoSync { fn sync(&self) -> bool { false } } impl<T> NoSync for &P<T> {}
pub trait YesSync { fn sync(&self) -> bool { true } } impl<T: Sync> YesSync for P<T> {}
pub trait NoCopy { fn copy(&self) -> bool { false } } impl<T> NoCopy for &P<T> {}
pub trait YesCopy { fn copy(&self) -> bool { true } } impl<T: Copy> YesCopy for P<T> {}
macro_rules! ty { ($t:ty) => { P::<$t>(PhantomData) }; }
macro_rules! sends { ($e:expr) => { (&$e).send() }; } macro_rules! syncs { ($e:expr) => { (&$e).sync() }; } macro_rules! copies { ($e:expr) => { (&$e).copy() }; }
pub struct R { bad: usize, checks: u64 }
impl R {
  fn is(&mut self, q: u32, what: &str, is: bool, want: bool) { self.checks += 1; if is != want { self.bad += 1; println!("MISMATCH unit={q} {what} is {is}, expected {want}"); } }
  fn max(&mut self, q: u32, what: &str, is: bool, most: bool) { self.checks += 1; if is && !most { self.bad += 1; println!("MISMATCH unit={q} {what}, which is unsound"); } }
  fn end(&self) { println!("CHECKS {}", self.checks); if self.bad > 0 { std::process::exit(3); } }
}
"""


def auto_unit(n, archs):
    """A world of archetypes whose components have these auto traits."""
    out = [f"pub mod u{n} {{ use super::*;"]
    decl = []
    for i, kinds in enumerate(archs):
        names = []
        for j, k in enumerate(kinds):
            out.append(f"pub type K{i}x{j} = {k}<{100 * i + j}>;")
            names.append(f"K{i}x{j}")
        decl.append(f"ecs_archetype!(A{i}x, {', '.join(names)});")
    out.append(f"ecs_world! {{ ecs_name!(W{n}); {' '.join(decl)} }}")
    all_send = all(KINDS[k][0] for a in archs for k in a)
    c = [f"pub fn check(r: &mut R) {{"]

    def line(fn, what, expr, want):
        c.append(f"r.{fn}({n}, \"{what}\", {expr}, {'true' if want else 'false'});")

    line("is", "World: Send", f"sends!(ty!(W{n}))", all_send)
    line("is", "World: Sync", f"syncs!(ty!(W{n}))", False)
    for h in ("EntityAny", "EntityDirectAny"):
        for t in ("sends", "syncs", "copies"):
            line("is", f"{h} {t}", f"{t}!(ty!({h}))", True)
    for i, kinds in enumerate(archs):
        a = f"A{i}x"
        send, sync = all(KINDS[k][0] for k in kinds), all(KINDS[k][1] for k in kinds)
        line("is", f"archetype {i}: Send", f"sends!(ty!({a}))", send)
        line("is", f"archetype {i}: Sync", f"syncs!(ty!({a}))", False)
        line("max", f"&archetype {i}: Send", f"sends!(ty!(&'static {a}))", False)
        line("is", f"&mut archetype {i}: Send", f"sends!(ty!(&'static mut {a}))", send)
        for h in (f"Entity<{a}>", f"EntityDirect<{a}>"):
            for t in ("sends", "syncs", "copies"):
                line("is", f"{h} {t}", f"{t}!(ty!({h}))", True)
        for t, s1, s2 in ((f"{a}Components", send, sync), (f"<{a} as Archetype>::View<'static>", send, sync), (f"<{a} as Archetype>::Slices<'static>", send, sync),
                          (f"<{a} as Archetype>::Borrow<'static>", False, False), (f"<{a} as Archetype>::IterItem<'static>", sync, sync), (f"<{a} as Archetype>::IterItemMut<'static>", send, sync)):
            line("max", f"{t.replace(chr(39), '')}: Send", f"sends!(ty!({t}))", s1)
            line("max", f"{t.replace(chr(39), '')}: Sync", f"syncs!(ty!({t}))", s2)
        for t, s1, s2 in (("iter", sync, sync), ("iter_mut", send, sync)):
            line("max", f"{t} of archetype {i}: Send", f"{{ let mut x = {a}::new(); let i = x.{t}(); sends!(of(&i)) }}", s1)
            line("max", f"{t} of archetype {i}: Sync", f"{{ let mut x = {a}::new(); let i = x.{t}(); syncs!(of(&i)) }}", s2)
    c.append("}")
    out += c + ["}"]
    desc = "a world with archetypes of components that are (Send, Sync): " + " / ".join(",".join(str(KINDS[k]).replace("True", "y").replace("False", "n").replace(", ", "") for k in a) for a in archs)
    return Unit(n, desc, "\n".join(out), f"u{n}::check(&mut r)")


def autos(tag, wide, thorough, groups):
    """Auto traits by the position of the component that lacks them."""
    shapes = []
    for n in range(1, 17) if not wide else range(17, 33):
        shapes.append([["SS"] * n])
        for pos in range(n):
            for ki, k in enumerate(("CS", "NS", "NN")):
                if thorough or (not wide and (n <= 8 or k != "CS")) or (wide and (pos + n) % 3 == ki):
                    shapes.append([[k if i == pos else "SS" for i in range(n)]])
    if not wide:
        for n in (2, 3) if not thorough else (2, 3, 4):
            shapes += [[list(ks)] for ks in itertools.product(KINDS, repeat=n) if len([k for k in ks if k != "SS"]) > 1]
        for n in (2, 3, 4):
            for at in range(n):
                for k in ("CS", "NS", "NN"):
                    for pos in range(2):
                        shapes.append([[k if (i, j) == (at, pos) else "SS" for j in range(2)] for i in range(n)])
        shapes += [[[a], [b]] for a, b in itertools.product(KINDS, repeat=2)]
    g = groups.setdefault("auto traits" + (" (17..32 components)" if wide else ""), {"what": "every position of a component that is not Send / not Sync / neither, all widths; worlds of 1..4 archetypes", "good": 0, "bad": 0, "states": 0, "sample": ""})
    units = [auto_unit(i + 1, s) for i, s in enumerate(shapes)]
    g["good"] += len(units)
    g["states"] += sum(len(s) for s in shapes)
    g["sample"] = units[-1].desc
    init = "    let mut r = R { bad: 0, checks: 0 };\n"
    return [Batch(f"{tag}-auto-{i}", AUTO_HEAD, AUTO_SHARED, us, init) for i, us in enumerate(chunks(units, 14 if wide else 40))]


THREAD_WORLDS = """
pub struct Loc(pub Rc<u32>); pub struct Cel(pub Cell<u32>);
pub mod local { use super::{Pos, Loc}; use gecs::prelude::*; ecs_world! { ecs_name!(L); ecs_archetype!(LFoo, Pos, Loc); } }
pub mod cell { use super::{Pos, Cel}; use gecs::prelude::*; ecs_world! { ecs_name!(C); ecs_archetype!(CFoo, Pos, Cel); } }
use cell::{C, CFoo}; use local::{L, LFoo, LFooComponents};
"""


def threads(out):
    """Programs that move or share worlds, views, .. between threads."""
    spawn, scope = "std::thread::spawn(move || { %s });", "std::thread::scope(|s| { s.spawn(move || { %s }); });"
    sig = "(mut w: W, mut l: L, mut c: C, e: Entity<Foo>, le: Entity<LFoo>, ld: EntityDirect<LFoo>, ce: Entity<CFoo>)"
    good = [
        spawn % "touch(&w);", spawn % "w.create::<Foo>((Pos(1), Vel(1)));", spawn % "touch(&c);", scope % "touch(&w);", "let r = &mut w; " + scope % "touch(&*r);",
        spawn % "touch(&le); touch(&ld);", "let r = (&le, &ld); " + scope % "touch(&r);", "let x = Arc::new(Mutex::new(w)); " + spawn % "touch(&x.lock().unwrap().foo.len());",
        "let x = Arc::new(Mutex::new(c)); " + spawn % "touch(&x);", "static X: Mutex<Option<W>> = Mutex::new(None); touch(&X);", "thread_local! { static X: RefCell<Option<L>> = RefCell::new(None); } touch(&X);",
        "let (tx, rx) = mpsc::channel(); tx.send(w).unwrap(); " + spawn % "touch(&rx.recv());", "static X: OnceLock<Mutex<W>> = OnceLock::new(); touch(&X);",
        "static X: OnceLock<Entity<LFoo>> = OnceLock::new(); touch(&X);", "static X: OnceLock<EntityAny> = OnceLock::new(); touch(&X);", "static X: OnceLock<EntityDirect<LFoo>> = OnceLock::new(); touch(&X);",
    ]
    bad = [
        "let r = &w; " + scope % "touch(r);", "let r = &w.foo; " + scope % "touch(r);", "let r = w.archetype::<Foo>(); " + scope % "touch(r);", "let x = Arc::new(w); " + spawn % "touch(&x);",
        "let x = Arc::new(RwLock::new(w)); " + spawn % "touch(&x);", "static X: OnceLock<W> = OnceLock::new(); touch(&X);", "static X: RwLock<Option<W>> = RwLock::new(None); touch(&X);",
        spawn % "touch(&l);", "let r = &mut l; " + scope % "touch(&*r);", "let x = Arc::new(Mutex::new(l)); " + spawn % "touch(&x);", "static X: Mutex<Option<L>> = Mutex::new(None); touch(&X);",
        "let f = l.l_foo; " + spawn % "touch(&f);", "let f = &mut l.l_foo; " + scope % "touch(&*f);", "let (tx, rx) = mpsc::channel(); tx.send(l).unwrap(); " + spawn % "touch(&rx);",
        "let v = l.view(le).unwrap(); " + scope % "touch(&v.pos); touch(&v);", "let v = l.l_foo.get_all_slices_mut(); " + scope % "touch(&v);", "let v = l.l_foo.get_slice_mut::<Loc>(); " + scope % "touch(v);",
        "let v = l.l_foo.get_slice::<Loc>(); " + scope % "touch(v);", "let v = c.c_foo.get_slice::<Cel>(); " + scope % "touch(v);", "let v = w.borrow(e).unwrap(); " + scope % "touch(&v);",
        "let v = w.borrow(e).unwrap(); let r = &v; " + scope % "touch(r);", "let v = w.foo.borrow_slice::<Pos>(); " + scope % "touch(&v);", "let v = w.foo.borrow_slice_mut::<Pos>(); " + scope % "touch(&v);",
        "let mut v = l.l_foo.iter(); " + scope % "touch(&v.next());", "let mut v = l.l_foo.iter_mut(); " + scope % "touch(&v.next());", "let mut v = c.c_foo.iter(); " + scope % "touch(&v.next());",
        "let v = l.l_foo.iter().next(); " + scope % "touch(&v);", "let v = l.l_foo.iter_mut().next(); " + scope % "touch(&v);", "let v = c.c_foo.iter().next(); " + scope % "touch(&v);",
        "let v = c.view(ce).unwrap(); let r = &v; " + scope % "touch(r);", "let v = l.destroy(le); " + spawn % "touch(&v);", "let v = LFooComponents::from((Pos(1), Loc(Rc::new(1)))); " + spawn % "touch(&v);",
        "ecs_iter_borrow!(w, |p: &Pos| { let r = &w; " + scope % "touch(r);" + " });", "let r = &w; " + scope % "ecs_iter_borrow!(r, |p: &mut Pos| { p.0 += 1; });",
    ]
    for t in good:
        out.add("threads", "threads", True, t, f"fn u{sig} {{ {t} }}")
    for t in bad:
        out.add("threads", "threads", False, t, f"fn u{sig} {{ {t} }}")


# --- unsafe-freedom of expansions ---

def scan_programs(features, thorough):
    """(name, source, cfgs): programs whose expansions are scanned, covering declarations and queries of every form."""
    wide = "32_components" in features
    out = []
    # Declarations: every width, with and without attributes, disabled items and ids.
    widths = range(1, 33) if wide else range(1, 17)
    mods = []
    for n in widths:
        comps = [f"C{i}" for i in range(n)]
        forms = [", ".join(comps), ", ".join(f"#[component_id({200 - i})] {c}" for i, c in enumerate(comps)), ", ".join(f"#[cfg({'p' if i else 'all()'})] {c}" for i, c in enumerate(comps))]
        for f, cs in enumerate(forms):
            pre = ("", "#[archetype_id(7)] ", "#[cfg(q)] ")[f]
            name = "ecs_name!(Named);" if f else ""
            mods.append(f"pub mod m{n}x{f} {{ use gecs::prelude::*; use rt::*; ecs_world! {{ {name} {pre}ecs_archetype!(Foo, {cs}); ecs_archetype!(Bar, C0); }} }}")
    for flags in ((), ("p",), ("q",), ("p", "q")):
        if flags and not thorough and flags != ("p", "q"):
            continue
        for i, ms in enumerate(chunks(mods, 16)):
            out.append((f"decl-{'-'.join(flags)}-{i}", emit.HEAD + "\n".join(ms) + "\nfn main() {}\n", flags))
    # Many archetypes.
    archs = [m.Arch(f"Arch{i}", (m.Comp("Pos"), m.Comp("Vel"))) for i in range(20)]
    out.append(("decl-many", emit.HEAD + emit.decl(m.World("Many", tuple(archs))) + "\nfn main() {}\n", ()))
    # Queries: every kind of parameter, alone and in every ordered pair, decorated or not, by every macro and key.
    world = c05.world("QW", c05.subsets(c05.POOL3))
    kinds = [m.Param("comp", ("Pos",)), m.Param("comp", ("PosX",), True), m.Param("oneof", ("XPos", "Os")), m.Param("oneof", ("Os", "XPos"), True)] + \
        [m.Param(k) for k in ("entw", "enta", "dirw", "dira")] + [m.Param("ent", (world.archs[6].name,)), m.Param("dir", (world.archs[6].name,))]
    lists = [(k,) for k in kinds] + list(itertools.permutations(kinds, 2)) + [tuple(m.replace(x, cfg=("p",) if i % 2 == 0 else ("q",)) for i, x in enumerate(t)) for t in itertools.permutations(kinds, 2)]
    lists += list(itertools.permutations(kinds[:6], 3)) if not thorough else list(itertools.permutations(kinds, 3))
    full = world.archs[6].name
    args = f"w: &mut QW, e: Entity<{full}>, d: EntityDirect<{full}>, ea: EntityAny, da: EntityDirectAny"
    bodies = ["ecs_iter!(w, |%s| {});", "ecs_iter_borrow!(w, |%s| {});", "ecs_iter_destroy!(w, |%s| EcsStepDestroy::ContinueDestroy);", "let _ = ecs_iter_destroy!(w, |%s| { return EcsStepDestroy::Break; });", "ecs_iter!(*w, |%s| EcsStep::Break);"]
    bodies += [f"let _ = ecs_{b}!(w, {k}, |%s| 1);" for b in ("find", "find_borrow") for k in ("e", "d", "ea", "da", "&e", "&mut ea.clone()")]
    fns = []
    for i, ps in enumerate(lists):
        pl = emit.params(ps)
        use = bodies if len(ps) < 3 else [bodies[(i + j * 5) % len(bodies)] for j in range(3)]
        fns.append(f"pub fn q{i}({args}) {{ " + " ".join(b % pl for b in use) + " }")
    for flags in ((), ("p", "q")):
        for i, fs in enumerate(chunks(fns, 60)):
            out.append((f"query-{'-'.join(flags)}-{i}", emit.HEAD + emit.decl(world) + "\n" + "\n".join(fs) + "\nfn main() {}\n", flags))
    # The rest of the macros.
    out.append(("misc", emit.HEAD + emit.decl(world) + f"\npub fn ids() -> u32 {{ let a = ecs_component_id!(Pos, {full}) as u32; a }}\npub fn inner(w: &mut QW) {{ ecs_iter!(w, |p: &Pos| {{ let x = ecs_component_id!(Pos); }}); }}\nfn main() {{}}\n", ()))
    return out


class Scanner:
    def __init__(self, res, features, thorough):
        self.res, self.features, self.thorough = res, features, thorough
        self.sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()

    def build(self, tc):
        self.tc = tc
        self.exe = os.path.join(tc.work, "scan")
        r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", "-o", self.exe, os.path.join(ck.VERIF, "gen", "scan.rs")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ck.Broken(f"the scanner does not build: {r.stdout[-3000:]}")

    def scan(self, name, source, cfgs=()):
        path = os.path.join(self.tc.work, f"scan-{name}.rs")
        with open(path, "w") as f:
            f.write(source)
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(self.sysroot, "lib"))
        cmd = [self.exe] + self.tc.rustc(rt=True)[1 + len(self.tc.channel):] + ["--sysroot", self.sysroot, "--crate-type", "bin", "--crate-name", "prog", "-o", os.path.join(self.tc.work, f"scan-{name}.bin"), path]
        for c in cfgs:
            cmd += ["--cfg", c]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=300)
        lines = r.stdout.splitlines()
        done = [x for x in lines if x.startswith("EXPANDED ")]
        if not done:
            raise ck.Broken(f"the scanner fails on {path}: {(r.stdout + r.stderr)[-3000:]}")
        _, calls, nodes = done[-1].split()
        bad = [x for x in lines if x.startswith("UNSAFE ")]
        return int(calls), int(nodes), bad

    def check(self, runner, name, source, cfgs):
        if runner.stop:
            return
        calls, nodes, bad = self.scan(name, source, cfgs)
        with runner.lock:
            runner.stats["scanned_expansions"] = runner.stats.get("scanned_expansions", 0) + calls
            runner.stats["scanned_nodes"] = runner.stats.get("scanned_nodes", 0) + nodes
        if bad:
            line = int(bad[0].split()[1])
            text = source.split("\n")[line - 1]
            runner.violation(Batch(f"scan-{name}", "", "", [], cfgs=cfgs), Unit(line, text[:300], ""), f"expands to an unsafe construct: {bad[0]}", source, "\n".join(bad))

    def self_test(self):
        """The scanner must see unsafe constructs in a macro's output and ignore those of std's macros and derives."""
        src = """#![allow(warnings)]
macro_rules! m { ($n:ident) => { #[derive(Clone, Copy, PartialEq, Hash)] pub struct $n(u8); pub fn f() { let x = vec![1, 2]; thread_local! { static Z: u8 = 1; } println!("{}", 1); } } }
m!(X);
macro_rules! bad { () => { pub fn a() { unsafe {} } pub unsafe fn b() {} pub struct S; unsafe impl Sync for S {} pub unsafe trait T { unsafe fn q(); } extern "C" { fn z(); } #[no_mangle] pub fn k() {} impl S { unsafe fn m() {} #[link_section = "x"] fn l() {} } } }
bad!();
pub fn own() { unsafe {} }
fn main() {}
"""
        _, _, bad = self.scan("self-test", src)
        got = sorted(x.split(" ", 2)[2].split(" in the output")[0] for x in bad)
        want = sorted(["unsafe block", "unsafe fn", "unsafe impl", "unsafe trait", "unsafe fn", "extern block", "attribute of unsafe effect", "unsafe fn", "attribute of unsafe effect"])
        if got != want or any(x.split()[1] != "5" for x in bad):
            raise ck.Broken(f"the scanner's self-test fails: {bad}")


def run(res, spec):
    thorough = res.tier == "thorough"
    t0 = time.time()
    plain = Toolchain((), "programs-C18")
    full = Toolchain(("events", "32_components"), "programs-C18-all")
    scans = [(Toolchain(f, "programs-C18-scan" + "".join("+" + x for x in f), channel="nightly"), f) for f in ((), ("events", "32_components"), ("wrapping_version",))]
    parallel([plain.build, full.build] + [t.build for t, _ in scans])
    groups = {}
    runners = []
    jobs = []

    for tc, features in scans:
        s = Scanner(res, features, thorough)
        s.build(tc)
        s.self_test()
        r = Runner(res, "C18", tc)
        runners.append(r)
        progs = scan_programs(features, thorough)
        if features == ("wrapping_version",) and not thorough:
            progs = progs[::4]
        g = groups.setdefault(f"expansions scanned, features {list(features)}", {"what": "programs of every declaration and query form; every AST node of their expansions that stems from gecs is inspected", "good": 0, "bad": 0, "states": 0, "sample": progs[0][0]})
        g["good"] += len(progs)
        jobs += [(900, lambda s=s, r=r, p=p: s.check(r, *p)) for p in progs]

    for tc, events in ((plain, False), (full, True)):
        tag = "all" if events else "plain"
        r = Runner(res, "C18", tc)
        runners.append(r)
        o = Out()
        straight(o, events, thorough)
        if not events or thorough:
            pairs(o, thorough)
            closures(o, thorough)
        escapes(o, events)
        handles(o)
        conversions(o)
        batches = o.batches(tag, WORLD)
        t = Out()
        threads(t)
        batches += t.batches(tag, WORLD + THREAD_WORLDS)
        if not events or thorough:
            more, either = aliases(tag, thorough, groups, r, tc)
            batches += more
            jobs += [(700, j) for j in either]
        batches += autos(tag, events, thorough, groups)
        jobs += [(len(b.units) * (2 if b.negative else 1) + (800 if b.link else 0), lambda r=r, b=b: r.run(b)) for b in batches]
        for x in (o, t):
            for k, g in x.groups.items():
                groups[f"{k} [{tag}]"] = g

    jobs.sort(key=lambda j: -j[0])
    parallel([j for _, j in jobs])
    for r in runners:
        for k, v in r.stats.items():
            res.add(k, v)
    book(res, groups, t0)
