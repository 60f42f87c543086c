"""The shapes a query may be written in: names of parameters, forms of the closure's body, of the world and of the key.

The five macros paste the user's tokens between their own; whatever the tokens, the closure must run on the same entities
with the same values. (Captured variables that happen to have the name of a local variable of the generated code are left
out: nothing is promised about those.)"""
import time

import emit
from programs import Batch, Runner, Unit, book
from rust import Toolchain

DECL = """ecs_world! { ecs_name!(TheWorld); ecs_archetype!(Foo, Pos, PosX); ecs_archetype!(Bar, XPos, Pos); ecs_archetype!(Baz, Os); ecs_archetype!(Qux, Os, Pos); }
pub const WANT: &[u64] = &[1, 2, 11, 12, 31, 32];
pub fn build() -> (TheWorld, Vec<EntityAny>) {
  let mut w = TheWorld::new(); let mut k: Vec<EntityAny> = Vec::new();
  for n in 1..3 {
    k.push(w.create::<Foo>((Pos::make(n), PosX::make(100 + n))).into());
    k.push(w.create::<Bar>((XPos::make(200 + n), Pos::make(10 + n))).into());
    k.push(w.create::<Qux>((Os::make(300 + n), Pos::make(30 + n))).into());
  }
  for n in 1..3 { k.push(w.create::<Baz>((Os::make(20 + n),)).into()); }
  (w, k)
}
/// Everything visited, by value, and whether the rest of the caller ran.
pub fn same(r: &mut Rec, q: u32, mut got: Vec<u64>, want: &[u64]) {
  got.sort();
  r.eq(q, "visits", got.len() as u64, want.len() as u64);
  for (g, w) in got.iter().zip(want) { r.eq(q, "visited value", *g, *w); }
}
pub struct Holder { pub world: TheWorld, pub many: Vec<TheWorld>, pub boxed: Box<TheWorld>, pub pair: (u32, TheWorld) }
pub fn through(w: &mut TheWorld) -> &mut TheWorld { w }
pub fn shared(w: &TheWorld) -> &TheWorld { w }
macro_rules! by_macro { ($m:ident, $w:expr, $p:ident, $body:expr) => { $m!($w, |$p: &Pos| $body) }; }
macro_rules! find_by_macro { ($m:ident, $w:expr, $k:expr, $p:ident, $body:expr) => { $m!($w, $k, |$p: &Pos| $body) }; }
"""

NAMES = ["archetype", "version", "len", "idx", "slices", "found", "entity", "closure", "world", "w", "i", "index", "entities", "result", "data", "resolved_entity",
         "iter", "pos", "foo", "bar", "queries", "query", "step", "matched", "key", "cursor", "count", "direct", "view", "borrow", "column", "item", "n", "e", "arg", "body"]
# Hygiene is not promised either, so only what one calls a key in every other program.
KEYS = ["entity", "key", "e", "n", "i", "handle", "target", "pos", "foo", "player"]
ITERS = ("iter", "iter_borrow", "iter_destroy")
FINDS = ("find", "find_borrow")
KIND = {"iter": "iter", "iter_borrow": "iter", "iter_destroy": "destroy", "find": "find", "find_borrow": "find"}


def units():
    out = []

    def add(mac, desc, body):
        q = len(out)
        out.append((KIND[mac], Unit(q, f"ecs_{mac}!, {desc}: {body}", f"pub fn f{q}(r: &mut Rec) {{ let (mut w_, k_) = build(); let mut got: Vec<u64> = Vec::new(); let mut after = 0;\n  {body}\n"
                                    f"  r.eq({q}, \"the caller went on\", after, 1); }}", f"f{q}(&mut r)")))
        return q

    def val(e):
        return f"*{e}.clone().value() as u64"

    for mac in ITERS:
        def run(desc, text, want="WANT", pre=""):
            q = len(out)
            add(mac, desc, f"{pre}{text}; after += 1; same(r, {q}, got, {want});")
        it = f"ecs_{mac}!"
        run("the closure captures a variable", f"{it}(w_, |p_: &Pos| {{ got.push({val('p_')} + mine); }})", "&[1001, 1002, 1011, 1012, 1031, 1032]", "let mine: u64 = 1000; ")
        run("the world is named world", f"{it}(world, |p_: &Pos| {{ got.push({val('p_')}); }})", pre="let world = &mut w_; ")
        for n in NAMES:
            run(f"a parameter named {n}", f"{it}(w_, |{n}: &Pos, h_: &EntityAny| {{ let _ = h_.archetype_id(); got.push({val(n)}); }})")
            run(f"a mutable parameter named {n}", f"{it}(w_, |{n}: &mut Pos| {{ *{n}.value() += x_; got.push({val(n)}); }})", "&[6, 7, 16, 17, 36, 37]", f"let {n}: u32 = 5; let x_ = {n}; ")
        run("names of the macro exchanged", f"{it}(w_, |version: &Pos, archetype: &EntityAny, len: &EntityDirectAny, idx: &Entity<_>| {{ let _ = (archetype.archetype_id(), len.archetype_id(), idx.into_any()); got.push({val('version')}); }})")
        run("a counter of the caller", f"{it}(w_, |_: &Pos| {{ once += 1; sum += once; }}); got.push(once); got.push(sum)", "&[6, 21]", "let mut once = 0u64; let mut sum = 0u64; ")
        run("a constant, a static and a function of the caller", f"{it}(w_, |p: &Pos| {{ got.push({val('p')} + FOUR + twice(THREE)); }})", "&[11, 12, 21, 22, 41, 42]", "const FOUR: u64 = 4; static THREE: u64 = 3; fn twice(x: u64) -> u64 { x * 2 } ")
        run("no parameters", f"{it}(w_, | | {{ got.push(7); }})", "&[7; 8]")
        run("all parameters are _", f"{it}(w_, |_: &Pos, _: &Entity<_>, _: &EntityDirect<_>| {{ got.push(7); }})", "&[7; 6]")
        run("a trailing comma", f"{it}(w_, |p: &Pos, _: &EntityAny,| {{ got.push({val('p')}); }})")
        run("a trailing comma in OneOf", f"{it}(w_, |o: &OneOf<PosX, XPos,>, p: &Pos| {{ got.push({val('o')} - {val('p')}); }})", "&[100, 100, 190, 190]")
        run("a body without braces", f"{it}(w_, |p: &Pos| got.push({val('p')}))")
        run("a body that is a match", f"{it}(w_, |p: &Pos| match {val('p')} {{ 1 => got.push(1), v => got.push(v) }})")
        run("a body that is an if", f"{it}(w_, |p: &Pos| if {val('p')} > 1 {{ got.push({val('p')}) }} else {{ got.push(1) }})")
        run("return in the body", f"{it}(w_, |p: &Pos| {{ let v = {val('p')}; if v % 2 == 1 {{ got.push(v); return; }} got.push(v); }})")
        run("return of a step", f"{it}(w_, |p: &Pos| {{ let v = {val('p')}; got.push(v); if v % 2 == 1 {{ return EcsStep::Continue; }} EcsStep::Continue }})")
        run("return of Break", f"{it}(w_, |_: &Pos| {{ got.push(9); if got.len() == 3 {{ return EcsStep::Break; }} return EcsStep::Continue; }})", "&[9, 9, 9]")
        run("the type of the step by from()", f"{it}(w_, |p: &Pos| {{ got.push({val('p')}); EcsStep::from(()) }})")
        run("loops with break and continue in the body", f"{it}(w_, |p: &Pos| {{ let v = {val('p')}; for x in 0.. {{ if x < v {{ continue; }} got.push(x); break; }} }})")
        run("a labelled loop", f"{it}(w_, |p: &Pos| {{ let v = {val('p')}; 'l: loop {{ loop {{ got.push(v); break 'l; }} }} }})")
        run("within loops of the caller", f"for n in 0..3 {{ if n == 1 {{ continue; }} {it}(w_, |p: &Pos| {{ if n == 0 {{ got.push({val('p')}); }} }}); if n == 2 {{ break; }} }}")
        run("closures in the body", f"{it}(w_, |p: &Pos| {{ let f = |x: u64| -> u64 {{ return x + 1; }}; got.push(f({val('p')}) - 1); }})")
        run("a moved capture", f"{it}(w_, |p: &Pos| {{ got.push({val('p')} + s.len() as u64 - 3); }}); drop(s)", pre="let s = String::from(\"abc\"); ")
        run("state carried through all visits", f"{it}(w_, |p: &Pos| {{ seen.push({val('p')}); if seen.len() == 6 {{ got = std::mem::take(&mut seen); }} }})", pre="let mut seen = Vec::new(); ")
        for form, pre in (("h.world", "let mut h = Holder { world: w_, many: vec![], boxed: Box::new(TheWorld::new()), pair: (0, TheWorld::new()) }; "),
                          ("h.many[1]", "let mut h = Holder { world: TheWorld::new(), many: vec![TheWorld::new(), w_], boxed: Box::new(TheWorld::new()), pair: (0, TheWorld::new()) }; "),
                          ("h.boxed", "let mut h = Holder { world: TheWorld::new(), many: vec![], boxed: Box::new(w_), pair: (0, TheWorld::new()) }; "),
                          ("h.pair.1", "let mut h = Holder { world: TheWorld::new(), many: vec![], boxed: Box::new(TheWorld::new()), pair: (0, w_) }; "),
                          ("(w_)", ""), ("(*m)", "let m = &mut w_; "), ("(**m)", "let mut b = Box::new(w_); let m = &mut b; "), ("m", "let m = &mut &mut w_; "), ("through(&mut w_)", "")):
            run(f"the world is {form}", f"{it}({form}, |p: &Pos| {{ got.push({val('p')}); }})", pre=pre)
        if mac == "iter_borrow":
            for form, pre in (("m", "let m = &w_; "), ("m", "let m = std::rc::Rc::new(w_); "), ("shared(&w_)", ""), ("m", "let c = std::cell::RefCell::new(w_); let m = c.borrow(); ")):
                run(f"a shared world, {pre}{form}", f"{it}({form}, |p: &mut Pos| {{ got.push({val('p')}); }})", pre=pre)
        run("from a macro of the caller", f"by_macro!(ecs_{mac}, w_, q, {{ got.push({val('q')}); }})")
        run("in a generic function", f"f(&mut w_, &mut got, 0u8)", pre=f"fn f<T: Copy + Into<u64>>(w: &mut TheWorld, got: &mut Vec<u64>, t: T) {{ {it}(w, |p: &Pos| {{ got.push({val('p')} + t.into()); }}); }} ")
        run("in a closure", "f(&mut w_)", pre=f"let mut f = |w: &mut TheWorld| {{ {it}(w, |p: &Pos| {{ got.push({val('p')}); }}); }}; ")
        run("in a method", "V(&mut w_).go(&mut got)", pre=f"struct V<'a>(&'a mut TheWorld); impl V<'_> {{ fn go(&mut self, got: &mut Vec<u64>) {{ {it}(self.0, |p: &Pos| {{ got.push({val('p')}); }}); }} }} ")
        run("in another module", "inner::go(&mut w_, &mut got)", pre=f"mod inner {{ use super::*; pub fn go(w: &mut TheWorld, got: &mut Vec<u64>) {{ {it}(w, |p: &Pos| {{ got.push({val('p')}); }}); }} }} ")
        run("as a statement of an arm", f"match 1 {{ 1 => {it}(w_, |p: &Pos| {{ got.push({val('p')}); }}), _ => {{}} }}")
    # What each visit destroys must not depend on how the answer is written.
    for desc, body, want in (("return of ContinueDestroy", "if v % 2 == 1 { return EcsStepDestroy::ContinueDestroy; } EcsStepDestroy::Continue", "&[2, 12, 32]"),
                             ("a body that is a match", "match v % 2 { 1 => EcsStepDestroy::ContinueDestroy, _ => EcsStepDestroy::Continue }", "&[2, 12, 32]"),
                             ("a tail call", "answer(v)", "&[2, 12, 32]"), ("always destroyed", "EcsStepDestroy::ContinueDestroy", "&[]"), ("nothing destroyed", "let _ = v;", "WANT"),
                             ("a value called idx", "let idx = v; let len = 0; let entity = (idx, len); if entity.0 == 11 { EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }", "&[1, 2, 12, 31, 32]")):
        q = len(out)
        add("iter_destroy", desc, f"fn answer(v: u64) -> EcsStepDestroy {{ if v % 2 == 1 {{ EcsStepDestroy::ContinueDestroy }} else {{ EcsStepDestroy::Continue }} }} "
            f"ecs_iter_destroy!(w_, |p: &Pos| {{ let v = {val('p')}; {body} }}); after += 1; ecs_iter!(w_, |p: &Pos| {{ got.push({val('p')}); }}); same(r, {q}, got, {want});")
    for mac in FINDS:
        def run(desc, text, want="WANT", pre="", key="k_"):
            q = len(out)
            add(mac, desc, f"{pre}for k in k_.iter() {{ {text}; }} after += 1; same(r, {q}, got, {want});")
        it = f"ecs_{mac}!"
        for n in NAMES:
            run(f"a parameter named {n}", f"{it}(w_, k, |{n}: &mut Pos, h_: &EntityAny| {{ assert!(h_ == k); *{n}.value() += 5; got.push({val(n)}); }})", "&[6, 7, 16, 17, 36, 37]")
        for n in KEYS:
            run(f"the key is named {n}", f"let {n} = *k; {it}(w_, {n}, |p_: &Pos, h_: &EntityAny| {{ assert!(h_ == k); got.push({val('p_')}); }})")
        run("the closure captures a variable", f"let mine: u64 = 1000; if let Some(v) = {it}(w_, *k, |p_: &Pos| {val('p_')} + mine) {{ got.push(v); }}", "&[1001, 1002, 1011, 1012, 1031, 1032]")
        run("world and key of the macro's names", f"let world = &mut w_; let entity = *k; {it}(world, entity, |p: &Pos, version: &EntityDirectAny| {{ let _ = version.archetype_id(); got.push({val('p')}); }})")
        for key in ("*k", "k", "&*k", "&mut c", "c", "{ c }", "(c)", "pair.1", "ks[0]", "conv(c)", "EntityAny::from(c)"):
            run(f"the key is {key}", f"let mut c = *k; let pair = (1, c); let ks = [c]; {it}(w_, {key}, |p: &Pos| got.push({val('p')}))", pre="fn conv(e: EntityAny) -> EntityAny { e } ")
        run("the key is a direct handle", f"let d = w_.to_direct(*k).unwrap(); {it}(w_, d, |p: &Pos| got.push({val('p')})); let _ = {it}(w_, &d, |p: &Pos| {val('p')})")
        run("the key is typed", f"if let Ok(t) = Entity::<Foo>::try_from(*k) {{ {it}(w_, t, |p: &Pos| got.push({val('p')})); }}", "&[1, 2]")
        run("the key is typed and direct", f"if let Ok(t) = Entity::<Bar>::try_from(*k) {{ let d = w_.to_direct(t).unwrap(); {it}(w_, d, |p: &Pos| got.push({val('p')})); }}", "&[11, 12]")
        run("a return type", f"let v = {it}(w_, k, |p: &Pos| -> u64 {{ {val('p')} }}); got.extend(v)")
        run("return in the body", f"let v = {it}(w_, k, |p: &Pos| -> u64 {{ if {val('p')} == 1 {{ return 1; }} return {val('p')}; }}); got.extend(v)")
        run("return without a return type", f"let v = {it}(w_, k, |p: &Pos| {{ let v = {val('p')}; if v == 2 {{ return 2u64; }} v }}); got.extend(v)")
        run("the ? operator", f"let v = {it}(w_, k, |p: &Pos| -> Option<u64> {{ let v = {val('p')}; let h = (v > 5).then_some(v)?; Some(h) }}); got.extend(v.flatten())", "&[11, 12, 31, 32]")
        run("a Result", f"let v = {it}(w_, k, |p: &Pos| -> Result<u64, String> {{ let v: u64 = \"5\".parse::<u64>().map_err(|e| e.to_string())?; Ok(v * 0 + {val('p')}) }}); got.extend(v.map(|v| v.unwrap()))")
        run("a string", f"let v = {it}(w_, k, |p: &Pos| format!(\"{{}}\", {val('p')})); got.extend(v.map(|v| v.parse::<u64>().unwrap()))")
        run("a nested Option", f"let v: Option<Option<u64>> = {it}(w_, k, |p: &Pos| None); r.eq(0, \"present\", v.is_some() as u64, (k.archetype_id() != 2) as u64); got.extend(v.flatten())", "&[]")
        run("unit", f"let v: Option<()> = {it}(w_, k, |p: &Pos| {{ got.push({val('p')}); }}); r.eq(0, \"present\", v.is_some() as u64, (k.archetype_id() != 2) as u64)")
        run("no parameters", f"let v = {it}(w_, k, | | {{ got.push(7); }}); r.eq(0, \"present\", v.is_some() as u64, 1)", "&[7; 8]")
        run("all parameters are _", f"{it}(w_, k, |_: &Pos, _: &Entity<_>| {{ got.push(7); }})", "&[7; 6]")
        run("a trailing comma", f"{it}(w_, k, |p: &Pos, _: &EntityAny,| {{ got.push({val('p')}); }})")
        run("a body that is a match", f"got.extend({it}(w_, k, |p: &Pos| match {val('p')} {{ 1 => 1u64, v => v }}))")
        run("loops in the body", f"{it}(w_, k, |p: &Pos| {{ for x in 0.. {{ if x < {val('p')} {{ continue; }} got.push(x); break; }} }})")
        run("in a condition", f"if {it}(w_, k, |p: &Pos| {val('p')} > 5).unwrap_or(false) {{ got.push(1); }}", "&[1, 1, 1, 1]")
        run("from a macro of the caller", f"find_by_macro!(ecs_{mac}, w_, *k, q, {{ got.push({val('q')}); }})")
        run("a method of the caller", f"V(&mut w_).go(*k, &mut got)", pre=f"struct V<'a>(&'a mut TheWorld); impl V<'_> {{ fn go(&mut self, k: EntityAny, got: &mut Vec<u64>) -> Option<()> {{ let v = {it}(self.0, k, |p: &Pos| {val('p')})?; got.push(v); Some(()) }} }} ")
        for form, pre in (("h.world", "let mut h = Holder { world: w_, many: vec![], boxed: Box::new(TheWorld::new()), pair: (0, TheWorld::new()) }; "),
                          ("h.many[1]", "let mut h = Holder { world: TheWorld::new(), many: vec![TheWorld::new(), w_], boxed: Box::new(TheWorld::new()), pair: (0, TheWorld::new()) }; "),
                          ("h.boxed", "let mut h = Holder { world: TheWorld::new(), many: vec![], boxed: Box::new(w_), pair: (0, TheWorld::new()) }; "),
                          ("h.pair.1", "let mut h = Holder { world: TheWorld::new(), many: vec![], boxed: Box::new(TheWorld::new()), pair: (0, w_) }; "),
                          ("(w_)", ""), ("(*m)", "let m = &mut w_; "), ("m", "let mut m = &mut &mut w_; "), ("through(&mut w_)", "")):
            run(f"the world is {form}", f"{it}({form}, *k, |p: &Pos| {{ got.push({val('p')}); }})", pre=pre)
    return out


TWO = """pub mod a { use super::*; ecs_world! { ecs_name!(EcsWorld); ecs_archetype!(Foo, Pos, PosX); ecs_archetype!(Bar, PosX); }
  pub fn all(w: &mut EcsWorld) -> Vec<u32> { let mut v = vec![]; ecs_iter!(w, |p: &Pos| { v.push(p.clone().value().clone()); }); ecs_iter_borrow!(w, |p: &Pos| { v.push(p.clone().value().clone()); }); v } }
pub mod b { use super::*; ecs_world! { ecs_name!(EcsWorld); ecs_archetype!(Foo, PosX); ecs_archetype!(Bar, PosX, Pos); ecs_archetype!(Baz, Pos); }
  pub fn all(w: &mut EcsWorld) -> Vec<u32> { let mut v = vec![]; ecs_iter!(w, |p: &Pos| { v.push(p.clone().value().clone()); }); ecs_iter_borrow!(w, |p: &Pos| { v.push(p.clone().value().clone()); }); v } }
pub mod c { ecs_world! { ecs_name!(Other); ecs_archetype!(Foo, Pos); } use super::*; }
"""
TWO_TEXT = """pub fn two(r: &mut Rec) {
  let mut x = a::EcsWorld::new(); let mut y = b::EcsWorld::new(); let mut z = c::Other::new();
  let xf = x.create::<a::Foo>((Pos::make(1), PosX::make(2))); let xb = x.create::<a::Bar>((PosX::make(3),));
  let yf = y.create::<b::Foo>((PosX::make(4),)); let yb = y.create::<b::Bar>((PosX::make(5), Pos::make(6))); let yz = y.create::<b::Baz>((Pos::make(7),));
  let zf = z.create::<c::Foo>((Pos::make(8),));
  r.eq(0, "first world", (a::all(&mut x) == [1, 1]) as u64, 1);
  r.eq(0, "second world", (b::all(&mut y) == [6, 7, 6, 7]) as u64, 1);
  { use b::*; let mut n = 0; ecs_iter_destroy!(y, |p: &Pos, _: &Entity<Baz>| { n += *p.clone().value(); EcsStepDestroy::ContinueDestroy }); r.eq(0, "destroyed in the second world", n as u64, 7); }
  { use a::*; r.eq(0, "find in the first world", ecs_find!(x, xf, |p: &Pos| *p.clone().value()).unwrap() as u64, 1); r.eq(0, "no match", ecs_find!(x, xb, |p: &Pos| *p.clone().value()).is_none() as u64, 1); }
  { use b::*; r.eq(0, "find in the second world", ecs_find!(y, yb, |p: &Pos| *p.clone().value()).unwrap() as u64, 6); r.eq(0, "no match", ecs_find!(y, yf, |p: &Pos| *p.clone().value()).is_none() as u64, 1);
    r.eq(0, "destroyed", ecs_find!(y, yz, |p: &Pos| *p.clone().value()).is_none() as u64, 1); }
  { use c::*; r.eq(0, "find in the third world", ecs_find!(z, zf, |p: &Pos| *p.clone().value()).unwrap() as u64, 8); }
}"""


def batches(kinds):
    init = "    let mut r = Rec::default();\n"
    mine = [u for k, u in units() if k in kinds]
    out = [Batch(f"forms-{at}", emit.HEAD, DECL, mine[at:at + 60], init) for at in range(0, len(mine), 60)]
    out.append(Batch("forms-worlds", emit.HEAD, TWO, [Unit(0, "three worlds in one crate, two of the same name", TWO_TEXT, "two(&mut r)")], init))
    return out


def group(kinds, n):
    return {"forms": {"what": f"every way to write ecs_{'/'.join(kinds)}: names in and around the closure, bodies, worlds, keys", "good": n, "bad": 0, "states": n, "sample": ""}}


def check(res, prop, kinds):
    t0 = time.time()
    runner = Runner(res, prop, Toolchain((), f"programs-{prop}").build())
    work = batches(kinds)
    runner.all(work)
    book(res, group(kinds, sum(len(b.units) for b in work)), t0)
