//! Histories on a world with a single archetype of a given component count.

/// Declares `run(ch, depth)` for a one-archetype world (`ArchS`), next to its `ecs_world!`.
#[macro_export]
macro_rules! shape_impl {
    ($World:ident, $Caps:ident, $n:literal, [$( $ci:literal $C:ident $c:ident ),*]) => {
        type Row = [u32; $n];

        fn norm(raw: &Row) -> Row {
            use $crate::reg::Comp;
            [$(<$C as Comp>::norm(raw[$ci])),*]
        }

        fn make(raw: &Row) -> ($($C,)*) {
            use $crate::reg::Comp;
            ($(<$C as Comp>::make(raw[$ci]),)*)
        }

        /// All read paths of all entities.
        fn check(world: &mut $World, model: &[(Entity<ArchS>, Row)], ch: &mut $crate::explore::Ch) -> $crate::explore::R {
            use $crate::reg::Comp;
            let n = model.len();
            $crate::ensure!(world.archetype::<ArchS>().len() == n, "len is {} with {n} entities", world.archetype::<ArchS>().len());
            let same = |what: &str, e: &Entity<ArchS>, got: Row| -> $crate::explore::R {
                match model.iter().find(|m| m.0 == *e) {
                    None => $crate::fail!("{what} presented {e:?}, which is not alive"),
                    Some((_, want)) => $crate::ensure!(got == *want, "{what} shows {got:x?} for {e:?}, its values are {want:x?}"),
                }
                Ok(())
            };
            for (e, _) in model.iter() {
                let e = *e;
                let Some(got) = ecs_find!(world, e, |x: &Entity<ArchS>, $($c: &$C),*| (*x, [$($c.get()),*])) else { $crate::fail!("ecs_find! refuses {e:?}") };
                $crate::ensure!(got.0 == e, "ecs_find! found another entity");
                same("ecs_find!", &e, got.1)?;
                let Some(got) = ecs_find_borrow!(world, e, |$($c: &mut $C,)* x: &EntityAny| (*x, [$($c.get()),*])) else { $crate::fail!("ecs_find_borrow! refuses {e:?}") };
                $crate::ensure!(got.0 == e.into_any(), "ecs_find_borrow! found another entity");
                same("ecs_find_borrow!", &e, got.1)?;
                {
                    let Some(view) = world.view(e) else { $crate::fail!("view refuses {e:?}") };
                    same("view fields", &e, [$(view.$c.get()),*])?;
                    same("View::component", &e, [$(View::component::<$C>(&view).get()),*])?;
                }
                {
                    let Some(b) = world.borrow(e) else { $crate::fail!("borrow refuses {e:?}") };
                    same("Borrow::component", &e, [$(Borrow::component::<$C>(&b).get()),*])?;
                    same("Borrow::component_mut", &e, [$(Borrow::component_mut::<$C>(&b).get()),*])?;
                }
                let Some(i) = world.archetype::<ArchS>().resolve(e) else { $crate::fail!("resolve refuses {e:?}") };
                let arch = world.archetype_mut::<ArchS>();
                same("get_slice", &e, [$(arch.get_slice::<$C>()[i].get()),*])?;
                same("get_slice_mut", &e, [$(arch.get_slice_mut::<$C>()[i].get()),*])?;
                same("borrow_slice", &e, [$(arch.borrow_slice::<$C>()[i].get()),*])?;
                same("borrow_slice_mut", &e, [$(arch.borrow_slice_mut::<$C>()[i].get()),*])?;
                let all = arch.get_all_slices_mut();
                same("get_all_slices_mut", &e, [$(all.$c[i].get()),*])?;
                ch.stats.probes += 12;
            }
            let mut err: $crate::explore::R = Ok(());
            let mut keep = |r: $crate::explore::R| if r.is_err() && err.is_ok() { err = r };
            let mut k = 0;
            for (e, $($c),*) in world.archetype_mut::<ArchS>().iter() { k += 1; keep(same("iter", e, [$($c.get()),*])); }
            for (e, $($c),*) in world.archetype_mut::<ArchS>().iter_mut() { k += 1; keep(same("iter_mut", e, [$($c.get()),*])); }
            ecs_iter!(world, |e: &Entity<ArchS>, $($c: &$C),*| { k += 1; keep(same("ecs_iter!", e, [$($c.get()),*])); });
            ecs_iter_borrow!(world, |$($c: &mut $C,)* e: &Entity<_>| { k += 1; keep(same("ecs_iter_borrow!", e, [$($c.get()),*])); });
            ecs_iter_destroy!(world, |$($c: &mut $C,)* e: &Entity<ArchS>| { k += 1; keep(same("ecs_iter_destroy!", e, [$($c.get()),*])); EcsStepDestroy::Continue });
            err?;
            $crate::ensure!(k == 5 * n, "five passes over {n} entities presented {k} items");
            ch.stats.probes += 5;
            $crate::sys::health()
        }

        fn serial_of(raw: &Row) -> usize {
            (raw[0] >> 6) as usize
        }

        /// Every way in which components are handed over, and, if there is no room, handed back.
        fn create(world: &mut $World, raw: &Row, how: usize) -> $crate::explore::R<Entity<ArchS>> {
            let ($($c,)*) = make(raw);
            let room = world.archetype::<ArchS>().len() < world.archetype::<ArchS>().capacity();
            let tried = match how {
                0 => return Ok(world.create::<ArchS>(($($c,)*))),
                1 => return Ok(world.create::<ArchS>(ArchSComponents { $($c),* })),
                2 => return Ok(world.archetype_mut::<ArchS>().create(ArchSComponents { $($c),* })),
                3 => return Ok(world.archetype_mut::<ArchS>().create(ArchSComponents::from(($($c,)*)))),
                4 => world.create_within_capacity::<ArchS>(ArchSComponents { $($c),* }),
                _ => world.archetype_mut::<ArchS>().create_within_capacity(($($c,)*)),
            };
            $crate::ensure!(tried.is_ok() == room, "create_within_capacity with len {} and capacity {} says {}", world.archetype::<ArchS>().len(), world.archetype::<ArchS>().capacity(), tried.is_ok());
            match tried {
                Ok(e) => Ok(e),
                Err(data) => {
                    returned("create_within_capacity", data, &norm(raw), how + raw[0] as usize)?;
                    Ok(world.create::<ArchS>(make(raw)))
                }
            }
        }

        /// Every way to look at components that were handed back.
        fn returned(what: &str, mut data: ArchSComponents, want: &Row, how: usize) -> $crate::explore::R {
            use $crate::reg::Comp;
            let same = |by: &str, got: Row| -> $crate::explore::R {
                $crate::ensure!(got == *want, "{what} returned {got:x?} by {by}, the values are {want:x?}");
                Ok(())
            };
            same("get", [$(<_ as Components>::get::<$C>(&data).get()),*])?;
            same("get_mut", [$(<_ as Components>::get_mut::<$C>(&mut data).get()),*])?;
            same("its fields", [$(data.$c.get()),*])?;
            match how % 3 {
                0 => {
                    let ($($c,)*) = data.into_tuple();
                    same("into_tuple", [$($c.get()),*])
                }
                1 => {
                    let ($($c,)*): ($($C,)*) = data.into();
                    same("into", [$($c.get()),*])
                }
                _ => {
                    let ArchSComponents { $($c),* } = data;
                    same("taking it apart", [$($c.get()),*])
                }
            }
        }

        pub fn run(ch: &mut $crate::explore::Ch, depth: usize) -> $crate::explore::R {
            use $crate::reg::Comp;
            let cap = [0, 1, 3][ch.choose(3)?];
            let mut world: $World = World::with_capacity($Caps { arch_s: cap });
            let mut model: Vec<(Entity<ArchS>, Row)> = Vec::new();
            let mut serial = 0u32;
            let mut fresh = || -> Row {
                serial += 1;
                std::array::from_fn(|i| serial << 6 | i as u32)
            };
            let n = ch.choose(4)?;
            for _ in 0..n {
                let raw = fresh();
                let e = create(&mut world, &raw, serial_of(&raw) % 6)?;
                model.push((e, norm(&raw)));
                ch.step();
            }
            ch.note(|| format!("{} components, capacity {cap}, {n} entities", $n));
            if ch.state() { check(&mut world, &model, ch)?; }
            for _ in 0..depth {
                // create | clone | destroy each | write each component of each entity
                let k = ch.choose(2 + model.len() + model.len() * $n)?;
                if k == 0 {
                    let raw = fresh();
                    let how = (serial_of(&raw) + ch.path().len()) % 6;
                    ch.note(|| format!("create by way {how}"));
                    let e = create(&mut world, &raw, how)?;
                    model.push((e, norm(&raw)));
                } else if k == 1 {
                    ch.note(|| "clone, drop the original".into());
                    let copy = world.clone();
                    world = copy;
                } else if k < 2 + model.len() {
                    let (e, want) = model.remove(k - 2);
                    let how = (model.len() + ch.path().len()) % 6;
                    ch.note(|| format!("destroy {e:?} by way {how}"));
                    let found = match how {
                        0 | 1 => world.destroy(e),
                        2 => world.archetype_mut::<ArchS>().destroy(e),
                        3 => world.archetype_mut::<ArchS>().destroy(e.into_any()),
                        4 => { let d = world.to_direct(e).unwrap(); world.destroy(d) }
                        _ => { let d = world.to_direct(e.into_any()).unwrap(); world.archetype_mut::<ArchS>().destroy(d) }
                    };
                    let Some(data) = found else { $crate::fail!("destroy refuses {e:?}") };
                    returned(&format!("destroy of {e:?} by way {how}"), data, &want, how)?;
                } else {
                    let k = k - 2 - model.len();
                    let (i, comp) = (k / $n, k % $n);
                    let e = model[i].0;
                    let raw = fresh();
                    // The path varies with the position of the choice, so every component sees them all.
                    let how = (k + ch.path().len()) % 6;
                    ch.note(|| format!("write component {comp} of {e:?} by way {how}"));
                    match comp {
                        $($ci => match how {
                            0 => { ecs_find!(world, e, |$c: &mut $C| $c.set(raw[$ci])).unwrap(); }
                            1 => { world.view(e).unwrap().$c.set(raw[$ci]); }
                            2 => { View::component_mut::<$C>(&mut world.view(e).unwrap()).set(raw[$ci]); }
                            3 => { Borrow::component_mut::<$C>(&world.borrow(e).unwrap()).set(raw[$ci]); }
                            4 => {
                                let i = world.archetype::<ArchS>().resolve(e).unwrap();
                                world.archetype::<ArchS>().borrow_slice_mut::<$C>()[i].set(raw[$ci]);
                            }
                            _ => { ecs_iter_borrow!(world, |x: &EntityAny, $c: &mut $C| if *x == e.into_any() { $c.set(raw[$ci]) }); }
                        },)*
                        _ => unreachable!(),
                    }
                    model[i].1[comp] = norm(&raw)[comp];
                }
                ch.step();
                if ch.state() { check(&mut world, &model, ch)?; }
            }
            Ok(())
        }

        /// A panic in the k-th clone or drop of every operation that clones or drops, for every k.
        pub fn faults(ch: &mut $crate::explore::Ch) -> $crate::explore::R {
            use $crate::explore::panics;
            use $crate::reg::{self, Comp};
            let cap = [0, 3][ch.choose(2)?];
            let mut world: $World = World::with_capacity($Caps { arch_s: cap });
            let mut model: Vec<(Entity<ArchS>, Row)> = Vec::new();
            let mut serial = 0u32;
            let mut fresh = || -> Row {
                serial += 1;
                std::array::from_fn(|i| serial << 6 | i as u32)
            };
            let n = 1 + ch.choose(3)?;
            for _ in 0..n {
                let raw = fresh();
                let e = world.create::<ArchS>(make(&raw));
                model.push((e, norm(&raw)));
            }
            let each = (0 $(+ <$C as Comp>::COUNTS.0 + <$C as Comp>::COUNTS.1)*) as usize;
            ch.note(|| format!("{} components ({each} with destructors), capacity {cap}, {n} entities", $n));
            let kind = ch.choose(6)?;
            let points = match kind { 0 | 1 | 2 => n * each, 3 => n * each, 4 => each, _ => n };
            if points == 0 {
                return Ok(());
            }
            let k = ch.choose(points)?;
            ch.step();
            ch.stats.faults += 1;
            ch.note(|| format!("{} panics at {k}", ["clone", "drop of the clone", "drop of the world", "destroying loop", "destroy", "closure"][kind]));
            let mut gone: Vec<Entity<ArchS>> = Vec::new();
            let r = match kind {
                0 => {
                    reg::arm_clone(k);
                    panics(|| drop(world.clone()))
                }
                1 => {
                    let copy = world.clone();
                    reg::arm_drop(k);
                    panics(|| drop(copy))
                }
                2 => {
                    let copy = world.clone();
                    reg::arm_drop(k);
                    let r = panics(|| drop(std::mem::replace(&mut world, copy)));
                    r
                }
                3 => {
                    reg::arm_drop(k);
                    panics(|| ecs_iter_destroy!(world, |e: &Entity<ArchS>, $($c: &$C),*| {
                        $( let _ = $c.get(); )*
                        gone.push(*e);
                        EcsStepDestroy::ContinueDestroy
                    }))
                }
                4 => {
                    let e = model[n / 2].0;
                    gone.push(e);
                    reg::arm_drop(k);
                    panics(|| { world.destroy(e.into_any()); })
                }
                _ => {
                    let mut i = 0;
                    panics(|| ecs_iter_borrow!(world, |$($c: &mut $C),*| {
                        $( let _ = $c.get(); )*
                        if i == k {
                            panic!("injected: closure");
                        }
                        i += 1;
                    }))
                }
            };
            let armed = reg::disarm();
            $crate::ensure!(r.is_none(), "the panic was swallowed or its point was not reached");
            $crate::ensure!(!armed, "not every component was cloned or dropped");
            // Entities that were being destroyed are either there or not.
            for e in gone {
                if !world.contains(e) {
                    model.retain(|m| m.0 != e);
                }
            }
            if ch.state() {
                check(&mut world, &model, ch)?;
                let have = reg::live();
                let want = ((0 $(+ <$C as Comp>::COUNTS.0)*) * model.len() as i64, (0 $(+ <$C as Comp>::COUNTS.1)*) * model.len() as i64);
                $crate::ensure!(have == want, "{have:?} components are alive, {} entities own {want:?}", model.len());
            }
            let raw = fresh();
            let e = world.create::<ArchS>(make(&raw));
            model.push((e, norm(&raw)));
            let copy = world.clone();
            drop(std::mem::replace(&mut world, copy));
            if ch.state() { check(&mut world, &model, ch)?; }
            $crate::sys::health()
        }

        /// Every pair of column accesses, each shared or mutable, by slice or by entity.
        pub fn borrows(ch: &mut $crate::explore::Ch) -> $crate::explore::R {
            use $crate::explore::panics;
            use $crate::reg::Comp;
            let mut world: $World = World::with_capacity($Caps { arch_s: 2 });
            let rows: Vec<Row> = (1..3u32).map(|k| std::array::from_fn(|i| k << 6 | i as u32)).collect();
            let mut model: Vec<(Entity<ArchS>, Row)> = Vec::new();
            for raw in &rows {
                let e = world.create::<ArchS>(make(raw));
                model.push((e, norm(raw)));
            }
            let x = ch.choose($n)?;
            let y = ch.choose($n)?;
            let (way_x, way_y) = (ch.choose(6)?, ch.choose(6)?);
            ch.note(|| format!("column {x} by way {way_x}, meanwhile column {y} by way {way_y}"));
            // Ways: 0/1 slice, 2/3 entity, 4/5 query; odd is mutable.
            let ok = x != y || (way_x & 1 == 0 && way_y & 1 == 0);
            ch.step();
            if !ch.state() {
                return Ok(());
            }
            let w = &world;
            let e = model[0].0;
            let other = model[1].0;
            let mut got: Option<u32> = None;
            let second = |got: &mut Option<u32>| match y {
                $($ci => {
                    let i = w.archetype::<ArchS>().resolve(other).unwrap();
                    *got = match way_y {
                        0 => panics(|| w.archetype::<ArchS>().borrow_slice::<$C>()[i].get()),
                        1 => panics(|| w.archetype::<ArchS>().borrow_slice_mut::<$C>()[i].get()),
                        2 => panics(|| w.borrow(other).unwrap().component::<$C>().get()),
                        3 => panics(|| w.borrow(other).unwrap().component_mut::<$C>().get()),
                        4 => panics(|| ecs_find_borrow!(w, other, |c: &$C| c.get()).unwrap()),
                        _ => panics(|| ecs_find_borrow!(w, other, |c: &mut $C| c.get()).unwrap()),
                    };
                },)*
                _ => unreachable!(),
            };
            match x {
                $($ci => match way_x {
                    0 => { let _g = w.archetype::<ArchS>().borrow_slice::<$C>(); second(&mut got) }
                    1 => { let _g = w.archetype::<ArchS>().borrow_slice_mut::<$C>(); second(&mut got) }
                    2 => { let b = w.borrow(e).unwrap(); let _g = b.component::<$C>(); second(&mut got) }
                    3 => { let b = w.borrow(e).unwrap(); let _g = b.component_mut::<$C>(); second(&mut got) }
                    4 => { ecs_find_borrow!(w, e, |_c: &$C| second(&mut got)); }
                    _ => { ecs_find_borrow!(w, e, |_c: &mut $C| second(&mut got)); }
                },)*
                _ => unreachable!(),
            }
            ch.stats.probes += 1;
            match got {
                None => $crate::ensure!(!ok, "refused although nothing conflicts: {}", $crate::explore::last_panic()),
                Some(v) => {
                    $crate::ensure!(ok, "granted although the column is borrowed in conflict");
                    $crate::ensure!(v == model[1].1[y], "reads {v:#x} instead of {:#x}", model[1].1[y]);
                }
            }
            check(&mut world, &model, ch)
        }
    };
}
