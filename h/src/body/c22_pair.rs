pub fn device_case(c: &mut Case) -> R {
    el_types!(c, device_t)
}
fn device_t<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (da, db, ca, cb) = ends(r);
    let cls = pick_cls(r);
    let shape = gen_shape(r, 0, 4, cls);
    let bc = r.chance(1, 4);
    let sp = gen_layout(r, &shape, bc);
    let kind = r.below(6);
    let form = r.below(3);
    let fallible = r.bool();
    let mut raw: Vec<T> = raw_of(sp.len);
    let keep = raw.clone();
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    c.d(format!("{} kind {kind} form {form} fallible {fallible} orders {ca} {cb} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 {
        c.nontrivial();
    }
    let base = raw.as_ptr() as usize;
    macro_rules! judge {
        ($t:ident, $alias:expr) => {{
            let t = $t;
            ensure!(t.device().same_device(db) && t.device().default_order() == db.default_order(), "not on the other device");
            if $alias && m.size() > 0 {
                ensure!(t.as_ptr() as usize == base + sp.offset * std::mem::size_of::<T>(), "the borrowed array is elsewhere");
            }
            same("array on the other device", &obs!(t.view()), &m)?;
            t
        }};
    }
    macro_rules! go {
        ($t:ident, change, $alias:expr) => {{
            let u = if fallible { no_panic(|| $t.change_device_f(db))?.map_err(|e| format!("{e:?}"))? } else { no_panic(|| $t.change_device(db))? };
            judge!(u, $alias)
        }};
        ($t:ident, into, $alias:expr) => {{
            let u = if fallible { no_panic(|| $t.into_device_f(db))?.map_err(|e| format!("{e:?}"))? } else { no_panic(|| $t.into_device(db))? };
            let mut u = judge!(u, false);
            // it is its own
            u.view_mut().map_mut_with_flag();
            u
        }};
        ($t:ident, to, $alias:expr) => {{
            let u = if fallible { no_panic(|| $t.to_device_f(db))?.map_err(|e| format!("{e:?}"))? } else { no_panic(|| $t.to_device(db))? };
            judge!(u, $alias);
        }};
    }
    /// An owned array can be written.
    trait Own {
        fn map_mut_with_flag(self);
    }
    impl<T: El> Own for rt::TensorMut<'_, T, BB, IxD> {
        fn map_mut_with_flag(mut self) {
            if self.size() > 0 {
                let at = vec![0; self.ndim()];
                self[&at] = T::el(9999);
            }
        }
    }
    match kind {
        // owned
        0 => {
            let t = rt::asarray((raw, lay(&sp), da));
            match form {
                0 => drop(go!(t, change, true)),
                1 => drop(go!(t, into, false)),
                _ => go!(t, to, true),
            }
            return Ok(());
        },
        // borrowed
        1 => {
            let t = rt::asarray((&raw, lay(&sp), da));
            match form {
                0 => drop(go!(t, change, true)),
                1 => drop(go!(t, into, false)),
                _ => go!(t, to, true),
            }
        },
        // borrowed mutably
        2 | 3 => {
            let at: Vec<usize> = shape.iter().map(|&n| c.rng.below(n.max(1))).collect();
            let t = rt::asarray((&mut raw, lay(&sp), da));
            match form {
                1 => drop(go!(t, into, false)),
                2 => go!(t, to, true),
                _ => {
                    let mut t = go!(t, change, true);
                    if m.size() > 0 {
                        t[&at] = T::el(12345);
                    }
                    drop(t);
                    let mut want = keep;
                    if m.size() > 0 {
                        let p = sp.offset as isize + at.iter().zip(&sp.stride).map(|(&i, &s)| i as isize * s).sum::<isize>();
                        want[p as usize] = T::el(12345);
                    }
                    ensure!(raw == want, "written through the other device: {raw:?} instead of {want:?}");
                    c.hit("written through");
                    return Ok(());
                },
            }
        },
        // shared
        4 => {
            let second = Arc::new(raw.clone());
            let t = unsafe { rt::TensorArc::<T, BA, IxD>::new_unchecked(Storage::new(DataArc::from(second.clone()), da.clone()), lay(&sp)) };
            match form {
                0 => {
                    let base = t.as_ptr() as usize;
                    let u = no_panic(|| t.change_device(db))?;
                    ensure!(m.size() == 0 || u.as_ptr() as usize == base, "the shared array is elsewhere");
                    let u = judge!(u, false);
                    drop(u);
                },
                1 => drop(go!(t, into, false)),
                _ => {
                    let base = t.as_ptr() as usize;
                    let u = t.to_device(db);
                    ensure!(m.size() == 0 || u.as_ptr() as usize == base, "the shared array is elsewhere");
                    judge!(u, false);
                },
            }
            ensure!(*second == raw, "the other holder sees {second:?}");
        },
        // borrowed or owned
        _ => {
            let own = c.rng.bool();
            let t = if own { rt::asarray((raw.clone(), lay(&sp), da)).into_cow() } else { rt::asarray((&raw, lay(&sp), da)).into_cow() };
            match form {
                0 => drop(go!(t, change, !own)),
                1 => drop(go!(t, into, false)),
                _ => go!(t, to, !own),
            }
        },
    }
    ensure!(raw == keep, "the source changed");
    Ok(())
}
