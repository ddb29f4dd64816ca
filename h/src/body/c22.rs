/// Ownerships of one device.
pub fn own_case(c: &mut Case) -> R {
    el_types!(c, own_t)
}
fn own_t<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let cls = pick_cls(r);
    let shape = gen_shape(r, 0, 4, cls);
    let bc = r.chance(1, 4);
    let sp = if r.chance(1, 4) { contig_spec(&shape, r.bool()) } else { gen_layout(r, &shape, bc) };
    let mut raw: Vec<T> = raw_of(sp.len);
    let keep = raw.clone();
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    let steps: Vec<usize> = (0..2 + r.below(4)).map(|_| r.below(7)).collect();
    let start = r.below(4);
    c.d(format!("{} start {start} steps {steps:?} colm {colm} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 {
        c.nontrivial();
    }
    // from the source to an owned array
    let mut t: rt::Tensor<T, B, IxD> = match start {
        0 => rt::asarray((raw.clone(), lay(&sp), d)),
        1 => {
            let v = rt::asarray((&raw, lay(&sp), d));
            let u = v.view();
            ensure!(m.size() == 0 || u.as_ptr() as usize == raw.as_ptr() as usize + sp.offset * std::mem::size_of::<T>(), "the view is elsewhere");
            if r_bool(c) { v.to_owned() } else { v.into_owned_keep_layout() }
        },
        2 => {
            let v = rt::asarray((&mut raw, lay(&sp), d));
            if r_bool(c) { v.into_owned() } else { v.to_owned() }
        },
        _ => {
            let v = rt::asarray((&raw, lay(&sp), d)).into_cow();
            if r_bool(c) { v.clone().into_owned() } else { v.into_owned() }
        },
    };
    ensure!(raw == keep, "the source changed");
    for s in &steps {
        same("converted array", &obs!(t.view()), &m)?;
        t = match s {
            0 => t.into_owned(),
            1 => t.into_shared().into_owned(),
            2 => {
                let a = t.into_shared();
                let b = a.view().to_owned();
                same("copy", &obs!(b), &m)?;
                a.into_owned_keep_layout()
            },
            3 => t.into_cow().into_owned(),
            4 => t.clone(),
            5 => t.into_shared_keep_layout().into_owned(),
            _ => t.into_owned_keep_layout(),
        };
        c.hit("conversion");
    }
    same("converted array", &obs!(t.view()), &m)?;
    // the last one is independent of all others
    if m.size() > 0 {
        let copy = t.clone();
        let at: Vec<usize> = shape.iter().map(|&n| c.rng.below(n)).collect();
        let mut v = t.view_mut();
        v[&at] = T::el(4321);
        ensure!(t[&at] == T::el(4321), "not written");
        same("clone", &obs!(copy), &m)?;
    }
    ensure!(raw == keep, "the source changed");
    Ok(())
}
fn r_bool(c: &mut Case) -> bool {
    c.rng.bool()
}

/// Plain vectors and scalars.
pub fn vec_case(c: &mut Case) -> R {
    el_types!(c, vec_t)
}
fn vec_t<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let form = r.below(8);
    let rank = if r.chance(1, 5) { r.below(4) } else { 1 };
    let shape: Vec<usize> = match form {
        7 => (0..r.below(5)).map(|_| if r.chance(1, 6) { r.below(3) } else { 1 }).collect(),
        _ => (0..rank).map(|_| if r.chance(1, 5) { r.below(2) } else { r.below(40) }).collect(),
    };
    let bc = r.chance(1, 4);
    let sp = if r.chance(1, 3) { contig_spec(&shape, r.bool()) } else { gen_layout(r, &shape, bc) };
    let raw: Vec<T> = raw_of(sp.len);
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    c.d(format!("{} form {form} colm {colm} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 {
        c.nontrivial();
    }
    let text = |e: rt::Error| format!("{e:?}");
    let view = || rt::asarray((&raw, lay(&sp), d));
    let own = || rt::asarray((raw.clone(), lay(&sp), d));
    if form == 7 {
        let got = no_panic(|| if r_bool(c) { view().to_scalar_f() } else { own().to_scalar_f() })?;
        if m.size() == 1 {
            ensure!(got.map_err(text)? == m.data[0], "scalar");
            ensure!(no_panic(|| view().to_scalar())? == m.data[0], "scalar");
            c.hit("scalar");
        } else {
            ensure!(got.is_err(), "a scalar of {} elements", m.size());
        }
        return Ok(());
    }
    let got: std::result::Result<Vec<T>, _> = no_panic(|| match form {
        0 => view().to_raw_f(),
        1 => own().to_raw_f(),
        2 => own().into_raw_f(),
        3 => own().into_vec_f(),
        4 => view().into_owned().into_vec_f(),
        5 => view().into_owned_keep_layout().into_raw_f(),
        _ => view().into_cow().to_raw_f(),
    })?;
    if shape.len() != 1 {
        ensure!(got.is_err(), "a vector of {} axes", shape.len());
        return Ok(());
    }
    let got = got.map_err(text)?;
    ensure!(got == m.data, "vector {got:?} instead of {:?}", m.data);
    c.hit("vector");
    let got = no_panic(|| match form {
        0 | 1 => view().to_vec(),
        2 => own().to_vec(),
        3 => own().into_vec(),
        4 => own().into_raw(),
        5 => view().to_dim::<Ix1>().to_vec(),
        _ => own().into_dim::<Ix1>().into_vec(),
    })?;
    ensure!(got == m.data, "vector {got:?} instead of {:?}", m.data);
    // and in again
    let again = rt::asarray((got.clone(), d));
    same("imported vector", &obs!(again), &m)?;
    let again = rt::asarray((&got, d));
    ensure!(got.is_empty() || again.as_ptr() == got.as_ptr(), "the imported slice is elsewhere");
    same("imported slice", &obs!(again), &m)
}

/// Arrays as matrices of faer.
pub fn faer_case(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => faer_t::<i32>(c),
        1 => faer_t::<C32>(c),
        2 => faer_t::<String>(c),
        _ => faer_t::<f64>(c),
    }
}
fn faer_t<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let shape = [r.below(9), r.below(9)];
    let mutable = r.bool();
    let bc = !mutable && r.chance(1, 4);
    let sp = gen_layout(r, &shape, bc);
    let mut raw: Vec<T> = raw_of(sp.len);
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    c.d(format!("{} mutable {mutable} colm {colm} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 {
        c.nontrivial();
    }
    let base = raw.as_ptr();
    let at = |i: usize, j: usize| (sp.offset as isize + i as isize * sp.stride[0] + j as isize * sp.stride[1]) as usize;
    if !mutable {
        let t = rt::asarray((&raw, lay(&sp), d));
        let f = no_panic(|| t.to_dim::<Ix2>().into_faer())?;
        ensure!([f.nrows(), f.ncols()] == shape, "{} x {}", f.nrows(), f.ncols());
        for i in 0..shape[0] {
            for j in 0..shape[1] {
                ensure!(f[(i, j)] == *m.at(&[i, j]) && std::ptr::eq(&f[(i, j)], unsafe { base.add(at(i, j)) }), "entry ({i}, {j})");
            }
        }
        c.hit("borrowed");
        return Ok(());
    }
    let keep = raw.clone();
    let (x, y) = (c.rng.below(shape[0].max(1)), c.rng.below(shape[1].max(1)));
    {
        let t = rt::asarray((&mut raw, lay(&sp), d));
        let mut f = no_panic(|| t.into_dim::<Ix2>().into_faer())?;
        ensure!([f.nrows(), f.ncols()] == shape, "{} x {}", f.nrows(), f.ncols());
        for i in 0..shape[0] {
            for j in 0..shape[1] {
                ensure!(f[(i, j)] == *m.at(&[i, j]), "entry ({i}, {j})");
            }
        }
        if m.size() > 0 {
            f[(x, y)] = T::el(31);
        }
    }
    let mut want = keep;
    if m.size() > 0 {
        want[at(x, y)] = T::el(31);
    }
    ensure!(raw == want, "written through faer: {raw:?} instead of {want:?}");
    c.hit("written through");
    Ok(())
}
