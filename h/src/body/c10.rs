macro_rules! types {
    ($c:ident, $f:ident) => {
        match $c.rng.below(5) {
            0 => $f::<i64>($c),
            1 => $f::<f64>($c),
            2 => $f::<C32>($c),
            3 => $f::<u8>($c),
            _ => $f::<String>($c),
        }
    };
}

fn bc(r: &mut Rng, sh: &[usize]) -> Spec {
    let b = r.chance(1, 6);
    gen_layout(r, sh, b)
}

fn select_ty<T: V + Default + PartialEq>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let sh = one(&mut c.rng, 1, 5);
    let s = bc(&mut c.rng, &sh);
    let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let m = nd(&raw, &s);
    let axis = c.rng.below(sh.len());
    let n = sh[axis];
    let ax = sgn(&mut c.rng, axis, sh.len());
    let t = rt::asarray((&raw, lay(&s), dev));
    c.eval();
    if c.rng.chance(1, 3) {
        let p = *c.rng.pick(&[2usize, 2, 5]);
        let mask: Vec<bool> = (0..n).map(|_| c.rng.below(p) == 0).collect();
        let idx: Vec<usize> = (0..n).filter(|&i| mask[i]).collect();
        c.d(format!("bool_select {s} axis {ax} mask {mask:?}"));
        let want = select(&m, axis, &idx);
        if want.size() > 0 && idx.len() < n {
            c.nontrivial();
        }
        let got = match c.rng.below(3) {
            0 => obs!(t.bool_select(ax, mask)),
            1 => obs!(rt::bool_select(&t, ax, mask)),
            _ if sh.len() == 2 => obs!(t.to_dim::<Ix2>().bool_select(ax, &mask)),
            _ => obs!(t.bool_select(ax, &mask)),
        };
        return sim("bool_select", &got, &want);
    }
    let k = match c.rng.below(10) {
        _ if n == 0 => 0,
        0 => 0,
        1 => c.rng.usize(10, 60),
        _ => c.rng.usize(1, 8),
    };
    let idx: Vec<usize> = match c.rng.below(5) {
        0 if k <= n => c.rng.perm(n)[..k].to_vec(),
        1 => (0..k).map(|i| i % n.max(1)).collect(),
        _ => (0..k).map(|_| c.rng.below(n)).collect(),
    };
    let req: Vec<isize> = idx.iter().map(|&i| sgn(&mut c.rng, i, n)).collect();
    c.d(format!("index_select {s} axis {ax} indices {req:?}"));
    let want = select(&m, axis, &idx);
    if want.size() > 0 {
        c.nontrivial();
    }
    let got = match c.rng.below(6) {
        0 => obs!(t.take(&req, ax)),
        1 => obs!(rt::take(&t, req, ax)),
        2 => obs!(rt::index_select(&t, ax, req)),
        3 if idx.len() == 1 => obs!(t.index_select(ax, req[0])),
        3 if sh.len() == 2 => obs!(t.to_dim::<Ix2>().index_select(ax, &idx)),
        4 if sh.len() == 1 => obs!(t.to_dim::<Ix1>().take(req, ax)),
        4 if sh.len() == 3 => obs!(t.to_dim::<Ix3>().index_select(ax, req)),
        5 => obs!(t.index_select(ax, &idx)),
        _ => obs!(t.index_select(ax, req)),
    };
    sim("index_select", &got, &want)
}

/// Selection by index lists and masks.
pub fn select_case(c: &mut Case) -> R {
    types!(c, select_ty)
}

fn join_ty<T: V + Default + PartialEq>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let what = c.rng.below(8);
    let k = c.rng.usize(1, 5);
    let sh = one(&mut c.rng, if what == 0 || what == 4 { 1 } else { 0 }, 4);
    let nd_in = sh.len();
    // axis along which the parts may differ
    let axis = match what {
        0 => c.rng.below(nd_in),
        3 if nd_in <= 1 => 0,
        3 => 1,
        5 if nd_in == 1 => usize::MAX,
        4 | 5 => 0,
        _ => usize::MAX,
    };
    let mut specs = vec![];
    for _ in 0..k {
        let mut x = sh.clone();
        if axis < nd_in && c.rng.chance(2, 3) {
            x[axis] = c.rng.usize(0, 4);
        }
        specs.push(bc(&mut c.rng, &x));
    }
    let raws: Vec<Vec<T>> = specs.iter().map(|s| gen_raw(&mut c.rng, s.len)).collect();
    let ms: Vec<Nd<T>> = raws.iter().zip(&specs).map(|(r, s)| nd(r, s)).collect();
    let ts: Vec<_> = raws.iter().zip(&specs).map(|(r, s)| rt::asarray((r, lay(s), dev))).collect();
    let form = c.rng.below(4);
    c.eval();
    macro_rules! go {
        ($name:literal, $want:expr, $f:path $(, $x:expr)?) => {{
            let want = $want;
            c.d(format!("{} {form} {:?} {}", $name, vec![$($x as i64)?] as Vec<i64>, specs.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")));
            if want.size() > 0 && k > 1 {
                c.nontrivial();
            }
            let got = match form {
                0 => obs!($f((wrap!(ts.iter().map(|t| t.view()).collect::<Vec<_>>() $(, $x)?)))),
                1 => obs!($f((wrap!(ts.iter().collect::<Vec<_>>() $(, $x)?)))),
                2 => obs!($f((wrap!(&ts $(, $x)?)))),
                _ => {
                    if k == 2 {
                        obs!($f((wrap!([&ts[0], &ts[1]] $(, $x)?))))
                    } else {
                        obs!($f((wrap!(ts.iter().map(|t| t.to_owned()).collect::<Vec<_>>() $(, $x)?))))
                    }
                },
            };
            sim($name, &got, &want)?;
        }};
    }
    match what {
        0 => {
            let a = sgn(&mut c.rng, axis, nd_in);
            go!("concat", join(&ms, axis), rt::concat, a)
        },
        1 | 2 => {
            let at = c.rng.usize(0, nd_in);
            let e: Vec<Nd<T>> = ms.iter().map(|m| with_axes(m, &[at])).collect();
            let a = if c.rng.chance(1, 3) { at as isize - nd_in as isize - 1 } else { at as isize };
            go!("stack", join(&e, at), rt::stack, a)
        },
        3 => {
            let e: Vec<Nd<T>> = ms.iter().map(|m| atleast(m, 1)).collect();
            let ax = if e[0].shape.len() == 1 { 0 } else { 1 };
            go!("hstack", join(&e, ax), rt::hstack)
        },
        4 => go!("concat", join(&ms, 0), rt::concat),
        5 => {
            let e: Vec<Nd<T>> = ms.iter().map(|m| atleast(m, 2)).collect();
            go!("vstack", join(&e, 0), rt::vstack)
        },
        6 => {
            let e: Vec<Nd<T>> = ms.iter().map(|m| with_axes(m, &[0])).collect();
            go!("stack", join(&e, 0), rt::stack)
        },
        _ => {
            // parts given as arrays of fixed dimension
            let e: Vec<Nd<T>> = ms.iter().map(|m| with_axes(m, &[0])).collect();
            if nd_in == 2 {
                c.d(format!("stack fixed {}", specs.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")));
                let v: Vec<_> = ts.iter().map(|t| t.to_dim::<Ix2>()).collect();
                sim("stack", &obs!(rt::stack((v, 0isize))), &join(&e, 0))?;
            }
        },
    }
    for ((r, s), m) in raws.iter().zip(&specs).zip(&ms) {
        sim("input", &Ok(nd(r, s)), m)?;
    }
    Ok(())
}

/// concat, stack, hstack, vstack.
pub fn join_case(c: &mut Case) -> R {
    types!(c, join_ty)
}

/// unstack: the parts are views of the given array; putting them back together restores it.
pub fn split_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let sh = one(&mut c.rng, 1, 5);
    let s = bc(&mut c.rng, &sh);
    let raw: Vec<i64> = gen_raw(&mut c.rng, s.len);
    let m = nd(&raw, &s);
    let p = Nd { shape: s.shape.clone(), data: positions(s.len, &s.shape, &s.stride, s.offset).unwrap() };
    let axis = c.rng.below(sh.len());
    let ax = sgn(&mut c.rng, axis, sh.len());
    let t = rt::asarray((&raw, lay(&s), dev));
    c.d(format!("unstack {s} axis {ax}"));
    c.eval();
    if sh[axis] > 1 && m.size() > 0 {
        c.nontrivial();
    }
    let form = c.rng.below(3);
    let parts: Vec<TensorView<'_, i64, B, IxD>> = match form {
        0 => rt::unstack((&t, ax)),
        1 => rt::unstack((t.view(), ax)),
        _ if axis == 0 && c.rng.bool() => rt::unstack(&t),
        _ if axis == 0 => rt::unstack(t.view()),
        _ => rt::unstack((t.view(), ax)),
    };
    ensure!(parts.len() == sh[axis], "{} parts, wanted {}", parts.len(), sh[axis]);
    for (k, v) in parts.iter().enumerate() {
        let mut w = select(&p, axis, &[k]);
        w.shape.remove(axis);
        ensure!(v.shape().as_ref() as &[usize] == &w.shape[..], "part {k} has shape {:?}", v.shape());
        let q = positions(raw.len(), v.shape(), v.stride(), v.offset()).map_err(Fail::from)?;
        ensure!(q == w.data, "part {k} is not the view of the given array");
        ensure!(v.raw().as_ptr() == raw.as_ptr(), "part {k} is a copy");
    }
    if !parts.is_empty() {
        let back = rt::stack((parts, axis as isize));
        same("restacked", &obs!(&back), &m)?;
    }
    Ok(())
}

/// meshgrid, atleast_nd and broadcast_arrays.
pub fn grid_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    c.eval();
    match c.rng.below(5) {
        0 => {
            let sh = one(&mut c.rng, 0, 4);
            let s = bc(&mut c.rng, &sh);
            let raw: Vec<i64> = gen_raw(&mut c.rng, s.len);
            let m = nd(&raw, &s);
            let n = c.rng.usize(1, 3);
            c.d(format!("atleast_{n}d {s}"));
            if sh.len() < n {
                c.nontrivial();
            }
            let t = rt::asarray((&raw, lay(&s), dev));
            let f = c.rng.bool();
            let v = match n {
                1 if f => t.atleast_1d(),
                1 => rt::atleast_1d(&t),
                2 if f => t.atleast_2d(),
                2 => rt::atleast_2d(&t),
                _ if f => t.atleast_3d(),
                _ => rt::atleast_3d(&t),
            };
            ensure!(v.raw().as_ptr() == raw.as_ptr(), "a copy was made");
            same("atleast", &obs!(&v), &atleast(&m, n))
        },
        1 => {
            let sh = one(&mut c.rng, 0, 4);
            let k = c.rng.usize(1, 4);
            let mut specs = vec![];
            for _ in 0..k {
                let base: Vec<usize> = if colm { rev(&sh) } else { sh.clone() };
                let p = gen_bcast_partner(&mut c.rng, &base);
                let p = if colm { rev(&p) } else { p };
                specs.push(bc(&mut c.rng, &p));
            }
            let raws: Vec<Vec<i64>> = specs.iter().map(|s| gen_raw(&mut c.rng, s.len)).collect();
            let ms: Vec<Nd<i64>> = raws.iter().zip(&specs).map(|(r, s)| nd(r, s)).collect();
            let mut out = specs[0].shape.clone();
            for s in &specs[1..] {
                out = bcast_shape_ord(&out, &s.shape, colm).unwrap();
            }
            c.d(format!("broadcast_arrays {}", specs.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")));
            if specs.iter().any(|s| s.shape != out) {
                c.nontrivial();
            }
            let ts: Vec<_> = raws.iter().zip(&specs).map(|(r, s)| rt::asarray((r, lay(s), dev))).collect();
            let got = rt::broadcast_arrays(ts);
            ensure!(got.len() == k, "{} results", got.len());
            for (g, m) in got.iter().zip(&ms) {
                same("broadcast", &obs!(g), &m.broadcast_ord(&out, colm))?;
            }
            Ok(())
        },
        _ => {
            let k = c.rng.usize(1, 4);
            let big = c.rng.chance(1, 40);
            let mut specs = vec![];
            for _ in 0..k {
                let lo = if c.rng.chance(1, 8) { 0 } else { 1 };
                let n = if big { c.rng.usize(8, 30) } else { c.rng.usize(lo, 5) };
                specs.push(bc(&mut c.rng, &[n]));
            }
            let raws: Vec<Vec<i64>> = specs.iter().map(|s| gen_raw(&mut c.rng, s.len)).collect();
            let ms: Vec<Nd<i64>> = raws.iter().zip(&specs).map(|(r, s)| nd(r, s)).collect();
            let form = c.rng.below(if k == 2 { 16 } else { 12 });
            let copy = c.rng.bool();
            let xy = if matches!(form, 3 | 4 | 5 | 8 | 9 | 10 | 13 | 14) { true } else { c.rng.bool() };
            let copied = if matches!(form, 2 | 5 | 6 | 9 | 10 | 11 | 13 | 15) { true } else { copy };
            c.d(format!("meshgrid form {form} xy {xy} copy {copied} {}", specs.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")));
            let mut out: Vec<usize> = specs.iter().map(|s| s.shape[0]).collect();
            if xy && k >= 2 {
                out.swap(0, 1);
            }
            if k > 1 && out.iter().all(|&n| n > 0) {
                c.nontrivial();
            }
            let ts: Vec<_> = raws.iter().zip(&specs).map(|(r, s)| rt::asarray((r, lay(s), dev))).collect();
            let refs: Vec<_> = ts.iter().collect();
            let ind = if xy { "xy" } else { "ij" };
            let got = match form {
                0 => rt::meshgrid((refs, ind, copy)),
                1 => rt::meshgrid((&ts, ind, copy)),
                2 => rt::meshgrid((&refs, ind)),
                3 => rt::meshgrid((refs, copy)),
                4 => rt::meshgrid((&ts, copy)),
                5 => rt::meshgrid(refs),
                6 => rt::meshgrid((refs, ind)),
                7 => rt::meshgrid((&refs, ind, copy)),
                8 => rt::meshgrid((&refs, copy)),
                9 => rt::meshgrid(&refs),
                10 => rt::meshgrid(&ts),
                11 => rt::meshgrid((&ts, ind)),
                12 => rt::meshgrid(([refs[0], refs[1]], ind, copy)),
                13 => rt::meshgrid([refs[0], refs[1]]),
                14 => rt::meshgrid(([refs[0], refs[1]], copy)),
                _ => rt::meshgrid(([refs[0], refs[1]], ind)),
            };
            ensure!(got.len() == k, "{} grids, wanted {k}", got.len());
            for (i, g) in got.iter().enumerate() {
                let a = match i {
                    0 if xy && k >= 2 => 1,
                    1 if xy => 0,
                    _ => i,
                };
                let want = Nd::from_fn(&out, |x| *ms[i].at(&[x[a]]));
                same("grid", &obs!(g), &want)?;
                if copied && k > 1 {
                    let e = contig_spec(&out, colm);
                    if want.size() > 1 && out.iter().all(|&n| n > 1) {
                        ensure!(g.stride() as &[isize] == &e.stride[..], "a copied grid has strides {:?}, wanted {:?}", g.stride(), e.stride);
                    }
                }
            }
            Ok(())
        },
    }
}

fn diag_ty<T: V + Default + PartialEq>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let build = c.rng.bool();
    let sh: Vec<usize> = (0..if build { 1 } else { 2 })
        .map(|_| match c.rng.below(12) {
            0 => 0,
            1 => 40,
            _ => c.rng.usize(1, 6),
        })
        .collect();
    let s = bc(&mut c.rng, &sh);
    let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let m = nd(&raw, &s);
    let t = rt::asarray((&raw, lay(&s), dev));
    c.eval();
    // offsets within the matrix (the whole range a diagonal exists for)
    let k: i64 = match build {
        true => c.rng.range(-4, 4),
        false => {
            let (lo, hi) = (-(sh[0] as i64), sh[1] as i64);
            c.rng.range(lo, hi)
        },
    };
    let plain = k == 0 && c.rng.bool();
    c.d(format!("diag {s} offset {k}"));
    let want = if build {
        let n = sh[0] + k.unsigned_abs() as usize;
        Nd::from_fn(&[n, n], |i| {
            let (r0, c0) = if k >= 0 { (0, k as usize) } else { (-k as usize, 0) };
            if i[0] >= r0 && i[1] >= c0 && i[0] - r0 == i[1] - c0 {
                m.at(&[i[0] - r0]).clone()
            } else {
                T::default()
            }
        })
    } else {
        let (r0, c0) = if k >= 0 { (0, k as usize) } else { (-k as usize, 0) };
        let n = (sh[0].saturating_sub(r0)).min(sh[1].saturating_sub(c0));
        Nd::from_fn(&[n], |i| m.at(&[r0 + i[0], c0 + i[0]]).clone())
    };
    if want.size() > 0 {
        c.nontrivial();
    }
    let got = if plain {
        if build && c.rng.bool() {
            obs!(rt::diag(&t.to_dim::<Ix1>()))
        } else {
            obs!(rt::diag(&t))
        }
    } else {
        obs!(rt::diag((&t, k as isize)))
    };
    sim("diag", &got, &want)
}

/// Building a diagonal matrix, extracting a diagonal.
pub fn diag_case(c: &mut Case) -> R {
    types!(c, diag_ty)
}
