/// The underlying address range of a tensor's buffer.
macro_rules! base_ptr {
    ($t:expr) => {
        $t.raw().as_ptr() as usize
    };
}

pub fn reshape(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let bcast = c.rng.chance(1, 4);
    let (spec, raw, m) = big_base(&mut c.rng, bcast);
    let dev = dev(&mut c.rng, colm);
    let target = refactor(&mut c.rng, &spec.shape);
    // request, one extent possibly inferred
    let mut req: Vec<isize> = target.iter().map(|&v| v as isize).collect();
    if !target.is_empty() && c.rng.chance(1, 4) {
        let k = c.rng.below(target.len());
        let others: usize = target.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, &v)| v).product();
        if others > 0 {
            req[k] = -1;
        }
    }
    let ordc = match c.rng.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let eff = ordc.unwrap_or(colm);
    let order = ordc.map(ord);
    let want = m.reshape(&target, eff);
    let view = bcast || c.rng.bool();
    c.d(format!("{spec} default {} request {req:?} order {ordc:?} way", if colm { "F" } else { "C" }));
    if m.size() > 0 && target != spec.shape {
        c.nontrivial();
    }
    let t = rt::asarray((&raw, lay(&spec), dev));
    let free = t.reshapeable_without_copy(req.clone(), order).map_err(|e| format!("reshapeable_without_copy refused: {e:?}"))?;
    c.eval();
    match &free {
        Some(l) => {
            c.hit("free");
            same("layout of the copy-free reshape", &observe(&raw, l.shape(), l.stride(), l.offset()), &want)?;
        },
        None => {
            c.hit("needs_copy");
            ensure!(!strides_for(&target, &want.data), "a copy is deemed necessary although strides express shape {target:?}");
        },
    }
    let _ = view;
    match c.rng.below(8) {
        0 => {
            c.d("reshape_with_args");
            let copy = *c.rng.pick(&[None, Some(true), Some(false)]);
            c.d(format!("copy {copy:?}"));
            let args = ReshapeArgs { order, copy };
            let res = t.reshape_with_args_f(req, args);
            match (copy, &free, res) {
                (Some(false), None, Err(_)) => c.hit("copy_refused"),
                (Some(false), None, Ok(_)) => bail!("copy forbidden, no strides express the shape, yet not refused"),
                (_, _, Err(e)) => bail!("refused: {e:?}"),
                (cp, fr, Ok(u)) => {
                    same("reshape_with_args", &obs!(&u), &want)?;
                    let shares = base_ptr!(u) == raw.as_ptr() as usize && raw.capacity() > 0;
                    if raw.capacity() > 0 {
                        let ws = cp != Some(true) && fr.is_some();
                        ensure!(shares == ws, "shares memory: {shares}, wanted {ws}");
                    }
                },
            }
        },
        1 => {
            c.d("into_compatible_shape");
            match (t.into_compatible_shape_f(req, order), &free) {
                (Ok(u), Some(_)) => {
                    same("into_compatible_shape", &obs!(&u), &want)?;
                    ensure!(base_ptr!(u) == raw.as_ptr() as usize, "compatible reshape does not alias");
                },
                (Err(_), None) => {},
                (Ok(_), None) => bail!("into_compatible_shape accepted what cannot be expressed"),
                (Err(e), Some(_)) => bail!("into_compatible_shape refused a compatible shape: {e:?}"),
            }
        },
        2 => {
            c.d("reshape");
            let want = m.reshape(&target, colm);
            let u = t.reshape(req);
            same("reshape", &obs!(&u), &want)?;
        },
        3 => {
            c.d("into_shape of owned");
            let want = m.reshape(&target, colm);
            let o = if bcast { t.to_owned() } else { rt::asarray((raw.clone(), lay(&spec), dev)) };
            let u = o.into_shape(req);
            same("into_shape", &obs!(&u), &want)?;
            let u = t.into_shape(&target);
            same("into_shape of a view", &obs!(&u), &want)?;
            ensure!(raw.capacity() == 0 || base_ptr!(u) != raw.as_ptr() as usize, "owned result aliases the borrowed array");
        },
        4 => {
            c.d("change_shape of owned");
            let want = m.reshape(&target, colm);
            let o = if bcast { t.to_owned() } else { rt::asarray((raw.clone(), lay(&spec), dev)) };
            let u = o.change_shape(req);
            same("change_shape", &obs!(&u), &want)?;
        },
        5 => {
            c.d("chain");
            let t2 = refactor(&mut c.rng, &target);
            let u = t.reshape_with_args(req, ReshapeArgs { order, copy: None });
            let v = u.reshape_with_args(&t2, ReshapeArgs { order: Some(ord(!eff)), copy: None });
            same("reshape twice", &obs!(&v), &want.reshape(&t2, !eff))?;
        },
        6 => {
            c.d("shared");
            let o = t.to_owned().into_shared();
            let u = o.reshape_with_args(req, ReshapeArgs { order, copy: None });
            same("reshape of shared", &obs!(&u), &want)?;
        },
        _ => {
            c.d("write through");
            if free.is_some() && !bcast {
                let mut buf = raw.clone();
                {
                    let tm = rt::asarray((&mut buf, lay(&spec), dev));
                    let mut tm = tm.into_compatible_shape(req, order);
                    tm.fill(usize::MAX);
                }
                let inside: std::collections::HashSet<usize> = m.data.iter().cloned().collect();
                for (p, v) in buf.iter().enumerate() {
                    let w = if inside.contains(&p) { usize::MAX } else { p };
                    ensure!(*v == w, "write through reshaped view: position {p} holds {v}, wanted {w}");
                }
            }
        },
    }
    ensure!(raw.iter().enumerate().all(|(i, &v)| i == v), "the source buffer changed");
    Ok(())
}

pub fn layout(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let bcast = c.rng.chance(1, 4);
    let (spec, raw, m) = big_base(&mut c.rng, bcast);
    let dev = dev(&mut c.rng, colm);
    c.d(format!("{spec} default {}", if colm { "F" } else { "C" }));
    let of = c.rng.bool();
    let order = ord(of);
    let t = rt::asarray((&raw, lay(&spec), dev));
    if m.size() > 1 {
        c.nontrivial();
    }
    let way = c.rng.below(9);
    c.d(format!("way {way} order F {of}"));
    c.hit(format!("layout_way_{way}"));
    c.eval();
    macro_rules! contig {
        ($u:expr, $n:expr) => {{
            let u = $u;
            same($n, &obs!(&u), &m)?;
            ensure!(contig_ok(&spec.shape, u.stride(), of), "{}: strides {:?} of shape {:?} are not contiguous", $n, u.stride(), spec.shape);
        }};
    }
    macro_rules! prefer {
        ($u:expr, $n:expr) => {{
            let u = $u;
            same($n, &obs!(&u), &m)?;
            ensure!(prefer_ok(&spec.shape, u.stride(), of) || bcast, "{}: strides {:?} of shape {:?} are not in the preferred order", $n, u.stride(), spec.shape);
        }};
    }
    match way {
        0 => contig!(t.to_contig(order), "to_contig"),
        1 => contig!(t.into_contig(order), "into_contig"),
        2 => contig!(t.to_owned().change_contig(order), "change_contig"),
        3 => prefer!(t.to_prefer(order), "to_prefer"),
        4 => prefer!(t.into_prefer(order), "into_prefer"),
        5 => {
            // fixed-dimension spelling
            match spec.shape.len() {
                2 => {
                    let d = t.to_dim::<Ix2>();
                    contig!(d.to_contig(order), "to_contig Ix2")
                },
                3 => contig!(t.to_dim::<Ix3>().into_contig(order), "into_contig Ix3"),
                _ => contig!(t.change_contig(order), "change_contig of a view"),
            }
        },
        _ => {
            // arbitrary layout of the same shape, or of another shape with as many elements
            let sh = if way == 8 { refactor(&mut c.rng, &spec.shape) } else { spec.shape.clone() };
            let l2 = gen_layout(&mut c.rng, &sh, false);
            c.d(format!("to layout {l2}"));
            let want = m.reshape(&sh, colm);
            let u = match c.rng.below(3) {
                0 => t.to_layout(lay(&l2)).into_owned(),
                1 => t.into_layout(lay(&l2)),
                _ => t.change_layout(lay(&l2)).into_owned(),
            };
            same("to_layout", &obs!(&u), &want)?;
            let v = rt::asarray((&raw, lay(&spec), dev));
            let v = v.to_layout(lay(&l2));
            ensure!(
                v.stride() == &l2.stride && v.offset() == l2.offset,
                "to_layout gave strides {:?} offset {}, wanted {:?} {}",
                v.stride(),
                v.offset(),
                l2.stride,
                l2.offset
            );
            same("to_layout", &obs!(&v), &want)?;
        },
    }
    ensure!(raw.iter().enumerate().all(|(i, &v)| i == v), "the source buffer changed");
    Ok(())
}

/// Shapes that do not fit are refused.
pub fn refuse(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let (spec, raw, m) = big_base(&mut c.rng, false);
    let dev = dev(&mut c.rng, colm);
    let n = m.size();
    let mut req: Vec<isize> = refactor(&mut c.rng, &spec.shape).iter().map(|&v| v as isize).collect();
    match c.rng.below(6) {
        0 => req.push(2),
        1 => {
            if req.is_empty() {
                req.push(0)
            } else {
                let k = c.rng.below(req.len());
                req[k] += 1;
            }
        },
        2 => {
            // two inferred extents
            req.insert(0, -1);
            req.push(-1);
        },
        3 => {
            // inferred extent that does not divide
            req = vec![-1, n as isize + 1];
        },
        4 => {
            // negative extents other than -1 mean nothing
            let v = *c.rng.pick(&[-2isize, -3, isize::MIN]);
            let k = c.rng.usize(0, req.len());
            req.insert(k, v);
        },
        _ => {
            req.insert(0, isize::MAX);
            req.insert(0, 4);
        },
    }
    let wrong = req.iter().any(|&v| v < -1);
    let neg = req.iter().filter(|&&v| v < 0).count();
    let total: i128 = req.iter().filter(|&&v| v >= 0).map(|&v| v as i128).fold(1i128, |a, b| a.saturating_mul(b));
    let valid = match neg {
        0 => total == n as i128,
        1 => total > 0 && n as i128 % total == 0,
        _ => false,
    };
    c.d(format!("{spec} request {req:?}"));
    if !wrong && (valid || (neg == 1 && total == 0)) {
        return Ok(());
    }
    c.nontrivial();
    c.eval();
    let t = rt::asarray((&raw, lay(&spec), dev));
    ensure!(no_panic(|| t.reshape_f(req.clone()).is_err())?, "reshape of {n} elements to {req:?} accepted");
    ensure!(no_panic(|| t.reshapeable_without_copy(req.clone(), None).is_err())?, "reshapeable_without_copy accepted {req:?}");
    ensure!(no_panic(|| t.to_compatible_shape_f(req.clone(), None).is_err())?, "to_compatible_shape accepted {req:?}");
    ensure!(no_panic(|| t.into_shape_f(req.clone()).is_err())?, "into_shape accepted {req:?}");
    Ok(())
}

/// What a layout says about itself: contiguity, bounds, broadcasting; and reshaping that relies on it.
pub fn flags(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let cls = *c.rng.pick(&[Cls::Tiny, Cls::Tiny, Cls::Mid]);
    let shape = gen_shape(&mut c.rng, 0, 5, cls);
    let sp = if c.rng.chance(1, 3) {
        // contiguous up to the strides of unit axes and a few spoiled ones
        let of = c.rng.bool();
        let mut sp = contig_spec(&shape, of);
        for k in 0..shape.len() {
            if shape[k] == 1 && c.rng.bool() {
                sp.stride[k] = c.rng.range(-3, 9) as isize;
            }
        }
        sp.offset = c.rng.below(5);
        sp.len += sp.offset + 40;
        sp.offset += 40;
        sp.len += 40;
        sp
    } else {
        let b = c.rng.chance(1, 4);
        gen_layout(&mut c.rng, &shape, b)
    };
    c.d(format!("flags {sp} default {}", if colm { "F" } else { "C" }));
    let l = lay(&sp);
    let size: usize = shape.iter().product();
    c.eval();
    if size > 1 {
        c.nontrivial();
    }
    let nd = shape.len();
    // how many trailing (leading) axes are contiguous together
    let run = |of: bool| {
        let w = contig_spec(&shape, of);
        let good = |k: usize| shape[k] == 1 || sp.stride[k] == w.stride[k];
        if size == 0 {
            return nd;
        }
        if of { (0..nd).take_while(|&k| good(k)).count() } else { (0..nd).rev().take_while(|&k| good(k)).count() }
    };
    ensure!(l.c_contig() == (run(false) == nd), "c_contig is {} of {sp}", l.c_contig());
    ensure!(l.f_contig() == (run(true) == nd), "f_contig is {} of {sp}", l.f_contig());
    ensure!(l.ndim_of_c_contig() == run(false), "ndim_of_c_contig {} of {sp}", l.ndim_of_c_contig());
    ensure!(l.ndim_of_f_contig() == run(true), "ndim_of_f_contig {} of {sp}", l.ndim_of_f_contig());
    ensure!(!l.c_contig() || l.c_prefer(), "contiguous in row-major order, not preferred: {sp}");
    ensure!(!l.f_contig() || l.f_prefer(), "contiguous in column-major order, not preferred: {sp}");
    if l.c_prefer() {
        ensure!(prefer_ok(&shape, &sp.stride, false), "c_prefer of {sp}");
    }
    if l.f_prefer() {
        ensure!(prefer_ok(&shape, &sp.stride, true), "f_prefer of {sp}");
    }
    ensure!(l.size() == size && l.ndim() == nd, "size {} ndim {}", l.size(), l.ndim());
    let b = l.bounds_index().map_err(|e| format!("{e:?}"))?;
    let pos = positions(sp.len, &shape, &sp.stride, sp.offset).unwrap();
    match (pos.iter().min(), pos.iter().max()) {
        (Some(&lo), Some(&hi)) => ensure!(b == (lo, hi + 1), "bounds_index {b:?}, wanted {:?}", (lo, hi + 1)),
        _ => ensure!(b.0 == b.1, "bounds_index {b:?} of no elements"),
    }
    let mut n = 0;
    let mut bad = None;
    for_idx(&shape, |i| {
        let ix: Vec<isize> = i.iter().enumerate().map(|(k, &v)| if (n + k) % 3 == 0 { v as isize - shape[k] as isize } else { v as isize }).collect();
        if l.index(&ix) != pos[n] {
            bad = Some(format!("index {ix:?} is {}, wanted {}", l.index(&ix), pos[n]));
        }
        n += 1;
    });
    if let Some(b) = bad {
        bail!("{b}");
    }
    // shared elements
    let bc = shape.iter().zip(&sp.stride).any(|(&n, &s)| n > 1 && s == 0);
    if size > 0 {
        ensure!(!bc || l.is_broadcasted(), "is_broadcasted {} of {sp}", l.is_broadcasted());
        if pos.len() < 3000 {
            let d: std::collections::HashSet<&usize> = pos.iter().collect();
            let unique = d.len() == pos.len();
            if l.check_strides(false).is_ok() {
                ensure!(unique, "check_strides accepts overlapping elements: {sp}");
            }
        }
    }
    // reshaping that assumes contiguity
    let dev = dev(&mut c.rng, colm);
    let raw: Vec<usize> = (0..sp.len).collect();
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    let t = rt::asarray((&raw, l, dev));
    let target = refactor(&mut c.rng, &shape);
    #[allow(deprecated)]
    match (t.to_shape_assume_contig_f(target.clone()), run(colm) == nd) {
        (Ok(u), true) => same("to_shape_assume_contig", &obs!(&u), &m.reshape(&target, colm))?,
        (Err(_), false) => {},
        (Ok(_), false) => bail!("to_shape_assume_contig accepted what is not contiguous"),
        (Err(e), true) => bail!("to_shape_assume_contig refused: {e:?}"),
    }
    Ok(())
}
