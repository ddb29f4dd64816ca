/// Iterators over elements.
pub fn elem(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let b = c.rng.chance(1, 4);
    let s = spec(&mut c.rng, 7, b);
    let raw: Vec<usize> = (0..s.len).collect();
    let p = pos(&s);
    let t = rt::asarray((&raw, lay(&s), dev));
    if s.size() > 1 {
        c.nontrivial();
    }
    c.eval();
    let par = c.rng.chance(1, 3);
    let indexed = c.rng.chance(2, 5);
    let o = if indexed { *c.rng.pick(&[O::Default, O::C, O::F]) } else { gen_o(&mut c.rng) };
    c.d(format!("elements of {s} order {o:?} default {} indexed {indexed}", if colm { "F" } else { "C" }));
    macro_rules! go {
        ($t:expr) => {{
            let t = $t;
            if indexed {
                let q = Nd { shape: p.shape.clone(), data: indices(&s.shape).data.into_iter().zip(p.data.clone()).collect() };
                let want = in_order(o, colm, &q, &[]);
                let it = if o == O::Default { t.indexed_iter() } else { t.indexed_iter_with_order(o.lib()) };
                if par {
                    drive_par(c, it, &want, &|(i, x)| (ix(&i), *x))?;
                } else {
                    drive(c, it, &want, &|(i, x)| (ix(&i), *x))?;
                }
            } else {
                let fresh: Vec<usize> = t.iter_with_order(o.lib()).cloned().collect();
                if matches!(o, O::K | O::G) {
                    memory_order(&s, &p, &fresh)?;
                }
                let want = in_order(o, colm, &p, &fresh);
                let it = if o == O::Default { t.iter() } else { t.iter_with_order(o.lib()) };
                if par {
                    drive_par(c, it, &want, &|x| *x)?;
                } else {
                    drive(c, it, &want, &|x| *x)?;
                }
            }
        }};
    }
    match s.shape.len() {
        1 if c.rng.bool() => go!(t.to_dim::<Ix1>()),
        2 if c.rng.bool() => go!(t.to_dim::<Ix2>()),
        3 if c.rng.bool() => go!(t.to_dim::<Ix3>()),
        _ => go!(t),
    }
    Ok(())
}

/// Iterators over mutable elements.
pub fn elem_mut(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let s = spec(&mut c.rng, 6, false);
    let mut raw: Vec<usize> = (0..s.len).collect();
    let p = pos(&s);
    if s.size() > 1 {
        c.nontrivial();
    }
    c.eval();
    let par = c.rng.chance(1, 3);
    let indexed = c.rng.chance(2, 5);
    let o = if indexed { *c.rng.pick(&[O::Default, O::C, O::F]) } else { gen_o(&mut c.rng) };
    c.d(format!("mutable elements of {s} order {o:?} default {} indexed {indexed}", if colm { "F" } else { "C" }));
    let fresh: Vec<usize> = rt::asarray((&raw, lay(&s), dev)).iter_with_order(o.lib()).cloned().collect();
    let seen: Vec<usize> = {
        let mut t = rt::asarray((&mut raw, lay(&s), dev));
        if indexed {
            let q = Nd { shape: p.shape.clone(), data: indices(&s.shape).data.into_iter().zip(p.data.clone()).collect() };
            let want = in_order(o, colm, &q, &[]);
            let it = if o == O::Default { t.indexed_iter_mut() } else { t.indexed_iter_mut_with_order(o.lib()) };
            let v = if par {
                drive_par(c, it, &want, &|(i, x)| (ix(&i), visit(x)))?
            } else {
                drive(c, it, &want, &|(i, x)| (ix(&i), visit(x)))?
            };
            v.into_iter().map(|x| x.1).collect()
        } else {
            let want = in_order(o, colm, &p, &fresh);
            let it = if o == O::Default { t.iter_mut() } else { t.iter_mut_with_order(o.lib()) };
            if par {
                drive_par(c, it, &want, &|x| visit(x))?
            } else {
                drive(c, it, &want, &|x| visit(x))?
            }
        }
    };
    visits(&raw, &seen)
}

/// Random axes of a shape (given as a request), with their normalised form.
fn gen_axes(r: &mut Rng, n: usize) -> (AxesIndex<isize>, Vec<usize>) {
    let p = r.perm(n);
    if n > 0 && r.chance(1, 3) {
        let a = p[0];
        return (AxesIndex::Val(sgn(r, a, n)), vec![a]);
    }
    let k = if r.chance(1, 20) { 0 } else { r.usize(n.min(1), n) };
    let v = p[..k].to_vec();
    (AxesIndex::Vec(v.iter().map(|&a| sgn(r, a, n)).collect()), v)
}

/// (index over the axes, shape of the part, positions of the part in row-major order)
type Part = (Vec<usize>, Vec<usize>, Vec<usize>);

fn parts(p: &Nd<usize>, axes: &[usize]) -> Nd<Part> {
    let n = p.shape.len();
    let keep: Vec<usize> = (0..n).filter(|a| !axes.contains(a)).collect();
    let ks: Vec<usize> = keep.iter().map(|&a| p.shape[a]).collect();
    let xs: Vec<usize> = axes.iter().map(|&a| p.shape[a]).collect();
    let mut idx = vec![0; n];
    Nd::from_fn(&xs, |x| {
        for (i, &a) in axes.iter().enumerate() {
            idx[a] = x[i];
        }
        let mut v = vec![];
        for_idx(&ks, |k| {
            for (i, &a) in keep.iter().enumerate() {
                idx[a] = k[i];
            }
            v.push(*p.at(&idx));
        });
        (x.to_vec(), ks.clone(), v)
    })
}

fn read(v: TensorView<'_, usize, B, IxD>) -> (Vec<usize>, Vec<usize>) {
    match obs!(&v) {
        Ok(m) => (m.shape, m.data),
        Err(_) => (vec![], vec![usize::MAX]),
    }
}

fn touch(mut v: TensorMut<'_, usize, B, IxD>) -> (Vec<usize>, Vec<usize>) {
    let sh = v.shape().to_vec();
    (sh, v.iter_mut_with_order(T::C).map(visit).collect())
}

fn axes_case(c: &mut Case, mutable: bool) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let b = !mutable && c.rng.chance(1, 4);
    let s = spec(&mut c.rng, 6, b);
    let mut raw: Vec<usize> = (0..s.len).collect();
    let p = pos(&s);
    let (ax, axes) = gen_axes(&mut c.rng, s.shape.len());
    let w = parts(&p, &axes);
    if w.size() > 1 {
        c.nontrivial();
    }
    c.eval();
    let par = c.rng.chance(1, 3);
    let indexed = c.rng.chance(1, 2);
    // without an order, indexed iteration follows the device, plain iteration the memory
    let o = if indexed { *c.rng.pick(&[O::Default, O::C, O::F]) } else { *c.rng.pick(&[O::C, O::C, O::F, O::F, O::A, O::K, O::G]) };
    let implicit = if indexed { o == O::Default } else { o == O::K && c.rng.bool() };
    c.d(format!("axes {ax:?} of {s} order {o:?} implicit {implicit} default {} indexed {indexed} mutable {mutable}", if colm { "F" } else { "C" }));
    let fresh: Vec<Part> = {
        let t = rt::asarray((&raw, lay(&s), dev));
        let mut left: Vec<Part> = w.data.clone();
        t.axes_iter_with_order(ax.clone(), o.lib())
            .map(|v| {
                let (sh, ps) = read(v);
                match left.iter().position(|x| x.1 == sh && x.2 == ps) {
                    Some(k) => left.remove(k),
                    None => (vec![usize::MAX], sh, ps),
                }
            })
            .collect()
    };
    if matches!(o, O::K | O::G) {
        ensure!(fresh.len() == w.size() && fresh.iter().all(|x| x.0.first() != Some(&usize::MAX)), "some part is missing or wrong: {:?}", fresh.iter().find(|x| x.0.first() == Some(&usize::MAX)));
        if s.stride.iter().all(|&x| x >= 0) {
            let at: Vec<usize> = fresh.iter().filter_map(|x| x.2.first().cloned()).collect();
            ensure!(at.windows(2).all(|w| w[0] <= w[1]), "memory order is not ascending: {at:?}");
        }
    }
    let want = in_order(o, colm, &w, &fresh);
    // equal parts (of broadcast axes) are told apart by index only when indexed
    let plain: Vec<(Vec<usize>, Vec<usize>)> = want.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
    if !mutable {
        let t = rt::asarray((&raw, lay(&s), dev));
        if indexed {
            let it = if implicit { t.indexed_axes_iter(ax) } else { t.indexed_axes_iter_with_order(ax, o.lib()) };
            let key = |(i, v): (IxD, TensorView<'_, usize, B, IxD>)| {
                let (a, b) = read(v);
                (i, a, b)
            };
            if par {
                drive_par(c, it, &want, &key)?;
            } else {
                drive(c, it, &want, &key)?;
            }
        } else {
            let it = if implicit { t.axes_iter(ax) } else { t.axes_iter_with_order(ax, o.lib()) };
            if par {
                drive_par(c, it, &plain, &|v| read(v))?;
            } else {
                drive(c, it, &plain, &|v| read(v))?;
            }
        }
        return Ok(());
    }
    let seen: Vec<usize> = {
        let mut t = rt::asarray((&mut raw, lay(&s), dev));
        if indexed {
            let it = if implicit { t.indexed_axes_iter_mut(ax) } else { t.indexed_axes_iter_mut_with_order(ax, o.lib()) };
            let key = |(i, v): (IxD, TensorMut<'_, usize, B, IxD>)| {
                let (a, b) = touch(v);
                (i, a, b)
            };
            let v = if par { drive_par(c, it, &want, &key)? } else { drive(c, it, &want, &key)? };
            v.into_iter().flat_map(|x| x.2).collect()
        } else {
            let it = if implicit { t.axes_iter_mut(ax) } else { t.axes_iter_mut_with_order(ax, o.lib()) };
            let v = if par { drive_par(c, it, &plain, &|v| touch(v))? } else { drive(c, it, &plain, &|v| touch(v))? };
            v.into_iter().flat_map(|x| x.1).collect()
        }
    };
    visits(&raw, &seen)
}

/// Iterators over parts along given axes.
pub fn axes(c: &mut Case) -> R {
    axes_case(c, false)
}

/// Iterators over mutable parts along given axes.
pub fn axes_mut(c: &mut Case) -> R {
    axes_case(c, true)
}
