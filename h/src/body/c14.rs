type T<E> = Tensor<E, B, IxD>;

fn small(r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    let cls = pick_cls(r);
    gen_shape(r, lo, hi, cls)
}

/// An array that owns its memory, in any layout that keeps elements apart.
fn reg<E: Sane>(r: &mut Rng, dv: &'static B, sh: &[usize]) -> T<E> {
    let s = gen_layout(r, sh, false);
    let raw: Vec<E> = (0..s.len).map(|_| E::make(r)).collect();
    rt::asarray((raw, lay(&s), dv))
}

fn look<'a, E: Sane>(r: &mut Rng, t: &'a T<E>) -> TensorView<'a, E, B, IxD> {
    let mut v = t.view();
    for _ in 0..r.below(3) {
        v = step_view(r, v);
    }
    v
}

fn step_view<'a, E: Sane>(r: &mut Rng, v: TensorView<'a, E, B, IxD>) -> TensorView<'a, E, B, IxD> {
    let n = v.ndim();
    match r.below(9) {
        0 => v.into_reverse_axes(),
        1 if n > 0 => v.into_flip(r.below(n) as isize),
        2 if n > 0 => {
            let idx: Vec<Indexer> = (0..n)
                .map(|a| {
                    let m = v.shape()[a] as i64;
                    match r.below(4) {
                        0 if m > 0 => Indexer::Select(r.range(-m, m - 1) as isize),
                        1 => Indexer::Slice(SliceI::new(Some(r.range(-m - 1, m) as isize), None, Some(r.range(1, 3) as isize))),
                        2 => Indexer::Slice(SliceI::new(None, Some(r.range(0, m + 1) as isize), None)),
                        _ => Indexer::Slice(SliceI::new(None, None, Some(if r.bool() { 1 } else { -1 }))),
                    }
                })
                .collect();
            v.into_slice(AxesIndex::Vec(idx))
        },
        3 => v.into_expand_dims(r.usize(0, n) as isize),
        4 if n > 1 => {
            let p: Vec<isize> = r.perm(n).into_iter().map(|x| x as isize).collect();
            v.into_transpose(p)
        },
        5 if n > 1 => v.into_diagonal(None).into_dim::<IxD>(),
        6 => {
            let p: Vec<isize> = (0..n).filter(|&k| v.shape()[k] == 1).map(|k| k as isize).collect();
            v.into_squeeze(p)
        },
        _ => v,
    }
}

/// Looks at every element an array has; the memory it was not given must not be among them.
fn chk<E: Sane, S>(what: &str, t: &TensorAny<S, E, B, IxD>) -> R
where
    S: DataAPI<Data = Vec<E>>,
{
    match obs!(t) {
        Err(e) => fail("mem-bounds", format!("{what}: {e}")),
        Ok(n) => match n.data.iter().position(|x| !x.sane()) {
            Some(k) => fail("mem-uninit", format!("{what}: element {k} of {:?} was never written: {:?}", n.shape, n.data[k])),
            None => Ok(()),
        },
    }
}
/// The same, and the elements between those of the layout as well, for they can be seen through `raw`.
fn chk_raw<E: Sane, S>(what: &str, t: &TensorAny<S, E, B, IxD>) -> R
where
    S: DataAPI<Data = Vec<E>>,
{
    chk(what, t)?;
    match t.raw().iter().position(|x| !x.sane()) {
        Some(k) => fail("mem-uninit-gap", format!("{what}: raw element {k} of {:?} was never written", t.layout())),
        None => Ok(()),
    }
}

/// Operations that move elements about, for any element type.
fn move_step<E: Sane>(c: &mut Case, regs: &mut Vec<T<E>>, dv: &'static B) -> R {
    let r = &mut c.rng;
    let k = r.below(regs.len());
    let k2 = r.below(regs.len());
    let op = r.below(30);
    c.desc.push_str(&format!("{op} "));
    let a = look(r, &regs[k]);
    let n = a.ndim();
    let sh: Vec<usize> = a.shape().clone();
    let empty = a.size() == 0;
    let ax = if n > 0 { r.below(n) } else { 0 };
    let m = if n > 0 { sh[ax] } else { 1 };
    let new: Option<T<E>> = match op {
        0 => Some(a.to_owned()),
        1 => Some(a.to_contig(if r.bool() { FlagOrder::C } else { FlagOrder::F }).into_owned()),
        2 => Some(a.to_prefer(if r.bool() { FlagOrder::C } else { FlagOrder::F }).into_owned()),
        3 if !small_only() || E::PLAIN => {
            let s = gen_layout(r, &sh, false);
            let s = Spec { len: 0, ..s };
            let t = a.to_layout(lay(&s)).into_owned();
            chk("to_layout", &t)?;
            chk_raw("to_layout", &t)?;
            Some(t)
        },
        4 => Some(a.reshape([a.size()]).into_owned()),
        5 => {
            let mut f = factors(r, a.size());
            let p = r.perm(f.len());
            f = p.into_iter().map(|i| f[i]).collect();
            let t = regs[k].view();
            let _ = t;
            Some(a.into_shape(f.into_iter().map(|x| x as isize).collect::<Vec<_>>()).into_owned())
        },
        6 if n > 0 && m > 0 => {
            let ix: Vec<isize> = (0..r.usize(0, 2 * m)).map(|_| r.range(-(m as i64), m as i64 - 1) as isize).collect();
            Some(a.index_select(ax as isize, ix))
        },
        7 if n > 0 => {
            let ix: Vec<bool> = (0..m).map(|_| r.bool()).collect();
            Some(a.bool_select(ax as isize, ix))
        },
        8 if n > 0 && a.size() < 3000 => Some(rt::concat((vec![a.view(), a.view(), a.view()], ax as isize))),
        9 if a.size() < 3000 => Some(rt::stack((vec![a.view(), a.view()], r.usize(0, n) as isize))),
        10 if n > 0 => {
            let parts = rt::unstack((a.view(), ax as isize));
            for p in &parts {
                chk("unstack", p)?;
            }
            parts.first().map(|p| p.to_owned())
        },
        11 => {
            let v: Vec<E> = a.iter().cloned().collect();
            ensure!(v.iter().all(|x| x.sane()), "iter");
            let v2: Vec<E> = a.reshape(a.size() as isize).into_owned().into_vec();
            if v2.iter().any(|x| !x.sane()) {
                return fail("mem-uninit", "into_vec".into());
            }
            let _ = v;
            None
        },
        12 => {
            let mut t = a.to_owned();
            let b = a.to_owned();
            t.assign(&b);
            t.fill(E::make(r));
            Some(t)
        },
        13 if n > 0 => {
            // assign into a part, from a part
            let mut t = a.to_owned();
            let idx: Vec<Indexer> = (0..n).map(|_| Indexer::Slice(SliceI::new(Some(1), None, Some(2)))).collect();
            let part = t.slice(AxesIndex::Vec(idx.clone())).to_owned();
            t.slice_mut(AxesIndex::Vec(idx)).assign(&part);
            Some(t)
        },
        14 if n == 2 && a.size() < 5000 => Some(match E::PLAIN {
            _ => a.diagonal(None).to_owned().into_dim::<IxD>(),
        }),
        15 => {
            let mut t = a.to_owned();
            for x in t.iter_mut() {
                *x = E::make(r);
            }
            for (_, x) in t.indexed_iter_mut() {
                *x = x.clone();
            }
            Some(t)
        },
        16 if n > 0 => {
            let mut t = a.to_owned();
            for mut v in t.axes_iter_mut(ax as isize) {
                v.fill(E::make(r));
            }
            let s: usize = a.axes_iter(ax as isize).map(|v| v.iter().count()).sum();
            ensure!(s == a.size(), "axes_iter visits {s} of {}", a.size());
            Some(t)
        },
        17 => {
            let s = a.to_owned().into_shared();
            chk("shared", &s)?;
            let v = s.view().to_owned();
            ensure!(v.size() == s.into_owned().size(), "size");
            Some(v)
        },
        18 => {
            let t = a.to_owned().into_cow();
            chk("cow", &t)?;
            let t2 = t.clone();
            drop(t);
            Some(t2.into_owned())
        },
        19 => Some(a.mapv(|x| x)),
        20 => Some(a.map(|x| x.clone())),
        21 if bcast_shape_ord(&sh, regs[k2].shape(), dv.default_order() == FlagOrder::F).is_some() => {
            let g = rt::broadcast_arrays(vec![a.view(), regs[k2].view()]);
            if g[0].size() < 4000 {
                Some(g[0].to_owned())
            } else {
                None
            }
        },
        22 => Some(rt::full((sh.clone(), E::make(r), dv))),
        23 => {
            let t: T<E> = rt::full_like((&a, E::make(r)));
            Some(t)
        },
        24 => {
            // back from an iterator, from either end
            let mut it = a.iter();
            let mut seen = 0;
            loop {
                let x = if r.bool() { it.next() } else { it.next_back() };
                match x {
                    Some(x) if x.sane() => seen += 1,
                    Some(_) => return fail("mem-uninit", "iterator".into()),
                    None => break,
                }
            }
            ensure!(seen == a.size(), "iterator stopped after {seen} of {}", a.size());
            None
        },
        25 if !empty => {
            let at: Vec<usize> = sh.iter().map(|&m| r.below(m)).collect();
            let x = a[&at].clone();
            if !x.sane() {
                return fail("mem-uninit", "element".into());
            }
            None
        },
        26 => {
            // packed into arrays and back
            let mut t = a.to_owned().to_contig(FlagOrder::C).into_owned();
            if n > 0 && sh[n - 1] == 3 {
                let p = t.into_pack_array_f::<3>(n as isize - 1);
                match p {
                    Ok(p) => t = p.into_unpack_array_f(n as isize - 1).map(|t| t.into_dim::<IxD>()).map_err(|e| Fail::from(format!("{e:?}")))?,
                    Err(_) => return Ok(()),
                }
            }
            Some(t)
        },
        27 => {
            // memory of the user's own
            let s = gen_layout(r, &sh, false);
            let mut buf: Vec<E> = (0..s.len).map(|_| E::make(r)).collect();
            {
                let mut t = rt::asarray((&mut buf, lay(&s), dv));
                t.assign(&a);
                chk("borrowed", &t)?;
            }
            ensure!(buf.iter().all(|x| x.sane()), "buffer");
            None
        },
        28 => {
            // requests that must be refused must be harmless too
            let bad = *r.pick(&[n as isize, -(n as isize) - 1, isize::MIN, isize::MAX, 7, -9]);
            let _ = a.index_select_f(ax as isize, vec![bad + 100, bad]).map(|t| chk("refused", &t)).ok();
            let _ = a.reshape_f(vec![bad.max(2), -1]).map(|t| chk("refused", &t)).ok();
            let _ = a.flip_f(bad).map(|t| chk("refused", &t)).ok();
            let _ = a.slice_f(AxesIndex::Vec(vec![Indexer::Select(bad)])).map(|t| chk("refused", &t)).ok();
            let _ = a.diagonal_f(DiagonalArgs { offset: Some(bad), axis1: Some(0), axis2: Some(ax as isize) }).map(|t| t.to_owned().size()).ok();
            let _ = rt::concat_f((vec![a.view(), regs[k2].view()], bad)).map(|t: T<E>| chk("refused", &t)).ok();
            let _ = rt::asarray_f((a.to_owned().into_vec_f().unwrap_or_default(), Layout::<IxD>::new(vec![3, 5], vec![2, -7], 9).unwrap_or(lay(&contig_spec(&[2, 2], false))), dv))
                .map(|t: T<E>| chk("refused", &t))
                .ok();
            let mut t = a.to_owned();
            let _ = t.assign_f(&regs[k2]);
            Some(t)
        },
        _ => {
            // as a plain vector and back
            let t = a.to_contig(FlagOrder::C).into_owned();
            let sh2 = t.shape().clone();
            let (st, _) = t.into_raw_parts();
            let (data, d2) = st.into_raw_parts();
            let v: Vec<E> = data.into_raw();
            let l = if v.len() == sh2.iter().product::<usize>() { contig_spec(&sh2, false) } else { return Ok(()) };
            Some(rt::asarray((v, lay(&l), &d2)))
        },
    };
    if let Some(t) = new {
        chk(&format!("operation {op}"), &t)?;
        if t.size() < 3000 {
            regs.push(t);
        }
    }
    Ok(())
}

fn factors(r: &mut Rng, mut n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![r.below(3), 0, 2];
    }
    let mut f = vec![];
    for p in [2usize, 3, 5, 7] {
        while n % p == 0 && f.len() < 5 {
            f.push(p);
            n /= p;
        }
    }
    if n > 1 || f.is_empty() {
        f.push(n);
    }
    f
}

fn walk<E: Sane>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let mut regs: Vec<T<E>> = vec![];
    for _ in 0..2 {
        let sh = small(&mut c.rng, 0, 4);
        regs.push(reg(&mut c.rng, dv, &sh));
        c.desc.push_str(&format!("{:?} ", sh));
    }
    let steps = if small_only() { 5 } else { 12 };
    for _ in 0..steps {
        c.eval();
        move_step(c, &mut regs, dv)?;
    }
    c.nontrivial();
    for t in &regs {
        chk("in the end", t)?;
    }
    Ok(())
}

/// Programs of operations that move elements, for element types with and without destructors.
pub fn move_case(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => walk::<i64>(c),
        1 => walk::<f64>(c),
        2 => walk::<[u16; 3]>(c),
        3 => walk::<Box<u32>>(c),
        _ => walk::<String>(c),
    }
}

/// Arithmetic, reductions and products.
pub fn num_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let mut regs: Vec<T<i64>> = vec![];
    for _ in 0..2 {
        let sh = small(&mut c.rng, 0, 4);
        regs.push(reg(&mut c.rng, dv, &sh));
        c.desc.push_str(&format!("{:?} ", sh));
    }
    let steps = if small_only() { 6 } else { 14 };
    for _ in 0..steps {
        c.eval();
        num_step(c, &mut regs, dv)?;
    }
    c.nontrivial();
    Ok(())
}

fn num_step(c: &mut Case, regs: &mut Vec<T<i64>>, dv: &'static B) -> R {
    let colm = dv.default_order() == FlagOrder::F;
    let r = &mut c.rng;
    let (k, k2) = (r.below(regs.len()), r.below(regs.len()));
    let op = r.below(30);
    c.desc.push_str(&format!("{op} "));
    let a = look(r, &regs[k]);
    let b = look(r, &regs[k2]);
    let n = a.ndim();
    let sh: Vec<usize> = a.shape().clone();
    let empty = a.size() == 0;
    let ax = if n > 0 { r.below(n) } else { 0 };
    let fits = bcast_shape_ord(&sh, b.shape(), colm).map(|s| s.iter().product::<usize>() < 6000).unwrap_or(false);
    let into = bcast_shape_ord(&sh, b.shape(), colm).as_deref() == Some(&sh[..]);
    let q = |x: i64| x % 1000;
    let new: Option<T<i64>> = match op {
        0 if fits => Some((&a + &b).mapv(q)),
        1 if fits => Some((a.to_owned() * &b).mapv(q)),
        2 if fits => Some((&a * b.to_owned()).mapv(q)),
        3 if fits => Some((a.to_owned() + b.to_owned()).mapv(q)),
        4 if into => {
            let mut t = a.to_owned();
            t += &b;
            t *= 3;
            t += b.to_owned();
            Some(t.mapv(q))
        },
        5 if into => {
            let s = gen_layout(r, &sh, false);
            let mut buf = vec![0i64; s.len];
            {
                let mut t = rt::asarray((&mut buf, lay(&s), dv));
                rt::add_with_output(&a, &b, t.view_mut());
                chk("with_output", &t)?;
            }
            None
        },
        6 => Some((&a + 3).mapv(q)),
        7 => Some((5i64 + a.to_owned()).mapv(q)),
        8 => Some((-&(-&a)).mapv(q)),
        9 => {
            let mut t = a.to_owned();
            t.mapi(|x| *x += 1);
            t.mapvi(q);
            Some(t)
        },
        10 if fits => Some(a.mapvb(&b, |x, y| (x + y) % 1000)),
        11 if n > 0 => {
            let p: Vec<isize> = r.perm(n)[..r.usize(1, n)].iter().map(|&x| sgn(r, x, n)).collect();
            Some(a.sum_axes(p).mapv(q))
        },
        12 if n > 0 && !empty => Some(if r.bool() { a.max_axes(ax as isize) } else { a.min_axes(ax as isize) }),
        13 if n > 0 && !empty => {
            let t = if r.bool() { a.argmin_axes(ax as isize) } else { a.argmax_axes(ax as isize) };
            ensure!(t.iter().all(|&i| i < sh[ax]), "position out of range");
            Some(t.mapv(|x| x as i64))
        },
        14 if !empty => {
            let i = a.argmax_all();
            let j = a.unraveled_argmin_all();
            ensure!(i < a.size() && j.iter().zip(&sh).all(|(&i, &m)| i < m), "position out of range");
            let v = [a.sum_all(), a.max_all(), a.min_all(), a.count_nonzero_all() as i64];
            if !v.iter().all(|x| x.sane()) {
                return fail("mem-uninit", "reduction".into());
            }
            None
        },
        15 if n > 0 => Some(a.mapv(|x| x % 3).prod_axes(ax as isize).mapv(q)),
        16 if n > 0 => {
            let t = a.mapv(|x| x > 3);
            let t2 = t.all_axes(ax as isize);
            let t3 = t.any_axes(ax as isize);
            ensure!(t2.size() == t3.size(), "sizes");
            let cn = a.count_nonzero_axes(ax as isize);
            Some(cn.mapv(|x| x as i64))
        },
        17 | 18 if n >= 1 && a.size() < 2000 => {
            let (x, y) = if colm { (0, 1) } else { (-1, -2) };
            let (p, t) = if n == 1 { (a.view(), a.view()) } else { (a.view(), a.swapaxes(x, y)) };
            Some(rt::matmul(&p, &t).into_dim::<IxD>().mapv(q))
        },
        19 if n == 2 && a.size() < 1000 && sh[0] < 60 => {
            let t: T<i64> = rt::ones((vec![sh[0], sh[0]], dv));
            let mut t = t.into_dim::<Ix2>();
            let a2 = a.to_dim::<Ix2>();
            t.matmul_from(&a2, &a2.t(), 2, 3);
            Some(t.into_dim::<IxD>().mapv(q))
        },
        20 if n > 0 => Some(rt::vecdot(&a, &a, sgn(r, ax, n)).mapv(q)),
        21 if n >= 2 && sh[n - 1] == sh[n - 2] && a.size() < 3000 && !colm => {
            let f = a.mapv(|x| x as f64);
            let (u, l) = (f.pack_triu(), f.pack_tril());
            chk("pack_triu", &u.view().into_dim::<IxD>())?;
            chk("pack_tril", &l.view().into_dim::<IxD>())?;
            let s = *r.pick(&[FlagSymm::Sy, FlagSymm::He, FlagSymm::N]);
            let back = if r.bool() { u.unpack_triu(s) } else { l.unpack_tril(s) };
            chk("unpack_tri", &back.view().into_dim::<IxD>())?;
            None
        },
        22 if n == 2 && a.size() < 5000 => Some(if r.bool() { rt::triu(&a).into_owned() } else { rt::tril((&a, r.range(-3, 3) as isize)).into_owned() }),
        23 if n == 1 && sh[0] < 40 => Some(rt::diag((&a, r.range(-3, 3) as isize)).into_owned().into_dim::<IxD>()),
        24 if n == 1 && sh[0] < 30 => {
            let g = rt::meshgrid((vec![a.view(), a.view()], "ij", true));
            Some(g[1].to_owned())
        },
        25 => Some(rt::arange((r.range(0, 5), r.range(0, 40), r.range(1, 4), dv)).into_dim::<IxD>()),
        26 => {
            let t: T<f64> = rt::linspace((0.0, 9.0, r.usize(0, 40), dv)).into_dim::<IxD>();
            chk("linspace", &t)?;
            let t: T<i64> = rt::eye((r.usize(0, 6), r.usize(0, 6), r.range(-3, 3) as isize, dv)).into_dim::<IxD>();
            Some(t)
        },
        27 => {
            let v = par_sum(&a);
            if !v.sane() {
                return fail("mem-uninit", "parallel iteration".into());
            }
            None
        },
        28 if !empty => {
            let t = a.mapv(|x| x as f64);
            let v = [t.mean_all(), t.var_all(), t.std_all(), t.l2_norm_all()];
            if !v.iter().all(|x| x.sane()) {
                return fail("mem-uninit", "mean".into());
            }
            if n > 0 {
                chk("mean", &t.mean_axes(ax as isize))?;
                chk("var", &t.var_axes(ax as isize))?;
            }
            chk("sqrt", &t.sqrt())?;
            None
        },
        29 => {
            let _ = rt::matmul_f(&a, &b).map(|t: T<i64>| chk("matmul", &t).map_err(|_| ())).ok();
            let _ = rt::vecdot_f(&a, &b, r.range(-3, 3) as isize).map(|t| chk("vecdot", &t).map_err(|_| ())).ok();
            let _ = rt::add_f(&a, &b).map(|t| chk("add", &t)).ok();
            None
        },
        _ => None,
    };
    if let Some(t) = new {
        chk(&format!("operation {op}"), &t)?;
        let t = t.mapv(|x| x % 1000);
        if t.size() < 3000 {
            regs.push(t);
        }
    }
    Ok(())
}

fn par_sum(a: &TensorView<'_, i64, B, IxD>) -> i64 {
    let s: i64 = by_dev!({ a.iter().map(|x| x % 10).sum() } { a.iter().into_par_iter().map(|x| x % 10).sum() });
    let t: i64 = a.indexed_iter().map(|(i, x)| i.len() as i64 + x % 10).sum();
    s + t
}
