/// A device of that mode: set explicitly, or the build's default.
fn md(r: &mut Rng, colm: bool) -> &'static B {
    if colm == build_colm() && r.bool() {
        let d = by_dev!({ serial_plain() } { faer_plain(*r.pick(&[1usize, 2, 3, 4, 8])) });
        assert!(d.default_order() == ord(colm));
        return d;
    }
    dev(r, colm)
}

macro_rules! ops {
    ($c:ident, $t:ty) => {{
        let (dr, dc) = (md(&mut $c.rng, false), md(&mut $c.rng, true));
        let what = $c.rng.below(24);
        let s = match what {
            11 | 12 => sh(&mut $c.rng, 1, 4),
            _ => sh(&mut $c.rng, 1, 5),
        };
        let n = s.len();
        let m: Nd<$t> = nd(&mut $c.rng, &s);
        let (s1, r1) = place(&mut $c.rng, &m);
        let (s2, r2) = place(&mut $c.rng, &m.reversed_axes());
        let a = rt::asarray((&r1, lay(&s1), dr));
        let b = rt::asarray((&r2, lay(&s2), dc));
        $c.eval();
        $c.d(format!("op {what} row {s1} col {s2}"));
        $c.hit(format!("op{what}"));
        if m.size() > 1 {
            $c.nontrivial();
        }
        // random axes list
        let p = $c.rng.perm(n);
        let na = $c.rng.usize(0, n);
        let ax: Vec<isize> = p[..na].iter().map(|&x| x as isize).collect();
        let mx: Vec<isize> = p[..na].iter().map(|&x| ma(x, n)).collect();
        let x = p[0];
        $c.d(format!("axes {ax:?} axis {x}"));
        match what {
            0 => {
                // same element sequence, new extents
                let t = refac(&mut $c.rng, &s);
                $c.d(format!("to {t:?}"));
                agree("reshape", obs!(a.reshape(t.clone())), obs!(b.reshape(rev(&t))))?;
            },
            1 => agree("flatten", obs!(a.reshape(-1)), obs!(b.reshape(-1)))?,
            2 | 3 => {
                let (o, _) = gen_bcast_pair(&mut $c.rng, &s, false);
                let (o2, _) = gen_bcast_pair(&mut $c.rng, &s, false);
                let o = if bcast_shape(&s, &o).is_some() { o } else { o2 };
                if bcast_shape(&s, &o).is_none() {
                    return Ok(());
                }
                let mo: Nd<$t> = nd(&mut $c.rng, &o);
                let (s3, r3) = place(&mut $c.rng, &mo);
                let (s4, r4) = place(&mut $c.rng, &mo.reversed_axes());
                $c.d(format!("with row {s3} col {s4}"));
                let (e, f) = (rt::asarray((&r3, lay(&s3), dr)), rt::asarray((&r4, lay(&s4), dc)));
                if what == 2 {
                    agree("add", obs!(&a + &e), obs!(&b + &f))?;
                } else {
                    agree("mul", obs!(&e * &a), obs!(&f * &b))?;
                }
            },
            4 => {
                let mut o = s.clone();
                for k in o.iter_mut() {
                    if *k != 0 && $c.rng.chance(1, 2) {
                        *k = 1;
                    }
                }
                let cut = if $c.rng.bool() { o.iter().take_while(|&&k| k == 1).count() } else { 0 };
                let o = o[cut..].to_vec();
                let mo: Nd<$t> = nd(&mut $c.rng, &o);
                let (s3, r3) = place(&mut $c.rng, &mo);
                let (s4, r4) = place(&mut $c.rng, &mo.reversed_axes());
                $c.d(format!("assign row {s3} col {s4}"));
                let (e, f) = (rt::asarray((&r3, lay(&s3), dr)), rt::asarray((&r4, lay(&s4), dc)));
                let (mut u, mut v) = (a.to_owned(), b.to_owned());
                u += &e;
                v += &f;
                agree("add in place", obs!(&u), obs!(&v))?;
                u.assign(&e);
                v.assign(&f);
                agree("assign", obs!(&u), obs!(&v))?;
                agree("broadcast", obs!(e.to_broadcast(s.clone())), obs!(f.to_broadcast(rev(&s))))?;
            },
            5 => agree("sum", obs!(a.sum_axes(ax.clone())), obs!(b.sum_axes(mx)))?,
            6 => {
                ensure!(a.sum_all() == b.sum_all(), "sum of all differs");
                agree("transpose", obs!(a.transpose(p.iter().map(|&v| v as isize).collect::<Vec<_>>())), {
                    let q: Vec<isize> = (0..n).map(|k| ma(p[n - 1 - k], n)).collect();
                    obs!(b.transpose(q))
                })?
            },
            7 => agree("flip", obs!(a.flip(ax.clone())), obs!(b.flip(mx)))?,
            8 => {
                let y = p[n - 1];
                agree("swapaxes", obs!(a.swapaxes(x as isize, y as isize)), obs!(b.swapaxes(ma(x, n), ma(y, n))))?;
                agree("moveaxis", obs!(a.moveaxis(x as isize, y as isize)), obs!(b.moveaxis(ma(x, n), ma(y, n))))?;
            },
            9 => {
                let at = $c.rng.usize(0, n);
                agree("expand_dims", obs!(a.expand_dims(at as isize)), obs!(b.expand_dims((n - at) as isize)))?;
            },
            10 => {
                // one slice or index per axis
                let mut sel = vec![];
                for k in 0..n {
                    sel.push(match $c.rng.below(5) {
                        0 if s[k] > 0 => Indexer::Select($c.rng.below(s[k]) as isize),
                        1 => Indexer::Slice(SliceI::new(None, None, Some(-1))),
                        2 => Indexer::Slice(SliceI::new(Some(1isize), None, Some(2))),
                        3 => Indexer::Insert,
                        _ => Indexer::Slice(SliceI::new(None, Some(-1isize), None)),
                    });
                }
                let mut msel = sel.clone();
                msel.reverse();
                // an Insert does not consume an axis: the rest keeps its full extent on the same side
                let ins = sel.iter().any(|v| matches!(v, Indexer::Insert));
                if ins {
                    let mut full = vec![];
                    for v in sel {
                        if matches!(v, Indexer::Insert) {
                            full.push(v);
                            full.push(Indexer::Slice(SliceI::new(None, None, None)));
                        } else {
                            full.push(v);
                        }
                    }
                    let mut m2 = full.clone();
                    m2.reverse();
                    agree("basic indexing", obs!(a.i(AxesIndex::Vec(full))), obs!(b.i(AxesIndex::Vec(m2))))?;
                } else {
                    agree("basic indexing", obs!(a.i(AxesIndex::Vec(sel))), obs!(b.i(AxesIndex::Vec(msel))))?;
                }
            },
            11 => {
                // batched matrix product
                let (k, j) = ($c.rng.usize(0, 4), $c.rng.usize(1, 4));
                let vec_b = $c.rng.chance(1, 4);
                if n < 2 && !vec_b {
                    return Ok(());
                }
                let _ = k;
                let kk = s[n - 1];
                let mut bs: Vec<usize> = if n >= 2 { s[..n - 2].to_vec() } else { vec![] };
                for v in bs.iter_mut() {
                    if $c.rng.chance(1, 3) {
                        *v = 1;
                    }
                }
                let cut = $c.rng.usize(0, bs.len());
                let mut o = bs[cut..].to_vec();
                if vec_b {
                    o = vec![kk];
                } else {
                    o.push(kk);
                    o.push(j);
                }
                let mo: Nd<$t> = nd(&mut $c.rng, &o);
                let (s3, r3) = place(&mut $c.rng, &mo);
                let (s4, r4) = place(&mut $c.rng, &mo.reversed_axes());
                $c.d(format!("with row {s3} col {s4}"));
                let (e, f) = (rt::asarray((&r3, lay(&s3), dr)), rt::asarray((&r4, lay(&s4), dc)));
                agree("matmul", obs!(rt::matmul(&a, &e)), obs!(rt::matmul(&f, &b)))?;
            },
            12 => {
                // joining
                let k = $c.rng.usize(1, 3);
                let at = $c.rng.usize(0, n);
                let (mut u, mut v) = (vec![], vec![]);
                for _ in 0..k {
                    let w: Nd<$t> = nd(&mut $c.rng, &s);
                    let (s3, r3) = place(&mut $c.rng, &w);
                    let (s4, r4) = place(&mut $c.rng, &w.reversed_axes());
                    u.push(rt::asarray((r3, lay(&s3), dr)));
                    v.push(rt::asarray((r4, lay(&s4), dc)));
                }
                agree("stack", obs!(rt::stack((&u, at as isize))), obs!(rt::stack((&v, (n - at) as isize))))?;
                agree("concat", obs!(rt::concat((u, x as isize))), obs!(rt::concat((v, ma(x, n)))))?;
            },
            13 => {
                if s[x] == 0 {
                    return Ok(());
                }
                let k = $c.rng.below(5);
                let idx: Vec<isize> = (0..k).map(|_| $c.rng.range(-(s[x] as i64), s[x] as i64 - 1) as isize).collect();
                agree("take", obs!(a.take(&idx, x as isize)), obs!(b.take(&idx, ma(x, n))))?;
            },
            14 => {
                let (mut u, mut v) = (vec![], vec![]);
                for e in a.iter() {
                    u.push(e.clone());
                }
                for e in b.iter() {
                    v.push(e.clone());
                }
                ensure!(u.len() == v.len() && u.iter().zip(&v).all(|(x, y)| x.eqv(y)), "default iteration order is not mirrored");
                let u: Vec<_> = a.indexed_iter().map(|(i, _)| i.to_vec()).collect();
                let v: Vec<_> = b.indexed_iter().map(|(i, _)| rev(&i)).collect();
                ensure!(u == v, "indices of the default iteration are not mirrored");
            },
            15 => {
                // creation from a flat vector
                let f = m.data.clone();
                agree("asarray", obs!(rt::asarray((f.clone(), s.clone(), dr))), obs!(rt::asarray((f, rev(&s), dc))))?;
            },
            16 => {
                if n < 2 {
                    return Ok(());
                }
                let (y, k) = (p[1], $c.rng.range(-3, 3) as isize);
                // element (i, i + k) of axes (x, y), mirrored: the same two axes
                let u = a.diagonal((k, x as isize, y as isize));
                let v = b.diagonal((k, ma(x, n), ma(y, n)));
                // the diagonal becomes the last axis in row-major mode
                let v = obs!(v);
                let u = obs!(u);
                // same position in both modes: compare the elements along the diagonal with the rest reversed
                if n == 2 {
                    equal("diagonal", u, v)?;
                } else {
                    let (u, v) = (u?, v?);
                    let q: Vec<usize> = (0..n - 2).rev().chain([n - 2]).collect();
                    let v = v.permute(&q);
                    sim("diagonal", &Ok(v), &u)?;
                }
            },
            17 => {
                if n != 2 {
                    return Ok(());
                }
                let k = $c.rng.range(-4, 4) as isize;
                agree("tril", obs!(rt::tril((&a, k))), obs!(rt::triu((&b, -k))))?;
                agree("triu", obs!(rt::triu((&a, k))), obs!(rt::tril((&b, -k))))?;
            },
            18 => {
                // broadcasting several arrays together
                let mut o = s.clone();
                for k in o.iter_mut() {
                    if $c.rng.bool() {
                        *k = 1;
                    }
                }
                let cut = $c.rng.usize(0, n - 1);
                let o = o[cut..].to_vec();
                let mo: Nd<$t> = nd(&mut $c.rng, &o);
                let (s3, r3) = place(&mut $c.rng, &mo);
                let (s4, r4) = place(&mut $c.rng, &mo.reversed_axes());
                let (e, f) = (rt::asarray((&r3, lay(&s3), dr)), rt::asarray((&r4, lay(&s4), dc)));
                let u = rt::broadcast_arrays(vec![a.view(), e.view()]);
                let v = rt::broadcast_arrays(vec![b.view(), f.view()]);
                for (x, y) in u.iter().zip(&v) {
                    agree("broadcast_arrays", obs!(x), obs!(y))?;
                }
            },
            19 => {
                let t: Vec<isize> = p[..1].iter().map(|&x| x as isize).collect();
                let mut u: Vec<_> = a.axes_iter_with_order(t.clone(), TensorIterOrder::C).map(|v| obs!(v)).collect();
                let mut v: Vec<_> = b.axes_iter_with_order(vec![ma(x, n)], TensorIterOrder::F).map(|v| obs!(v)).collect();
                ensure!(u.len() == v.len(), "axes_iter yields {} and {}", u.len(), v.len());
                while let (Some(x), Some(y)) = (u.pop(), v.pop()) {
                    agree("axes_iter", x, y)?;
                }
            },
            20 => {
                let (u, v) = (a.to_contig(ord(false)), b.to_contig(ord(true)));
                ensure!(u.raw().len() < m.size() || obs!(&u).is_ok(), "contig");
                agree("to_contig", obs!(&u), obs!(&v))?;
            },
            21 => {
                let u = a.sum_axes(vec![x as isize]);
                let v = b.sum_axes(vec![ma(x, n)]);
                agree("sum of one axis", obs!(u), obs!(v))?;
            },
            22 => {
                // where the mode decides the layout of a fresh result
                let (u, v) = (a.to_owned(), b.to_owned());
                let (u, v) = (u.into_contig(dr.default_order()), v.into_contig(dc.default_order()));
                if m.size() > 0 {
                    ensure!(
                        u.c_contig() && v.f_contig(),
                        "fresh results are not contiguous in the order of their mode"
                    );
                }
                ensure!(
                    u.into_shape(-1).into_vec().iter().zip(v.into_shape(-1).into_vec().iter()).all(|(x, y)| x.eqv(y)),
                    "flat vectors differ"
                );
            },
            _ => {
                let mut u: Nd<$t> = nd(&mut $c.rng, &[1]);
                let k = u.data.pop().unwrap();
                agree("scalar", obs!(&a * k.clone()), obs!(&b * k.clone()))?;
                agree("map", obs!(a.mapv(|v| v + k.clone())), obs!(b.mapv(|v| v + k.clone())))?;
            },
        }
    }};
}

/// Another factorisation of the same number of elements.
fn refac(r: &mut Rng, s: &[usize]) -> Vec<usize> {
    let mut f = vec![];
    for &n in s {
        let mut n = n;
        if n == 0 {
            f.push(0);
            continue;
        }
        let mut d = 2;
        while n > 1 && d <= n {
            while n % d == 0 {
                f.push(d);
                n /= d;
            }
            d += 1;
        }
    }
    let mut out = vec![];
    for k in r.perm(f.len()) {
        if out.is_empty() || r.bool() {
            out.push(f[k]);
        } else {
            *out.last_mut().unwrap() *= f[k];
        }
    }
    if out.is_empty() || r.chance(1, 4) {
        let at = r.usize(0, out.len());
        out.insert(at, 1);
    }
    out.truncate(8);
    if size_of(&out) != size_of(s) {
        return vec![size_of(s)];
    }
    out
}

/// One request, mirrored: same result, reversed.
pub fn mirror_case(c: &mut Case) -> R {
    if c.rng.chance(1, 4) {
        ops!(c, f64)
    } else {
        ops!(c, i64)
    }
    Ok(())
}

/// One request that refers to neither element order nor alignment: same result.
pub fn same_case(c: &mut Case) -> R {
    let (dr, dc) = (md(&mut c.rng, false), md(&mut c.rng, true));
    let s = sh(&mut c.rng, 1, 4);
    let n = s.len();
    let m: Nd<i64> = nd(&mut c.rng, &s);
    let (s1, r1) = place(&mut c.rng, &m);
    let (s2, r2) = place(&mut c.rng, &m);
    let a = rt::asarray((&r1, lay(&s1), dr));
    let b = rt::asarray((&r2, lay(&s2), dc));
    let what = c.rng.below(16);
    c.eval();
    c.d(format!("same {what} row {s1} col {s2}"));
    c.hit(format!("same{what}"));
    if m.size() > 1 {
        c.nontrivial();
    }
    let p = c.rng.perm(n);
    let x = p[0] as isize;
    let ax: Vec<isize> = p[..c.rng.usize(0, n)].iter().map(|&x| x as isize).collect();
    c.d(format!("axes {ax:?} axis {x}"));
    let mo: Nd<i64> = nd(&mut c.rng, &s);
    let (s3, r3) = place(&mut c.rng, &mo);
    let (s4, r4) = place(&mut c.rng, &mo);
    let e = rt::asarray((&r3, lay(&s3), dr));
    let f = rt::asarray((&r4, lay(&s4), dc));
    match what {
        0 => equal("add", obs!(&a + &e), obs!(&b + &f))?,
        1 => {
            let (mut u, mut v) = (a.to_owned(), b.to_owned());
            u -= &e;
            v -= &f;
            equal("sub in place", obs!(u), obs!(v))?
        },
        2 => equal("sum", obs!(a.sum_axes(ax.clone())), obs!(b.sum_axes(ax)))?,
        3 => equal("prod", obs!(a.mapv(|v| v % 2).prod_axes(ax.clone())), obs!(b.mapv(|v| v % 2).prod_axes(ax)))?,
        4 if m.size() > 0 => {
            equal("min", obs!(a.min_axes(ax.clone())), obs!(b.min_axes(ax)))?;
            ensure!(a.max_all() == b.max_all(), "max of all");
            let (u, v) = (a.mapv(|v| v % 3), b.mapv(|v| v % 3));
            ensure!(u.argmin_all() == v.argmin_all(), "argmin {} and {}", u.argmin_all(), v.argmin_all());
            ensure!(u.unraveled_argmax_all().to_vec() == v.unraveled_argmax_all().to_vec(), "position of the maximum");
            let g = obs!(u.argmax_axes(x)).map(|m| m.map(|v| *v as i64));
            equal("argmax of an axis", g, obs!(v.argmax_axes(x)).map(|m| m.map(|v| *v as i64)))?;
        },
        5 => {
            let q: Vec<isize> = p.iter().map(|&v| v as isize).collect();
            equal("transpose", obs!(a.transpose(q.clone())), obs!(b.transpose(q)))?;
            equal("flip", obs!(a.flip(ax.clone())), obs!(b.flip(ax)))?;
        },
        6 => equal("concat", obs!(rt::concat((vec![&a, &e], x))), obs!(rt::concat((vec![&b, &f], x))))?,
        7 => equal("stack", obs!(rt::stack((vec![&a, &e], x))), obs!(rt::stack((vec![&b, &f], x))))?,
        8 if s[p[0]] > 0 => {
            let idx: Vec<isize> = (0..3).map(|_| c.rng.below(s[p[0]]) as isize).collect();
            equal("take", obs!(a.take(&idx, x)), obs!(b.take(&idx, x)))?
        },
        9 if n == 2 => {
            let k = c.rng.range(-3, 3) as isize;
            equal("tril", obs!(rt::tril((&a, k))), obs!(rt::tril((&b, k))))?;
            equal("triu", obs!(rt::triu((&a, k))), obs!(rt::triu((&b, k))))?;
            equal("diag", obs!(rt::diag((&a, k))), obs!(rt::diag((&b, k))))?;
            equal("diagonal", obs!(a.diagonal(k)), obs!(b.diagonal(k)))?;
        },
        10 if n == 2 => {
            let j = c.rng.usize(1, 5);
            let w: Nd<i64> = nd(&mut c.rng, &[s[1], j]);
            let (s5, r5) = place(&mut c.rng, &w);
            let (s6, r6) = place(&mut c.rng, &w);
            let (g, h) = (rt::asarray((&r5, lay(&s5), dr)), rt::asarray((&r6, lay(&s6), dc)));
            equal("matmul", obs!(rt::matmul(&a, &g)), obs!(rt::matmul(&b, &h)))?
        },
        11 => {
            let (k, l, q) = (c.rng.usize(0, 5), c.rng.usize(0, 5), c.rng.range(-3, 3) as isize);
            let u: Tensor<i64, B, IxD> = rt::eye((k, l, q, dr));
            let v: Tensor<i64, B, IxD> = rt::eye((k, l, q, dc));
            equal("eye", obs!(u), obs!(v))?;
        },
        12 => {
            let sel: Vec<Indexer> = (0..n)
                .map(|k| match c.rng.below(3) {
                    0 if s[k] > 0 => Indexer::Select(c.rng.below(s[k]) as isize),
                    1 => Indexer::Slice(SliceI::new(None, None, Some(-2))),
                    _ => Indexer::Slice(SliceI::new(Some(1isize), None, None)),
                })
                .collect();
            equal("basic indexing", obs!(a.i(AxesIndex::Vec(sel.clone()))), obs!(b.i(AxesIndex::Vec(sel))))?
        },
        13 => {
            equal("to_contig", obs!(a.to_contig(ord(true))), obs!(b.to_contig(ord(true))))?;
            let u: Vec<i64> = a.iter_with_order(TensorIterOrder::F).copied().collect();
            let v: Vec<i64> = b.iter_with_order(TensorIterOrder::F).copied().collect();
            ensure!(u == v, "iteration in a given order");
        },
        14 => {
            ensure!(a.sum_all() == b.sum_all(), "sum of all");
            equal("map", obs!(a.mapv(|v| v * 3)), obs!(b.mapv(|v| v * 3)))?
        },
        _ => {
            let o = s.clone();
            equal(
                "reshape in a given order",
                obs!(a.reshape_with_args(vec![-1], ReshapeArgs { order: Some(ord(true)), copy: None })),
                obs!(b.reshape_with_args(vec![-1], ReshapeArgs { order: Some(ord(true)), copy: None })),
            )?;
            equal("ones", obs!(rt::ones::<_, (i64, Vec<usize>)>((o.clone(), dr))), obs!(rt::ones::<_, (i64, Vec<usize>)>((o, dc))))?
        },
    }
    Ok(())
}
