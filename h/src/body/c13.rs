fn types13(c: &mut Case) -> usize {
    c.rng.below(3)
}
macro_rules! types13 {
    ($c:ident, $f:ident) => {
        match types13($c) {
            0 => $f::<i64>($c),
            1 => $f::<f64>($c),
            _ => $f::<String>($c),
        }
    };
}

fn views_ty<T: V + Default>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 5);
    let n = sh.len();
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    c.eval();
    c.nontrivial();
    let r = &mut c.rng;
    let op = r.below(14);
    let axes = bad_axes(r, n);
    match op {
        0 | 1 => {
            // permutations
            let p: Vec<isize> = if op == 0 && n > 1 {
                let mut p: Vec<isize> = r.perm(n).into_iter().map(|a| sgn(r, a, n)).collect();
                match r.below(3) {
                    0 => drop(p.pop()),
                    1 => p.push(sgn(r, n - 1, n)),
                    _ => p[0] = p[1] + if p[1] < 0 { n as isize } else { 0 },
                }
                p
            } else {
                let mut p: Vec<isize> = r.perm(n).into_iter().map(|a| sgn(r, a, n)).collect();
                let b = bad_axis(r, n);
                if n == 0 {
                    p.push(b);
                } else {
                    p[r.below(n)] = b;
                }
                p
            };
            c.d(format!("transpose {s} by {p:?}"));
            let r = &mut c.rng;
            match r.below(4) {
                0 => refused("transpose", || t.transpose_f(&p))?,
                1 => refused("transpose", || rt::permute_dims_f(&t, p.clone()))?,
                2 if n == 3 => refused("transpose", || t.to_dim::<Ix3>().into_transpose_f(p.clone()))?,
                _ => dies("transpose", || t.transpose(p.clone()))?,
            }
        },
        2 | 3 => {
            let (a, b) = (if n == 0 { 0 } else { sgn(r, r.clone().below(n), n) }, bad_axis(r, n));
            let (a, b) = if r.bool() { (a, b) } else { (b, a) };
            c.d(format!("swapaxes {s} {a} {b}"));
            match c.rng.below(3) {
                0 => refused("swapaxes", || t.swapaxes_f(a, b))?,
                1 => refused("swapaxes", || rt::into_swapaxes_f(t.view(), a, b))?,
                _ => dies("swapaxes", || t.swapaxes(a, b))?,
            }
        },
        4 | 5 => {
            let good: Vec<isize> = r.perm(n).into_iter().take(axes.len()).map(|a| sgn(r, a, n)).collect();
            let (src, dst) = match r.below(3) {
                0 => (axes.clone(), good),
                1 => (good, axes.clone()),
                _ if n > 0 => {
                    // lists of different lengths
                    let mut a: Vec<isize> = r.perm(n).into_iter().map(|a| a as isize).collect();
                    let b = a.clone();
                    a.truncate(r.below(n));
                    if r.bool() { (a, b) } else { (b, a) }
                },
                _ => (axes.clone(), axes.clone()),
            };
            c.d(format!("moveaxis {s} {src:?} -> {dst:?}"));
            match c.rng.below(3) {
                0 => refused("moveaxis", || t.moveaxis_f(src, dst))?,
                1 => refused("moveaxis", || rt::into_moveaxis_f(t.view(), src, dst))?,
                _ => dies("moveaxis", || t.moveaxis(src, dst))?,
            }
        },
        6 | 7 => {
            c.d(format!("flip {s} {axes:?}"));
            match c.rng.below(3) {
                0 => refused("flip", || t.flip_f(axes_index(&axes)))?,
                1 => refused("flip", || rt::into_flip_f(t.view(), axes.clone()))?,
                _ => dies("flip", || t.flip(axes_index(&axes)))?,
            }
        },
        8..=10 => {
            // squeeze: axes out of range, repeated, or of an extent other than one
            let ones: Vec<usize> = (0..n).filter(|&i| sh[i] == 1).collect();
            let more: Vec<usize> = (0..n).filter(|&i| sh[i] != 1).collect();
            let mut v: Vec<isize> = ones.iter().filter(|_| r.bool()).map(|&a| a as isize).collect();
            for a in v.iter_mut() {
                *a = sgn(r, *a as usize, n);
            }
            let bad = match r.below(3) {
                0 if !more.is_empty() => sgn(r, *r.clone().pick(&more), n),
                1 if !v.is_empty() => v[r.below(v.len())],
                _ => bad_axis(r, n),
            };
            let at = r.below(v.len() + 1);
            v.insert(at, bad);
            c.d(format!("squeeze {s} {v:?}"));
            match c.rng.below(3) {
                0 => refused("squeeze", || t.squeeze_f(axes_index(&v)))?,
                1 => refused("squeeze", || rt::into_squeeze_f(t.view(), v.clone()))?,
                _ => dies("squeeze", || t.squeeze(axes_index(&v)))?,
            }
        },
        11 | 12 => {
            // expand_dims: `k` new axes of an array of `n + k` axes
            let k = r.usize(1, 3);
            let m = n + k;
            let mut v: Vec<isize> = r.perm(m).into_iter().take(k).map(|a| sgn(r, a, m)).collect();
            let at = r.below(k);
            if k > 1 && r.bool() {
                let o = v[(at + 1) % k];
                v[at] = if o < 0 { o + m as isize } else { o - m as isize };
            } else {
                v[at] = bad_axis(r, m);
            }
            c.d(format!("expand_dims {s} {v:?}"));
            match c.rng.below(3) {
                0 => refused("expand_dims", || t.expand_dims_f(axes_index(&v)))?,
                1 => refused("expand_dims", || rt::into_expand_dims_f(t.view(), v.clone()))?,
                _ => dies("expand_dims", || t.unsqueeze(axes_index(&v)))?,
            }
        },
        _ => {
            if n < 2 {
                c.d(format!("matrix_transpose {s}"));
                match c.rng.below(2) {
                    0 => refused("matrix_transpose", || t.matrix_transpose_f())?,
                    _ => dies("matrix_transpose", || rt::matrix_transpose(&t))?,
                }
            } else {
                c.d(format!("into_dim {s}"));
                match n {
                    2 => {
                        refused("into_dim", || t.to_dim_f::<Ix1>())?;
                        refused("into_dim", || t.view().into_dim_f::<Ix3>())?;
                        dies("into_dim", || t.to_dim::<rstsr_core::prelude_dev::Ix0>())?
                    },
                    3 => {
                        refused("into_dim", || t.to_dim_f::<Ix2>())?;
                        refused("into_dim", || t.to_dim::<Ix3>().into_dim_f::<Ix4>())?;
                        dies("into_dim", || t.to_dim::<Ix4>())?
                    },
                    _ => {
                        refused("into_dim", || t.to_dim_f::<Ix6>())?;
                        refused("into_dim", || t.to_dim_f::<Ix1>())?
                    },
                }
            }
        },
    }
    unchanged("operand", &raw, &keep)
}
/// Axis arguments of the view operations.
pub fn views_case(c: &mut Case) -> R {
    types13!(c, views_ty)
}

/// An index list of which at least one entry is invalid for `sh`.
fn bad_index(r: &mut Rng, sh: &[usize]) -> Vec<Indexer> {
    let n = sh.len();
    let k = r.usize(0, n);
    let mut v: Vec<Indexer> = Vec::new();
    for &m in sh.iter().take(k) {
        v.push(match r.below(3) {
            0 if m > 0 => Indexer::Select(sgn(r, r.clone().below(m), m)),
            1 => Indexer::Slice(SliceI::new(None, None, Some(if r.bool() { 1 } else { -1 }))),
            _ => Indexer::Slice(SliceI::new(Some(0), Some(r.usize(0, 3) as isize), None)),
        });
    }
    match r.below(4) {
        0 if k > 0 => {
            // an element that is not there
            let at = r.below(k);
            v[at] = Indexer::Select(bad_axis(r, sh[at]));
        },
        1 if k > 0 => {
            // a step of zero
            let at = r.below(k);
            let a = if r.bool() { None } else { Some(r.range(-4, 4) as isize) };
            let b = if r.bool() { None } else { Some(r.range(-4, 4) as isize) };
            v[at] = Indexer::Slice(SliceI::new(a, b, Some(0)));
        },
        2 => {
            // two ellipses
            let at = r.below(v.len() + 1);
            v.insert(at, Indexer::Ellipsis);
            let at = r.below(v.len() + 1);
            v.insert(at, Indexer::Ellipsis);
        },
        _ => {
            // more indices than axes
            let all = n + r.usize(1, 3) - v.len();
            for _ in 0..all {
                let at = r.below(v.len() + 1);
                v.insert(at, Indexer::Slice(SliceI::new(None, None, None)));
            }
            if r.chance(1, 3) {
                let at = r.below(v.len() + 1);
                v.insert(at, Indexer::Insert);
            }
            if r.chance(1, 3) {
                let at = r.below(v.len() + 1);
                v.insert(at, Indexer::Ellipsis);
            }
        },
    }
    v
}

fn dargs(offset: Option<isize>, axis1: Option<isize>, axis2: Option<isize>) -> DiagonalArgs {
    DiagonalArgs { offset, axis1, axis2 }
}

fn slices_ty<T: V + Default>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 5);
    let n = sh.len();
    let s = any_layout(&mut c.rng, &sh);
    let mut raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    c.eval();
    c.nontrivial();
    let op = c.rng.below(10);
    if op < 6 {
        let v = bad_index(&mut c.rng, &sh);
        c.d(format!("slice {s} {v:?}"));
        let ix = AxesIndex::Vec(v);
        match c.rng.below(6) {
            0 => refused("slice", || rt::asarray((&raw, lay(&s), dv)).i_f(ix).map(|_| ()))?,
            1 => refused("slice", || rt::asarray((&raw, lay(&s), dv)).into_slice_f(ix))?,
            2 => refused("slice", || rt::slice_f(&rt::asarray((&raw, lay(&s), dv)), ix).map(|_| ()))?,
            3 => {
                let mut m = rt::asarray((&mut raw, lay(&s), dv));
                refused("slice_mut", || m.slice_mut_f(ix).map(|_| ()))?
            },
            4 => {
                let mut m = rt::asarray((&mut raw, lay(&s), dv));
                dies("slice_mut", || drop(m.i_mut(ix)))?
            },
            _ => dies("slice", || drop(rt::asarray((&raw, lay(&s), dv)).i(ix)))?,
        }
    } else if op == 6 {
        // an element outside the array
        if n == 0 {
            return Ok(());
        }
        let mut idx: Vec<usize> = sh.iter().map(|&m| c.rng.below(m.max(1))).collect();
        let at = c.rng.below(n);
        idx[at] = sh[at] + *c.rng.pick(&[0, 0, 1, 2, 7]);
        if c.rng.chance(1, 6) {
            idx[at] = usize::MAX;
        }
        if c.rng.chance(1, 6) {
            idx.push(0);
        } else if n > 1 && c.rng.chance(1, 6) {
            idx.pop();
        }
        c.d(format!("element {idx:?} of {s}"));
        let t = rt::asarray((&raw, lay(&s), dv));
        dies("element", || t[&idx].clone())?;
        drop(t);
        let mut m = rt::asarray((&mut raw, lay(&s), dv));
        dies("element_mut", || m[&idx] = T::default())?;
    } else {
        // diagonals
        let args = if n < 2 {
            dargs(None, None, None)
        } else {
            let a = c.rng.below(n);
            let a = sgn(&mut c.rng, a, n);
            match c.rng.below(3) {
                0 => {
                    let b = if c.rng.bool() { a } else if a < 0 { a + n as isize } else { a - n as isize };
                    dargs(Some(0), Some(a), Some(b))
                },
                1 => dargs(Some(1), Some(bad_axis(&mut c.rng, n)), Some(a)),
                _ => dargs(None, Some(a), Some(bad_axis(&mut c.rng, n))),
            }
        };
        c.d(format!("diagonal {s} {:?}", (args.offset, args.axis1, args.axis2)));
        match c.rng.below(4) {
            0 => refused("diagonal", || rt::asarray((&raw, lay(&s), dv)).diagonal_f(args).map(|_| ()))?,
            1 => refused("diagonal", || rt::asarray((&raw, lay(&s), dv)).into_diagonal_f(args))?,
            2 => {
                let mut m = rt::asarray((&mut raw, lay(&s), dv));
                refused("diagonal_mut", || m.diagonal_mut_f(args).map(|_| ()))?
            },
            _ => dies("diagonal", || drop(rt::asarray((&raw, lay(&s), dv)).diagonal(args)))?,
        }
    }
    unchanged("operand", &raw, &keep)
}
/// Basic indexing.
pub fn slices_case(c: &mut Case) -> R {
    types13!(c, slices_ty)
}

/// A shape request that an array of `size` elements cannot satisfy.
fn bad_request(r: &mut Rng, sh: &[usize], size: usize) -> Vec<isize> {
    loop {
        let mut v: Vec<isize> = match r.below(4) {
            0 => sh.iter().map(|&n| n as isize).collect(),
            1 => vec![size as isize],
            2 => (0..r.usize(0, 4)).map(|_| r.usize(0, 4) as isize).collect(),
            _ => sh.iter().rev().map(|&n| n as isize).collect(),
        };
        match r.below(7) {
            0 => v.push(r.usize(2, 3) as isize),
            1 if !v.is_empty() => {
                let at = r.below(v.len());
                v[at] += 1;
            },
            2 => {
                for _ in 0..2 {
                    let at = r.below(v.len() + 1);
                    v.insert(at, -1);
                }
                return v;
            },
            3 => {
                let at = r.below(v.len() + 1);
                v.insert(at, *r.clone().pick(&[-2isize, -3, isize::MIN]));
                return v;
            },
            4 if !v.is_empty() => {
                // -1 where the rest does not divide
                let at = r.below(v.len());
                v[at] = -1;
                let p: isize = v.iter().filter(|&&n| n != -1).product();
                if p > 0 && size as isize % p == 0 {
                    continue;
                }
                return v;
            },
            5 => {
                // a product that wraps around
                v = match r.below(3) {
                    0 => vec![1 << 32, 1 << 32],
                    1 => vec![isize::MAX, 2, 1],
                    _ => vec![1 << 62, 4, size.max(1) as isize],
                };
            },
            _ => (),
        }
        let p = v.iter().try_fold(1i128, |a, &n| a.checked_mul(n as i128)).unwrap_or(i128::MAX);
        if v.iter().all(|&n| n >= 0) && p != size as i128 && !(v.contains(&0) && size == 0) {
            return v;
        }
    }
}

fn reshape_ty<T: V + Default>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 4);
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    c.eval();
    c.nontrivial();
    match c.rng.below(4) {
        0 | 1 => {
            let v = bad_request(&mut c.rng, &sh, s.size());
            c.d(format!("reshape {s} to {v:?}"));
            let order = *c.rng.pick(&[None, Some(RowMajor), Some(ColMajor)]);
            let copy = *c.rng.pick(&[None, Some(true), Some(false)]);
            let args = rstsr_core::prelude::rstsr_structs::ReshapeArgs { order, copy };
            match c.rng.below(9) {
                0 => refused("reshape", || t.reshape_f(&v))?,
                1 => refused("reshape", || t.to_shape_f(v.clone()))?,
                2 => refused("reshape", || t.view().into_shape_f(v.clone()))?,
                3 => refused("reshape", || t.view().change_shape_f(v.clone()))?,
                4 => refused("reshape", || t.reshape_with_args_f(v.clone(), args))?,
                5 => refused("reshape", || t.view().into_shape_with_args_f(v.clone(), args))?,
                6 => refused("reshape", || t.to_owned().into_shape_f(v.clone()))?,
                7 => refused("compatible_shape", || t.to_compatible_shape_f(v.clone(), ord(colm)))?,
                _ => dies("reshape", || t.reshape(&v))?,
            }
        },
        2 => {
            let Some(v) = not_a_target(&mut c.rng, &sh, colm) else { return Ok(()) };
            c.d(format!("broadcast {s} to {v:?}"));
            match c.rng.below(3) {
                0 => refused("broadcast", || t.to_broadcast_f(v.clone()))?,
                1 => refused("broadcast", || t.view().into_broadcast_f(v.clone()))?,
                _ => dies("broadcast", || t.to_broadcast(v.clone()))?,
            }
        },
        _ => {
            let Some(v) = clashing(&mut c.rng, &sh) else { return Ok(()) };
            let s2 = any_layout(&mut c.rng, &v);
            let raw2: Vec<T> = gen_raw(&mut c.rng, s2.len);
            c.d(format!("broadcast_arrays {s} with {s2}"));
            let t2 = rt::asarray((&raw2, lay(&s2), dv));
            let mut all = vec![t.view(), t2.view()];
            let mut shapes: Vec<IxD> = vec![sh.clone(), v.clone()];
            if c.rng.bool() {
                all.insert(c.rng.below(3), t.view());
                shapes.push(sh.clone());
            }
            match c.rng.below(4) {
                0 => refused("broadcast_arrays", || rt::broadcast_arrays_f(all))?,
                1 => dies("broadcast_arrays", || rt::broadcast_arrays(all))?,
                2 => refused("broadcast_shapes", || rt::broadcast_shapes_f(&shapes, ord(colm)))?,
                _ => dies("broadcast_shapes", || rt::broadcast_shapes(&shapes, ord(colm)))?,
            }
        },
    }
    unchanged("operand", &raw, &keep)
}
/// Reshaping and broadcasting.
pub fn reshape_case(c: &mut Case) -> R {
    types13!(c, reshape_ty)
}

fn layouts_ty<T: V + Default>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 4);
    let s = any_layout(&mut c.rng, &sh);
    c.eval();
    c.nontrivial();
    let (lo, hi) = match positions(usize::MAX >> 2, &s.shape, &s.stride, s.offset) {
        Ok(p) if !p.is_empty() => (*p.iter().min().unwrap(), *p.iter().max().unwrap()),
        _ => (0, 0),
    };
    match c.rng.below(6) {
        0 | 1 => {
            // a buffer that ends before the last element
            if s.size() == 0 {
                return Ok(());
            }
            let len = c.rng.below(hi + 1);
            let len = if c.rng.bool() { hi } else { len };
            let mut raw: Vec<T> = gen_raw(&mut c.rng, len);
            let keep = raw.clone();
            c.d(format!("asarray {s} over {len} elements"));
            match c.rng.below(6) {
                0 => refused("asarray", || rt::asarray_f((&raw, lay(&s), dv)))?,
                1 => refused("asarray", || rt::asarray_f((raw.as_slice(), lay(&s), dv)))?,
                2 => refused("asarray_mut", || rt::asarray_f((&mut raw, lay(&s), dv)).map(|_| ()))?,
                3 => refused("asarray_vec", || rt::asarray_f((raw.clone(), lay(&s), dv)))?,
                4 => refused("asarray_vec", || rt::asarray_f((raw.clone(), sh.clone(), dv)).map(|_| ()).and_then(|_| {
                    // a contiguous shape may fit where the layout does not
                    if len < s.size() { Ok(()) } else { rt::asarray_f((raw.clone(), lay(&s), dv)).map(|_| ()) }
                }))?,
                _ => dies("asarray", || drop(rt::asarray((&mut raw, lay(&s), dv))))?,
            }
            unchanged("buffer", &raw, &keep)?
        },
        2 => {
            // layouts that begin before the buffer
            let neg: Vec<usize> = (0..sh.len()).filter(|&i| sh[i] > 1).collect();
            if neg.is_empty() || s.size() == 0 {
                return Ok(());
            }
            let at = *c.rng.pick(&neg);
            let mut st = s.stride.clone();
            st[at] = -(st[at].abs().max(1));
            let shift: isize = (0..sh.len()).filter(|&i| st[i] < 0).map(|i| -st[i] * (sh[i] as isize - 1)).sum();
            let off = c.rng.below(shift as usize);
            c.d(format!("layout {sh:?} {st:?} at {off}"));
            let _ = lo;
            match c.rng.below(2) {
                0 => refused("layout", || Layout::<IxD>::new(sh.clone(), st, off))?,
                _ => dies("layout", || Layout::<IxD>::new(sh.clone(), st, off).unwrap())?,
            }
        },
        3 => {
            // elements that overlap
            let mut k: Vec<usize> = (0..sh.len()).filter(|&i| sh[i] > 1).collect();
            if k.len() < 2 || s.size() == 0 {
                return Ok(());
            }
            c.rng.shuffle(&mut k);
            let (a, b) = (k[0], k[1]);
            let mut st: Vec<isize> = s.stride.iter().map(|x| x.abs() * 1000).collect();
            st[a] = 1 + c.rng.below(3) as isize;
            st[b] = st[a] * (1 + c.rng.below(sh[a] - 1)) as isize;
            c.d(format!("overlapping layout {sh:?} {st:?}"));
            refused("overlap", || Layout::<IxD>::new(sh.clone(), st.clone(), 0))?;
            if sh.len() == 3 {
                let (f, g) = ([sh[0], sh[1], sh[2]], [st[0], st[1], st[2]]);
                refused("overlap", || Layout::<Ix3>::new(f, g, 0))?
            }
        },
        4 => {
            // bounds beyond the address space
            let (sh, st, off): (Vec<usize>, Vec<isize>, usize) = match c.rng.below(6) {
                0 => (vec![3], vec![isize::MAX], 0),
                1 => (vec![5], vec![1 << 62], 0),
                2 => (vec![2, 3], vec![isize::MAX, 1], 4),
                3 => (vec![3], vec![1 << 63 - 1], usize::MAX - 3),
                4 => (vec![2], vec![1], usize::MAX),
                _ => (vec![9, 2], vec![(1 << 61) + 1, 1], 3),
            };
            c.d(format!("layout {sh:?} {st:?} at {off}"));
            let raw: Vec<T> = gen_raw(&mut c.rng, 16);
            refused("layout_overflow", || {
                Layout::<IxD>::new(sh.clone(), st.clone(), off).and_then(|l| rt::asarray_f((&raw, l, dv)).map(|_| ()))
            })?
        },
        _ => {
            // conversion to a layout of another size or with overlapping elements
            let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
            let keep = raw.clone();
            let t = rt::asarray((&raw, lay(&s), dv));
            let v = loop {
                let v = small(&mut c.rng, 0, 4);
                if v.iter().product::<usize>() != s.size() {
                    break v;
                }
            };
            let l = lay(&contig_spec(&v, c.rng.bool()));
            c.d(format!("to_layout {s} to {v:?}"));
            match c.rng.below(4) {
                0 => refused("to_layout", || t.to_layout_f(l))?,
                1 => refused("to_layout", || t.view().into_layout_f(l))?,
                2 => refused("to_layout", || t.to_owned().change_layout_f(l).map(|_| ()))?,
                _ => dies("to_layout", || t.to_layout(l))?,
            }
            unchanged("operand", &raw, &keep)?
        },
    }
    Ok(())
}
/// Layouts that do not fit their buffer or their elements.
pub fn layouts_case(c: &mut Case) -> R {
    types13!(c, layouts_ty)
}

/// Another device of the same kind on which arrays must not be mixed with those on `dv`.
fn other_dev(r: &mut Rng, colm: bool, dv: &B) -> &'static B {
    by_dev!({ let _ = (r, dv); serial(!colm) } {
        if r.bool() {
            faer(if dv.get_num_threads() == 2 { 3 } else { 2 }, colm)
        } else {
            faer(dv.get_num_threads(), !colm)
        }
    })
}

macro_rules! num13 {
    ($c:ident, $f:ident) => {
        match $c.rng.below(3) {
            0 => $f::<i64>($c),
            1 => $f::<f64>($c),
            _ => $f::<i32>($c),
        }
    };
}

fn arith_ty<T>(c: &mut Case) -> R
where
    T: V + Default + Copy + PartialOrd + num::Num + std::ops::AddAssign + std::ops::MulAssign + std::ops::SubAssign + std::ops::DivAssign,
{
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 1, 4);
    // `a` may be written to; `b` does not go with it, for its shape or for its device
    let sa = gen_layout(&mut c.rng, &sh, false);
    let mismatch = c.rng.chance(1, 3);
    let (shb, dvb) = if mismatch {
        (sh.clone(), other_dev(&mut c.rng, colm, dv))
    } else {
        let Some(v) = clashing(&mut c.rng, &sh) else { return Ok(()) };
        (v, dv)
    };
    let sb = any_layout(&mut c.rng, &shb);
    let mut ra: Vec<T> = gen_raw(&mut c.rng, sa.len);
    let rb: Vec<T> = gen_raw(&mut c.rng, sb.len);
    let (ka, kb) = (ra.clone(), rb.clone());
    c.eval();
    c.nontrivial();
    let op = c.rng.below(22);
    c.d(format!("op {op} on {sa} and {sb}, other device {mismatch}"));
    macro_rules! ab {
        ($a:ident, $b:ident, $e:expr) => {{
            let $a = rt::asarray((&ra, lay(&sa), dv));
            let $b = rt::asarray((&rb, lay(&sb), dvb));
            $e
        }};
    }
    macro_rules! mb {
        ($a:ident, $b:ident, $e:expr) => {{
            let mut $a = rt::asarray((&mut ra, lay(&sa), dv));
            let $b = rt::asarray((&rb, lay(&sb), dvb));
            $e
        }};
    }
    match op {
        0 => ab!(a, b, refused("add", || a.add_f(&b)))?,
        1 => ab!(a, b, refused("sub", || rt::sub_f(&b, &a)))?,
        2 => ab!(a, b, refused("mul", || rt::mul_f(a.to_owned(), &b)))?,
        3 => ab!(a, b, refused("add", || rt::add_f(&a, b.to_owned())))?,
        4 => ab!(a, b, refused("mul", || rt::mul_f(a.to_owned(), b.to_owned())))?,
        5 => ab!(a, b, dies("add", || &a + &b))?,
        6 => mb!(a, b, refused("add_assign", || rt::add_assign_f(&mut a, &b)))?,
        7 => mb!(a, b, refused("sub_assign", || rt::sub_assign_f(&mut a, b.to_owned())))?,
        8 => mb!(a, b, dies("mul_assign", || a *= &b))?,
        9 => mb!(a, b, refused("assign", || a.assign_f(&b)))?,
        10 => mb!(a, b, dies("assign", || a.assign(&b)))?,
        11 => mb!(a, b, refused("add_with_output", || rt::add_with_output_f(&b, &b, a.view_mut())))?,
        12 => {
            let other: Vec<T> = gen_raw(&mut c.rng, sa.len);
            mb!(a, b, refused("mul_with_output", || {
                let o = rt::asarray((&other, lay(&sa), dv));
                rt::mul_with_output_f(&o, &b, a.view_mut())
            }))?
        },
        13 => ab!(a, b, refused("maximum", || rt::maximum_f(&a.mapv(|_| 1.5f64), &b.mapv(|_| 2.5f64))))?,
        14 => ab!(a, b, refused("less", || rt::less_f(&a, &b)))?,
        15 => ab!(a, b, refused("mapb", || a.mapvb_f(&b, |x, y| x + y)))?,
        16 => ab!(a, b, dies("equal", || rt::equal(&a, &b)))?,
        17 if sh.len() == 3 => ab!(a, b, refused("add", || rt::add_f(a.to_dim::<Ix3>(), b.to_dim::<Ix3>())))?,
        18 if sh.len() == 2 => mb!(a, b, {
            let mut a = a.view_mut().into_dim::<Ix2>();
            refused("add_assign", || rt::add_assign_f(&mut a, b.to_dim::<Ix2>()))
        })?,
        19 | 20 => {
            // targets that cannot hold the result: smaller than it, or with several indices per element
            if mismatch {
                return Ok(());
            }
            let big: Vec<usize> = (0..sh.len()).filter(|&i| sh[i] > 1).collect();
            if big.is_empty() || sh.contains(&0) {
                return Ok(());
            }
            let at = *c.rng.pick(&big);
            let sb = any_layout(&mut c.rng, &sh);
            let rb: Vec<T> = gen_raw(&mut c.rng, sb.len);
            let kb = rb.clone();
            let b = rt::asarray((&rb, lay(&sb), dv));
            let mut st = sa.clone();
            let bcast = c.rng.bool();
            if bcast {
                st.stride[at] = 0;
            } else {
                st.shape[at] = 1;
            }
            st.offset = 0;
            for x in st.stride.iter_mut() {
                *x = x.abs();
            }
            st.len = ra.len();
            c.d(format!("target {st}"));
            let Ok(l) = Layout::<IxD>::new(st.shape.clone(), st.stride.clone(), st.offset) else { return Ok(()) };
            let Ok(mut a) = rt::asarray_f((&mut ra, l, dv)) else { return Ok(()) };
            let k = if bcast { "-bcast" } else { "-small" };
            match c.rng.below(if bcast { 14 } else { 6 }) {
                6 => refused("iter_mut-bcast", || a.iter_mut_f())?,
                7 => refused("iter_mut-bcast", || a.iter_mut_with_order_f(*c.rng.pick(&[TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::K])))?,
                8 => refused("indexed_iter_mut-bcast", || a.indexed_iter_mut_f())?,
                9 => refused("axes_iter_mut-bcast", || a.axes_iter_mut_f(at as isize))?,
                10 => refused("indexed_axes_iter_mut-bcast", || a.indexed_axes_iter_mut_f(vec![at as isize - sh.len() as isize]))?,
                11 => refused("mapb_into-bcast", || rstsr_core::tensor::exports::op_muta_refb_func(&mut a, &b, &mut |x: &mut std::mem::MaybeUninit<T>, y: &T| { x.write(*y); }))?,
                12 | 13 => {
                    let mut raw: Vec<f64> = gen_raw(&mut c.rng, ra.len());
                    let keep = raw.clone();
                    let l = Layout::<IxD>::new(st.shape.clone(), st.stride.clone(), st.offset).unwrap();
                    {
                        let mut t = rt::asarray((&mut raw, l, dv));
                        if sh.len() == 2 && c.rng.bool() {
                            let x: Tensor<f64, B, IxD> = rt::ones((vec![sh[0], 2], dv));
                            let y: Tensor<f64, B, IxD> = rt::ones((vec![2, sh[1]], dv));
                            refused("matmul_from-bcast", || {
                                rt::matmul_from_f(t.view_mut().into_dim::<Ix2>(), x.to_dim::<Ix2>(), y.to_dim::<Ix2>(), 1.0, 1.0)
                            })?
                        } else {
                            let mut sh1 = sh.clone();
                            sh1.push(3);
                            let e: Tensor<f64, B, IxD> = rt::ones((sh1, dv));
                            refused("vecdot_from-bcast", || rt::vecdot_from_f(t.view_mut(), &e, &e, -1))?
                        }
                    }
                    unchanged("target", &raw, &keep)?
                },
                0 => refused(&format!("assign{k}"), || a.assign_f(&b))?,
                1 if bcast => refused("fill-bcast", || a.fill_f(T::default()))?,
                2 => refused(&format!("add_assign{k}"), || rt::add_assign_f(&mut a, &b))?,
                3 => refused(&format!("with_output{k}"), || rt::add_with_output_f(&b, &b, a.view_mut()))?,
                4 => dies(&format!("mul_assign{k}"), || a *= &b)?,
                _ => dies(&format!("assign{k}"), || a.assign(&b))?,
            }
            unchanged("operand", &rb, &kb)?
        },
        _ => ab!(a, b, {
            refused("allclose", || rt::allclose_f(a.mapv(|_| 1.0f64).view(), b.mapv(|_| 1.0f64).view(), None))
        })?,
    }
    unchanged("first operand", &ra, &ka)?;
    unchanged("second operand", &rb, &kb)
}
/// Elementwise operations on operands that do not go together.
pub fn arith_case(c: &mut Case) -> R {
    num13!(c, arith_ty)
}

/// Reductions.
pub fn reduce_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 4);
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<f64> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    c.eval();
    c.nontrivial();
    let axes = bad_axes(&mut c.rng, sh.len());
    let ax = || axes_index(&axes);
    if c.rng.chance(1, 5) {
        // the extremum of nothing
        let mut sh = sh.clone();
        let at = c.rng.below(sh.len() + 1);
        sh.insert(at, 0);
        let s = gen_layout(&mut c.rng, &sh, false);
        let raw: Vec<f64> = gen_raw(&mut c.rng, s.len);
        let t = rt::asarray((&raw, lay(&s), dv));
        c.d(format!("extremum of {s}"));
        return match c.rng.below(8) {
            0 => refused("min-empty", || t.min_all_f()),
            1 => refused("max-empty", || t.max_all_f()),
            2 => refused("argmin-empty", || t.argmin_all_f()),
            3 => refused("argmax-empty", || t.unraveled_argmax_all_f()),
            4 => dies("max-empty", || t.max_all()),
            5 => dies("argmax-empty", || t.argmax_all()),
            _ if sh.iter().filter(|&&n| n == 0).count() > 1 => Ok(()),
            6 => refused("min-empty", || t.min_axes_f(at as isize).map(|t| if t.size() == 0 { panic!("nothing to refuse") })),
            _ => dies("max-empty", || {
                let t = t.max_axes(at as isize);
                if t.size() == 0 {
                    panic!("nothing to refuse")
                }
            }),
        }
        .or_else(|f| if f.msg.contains("nothing to refuse") { Ok(()) } else { Err(f) });
    }
    c.d(format!("reduction of {s} over {axes:?}"));
    match c.rng.below(16) {
        0 => refused("sum_axes", || t.sum_axes_f(ax()))?,
        1 => refused("prod_axes", || rt::prod_axes_f(&t, ax()))?,
        2 => refused("mean_axes", || t.mean_axes_f(ax()))?,
        3 => refused("var_axes", || t.var_axes_f(ax()))?,
        4 => refused("std_axes", || t.std_axes_f(ax()))?,
        5 => refused("min_axes", || t.min_axes_f(ax()))?,
        6 => refused("max_axes", || rt::max_axes_f(&t, ax()))?,
        7 => refused("argmin_axes", || t.argmin_axes_f(ax()))?,
        8 => refused("argmax_axes", || t.argmax_axes_f(ax()))?,
        9 => refused("unraveled_argmin_axes", || t.unraveled_argmin_axes_f(ax()))?,
        10 => refused("l2_norm_axes", || t.l2_norm_axes_f(ax()))?,
        11 => refused("count_nonzero_axes", || t.count_nonzero_axes_f(ax()))?,
        12 => {
            let b = t.mapv(|x| x > 0.0);
            refused("all_axes", || b.all_axes_f(ax()))?;
            refused("any_axes", || b.any_axes_f(ax()))?
        },
        13 => {
            let i = t.mapv(|_| 3i64);
            refused("sum_axes", || i.sum_axes_f(ax()))?;
            refused("max_axes", || i.max_axes_f(ax()))?
        },
        14 if sh.len() == 2 => refused("sum_axes", || t.to_dim::<Ix2>().sum_axes_f(ax()))?,
        14 => refused("min_axes", || t.min_axes_f(ax()))?,
        _ => dies("sum_axes", || t.sum_axes(ax()))?,
    }
    unchanged("operand", &raw, &keep)
}

/// Shapes of two operands that matmul cannot multiply (row-major reading).
fn bad_matmul(r: &mut Rng) -> (Vec<usize>, Vec<usize>) {
    let (m, k, n) = (r.usize(1, 5), r.usize(1, 5), r.usize(1, 5));
    let k2 = k + r.usize(1, 3);
    match r.below(7) {
        0 => (vec![k], vec![k2]),
        1 => (vec![m, k], vec![k2]),
        2 => (vec![k2], vec![k, n]),
        3 => (vec![m, k], vec![k2, n]),
        4 => (vec![2, m, k], vec![2, k2, n]),
        5 => (vec![2, m, k], vec![3, k, n]),
        _ => {
            let s = vec![m, k];
            if r.bool() { (vec![], s) } else { (s, vec![]) }
        },
    }
}

/// Matrix and vector products.
pub fn products_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    c.eval();
    c.nontrivial();
    let op = c.rng.below(12);
    let mismatch = c.rng.chance(1, 4);
    let vd = op >= 8;
    let (mut sa, mut sb) = bad_matmul(&mut c.rng);
    let dvb = if mismatch { other_dev(&mut c.rng, colm, dv) } else { dv };
    if mismatch {
        let (m, k, n) = (c.rng.usize(1, 4), c.rng.usize(1, 4), c.rng.usize(1, 4));
        sa = vec![m, k];
        sb = if vd { vec![m, k] } else { vec![k, n] };
    } else if vd {
        sa = small(&mut c.rng, 1, 3);
        let Some(v) = clashing(&mut c.rng, &sa) else { return Ok(()) };
        sb = v;
    }
    if colm && !vd && !mismatch {
        // the mirrored request
        (sa, sb) = (rev(&sb), rev(&sa));
    }
    let la = any_layout(&mut c.rng, &sa);
    let lb = any_layout(&mut c.rng, &sb);
    let (ra, rb): (Vec<f64>, Vec<f64>) = (gen_raw(&mut c.rng, la.len), gen_raw(&mut c.rng, lb.len));
    let (ka, kb) = (ra.clone(), rb.clone());
    let a = rt::asarray((&ra, lay(&la), dv));
    let b = rt::asarray((&rb, lay(&lb), dvb));
    c.d(format!("product {op} of {la} and {lb}, other device {mismatch}, order {}", if colm { "F" } else { "C" }));
    match op {
        0 => refused("matmul", || rt::matmul_f(&a, &b))?,
        1 => refused("matmul", || a.matmul_f(&b))?,
        2 => dies("matmul", || &a % &b)?,
        3 => {
            if sa.len() == 2 && sb.len() == 2 {
                refused("matmul", || rt::matmul_f(a.to_dim::<Ix2>(), b.to_dim::<Ix2>()))?
            } else {
                let ia = a.mapv(|_| 2i32);
                let ib = b.mapv(|_| 3i32);
                refused("matmul", || rt::matmul_f(&ia, &ib))?
            }
        },
        4..=7 => {
            // outputs of another shape, or that repeat elements
            let (m, k, n) = (c.rng.usize(1, 5), c.rng.usize(1, 5), c.rng.usize(1, 5));
            let la = any_layout(&mut c.rng, &[m, k]);
            let lb = any_layout(&mut c.rng, &[k, n]);
            let (ra, rb): (Vec<f64>, Vec<f64>) = (gen_raw(&mut c.rng, la.len), gen_raw(&mut c.rng, lb.len));
            let a = rt::asarray((&ra, lay(&la), dv));
            let b = rt::asarray((&rb, lay(&lb), dvb));
            let so = if mismatch {
                vec![m, n]
            } else {
                match c.rng.below(5) {
                    0 => vec![m + 1, n],
                    1 => vec![m, n + 2],
                    2 if m != n => vec![n, m],
                    3 if m * n != 1 => vec![1, 1],
                    4 if m * n > 1 => vec![m * n],
                    _ => vec![2, m, n],
                }
            };
            let lo = gen_layout(&mut c.rng, &so, false);
            let mut ro: Vec<f64> = gen_raw(&mut c.rng, lo.len);
            let ko = ro.clone();
            let mut o = rt::asarray((&mut ro, lay(&lo), dv));
            c.d(format!("into {lo} from {la} and {lb}"));
            match c.rng.below(4) {
                0 => refused("matmul_with_output", || rt::matmul_with_output_f(&a, &b, o.view_mut()))?,
                1 => refused("matmul_from", || o.matmul_from_f(&a, &b, 2.0, 0.5))?,
                2 => refused("matmul_from", || rt::matmul_from_f(o.view_mut(), &a, &b, 0.0, 1.0))?,
                _ => dies("matmul_from", || o.matmul_from(&a, &b, 1.0, 0.0))?,
            }
            unchanged("output", &ro, &ko)?
        },
        8 | 9 => {
            let at = if mismatch {
                -1
            } else {
                match (0..sa.len()).find(|&i| sa[i] != sb[i]) {
                    Some(i) if c.rng.bool() => sgn(&mut c.rng, i, sa.len()),
                    _ => bad_axis(&mut c.rng, sa.len()),
                }
            };
            c.d(format!("axis {at}"));
            match c.rng.below(3) {
                0 => refused("vecdot", || rt::vecdot_f(&a, &b, at))?,
                1 => refused("vecdot", || a.vecdot_f(&b, at))?,
                _ => dies("vecdot", || rt::vecdot(&a, &b, at))?,
            }
        },
        10 => {
            if mismatch {
                return Ok(());
            }
            // pairs of axes: repeated, out of range, of different number
            let bad = bad_axes(&mut c.rng, sa.len());
            let good: Vec<isize> = (0..sb.len().min(bad.len())).map(|a| a as isize).collect();
            c.d(format!("axes {bad:?} {good:?}"));
            match c.rng.below(3) {
                0 => refused("vecdot", || rt::vecdot_f(&a, &b, (bad, good)))?,
                1 => refused("vecdot", || rt::vecdot_f(&b, &a, (good, bad)))?,
                _ => dies("vecdot", || rt::vecdot(&a, &b, (bad, good)))?,
            }
        },
        _ => {
            // outputs of another shape
            let k = c.rng.usize(1, 4);
            let mut sx = small(&mut c.rng, 1, 3);
            sx.iter_mut().for_each(|n| *n = (*n).max(2));
            let want = sx.clone();
            sx.push(k);
            let lx = any_layout(&mut c.rng, &sx);
            let rx: Vec<f64> = gen_raw(&mut c.rng, lx.len);
            let x = rt::asarray((&rx, lay(&lx), dvb));
            let so = if mismatch {
                want.clone()
            } else {
                let Some(v) = clashing(&mut c.rng, &want) else { return Ok(()) };
                v
            };
            let lo = gen_layout(&mut c.rng, &so, false);
            let mut ro: Vec<f64> = gen_raw(&mut c.rng, lo.len);
            let ko = ro.clone();
            let mut o = rt::asarray((&mut ro, lay(&lo), dv));
            c.d(format!("vecdot of {lx} with itself into {lo}"));
            match c.rng.below(2) {
                0 => refused("vecdot_from", || rt::vecdot_from_f(o.view_mut(), &x, &x, -1))?,
                _ => dies("vecdot_from", || rt::vecdot_from(o.view_mut(), &x, &x, -1))?,
            }
            unchanged("output", &ro, &ko)?
        },
    }
    unchanged("first operand", &ra, &ka)?;
    unchanged("second operand", &rb, &kb)
}

fn select_ty<T: V + Default>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 1, 4);
    let n = sh.len();
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<T> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    c.eval();
    c.nontrivial();
    let op = c.rng.below(16);
    let a = c.rng.below(n);
    let ax = sgn(&mut c.rng, a, n);
    let m = sh[a];
    match op {
        0..=2 => {
            let mut idx: Vec<isize> = if m == 0 { vec![] } else { (0..c.rng.usize(0, 5)).map(|_| {
                let i = c.rng.below(m);
                sgn(&mut c.rng, i, m)
            }).collect() };
            let (ax, idx) = if c.rng.chance(1, 4) {
                (bad_axis(&mut c.rng, n), idx)
            } else {
                let at = c.rng.below(idx.len() + 1);
                idx.insert(at, bad_axis(&mut c.rng, m));
                (ax, idx)
            };
            c.d(format!("index_select {s} axis {ax} {idx:?}"));
            match c.rng.below(4) {
                0 => refused("index_select", || t.index_select_f(ax, &idx))?,
                1 => refused("take", || t.take_f(&idx, ax))?,
                2 => refused("take", || rt::take_f(&t, idx, ax))?,
                _ => dies("index_select", || t.index_select(ax, idx))?,
            }
        },
        3 | 4 => {
            let (ax, len) = if c.rng.chance(1, 4) {
                (bad_axis(&mut c.rng, n), m)
            } else {
                (ax, match c.rng.below(3) {
                    0 if m > 0 => m - 1,
                    1 => m + 1,
                    _ => m + 3,
                })
            };
            let p = c.rng.below(3);
            let mask: Vec<bool> = (0..len).map(|_| c.rng.below(3) < p).collect();
            c.d(format!("bool_select {s} axis {ax} {mask:?}"));
            match c.rng.below(3) {
                0 => refused("bool_select", || t.bool_select_f(ax, &mask))?,
                1 => refused("bool_select", || rt::bool_select_f(&t, ax, mask))?,
                _ => dies("bool_select", || t.bool_select(ax, &mask))?,
            }
        },
        5..=12 => {
            // joining operands that do not go together
            let k = c.rng.usize(1, 3);
            let bad_dev = c.rng.chance(1, 4);
            let bad_ax = !bad_dev && c.rng.chance(1, 3);
            let stack = op >= 10;
            let odd = if bad_dev || bad_ax {
                Some(sh.clone())
            } else {
                let mut v = sh.clone();
                match c.rng.below(3) {
                    0 => v.insert(c.rng.below(n + 1), 1),
                    1 if stack => v[a] += 1,
                    1 if n > 1 => v[(a + 1) % n] += 1 + c.rng.below(2),
                    _ if n > 1 => drop(v.remove(c.rng.below(n))),
                    _ => v.push(2),
                }
                Some(v)
            };
            let odd = odd.unwrap();
            let so = any_layout(&mut c.rng, &odd);
            let ro: Vec<T> = gen_raw(&mut c.rng, so.len);
            let od = if bad_dev { other_dev(&mut c.rng, colm, dv) } else { dv };
            let o = rt::asarray((&ro, lay(&so), od));
            let mut all = vec![];
            for _ in 0..k {
                all.push(t.view());
            }
            let at = if bad_ax { 0 } else { c.rng.below(k + 1) };
            all.insert(at, o.view());
            let ax = match (bad_ax, stack) {
                (true, false) => bad_axis(&mut c.rng, n),
                (true, true) => bad_axis(&mut c.rng, n + 1),
                _ => ax,
            };
            c.d(format!("op {op} of {k} of {s} and {so} at {at} axis {ax} other device {bad_dev}"));
            match op {
                5 | 6 => refused("concat", || rt::concat_f((&all, ax)))?,
                7 => dies("concat", || rt::concat((&all, ax)))?,
                8 | 9 => {
                    // hstack and vstack: extents that differ off the joined axis
                    if !(n >= 2 && !bad_ax) {
                        return Ok(());
                    }
                    if !bad_dev {
                        let off = if op == 8 { if n == 2 { 0 } else { 2 } } else { 1 };
                        let mut v = sh.clone();
                        v[off] += 1;
                        let so = any_layout(&mut c.rng, &v);
                        let ro: Vec<T> = gen_raw(&mut c.rng, so.len);
                        let o = rt::asarray((&ro, lay(&so), dv));
                        let all = vec![t.view(), o.view()];
                        if op == 8 {
                            refused("hstack", || rt::hstack_f(all))?
                        } else {
                            refused("vstack", || rt::vstack_f(all))?
                        }
                    } else if op == 8 {
                        refused("hstack", || rt::hstack_f(all))?
                    } else {
                        dies("vstack", || rt::vstack(all))?
                    }
                },
                10 | 11 => refused("stack", || rt::stack_f((&all, ax)))?,
                _ => dies("stack", || rt::stack((&all, ax)))?,
            }
            unchanged("odd operand", &ro.clone(), &ro)?
        },
        13 => {
            let ax = bad_axis(&mut c.rng, n);
            c.d(format!("unstack {s} axis {ax}"));
            match c.rng.below(2) {
                0 => refused("unstack", || rt::unstack_f((&t, ax)).map(|_| ()))?,
                _ => dies("unstack", || drop(rt::unstack((&t, ax))))?,
            }
        },
        14 => {
            // nothing to join
            let all: Vec<TensorView<'_, T, B, IxD>> = vec![];
            c.d("join nothing");
            match c.rng.below(4) {
                0 => refused("concat-none", || rt::concat_f((&all, 0)))?,
                1 => refused("stack-none", || rt::stack_f((&all, 0)))?,
                2 => refused("hstack-none", || rt::hstack_f(&all))?,
                _ => refused("vstack-none", || rt::vstack_f(&all))?,
            }
        },
        _ => {
            if s.size() != 1 {
                c.d(format!("to_scalar {s}"));
                refused("to_scalar", || t.to_scalar_f())?;
                dies("to_scalar", || t.to_scalar())?
            }
            if n != 1 {
                c.d(format!("into_vec {s}"));
                refused("into_vec", || t.to_owned().into_vec_f())?;
                dies("into_vec", || t.to_owned().into_vec())?
            }
        },
    }
    unchanged("operand", &raw, &keep)
}
/// Selection and joining.
pub fn select_case(c: &mut Case) -> R {
    types13!(c, select_ty)
}

/// Iterators.
pub fn iters_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let sh = small(&mut c.rng, 0, 4);
    let s = any_layout(&mut c.rng, &sh);
    let mut raw: Vec<i64> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    c.eval();
    c.nontrivial();
    let axes = bad_axes(&mut c.rng, sh.len());
    let ax = || axes_index(&axes);
    c.d(format!("axes_iter {s} {axes:?}"));
    let op = c.rng.below(8);
    {
        let t = rt::asarray((&raw, lay(&s), dv));
        match op {
            0 => refused("axes_iter", || t.axes_iter_f(ax()).map(|_| ()))?,
            1 => refused("axes_iter", || t.axes_iter_with_order_f(ax(), TensorIterOrder::C).map(|_| ()))?,
            2 => refused("indexed_axes_iter", || t.indexed_axes_iter_f(ax()).map(|_| ()))?,
            3 => refused("indexed_axes_iter", || t.indexed_axes_iter_with_order_f(ax(), TensorIterOrder::F).map(|_| ()))?,
            4 => dies("axes_iter", || drop(t.axes_iter(ax())))?,
            _ => (),
        }
    }
    if op >= 5 {
        let mut t = rt::asarray((&mut raw, lay(&s), dv));
        match op {
            5 => refused("axes_iter_mut", || t.axes_iter_mut_f(ax()).map(|_| ()))?,
            6 => refused("indexed_axes_iter_mut", || t.indexed_axes_iter_mut_f(ax()).map(|_| ()))?,
            _ => dies("axes_iter_mut", || drop(t.axes_iter_mut(ax())))?,
        }
    }
    unchanged("operand", &raw, &keep)
}

/// Creation and construction from other arrays.
pub fn create_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    c.eval();
    c.nontrivial();
    let sh = small(&mut c.rng, 0, 4);
    let n = sh.len();
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<f64> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    let op = c.rng.below(12);
    match op {
        0 => {
            let (a, b) = (c.rng.range(-5, 5), c.rng.range(-5, 5));
            c.d(format!("arange {a} {b} 0"));
            refused("arange", || rt::arange_f((a, b, 0i64, dv)).map(|_: Tensor<i64, B, _>| ()))?;
            refused("arange", || rt::arange_f((a as f64, b as f64, 0.0, dv)).map(|_: Tensor<f64, B, _>| ()))?;
            dies("arange", || rt::arange((a as i8, b as i8, 0i8, dv)).raw().len())?
        },
        1 | 2 => {
            if n == 1 || n == 2 {
                return Ok(());
            }
            c.d(format!("diag {s}"));
            match op {
                1 => refused("diag", || rt::diag_f((&t, 0)))?,
                _ => dies("diag", || rt::diag(&t))?,
            }
        },
        3 | 4 => {
            if n >= 2 {
                return Ok(());
            }
            c.d(format!("tril {s}"));
            match c.rng.below(3) {
                0 => refused("tril", || rt::tril_f(&t))?,
                1 => refused("triu", || rt::triu_f((&t, 1)))?,
                _ => dies("tril", || rt::tril((&t, -1)))?,
            }
        },
        5..=7 => {
            // meshgrid of arrays that are not vectors, or of several devices
            let v: Vec<f64> = vec![1.0, 2.0, 3.0];
            let x = rt::asarray((&v, vec![3], dv));
            let other = other_dev(&mut c.rng, colm, dv);
            let y = rt::asarray((&v, vec![3], other));
            let bad_dev = n == 1 || c.rng.bool();
            c.d(format!("meshgrid {s} other device {bad_dev}"));
            let mut all = vec![x.view(), x.view()];
            let at = c.rng.below(3);
            all.insert(at, if bad_dev { y.view() } else if n == 0 { return Ok(()) } else { t.view() });
            match op {
                5 => refused("meshgrid", || rt::meshgrid_f(&all))?,
                6 => refused("meshgrid", || rt::meshgrid_f((&all, "ij", c.rng.bool())))?,
                _ => dies("meshgrid", || rt::meshgrid(&all))?,
            }
        },
        8 => {
            let v: Vec<f64> = vec![1.0, 2.0, 3.0];
            let x = rt::asarray((&v, vec![3], dv));
            c.d("meshgrid with an unknown indexing");
            let all = vec![x.view(), x.view()];
            refused("meshgrid", || rt::meshgrid_f((&all, "yx", true)))?
        },
        9 | 10 => {
            // a shape whose size is not that of the data
            let k = loop {
                let k = c.rng.below(20);
                if k < s.size() {
                    break Some(k);
                }
                if s.size() == 0 {
                    break None;
                }
            };
            let Some(k) = k else { return Ok(()) };
            let v: Vec<f64> = gen_raw(&mut c.rng, k);
            c.d(format!("asarray of {k} elements with shape {sh:?}"));
            match op {
                9 => refused("asarray", || rt::asarray_f((v, sh.clone(), dv)))?,
                _ => dies("asarray", || rt::asarray((v, sh.clone(), dv)))?,
            }
        },
        _ => {
            // no axes where they are required
            c.d(format!("no axes for {s}"));
            match c.rng.below(3) {
                0 => refused("expand_dims-none", || t.expand_dims_f(None))?,
                1 => refused("reshape-none", || t.reshape_f(None))?,
                _ => refused("index_select-none", || t.index_select_f(0, None))?,
            }
        },
    }
    unchanged("operand", &raw, &keep)
}

/// Packing.
pub fn pack_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dv = dev(&mut c.rng, colm);
    let mut sh = small(&mut c.rng, 1, 4);
    let n = sh.len();
    c.eval();
    c.nontrivial();
    let uplo = if c.rng.bool() { FlagUpLo::L } else { FlagUpLo::U };
    let symm = *c.rng.pick(&[FlagSymm::Sy, FlagSymm::Ay, FlagSymm::He, FlagSymm::Ah]);
    let op = c.rng.below(6);
    if op < 2 && n >= 2 {
        let (i, j) = if colm { (0, 1) } else { (n - 2, n - 1) };
        if sh[i] == sh[j] {
            sh[i] += 1;
        }
    }
    if op == 2 || op == 3 {
        let i = if colm { 0 } else { n - 1 };
        while (0..200).any(|k| k * (k + 1) / 2 == sh[i]) {
            sh[i] += 1;
        }
    }
    let s = any_layout(&mut c.rng, &sh);
    let raw: Vec<f64> = gen_raw(&mut c.rng, s.len);
    let keep = raw.clone();
    let t = rt::asarray((&raw, lay(&s), dv));
    match op {
        0 | 1 => {
            c.d(format!("pack_tri {s}"));
            match c.rng.below(4) {
                0 => refused("pack_tri", || t.pack_tri_f(uplo))?,
                1 => refused("pack_tri", || t.pack_tril_f())?,
                2 if n == 2 => refused("pack_tri", || t.to_dim::<Ix2>().pack_triu_f())?,
                _ => dies("pack_tri", || t.pack_tri(uplo))?,
            }
        },
        2 | 3 => {
            c.d(format!("unpack_tri {s}"));
            match c.rng.below(4) {
                0 => refused("unpack_tri", || t.unpack_tri_f(uplo, symm))?,
                1 => refused("unpack_tri", || t.unpack_tril_f(symm))?,
                2 if n == 1 => refused("unpack_tri", || t.to_dim::<Ix1>().unpack_triu_f(symm))?,
                _ => dies("unpack_tri", || t.unpack_tri(uplo, symm))?,
            }
        },
        _ => {
            let good = |a: usize, k: usize| {
                s.stride[a] == 1 && sh[a] == k && s.offset % k == 0 && raw.len() % k == 0
                    && (0..n).all(|i| i == a || sh[i] == 1 || s.stride[i] % k as isize == 0)
            };
            let ax = c.rng.range(-(n as i64), n as i64 - 1) as isize;
            let a = if ax < 0 { ax + n as isize } else { ax } as usize;
            let (ax, g2, g3) = if c.rng.chance(1, 4) { (bad_axis(&mut c.rng, n), false, false) } else { (ax, good(a, 2), good(a, 3)) };
            c.d(format!("pack_array {s} axis {ax}"));
            if !g2 && s.size() > 0 {
                refused("pack_array", || t.view().into_pack_array_f::<2>(ax))?;
                refused("pack_array", || t.to_dim::<IxD>().into_pack_array_f::<2>(ax))?;
            }
            if !g3 && s.size() > 0 {
                dies("pack_array", || t.view().into_pack_array::<3>(ax))?;
            }
            let arr: Vec<[f64; 2]> = vec![[1.0, 2.0]; 6];
            let u = rt::asarray((&arr, vec![2, 3], dv));
            let bad = bad_axis(&mut c.rng, 3);
            refused("unpack_array", || u.view().into_unpack_array_f(bad))?;
        },
    }
    unchanged("operand", &raw, &keep)
}
