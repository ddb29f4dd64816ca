pub fn view_chain(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let (spec, raw, mut m) = base_model(&mut c.rng);
    let dev = dev(&mut c.rng, colm);
    c.d(format!("{spec} order {}", if colm { "F" } else { "C" }));
    let whole = m.data.clone();
    let mut t = rt::asarray((&raw, lay(&spec), dev));
    same("base", &obs!(&t), &m)?;
    let n = c.rng.usize(1, 5);
    for _ in 0..n {
        let (op, want) = gen_op(&mut c.rng, &m, false, colm);
        c.d(format!("{op:?}"));
        c.hit(op_name(&op));
        let got = apply_ref!(&t, &op, c.rng);
        same(op_name(&op), &got, &want)?;
        t = apply_common!(t, &op, false);
        same(op_name(&op), &obs!(&t), &want)?;
        m = want;
        c.eval();
        // element access
        if m.size() > 0 {
            for _ in 0..4 {
                let idx: Vec<usize> = m.shape.iter().map(|&n| c.rng.below(n)).collect();
                ensure!(t[&idx] == *m.at(&idx), "t[{idx:?}] is {}, wanted {}", t[&idx], m.at(&idx));
                let v = unsafe { *t.index_uncheck(&idx) };
                ensure!(v == *m.at(&idx), "unchecked index {idx:?} is {v}, wanted {}", m.at(&idx));
                let sel: Vec<Indexer> = idx
                    .iter()
                    .zip(&m.shape)
                    .map(|(&i, &n)| Indexer::Select(sgn(&mut c.rng, i, n)))
                    .collect();
                let s = t.i(AxesIndex::Vec(sel));
                ensure!(s.ndim() == 0, "full selection leaves {} axes", s.ndim());
                ensure!(s.to_scalar() == *m.at(&idx), "scalar at {idx:?} wrong");
                c.eval();
            }
        }
        let owned = t.to_owned();
        let go = obs!(&owned);
        same("to_owned", &go, &m)?;
        if m.size() > 0 && m.data != whole {
            c.nontrivial();
        }
    }
    Ok(())
}

pub fn write_chain(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let (spec, _, mut m) = base_model(&mut c.rng);
    let dev = dev(&mut c.rng, colm);
    c.d(format!("{spec} order {}", if colm { "F" } else { "C" }));
    let mark = 1_000_000usize;
    let mut raw: Vec<usize> = (0..spec.len).collect();
    let n = c.rng.usize(1, 4);
    let mut ops = vec![];
    for _ in 0..n {
        let (op, want) = gen_op(&mut c.rng, &m, true, colm);
        c.d(format!("{op:?}"));
        c.hit(op_name(&op));
        ops.push(op);
        m = want;
    }
    let way = c.rng.below(6);
    c.d(format!("write way {way}"));
    let mut want: Vec<usize> = (0..spec.len).collect();
    // values to write: mark + k for the k-th element in row-major order
    let mut vals: Vec<usize> = (0..m.size()).map(|k| mark + k).collect();
    {
        let mut t = rt::asarray((&mut raw, lay(&spec), dev));
        let last = ops.len() - 1;
        for (k, op) in ops.iter().enumerate() {
            if k == last && way == 5 {
                break;
            }
            t = apply_common!(t, op, false);
        }
        match way {
            0 => {
                let mut one = Ok(());
                for_idx(&m.shape, |i| {
                    if one.is_ok() {
                        t[i] = mark + ravel(&m.shape, i);
                        if t[i] != mark + ravel(&m.shape, i) {
                            one = Err(format!("read back at {i:?} differs"));
                        }
                    }
                });
                one?;
            },
            1 => {
                t.fill(mark);
                vals = vec![mark; m.size()];
            },
            2 => {
                let src = rt::asarray((vals.clone(), lay(&contig_spec(&m.shape, false)), dev));
                t.assign(&src);
            },
            3 => {
                // add in place
                t += mark;
                vals = m.data.iter().map(|p| p + mark).collect();
            },
            4 => {
                if m.size() > 0 {
                    let idx: Vec<usize> = m.shape.iter().map(|&n| c.rng.below(n)).collect();
                    let sel: Vec<Indexer> = idx.iter().map(|&i| Indexer::Select(i as isize)).collect();
                    t.i_mut(AxesIndex::Vec(sel)).fill(mark);
                    vals = m.data.clone();
                    vals[ravel(&m.shape, &idx)] = mark;
                }
            },
            _ => {
                match ops[last].clone() {
                    Op::Slice(ix) => {
                        t.slice_mut(AxesIndex::Vec(ix)).fill(mark);
                    },
                    Op::Diag(o, ax) if t.ndim() >= 2 => match (o, ax) {
                        (None, None) => {
                            t.diagonal_mut(()).fill(mark);
                        },
                        (Some(k), None) => {
                            t.diagonal_mut(k).fill(mark);
                        },
                        (k, Some((a, b))) => {
                            t.diagonal_mut((k.unwrap_or(0), a, b)).fill(mark);
                        },
                    },
                    op => {
                        let mut t = apply_common!(t.view_mut(), &op, false);
                        t.fill(mark);
                    },
                }
                vals = vec![mark; m.size()];
            },
        }
    }
    for (k, &p) in m.data.iter().enumerate() {
        want[p] = vals[k];
    }
    c.eval();
    if let Some(p) = (0..raw.len()).find(|&p| raw[p] != want[p]) {
        bail!("after the write, buffer position {p} holds {}, wanted {} (view of {} elements)", raw[p], want[p], m.size());
    }
    if m.size() > 0 {
        c.nontrivial();
    }
    Ok(())
}

macro_rules! fixed_case {
    ($c:ident, $t:ident, $m:ident, $D:ty, $n:expr) => {{
        let mut f = $t.to_dim::<$D>();
        let n = $n;
        for _ in 0..3 {
            let r = &mut $c.rng;
            match r.below(5) {
                0 => {
                    let p = r.perm(n);
                    let a: Vec<isize> = p.iter().map(|&x| sgn(r, x, n)).collect();
                    $c.desc.push_str(&format!("fixed permute {a:?}; "));
                    f = f.into_transpose(a);
                    $m = $m.permute(&p);
                },
                1 => {
                    $c.desc.push_str("fixed reverse; ");
                    f = f.into_reverse_axes();
                    $m = $m.reversed_axes();
                },
                2 => {
                    let (a, b) = (r.below(n), r.below(n));
                    $c.desc.push_str(&format!("fixed swap {a} {b}; "));
                    f = f.into_swapaxes(a as isize, b as isize);
                    let mut p: Vec<usize> = (0..n).collect();
                    p.swap(a, b);
                    $m = $m.permute(&p);
                },
                3 => {
                    let a = r.below(n);
                    $c.desc.push_str(&format!("fixed flip {a}; "));
                    f = f.into_flip(a as isize);
                    let sh = $m.shape.clone();
                    $m = Nd::from_fn(&sh, |i| {
                        let mut j = i.to_vec();
                        j[a] = sh[a] - 1 - i[a];
                        *$m.at(&j)
                    });
                },
                _ => {
                    let s = r.below(n);
                    let d = r.below(n);
                    $c.desc.push_str(&format!("fixed moveaxis {s}->{d}; "));
                    f = f.into_moveaxis(s as isize, d as isize);
                    let mut p: Vec<usize> = (0..n).filter(|&x| x != s).collect();
                    p.insert(d, s);
                    $m = $m.permute(&p);
                },
            }
            let g = obs!(&f);
            same("fixed-dim op", &g, &$m)?;
            $c.eval();
        }
        if $m.size() > 0 {
            let idx: Vec<usize> = $m.shape.iter().map(|&n| $c.rng.below(n)).collect();
            ensure!(f[&idx] == *$m.at(&idx), "fixed-dim t[{idx:?}] wrong");
        }
        // dynamic again, and static tuple slices
        let d = f.to_dyn();
        same("to_dyn", &obs!(&d), &$m)?;
    }};
}

/// Fixed-dimension layouts and the static tuple spellings of slicing.
pub fn fixed_dim(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let n = c.rng.usize(1, 5);
    let shape = gen_shape(&mut c.rng, n, n, Cls::Tiny);
    let spec = gen_layout(&mut c.rng, &shape, false);
    let raw: Vec<usize> = (0..spec.len).collect();
    let mut m = observe(&raw, &spec.shape, &spec.stride, spec.offset).unwrap();
    let dev = dev(&mut c.rng, colm);
    c.d(format!("{spec}"));
    let t = rt::asarray((&raw, lay(&spec), dev));
    if m.size() > 0 {
        c.nontrivial();
    }
    match n {
        1 => fixed_case!(c, t, m, Ix1, 1),
        2 => fixed_case!(c, t, m, Ix2, 2),
        3 => fixed_case!(c, t, m, Ix3, 3),
        4 => fixed_case!(c, t, m, Ix4, 4),
        _ => fixed_case!(c, t, m, Ix5, 5),
    }
    // static spellings
    let m = observe(&raw, &spec.shape, &spec.stride, spec.offset).unwrap();
    if n >= 2 && shape[0] >= 1 && shape[1] >= 1 {
        let a = c.rng.below(shape[0]);
        let b = c.rng.below(shape[1]);
        let e = c.rng.usize(b, shape[1]);
        let v = t.i((a, b..e));
        let mut sh = vec![e - b];
        sh.extend_from_slice(&shape[2..]);
        let w = Nd::from_fn(&sh, |i| {
            let mut j = vec![a, b + i[0]];
            j.extend_from_slice(&i[1..]);
            *m.at(&j)
        });
        same("i((a, b..e))", &obs!(&v), &w)?;
        let v = t.i((.., slice!(None, None, -1), None));
        let mut sh = vec![shape[0], shape[1], 1];
        sh.extend_from_slice(&shape[2..]);
        let w = Nd::from_fn(&sh, |i| {
            let mut j = vec![i[0], shape[1] - 1 - i[1]];
            j.extend_from_slice(&i[3..]);
            *m.at(&j)
        });
        same("i((.., reversed, None))", &obs!(&v), &w)?;
        let k = c.rng.below(shape[n - 1].max(1));
        if shape[n - 1] > 0 {
            let v = t.i((Ellipsis, k));
            let w = Nd::from_fn(&shape[..n - 1], |i| {
                let mut j = i.to_vec();
                j.push(k);
                *m.at(&j)
            });
            same("i((Ellipsis, k))", &obs!(&v), &w)?;
        }
        c.eval();
    }
    Ok(())
}
