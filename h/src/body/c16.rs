type T = Tensor<Tok, B, IxD>;
type A = TensorArc<Tok, B, IxD>;
type C = TensorCow<'static, Tok, B, IxD>;

enum K {
    Own(T),
    Arc(A),
    Cow(C),
}
/// A holder of elements and what it must show.
struct H {
    k: K,
    m: Nd<i64>,
}
impl H {
    fn see(&self) -> Result<Nd<i64>, String> {
        let n = match &self.k {
            K::Own(t) => look(&t.view()),
            K::Arc(t) => look(&t.view()),
            K::Cow(t) => look(&t.view()),
        }?;
        Ok(n)
    }
    fn view(&self) -> TensorView<'_, Tok, B, IxD> {
        match &self.k {
            K::Own(t) => t.view(),
            K::Arc(t) => t.view(),
            K::Cow(t) => t.view(),
        }
    }
}

/// The values of the elements, none of which may be dead.
fn look(t: &TensorView<'_, Tok, B, IxD>) -> Result<Nd<i64>, String> {
    let raw = t.raw();
    let p = positions(raw.len(), t.shape().as_ref(), t.stride().as_ref(), t.offset())?;
    for &k in &p {
        if !raw[k].alive() {
            return Err(format!("element at {k} is not alive"));
        }
    }
    Ok(Nd { shape: t.shape().clone(), data: p.into_iter().map(|k| raw[k].val).collect() })
}

/// Every element of the storage, those outside the layout included.
fn all_alive(h: &H) -> bool {
    match &h.k {
        K::Own(t) => t.raw().iter().all(|x| x.alive()),
        K::Arc(t) => t.raw().iter().all(|x| x.alive()),
        K::Cow(t) => t.raw().iter().all(|x| x.alive()),
    }
}

fn new_raw(r: &mut Rng, n: usize) -> Vec<Tok> {
    (0..n).map(|_| Tok::new(r.range(0, 99))).collect()
}
fn shape(r: &mut Rng) -> Vec<usize> {
    let n = r.below(4);
    if r.chance(1, 40) {
        return vec![r.usize(30, 70), r.usize(30, 70)];
    }
    (0..n).map(|_| if r.chance(1, 14) { 0 } else { r.usize(1, 5) }).collect()
}
fn new_holder(r: &mut Rng, dv: &'static B) -> H {
    let sh = shape(r);
    let s = gen_layout(r, &sh, false);
    let t: T = rt::asarray((new_raw(r, s.len), lay(&s), dv));
    let m = look(&t.view()).unwrap();
    H { k: K::Own(t), m }
}
fn order(r: &mut Rng) -> FlagOrder {
    if r.bool() {
        FlagOrder::C
    } else {
        FlagOrder::F
    }
}

/// A random way to look at an array, applied to the array and to the model.
fn turn<S>(r: &mut Rng, t: TensorAny<S, Tok, B, IxD>, m: Nd<i64>) -> (TensorAny<S, Tok, B, IxD>, Nd<i64>)
where
    S: DataAPI<Data = Vec<Tok>>,
{
    let n = m.ndim();
    match r.below(6) {
        0 => (t.into_reverse_axes(), m.reversed_axes()),
        1 if n > 0 => {
            let a = r.below(n);
            let mut k = m.clone();
            let len = m.shape[a];
            for_idx(&m.shape, |i| {
                let mut j = i.to_vec();
                j[a] = len - 1 - i[a];
                k.set(i, *m.at(&j));
            });
            (t.into_flip(a as isize), k)
        },
        2 if n > 0 => {
            let a = r.below(n);
            let (lo, st) = (r.usize(0, m.shape[a]), r.usize(1, 2));
            let mut ix = vec![Indexer::Slice(SliceI::new(None, None, None)); n];
            ix[a] = Indexer::Slice(SliceI::new(Some(lo as isize), None, Some(st as isize)));
            let mut sh = m.shape.clone();
            sh[a] = (m.shape[a] - lo).div_ceil(st);
            let k = Nd::from_fn(&sh, |i| {
                let mut j = i.to_vec();
                j[a] = lo + st * i[a];
                *m.at(&j)
            });
            (t.into_slice(AxesIndex::Vec(ix)), k)
        },
        3 if n > 0 => {
            let p = r.perm(n);
            let k = m.permute(&p);
            (t.into_transpose(p.into_iter().map(|x| x as isize).collect::<Vec<_>>()), k)
        },
        4 => {
            let a = r.usize(0, n);
            let mut sh = m.shape.clone();
            sh.insert(a, 1);
            (t.into_expand_dims(a as isize), Nd { shape: sh, data: m.data.clone() })
        },
        _ => (t, m),
    }
}

type Hs = Vec<H>;

/// One operation. Holders it consumes are taken out of the list, results are put into it.
fn step(r: &mut Rng, hs: &mut Hs, dv: &'static B, desc: &mut String) -> R {
    if hs.is_empty() || r.chance(1, 8) {
        hs.push(new_holder(r, dv));
    }
    let k = r.below(hs.len());
    let op = r.below(34);
    desc.push_str(&format!("{op} "));
    let same = |what: &str, t: &TensorView<'_, Tok, B, IxD>, m: &Nd<i64>| -> R {
        match look(t) {
            Err(e) => bail!("{what}: {e}"),
            Ok(n) => {
                ensure!(n == *m, "{what}: shows {:?} {:?} instead of {:?} {:?}", n.shape, n.data, m.shape, m.data);
                Ok(())
            },
        }
    };
    let colm = dv.default_order() == FlagOrder::F;
    match op {
        // ---- conversions that consume the holder
        0..=5 => {
            let H { k: h, m } = hs.swap_remove(k);
            let keep = r.bool();
            let h = match (op % 3, h) {
                (0, K::Own(t)) => K::Arc(if keep { t.into_shared_keep_layout() } else { t.into_shared() }),
                (0, K::Arc(t)) => K::Own(if keep { t.into_owned_keep_layout() } else { t.into_owned() }),
                (0, K::Cow(t)) => K::Own(if keep { t.into_owned_keep_layout() } else { t.into_owned() }),
                (1, K::Own(t)) => K::Cow(t.into_cow()),
                (1, K::Arc(t)) => K::Cow(t.into_cow()),
                (1, K::Cow(t)) => K::Arc(if keep { t.into_shared_keep_layout() } else { t.into_shared() }),
                (_, K::Own(t)) => {
                    let (t, m2) = turn(r, t, m);
                    hs.push(H { k: K::Own(t), m: m2 });
                    return Ok(());
                },
                (_, K::Arc(t)) => {
                    let (t, m2) = turn(r, t, m);
                    hs.push(H { k: K::Arc(t), m: m2 });
                    return Ok(());
                },
                (_, K::Cow(t)) => {
                    let (t, m2) = turn(r, t, m);
                    hs.push(H { k: K::Cow(t), m: m2 });
                    return Ok(());
                },
            };
            hs.push(H { k: h, m });
        },
        // ---- several arrays on one shared vector
        6 => {
            let sh = shape(r);
            let s = gen_layout(r, &sh, false);
            let raw = Arc::new(new_raw(r, s.len));
            for _ in 0..r.usize(2, 3) {
                let st = Storage::new(DataArc::from(raw.clone()), dv.clone());
                let t: A = TensorBase::new_f(st, lay(&s)).map_err(|e| format!("shared array refused: {e:?}"))?;
                let m = look(&t.view())?;
                let (t, m) = turn(r, t, m);
                hs.push(H { k: K::Arc(t), m });
            }
        },
        7 => {
            let H { k: h, m } = &hs[k];
            let t = match h {
                K::Own(t) => t.clone(),
                K::Arc(t) => t.to_owned(),
                K::Cow(t) => {
                    let t = t.clone();
                    let m = m.clone();
                    hs.push(H { k: K::Cow(t), m });
                    return Ok(());
                },
            };
            let m = m.clone();
            hs.push(H { k: K::Own(t), m });
        },
        // ---- borrowed array made copy-on-write, then owned
        8 | 9 => {
            let h = &hs[k];
            let (v, m) = turn(r, h.view(), h.m.clone());
            let c = v.into_cow();
            same("copy-on-write view", &c.view(), &m)?;
            let new = match r.below(4) {
                0 => K::Own(c.into_owned()),
                1 => K::Arc(c.into_shared()),
                2 => K::Own(c.to_owned()),
                _ => {
                    drop(c);
                    return Ok(());
                },
            };
            hs.push(H { k: new, m });
        },
        // ---- writes
        10..=13 => {
            let v = r.range(100, 199);
            let h = &mut hs[k];
            let m = &mut h.m;
            let pick = if m.size() > 0 { Some(r.below(m.size())) } else { None };
            let what = r.below(6);
            macro_rules! write {
                ($t:expr) => {{
                    let t = $t;
                    match what {
                        0 => {
                            t.fill(Tok::new(v));
                            m.data.iter_mut().for_each(|x| *x = v);
                        },
                        1 => {
                            let mut n = 0;
                            let vals: Vec<i64> = (0..m.size()).map(|i| v + i as i64).collect();
                            for x in t.iter_mut_with_order(TensorIterOrder::C) {
                                *x = Tok::new(vals[n]);
                                n += 1;
                            }
                            ensure!(n == vals.len(), "iter_mut visits {n}");
                            m.data = vals;
                        },
                        2 => {
                            t.mapi(|x| {
                                x.tick();
                                *x = Tok::on(x.led, x.val + 1)
                            });
                            m.data.iter_mut().for_each(|x| *x += 1);
                        },
                        3 => {
                            if let Some(k) = pick {
                                let mut i = vec![];
                                let mut q = k;
                                for &d in m.shape.iter().rev() {
                                    i.insert(0, q % d);
                                    q /= d;
                                }
                                t.view_mut()[&i] = Tok::new(v);
                                m.data[k] = v;
                            }
                        },
                        4 => {
                            let s = gen_layout(r, &m.shape, false);
                            let src: T = rt::asarray((new_raw(r, s.len), lay(&s), dv));
                            t.assign(&src);
                            *m = look(&src.view())?;
                        },
                        _ => {
                            let mut w = t.view_mut();
                            w.fill(Tok::new(v));
                            drop(w);
                            m.data.iter_mut().for_each(|x| *x = v);
                        },
                    }
                }};
            }
            match &mut h.k {
                K::Own(t) => write!(t),
                K::Arc(t) => write!(t),
                K::Cow(_) => {},
            }
        },
        // ---- layout changes that consume
        14..=17 => {
            let H { k: h, m } = hs.swap_remove(k);
            let o = order(r);
            let s = Spec { len: 0, ..gen_layout(r, &m.shape, false) };
            let w = r.below(4);
            let sh2: Vec<isize> = match r.below(3) {
                0 => vec![m.size() as isize],
                1 => m.shape.iter().map(|&x| x as isize).chain([1]).collect(),
                _ => {
                    let mut v: Vec<isize> = m.shape.iter().map(|&x| x as isize).collect();
                    v.insert(0, 1);
                    v
                },
            };
            let m2 = m.reshape(&sh2.iter().map(|&x| x as usize).collect::<Vec<_>>(), colm);
            macro_rules! go {
                ($t:expr) => {{
                    let t = $t;
                    match w {
                        0 => H { k: K::Own(t.into_contig(o)), m },
                        1 => H { k: K::Own(t.into_prefer(o)), m },
                        2 => H { k: K::Own(t.into_layout(lay(&s))), m },
                        _ => H { k: K::Own(t.into_shape(sh2)), m: m2 },
                    }
                }};
            }
            let h = match h {
                K::Own(t) if r.bool() => match w {
                    0 => H { k: K::Cow(t.change_contig(o)), m },
                    1 => H { k: K::Cow(t.change_prefer(o)), m },
                    2 => H { k: K::Cow(t.change_layout(lay(&s))), m },
                    _ => H { k: K::Cow(t.change_shape(sh2)), m: m2 },
                },
                K::Own(t) => go!(t),
                K::Arc(t) => go!(t),
                K::Cow(t) => go!(t),
            };
            hs.push(h);
        },
        // ---- into plain vectors
        18 => {
            let H { k: h, m } = hs.swap_remove(k);
            let seq = m.seq(colm);
            let n = m.size();
            let t = match h {
                K::Own(t) => t,
                K::Arc(t) => t.into_owned(),
                K::Cow(t) => t.into_owned(),
            };
            let t = t.into_shape(n as isize);
            let v: Vec<Tok> = match r.below(3) {
                0 => t.into_vec(),
                1 => t.into_raw(),
                _ => t.to_vec(),
            };
            ensure!(v.iter().all(|x| x.alive()), "dead element in the vector");
            ensure!(v.iter().map(|x| x.val).collect::<Vec<_>>() == seq, "the vector differs from the array");
            if r.bool() {
                let t: T = rt::asarray((v, vec![n], dv));
                hs.push(H { k: K::Own(t), m: Nd { shape: vec![n], data: seq } });
            }
        },
        // ---- closures
        19 => {
            let h = &hs[k];
            let t: T = h.view().map(|x| {
                x.tick();
                Tok::on(x.led, x.val * 2)
            });
            let m = h.m.map(|x| x * 2);
            hs.push(H { k: K::Own(t), m });
        },
        20 => {
            let h = &hs[k];
            let t: T = h.view().mapb(&h.view(), |x, y| {
                x.tick();
                Tok::on(x.led, x.val + y.val)
            });
            let m = h.m.map(|x| x + x);
            hs.push(H { k: K::Own(t), m });
        },
        21 => {
            let h = &hs[k];
            let t: T = h.view() + h.view();
            let m = h.m.map(|x| x + x);
            hs.push(H { k: K::Own(t), m });
        },
        22 => {
            let H { k: h, m } = hs.swap_remove(k);
            match h {
                K::Own(t) => {
                    let w = t.clone();
                    let t: T = if r.bool() { t + w.view() } else { w.view() + t };
                    hs.push(H { k: K::Own(t), m: m.map(|x| x + x) });
                },
                K::Arc(mut t) => {
                    let w = t.to_owned();
                    t += w.view();
                    hs.push(H { k: K::Arc(t), m: m.map(|x| x + x) });
                },
                K::Cow(t) => hs.push(H { k: K::Cow(t), m }),
            }
        },
        // ---- several arrays into one and one into several
        23 if hs[k].m.ndim() > 0 => {
            let h = &hs[k];
            let a = r.below(h.m.ndim());
            let n = h.m.shape[a];
            let ix: Vec<usize> = if n > 0 { (0..r.usize(0, 5)).map(|_| r.below(n)).collect() } else { vec![] };
            let mut sh = h.m.shape.clone();
            sh[a] = ix.len();
            let m = Nd::from_fn(&sh, |i| {
                let mut j = i.to_vec();
                j[a] = ix[i[a]];
                *h.m.at(&j)
            });
            let t = h.view().index_select(a as isize, ix);
            hs.push(H { k: K::Own(t), m });
        },
        24 => {
            let h = &hs[k];
            let (t, n): (T, usize) = if h.m.ndim() > 0 && r.bool() {
                (rt::concat((vec![h.view(), h.view()], 0)), 2 * h.m.size())
            } else {
                (rt::stack((vec![h.view(), h.view(), h.view()], 0)), 3 * h.m.size())
            };
            let m = look(&t.view())?;
            ensure!(m.size() == n, "{} elements instead of {n}", m.size());
            let mut x = m.data.clone();
            let mut y: Vec<i64> = (0..n / h.m.size().max(1)).flat_map(|_| h.m.data.clone()).collect();
            x.sort();
            y.sort();
            ensure!(x == y, "joined arrays hold other elements");
            hs.push(H { k: K::Own(t), m });
        },
        25 if hs[k].m.ndim() > 0 => {
            let a = r.below(hs[k].m.ndim());
            let H { k: h, m } = hs.swap_remove(k);
            let sub = |i: usize| {
                let mut sh = m.shape.clone();
                sh.remove(a);
                Nd::from_fn(&sh, |j| {
                    let mut j = j.to_vec();
                    j.insert(a, i);
                    *m.at(&j)
                })
            };
            if let K::Own(t) = h {
                let parts = rt::unstack((t.view(), a as isize));
                for (i, p) in parts.iter().enumerate() {
                    same("unstack", &p.view(), &sub(i))?;
                }
            }
        },
        // ---- requests that fail
        26 => {
            let n = hs[k].m.size() as isize;
            let H { k: h, m } = hs.swap_remove(k);
            macro_rules! bad {
                ($t:expr) => {
                    match r.below(5) {
                        0 => $t.into_shape_f([n + 1]).is_err(),
                        1 => $t.into_transpose_f([0isize, 0, 0, 9]).is_err(),
                        2 => $t.into_slice_f(AxesIndex::Vec(vec![Indexer::Select(1 << 20)])).is_err(),
                        3 => $t.into_expand_dims_f(99isize).is_err(),
                        _ => $t.into_flip_f(77isize).is_err(),
                    }
                };
            }
            let refused = match h {
                K::Own(t) => bad!(t),
                K::Arc(t) => bad!(t),
                K::Cow(t) => bad!(t),
            };
            ensure!(refused, "a request that cannot be met was accepted on shape {:?}", m.shape);
        },
        27 => {
            let x = hs[k].m.size() + 1;
            let sh: Vec<usize> = vec![x, 7];
            let e = rt::asarray_f((new_raw(r, x), sh, dv)).is_err();
            ensure!(e, "asarray accepted {x} elements for shape [{x}, 7]");
            let a: T = rt::asarray((new_raw(r, 3), vec![3], dv));
            let b: T = rt::asarray((new_raw(r, 4), vec![4], dv));
            ensure!(rt::concat_f((vec![a.view(), b.view().into_expand_dims(0)], 0)).is_err(), "concat accepted");
            let mut a2 = a.clone();
            ensure!(a2.assign_f(&b).is_err() && a.clone().into_shape_f([5]).is_err(), "assign of another length accepted");
            ensure!((a + &b.view()).shape().len() == 9, "unreachable");
        },
        28 => {
            hs.swap_remove(k);
        },
        29 => {
            let h = &hs[k];
            let t = rt::full((h.m.shape.clone(), Tok::new(3), dv));
            let m = h.m.map(|_| 3);
            hs.push(H { k: K::Own(t), m });
            let t: T = rt::full_like((&hs[k].view(), Tok::new(4)));
            drop(t);
        },
        // ---- arrays that borrow the elements of a slice
        30 | 31 => {
            let sh = shape(r);
            let s = gen_layout(r, &sh, false);
            let mut buf = new_raw(r, s.len);
            let vals: Vec<i64> = buf.iter().map(|x| x.val).collect();
            let whole = r.bool();
            let (k, m) = if op == 30 {
                let v: TensorView<'_, Tok, B, IxD> = if whole {
                    rt::asarray((&buf, lay(&s), dv))
                } else {
                    rt::asarray((&buf[..], lay(&s), dv))
                };
                let m = look(&v)?;
                let (v, m) = turn(r, v, m);
                same("view of a slice", &v.view(), &m)?;
                let k = match r.below(9) {
                    0 => K::Own(v.into_owned()),
                    1 => K::Arc(v.into_shared()),
                    2 => K::Own(v.into_owned_keep_layout()),
                    3 => K::Arc(v.into_shared_keep_layout()),
                    4 => K::Own(v.into_cow().into_owned_keep_layout()),
                    5 => K::Arc(v.into_cow().into_shared_keep_layout()),
                    6 => K::Own(v.into_contig(order(r))),
                    7 => K::Own(v.view().to_owned()),
                    _ => K::Own(v.into_cow().into_owned()),
                };
                (k, m)
            } else {
                let v: TensorMut<'_, Tok, B, IxD> = if whole {
                    rt::asarray((&mut buf, lay(&s), dv))
                } else {
                    rt::asarray((&mut buf[..], lay(&s), dv))
                };
                let m = look(&v.view())?;
                let (v, m) = turn(r, v, m);
                same("changeable view of a slice", &v.view(), &m)?;
                let k = match r.below(6) {
                    0 => K::Own(v.into_owned()),
                    1 => K::Arc(v.into_shared()),
                    2 => K::Own(v.into_owned_keep_layout()),
                    3 => K::Arc(v.into_shared_keep_layout()),
                    4 => K::Own(v.into_contig(order(r))),
                    _ => K::Own(v.to_owned()),
                };
                (k, m)
            };
            ensure!(buf.iter().all(|x| x.alive()), "an element of the borrowed slice was dropped");
            ensure!(buf.iter().map(|x| x.val).eq(vals.iter().copied()), "the borrowed slice was changed");
            // the result has elements of its own
            let back = r.bool();
            if back {
                drop(buf);
            } else {
                buf.iter_mut().for_each(|x| x.val += 1);
            }
            let h = H { k, m };
            same("array made from a borrowed slice", &h.view(), &h.m)?;
            hs.push(h);
        },
        // ---- packed elements
        32 | 33 => {
            let mut sh = shape(r);
            if sh.iter().product::<usize>() > 500 {
                sh.truncate(1);
            }
            sh.push(2);
            let n = sh.len();
            let colm = r.bool();
            let p: Vec<usize> = if colm { (0..n).map(|i| (i + n - 1) % n).collect() } else { (0..n).collect() };
            let psh: Vec<usize> = p.iter().map(|&i| sh[i]).collect();
            let t: T = rt::asarray((new_raw(r, sh.iter().product()), sh.clone().c(), dv)).into_dim::<IxD>();
            let t = t.into_transpose(p.iter().map(|&x| x as isize).collect::<Vec<_>>());
            let m = look(&t.view())?;
            ensure!(m.shape == psh, "transposed shape");
            let ax = if colm { 0 } else { -1 };
            let to = if r.bool() { -1isize } else { 0 };
            let mut src = Some(t);
            let packed = |raw: &[[Tok; 2]]| -> R {
                ensure!(raw.iter().flatten().all(|x| x.alive()), "dead packed element");
                Ok(())
            };
            // the order of elements in memory is kept by packing, with the layout kept as well
            let k = match r.below(8) {
                0 => {
                    let q = src.take().unwrap().into_pack_array::<2>(ax);
                    packed(q.raw())?;
                    K::Own(q.into_unpack_array(ax))
                },
                1 => {
                    let q = src.as_ref().unwrap().view().into_pack_array::<2>(ax).into_shared_keep_layout();
                    packed(q.raw())?;
                    K::Own(q.into_owned_keep_layout().into_unpack_array(ax))
                },
                2 => {
                    let q = src.as_ref().unwrap().view().into_pack_array::<2>(ax).into_owned_keep_layout();
                    packed(q.raw())?;
                    K::Own(q.into_unpack_array(ax))
                },
                3 => {
                    let q = src.as_ref().unwrap().view().into_pack_array::<2>(ax).into_cow();
                    packed(q.raw())?;
                    K::Own(q.into_unpack_array(ax).into_owned_keep_layout())
                },
                4 => {
                    let q = src.take().unwrap().into_cow().into_pack_array::<2>(ax);
                    packed(q.raw())?;
                    K::Cow(q.into_unpack_array(ax))
                },
                5 => {
                    let q = src.as_mut().unwrap().view_mut().into_pack_array::<2>(ax).into_shared_keep_layout();
                    packed(q.raw())?;
                    K::Own(q.into_owned_keep_layout().into_unpack_array(ax))
                },
                6 => {
                    let q = src.as_mut().unwrap().view_mut().into_pack_array::<2>(ax);
                    packed(q.raw())?;
                    K::Own(q.into_unpack_array(ax).into_owned_keep_layout())
                },
                _ => {
                    let u = src.as_ref().unwrap().view().into_pack_array::<2>(ax).into_unpack_array(ax);
                    same("packed and unpacked view", &u.view(), &m)?;
                    K::Arc(if to == 0 { u.into_shared() } else { u.into_shared_keep_layout() })
                },
            };
            if let Some(t) = &src {
                same("array a packed view was taken of", &t.view(), &m)?;
            }
            drop(src);
            let h = H { k, m };
            same("packed and unpacked array", &h.view(), &h.m)?;
            hs.push(h);
        },
        _ => {},
    }
    Ok(())
}

fn verify(hs: &Hs) -> R {
    for (i, h) in hs.iter().enumerate() {
        let n = h.see()?;
        ensure!(n == h.m, "holder {i} shows {:?} {:?} instead of {:?} {:?}", n.shape, n.data, h.m.shape, h.m.data);
        ensure!(all_alive(h), "holder {i} owns an element that is not alive");
    }
    Ok(())
}

pub fn chain_case(c: &mut Case) -> R {
    run(c, false)
}
pub fn panic_case(c: &mut Case) -> R {
    run(c, true)
}

fn run(c: &mut Case, panics: bool) -> R {
    let book = Book::open();
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let dv = dev(r, r.clone().bool());
    let mut hs: Hs = vec![];
    let mut desc = String::new();
    let mut big = 0;
    let mut thrown = 0;
    for _ in 0..r.usize(4, 14) {
        let armed = panics && r.chance(1, 2);
        if armed {
            let n = if r.bool() { r.below(4) } else { r.below(60) };
            book.arm(n as i64);
        }
        let mut d = String::new();
        let res = catch_unwind(AssertUnwindSafe(|| step(r, &mut hs, dv, &mut d)));
        let fired = armed && book.disarm();
        desc.push_str(&d);
        let failed_request = d.starts_with("27");
        match res {
            Ok(x) => x.map_err(|e| Fail { sig: e.sig, msg: format!("after {desc}: {}", e.msg) })?,
            Err(_) if fired => {
                take_panic();
                thrown += 1;
                c.hit("panics thrown from copies and closures");
                // a write that panicked half way leaves the array with living elements of any value
                for h in hs.iter_mut() {
                    h.m = h.see().map_err(|e| format!("after {desc} and a panic: {e}"))?;
                }
            },
            Err(_) if failed_request => {
                // the operator form of a request that fails panics
                let m = take_panic();
                ensure!(m.contains("roadcast") || m.contains("InvalidLayout"), "after {desc}: {m}");
            },
            Err(_) => {
                let m = take_panic();
                if m.contains("ledger full") {
                    // more elements than the monitor can follow: the case says nothing
                    return Ok(());
                }
                bail!("after {desc}: panic {m}")
            },
        }
        verify(&hs).map_err(|e| Fail { sig: e.sig, msg: format!("after {desc}: {}", e.msg) })?;
        book.sound().map_err(|e| Fail { sig: e.sig, msg: format!("after {desc}: {}", e.msg) })?;
        c.eval();
        big += hs.iter().filter(|h| h.m.size() > 1).count();
        if book.made() > ROOM / 4 {
            break;
        }
        hs.retain(|h| h.m.size() < 8000 && h.m.data.iter().all(|x| x.abs() < 1 << 40));
        if hs.len() > 7 {
            hs.remove(0);
        }
    }
    c.d(&desc);
    c.hit("elements made");
    drop(hs);
    book.sound()?;
    let left = book.living();
    if thrown == 0 {
        ensure!(left == 0, "after {desc}: {left} of {} elements were never dropped", book.made());
        c.hit("chains whose every element was dropped exactly once");
    } else if left == 0 {
        c.hit("chains with panics that leaked nothing");
    } else {
        c.hit("chains with panics that leaked");
    }
    if big > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Results written into an existing array replace its elements.
pub fn output_case(c: &mut Case) -> R {
    let book = Book::open();
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let dv = dev(r, r.clone().bool());
    let (a, b) = (new_holder(r, dv), new_holder(r, dv));
    let sh = a.m.shape.clone();
    let s = gen_layout(r, &sh, false);
    let mut t: T = rt::asarray((new_raw(r, s.len), lay(&s), dv));
    let made = book.made();
    rt::add_with_output(&a.view(), &a.view(), t.view_mut());
    c.d(format!("add_with_output into shape {sh:?} strides {:?}", t.stride()));
    if a.m.size() > 1 {
        c.nontrivial();
    }
    c.eval();
    let want = a.m.map(|x| x + x);
    let n = look(&t.view())?;
    ensure!(n == want, "add_with_output: wrong elements");
    drop((a, b, t));
    book.sound()?;
    let left = book.living();
    if left > 0 {
        return fail("leak-with-output", format!("{left} of {made} elements were never dropped"));
    }
    Ok(())
}
