use rayon::prelude::*;

type T = Tensor<f64, B, IxD>;

fn load(i: &Inputs, d: &B) -> Vec<T> {
    i.spec.iter().zip(&i.raw).map(|(s, v)| rt::asarray((v.clone(), lay(s), d))).collect()
}

/// A random view of a register.
fn look<'a>(r: &mut Rng, t: &'a T) -> TensorView<'a, f64, B, IxD> {
    let n = t.ndim();
    match r.below(5) {
        0 => t.t(),
        1 if n > 0 => t.flip(r.below(n) as isize),
        2 if n > 0 => {
            let idx: Vec<Indexer> = (0..n)
                .map(|a| {
                    if t.shape()[a] > 2 && r.bool() {
                        Indexer::Slice(SliceI::new(Some(1), None, Some(r.range(1, 2) as isize)))
                    } else {
                        Indexer::Slice(SliceI::new(None, None, None))
                    }
                })
                .collect();
            t.slice(AxesIndex::Vec(idx))
        },
        _ => t.view(),
    }
}

/// Runs the program of the inputs' seed; every choice depends on the seed and shapes only.
fn steps(regs: &[&T], i: &Inputs, between: &mut dyn FnMut()) -> Result<Trace, Fail> {
    let mut r = Rng::new(i.seed);
    let mut own: Vec<T> = vec![];
    let mut out: Trace = vec![];
    for _ in 0..i.steps {
        between();
        let r = &mut r;
        let k = r.below(regs.len() + own.len());
        let k2 = r.below(regs.len() + own.len());
        let pick = |k: usize| if k < regs.len() { regs[k] } else { &own[k - regs.len()] };
        let a = look(r, pick(k));
        let b = look(r, pick(k2));
        let n = a.ndim();
        let empty = a.size() == 0;
        let op = r.below(24);
        let mut put = |name: &str, t: T| -> Result<T, Fail> {
            out.push((name.to_string(), obs!(&t)?));
            Ok(t)
        };
        let new: Option<T> = match op {
            0 => Some(put("neg add", &a + -&a.view() + 3.0)?),
            1 | 2 => {
                if bcast_shape_ord(a.shape().as_ref(), b.shape().as_ref(), i.colm).is_some() && a.size().max(1) * b.size().max(1) < 4_000_000 {
                    let c = match r.below(3) {
                        0 => &a + &b,
                        1 => &a - &b,
                        _ => &a * &b,
                    };
                    Some(put("binary", c.mapv(q))?)
                } else {
                    None
                }
            },
            3 if n > 0 => {
                let ax = r.perm(n)[..r.usize(1, n)].iter().map(|&x| sgn(r, x, n)).collect::<Vec<_>>();
                Some(put("sum axes", a.sum_axes(ax).mapv(q))?)
            },
            4 if n > 0 && !empty => {
                let ax = sgn(r, r.clone().below(n), n);
                Some(put("max axis", if r.bool() { a.max_axes(ax) } else { a.min_axes(ax) })?)
            },
            5 if !empty => {
                let v = [a.sum_all(), a.max_all(), a.min_all(), a.argmin_all() as f64, a.argmax_all() as f64, a.count_nonzero_all() as f64];
                out.push(("scalars".into(), Nd { shape: vec![6], data: v.to_vec() }));
                None
            },
            6 if n > 0 && !empty => {
                let ax = r.below(n) as isize;
                let t = if r.bool() { a.argmin_axes(ax) } else { a.argmax_axes(ax) };
                Some(put("arg axis", t.mapv(|x| x as f64).mapv(q))?)
            },
            7 | 8 if n >= 1 && a.size() * (if n == 1 { 1 } else { a.shape()[if i.colm { 0 } else { n - 2 }] }) < 3_000_000 => {
                // a product that fits: the operand with its own reverse
                let (p, t) = if n == 1 { (a.view(), a.view()) } else { (a.view(), a.swapaxes(if i.colm { 0 } else { -1 }, if i.colm { 1 } else { -2 })) };
                Some(put("matmul", (&p % &t).into_dim::<IxD>().mapv(q))?)
            },
            9 => {
                let f = a.reshape([a.size()]);
                Some(put("reshape flat", f.into_owned())?)
            },
            10 if n > 0 => {
                let ax = r.below(n);
                let m = a.shape()[ax];
                if m == 0 {
                    None
                } else {
                    let ix: Vec<isize> = (0..r.usize(1, (2 * m).min(60))).map(|_| r.below(m) as isize).collect();
                    Some(put("take", a.index_select(ax as isize, ix))?)
                }
            },
            11 if n > 0 && a.size() < 40000 => {
                let ax = r.below(n) as isize;
                Some(put("concat", rt::concat((vec![a.view(), a.view()], ax)))?)
            },
            12 => {
                let t = match r.below(5) {
                    0 => a.sin().mapv(|x| q(x * 100.0)),
                    1 => a.exp().mapv(q),
                    2 => a.abs().sqrt().mapv(|x| q(x * 10.0)),
                    3 => (&a * 0.5).floor(),
                    _ => a.square().mapv(q),
                };
                Some(put("unary", t)?)
            },
            13 => {
                let mut t = a.to_owned();
                t.mapvi(|x| q(x * 3.0 + 1.0));
                if n > 0 {
                    let idx: Vec<Indexer> = (0..n).map(|_| Indexer::Slice(SliceI::new(None, None, Some(2)))).collect();
                    let mut m = t.slice_mut(AxesIndex::Vec(idx));
                    if r.bool() {
                        m.fill(5.0);
                    } else {
                        m += 1.0;
                    }
                }
                Some(put("in place", t)?)
            },
            14 => {
                let mut t = a.to_owned();
                t += &a;
                t -= 2.0;
                Some(put("compound", t.mapv(q))?)
            },
            15 => {
                let m = r.bool();
                let t: T = if m { a.to_contig(FlagOrder::C).into_owned() } else { a.to_contig(FlagOrder::F).into_owned() };
                Some(put("to contig", t)?)
            },
            16 => {
                let v = if r.bool() { a.iter().into_par_iter().map(|x| q(x * 2.0)).collect::<Vec<f64>>() } else { a.iter().map(|x| q(x * 2.0)).collect::<Vec<f64>>() };
                let s = v.iter().sum::<f64>();
                out.push(("iterate".into(), Nd { shape: vec![1], data: vec![s] }));
                None
            },
            17 if n > 0 && !empty => {
                let ax = r.below(n) as isize;
                let v: Vec<f64> = a.axes_iter(ax).into_par_iter().map(|v| v.sum_all()).collect();
                out.push(("axes in parallel".into(), Nd { shape: vec![v.len()], data: v }));
                None
            },
            18 if n == 2 && a.shape()[0] == a.shape()[1] && !empty => {
                Some(put("pack", if r.bool() { a.pack_tril() } else { a.pack_triu() })?)
            },
            19 if n >= 1 => {
                let ax = r.below(n) as isize;
                Some(put("vecdot", rt::vecdot(&a, &a, ax).into_dim::<IxD>().mapv(q))?)
            },
            20 => {
                let t = rt::greater(&a, 4.0);
                out.push(("compare".into(), obs!(&t)?.map(|b| *b as u8 as f64)));
                out.push(("any all".into(), Nd { shape: vec![2], data: vec![rt::any_all(&t) as u8 as f64, rt::all_all(&t) as u8 as f64] }));
                None
            },
            21 => Some(put("map pair", a.mapvb(&a, |x, y| q(x * 2.0 - y + 1.0)))?),
            22 => {
                let m = r.usize(1, 300);
                let t = rt::arange((m as f64, a.device())).into_dim::<IxD>();
                Some(put("arange", t.mapv(q))?)
            },
            23 if n == 2 => Some(put("triangle", if r.bool() { rt::tril(&a) } else { rt::triu(&a) })?),
            _ => None,
        };
        if let Some(t) = new {
            if t.size() < 60000 {
                own.push(t);
            }
            if own.len() > 4 {
                own.remove(0);
            }
        }
    }
    between();
    Ok(out)
}

pub fn plain(i: &Inputs, d: &B) -> Result<Trace, Fail> {
    let t = load(i, d);
    let regs: Vec<&T> = t.iter().collect();
    steps(&regs, i, &mut || ())
}

fn start(c: &mut Case) -> Result<(Inputs, Trace), Fail> {
    let i = gen_inputs(&mut c.rng);
    c.d(format!("{} seed {} steps {} inputs {:?}", if i.colm { "F" } else { "C" }, i.seed, i.steps, i.spec.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let want = match no_panic(|| reference(&i)) {
        Ok(w) => w?,
        Err(e) => bail!("the serial run {e}"),
    };
    for (n, v) in &want {
        c.hit(format!("op {n}"));
        if v.size() > 1 {
            c.nontrivial();
        }
        if v.size() > 16384 {
            c.hit("results beyond the parallel threshold");
        }
    }
    Ok((i, want))
}

/// Thread settings that have to survive.
struct Settings {
    d: &'static B,
    dev: usize,
    pool: usize,
    blas: usize,
}
impl Settings {
    fn note(r: &mut Rng, d: &'static B) -> Self {
        set_blas_threads(r.usize(1, 3));
        by_dev!({ Settings { d, dev: 0, pool: 0, blas: blas_threads() } } { Settings { d, dev: d.get_num_threads(), pool: d.get_pool().current_num_threads(), blas: blas_threads() } })
    }
    fn check(&self) -> R {
        ensure!(blas_threads() == self.blas, "the BLAS thread count of the caller changed from {} to {}", self.blas, blas_threads());
        by_dev!({ let _ = (self.dev, self.pool, self.d); Ok(()) } {
            ensure!(self.d.get_num_threads() == self.dev, "the device's thread count changed from {} to {}", self.dev, self.d.get_num_threads());
            ensure!(self.d.get_pool().current_num_threads() == self.pool, "the device's pool size changed");
            Ok(())
        })
    }
}

fn guarded(what: &str, f: impl FnOnce() -> Result<Trace, Fail>) -> Result<Trace, Fail> {
    match no_panic(f) {
        Ok(t) => t,
        Err(e) => bail!("{what}: {e}"),
    }
}

pub fn fam_plain(c: &mut Case) -> R {
    let (i, want) = start(c)?;
    for _ in 0..2 {
        let d = dev(&mut c.rng, i.colm);
        let s = Settings::note(&mut c.rng, d);
        let got = guarded("pool run", || plain(&i, d))?;
        c.eval();
        compare("pool run", &got, &want)?;
        s.check()?;
    }
    Ok(())
}

/// The whole program inside a caller's own pool.
pub fn fam_user_pool(c: &mut Case) -> R {
    let (i, want) = start(c)?;
    let d = dev(&mut c.rng, i.colm);
    let s = Settings::note(&mut c.rng, d);
    let n = c.rng.usize(1, 6);
    c.d(format!("inside a user pool of {n}"));
    let (got, b0, b1) = user_pool(n).install(|| {
        let b0 = blas_threads();
        let g = guarded("inside a user pool", || plain(&i, d));
        (g, b0, blas_threads())
    });
    c.eval();
    compare("inside a user pool", &got?, &want)?;
    ensure!(b0 == b1, "the BLAS thread count of a user pool's worker changed from {b0} to {b1}");
    s.check()
}

/// The whole program inside a pool of a device (its own or another one's).
pub fn fam_device_pool(c: &mut Case) -> R {
    let (i, want) = start(c)?;
    let d = dev(&mut c.rng, i.colm);
    let e = if c.rng.bool() { d } else { dev(&mut c.rng, i.colm) };
    let s = Settings::note(&mut c.rng, d);
    let got = by_dev!({ let _ = e; plain(&i, d) } {
        ensure!(e.get_pool().install(|| d.get_current_pool().is_none()), "inside a worker the device still wants its own pool");
        e.get_pool().install(|| guarded("inside a device's pool", || plain(&i, d)))
    })?;
    c.eval();
    compare("inside a device's pool", &got, &want)?;
    s.check()
}

/// Several runs at once as tasks of one pool.
pub fn fam_par_tasks(c: &mut Case) -> R {
    let (i, want) = start(c)?;
    let d = dev(&mut c.rng, i.colm);
    let s = Settings::note(&mut c.rng, d);
    let (n, k) = (c.rng.usize(1, 6), c.rng.usize(2, 8));
    let kind = c.rng.below(3);
    c.d(format!("{k} tasks of kind {kind} in a pool of {n}"));
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.next_u64()).collect();
    let sched = Sched::new();
    let one = |w: usize| {
        let mut j = Rng::new(seeds[w]);
        sched.enter();
        let g = guarded("as a task", || {
            let t = load(&i, d);
            let regs: Vec<&T> = t.iter().collect();
            steps(&regs, &i, &mut || {
                sched.step(w as u8);
                jitter(&mut j)
            })
        });
        sched.leave();
        g
    };
    let got: Vec<Result<Trace, Fail>> = user_pool(n).install(|| match kind {
        0 => (0..k).into_par_iter().map(one).collect(),
        1 => {
            let (mut a, b) = rayon::join(|| (0..k / 2).map(one).collect::<Vec<_>>(), || (k / 2..k).into_par_iter().map(one).collect::<Vec<_>>());
            a.extend(b);
            a
        },
        _ => {
            let slots: Vec<Mutex<Option<Result<Trace, Fail>>>> = (0..k).map(|_| Mutex::new(None)).collect();
            rayon::scope(|sc| {
                for w in 0..k {
                    let (slots, one) = (&slots, &one);
                    sc.spawn(move |_| *slots[w].lock().unwrap() = Some(one(w)));
                }
            });
            slots.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
        },
    });
    for g in got {
        c.eval();
        compare("as a task", &g?, &want)?;
    }
    observed(c, &sched);
    s.check()
}

fn observed(c: &mut Case, s: &Sched) {
    let p = s.peak.load(Ordering::SeqCst);
    if p > 1 {
        c.hit("runs that really overlapped");
    }
    if s.fresh() {
        c.hit("distinct interleavings of operations");
    }
}

/// Several user threads, each with its own arrays, on one device or on several.
pub fn fam_threads(c: &mut Case) -> R {
    threads(c, false)
}
/// Several user threads reading the same arrays.
pub fn fam_shared(c: &mut Case) -> R {
    threads(c, true)
}
fn threads(c: &mut Case, share: bool) -> R {
    let (i, want) = start(c)?;
    let k = c.rng.usize(2, 6);
    let d = dev(&mut c.rng, i.colm);
    let devs: Vec<&'static B> = (0..k).map(|_| if share || c.rng.bool() { d } else { dev(&mut c.rng, i.colm) }).collect();
    c.d(format!("{k} threads"));
    let s = Settings::note(&mut c.rng, d);
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.next_u64()).collect();
    let sched = Sched::new();
    let bar = Barrier::new(k);
    let common = load(&i, d);
    let got: Vec<Result<Trace, Fail>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..k)
            .map(|w| {
                let (i, devs, seeds, sched, bar, common) = (&i, &devs, &seeds, &sched, &bar, &common);
                sc.spawn(move || {
                    let mut j = Rng::new(seeds[w]);
                    let set = Settings::note(&mut j, devs[w]);
                    let mine;
                    let regs: Vec<&T> = if share {
                        common.iter().collect()
                    } else {
                        mine = load(i, devs[w]);
                        mine.iter().collect()
                    };
                    bar.wait();
                    sched.enter();
                    let g = guarded("in a user thread", || {
                        steps(&regs, i, &mut || {
                            sched.step(w as u8);
                            jitter(&mut j)
                        })
                    });
                    sched.leave();
                    set.check()?;
                    g
                })
            })
            .collect();
        h.into_iter().map(|x| x.join().unwrap_or_else(|_| Err(Fail::from("thread died")))).collect()
    });
    for g in got {
        c.eval();
        compare("in a user thread", &g?, &want)?;
    }
    for ((t, sp), raw) in common.iter().zip(&i.spec).zip(&i.raw) {
        ensure!(&t.raw()[..] == &raw[..], "a shared read-only array changed (layout {sp})");
    }
    observed(c, &sched);
    s.check()
}

/// Operations called from inside closures that the library itself runs on the pool.
pub fn fam_nested(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let e = if c.rng.bool() { d } else { dev(&mut c.rng, colm) };
    let s = Settings::note(&mut c.rng, d);
    let n = *c.rng.pick(&[4usize, 60, 700, 1500, 5000]);
    let m = *c.rng.pick(&[3usize, 20, 600, 1100]);
    if n * m > 400_000 {
        return Ok(());
    }
    c.nontrivial();
    let kind = c.rng.below(4);
    c.d(format!("nested {n} {m} kind {kind}"));
    let xs: Vec<f64> = (0..n).map(|k| (k % 7) as f64).collect();
    let ys: Vec<f64> = (0..m).map(|k| (k % 5) as f64).collect();
    let ysum: f64 = ys.iter().sum();
    let y2: f64 = ys.iter().map(|y| y * y).sum();
    let t = rt::asarray((&xs, d)).into_dim::<IxD>();
    let u = rt::asarray((&ys, e)).into_dim::<IxD>();
    let inner = |x: f64| -> f64 {
        match kind {
            0 => (&u * x).sum_all(),
            1 => x * u.sum_all(),
            2 => x + rt::vecdot(&u, &u, -1).to_scalar(),
            _ => x + (&u % &u).to_scalar(),
        }
    };
    let want: Vec<f64> = xs.iter().map(|&x| if kind < 2 { x * ysum } else { x + y2 }).collect();
    let form = c.rng.below(4);
    let got = match no_panic(|| match form {
        0 => obs!(t.mapv(inner)),
        1 => {
            let mut o = t.to_owned();
            o.mapvi(inner);
            obs!(&o)
        },
        2 => Ok(Nd { shape: vec![n], data: t.iter().into_par_iter().map(|x| inner(*x)).collect::<Vec<_>>() }),
        _ => obs!(t.mapvb(&t, |x, _| inner(x))),
    }) {
        Ok(g) => g,
        Err(e) => bail!("nested: {e}"),
    };
    c.eval();
    same("nested", &got, &Nd { shape: vec![n], data: want })?;
    s.check()
}

/// Changing the thread count of a clone, and dropping devices, while the original computes.
pub fn fam_resize(c: &mut Case) -> R {
    let (i, want) = start(c)?;
    let mut d0 = B::default();
    d0.set_default_order(ord(i.colm));
    by_dev!({} { d0.set_num_threads(c.rng.usize(1, 4)); });
    let (nt, sd) = by_dev!({ (0, 0) } { (d0.get_num_threads(), c.rng.next_u64()) });
    let d = &d0;
    let k = 3;
    let bar = Barrier::new(k + 1);
    let got: Vec<Result<Trace, Fail>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..k)
            .map(|_| {
                let (i, bar) = (&i, &bar);
                sc.spawn(move || {
                    bar.wait();
                    guarded("while a clone is resized", || plain(i, d))
                })
            })
            .collect();
        bar.wait();
        let mut r = Rng::new(sd);
        for _ in 0..3 {
            #[allow(unused_mut)]
            let mut e = d.clone();
            let n = r.usize(1, 5);
            by_dev!({ let _ = n; } { e.set_num_threads(n); });
            let g = no_panic(|| plain(&i, &e));
            if !matches!(&g, Ok(Ok(g)) if compare("", g, &want).is_ok()) {
                return vec![Err(Fail::from(format!("a resized clone of {n} threads gives another result: {:?}", g.map(|g| g.err().map(|f| f.msg)))))];
            }
            by_dev!({} { if e.get_num_threads() != n { return vec![Err(Fail::from("set_num_threads was ignored"))]; } });
        }
        h.into_iter().map(|x| x.join().unwrap()).collect()
    });
    for g in got {
        c.eval();
        compare("while a clone is resized", &g?, &want)?;
    }
    by_dev!({ let _ = nt; } { ensure!(d.get_num_threads() == nt && d.get_pool().current_num_threads() == nt, "resizing a clone changed the original device"); });
    Ok(())
}

/// A product whose element operation panics must not leave the library's thread settings changed.
pub fn fam_panic(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let s = Settings::note(&mut c.rng, d);
    let nb = c.rng.usize(0, 2);
    let mut sh: Vec<usize> = (0..nb).map(|_| c.rng.usize(1, 7)).collect();
    if colm { sh.splice(0..0, [3, 3]); } else { sh.extend([3, 3]); }
    if c.rng.chance(1, 4) { sh = vec![5]; }
    let a = rt::asarray((vec![i32::MAX; size_of(&sh)], lay(&contig_spec(&sh, colm)), d));
    c.d(format!("overflowing product of {sh:?}"));
    c.nontrivial();
    c.eval();
    let got = no_panic(|| (&a % &a).raw().len());
    if got.is_err() { c.hit("products that panicked"); }
    s.check()
}
