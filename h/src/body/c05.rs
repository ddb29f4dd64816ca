/// Runs one reduction in the requested axes form; yields the observed result.
macro_rules! red {
    ($c:ident, $raw:ident, $s:ident, $dev:ident, $ax:expr, $all:ident, $axes:ident) => {{
        let t = rt::asarray((&$raw, lay(&$s), $dev));
        let form = $c.rng.below(3);
        match &$ax {
            Ax::All => {
                let v = match form {
                    0 => t.$all(),
                    1 => rt::$all(&t),
                    _ => rt::asarray(($raw.clone(), lay(&$s), $dev)).$all(),
                };
                Ok(Nd { shape: vec![], data: vec![v] })
            },
            Ax::Null => obs!(t.$axes(None)),
            Ax::One(a) => match form {
                0 => obs!(t.$axes(*a)),
                1 => obs!(rt::$axes(&t, *a)),
                _ => {
                    if $s.shape.len() == 2 {
                        obs!(rt::asarray(($raw.clone(), lay(&$s), $dev)).into_dim::<Ix2>().$axes(*a as i32))
                    } else {
                        obs!(t.$axes([*a]))
                    }
                },
            },
            Ax::List(v) => match form {
                0 => obs!(t.$axes(v)),
                1 => obs!(rt::$axes(t, v.clone())),
                _ => {
                    if $s.shape.len() == 3 {
                        obs!(t.to_dim::<Ix3>().$axes(v.as_slice()))
                    } else {
                        obs!(t.$axes(v.as_slice()))
                    }
                },
            },
        }
    }};
}

/// The same for the bool sum, which exists only as methods.
macro_rules! redm {
    ($c:ident, $raw:ident, $s:ident, $dev:ident, $ax:expr, $all:ident, $axes:ident) => {{
        let t = rt::asarray((&$raw, lay(&$s), $dev));
        match &$ax {
            Ax::All => Ok(Nd { shape: vec![], data: vec![t.$all()] }),
            Ax::Null => obs!(t.$axes(None)),
            Ax::One(a) => obs!(t.$axes(*a)),
            Ax::List(v) => obs!(t.$axes(v)),
        }
    }};
}

macro_rules! setup {
    ($c:ident, $what:expr, $t:ty, $gen:expr) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let s = one(&mut $c.rng);
        #[allow(clippy::redundant_closure_call)]
        let raw: Vec<$t> = (0..s.len).map(|_| ($gen)(&mut $c.rng)).collect();
        let (ax, axes) = gen_ax(&mut $c.rng, s.shape.len());
        $c.d(format!("{} {} {} over {:?}", $what, if colm { "F" } else { "C" }, s, ax));
        let m = nd(&raw, &s);
        let g = group(&m, &axes);
        if g.data.iter().any(|v| v.len() > 1) {
            $c.nontrivial();
        }
        $c.hit(format!("{} {}", $what, match ax { Ax::All => "all", Ax::Null => "none", Ax::One(_) => "one", _ => "list" }));
        if s.has_bcast() {
            $c.hit("broadcast input");
        }
        $c.eval();
        (dev, s, raw, ax, g)
    }};
}

fn eqs<T: PartialEq + std::fmt::Debug>(got: &T, want: T) -> Result<(), String> {
    if *got == want {
        Ok(())
    } else {
        Err(format!("is {got:?}, wanted {want:?}"))
    }
}

pub fn exact(c: &mut Case) -> R {
    let k = c.rng.below(12);
    match k {
        0..=2 => {
            let (dev, s, raw, ax, g) = setup!(c, "sum wrapping", W, |r: &mut Rng| Wrapping(r.next_u64()));
            let got = red!(c, raw, s, dev, ax, sum_all, sum_axes);
            judge("sum", &got, &g, |u, v: &[W]| eqs(u, v.iter().fold(Wrapping(0), |a, b| a + b)))
        },
        3 => {
            let (dev, s, raw, ax, g) = setup!(c, "sum i32", i32, |r: &mut Rng| r.range(-3000, 3000) as i32);
            let got = red!(c, raw, s, dev, ax, sum, sum_axes);
            judge("sum", &got, &g, |u, v: &[i32]| eqs(u, v.iter().sum()))
        },
        4..=5 => {
            let (dev, s, raw, ax, g) = setup!(c, "prod wrapping", W, |r: &mut Rng| Wrapping(r.next_u64() | 1));
            let got = red!(c, raw, s, dev, ax, prod_all, prod_axes);
            judge("prod", &got, &g, |u, v: &[W]| eqs(u, v.iter().fold(Wrapping(1), |a, b| a * b)))
        },
        6 => {
            let p = *c.rng.pick(&[2u64, 20, 200]);
            let (dev, s, raw, ax, g) = setup!(c, "all", bool, |r: &mut Rng| !r.chance(1, p));
            let got = red!(c, raw, s, dev, ax, all, all_axes);
            judge("all", &got, &g, |u, v: &[bool]| eqs(u, v.iter().all(|&x| x)))
        },
        7 => {
            let p = *c.rng.pick(&[2u64, 20, 200]);
            let (dev, s, raw, ax, g) = setup!(c, "any", bool, |r: &mut Rng| r.chance(1, p));
            let got = red!(c, raw, s, dev, ax, any, any_axes);
            judge("any", &got, &g, |u, v: &[bool]| eqs(u, v.iter().any(|&x| x)))
        },
        8 => {
            let (dev, s, raw, ax, g) = setup!(c, "sum bool", bool, |r: &mut Rng| r.bool());
            let got = redm!(c, raw, s, dev, ax, sum_all, sum_axes);
            judge("bool sum", &got, &g, |u, v: &[bool]| eqs(u, v.iter().filter(|&&x| x).count()))
        },
        9 => {
            let (dev, s, raw, ax, g) = setup!(c, "count i32", i32, |r: &mut Rng| r.range(-1, 1) as i32);
            let got = red!(c, raw, s, dev, ax, count_nonzero, count_nonzero_axes);
            judge("count_nonzero", &got, &g, |u, v: &[i32]| eqs(u, v.iter().filter(|&&x| x != 0).count()))
        },
        10 => {
            let (dev, s, raw, ax, g) =
                setup!(c, "count f64", f64, |r: &mut Rng| *r.pick(&[0.0, -0.0, 1.5, f64::NAN, 1e-320, f64::INFINITY]));
            let got = red!(c, raw, s, dev, ax, count_nonzero_all, count_nonzero_axes);
            judge("count_nonzero", &got, &g, |u, v: &[f64]| eqs(u, v.iter().filter(|&&x| x != 0.0).count()))
        },
        _ => {
            // integer-valued floats: every partial sum is exact
            let (dev, s, raw, ax, g) = setup!(c, "sum f64 exact", f64, |r: &mut Rng| r.range(-1 << 30, 1 << 30) as f64);
            let got = red!(c, raw, s, dev, ax, sum_all, sum_axes);
            judge("sum", &got, &g, |u, v: &[f64]| eqs(u, v.iter().sum::<f64>() + 0.0))
        },
    }
}

macro_rules! mm_int {
    ($c:ident, $t:ty, $lo:expr, $hi:expr) => {{
        let (dev, s, raw, ax, g) = setup!($c, stringify!($t), $t, |r: &mut Rng| if r.chance(1, 30) {
            *r.pick(&[<$t>::MIN, <$t>::MAX])
        } else {
            r.range($lo, $hi) as $t
        });
        let t = rt::asarray((&raw, lay(&s), dev));
        if s.size() == 0 {
            ensure!(t.min_all_f().is_err() && t.max_all_f().is_err(), "minimum or maximum of nothing was accepted");
            return Ok(());
        }
        if $c.rng.bool() {
            let got = red!($c, raw, s, dev, ax, min, min_axes);
            judge("min", &got, &g, |u, v: &[$t]| eqs(u, *v.iter().min().unwrap()))
        } else {
            let got = red!($c, raw, s, dev, ax, max, max_axes);
            judge("max", &got, &g, |u, v: &[$t]| eqs(u, *v.iter().max().unwrap()))
        }
    }};
}
macro_rules! mm_float {
    ($c:ident, $t:ty) => {{
        let wild = $c.rng.below(4);
        let (dev, s, raw, ax, g) = setup!($c, stringify!($t), $t, |r: &mut Rng| match wild {
            0 => r.f(-5.0, 5.0) as $t,
            1 => if r.chance(1, 10) { <$t>::NAN } else { r.f(-5.0, 5.0) as $t },
            2 => *r.pick(&[<$t>::INFINITY, <$t>::NEG_INFINITY, 1.0, <$t>::MAX, <$t>::MIN]),
            _ => *r.pick(&[<$t>::INFINITY, <$t>::NEG_INFINITY]),
        });
        if s.size() == 0 || g.data.iter().any(|v| v.iter().all(|x| x.is_nan())) {
            return Ok(());
        }
        let isnan = |v: &[$t]| v.iter().cloned().filter(|x| !x.is_nan()).collect::<Vec<_>>();
        if $c.rng.bool() {
            let got = red!($c, raw, s, dev, ax, min_all, min_axes);
            judge("min", &got, &g, |u, v: &[$t]| eqs(u, isnan(v).into_iter().reduce(|a, b| if b < a { b } else { a }).unwrap()))
        } else {
            let got = red!($c, raw, s, dev, ax, max_all, max_axes);
            judge("max", &got, &g, |u, v: &[$t]| eqs(u, isnan(v).into_iter().reduce(|a, b| if b > a { b } else { a }).unwrap()))
        }
    }};
}

pub fn minmax(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => mm_int!(c, i8, -100, 100),
        1 => mm_int!(c, i64, -1000000, 1000000),
        2 => mm_int!(c, u16, 0, 60000),
        3 => mm_float!(c, f64),
        _ => mm_float!(c, f32),
    }
}

/// Real and complex float reductions; parts are judged with summation error bounds.
macro_rules! fl {
    ($c:ident, $t:ty, $real:ty, $eps:expr, $gen:expr, $re:expr, $im:expr, $prod:tt) => {{
        let op = $c.rng.below(6);
        let name = ["sum", "mean", "l2_norm", "var", "std", "prod"][op];
        let style = $c.rng.below(4);
        let fixed = ($gen)(&mut $c.rng);
        let (dev, s, raw, ax, g) = setup!($c, format!("{name} {}", stringify!($t)), $t, |r: &mut Rng| match style {
            0 => fixed,
            _ => ($gen)(r),
        });
        let re = $re;
        let im = $im;
        let cnt = |v: &[$t]| (v.len() as f64).max(1.0);
        // sum, with its error bound, of each part
        let sums = |v: &[$t]| {
            let (a, x) = csum(v.iter().map(re));
            let (b, y) = csum(v.iter().map(im));
            (a, b, 2.0 * $eps * cnt(v) * (x + y))
        };
        let sq = |v: &[$t]| csum(v.iter().map(|z| re(z) * re(z) + im(z) * im(z))).0;
        match op {
            0 => {
                let got = red!($c, raw, s, dev, ax, sum_all, sum_axes);
                judge("sum", &got, &g, |u, v: &[$t]| {
                    let (a, b, tol) = sums(v);
                    near("sum", re(u), a, tol)?;
                    near("sum (imaginary)", im(u), b, tol)
                })
            },
            1 => {
                let got = red!($c, raw, s, dev, ax, mean, mean_axes);
                judge("mean", &got, &g, |u, v: &[$t]| {
                    let (a, b, tol) = sums(v);
                    let n = v.len() as f64;
                    near("mean", re(u), a / n, tol / n + 8.0 * $eps * (a / n).abs())?;
                    if n > 0.0 {
                        near("mean (imaginary)", im(u), b / n, tol / n + 8.0 * $eps * (b / n).abs())?;
                    }
                    Ok(())
                })
            },
            2 => {
                let got = red!($c, raw, s, dev, ax, l2_norm, l2_norm_axes);
                judge("l2_norm", &got, &g, |u, v: &[$t]| {
                    let w = sq(v).sqrt();
                    near("norm", *u as f64, w, 2.0 * $eps * cnt(v) * w)
                })
            },
            3 | 4 => {
                let got = if op == 3 {
                    red!($c, raw, s, dev, ax, var, var_axes)
                } else {
                    red!($c, raw, s, dev, ax, std, std_axes)
                };
                judge(name, &got, &g, |u, v: &[$t]| {
                    let n = v.len() as f64;
                    if n == 0.0 {
                        return near("variance of nothing", *u as f64, f64::NAN, 0.0);
                    }
                    let (a, b, _) = sums(v);
                    let (ma, mb) = (a / n, b / n);
                    let var = csum(v.iter().map(|z| (re(z) - ma).powi(2) + (im(z) - mb).powi(2))).0 / n;
                    let tol = 8.0 * $eps * (n + 4.0) * (sq(v) / n + ma * ma + mb * mb);
                    let x = *u as f64;
                    if op == 3 {
                        near("variance", x, var, tol)?;
                        if x < -0.0 {
                            return Err(format!("is a negative variance {x:?}"));
                        }
                        Ok(())
                    } else {
                        let hi = (var + tol).sqrt() * (1.0 + 4.0 * $eps);
                        let lo = (var - tol).max(0.0).sqrt() * (1.0 - 4.0 * $eps);
                        if x >= lo && x <= hi {
                            Ok(())
                        } else {
                            Err(format!("is {x:?}, wanted standard deviation in {lo:?}..{hi:?}"))
                        }
                    }
                })
            },
            _ => fl!(@prod $prod, $c, raw, s, dev, ax, g, $t, $eps),
        }
    }};
    (@prod yes, $c:ident, $raw:ident, $s:ident, $dev:ident, $ax:ident, $g:ident, $t:ty, $eps:expr) => {{
        if $g.data.iter().any(|v| v.len() > 60) {
            return Ok(());
        }
        let got = red!($c, $raw, $s, $dev, $ax, prod, prod_axes);
        judge("prod", &got, &$g, |u, v: &[$t]| {
            let w: f64 = v.iter().map(|&x| x as f64).product();
            near("product", *u as f64, w, 4.0 * $eps * (v.len() as f64) * w.abs() + 1e-300f64.max(($eps as f64).powi(5)))
        })
    }};
    (@prod no, $c:ident, $raw:ident, $s:ident, $dev:ident, $ax:ident, $g:ident, $t:ty, $eps:expr) => {{
        Ok(())
    }};
}

pub fn float(c: &mut Case) -> R {
    let (e64, e32) = (f64::EPSILON, f32::EPSILON as f64);
    match c.rng.below(4) {
        0 => {
            let off = *c.rng.pick(&[0.0, 0.0, 10.0, -1e6]);
            fl!(c, f64, f64, e64, |r: &mut Rng| off + r.f(-2.0, 2.0), |z: &f64| *z, |_: &f64| 0.0, yes)
        },
        1 => fl!(c, f32, f32, e32, |r: &mut Rng| r.f(-2.0, 2.0) as f32, |z: &f32| *z as f64, |_: &f32| 0.0, yes),
        2 => fl!(c, C64, f64, e64, |r: &mut Rng| C64::new(r.f(-2.0, 2.0), r.f(-2.0, 2.0)), |z: &C64| z.re, |z: &C64| z.im, no),
        _ => fl!(
            c, C32, f32, e32,
            |r: &mut Rng| C32::new(r.f(-2.0, 2.0) as f32, r.f(-2.0, 2.0) as f32),
            |z: &C32| z.re as f64,
            |z: &C32| z.im as f64,
            no
        ),
    }
}

/// allclose: one differing element, at a random place, decides.
pub fn close(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let s0 = one(&mut c.rng);
    let (sha, shb) = gen_bcast_pair(&mut c.rng, &s0.shape, colm);
    let (ba, bb) = (c.rng.chance(1, 6), c.rng.chance(1, 6));
    let sa = gen_layout(&mut c.rng, &sha, ba);
    let sb = if sha == shb && !sa.has_bcast() && c.rng.bool() { sa.clone() } else { gen_layout(&mut c.rng, &shb, bb) };
    c.d(format!("allclose {} {sa} {sb}", if colm { "F" } else { "C" }));
    let equal_nan = c.rng.bool();
    let base = c.rng.f(0.5, 2.0);
    let (rtol, atol) = (1e-3, 1e-6);
    let mut ra: Vec<f64> = vec![base; sa.len];
    let mut rb: Vec<f64> = vec![base; sb.len];
    for _ in 0..c.rng.below(3) {
        // a perturbation somewhere in either buffer: inside or outside the tolerance, or NaN
        let d = *c.rng.pick(&[1e-5, 3e-3, -2e-3, 5e-4, f64::NAN]);
        let b = if c.rng.bool() { &mut ra } else { &mut rb };
        if !b.is_empty() {
            let k = c.rng.below(b.len());
            b[k] += d;
        }
    }
    let (ma, mb) = (nd(&ra, &sa), nd(&rb, &sb));
    let z = zip(&ma, &mb, colm, |a, b| {
        (a - b).abs() <= atol + rtol * b.abs() || (equal_nan && a.is_nan() && b.is_nan())
    });
    let (ta, tb) = (rt::asarray((&ra, lay(&sa), dev)), rt::asarray((&rb, lay(&sb), dev)));
    c.eval();
    if z.size() == 0 {
        ensure!(rt::allclose_f(&ta, &tb, (rtol, atol, equal_nan)).is_err(), "closeness of nothing was accepted");
        return Ok(());
    }
    c.nontrivial();
    let want = z.data.iter().all(|&x| x);
    c.hit(format!("want {want}"));
    let got = if c.rng.bool() {
        rt::allclose(&ta, &tb, (rtol, atol, equal_nan))
    } else {
        rt::allclose_f(ta, tb, (rtol, atol, equal_nan)).map_err(|e| format!("allclose: {e:?}"))?
    };
    ensure!(got == want, "allclose is {got}, but {} of {} pairs are close", z.data.iter().filter(|&&x| x).count(), z.size());
    Ok(())
}
