/// One operand in one of the forms a caller can choose.
macro_rules! form {
    ($r:expr, $p:expr, |$a:ident| $call:expr) => {
        match $r.below(4) {
            0 => {
                let v = $p.view();
                let $a = &v;
                obs!($call)
            },
            1 => {
                let $a = $p.view();
                obs!($call)
            },
            2 => {
                let v = $p.own().into_dim::<Ix2>();
                let $a = &v;
                obs!($call)
            },
            _ => {
                let $a = $p.view().into_dim::<Ix2>();
                obs!($call)
            },
        }
    };
}

macro_rules! typed {
    ($m:ident, $T:ty, $Re:ty) => {
        mod $m {
            use super::*;
            type T = $T;
            const EPS: f64 = <$T as E>::EPS;
            const CX: bool = <$T as E>::CX;

            pub fn cholesky_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r);
                let (ul, up) = uplo(r, colm);
                let s = spectrum(r, n, cond::<T>());
                let mut a = stored::<T>(&herm(r, &s, CX));
                let bad = n > 0 && r.chance(1, 8);
                if bad {
                    let k = r.below(n);
                    a.set(&[k, k], re(-r.f(0.1, 2.0) * big(&a)));
                }
                let p = Put::<T>::new(r, &half::<T>(&a, up), dv);
                c.d(format!("cholesky {} {ul:?} {} colm {colm} definite {}", stringify!($T), p.s, !bad));
                if bad {
                    c.eval();
                    c.hit("matrices that had to be refused");
                    let res = attempt(|| cholesky_f((p.view(), ul)));
                    refused("cholesky of a matrix that is not definite", res.map(|x| x.map(|_| ())))?;
                    return p.kept("operand");
                }
                let in_place = r.chance(1, 3);
                let got = if in_place {
                    by_dev!({ obs!(cholesky((p.own(), ul))) } {
                        if r.bool() {
                            obs!(cholesky((p.own(), ul)))
                        } else {
                            let mut q = Put::<T>::new(r, &half::<T>(&a, up), dv);
                            let g = obs!(cholesky((q.view_mut(), ul)));
                            q.rest_kept("around the overwritten operand")?;
                            same("overwritten operand", &obs!(q.view()), &g.clone()?)?;
                            g
                        }
                    })
                } else if ul.is_none() && r.bool() {
                    form!(r, p, |a| cholesky(a))
                } else {
                    form!(r, p, |a| cholesky((a, ul)))
                };
                p.kept("operand of cholesky")?;
                let l = lift(got)?;
                ensure!(l.shape == a.shape, "cholesky: shape {:?}", l.shape);
                for_idx(&l.shape.clone(), |_| ());
                for i in 0..n {
                    for j in 0..n {
                        let z = *l.at(&[i, j]);
                        if (up && i > j) || (!up && i < j) {
                            ensure!(z == zero(), "cholesky: element ({i}, {j}) outside the triangle is {z}");
                        }
                    }
                    let z = *l.at(&[i, i]);
                    ensure!(z.re > 0.0 && z.im.abs() <= 40.0 * (n as f64 + 4.0) * EPS * big(&a).sqrt(), "cholesky: diagonal element {i} is {z}");
                }
                let b = if up { mm(&adj(&l), &l) } else { mm(&l, &adj(&l)) };
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                small("cholesky factor times its adjoint", &b, &a, 40.0 * (n as f64 + 4.0) * EPS * big(&a))
            }

            pub fn det_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let n = size(r).min(20);
                let singular = n > 0 && r.chance(1, 6);
                let a = if singular {
                    let mut a = random(r, n, n, CX);
                    let k = r.below(n);
                    for j in 0..n {
                        if r.bool() && n > 1 {
                            let o = *a.at(&[(k + 1) % n, j]);
                            a.set(&[k, j], o);
                        } else {
                            a.set(&[k, j], zero());
                        }
                    }
                    // a zero row
                    for j in 0..n {
                        a.set(&[k, j], zero());
                    }
                    a
                } else {
                    let s = spectrum(r, n, cond::<T>());
                    dense(r, &s, n, n, CX)
                };
                let a = stored::<T>(&a);
                let p = Put::<T>::new(r, &a, dv);
                c.d(format!("det {} {}", stringify!($T), p.s));
                let f = r.below(3);
                let got: T = match f {
                    0 => det(&p.view()),
                    1 => det(p.view().into_dim::<Ix2>()),
                    _ => by_dev!({ det(p.own()) } { if r.bool() { det(p.own()) } else {
                        let mut q = Put::<T>::new(r, &a, dv);
                        let d = det(q.view_mut());
                        q.rest_kept("around the overwritten operand")?;
                        d
                    } }),
                };
                p.kept("operand of det")?;
                let want = det_ref(&a);
                // every determinant of a perturbed matrix: n |A|_row products over the smallest pivot
                let rows: f64 = (0..n).map(|i| (0..n).map(|j| a.at(&[i, j]).norm_sqr()).sum::<f64>().sqrt()).product();
                let tol = if singular { 100.0 * EPS * big(&a).powi(n as i32) * (n as f64 + 1.0) } else { 100.0 * EPS * cond::<T>() * (n as f64 + 4.0) * want.norm() + 0.0 * rows };
                let e = (got.to() - want).norm();
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                let tol = tol + if EPS > 1e-10 { 1e-36 } else { 0.0 };
                ensure!(e <= tol, "det: {} instead of {want}, error {e:.3e} above {tol:.3e}", got.to());
                by_dev!({} {
                    if !singular {
                        let (sg, la): (T, $Re) = slogdet(&p.view()).into();
                        let z = sg.to() * (la as f64).exp();
                        let e = (z - want).norm();
                        ensure!(e <= tol && (sg.to().norm() - 1.0).abs() < 1e-3, "slogdet: {} {la} instead of {want}", sg.to());
                        p.kept("operand of slogdet")?;
                    }
                });
                Ok(())
            }

            pub fn inv_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let n = size(r).min(40);
                let s = spectrum(r, n, cond::<T>());
                let mut a = stored::<T>(&dense(r, &s, n, n, CX));
                let singular = n > 0 && r.chance(1, 8);
                if singular {
                    let k = r.below(n);
                    for j in 0..n {
                        a.set(&[j, k], zero());
                    }
                }
                let p = Put::<T>::new(r, &a, dv);
                c.d(format!("inv {} {} singular {singular}", stringify!($T), p.s));
                if singular {
                    c.eval();
                    c.hit("matrices that had to be refused");
                    if let Ok(Ok(t)) = attempt(|| inv_f(p.view())) {
                        let m = lift(obs!(t))?;
                        by_dev!({
                            ensure!(!fin(&m) || big(&m) >= 1e-3 / (EPS * big(&a).max(1e-30)), "inv of a matrix with a zero column is an array of moderate size");
                        } {
                            bail!("inv of a matrix with a zero column: {:?}", m.data);
                        });
                    }
                    return p.kept("operand");
                }
                let got = by_dev!({
                    if r.bool() { form!(r, p, |a| inv(a)) } else { obs!(inv(p.own())) }
                } {
                    match r.below(3) {
                        0 => form!(r, p, |a| inv(a)),
                        1 => obs!(inv(p.own())),
                        _ => {
                            let mut q = Put::<T>::new(r, &a, dv);
                            let g = obs!(inv(q.view_mut()));
                            q.rest_kept("around the overwritten operand")?;
                            same("overwritten operand", &obs!(q.view()), &g.clone()?)?;
                            g
                        },
                    }
                });
                p.kept("operand of inv")?;
                let x = lift(got)?;
                ensure!(x.shape == a.shape, "inv: shape {:?}", x.shape);
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                let k = 40.0 * (n as f64 + 4.0) * EPS * cond::<T>();
                small("A inv(A)", &mm(&a, &x), &eye(n), k)?;
                small("inv(A) A", &mm(&x, &a), &eye(n), k)
            }

            pub fn pinv_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n) = (size(r).min(30), size(r).min(30));
                let k = m.min(n);
                if k == 0 {
                    let p = Put::<T>::new(r, &Nd::from_fn(&[m, n], |_| zero()), dv);
                    c.d(format!("pinv {} {} without elements", stringify!($T), p.s));
                    let x = if r.bool() { pinv(&p.view()) } else { pinv((&p.view(), 0.5, 0.0)) };
                    c.eval();
                    c.hit("matrices without elements");
                    ensure!(x.rank == 0, "pinv of an empty matrix: rank {}", x.rank);
                    let x = lift(obs!(x.pinv))?;
                    ensure!(x.shape == [n, m], "pinv of an empty matrix: shape {:?}", x.shape);
                    return Ok(());
                }
                let mut s = spectrum(r, k, cond::<T>().min(100.0));
                s.sort_by(|a, b| b.partial_cmp(a).unwrap());
                let top = s[0];
                let deficient = r.chance(1, 3);
                if deficient {
                    let keep = r.usize(0, k - 1);
                    for x in s.iter_mut().skip(keep) {
                        *x = 0.0;
                    }
                }
                let a = stored::<T>(&dense(r, &s, m, n, CX));
                let p = Put::<T>::new(r, &a, dv);
                let rank = s.iter().filter(|&&x| x > 0.0).count();
                c.d(format!("pinv {} {} rank {rank}", stringify!($T), p.s));
                let (got, rk) = if deficient || r.bool() {
                    // a threshold between the singular values and zero
                    let (at, rtol) = if r.bool() { (top * 1e-3, 0.0) } else { (0.0, 1e-3) };
                    let at = if rank == 0 { 1e-2 * top } else { at };
                    let at = if deficient { at.max(1e-3 * top) } else { at };
                    match r.below(3) {
                        0 => { let x = pinv((&p.view(), at as $Re, rtol as $Re)); (obs!(x.pinv), x.rank) },
                        1 => { let x = pinv((p.view().into_dim::<Ix2>(), at as $Re, rtol as $Re)); (obs!(x.pinv), x.rank) },
                        _ => { let x = pinv((p.own(), at as $Re, rtol as $Re)); (obs!(x.pinv), x.rank) },
                    }
                } else {
                    match r.below(3) {
                        0 => { let x = pinv(&p.view()); (obs!(x.pinv), x.rank) },
                        1 => { let x = pinv(p.view().into_dim::<Ix2>()); (obs!(x.pinv), x.rank) },
                        _ => { let x = pinv(p.own()); (obs!(x.pinv), x.rank) },
                    }
                };
                p.kept("operand of pinv")?;
                let x = lift(got)?;
                ensure!(x.shape == [n, m], "pinv: shape {:?}", x.shape);
                ensure!(rk == rank, "pinv: rank {rk} instead of {rank}");
                c.eval();
                if m * n > 1 {
                    c.nontrivial();
                }
                if rank == 0 {
                    ensure!(big(&x) == 0.0, "pinv of zero is not zero");
                    return Ok(());
                }
                let kk = 100.0 * ((m + n) as f64 + 4.0) * EPS * 100.0;
                let (ax, xa) = (mm(&a, &x), mm(&x, &a));
                small("A pinv A", &mm(&ax, &a), &a, kk * big(&a))?;
                small("pinv A pinv", &mm(&xa, &x), &x, kk * big(&x))?;
                small("A pinv is self-adjoint", &ax, &adj(&ax), kk)?;
                small("pinv A is self-adjoint", &xa, &adj(&xa), kk)
            }

            /// Right-hand sides: a vector or a matrix.
            fn rhs(r: &mut Rng, n: usize) -> (M, bool) {
                let v = r.chance(1, 3);
                let m = if v { 1 } else { r.usize(if n == 0 { 1 } else { 0 }, 6) };
                let b = stored::<T>(&random(r, n, m, CX));
                (b, v)
            }
            /// Stored right-hand side in the shape that is passed.
            fn put_rhs(r: &mut Rng, b: &M, v: bool, dv: &'static B) -> Put<T> {
                let b = if v { b.reshape(&[b.shape[0]], false) } else { b.clone() };
                Put::new(r, &b, dv)
            }
            fn check_rhs(what: &str, a: &M, x: Result<Nd<T>, String>, b: &M, v: bool) -> R {
                let n = a.shape[0];
                let mut x = lift(x)?;
                ensure!(x.shape == if v { vec![n] } else { b.shape.clone() }, "{what}: shape {:?}", x.shape);
                x.shape = b.shape.clone();
                let tol = 40.0 * (n as f64 + 4.0) * EPS * (big(a) * big(&x) * n as f64 + big(b));
                small(what, &mm(a, &x), b, tol)
            }

            macro_rules! solve_forms {
                ($c:expr, $r:expr, $a:expr, $b:expr, $v:expr, $dv:expr, $pa:expr, $what:expr, |$x:ident, $y:ident| $call:expr) => {{
                    let mut pb = put_rhs($r, &$b, $v, $dv);
                    let form = $r.below(5);
                    let got = match form {
                        0 => { let (va, vb) = ($pa.view(), pb.view()); let ($x, $y) = (&va, &vb); obs!($call) },
                        1 => { let ($x, $y) = ($pa.view(), pb.view()); obs!($call) },
                        2 => { let (va, $y) = ($pa.view(), pb.own()); let $x = &va; obs!($call) },
                        3 => { let ($x, vb) = ($pa.own(), pb.view()); let $y = &vb; obs!($call) },
                        _ => {
                            let g = { let ($x, $y) = ($pa.view(), pb.view_mut()); obs!($call) };
                            pb.rest_kept("around the right-hand side")?;
                            same("right-hand side holds the solution", &obs!(pb.view()), &g.clone()?)?;
                            g
                        },
                    };
                    $pa.kept("matrix")?;
                    if form != 4 {
                        pb.kept("right-hand side")?;
                    }
                    $c.eval();
                    if $a.shape[0] > 1 && $b.size() > 1 {
                        $c.nontrivial();
                    }
                    check_rhs($what, &$a, got, &$b, $v)
                }};
            }

            pub fn solve_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let n = size(r).min(40);
                let s = spectrum(r, n, cond::<T>());
                let mut a = stored::<T>(&dense(r, &s, n, n, CX));
                let (b, v) = rhs(r, n);
                let singular = n > 0 && b.size() > 0 && r.chance(1, 10);
                if singular {
                    let k = r.below(n);
                    for j in 0..n {
                        a.set(&[j, k], zero());
                    }
                }
                let pa = Put::<T>::new(r, &a, dv);
                c.d(format!("solve_general {} {} rhs {:?} vector {v} singular {singular}", stringify!($T), pa.s, b.shape));
                if singular {
                    c.eval();
                    c.hit("matrices that had to be refused");
                    let pb = put_rhs(r, &b, v, dv);
                    if let Ok(Ok(t)) = attempt(|| solve_general_f((pa.view(), pb.view()))) {
                        let m = lift(obs!(t))?;
                        by_dev!({
                            ensure!(!fin(&m) || big(&m) >= 1e-4 * big(&b) / (EPS * big(&a).max(1e-30)), "solution of a system with a zero column is an array of moderate size");
                        } {
                            bail!("solution of a system with a zero column: {:?}", m.data);
                        });
                    }
                    return pa.kept("operand");
                }
                solve_forms!(c, r, a, b, v, dv, pa, "A times the solution", |x, y| solve_general((x, y)))
            }

            pub fn tri_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r).min(40);
                let (ul, up) = uplo(r, colm);
                let a = stored::<T>(&Nd::from_fn(&[n, n], |i| {
                    if i[0] == i[1] {
                        rnd(r, CX) + re(if r.bool() { 3.0 } else { -3.0 })
                    } else if up == (i[0] < i[1]) {
                        rnd(r, CX) * 2.0 / (n as f64)
                    } else {
                        zero()
                    }
                }));
                let (b, v) = rhs(r, n);
                let pa = Put::<T>::new(r, &half::<T>(&a, up), dv);
                c.d(format!("solve_triangular {} {ul:?} {} rhs {:?} vector {v} colm {colm}", stringify!($T), pa.s, b.shape));
                let what = "triangle times the solution";
                match ul {
                    None if r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_triangular((x, y))),
                    Some(u) if r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_triangular((x, y, u))),
                    _ => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_triangular((x, y, ul))),
                }
            }

            pub fn sym_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                by_dev!({ c.d("not offered"); let _ = (r, dv); Ok(()) } {
                    let colm = dv.default_order() == FlagOrder::F;
                    let n = size(r).min(40);
                    let (ul, up) = uplo(r, colm);
                    let hermi = r.bool();
                    let a = if hermi {
                        let mut s = spectrum(r, n, cond::<T>());
                        s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                        herm(r, &s, CX)
                    } else {
                        // complex symmetric: U diag U^T
                        let s = spectrum(r, n, cond::<T>());
                        let u = unitary(r, n, CX);
                        let d = diag(&s.iter().map(|&x| if r.bool() { -x } else { x }).collect::<Vec<_>>());
                        let a = mm(&mm(&u, &d), &tr(&u));
                        Nd::from_fn(&a.shape, |i| if i[0] >= i[1] { *a.at(i) } else { *a.at(&[i[1], i[0]]) })
                    };
                    let a = stored::<T>(&a);
                    let (b, v) = rhs(r, n);
                    let pa = Put::<T>::new(r, &half::<T>(&a, up), dv);
                    c.d(format!("solve_symmetric {} {ul:?} hermitian {hermi} {} rhs {:?} vector {v} colm {colm}", stringify!($T), pa.s, b.shape));
                    let what = "symmetric matrix times the solution";
                    match ul {
                        None if hermi && r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_symmetric((x, y))),
                        Some(u) if hermi && r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_symmetric((x, y, u))),
                        Some(u) if r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_symmetric((x, y, hermi, u))),
                        None if r.bool() => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_symmetric((x, y, hermi))),
                        _ => solve_forms!(c, r, a, b, v, dv, pa, what, |x, y| solve_symmetric((x, y, hermi, ul))),
                    }
                })
            }

            fn reals(w: &Result<Nd<$Re>, String>) -> Result<Vec<f64>, Fail> {
                let w = w.clone()?;
                ensure!(w.shape.len() == 1, "eigen- or singular values of shape {:?}", w.shape);
                Ok(w.data.iter().map(|&x| x as f64).collect())
            }
            fn rising(what: &str, w: &[f64]) -> R {
                for k in 1..w.len() {
                    ensure!(w[k - 1] <= w[k], "{what}: not in ascending order: {w:?}");
                }
                Ok(())
            }

            pub fn eigh_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r).min(40);
                // the kernel of this backend has no empty case
                let n = by_dev!({ n.max(1) } { n });
                let (ul, up) = uplo(r, colm);
                let mut s = spectrum(r, n, cond::<T>());
                s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                let a = stored::<T>(&herm(r, &s, CX));
                let p = Put::<T>::new(r, &half::<T>(&a, up), dv);
                c.d(format!("eigh {} {ul:?} {} colm {colm}", stringify!($T), p.s));
                macro_rules! vals {
                    ($x:expr) => {{ let x = $x; (obs!(x.eigenvalues), obs!(x.eigenvectors)) }};
                    (args $x:expr) => {{ let x = $x; (obs!(x.eigenvalues), obs!(x.eigenvectors.into_owned())) }};
                }
                let (w, v) = match (r.below(5), ul) {
                    (0, _) => vals!(eigh((&p.view(), Some(if up { FlagUpLo::U } else { FlagUpLo::L }).unwrap()))),
                    (1, None) => vals!(eigh(&p.view())),
                    (2, None) => vals!(eigh(p.view().into_dim::<Ix2>())),
                    (3, Some(u)) => vals!(eigh((p.own(), u))),
                    (4, _) => by_dev!({ vals!(eigh((p.own(), ul))) } {
                        let d = *r.pick(&["ev", "evd"]);
                        vals!(args eigh(EighArgs::default().a(p.view().into_dim::<Ix2>()).uplo(ul).driver(d)))
                    }),
                    (_, Some(u)) => by_dev!({ vals!(eigh((p.view(), u))) } {
                        if r.bool() { vals!(eigh((p.view(), u))) } else {
                            let mut q = Put::<T>::new(r, &half::<T>(&a, up), dv);
                            let g = vals!(eigh((q.view_mut(), u)));
                            q.rest_kept("around the overwritten operand")?;
                            g
                        }
                    }),
                    (_, None) => vals!(eigh(p.own())),
                };
                p.kept("operand of eigh")?;
                let (w, v) = (reals(&w)?, lift(v)?);
                ensure!(w.len() == n && v.shape == a.shape, "eigh: shapes {} {:?}", w.len(), v.shape);
                rising("eigenvalues", &w)?;
                let k = 40.0 * (n as f64 + 4.0) * EPS;
                small("A V against V w", &mm(&a, &v), &mm(&v, &diag(&w)), k * (s.iter().fold(0.0f64, |x, y| x.max(y.abs()))))?;
                small("eigenvectors are orthonormal", &mm(&adj(&v), &v), &eye(n), k)?;
                by_dev!({} {
                    // a request for some of the eigenvalues: those (the end included or not), or an error
                    if n > 2 && r.chance(1, 10) {
                        let lo = r.below(n - 1);
                        let hi = r.usize(lo, n - 2);
                        c.hit("requests for some eigenvalues");
                        c.eval();
                        let args = EighArgs::default().a(p.view().into_dim::<Ix2>()).uplo(ul).subset_by_index((lo, hi));
                        if let Ok(Ok(x)) = attempt(|| eigh_f(args)) {
                            let part = reals(&obs!(x.eigenvalues))?;
                            if part.len() == n {
                                return fail("eigh-subset-ignored", format!("eigenvalues {lo} to {hi} requested of {n}: all returned"));
                            }
                            ensure!(part.len() == hi - lo || part.len() == hi - lo + 1, "eigenvalues {lo} to {hi} requested: {} returned", part.len());
                            let top = s.iter().fold(0.0f64, |x, y| x.max(y.abs()));
                            ensure!(part.iter().zip(&w[lo..]).all(|(x, y)| (x - y).abs() <= k * top), "eigenvalues {lo} to {hi} requested: {part:?} of {w:?}");
                        }
                    }
                });
                let wv = match (r.below(4), ul) {
                    (0, None) => obs!(eigvalsh(&p.view())),
                    (1, None) => obs!(eigvalsh(p.own())),
                    (2, Some(u)) => obs!(eigvalsh((p.view(), u))),
                    (_, Some(u)) => obs!(eigvalsh((&p.view(), u))),
                    (_, None) => obs!(eigvalsh(p.view().into_dim::<Ix2>())),
                };
                p.kept("operand of eigvalsh")?;
                let wv = reals(&wv)?;
                ensure!(wv.len() == n, "eigvalsh: {} values", wv.len());
                rising("eigenvalues", &wv)?;
                for k in 0..n {
                    let tol = 40.0 * (n as f64 + 4.0) * EPS * s.iter().fold(0.0f64, |x, y| x.max(y.abs()));
                    ensure!((w[k] - wv[k]).abs() <= tol, "eigvalsh: value {k} is {} instead of {}", wv[k], w[k]);
                }
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                Ok(())
            }

            pub fn geigh_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r).min(30);
                // the kernel of this backend has no empty case
                let n = by_dev!({ n.max(1) } { n });
                let (ul, up) = uplo(r, colm);
                let mut s = spectrum(r, n, 20.0);
                s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                let a = stored::<T>(&herm(r, &s, CX));
                let sb = spectrum(r, n, 20.0);
                let mut b = stored::<T>(&herm(r, &sb, CX));
                let bad = n > 0 && r.chance(1, 12);
                if bad {
                    let k = r.below(n);
                    b.set(&[k, k], re(-big(&b)));
                }
                let (pa, pb) = (Put::<T>::new(r, &half::<T>(&a, up), dv), Put::<T>::new(r, &half::<T>(&b, up), dv));
                let ty = r.usize(1, 3) as i32;
                let u = if up { FlagUpLo::U } else { FlagUpLo::L };
                c.d(format!("eigh {} {ul:?} {} {} colm {colm} type {ty} definite {}", stringify!($T), pa.s, pb.s, !bad));
                if bad {
                    c.eval();
                    c.hit("matrices that had to be refused");
                    let res = attempt(|| eigh_f((pa.view(), pb.view(), u, ty)));
                    refused("eigh with a second matrix that is not definite", res.map(|x| x.map(|_| ())))?;
                    pb.kept("second operand")?;
                    return pa.kept("operand");
                }
                macro_rules! vals {
                    ($x:expr) => {{ let x = $x; (obs!(x.eigenvalues), obs!(x.eigenvectors)) }};
                    (args $x:expr) => {{ let x = $x; (obs!(x.eigenvalues), obs!(x.eigenvectors.into_owned())) }};
                }
                let (w, v) = match r.below(5) {
                    0 => vals!(eigh((&pa.view(), &pb.view(), u, ty))),
                    1 if ty == 1 => vals!(eigh((pa.view().into_dim::<Ix2>(), pb.view().into_dim::<Ix2>(), u))),
                    2 if ty == 1 && ul.is_none() => vals!(eigh((pa.view(), &pb.view()))),
                    3 => by_dev!({ vals!(eigh((pa.view(), &pb.view(), u, ty))) } {
                        let d = *r.pick(&["gv", "gvd"]);
                        vals!(args eigh(EighArgs::default().a(pa.view().into_dim::<Ix2>()).b(pb.view().into_dim::<Ix2>()).uplo(ul).eig_type(ty).driver(d)))
                    }),
                    _ => vals!(eigh((pa.view(), pb.view(), u, ty))),
                };
                pa.kept("operand of eigh")?;
                pb.kept("second operand of eigh")?;
                let (w, v) = (reals(&w)?, lift(v)?);
                ensure!(w.len() == n && v.shape == a.shape, "eigh: shapes {} {:?}", w.len(), v.shape);
                rising("eigenvalues", &w)?;
                let (wa, wb) = (s.iter().fold(0.0f64, |x, y| x.max(y.abs())), sb.iter().fold(0.0f64, |x, y| x.max(*y)));
                let lv = big(&v).max(1e-30);
                let lw = w.iter().fold(0.0f64, |x, y| x.max(y.abs()));
                let k = 100.0 * (n as f64 + 4.0) * EPS * 20.0;
                let vw = mm(&v, &diag(&w));
                match ty {
                    1 => small("A V against B V w", &mm(&a, &v), &mm(&b, &vw), k * lv * (wa + wb * lw))?,
                    2 => small("A B V against V w", &mm(&a, &mm(&b, &v)), &vw, k * lv * (wa * wb + lw))?,
                    _ => small("B A V against V w", &mm(&b, &mm(&a, &v)), &vw, k * lv * (wa * wb + lw))?,
                }
                if ty == 3 {
                    small("V V' against B", &mm(&v, &adj(&v)), &b, k * wb)?;
                } else {
                    small("V' B V", &mm(&adj(&v), &mm(&b, &v)), &eye(n), k * 20.0)?;
                }
                by_dev!({} {
                    let wv = reals(&obs!(eigvalsh((&pa.view(), &pb.view(), u, ty))))?;
                    ensure!(wv.len() == n, "eigvalsh: {} values", wv.len());
                    for j in 0..n {
                        ensure!((w[j] - wv[j]).abs() <= k * lw, "eigvalsh: value {j} is {} instead of {}", wv[j], w[j]);
                    }
                });
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                Ok(())
            }

            pub fn svd_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n) = (size(r).min(35), size(r).min(35));
                let k = m.min(n);
                let mut s = spectrum(r, k, cond::<T>());
                if r.chance(1, 6) && k > 0 {
                    let z = r.below(k);
                    s[z] = 0.0;
                }
                let a = stored::<T>(&dense(r, &s, m, n, CX));
                let p = Put::<T>::new(r, &a, dv);
                let full = r.bool();
                c.d(format!("svd {} {} full {full}", stringify!($T), p.s));
                macro_rules! vals {
                    ($x:expr) => {{ let x = $x; (obs!(x.u), obs!(x.s), obs!(x.vt)) }};
                }
                let (u, sv, vt) = match r.below(6) {
                    0 if full => vals!(svd(&p.view())),
                    1 if full => vals!(svd(p.view().into_dim::<Ix2>())),
                    2 => vals!(svd((p.view(), full))),
                    3 => vals!(svd((p.own(), full))),
                    4 => by_dev!({ vals!(svd((&p.view(), full))) } {
                        let d = *r.pick(&["gesvd", "gesdd"]);
                        vals!(svd(SVDArgs::default().a(p.view().into_dim::<Ix2>()).full_matrices(full).driver(d)))
                    }),
                    _ => vals!(svd((&p.view(), full))),
                };
                p.kept("operand of svd")?;
                let (u, sv, vt) = (lift(u)?, reals(&sv)?, lift(vt)?);
                let (uc, vr) = if full { (m, n) } else { (k, k) };
                ensure!(u.shape == [m, uc] && sv.len() == k && vt.shape == [vr, n], "svd: shapes {:?} {} {:?}", u.shape, sv.len(), vt.shape);
                let top = s.iter().fold(0.0f64, |x, y| x.max(*y));
                for j in 0..k {
                    ensure!(sv[j] >= 0.0 && (j == 0 || sv[j - 1] >= sv[j]), "svd: singular values {sv:?} not in descending order");
                }
                let d = Nd::from_fn(&[uc, vr], |i| if i[0] == i[1] { re(sv[i[0]]) } else { zero() });
                let t = 40.0 * ((m + n) as f64 + 4.0) * EPS;
                small("U S V'", &mm(&mm(&u, &d), &vt), &a, t * top)?;
                small("left singular vectors are orthonormal", &mm(&adj(&u), &u), &eye(uc), t)?;
                small("right singular vectors are orthonormal", &mm(&vt, &adj(&vt)), &eye(vr), t)?;
                let sw = match r.below(3) {
                    0 => obs!(svdvals(&p.view())),
                    1 => obs!(svdvals(p.own())),
                    _ => obs!(svdvals(p.view().into_dim::<Ix2>())),
                };
                p.kept("operand of svdvals")?;
                let sw = reals(&sw)?;
                ensure!(sw.len() == k, "svdvals: {} values", sw.len());
                for j in 0..k {
                    ensure!((sv[j] - sw[j]).abs() <= t * top, "svdvals: value {j} is {} instead of {}", sw[j], sv[j]);
                }
                c.eval();
                if k > 1 {
                    c.nontrivial();
                }
                Ok(())
            }
        }
    };
}
typed!(f4, f32, f32);
typed!(f8, f64, f64);
typed!(c4, C32, f32);
typed!(c8, C64, f64);

macro_rules! entry {
    ($($f:ident),*) => {$(
        pub fn $f(c: &mut Case) -> R {
            let mut rng = c.rng.clone();
            let r = &mut rng;
            let colm = r.bool();
            let dv = dev(r, colm);
            match r.below(4) {
                0 => f4::$f(c, r, dv),
                1 => f8::$f(c, r, dv),
                2 => c4::$f(c, r, dv),
                _ => c8::$f(c, r, dv),
            }
        }
    )*};
}
entry!(cholesky_case, det_case, inv_case, pinv_case, solve_case, tri_case, sym_case, eigh_case, geigh_case, svd_case);
