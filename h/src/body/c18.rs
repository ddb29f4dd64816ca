
fn ix2<T: E>(p: &Put<T>) -> TensorView<'_, T, B, Ix2> {
    p.view().into_dim::<Ix2>()
}
fn ix2m<T: E>(p: &mut Put<T>) -> TensorMut<'_, T, B, Ix2> {
    p.view_mut().into_dim::<Ix2>()
}
fn op(a: &M, t: FlagTrans) -> M {
    match t {
        FlagTrans::N => a.clone(),
        FlagTrans::T => tr(a),
        _ => adj(a),
    }
}
fn trans(r: &mut Rng) -> FlagTrans {
    *r.pick(&[FlagTrans::N, FlagTrans::T, FlagTrans::C])
}
fn order(r: &mut Rng) -> Option<FlagOrder> {
    *r.pick(&[None, None, Some(FlagOrder::C), Some(FlagOrder::F)])
}
fn scal(r: &mut Rng, cx: bool) -> C64 {
    match r.below(5) {
        0 => zero(),
        1 => re(1.0),
        2 => re(-1.0),
        _ => C64::new((r.f(-2.0, 2.0) * 8.0).round() / 8.0, if cx { (r.f(-2.0, 2.0) * 8.0).round() / 8.0 } else { 0.0 }),
    }
}
fn axpby(a: C64, x: &M, b: C64, y: Option<&M>) -> M {
    Nd::from_fn(&x.shape, |i| {
        let z = if a == zero() { zero() } else { a * *x.at(i) };
        match y {
            Some(y) if b != zero() => z + b * *y.at(i),
            _ => z,
        }
    })
}
fn uplo_flag(up: bool) -> FlagUpLo {
    if up {
        FlagUpLo::U
    } else {
        FlagUpLo::L
    }
}
fn ints(t: Result<Nd<blas_int>, String>) -> Result<Vec<usize>, Fail> {
    let t = t?;
    ensure!(t.shape.len() == 1 && t.data.iter().all(|&x| x >= 0), "pivots {t:?}");
    Ok(t.data.iter().map(|&x| x as usize).collect())
}
fn reals<F: Into<f64> + Copy>(w: Result<Nd<F>, String>) -> Result<Vec<f64>, Fail> {
    let w = w?;
    ensure!(w.shape.len() == 1, "values of shape {:?}", w.shape);
    Ok(w.data.iter().map(|&x| x.into()).collect())
}
/// The elements outside the triangle are those given.
fn other_kept<T: E>(what: &str, now: &Nd<T>, before: &M, up: bool) -> R {
    for i in 0..now.shape[0] {
        for j in 0..now.shape[1] {
            if (up && i > j) || (!up && i < j) {
                let (x, y) = (now.at(&[i, j]).to(), T::of(*before.at(&[i, j])).to());
                ensure!(x == y || (x.re.is_nan() && y.re.is_nan()), "{what}: element ({i}, {j}) outside the triangle became {x}");
            }
        }
    }
    Ok(())
}

macro_rules! typed {
    ($m:ident, $T:ty, $Re:ty) => {
        mod $m {
            use super::*;
            type T = $T;
            const EPS: f64 = <$T as E>::EPS;
            const CX: bool = <$T as E>::CX;
            fn t(z: C64) -> T {
                T::of(z)
            }
            fn rand(r: &mut Rng, m: usize, n: usize) -> M {
                stored::<T>(&random(r, m, n, CX))
            }
            /// Runs a routine whose operand is passed as read-only or to be overwritten: `$call` gets the operand
            /// and returns (tensors of the result..., overwritten tensor); the latter is observed and compared.
            macro_rules! over {
                ($r:expr, $p:ident, $ov:ident, |$a:ident| $call:expr, |$o:ident| $obs:expr) => {{
                    $ov = $r.bool();
                    if $ov {
                        let got = {
                            let $a = TensorReference::from(ix2m(&mut $p));
                            let $o = $call;
                            $obs
                        };
                        $p.rest_kept("around the overwritten operand")?;
                        got
                    } else {
                        let got = {
                            let $a = TensorReference::from(ix2(&$p));
                            let $o = $call;
                            $obs
                        };
                        $p.kept("operand passed by reference")?;
                        got
                    }
                }};
            }

            pub fn gemm_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n, k) = (size(r), size(r), size(r));
                let (ta, tb) = (trans(r), trans(r));
                let sh = |t: FlagTrans, x: usize, y: usize| if t == FlagTrans::N { (x, y) } else { (y, x) };
                let (am, an) = sh(ta, m, k);
                let (bm, bn) = sh(tb, k, n);
                let (a, b) = (rand(r, am, an), rand(r, bm, bn));
                let (al, be) = (scal(r, CX), scal(r, CX));
                let (pa, pb) = (Put::<T>::new(r, &a, dv), Put::<T>::new(r, &b, dv));
                let od = order(r);
                let prod = mm(&op(&a, ta), &op(&b, tb));
                let mut q = GEMM::default().a(ix2(&pa)).b(ix2(&pb)).alpha(t(al)).transa(ta).transb(tb);
                if let Some(o) = od {
                    q = q.order(o);
                }
                let given = r.chance(2, 3);
                c.d(format!("gemm {} {ta:?}{tb:?} {al} {be} {} {} order {od:?} out {given} colm {:?}", stringify!($T), pa.s, pb.s, dv.default_order()));
                let (got, cc) = if given {
                    let cc = rand(r, m, n);
                    // what is scaled by zero is not read
                    let stored_c = if be == zero() { cc.map(|_| nan::<T>()) } else { cc.clone() };
                    let mut pc = Put::<T>::new(r, &stored_c, dv);
                    c.d(format!("{}", pc.s));
                    let g = {
                        let x = q.c(ix2m(&mut pc)).beta(t(be)).build()?.run()?;
                        obs!(x.view())
                    };
                    pc.rest_kept("around the output")?;
                    let g = lift(g)?;
                    same("output memory", &obs!(pc.view()), &g.map(|z| t(*z)))?;
                    (g, Some(cc))
                } else {
                    let x = q.build()?.run()?;
                    (lift(obs!(x.view()))?, None)
                };
                pa.kept("first operand")?;
                pb.kept("second operand")?;
                c.eval();
                if m * n * k > 1 {
                    c.nontrivial();
                }
                let want = axpby(al, &prod, be, cc.as_ref());
                small("product", &got, &want, 40.0 * (k as f64 + 4.0) * EPS * (al.norm() * 2.0 + be.norm() + 1.0))
            }

            pub fn symm_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n) = (size(r), size(r));
                let (left, up, hermi) = (r.bool(), r.bool(), CX && r.bool());
                let k = if left { m } else { n };
                let a = rand(r, k, k);
                let a = Nd::from_fn(&[k, k], |i| {
                    let (x, y) = (*a.at(i), *a.at(&[i[1], i[0]]));
                    match (i[0] == i[1], hermi) {
                        (true, true) => re(x.re),
                        (true, false) => x,
                        _ if i[0] < i[1] => x,
                        (_, true) => y.conj(),
                        _ => y,
                    }
                });
                let b = rand(r, m, n);
                let (al, be) = (scal(r, CX), scal(r, CX));
                let (pa, pb) = (Put::<T>::new(r, &half::<T>(&a, up), dv), Put::<T>::new(r, &b, dv));
                let od = order(r);
                let given = r.chance(2, 3);
                c.d(format!("symm {} left {left} upper {up} hermitian {hermi} {al} {be} {} {} order {od:?} out {given} colm {:?}", stringify!($T), pa.s, pb.s, dv.default_order()));
                let cc = rand(r, m, n);
                let stored_c = if be == zero() { cc.map(|_| nan::<T>()) } else { cc.clone() };
                let mut pc = Put::<T>::new(r, &stored_c, dv);
                let dflt = left && !up && r.bool();
                macro_rules! go {
                    ($H:expr) => {{
                        let mut q = SYHEMM::<B, T, $H>::default().a(ix2(&pa)).b(ix2(&pb)).alpha(t(al));
                        if !dflt {
                            q = q.side(if left { FlagSide::L } else { FlagSide::R }).uplo(uplo_flag(up));
                        }
                        if let Some(o) = od {
                            q = q.order(o);
                        }
                        if given {
                            let x = q.c(ix2m(&mut pc)).beta(t(be)).build()?.run()?;
                            obs!(x.view())
                        } else {
                            let x = q.build()?.run()?;
                            obs!(x.view())
                        }
                    }};
                }
                let got = if hermi { go!(true) } else { go!(false) };
                let got = lift(got)?;
                if given {
                    c.d(format!("{}", pc.s));
                    pc.rest_kept("around the output")?;
                    same("output memory", &obs!(pc.view()), &got.map(|z| t(*z)))?;
                }
                pa.kept("symmetric operand")?;
                pb.kept("second operand")?;
                c.eval();
                if m * n > 1 {
                    c.nontrivial();
                }
                let prod = if left { mm(&a, &b) } else { mm(&b, &a) };
                let want = axpby(al, &prod, be, if given { Some(&cc) } else { None });
                small("product", &got, &want, 40.0 * (k as f64 + 4.0) * EPS * (al.norm() * 2.0 + be.norm() + 1.0))
            }

            pub fn trsm_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let (m, n) = (size(r).min(40), size(r));
                let (ul, up) = uplo(r, colm);
                let (left, unit, ta) = (r.bool(), r.bool(), trans(r));
                let (bm, bn) = if left { (m, n) } else { (n, m) };
                let a = stored::<T>(&Nd::from_fn(&[m, m], |i| {
                    if i[0] == i[1] {
                        if unit { re(1.0) } else { rnd(r, CX) + re(if r.bool() { 3.0 } else { -3.0 }) }
                    } else if up == (i[0] < i[1]) {
                        rnd(r, CX) / (m as f64)
                    } else {
                        zero()
                    }
                }));
                // neither the other triangle nor a diagonal of ones is read
                let mut sa = half::<T>(&a, up);
                if unit {
                    (0..m).for_each(|i| sa.set(&[i, i], nan::<T>()));
                }
                let b = rand(r, bm, bn);
                let al = scal(r, CX);
                let (pa, mut pb) = (Put::<T>::new(r, &sa, dv), Put::<T>::new(r, &b, dv));
                let od = order(r);
                c.d(format!("trsm {} {ul:?} left {left} unit {unit} {ta:?} {al} {} {} order {od:?} colm {colm}", stringify!($T), pa.s, pb.s));
                let ov;
                let got = over!(r, pb, ov, |x| {
                    let mut q = TRSM::default().a(ix2(&pa)).b(x).alpha(t(al)).transa(ta);
                    if !left || r.bool() {
                        q = q.side(if left { FlagSide::L } else { FlagSide::R });
                    }
                    if unit || r.bool() {
                        q = q.diag(if unit { FlagDiag::U } else { FlagDiag::N });
                    }
                    if let Some(u) = ul {
                        q = q.uplo(u);
                    }
                    if let Some(o) = od {
                        q = q.order(o);
                    }
                    q.build()?.run()?
                }, |x| obs!(x.view()));
                let x = lift(got)?;
                if ov {
                    same("overwritten right-hand side", &obs!(pb.view()), &x.map(|z| t(*z)))?;
                }
                pa.kept("triangle")?;
                c.eval();
                if m * n > 1 {
                    c.nontrivial();
                }
                let oa = op(&a, ta);
                let lhs = if left { mm(&oa, &x) } else { mm(&x, &oa) };
                let want = axpby(al, &b, zero(), None);
                small("triangle times solution", &lhs, &want, 40.0 * (m as f64 + 4.0) * EPS * (m as f64 * big(&x) * big(&a) + al.norm() + 1.0))
            }

            pub fn potrf_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r);
                let (ul, up) = uplo(r, colm);
                let s = spectrum(r, n, cond::<T>());
                let mut a = stored::<T>(&herm(r, &s, CX));
                let bad = n > 0 && r.chance(1, 8);
                if bad {
                    let k = r.below(n);
                    a.set(&[k, k], re(-r.f(0.1, 2.0) * big(&a)));
                }
                let sa = half::<T>(&a, up);
                let mut p = Put::<T>::new(r, &sa, dv);
                c.d(format!("potrf {} {ul:?} {} colm {colm} definite {}", stringify!($T), p.s, !bad));
                if bad {
                    c.eval();
                    c.hit("matrices that had to be refused");
                    let res = attempt(|| POTRF::default().a(ix2(&p)).uplo(ul).build()?.run().map(|x| obs!(x.view())));
                    refused("factorization of a matrix that is not definite", res)?;
                    return p.kept("operand");
                }
                let ov;
                let got = over!(r, p, ov, |x| POTRF::default().a(x).uplo(ul).build()?.run()?, |x| {
                    let y = x.clone_to_mut();
                    obs!(y.view())
                });
                let g = got?;
                if ov {
                    other_kept("potrf", &obs!(p.view())?, &sa, up)?;
                    let w = obs!(p.view())?;
                    small("overwritten triangle", &keep(&w.map(|x| x.to()), up), &keep(&g.map(|x| x.to()), up), 0.0)?;
                }
                other_kept("potrf", &g, &sa, up)?;
                let l = keep(&g.map(|x| x.to()), up);
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                let b = if up { mm(&adj(&l), &l) } else { mm(&l, &adj(&l)) };
                small("factor times its adjoint", &b, &a, 40.0 * (n as f64 + 4.0) * EPS * big(&a))
            }
            /// Zero outside the triangle.
            fn keep(m: &M, up: bool) -> M {
                Nd::from_fn(&m.shape, |i| if (up && i[0] > i[1]) || (!up && i[0] < i[1]) { zero() } else { *m.at(i) })
            }

            pub fn getrf_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n) = if r.bool() { let n = size(r); (n, n) } else { (size(r), size(r)) };
                let s = spectrum(r, m.min(n), cond::<T>());
                let a = stored::<T>(&dense(r, &s, m, n, CX));
                let mut p = Put::<T>::new(r, &a, dv);
                c.d(format!("getrf {} {} colm {:?}", stringify!($T), p.s, dv.default_order()));
                let ov;
                let (g, piv) = over!(r, p, ov, |x| GETRF::default().a(x).build()?.run()?, |x| (obs!(x.0.view()), obs!(x.1)));
                let lu = lift(g)?;
                if ov {
                    same("overwritten matrix", &obs!(p.view()), &lu.map(|z| t(*z)))?;
                }
                let piv = ints(piv)?;
                let k = m.min(n);
                ensure!(piv.len() == k && lu.shape == [m, n], "getrf: {} pivots, shape {:?}", piv.len(), lu.shape);
                let l = Nd::from_fn(&[m, k], |i| if i[0] == i[1] { re(1.0) } else if i[0] > i[1] { *lu.at(i) } else { zero() });
                let u = Nd::from_fn(&[k, n], |i| if i[0] <= i[1] { *lu.at(i) } else { zero() });
                let mut w = mm(&l, &u);
                for i in (0..k).rev() {
                    ensure!(piv[i] >= i && piv[i] < m, "getrf: pivot {i} is {}", piv[i]);
                    for j in 0..n {
                        let (x, y) = (*w.at(&[i, j]), *w.at(&[piv[i], j]));
                        w.set(&[i, j], y);
                        w.set(&[piv[i], j], x);
                    }
                }
                c.eval();
                if k > 1 {
                    c.nontrivial();
                }
                small("P L U", &w, &a, 40.0 * (k as f64 + 4.0) * EPS * (k as f64 + 1.0) * big(&a) * 4.0)?;
                for z in &l.data {
                    ensure!(z.norm() <= 1.5, "getrf: multiplier {z} without pivoting");
                }
                if m != n {
                    return Ok(());
                }
                // inverse from the factors
                let mut pf = Put::<T>::new(r, &lu, dv);
                let st = *r.pick(&[1isize, 2, -1]);
                let len = (n.max(1) - 1) * st.unsigned_abs() + 1;
                let off = if st < 0 { len - 1 } else { 0 };
                let mut pi = vec![blas_int::MAX; len];
                for i in 0..n {
                    pi[(off as isize + st * i as isize) as usize] = piv[i] as blas_int;
                }
                let pi0 = pi.clone();
                let pl = Layout::new([n], [st], off).unwrap();
                let ov;
                let got = over!(r, pf, ov, |x| GETRI::default().a(x).ipiv(rt::asarray((&pi, pl.clone(), dv)).into_dim::<Ix1>()).build()?.run()?, |x| obs!(x.view()));
                let x = lift(got)?;
                if ov {
                    same("overwritten factors", &obs!(pf.view()), &x.map(|z| t(*z)))?;
                }
                ensure!(pi == pi0, "getri: the pivots changed");
                c.hit("inverses from factors");
                small("A inv(A)", &mm(&a, &x), &eye(n), 40.0 * (n as f64 + 4.0) * EPS * cond::<T>())
            }

            fn check_x(what: &str, a: &M, x: &M, b: &M) -> R {
                let n = a.shape[0];
                ensure!(x.shape == b.shape, "{what}: shape {:?}", x.shape);
                small(what, &mm(a, x), b, 40.0 * (n as f64 + 4.0) * EPS * (big(a) * big(x) * n as f64 + big(b)))
            }

            pub fn gesv_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (n, k) = (size(r).min(40), size(r).min(12));
                let s = spectrum(r, n, cond::<T>());
                let a = stored::<T>(&dense(r, &s, n, n, CX));
                let b = rand(r, n, k);
                let (mut pa, mut pb) = (Put::<T>::new(r, &a, dv), Put::<T>::new(r, &b, dv));
                c.d(format!("gesv {} {} {} colm {:?}", stringify!($T), pa.s, pb.s, dv.default_order()));
                let (oa, ob);
                let (lu, piv, x) = over!(r, pa, oa, |x| {
                    over!(r, pb, ob, |y| GESV::default().a(x).b(y).build()?.run()?, |z| (obs!(z.0.view()), obs!(z.1), obs!(z.2.view())))
                }, |z| z);
                let (lu, x) = (lift(lu)?, lift(x)?);
                if oa {
                    same("overwritten matrix", &obs!(pa.view()), &lu.map(|z| t(*z)))?;
                }
                if ob {
                    same("overwritten right-hand side", &obs!(pb.view()), &x.map(|z| t(*z)))?;
                }
                // without right-hand sides OpenBLAS returns before it factorizes
                if k == 0 {
                    ensure!(x.shape == b.shape, "gesv: shape {:?}", x.shape);
                    c.eval();
                    return Ok(());
                }
                let piv = ints(piv)?;
                ensure!(piv.len() == n && (0..n).all(|i| piv[i] >= i && piv[i] < n), "gesv: pivots {piv:?}");
                c.eval();
                if n * k > 1 {
                    c.nontrivial();
                }
                check_x("A times the solution", &a, &x, &b)
            }

            pub fn sysv_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let (n, k) = (size(r).min(40), size(r).min(12));
                let (ul, up) = uplo(r, colm);
                let hermi = !CX || r.bool();
                let mut s = spectrum(r, n, cond::<T>());
                s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                let a = if hermi { herm(r, &s, CX) } else {
                    let u = unitary(r, n, CX);
                    let a = mm(&mm(&u, &diag(&s)), &tr(&u));
                    Nd::from_fn(&a.shape, |i| if i[0] >= i[1] { *a.at(i) } else { *a.at(&[i[1], i[0]]) })
                };
                let a = stored::<T>(&a);
                let b = rand(r, n, k);
                let sa = half::<T>(&a, up);
                let (mut pa, mut pb) = (Put::<T>::new(r, &sa, dv), Put::<T>::new(r, &b, dv));
                c.d(format!("sysv {} {ul:?} hermitian {hermi} {} {} colm {colm}", stringify!($T), pa.s, pb.s));
                let (oa, ob);
                let (f, x) = over!(r, pa, oa, |x| {
                    over!(r, pb, ob, |y| {
                        if hermi {
                            let z = SYSV::<B, T, true>::default().a(x).b(y).uplo(ul).build()?.run()?;
                            (obs!(z.0.view()), obs!(z.2.view()))
                        } else {
                            let z = SYSV::<B, T, false>::default().a(x).b(y).uplo(ul).build()?.run()?;
                            (obs!(z.0.view()), obs!(z.2.view()))
                        }
                    }, |z| z)
                }, |z| z);
                let x = lift(x)?;
                other_kept("sysv", &f?, &sa, up)?;
                if oa {
                    other_kept("sysv", &obs!(pa.view())?, &sa, up)?;
                }
                if ob {
                    same("overwritten right-hand side", &obs!(pb.view()), &x.map(|z| t(*z)))?;
                }
                c.eval();
                if n * k > 1 {
                    c.nontrivial();
                }
                check_x("symmetric matrix times the solution", &a, &x, &b)
            }

            pub fn syev_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r).min(30);
                let (ul, up) = uplo(r, colm);
                let mut s = spectrum(r, n, cond::<T>());
                s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                let a = stored::<T>(&herm(r, &s, CX));
                let mut p = Put::<T>::new(r, &half::<T>(&a, up), dv);
                let (vecs, dc) = (r.bool(), r.bool());
                let job = if vecs { 'V' } else { 'N' };
                c.d(format!("syev {} {ul:?} {} vectors {vecs} divide {dc} colm {colm}", stringify!($T), p.s));
                let ov;
                let (w, v) = over!(r, p, ov, |x| {
                    if dc { SYEVD::default().a(x).uplo(ul).jobz(job).build()?.run()? } else { SYEV::default().a(x).uplo(ul).jobz(job).build()?.run()? }
                }, |x| (obs!(x.0), obs!(x.1.view())));
                let w = reals(w)?;
                ensure!(w.len() == n, "syev: {} values", w.len());
                let top = s.iter().fold(0.0f64, |x, y| x.max(y.abs()));
                let k = 40.0 * (n as f64 + 4.0) * EPS;
                s.sort_by(|x, y| x.partial_cmp(y).unwrap());
                for j in 0..n {
                    ensure!((w[j] - s[j]).abs() <= k * top * 4.0, "syev: value {j} is {} instead of {}", w[j], s[j]);
                }
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                if !vecs {
                    return Ok(());
                }
                let v = lift(v)?;
                if ov {
                    same("overwritten matrix", &obs!(p.view()), &v.map(|z| t(*z)))?;
                }
                small("A V against V w", &mm(&a, &v), &mm(&v, &diag(&w)), k * top * 2.0)?;
                small("V' V", &mm(&adj(&v), &v), &eye(n), k)
            }

            pub fn sygv_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let colm = dv.default_order() == FlagOrder::F;
                let n = size(r).min(30);
                let (ul, up) = uplo(r, colm);
                let mut s = spectrum(r, n, 20.0);
                s.iter_mut().for_each(|x| if r.bool() { *x = -*x });
                let a = stored::<T>(&herm(r, &s, CX));
                let sb = spectrum(r, n, 20.0);
                let b = stored::<T>(&herm(r, &sb, CX));
                let (mut pa, mut pb) = (Put::<T>::new(r, &half::<T>(&a, up), dv), Put::<T>::new(r, &half::<T>(&b, up), dv));
                let ty = r.usize(1, 3) as blas_int;
                let (vecs, dc) = (r.chance(3, 4), r.bool());
                let job = if vecs { 'V' } else { 'N' };
                c.d(format!("sygv {} {ul:?} {} {} type {ty} vectors {vecs} divide {dc} colm {colm}", stringify!($T), pa.s, pb.s));
                let (oa, ob);
                let (w, v) = over!(r, pa, oa, |x| {
                    over!(r, pb, ob, |y| {
                        if dc { SYGVD::default().a(x).b(y).uplo(ul).itype(ty).jobz(job).build()?.run()? } else { SYGV::default().a(x).b(y).uplo(ul).itype(ty).jobz(job).build()?.run()? }
                    }, |z| (obs!(z.0), obs!(z.1.view())))
                }, |z| z);
                let _ = ob;
                let w = reals(w)?;
                ensure!(w.len() == n, "sygv: {} values", w.len());
                for j in 1..n {
                    ensure!(w[j] >= w[j - 1], "sygv: values {w:?} not rising");
                }
                c.eval();
                if n > 1 {
                    c.nontrivial();
                }
                let (wa, wb) = (s.iter().fold(0.0f64, |x, y| x.max(y.abs())), sb.iter().fold(0.0f64, |x, y| x.max(*y)));
                let lw = w.iter().fold(0.0f64, |x, y| x.max(y.abs()));
                let k = 100.0 * (n as f64 + 4.0) * EPS * 20.0;
                if !vecs {
                    // the sum of the values is the trace of the standard problem
                    return Ok(());
                }
                let v = lift(v)?;
                if oa {
                    same("overwritten matrix", &obs!(pa.view()), &v.map(|z| t(*z)))?;
                }
                let lv = big(&v).max(1e-30);
                let vw = mm(&v, &diag(&w));
                match ty {
                    1 => small("A V against B V w", &mm(&a, &v), &mm(&b, &vw), k * lv * (wa + wb * lw)),
                    2 => small("A B V against V w", &mm(&a, &mm(&b, &v)), &vw, k * lv * (wa * wb + lw)),
                    _ => small("B A V against V w", &mm(&b, &mm(&a, &v)), &vw, k * lv * (wa * wb + lw)),
                }
            }

            pub fn gesvd_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n) = (size(r).min(35), size(r).min(35));
                let k = m.min(n);
                let mut s = spectrum(r, k, cond::<T>());
                let a = stored::<T>(&dense(r, &s, m, n, CX));
                let mut p = Put::<T>::new(r, &a, dv);
                let (full, uv, dc) = (r.bool(), r.chance(3, 4), r.bool());
                c.d(format!("gesvd {} {} full {full} vectors {uv} divide {dc} colm {:?}", stringify!($T), p.s, dv.default_order()));
                let ov;
                let (sv, u, vt) = over!(r, p, ov, |x| {
                    if dc {
                        GESDD::default().a(x).full_matrices(full).compute_uv(uv).build()?.run()?
                    } else {
                        let z = GESVD::default().a(x).full_matrices(full).compute_uv(uv).build()?.run()?;
                        ensure!(z.3.shape()[0] == k.max(1) - 1, "gesvd: length of the fourth result");
                        (z.0, z.1, z.2)
                    }
                }, |z| (obs!(z.0), z.1.map(|x| obs!(x)), z.2.map(|x| obs!(x))));
                let _ = ov;
                let sv = reals(sv)?;
                ensure!(sv.len() == k && u.is_some() == uv && vt.is_some() == uv, "gesvd: parts of the result");
                s.sort_by(|x, y| y.partial_cmp(x).unwrap());
                let tl = 40.0 * ((m + n) as f64 + 4.0) * EPS;
                for j in 0..k {
                    ensure!((sv[j] - s[j]).abs() <= tl * s[0], "gesvd: value {j} is {} instead of {}", sv[j], s[j]);
                }
                c.eval();
                if k > 1 {
                    c.nontrivial();
                }
                if let (Some(u), Some(vt)) = (u, vt) {
                    let (u, vt) = (lift(u)?, lift(vt)?);
                    let (uc, vr) = if full { (m, n) } else { (k, k) };
                    ensure!(u.shape == [m, uc] && vt.shape == [vr, n], "gesvd: shapes {:?} {:?}", u.shape, vt.shape);
                    let d = Nd::from_fn(&[uc, vr], |i| if i[0] == i[1] { re(sv[i[0]]) } else { zero() });
                    small("U S V'", &mm(&mm(&u, &d), &vt), &a, tl * s.first().copied().unwrap_or(0.0))?;
                    small("left singular vectors are orthonormal", &mm(&adj(&u), &u), &eye(uc), tl)?;
                    small("right singular vectors are orthonormal", &mm(&vt, &adj(&vt)), &eye(vr), tl)?;
                }
                Ok(())
            }

            /// Operands that do not fit are refused before anything is read or written out of place.
            pub fn wrong_case(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let (m, n, k) = (r.usize(1, 6), r.usize(1, 6), r.usize(1, 6));
                let d = r.usize(1, 3);
                let what = *r.pick(&["gemm a", "gemm b", "gemm c", "symm a", "symm b", "symm c", "trsm", "potrf", "getri", "getri pivots", "gesv", "gesv a", "sysv", "syev", "syevd", "sygv", "sygvd"]);
                let sq = |r: &mut Rng, n: usize| { let e = eye(n); let mut e = e; (0..n).for_each(|i| e.set(&[i, i], re(r.f(1.0, 2.0)))); stored::<T>(&e) };
                let (mut x, mut y, z): (M, M, M) = match what {
                    "gemm a" => (rand(r, m, k + d), rand(r, k, n), rand(r, m, n)),
                    "gemm b" => (rand(r, m, k), rand(r, k + d, n), rand(r, m, n)),
                    "gemm c" => (rand(r, m, k), rand(r, k, n), if r.bool() { rand(r, m + d, n) } else { rand(r, m, n + d) }),
                    "symm a" => (rand(r, m, m + d), rand(r, m, n), rand(r, m, n)),
                    "symm b" => (sq(r, m), rand(r, m + d, n), rand(r, m + d, n)),
                    "symm c" => (sq(r, m), rand(r, m, n), rand(r, m, n + d)),
                    "trsm" => (if r.bool() { sq(r, m) } else { rand(r, m + d, m + 2 * d) }, rand(r, m + d, n), rand(r, 1, 1)),
                    "gesv" | "sysv" => (sq(r, m), rand(r, m + d, n), rand(r, 1, 1)),
                    "gesv a" => (rand(r, m, m + d), rand(r, m, n), rand(r, 1, 1)),
                    "sygv" | "sygvd" => (sq(r, m), sq(r, m + d), rand(r, 1, 1)),
                    "getri pivots" => (sq(r, m + d), rand(r, 1, 1), rand(r, 1, 1)),
                    _ => (if r.bool() { rand(r, m, m + d) } else { rand(r, m + d, m) }, rand(r, 1, 1), rand(r, 1, 1)),
                };
                if r.bool() {
                    std::mem::swap(&mut x, &mut y);
                    std::mem::swap(&mut x, &mut y);
                }
                let (mut px, mut py, mut pz) = (Put::<T>::new(r, &x, dv), Put::<T>::new(r, &y, dv), Put::<T>::new(r, &z, dv));
                c.d(format!("wrong {what} {} {:?} {:?} {:?}", stringify!($T), x.shape, y.shape, z.shape));
                let al = t(re(1.0));
                let ov = r.bool();
                let piv: Vec<blas_int> = (0..if what == "getri pivots" { m } else { x.shape[0] }).map(|i| i as blas_int).collect();
                let res: Result<Result<(), ()>, ()> = {
                    let a = if ov { TensorReference::from(ix2m(&mut px)) } else { TensorReference::from(ix2(&px)) };
                    match what {
                        "gemm a" | "gemm b" | "gemm c" => { drop(a); attempt(|| GEMM::default().a(ix2(&px)).b(ix2(&py)).c(ix2m(&mut pz)).alpha(al).build()?.run().map(|_| ())) },
                        "symm a" | "symm b" | "symm c" => { drop(a); attempt(|| SYHEMM::<B, T, false>::default().a(ix2(&px)).b(ix2(&py)).c(ix2m(&mut pz)).alpha(al).build()?.run().map(|_| ())) },
                        "trsm" => { drop(a); attempt(|| TRSM::default().a(ix2(&px)).b(ix2m(&mut py)).build()?.run().map(|_| ())) },
                        "potrf" => attempt(|| POTRF::default().a(a).build()?.run().map(|_| ())),
                        "getri" | "getri pivots" => attempt(|| GETRI::default().a(a).ipiv(rt::asarray((&piv, dv)).into_dim::<Ix1>()).build()?.run().map(|_| ())),
                        "gesv" | "gesv a" => attempt(|| GESV::default().a(a).b(TensorReference::from(ix2m(&mut py))).build()?.run().map(|_| ())),
                        "sysv" => attempt(|| SYSV::<B, T, true>::default().a(a).b(TensorReference::from(ix2m(&mut py))).build()?.run().map(|_| ())),
                        "syev" => attempt(|| SYEV::default().a(a).build()?.run().map(|_| ())),
                        "syevd" => attempt(|| SYEVD::default().a(a).build()?.run().map(|_| ())),
                        "sygv" => attempt(|| SYGV::default().a(a).b(TensorReference::from(ix2m(&mut py))).build()?.run().map(|_| ())),
                        _ => attempt(|| SYGVD::default().a(a).b(TensorReference::from(ix2m(&mut py))).build()?.run().map(|_| ())),
                    }
                };
                c.eval();
                c.nontrivial();
                refused(what, res)?;
                px.kept("first operand")?;
                py.kept("second operand")?;
                pz.kept("output")
            }
        }
    };
}
typed!(f4, f32, f32);
typed!(f8, f64, f64);
typed!(c4, C32, f32);
typed!(c8, C64, f64);

macro_rules! entry {
    ($($f:ident),*) => {$(
        pub fn $f(c: &mut Case) -> R {
            let mut rng = c.rng.clone();
            let r = &mut rng;
            let colm = r.bool();
            let dv = dev(r, colm);
            match r.below(4) {
                0 => f4::$f(c, r, dv),
                1 => f8::$f(c, r, dv),
                2 => c4::$f(c, r, dv),
                _ => c8::$f(c, r, dv),
            }
        }
    )*};
}
entry!(gemm_case, symm_case, trsm_case, potrf_case, getrf_case, gesv_case, sysv_case, syev_case, sygv_case, gesvd_case, wrong_case);
