// Linear algebra with operands that do not fit: an error from every `_f` function, operands unchanged.
fn put<T: E>(r: &mut Rng, m: usize, n: usize, dv: &'static B) -> Put<T> {
    let x = matrix(r, m, n);
    Put::new(r, &x, dv)
}
fn matrix(r: &mut Rng, m: usize, n: usize) -> M {
    Nd::from_fn(&[m, n], |i| C64::new(if i[0] == i[1] { 9.0 } else { 0.0 } + r.range(-4, 4) as f64 * 0.1, 0.0))
}
fn of_dim(sh: &[usize]) -> M {
    Nd::from_fn(sh, |i| C64::new(i.iter().sum::<usize>() as f64, 0.0))
}
/// The call is answered with an error: no result and no panic.
fn must_err<X, Er>(c: &mut Case, what: &str, f: impl FnOnce() -> Result<X, Er>) -> R {
    c.eval();
    c.hit(what);
    match no_panic(f) {
        Ok(Ok(_)) => bail!("{what}: accepted"),
        Ok(Err(_)) => Ok(()),
        Err(e) => bail!("{what}: panicked instead of returning an error: {e}"),
    }
}

macro_rules! refuse {
    ($m:ident, $T:ty, $Re:ty) => {
        mod $m {
            use super::*;
            type T = $T;
            pub fn one(c: &mut Case, r: &mut Rng, dv: &'static B) -> R {
                let m = r.usize(0, 9);
                let n = loop {
                    let n = r.usize(0, 9);
                    if n != m {
                        break n;
                    }
                };
                let nd = *r.pick(&[0usize, 1, 3, 4]);
                let bad = if r.chance(1, 4) { of_dim(&[2, 2, 3, 2][..nd]) } else { matrix(r, m, n) };
                let p = Put::<T>::new(r, &bad, dv);
                let u = *r.pick(&[FlagUpLo::U, FlagUpLo::L]);
                c.d(format!("{} {}", stringify!($T), p.s));
                let two = bad.shape.len() == 2;
                if !two {
                    must_err(c, "svd", || svd_f(p.view()))?;
                    must_err(c, "svdvals", || svdvals_f(&p.view()))?;
                    must_err(c, "pinv", || pinv_f(p.view()))?;
                }
                must_err(c, "cholesky", || if n % 2 == 0 { cholesky_f(&p.view()) } else { cholesky_f((&p.view(), u)) })?;
                must_err(c, "eigh", || if n % 2 == 0 { eigh_f(&p.view()) } else { eigh_f((&p.view(), u)) })?;
                must_err(c, "eigvalsh", || if n % 2 == 0 { eigvalsh_f(&p.view()) } else { eigvalsh_f((&p.view(), u)) })?;
                must_err(c, "inv", || inv_f(&p.view()))?;
                must_err(c, "det", || det_f(&p.view()))?;
                must_err(c, "slogdet", || by_dev!({ det_f(p.view()).map(|_| ()) } { slogdet_f(p.view()).map(|_| ()) }))?;
                p.kept("refused operand")?;
                // two operands that fit on their own but not together
                let sq = put::<T>(r, m, m, dv);
                let other = put::<T>(r, n, n, dv);
                let k = r.usize(0, 4);
                let rhs = if r.bool() { put::<T>(r, n, k, dv) } else { Put::<T>::new(r, &of_dim(&[n]), dv) };
                c.d(format!("{} with {} and {}", sq.s, other.s, rhs.s));
                must_err(c, "eigh of two sizes", || eigh_f((&sq.view(), &other.view(), u)))?;
                must_err(c, "solve_general of two sizes", || solve_general_f((&sq.view(), &rhs.view())))?;
                must_err(c, "solve_triangular of two sizes", || solve_triangular_f((&sq.view(), &rhs.view(), u)))?;
                if bad.shape.len() != 2 || bad.shape[0] != bad.shape[1] {
                    must_err(c, "eigh with a bad first matrix", || eigh_f((&p.view(), &sq.view(), u)))?;
                    must_err(c, "eigh with a bad second matrix", || eigh_f((&sq.view(), &p.view(), u)))?;
                    let fit = put::<T>(r, m, k, dv);
                    must_err(c, "solve_general with a bad matrix", || solve_general_f((&p.view(), &fit.view())))?;
                    must_err(c, "solve_triangular with a bad matrix", || solve_triangular_f((&p.view(), &fit.view(), u)))?;
                    by_dev!({} { must_err(c, "solve_symmetric with a bad matrix", || solve_symmetric_f((&p.view(), &fit.view(), true, u)))?; });
                    fit.kept("right-hand side")?;
                }
                by_dev!({} { must_err(c, "solve_symmetric of two sizes", || solve_symmetric_f((&sq.view(), &rhs.view(), false, u)))?; });
                // right-hand sides of the wrong dimension
                let deep = Put::<T>::new(r, &of_dim(&[2, m, 2]), dv);
                must_err(c, "solve_general with three axes", || solve_general_f((&sq.view(), &deep.view())))?;
                must_err(c, "solve_triangular with three axes", || solve_triangular_f((&sq.view(), &deep.view(), u)))?;
                // kinds of generalized problem that do not exist
                let ty = *r.pick(&[0, 4, -1, i32::MAX, i32::MIN]);
                let sq2 = put::<T>(r, m, m, dv);
                must_err(c, "eigh of unknown type", || eigh_f((&sq.view(), &sq2.view(), u, ty)))?;
                // devices that differ
                let far = put::<T>(r, m, k.max(1), dev2(dv));
                must_err(c, "solve_general on two devices", || solve_general_f((&sq.view(), &far.view())))?;
                must_err(c, "solve_triangular on two devices", || solve_triangular_f((&sq.view(), &far.view(), u)))?;
                let far = put::<T>(r, m, m, dev2(dv));
                must_err(c, "eigh on two devices", || eigh_f((&sq.view(), &far.view(), u)))?;
                for (w, x) in [("first", &sq), ("second", &other), ("right-hand side", &rhs), ("third", &deep), ("far", &far), ("bad", &p)] {
                    x.kept(w)?;
                }
                c.nontrivial();
                Ok(())
            }
        }
    };
}
refuse!(f4, f32, f32);
refuse!(f8, f64, f64);
refuse!(c4, C32, f32);
refuse!(c8, C64, f64);

pub fn linalg_case(c: &mut Case) -> R {
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let colm = r.bool();
    let dv = dev(r, colm);
    match r.below(4) {
        0 => f4::one(c, r, dv),
        1 => f8::one(c, r, dv),
        2 => c4::one(c, r, dv),
        _ => c8::one(c, r, dv),
    }
}
