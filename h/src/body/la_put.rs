/// A matrix placed in memory.
pub struct Put<T: E> {
    pub raw: Vec<T>,
    pub before: Vec<T>,
    pub s: Spec,
    pub dv: &'static B,
}
impl<T: E> Put<T> {
    /// Places the matrix; memory outside it holds NaN.
    pub fn new(r: &mut Rng, m: &M, dv: &'static B) -> Put<T> {
        let s = gen_layout(r, &m.shape, false);
        let nan = C64::new(f64::NAN, if T::CX { f64::NAN } else { 0.0 });
        let mut raw = vec![T::of(nan); s.len];
        let p = positions(s.len, &s.shape, &s.stride, s.offset).unwrap();
        for (k, z) in p.into_iter().zip(&m.data) {
            raw[k] = T::of(*z);
        }
        Put { before: raw.clone(), raw, s, dv }
    }
    pub fn view(&self) -> TensorView<'_, T, B, IxD> {
        rt::asarray((&self.raw, lay(&self.s), self.dv))
    }
    pub fn own(&self) -> Tensor<T, B, IxD> {
        rt::asarray((self.raw.clone(), lay(&self.s), self.dv))
    }
    pub fn view_mut(&mut self) -> TensorMut<'_, T, B, IxD> {
        let l = lay(&self.s);
        rt::asarray((&mut self.raw, l, self.dv))
    }
    /// No part of the memory has changed.
    pub fn kept(&self, what: &str) -> R {
        unchanged(what, &self.raw, &self.before)
    }
    /// Nothing outside the matrix has changed.
    pub fn rest_kept(&self, what: &str) -> R {
        let mut now = self.raw.clone();
        for k in positions(self.s.len, &self.s.shape, &self.s.stride, self.s.offset).unwrap() {
            now[k] = self.before[k];
        }
        unchanged(what, &now, &self.before)
    }
}
/// The values as they are stored in the type.
fn stored<T: E>(m: &M) -> M {
    m.map(|z| T::of(*z).to())
}
fn lift<T: E>(n: Result<Nd<T>, String>) -> Result<M, Fail> {
    Ok(n?.map(|x| x.to()))
}
fn nan<T: E>() -> C64 {
    C64::new(f64::NAN, if T::CX { f64::NAN } else { 0.0 })
}
/// Keeps one triangle, the rest is NaN.
fn half<T: E>(m: &M, up: bool) -> M {
    Nd::from_fn(&m.shape, |i| if (up && i[0] > i[1]) || (!up && i[0] < i[1]) { nan::<T>() } else { *m.at(i) })
}
fn herm(r: &mut Rng, s: &[f64], cx: bool) -> M {
    let u = unitary(r, s.len(), cx);
    let a = mm(&mm(&u, &diag(s)), &adj(&u));
    // exactly Hermitian
    Nd::from_fn(&a.shape, |i| {
        let (x, y) = (*a.at(i), a.at(&[i[1], i[0]]).conj());
        if i[0] == i[1] {
            re(x.re)
        } else if i[0] > i[1] {
            x
        } else {
            y
        }
    })
}
fn cond<T: E>() -> f64 {
    if T::EPS > 1e-10 {
        50.0
    } else {
        1e4
    }
}
/// Singular values between the largest and 1/cond of it, sometimes repeated.
fn spectrum(r: &mut Rng, n: usize, c: f64) -> Vec<f64> {
    let k = c.ln();
    let mut v: Vec<f64> = (0..n).map(|_| (-r.f(0.0, k)).exp()).collect();
    if n > 1 && r.chance(1, 5) {
        let x = v[0];
        for y in v.iter_mut().take(r.usize(1, n)) {
            *y = x;
        }
    }
    let sc = *r.pick(&[1.0, 1.0, 7.0, 0.01]);
    v.iter_mut().for_each(|x| *x *= sc);
    v
}
fn dense(r: &mut Rng, s: &[f64], m: usize, n: usize, cx: bool) -> M {
    let (u, v) = (unitary(r, m, cx), unitary(r, n, cx));
    let d = Nd::from_fn(&[m, n], |i| if i[0] == i[1] && i[0] < s.len() { re(s[i[0]]) } else { zero() });
    mm(&mm(&u, &d), &v)
}
fn uplo(r: &mut Rng, colm: bool) -> (Option<FlagUpLo>, bool) {
    match r.below(3) {
        0 => (None, colm),
        1 => (Some(FlagUpLo::U), true),
        _ => (Some(FlagUpLo::L), false),
    }
}
fn fin(m: &M) -> bool {
    m.data.iter().all(|z| z.re.is_finite() && z.im.is_finite())
}
/// Calls what may panic or fail.
fn attempt<X, Er>(f: impl FnOnce() -> Result<X, Er>) -> Result<Result<X, ()>, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x.map_err(|_| ())),
        Err(_) => {
            take_panic();
            Err(())
        },
    }
}
