pub type M = Nd<C64>;

pub trait E: V + Copy + PartialEq {
    const EPS: f64;
    const CX: bool;
    fn to(self) -> C64;
    fn of(z: C64) -> Self;
}
impl E for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const CX: bool = false;
    fn to(self) -> C64 {
        C64::new(self as f64, 0.0)
    }
    fn of(z: C64) -> f32 {
        z.re as f32
    }
}
impl E for f64 {
    const EPS: f64 = f64::EPSILON;
    const CX: bool = false;
    fn to(self) -> C64 {
        C64::new(self, 0.0)
    }
    fn of(z: C64) -> f64 {
        z.re
    }
}
impl E for C32 {
    const EPS: f64 = f32::EPSILON as f64;
    const CX: bool = true;
    fn to(self) -> C64 {
        C64::new(self.re as f64, self.im as f64)
    }
    fn of(z: C64) -> C32 {
        C32::new(z.re as f32, z.im as f32)
    }
}
impl E for C64 {
    const EPS: f64 = f64::EPSILON;
    const CX: bool = true;
    fn to(self) -> C64 {
        self
    }
    fn of(z: C64) -> C64 {
        z
    }
}

pub fn zero() -> C64 {
    C64::new(0.0, 0.0)
}
pub fn re(x: f64) -> C64 {
    C64::new(x, 0.0)
}
pub fn mm(a: &M, b: &M) -> M {
    let (m, k, n) = (a.shape[0], a.shape[1], b.shape[1]);
    assert_eq!(k, b.shape[0]);
    let mut out = vec![zero(); m * n];
    for i in 0..m {
        for l in 0..k {
            let x = a.data[i * k + l];
            for j in 0..n {
                out[i * n + j] += x * b.data[l * n + j];
            }
        }
    }
    Nd { shape: vec![m, n], data: out }
}
pub fn tr(a: &M) -> M {
    a.reversed_axes()
}
pub fn adj(a: &M) -> M {
    a.reversed_axes().map(|z| z.conj())
}
pub fn eye(n: usize) -> M {
    Nd::from_fn(&[n, n], |i| if i[0] == i[1] { re(1.0) } else { zero() })
}
pub fn diag(s: &[f64]) -> M {
    Nd::from_fn(&[s.len(), s.len()], |i| if i[0] == i[1] { re(s[i[0]]) } else { zero() })
}
/// Largest absolute value.
pub fn big(a: &M) -> f64 {
    a.data.iter().fold(0.0, |x, z| if z.norm() >= x { z.norm() } else if z.norm() < x { x } else { f64::NAN })
}
pub fn rnd(r: &mut Rng, cx: bool) -> C64 {
    C64::new(r.f(-1.0, 1.0), if cx { r.f(-1.0, 1.0) } else { 0.0 })
}
pub fn random(r: &mut Rng, m: usize, n: usize, cx: bool) -> M {
    Nd::from_fn(&[m, n], |_| rnd(r, cx))
}
/// Unitary matrix by orthonormalising random columns twice.
pub fn unitary(r: &mut Rng, n: usize, cx: bool) -> M {
    let mut cols: Vec<Vec<C64>> = vec![];
    while cols.len() < n {
        let mut v: Vec<C64> = (0..n).map(|_| rnd(r, cx)).collect();
        for _ in 0..2 {
            for c in &cols {
                let d: C64 = c.iter().zip(&v).map(|(x, y)| x.conj() * y).sum();
                for (y, x) in v.iter_mut().zip(c) {
                    *y -= d * x;
                }
            }
            let nv = v.iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
            for y in v.iter_mut() {
                *y /= nv;
            }
        }
        if v.iter().all(|z| z.re.is_finite()) {
            cols.push(v);
        }
    }
    Nd::from_fn(&[n, n], |i| cols[i[1]][i[0]])
}
/// Determinant by elimination with row exchanges.
pub fn det_ref(a: &M) -> C64 {
    let n = a.shape[0];
    let mut w = a.data.clone();
    let mut d = re(1.0);
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| w[i * n + k].norm().partial_cmp(&w[j * n + k].norm()).unwrap()).unwrap();
        if w[p * n + k] == zero() {
            return zero();
        }
        if p != k {
            for j in 0..n {
                w.swap(p * n + j, k * n + j);
            }
            d = -d;
        }
        d *= w[k * n + k];
        for i in k + 1..n {
            let f = w[i * n + k] / w[k * n + k];
            for j in k..n {
                let x = w[k * n + j];
                w[i * n + j] -= f * x;
            }
        }
    }
    d
}
pub fn small(what: &str, a: &M, b: &M, tol: f64) -> R {
    ensure!(a.shape == b.shape, "{what}: shape {:?} instead of {:?}", a.shape, b.shape);
    for (k, (x, y)) in a.data.iter().zip(&b.data).enumerate() {
        let e = (x - y).norm();
        ensure!(e <= tol, "{what}: element #{k} of {:?} is {x} instead of {y}, error {e:.3e} above {tol:.3e}", a.shape);
    }
    Ok(())
}
pub fn size(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => 0,
        1..=3 => 1,
        4 => r.usize(20, 70),
        5 | 6 => r.usize(13, 33),
        _ => r.usize(2, 9),
    }
}

/// What a request that cannot be met must not do: return a finite result.
pub fn refused<X>(what: &str, res: Result<Result<X, ()>, ()>) -> R {
    if let Ok(Ok(_)) = res {
        bail!("{what}: accepted");
    }
    Ok(())
}
