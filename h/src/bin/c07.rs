//! C07: matrix products and the vector inner product.
use rstsr_core::prelude::*;
use std::ops::{Add, Mul};
use vh::*;

/// Element of a product: small integer values (exact in every type) or reals.
pub trait E: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static + Add<Output = Self> + Mul<Output = Self> {
    fn zero() -> Self;
    fn int(r: &mut Rng) -> Self;
    fn real(r: &mut Rng) -> Self;
    fn factor(r: &mut Rng) -> Self;
    /// what stands where nothing may be read
    fn poison() -> Self;
    fn conj(self) -> Self;
    fn parts(self) -> (f64, f64);
    fn eps() -> f64;
    fn label(k: usize) -> Self;
}
macro_rules! e_int {
    ($($t:ty),*) => {$(
        impl E for $t {
            fn zero() -> Self { 0 }
            fn int(r: &mut Rng) -> Self { r.range(if <$t>::MIN == 0 { 0 } else { -4 }, 4) as $t }
            fn real(r: &mut Rng) -> Self { Self::int(r) }
            fn factor(r: &mut Rng) -> Self { *r.pick(&[0, 1, 1, 2, 3]) }
            fn poison() -> Self { 91 }
            fn conj(self) -> Self { self }
            fn parts(self) -> (f64, f64) { (self as f64, 0.0) }
            fn eps() -> f64 { 0.0 }
            fn label(k: usize) -> Self { (k % 50) as $t }
        }
    )*};
}
e_int!(i32, i64, u64, usize);
macro_rules! e_fl {
    ($($t:ty),*) => {$(
        impl E for $t {
            fn zero() -> Self { 0.0 }
            fn int(r: &mut Rng) -> Self { r.range(-4, 4) as $t }
            fn real(r: &mut Rng) -> Self { r.f(-2.0, 2.0) as $t }
            fn factor(r: &mut Rng) -> Self { *r.pick(&[0.0, 1.0, 1.0, -1.0, 2.0, 0.5]) }
            fn poison() -> Self { <$t>::NAN }
            fn conj(self) -> Self { self }
            fn parts(self) -> (f64, f64) { (self as f64, 0.0) }
            fn eps() -> f64 { <$t>::EPSILON as f64 }
            fn label(k: usize) -> Self { (k % 50) as $t }
        }
        impl E for Complex<$t> {
            fn zero() -> Self { Complex::new(0.0, 0.0) }
            fn int(r: &mut Rng) -> Self { Complex::new(<$t as E>::int(r), <$t as E>::int(r)) }
            fn real(r: &mut Rng) -> Self { Complex::new(<$t as E>::real(r), <$t as E>::real(r)) }
            fn factor(r: &mut Rng) -> Self { *r.pick(&[Complex::new(0.0, 0.0), Complex::new(1.0, 0.0), Complex::new(1.0, 0.0), Complex::new(0.0, 1.0), Complex::new(2.0, -1.0)]) }
            fn poison() -> Self { Complex::new(<$t>::NAN, <$t>::NAN) }
            fn conj(self) -> Self { Complex::new(self.re, -self.im) }
            fn parts(self) -> (f64, f64) { (self.re as f64, self.im as f64) }
            fn eps() -> f64 { 2.0 * <$t>::EPSILON as f64 }
            fn label(k: usize) -> Self { Complex::new((k % 50) as $t, 0.0) }
        }
    )*};
}
e_fl!(f32, f64);

#[derive(Clone, Debug)]
pub struct Prob {
    pub sa: Vec<usize>,
    pub sb: Vec<usize>,
    pub sc: Vec<usize>,
    /// contracted extent
    pub k: usize,
    pub ba: Vec<usize>,
    pub bb: Vec<usize>,
    pub bc: Vec<usize>,
    pub m: Option<usize>,
    pub n: Option<usize>,
}

fn with_batch(colm: bool, batch: &[usize], mat: &[usize]) -> Vec<usize> {
    if colm {
        [mat, batch].concat()
    } else {
        [batch, mat].concat()
    }
}

pub fn ext(r: &mut Rng) -> usize {
    match r.below(300) {
        0 => r.usize(62, 70),
        1..=8 => r.usize(15, 34),
        9..=24 => 0,
        25..=80 => 1,
        81..=140 => 2,
        141..=200 => 3,
        _ => r.usize(4, 8),
    }
}

/// A product problem obeying the rules; `square` wants shapes for A times its own transpose.
fn gen_prob(r: &mut Rng, colm: bool, selft: bool) -> Prob {
    let (mut m, mut n, k) = (ext(r), ext(r), ext(r));
    if selft {
        n = m;
    }
    let big = m * n * k > 5000;
    let bd = |r: &mut Rng| *r.pick(&[0usize, 1, 1, 2, 2, 3, 4]);
    let nb = if big || r.chance(2, 5) { 0 } else { r.usize(1, 3) };
    let mut batch: Vec<usize> = (0..nb).map(|_| bd(r)).collect();
    if nb > 0 && r.chance(1, 12) {
        // beyond the number of tasks at which the batch itself is split
        let a = r.below(nb);
        batch[a] = r.usize(17, 45);
        m = m.min(4);
        n = if selft { m } else { n.min(4) };
    }
    let (mut ba, mut bb) = if selft { (batch.clone(), batch.clone()) } else { gen_bcast_pair(r, &batch, colm) };
    let mut mo = Some(m);
    let mut no = Some(n);
    let mut k = k;
    if selft {
        k = k.min(if ba.len() > 0 { 6 } else { 70 });
    } else {
        match r.below(8) {
            0 => {
                mo = None;
                ba.clear();
            },
            1 => {
                no = None;
                bb.clear();
            },
            2 => {
                mo = None;
                no = None;
                ba.clear();
                bb.clear();
                if r.chance(1, 8) {
                    k = r.usize(100, 3000);
                }
            },
            _ => {},
        }
    }
    let bc = bcast_shape_ord(&ba, &bb, colm).unwrap();
    let ma: Vec<usize> = mo.map(|m| vec![m, k]).unwrap_or(vec![k]);
    let mb: Vec<usize> = no.map(|n| vec![k, n]).unwrap_or(vec![k]);
    let mc: Vec<usize> = mo.iter().chain(no.iter()).cloned().collect();
    Prob {
        sa: with_batch(colm, &ba, &ma),
        sb: with_batch(colm, &bb, &mb),
        sc: with_batch(colm, &bc, &mc),
        k,
        ba,
        bb,
        bc,
        m: mo,
        n: no,
    }
}

fn sub(bi: &[usize], b: &[usize], colm: bool) -> Vec<usize> {
    let off = if colm { 0 } else { bi.len() - b.len() };
    (0..b.len()).map(|i| if b[i] == 1 { 0 } else { bi[off + i] }).collect()
}

/// The definition: for each result element the pairs of factors it sums.
fn product<A: E, B: E, C: E>(
    p: &Prob,
    a: &Nd<A>,
    b: &Nd<B>,
    colm: bool,
    mul: impl Fn(A, B) -> C,
) -> (Nd<C>, Nd<f64>) {
    let nmat = p.m.is_some() as usize + p.n.is_some() as usize;
    let mut mag = Vec::new();
    let v = Nd::from_fn(&p.sc, |idx| {
        let (bi, mi) = if colm {
            (idx[nmat..].to_vec(), idx[..nmat].to_vec())
        } else {
            (idx[..idx.len() - nmat].to_vec(), idx[idx.len() - nmat..].to_vec())
        };
        let mut mi = mi.into_iter();
        let i = p.m.map(|_| mi.next().unwrap());
        let j = p.n.map(|_| mi.next().unwrap());
        let mut s = C::zero();
        let mut g = 0.0;
        for k in 0..p.k {
            let ia: Vec<usize> = i.map(|i| vec![i, k]).unwrap_or(vec![k]);
            let ib: Vec<usize> = j.map(|j| vec![k, j]).unwrap_or(vec![k]);
            let x = *a.at(&with_batch(colm, &sub(&bi, &p.ba, colm), &ia));
            let y = *b.at(&with_batch(colm, &sub(&bi, &p.bb, colm), &ib));
            s = s + mul(x, y);
            let (xr, xi) = x.parts();
            let (yr, yi) = y.parts();
            g += xr.hypot(xi) * yr.hypot(yi);
        }
        mag.push(g);
        s
    });
    (v, Nd { shape: p.sc.clone(), data: mag })
}

/// Equal, or for real data within the rounding error of any summation order.
fn close<C: E>(got: C, want: C, tol: f64, exact: bool) -> bool {
    if got == want {
        return true;
    }
    if exact {
        return false;
    }
    let (a, b) = got.parts();
    let (c, d) = want.parts();
    (a - c).hypot(b - d) <= tol
}

fn judge<C: E>(what: &str, got: &Result<Nd<C>, String>, want: &Nd<C>, mag: &Nd<f64>, k: usize, exact: bool) -> R {
    let g = match got {
        Ok(g) => g,
        Err(e) => bail!("{what}: {e}"),
    };
    ensure!(g.shape == want.shape, "{what}: shape {:?}, wanted {:?}", g.shape, want.shape);
    for i in 0..want.data.len() {
        let tol = 4.0 * C::eps() * (k as f64 + 4.0) * mag.data[i];
        if !close(g.data[i], want.data[i], tol, exact) {
            bail!("{what}: shape {:?}: element #{i} (row-major) is {:?}, wanted {:?}", g.shape, g.data[i], want.data[i]);
        }
    }
    Ok(())
}

/// Contraction axes of the vector inner product.
#[derive(Clone, Debug)]
enum Dx {
    Null,
    Val(isize),
    Pair(Vec<isize>, Vec<isize>),
}

devices!("c07.rs");
#[cfg(feature = "blas")]
blas_device!("c07.rs");

#[cfg(not(feature = "blas"))]
fn families() -> Vec<Family> {
    vec![
        fam("product_serial", ser::prod, 60000, 3000000),
        fam("product_pool", par::prod, 50000, 2500000),
        fam("output_serial", ser::output, 60000, 3000000),
        fam("output_pool", par::output, 50000, 2500000),
        fam("vecdot_serial", ser::vdot, 60000, 3000000),
        fam("vecdot_pool", par::vdot, 40000, 2000000),
    ]
}
#[cfg(feature = "blas")]
fn families() -> Vec<Family> {
    vec![
        fam("product_openblas", obl::prod, 50000, 2000000),
        fam("output_openblas", obl::output, 50000, 2000000),
        fam("vecdot_openblas", obl::vdot, 10000, 500000),
    ]
}

fn main() {
    main_check(Check {
        prop: "C07",
        level: "exploration",
        rule: "a case counts when the result is non-empty and the contraction is over at least two elements; distinct by operand layouts, type, form and factors",
        assumptions: &[
            "with exact (small integer) data the result must be equal, with real data within 4 eps (k+4) sum|a||b|",
            "an output whose batch is larger than the operands' is excluded",
        ],
        families: families(),
        workers: 8,
    })
}
