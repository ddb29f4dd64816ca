//! Element values: generation and comparison.
use crate::*;

pub trait V: Clone + std::fmt::Debug + Send + Sync + 'static {
    /// A moderate value, free of overflow in single products and sums.
    fn gen(r: &mut Rng) -> Self;
    /// Equal as results of the same scalar computation (both NaN, or equal up to a few ulps).
    fn eqv(&self, o: &Self) -> bool;
}

macro_rules! v_int {
    ($($t:ty, $lo:expr, $hi:expr);*) => {$(
        impl V for $t {
            fn gen(r: &mut Rng) -> Self { r.range($lo, $hi) as $t }
            fn eqv(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
v_int!(i8, -5, 5; i16, -11, 11; i32, -30, 30; i64, -50, 50; isize, -50, 50; u8, 0, 15; u16, 0, 15; u32, 0, 40; u64, 0, 50; usize, 0, 50; i128, -50, 50; u128, 0, 50);

impl V for bool {
    fn gen(r: &mut Rng) -> Self {
        r.bool()
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o
    }
}
impl V for f64 {
    fn gen(r: &mut Rng) -> Self {
        match r.below(40) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => f64::INFINITY,
            5 => f64::NAN,
            6 => r.range(-3, 3) as f64,
            _ => r.f(-2.5, 2.5),
        }
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o || (self.is_nan() && o.is_nan()) || (self - o).abs() <= 4e-15 * self.abs().max(o.abs())
    }
}
impl V for f32 {
    fn gen(r: &mut Rng) -> Self {
        f64::gen(r) as f32
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o || (self.is_nan() && o.is_nan()) || (self - o).abs() <= 1e-6 * self.abs().max(o.abs())
    }
}
impl V for C64 {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 20) {
            C64::new(f64::gen(r), 0.0)
        } else {
            C64::new(r.f(-2.5, 2.5), r.f(-2.5, 2.5))
        }
    }
    fn eqv(&self, o: &Self) -> bool {
        if self.re.is_nan() || self.im.is_nan() || o.re.is_nan() || o.im.is_nan() {
            return (self.re.is_nan() || self.im.is_nan()) && (o.re.is_nan() || o.im.is_nan());
        }
        self == o || (self - o).norm() <= 2e-14 * self.norm().max(o.norm())
    }
}
impl V for C32 {
    fn gen(r: &mut Rng) -> Self {
        C32::new(r.f(-2.5, 2.5) as f32, r.f(-2.5, 2.5) as f32)
    }
    fn eqv(&self, o: &Self) -> bool {
        if self.re.is_nan() || self.im.is_nan() || o.re.is_nan() || o.im.is_nan() {
            return (self.re.is_nan() || self.im.is_nan()) && (o.re.is_nan() || o.im.is_nan());
        }
        self == o || (self - o).norm() <= 5e-6 * self.norm().max(o.norm())
    }
}
impl V for String {
    fn gen(r: &mut Rng) -> Self {
        format!("s{}", r.below(1000))
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o
    }
}

/// A buffer of random values for a layout.
pub fn gen_raw<T: V>(r: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::gen(r)).collect()
}

/// Compares an observation with the expected array, value by value.
pub fn sim<T: V>(what: &str, got: &Result<Nd<T>, String>, want: &Nd<T>) -> R {
    match got {
        Err(e) => bail!("{what}: {e}; wanted shape {:?}", want.shape),
        Ok(g) => {
            ensure!(g.shape == want.shape, "{what}: shape {:?}, wanted {:?}", g.shape, want.shape);
            if let Some(k) = (0..want.data.len()).find(|&k| !g.data[k].eqv(&want.data[k])) {
                bail!("{what}: shape {:?}: element #{k} (row-major) is {:?}, wanted {:?}", g.shape, g.data[k], want.data[k]);
            }
        },
    }
    Ok(())
}

/// Bitwise-style equality of a buffer before and after.
pub fn unchanged<T: V>(what: &str, now: &[T], before: &[T]) -> R {
    ensure!(now.len() == before.len(), "{what}: buffer length changed from {} to {}", before.len(), now.len());
    if let Some(k) = (0..now.len()).find(|&k| !now[k].eqv(&before[k])) {
        bail!("{what}: buffer position {k} changed from {:?} to {:?}", before[k], now[k]);
    }
    Ok(())
}

/// Elementwise combination under broadcasting.
pub fn zip<A: V, B2: V, C: Clone>(a: &Nd<A>, b: &Nd<B2>, colm: bool, mut f: impl FnMut(&A, &B2) -> C) -> Nd<C> {
    let sh = bcast_shape_ord(&a.shape, &b.shape, colm).expect("broadcastable by construction");
    let x = a.broadcast_ord(&sh, colm);
    let y = b.broadcast_ord(&sh, colm);
    Nd { shape: sh, data: x.data.iter().zip(&y.data).map(|(p, q)| f(p, q)).collect() }
}
