//! C21: pairwise distances and quadrature on the sphere against their definitions.
use rstsr_core::prelude::*;
use rstsr_sci_traits::distance::metric::{MetricDistAPI, MetricDistWeightedAPI};
use rstsr_sci_traits::integrate::lebedev::{lebedev_degree_to_order, lebedev_order_to_degree};
use rstsr_sci_traits::prelude::rstsr_mods::distance::*;
use rstsr_sci_traits::prelude::rstsr_mods::integrate::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use vh::*;

/// Names of the metrics, as the model knows them.
#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Euclidean,
    SqEuclidean,
    CityBlock,
    Chebyshev,
    Canberra,
    BrayCurtis,
    Minkowski(f64),
    Cosine,
    Correlation,
    JensenShannon,
    Hamming,
    Jaccard,
    Yule,
    Dice,
    RogersTanimoto,
    RussellRao,
    SokalSneath,
}
/// The definition of a metric: value and absolute error that rounding may cause,
/// in units of the machine epsilon; `None` where the definition has no value.
fn define(m: M, u: &[C64], v: &[C64], w: Option<&[f64]>) -> Option<(f64, f64)> {
    let k = u.len();
    let one = vec![1.0; k];
    let w = w.unwrap_or(&one);
    let sum = |f: &dyn Fn(usize) -> f64| (0..k).map(f).sum::<f64>();
    let d = |i: usize| (u[i] - v[i]).norm();
    let n = 4.0 + k as f64;
    let total = sum(&|i| w[i]);
    let ratio = |a: f64, b: f64| if b == 0.0 || !(a / b).is_finite() { None } else { Some((a / b, 4.0 * n * (a / b))) };
    let count = |p: fn(bool, bool) -> bool| sum(&|i| if p(u[i].re != 0.0, v[i].re != 0.0) { w[i] } else { 0.0 });
    let (tt, ff) = (|| count(|a, b| a && b), || count(|a, b| !a && !b));
    let (tf, ft) = (|| count(|a, b| a && !b), || count(|a, b| !a && b));
    let moments = |x: &dyn Fn(usize) -> f64, y: &dyn Fn(usize) -> f64| {
        let (mx, my) = if m == M::Correlation { (sum(&|i| w[i] * x(i)) / total, sum(&|i| w[i] * y(i)) / total) } else { (0.0, 0.0) };
        let (xx, yy) = (sum(&|i| w[i] * (x(i) - mx).powi(2)), sum(&|i| w[i] * (y(i) - my).powi(2)));
        let (ox, oy) = (sum(&|i| w[i] * x(i).powi(2)), sum(&|i| w[i] * y(i).powi(2)));
        let xy = sum(&|i| w[i] * (x(i) - mx) * (y(i) - my));
        // how far the variation sticks out of the magnitude
        let cond = (ox / xx).sqrt() * (oy / yy).sqrt();
        if !(cond < 1e3) { None } else { Some((1.0 - xy / (xx.sqrt() * yy.sqrt()), 8.0 * n * (1.0 + cond))) }
    };
    let flat = |x: f64| Some((x, 4.0 * n * x.abs()));
    match m {
        M::Euclidean => flat(sum(&|i| w[i] * d(i) * d(i)).sqrt()),
        M::SqEuclidean => flat(sum(&|i| w[i] * d(i) * d(i))),
        M::CityBlock => flat(sum(&|i| w[i] * d(i))),
        M::Chebyshev => flat((0..k).filter(|&i| w[i] != 0.0).map(d).fold(0.0, f64::max)),
        M::Canberra => flat(sum(&|i| {
            let s = u[i].norm() + v[i].norm();
            if s == 0.0 { 0.0 } else { w[i] * d(i) / s }
        })),
        M::BrayCurtis => {
            let (a, b) = (sum(&|i| w[i] * d(i)), sum(&|i| w[i] * (u[i] + v[i]).norm()));
            // cancellation in the denominator is as large as the numbers
            ratio(a, b).map(|(x, e)| (x, e * (1.0 + a / b)))
        },
        M::Minkowski(p) => flat(sum(&|i| w[i] * d(i).powf(p)).powf(1.0 / p)).map(|(x, e)| (x, e * (p + 1.0 / p))),
        M::Cosine | M::Correlation => moments(&|i| u[i].re, &|i| v[i].re),
        M::JensenShannon => {
            let (su, sv) = (sum(&|i| u[i].re), sum(&|i| v[i].re));
            if su == 0.0 || sv == 0.0 || u.iter().chain(v).any(|x| x.re < 0.0) {
                return None;
            }
            let part = |a: f64, b: f64| if a > 0.0 { a * (2.0 * a / (a + b)).ln() } else { 0.0 };
            let s = sum(&|i| part(u[i].re / su, v[i].re / sv) + part(v[i].re / sv, u[i].re / su));
            let x = (s.max(0.0) / 2.0).sqrt();
            // the sum has an error of some epsilon, the root is judged by its square
            Some((x, 16.0 * n))
        },
        M::Hamming => ratio(sum(&|i| if u[i] != v[i] { w[i] } else { 0.0 }), total),
        M::Jaccard => ratio(tf() + ft(), tt() + tf() + ft()),
        M::Yule => {
            let h = tf() * ft();
            if h == 0.0 { flat(0.0) } else { ratio(2.0 * h, tt() * ff() + h) }
        },
        M::Dice => ratio(tf() + ft(), 2.0 * tt() + tf() + ft()),
        M::RogersTanimoto => ratio(2.0 * (tf() + ft()), tt() + ff() + 2.0 * (tf() + ft())),
        M::RussellRao => ratio(total - tt(), total),
        M::SokalSneath => ratio(2.0 * (tf() + ft()), tt() + 2.0 * (tf() + ft())),
    }
}

trait P: Copy + Clone + Send + Sync + std::fmt::Debug + 'static {
    const EPS: f64;
    fn put(r: &mut Rng, kind: u8) -> Self;
    fn c(self) -> C64;
}
/// Coordinates of one kind: 0 small integers, 1 wide, 2 zero or one, 3 and 4 distributions.
fn coord(r: &mut Rng, kind: u8) -> f64 {
    match kind {
        0 => r.range(-3, 3) as f64,
        1 => r.f(-10.0, 10.0),
        2 => r.below(2) as f64,
        // often proportional to each other
        4 => *r.pick(&[1.0, 2.0, 3.0]) * *r.pick(&[0.1, 0.7, 1.3]),
        _ => if r.chance(1, 4) { 0.0 } else { r.range(1, 64) as f64 / 16.0 },
    }
}
macro_rules! p {
    ($($t:ty, $eps:expr, $put:expr, $c:expr);*) => {$(impl P for $t {
        const EPS: f64 = $eps;
        fn put(r: &mut Rng, kind: u8) -> Self {
            let f: fn(&mut Rng, u8) -> $t = $put;
            f(r, kind)
        }
        fn c(self) -> C64 {
            let f: fn($t) -> C64 = $c;
            f(self)
        }
    })*};
}
p!(f64, f64::EPSILON, coord, |x| C64::new(x, 0.0);
   f32, f32::EPSILON as f64, |r, k| coord(r, k) as f32, |x| C64::new(x as f64, 0.0);
   C64, f64::EPSILON, |r, k| C64::new(coord(r, k), coord(r, k)), |x| x;
   C32, f32::EPSILON as f64, |r, k| C32::new(coord(r, k) as f32, coord(r, k) as f32), |x| C64::new(x.re as f64, x.im as f64);
   i32, f64::EPSILON, |r, _| r.range(-2, 2) as i32, |x| C64::new(x as f64, 0.0);
   u8, f64::EPSILON, |r, _| r.below(3) as u8, |x| C64::new(x as f64, 0.0);
   bool, f64::EPSILON, |r, _| r.bool(), |x| C64::new(x as u8 as f64, 0.0));

trait O: Copy + Clone + Send + Sync + std::fmt::Debug + num::Float + 'static {
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
}
impl O for f64 {
    fn f(self) -> f64 { self }
    fn of(x: f64) -> Self { x }
}
impl O for f32 {
    fn f(self) -> f64 { self as f64 }
    fn of(x: f64) -> Self { x as f32 }
}

/// Coordinates of the two point sets, shape of a case.
struct Sets {
    m: usize,
    n: usize,
    k: usize,
}
fn sets(r: &mut Rng) -> Sets {
    let k = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 30 + r.below(40),
        _ => 1 + r.below(9),
    };
    let (m, n) = match r.below(10) {
        0 => (r.below(2), r.below(3)),
        1 => (r.below(200), r.below(30)),
        2 => (r.below(12), r.below(200)),
        3 => (60 + r.below(80), 60 + r.below(80)),
        _ => (r.below(14), r.below(14)),
    };
    // rows so long that the blocks become small
    if r.chance(1, 60) {
        return Sets { m: r.below(30), n: r.below(30), k: 1000 + r.below(1500) };
    }
    Sets { m, n, k }
}
fn near(m: M, got: f64, want: f64, err: f64, eps: f64) -> bool {
    let tiny = 1e-30;
    if m == M::JensenShannon {
        return got >= 0.0 && (got * got - want * want).abs() <= err * eps;
    }
    (got - want).abs() <= err * eps + tiny
}

/// Results that own memory; those made and dropped are counted.
#[derive(Default)]
pub struct Book {
    born: AtomicUsize,
    dead: AtomicUsize,
}
static BAD: AtomicUsize = AtomicUsize::new(0);
const MAGIC: u64 = 0x7261_6e67_6500_1d5e;
pub struct Tracked {
    magic: u64,
    body: std::mem::ManuallyDrop<(String, Arc<Book>)>,
}
impl Tracked {
    fn new(book: &Arc<Book>, text: String) -> Tracked {
        book.born.fetch_add(1, Relaxed);
        Tracked { magic: MAGIC, body: std::mem::ManuallyDrop::new((text, book.clone())) }
    }
    fn text(&self) -> &str {
        &self.body.0
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new(&self.body.1, self.body.0.clone())
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if unsafe { std::ptr::read_volatile(&self.magic) } != MAGIC {
            BAD.fetch_add(1, Relaxed);
            return;
        }
        self.magic = 0;
        self.body.1.dead.fetch_add(1, Relaxed);
        unsafe { std::mem::ManuallyDrop::drop(&mut self.body) }
    }
}

/// Quadrature rules: points and weights of all orders.
const ORDERS: [(usize, usize); 32] = [
    (3, 6), (5, 14), (7, 26), (9, 38), (11, 50), (13, 74), (15, 86), (17, 110), (19, 146), (21, 170), (23, 194),
    (25, 230), (27, 266), (29, 302), (31, 350), (35, 434), (41, 590), (47, 770), (53, 974), (59, 1202), (65, 1454),
    (71, 1730), (77, 2030), (83, 2354), (89, 2702), (95, 3074), (101, 3470), (107, 3890), (113, 4334), (119, 4802),
    (125, 5294), (131, 5810),
];
fn odd_factorial(n: usize) -> f64 {
    (1..=n).step_by(2).map(|x| x as f64).product()
}
/// Mean of a monomial over the unit sphere.
fn monomial(a: usize, b: usize, c: usize) -> f64 {
    if a % 2 + b % 2 + c % 2 > 0 {
        return 0.0;
    }
    let f = |n: usize| if n == 0 { 1.0 } else { odd_factorial(n - 1) };
    f(a) * f(b) * f(c) / odd_factorial(a + b + c + 1)
}
fn order_case(c: &mut Case) -> R {
    let n = c.rng.below(200);
    c.d(format!("order {n}"));
    c.eval();
    c.nontrivial();
    let want = ORDERS.iter().find(|x| x.0 == n).map(|x| x.1);
    let got = no_panic(|| lebedev_order_to_degree(n).ok())?;
    ensure!(got == want, "order {n} stands for {got:?} points");
    let k = if c.rng.bool() { c.rng.pick(&ORDERS).1 } else { c.rng.below(6000) };
    let want = ORDERS.iter().find(|x| x.1 == k).map(|x| x.0);
    let got = no_panic(|| lebedev_degree_to_order(k).ok())?;
    ensure!(got == want, "{k} points stand for order {got:?}");
    let dev = rstsr_core::prelude::DeviceCpuSerial::default();
    if ORDERS.iter().all(|x| x.0 != n) {
        ensure!(no_panic(|| lebedev_rule_f(n, &dev).is_err())?, "a rule of order {n}");
    }
    if want.is_none() {
        ensure!(no_panic(|| lebedev_rule_from_degree_f(k, &dev).is_err())?, "a rule of {k} points");
    }
    Ok(())
}

devices!("c21.rs");
#[cfg(feature = "blas")]
blas_device!("c21.rs");

fn main() {
    main_check(Check {
        prop: "C21",
        level: "exploration",
        rule: "a case is two point sets with a metric, or a rule with directions; distinct by data, layout, metric and device",
        assumptions: &[
            "weights of a rule sum to one",
            "the definitions are those of SciPy: Minkowski distances with weights apply them to the powers, the correlation distance with weights uses weighted means",
            "where a definition has no value (a quotient by zero, negative parts of a distribution) the entry is not judged",
            "entries may differ by rounding; Jensen-Shannon distances are compared by their squares",
        ],
        families: {
            #[allow(unused_mut)]
            let mut v = vec![
                fam("orders", order_case, 4000, 20000),
                fam("cdist_serial", ser::dist_case, 6000, 600000),
                fam("cdist_pool", par::dist_case, 6000, 400000),
                fam("user_serial", ser::user_case, 2000, 100000),
                fam("user_pool", par::user_case, 2000, 100000),
                fam("owned_serial", ser::owned_case, 2000, 100000),
                fam("owned_pool", par::owned_case, 2000, 100000),
                fam("wrong_serial", ser::wrong_case, 2000, 50000),
                fam("wrong_pool", par::wrong_case, 2000, 50000),
                fam("rule_serial", ser::rule_case, 400, 20000),
                fam("rule_pool", par::rule_case, 200, 20000),
            ];
            #[cfg(feature = "blas")]
            {
                v = vec![
                    fam("cdist_blas", obl::dist_case, 6000, 400000),
                    fam("user_blas", obl::user_case, 2000, 100000),
                    fam("owned_blas", obl::owned_case, 2000, 100000),
                    fam("wrong_blas", obl::wrong_case, 2000, 50000),
                    fam("rule_blas", obl::rule_case, 100, 20000),
                ];
            }
            v
        },
        workers: 8,
    })
}
