//! C12: row-major and column-major modes are mirror images.
use rstsr_core::prelude::*;
use vh::*;

/// A layout for the model, and the buffer that denotes it there.
fn place<T: V>(r: &mut Rng, m: &Nd<T>) -> (Spec, Vec<T>) {
    let s = gen_layout(r, &m.shape, false);
    let mut raw: Vec<T> = gen_raw(r, s.len);
    for (k, p) in positions(s.len, &s.shape, &s.stride, s.offset).unwrap().into_iter().enumerate() {
        raw[p] = m.data[k].clone();
    }
    (s, raw)
}

fn sh(r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    let cls = match r.below(300) {
        0 => Cls::Huge,
        1..=5 => Cls::Big,
        6..=20 => Cls::Mid,
        _ => Cls::Tiny,
    };
    gen_shape(r, lo, hi, cls)
}

/// Values whose sums and products are exact.
trait Ex: V {
    fn ex(r: &mut Rng) -> Self;
}
impl Ex for i64 {
    fn ex(r: &mut Rng) -> i64 {
        r.range(-50, 50)
    }
}
impl Ex for f64 {
    fn ex(r: &mut Rng) -> f64 {
        r.range(-50, 50) as f64 / 4.0
    }
}

fn nd<T: Ex>(r: &mut Rng, s: &[usize]) -> Nd<T> {
    Nd::from_fn(s, |_| T::ex(r))
}

/// Observed array of the column-major run, mirrored.
fn mirror<T: Clone>(g: Result<Nd<T>, String>) -> Result<Nd<T>, String> {
    g.map(|m| m.reversed_axes())
}

fn agree<T: V>(what: &str, row: Result<Nd<T>, String>, col: Result<Nd<T>, String>) -> R {
    match row {
        Err(e) => bail!("{what}: row-major result: {e}"),
        Ok(w) => sim(what, &mirror(col), &w),
    }
}

/// The same request in both modes, no mirroring.
fn equal<T: V>(what: &str, row: Result<Nd<T>, String>, col: Result<Nd<T>, String>) -> R {
    match row {
        Err(e) => bail!("{what}: row-major result: {e}"),
        Ok(w) => sim(what, &col, &w),
    }
}

/// Mirror of an axis.
fn ma(a: usize, n: usize) -> isize {
    n as isize - 1 - a as isize
}

devices!("c12.rs");

fn main() {
    main_check(Check {
        prop: "C12",
        level: "exploration",
        rule: "a case counts when the two modes computed a result with at least two elements; distinct by operation, shapes and layouts",
        assumptions: &[
            "the mirror image of a matrix product swaps its operands; of a lower triangle it is the upper triangle",
            "functions defined through fixed axis numbers (hstack, vstack, atleast, xy-meshgrid) have no mirror image and are compared unmirrored",
            "positions reported by arg-reductions count in row-major order in both modes",
        ],
        families: vec![
            fam("mirror_serial", ser::mirror_case, 40000, 2000000),
            fam("mirror_pool", par::mirror_case, 30000, 1500000),
            fam("same_serial", ser::same_case, 30000, 1500000),
            fam("same_pool", par::same_case, 20000, 1000000),
        ],
        workers: 8,
    })
}
