//! C05: reductions equal the reduction of exactly the selected elements.
use std::num::Wrapping;
use rstsr_core::prelude::*;
use vh::*;

pub type W = Wrapping<u64>;

fn one(r: &mut Rng) -> Spec {
    let cls = match r.below(400) {
        0 => Cls::Huge,
        1..=16 => Cls::Big,
        17..=90 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let sh = gen_shape(r, 0, 5, cls);
    let b = r.chance(1, 4);
    gen_layout(r, &sh, b)
}

fn nd<T: Clone>(raw: &[T], s: &Spec) -> Nd<T> {
    observe(raw, &s.shape, &s.stride, s.offset).unwrap()
}

/// Which axes a request reduces.
#[derive(Clone, Debug)]
pub enum Ax {
    /// scalar result
    All,
    /// `None` given as axes
    Null,
    One(isize),
    List(Vec<isize>),
}

fn gen_ax(r: &mut Rng, n: usize) -> (Ax, Vec<usize>) {
    let all: Vec<usize> = (0..n).collect();
    match r.below(8) {
        0..=1 => (Ax::All, all),
        2 => (Ax::Null, all),
        3 if n > 0 => {
            let a = r.below(n);
            (Ax::One(sgn(r, a, n)), vec![a])
        },
        _ => {
            let p = r.perm(n);
            let k = r.usize(0, n);
            let v: Vec<usize> = p[..k].to_vec();
            (Ax::List(v.iter().map(|&a| sgn(r, a, n)).collect()), v)
        },
    }
}

/// The groups of elements that each output position reduces.
fn group<T: Clone>(m: &Nd<T>, axes: &[usize]) -> Nd<Vec<T>> {
    let n = m.shape.len();
    let keep: Vec<usize> = (0..n).filter(|a| !axes.contains(a)).collect();
    let red: Vec<usize> = (0..n).filter(|a| axes.contains(a)).collect();
    let ks: Vec<usize> = keep.iter().map(|&a| m.shape[a]).collect();
    let rs: Vec<usize> = red.iter().map(|&a| m.shape[a]).collect();
    let mut idx = vec![0; n];
    Nd::from_fn(&ks, |k| {
        for (i, &a) in keep.iter().enumerate() {
            idx[a] = k[i];
        }
        let mut v = vec![];
        for_idx(&rs, |q| {
            for (i, &a) in red.iter().enumerate() {
                idx[a] = q[i];
            }
            v.push(m.at(&idx).clone());
        });
        v
    })
}

/// Compares element by element with the predicate `ok(got, group)`.
fn judge<T: Clone + std::fmt::Debug, U: Clone + std::fmt::Debug>(
    what: &str,
    got: &Result<Nd<U>, String>,
    g: &Nd<Vec<T>>,
    ok: impl Fn(&U, &[T]) -> Result<(), String>,
) -> R {
    match got {
        Err(e) => bail!("{what}: {e}; wanted shape {:?}", g.shape),
        Ok(r) => {
            ensure!(r.shape == g.shape, "{what}: shape {:?}, wanted {:?}", r.shape, g.shape);
            for k in 0..g.data.len() {
                if let Err(e) = ok(&r.data[k], &g.data[k]) {
                    bail!("{what}: output shape {:?}: element #{k} (row-major) {e}", g.shape);
                }
            }
        },
    }
    Ok(())
}

/// Error-compensated sum.
fn csum(it: impl Iterator<Item = f64>) -> (f64, f64) {
    let (mut s, mut c, mut abs) = (0.0f64, 0.0f64, 0.0f64);
    for x in it {
        let t = s + x;
        c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
        s = t;
        abs += x.abs();
    }
    (s + c, abs)
}

fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    if (want.is_nan() && got.is_nan()) || got == want || (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("is {got:?}, wanted {what} {want:?} (tolerance {tol:e})"))
    }
}

devices!("c05.rs");

fn main() {
    main_check(Check {
        prop: "C05",
        level: "exploration",
        rule: "a case counts when at least one output element reduces at least two elements; distinct by layout, axes, element type and reduction",
        assumptions: &[
            "floating-point results are judged with the error bound of any summation order of the textbook formulas (for variance: mean of squares minus squared mean)",
            "minima and maxima of groups made only of NaN are left out",
        ],
        families: vec![
            fam("exact_serial", ser::exact, 120000, 5000000),
            fam("exact_pool", par::exact, 80000, 3000000),
            fam("minmax_serial", ser::minmax, 60000, 2000000),
            fam("minmax_pool", par::minmax, 40000, 1500000),
            fam("float_serial", ser::float, 80000, 3000000),
            fam("float_pool", par::float, 60000, 2500000),
            fam("close_serial", ser::close, 40000, 1500000),
            fam("close_pool", par::close, 30000, 1000000),
        ],
        workers: 8,
    })
}
