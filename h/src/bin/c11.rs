//! C11: created arrays hold the requested values in the requested layout.
use rstsr_core::prelude::*;
use vh::*;

/// C- or F-contiguous with offset 0, axes of length 1 (and empty arrays) aside.
fn check_contig(what: &str, shape: &[usize], stride: &[isize], offset: usize, len: usize, colm: bool) -> R {
    let size = size_of(shape);
    ensure!(len >= size, "{what}: buffer of {len} for {size} elements");
    if size == 0 {
        return Ok(());
    }
    ensure!(offset == 0, "{what}: offset {offset}");
    let want = contig_spec(shape, colm);
    for k in 0..shape.len() {
        ensure!(
            shape[k] == 1 || stride[k] == want.stride[k],
            "{what}: shape {shape:?} has strides {stride:?}, requested {} order",
            if colm { "column-major" } else { "row-major" }
        );
    }
    Ok(())
}

/// Elements of the half-open range.
fn range_i(a: i128, b: i128, s: i128) -> Vec<i128> {
    let mut v = vec![];
    let mut x = a;
    while (s > 0 && x < b) || (s < 0 && x > b) {
        v.push(x);
        x += s;
    }
    v
}

fn sh(r: &mut Rng) -> Vec<usize> {
    let cls = match r.below(200) {
        0 => Cls::Huge,
        1..=5 => Cls::Big,
        6..=20 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let mut s = gen_shape(r, 0, 5, cls);
    for n in s.iter_mut() {
        if *n == 0 && !r.chance(1, 4) {
            *n = 2;
        }
    }
    s
}

devices!("c11.rs");

fn nested_case(c: &mut Case) -> R {
    let (x, y) = (c.rng.range(-99, 99), c.rng.range(-99, 99));
    let colm = c.rng.bool();
    c.eval();
    c.nontrivial();
    let k = c.rng.below(6);
    c.d(format!("nested {k} {x} {y} colm {colm}"));
    let e = |n: usize| (0..n as i64).map(|i| x + i * y).collect::<Vec<i64>>();
    let v = |i: i64| x + i * y;
    let (got, want) = match k {
        0 => (obs!(rt::tensor_from_nested!([v(0), v(1), v(2)], serial(colm))), Nd { shape: vec![3], data: e(3) }),
        1 => (
            obs!(rt::tensor_from_nested!([[v(0), v(1), v(2)], [v(3), v(4), v(5)]], serial(colm))),
            Nd { shape: vec![2, 3], data: e(6) },
        ),
        2 => (
            obs!(rt::tensor_from_nested!([[[v(0)], [v(1)], [v(2)]], [[v(3)], [v(4)], [v(5)]]], faer(2, colm))),
            Nd { shape: vec![2, 3, 1], data: e(6) },
        ),
        3 => (
            obs!(rt::tensor_from_nested!([[[[v(0), v(1)], [v(2), v(3)]]], [[[v(4), v(5)], [v(6), v(7)]]]])),
            Nd { shape: vec![2, 1, 2, 2], data: e(8) },
        ),
        4 => (
            obs!(rt::tensor_from_nested!([[[[[v(0)], [v(1)]], [[v(2)], [v(3)]], [[v(4)], [v(5)]]]]], serial(colm))),
            Nd { shape: vec![1, 1, 3, 2, 1], data: e(6) },
        ),
        _ => (
            obs!(rt::tensor_from_nested!([[[[[[v(0), v(1)], [v(2), v(3)], [v(4), v(5)]]]]]], serial(colm))),
            Nd { shape: vec![1, 1, 1, 1, 3, 2], data: e(6) },
        ),
    };
    same("nested array", &got, &want)
}

fn main() {
    main_check(Check {
        prop: "C11",
        level: "exploration",
        rule: "a case counts when the created array has at least one element; distinct by request",
        assumptions: &[
            "range lengths of floating-point steps are the exact ceiling, give or take one where the quotient is within rounding of an integer",
            "tril and triu act on the last two axes; stacks of matrices are only judged in row-major mode",
        ],
        families: vec![
            fam("range_serial", ser::range_case, 14000, 1500000),
            fam("range_pool", par::range_case, 12000, 1200000),
            fam("linspace_serial", ser::linspace_case, 6000, 600000),
            fam("linspace_pool", par::linspace_case, 6000, 600000),
            fam("fill_serial", ser::fill_case, 12000, 1200000),
            fam("fill_pool", par::fill_case, 10000, 1000000),
            fam("like_serial", ser::like_case, 15000, 700000),
            fam("like_pool", par::like_case, 12000, 600000),
            fam("eye_serial", ser::eye_case, 4000, 500000),
            fam("eye_pool", par::eye_case, 3000, 200000),
            fam("tri_serial", ser::tri_case, 20000, 1000000),
            fam("tri_pool", par::tri_case, 15000, 700000),
            fam("wrap_serial", ser::wrap_case, 12000, 1000000),
            fam("wrap_pool", par::wrap_case, 10000, 700000),
            fam("nested", nested_case, 3000, 100000),
        ],
        workers: 8,
    })
}
