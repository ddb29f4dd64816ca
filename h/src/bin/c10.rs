//! C10: indexed selection, joining and splitting place every element where their definitions say.
use rstsr_core::prelude::*;
use vh::*;

fn one(r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    let cls = match r.below(300) {
        0 => Cls::Huge,
        1..=8 => Cls::Big,
        9..=30 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let mut sh = gen_shape(r, lo, hi, cls);
    for n in sh.iter_mut() {
        if *n == 0 && !r.chance(1, 8) {
            *n = 2;
        }
    }
    sh
}

fn nd<T: Clone>(raw: &[T], s: &Spec) -> Nd<T> {
    observe(raw, &s.shape, &s.stride, s.offset).unwrap()
}

/// Elements of `m` at `idx` along `axis`.
fn select<T: Clone>(m: &Nd<T>, axis: usize, idx: &[usize]) -> Nd<T> {
    let mut sh = m.shape.clone();
    sh[axis] = idx.len();
    Nd::from_fn(&sh, |i| {
        let mut j = i.to_vec();
        j[axis] = idx[i[axis]];
        m.at(&j).clone()
    })
}

/// `ms` one after the other along `axis`.
fn join<T: Clone>(ms: &[Nd<T>], axis: usize) -> Nd<T> {
    let mut sh = ms[0].shape.clone();
    sh[axis] = ms.iter().map(|m| m.shape[axis]).sum();
    Nd::from_fn(&sh, |i| {
        let mut j = i.to_vec();
        let mut k = 0;
        while j[axis] >= ms[k].shape[axis] {
            j[axis] -= ms[k].shape[axis];
            k += 1;
        }
        ms[k].at(&j).clone()
    })
}

fn with_axes<T: Clone>(m: &Nd<T>, at: &[usize]) -> Nd<T> {
    let mut sh = m.shape.clone();
    for &a in at {
        sh.insert(a, 1);
    }
    Nd { shape: sh, data: m.data.clone() }
}

fn atleast<T: Clone>(m: &Nd<T>, n: usize) -> Nd<T> {
    match (n, m.shape.len()) {
        (1, 0) => with_axes(m, &[0]),
        (2, 0) => with_axes(m, &[0, 1]),
        (2, 1) => with_axes(m, &[0]),
        (3, 0) => with_axes(m, &[0, 1, 2]),
        (3, 1) => with_axes(m, &[0, 2]),
        (3, 2) => with_axes(m, &[2]),
        _ => m.clone(),
    }
}

devices!("c10.rs");

fn main() {
    main_check(Check {
        prop: "C10",
        level: "exploration",
        rule: "a case counts when the result has at least one element and the request moves or selects something; distinct by layouts and request",
        assumptions: &["diag, meshgrid, hstack, vstack and atleast_nd follow NumPy"],
        families: vec![
            fam("select_serial", ser::select_case, 30000, 1500000),
            fam("select_pool", par::select_case, 25000, 1200000),
            fam("join_serial", ser::join_case, 25000, 1200000),
            fam("join_pool", par::join_case, 20000, 1000000),
            fam("split_serial", ser::split_case, 12000, 600000),
            fam("grid_serial", ser::grid_case, 12000, 600000),
            fam("grid_pool", par::grid_case, 6000, 300000),
            fam("diag_serial", ser::diag_case, 20000, 1000000),
            fam("diag_pool", par::diag_case, 10000, 500000),
        ],
        workers: 8,
    })
}
