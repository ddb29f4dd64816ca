//! C06: arg-reductions name the first extremal element.
use rstsr_core::prelude::*;
use vh::*;

fn one(r: &mut Rng) -> Spec {
    let cls = match r.below(400) {
        0 => Cls::Huge,
        1..=50 => Cls::Big,
        51..=110 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let mut sh = gen_shape(r, 0, 5, cls);
    for n in sh.iter_mut() {
        if *n == 0 && !r.chance(1, 30) {
            *n = 1;
        }
    }
    let b = r.chance(1, 4);
    gen_layout(r, &sh, b)
}

fn nd<T: Clone>(raw: &[T], s: &Spec) -> Nd<T> {
    observe(raw, &s.shape, &s.stride, s.offset).unwrap()
}

/// Which axes a request reduces.
#[derive(Clone, Debug)]
pub enum Ax {
    /// scalar result
    All,
    /// `None` given as axes
    Null,
    One(isize),
    List(Vec<isize>),
}

fn gen_ax(r: &mut Rng, n: usize) -> (Ax, Vec<usize>) {
    let all: Vec<usize> = (0..n).collect();
    match r.below(8) {
        0..=1 => (Ax::All, all),
        2 => (Ax::Null, all),
        3 if n > 0 => {
            let a = r.below(n);
            (Ax::One(sgn(r, a, n)), vec![a])
        },
        _ => {
            let p = r.perm(n);
            let k = r.usize(0, n);
            let v: Vec<usize> = p[..k].to_vec();
            (Ax::List(v.iter().map(|&a| sgn(r, a, n)).collect()), v)
        },
    }
}

/// Per output position: (position in the listed reduced axes, value), row-major over them.
fn group<T: Clone>(m: &Nd<T>, axes: &[usize]) -> Nd<Vec<(Vec<usize>, T)>> {
    let n = m.shape.len();
    let keep: Vec<usize> = (0..n).filter(|a| !axes.contains(a)).collect();
    let ks: Vec<usize> = keep.iter().map(|&a| m.shape[a]).collect();
    let rs: Vec<usize> = axes.iter().map(|&a| m.shape[a]).collect();
    let mut idx = vec![0; n];
    Nd::from_fn(&ks, |k| {
        for (i, &a) in keep.iter().enumerate() {
            idx[a] = k[i];
        }
        let mut v = vec![];
        for_idx(&rs, |q| {
            for (i, &a) in axes.iter().enumerate() {
                idx[a] = q[i];
            }
            v.push((q.to_vec(), m.at(&idx).clone()));
        });
        v
    })
}

fn first<T: PartialOrd>(v: &[(Vec<usize>, T)], max: bool) -> (usize, Vec<usize>) {
    let mut b = 0;
    for k in 1..v.len() {
        if if max { v[k].1 > v[b].1 } else { v[k].1 < v[b].1 } {
            b = k;
        }
    }
    (b, v[b].0.clone())
}

devices!("c06.rs");

fn main() {
    main_check(Check {
        prop: "C06",
        level: "exploration",
        rule: "a case counts when some reduced group has a tie for its extremum; distinct by layout, axes, element type and request",
        assumptions: &["elements are totally ordered (no NaN)", "flat positions count in row-major order of the reduced axes as listed, as on every device"],
        families: vec![
            fam("flat_serial", ser::flat, 30000, 1500000),
            fam("flat_pool", par::flat, 30000, 1500000),
            fam("multi_serial", ser::multi, 30000, 1500000),
            fam("multi_pool", par::multi, 30000, 1500000),
        ],
        workers: 8,
    })
}
