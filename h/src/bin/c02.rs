//! C02: reshaping and layout changes keep the element sequence; sharing and copying are as asked.
use rstsr_core::prelude::*;
use vh::*;

/// A random shape with the same number of elements.
fn refactor(r: &mut Rng, shape: &[usize]) -> Vec<usize> {
    let mut s = shape.to_vec();
    for _ in 0..r.usize(0, 4) {
        match r.below(4) {
            0 if s.len() >= 2 => {
                // merge two neighbours
                let k = r.below(s.len() - 1);
                s[k] *= s[k + 1];
                s.remove(k + 1);
            },
            1 => {
                // split an axis
                if !s.is_empty() {
                    let k = r.below(s.len());
                    if s[k] > 0 {
                        let divs: Vec<usize> = (1..=s[k].min(64)).filter(|d| s[k] % d == 0).collect();
                        let d = *r.pick(&divs);
                        let q = s[k] / d;
                        s[k] = d;
                        s.insert(k + 1, q);
                    } else {
                        let v = r.usize(0, 3);
                        s.insert(k, v);
                    }
                }
            },
            2 => {
                let k = r.usize(0, s.len());
                s.insert(k, 1);
            },
            _ => {
                if let Some(k) = s.iter().position(|&n| n == 1) {
                    s.remove(k);
                }
            },
        }
    }
    if s.len() > 7 {
        let n: usize = s.iter().product();
        return vec![n];
    }
    s
}

/// Strides that make `pos` (positions in row-major order over `shape`) a strided view, if any.
fn strides_for(shape: &[usize], pos: &[usize]) -> bool {
    if pos.is_empty() {
        return true;
    }
    let nd = shape.len();
    let mut st = vec![0i64; nd];
    let mut acc = 1;
    for k in (0..nd).rev() {
        if shape[k] > 1 {
            st[k] = pos[acc] as i64 - pos[0] as i64;
        }
        acc *= shape[k];
    }
    let mut ok = true;
    let mut n = 0;
    for_idx(shape, |i| {
        let p: i64 = pos[0] as i64 + i.iter().zip(&st).map(|(&a, &b)| a as i64 * b).sum::<i64>();
        ok &= p == pos[n] as i64;
        n += 1;
    });
    ok
}

fn big_base(r: &mut Rng, bcast: bool) -> (Spec, Vec<usize>, Nd<usize>) {
    let cls = match r.below(200) {
        0 => Cls::Huge,
        1..=3 => Cls::Big,
        4..=30 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let shape = gen_shape(r, 0, 5, cls);
    let spec = gen_layout(r, &shape, bcast);
    let raw: Vec<usize> = (0..spec.len).collect();
    let m = observe(&raw, &spec.shape, &spec.stride, spec.offset).unwrap();
    (spec, raw, m)
}

fn contig_ok(shape: &[usize], stride: &[isize], colm: bool) -> bool {
    if shape.iter().any(|&n| n == 0) {
        return true;
    }
    let w = contig_spec(shape, colm);
    shape.iter().enumerate().all(|(k, &n)| n <= 1 || stride[k] == w.stride[k])
}

/// c-prefer: strides of axes with more than one element do not increase (last axis unit stride).
fn prefer_ok(shape: &[usize], stride: &[isize], colm: bool) -> bool {
    if shape.contains(&0) {
        return true;
    }
    let mut v: Vec<isize> = shape.iter().zip(stride).filter(|(&n, _)| n > 1).map(|(_, &s)| s).collect();
    if colm {
        v.reverse();
    }
    v.windows(2).all(|w| w[0].abs() >= w[1].abs())
}

devices!("c02.rs");

fn main() {
    main_check(Check {
        prop: "C02",
        level: "exploration",
        rule: "a case counts when the array is non-empty and the requested shape or layout differs from the present one; distinct by base layout and request",
        assumptions: &[],
        families: vec![
            fam("reshape_serial", ser::reshape, 250000, 10000000),
            fam("reshape_pool", par::reshape, 60000, 2000000),
            fam("layout_serial", ser::layout, 150000, 6000000),
            fam("layout_pool", par::layout, 40000, 1500000),
            fam("refuse", ser::refuse, 20000, 500000),
            fam("flags", ser::flags, 60000, 2000000),
        ],
        workers: 8,
    })
}
