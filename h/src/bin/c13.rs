//! C13: invalid requests are refused with an error and leave every argument as it was.
use rstsr_core::prelude::*;
use rstsr_core::tensor::exports::DiagonalArgs;
use vh::*;

/// The fallible spelling of an invalid request must answer with an error.
fn refused<T, E>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R {
    match no_panic(f) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(v)) => {
            // what was made of the request may not be fit to be dropped
            std::mem::forget(v);
            fail(&format!("accepted-{what}"), format!("{what}: an invalid request was accepted"))
        },
        Err(p) => fail(&format!("panic-{what}"), format!("{what}: panicked instead of returning an error: {p}")),
    }
}

/// The other spelling must panic.
fn dies<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match no_panic(f) {
        Err(_) => Ok(()),
        Ok(v) => {
            std::mem::forget(v);
            fail(&format!("accepted-{what}"), format!("{what}: an invalid request was accepted"))
        },
    }
}

/// An axis that an array of `n` axes does not have.
fn bad_axis(r: &mut Rng, n: usize) -> isize {
    let n = n as isize;
    match r.below(7) {
        0 => n,
        1 => -n - 1,
        2 => n + r.usize(1, 5) as isize,
        3 => -n - 1 - r.usize(1, 5) as isize,
        4 => isize::MAX,
        5 => isize::MIN,
        _ => n + 1,
    }
}

/// An axis list that is out of range or has repetitions, for an array of `n` axes.
fn bad_axes(r: &mut Rng, n: usize) -> Vec<isize> {
    if n == 0 {
        return vec![bad_axis(r, 0)];
    }
    let k = r.usize(1, n.max(2));
    let mut v: Vec<isize> = r.perm(n).into_iter().take(k).map(|a| sgn(r, a, n)).collect();
    if r.bool() {
        let at = r.below(v.len());
        v[at] = bad_axis(r, n);
    } else {
        // the same axis twice, perhaps once from the front and once from the back
        let a = v[r.below(v.len())];
        let a = if r.bool() { a } else if a < 0 { a + n as isize } else { a - n as isize };
        let at = r.below(v.len() + 1);
        v.insert(at, a);
    }
    v
}

fn axes_index(v: &[isize]) -> AxesIndex<isize> {
    if v.len() == 1 && v[0] % 2 == 0 {
        AxesIndex::Val(v[0])
    } else {
        AxesIndex::Vec(v.to_vec())
    }
}

fn small(r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    let cls = if r.chance(1, 20) { Cls::Mid } else { Cls::Tiny };
    gen_shape(r, lo, hi, cls)
}

fn any_layout(r: &mut Rng, sh: &[usize]) -> Spec {
    let b = r.chance(1, 6);
    gen_layout(r, sh, b)
}

/// A shape that cannot be broadcast together with `sh` (every axis of which may have any extent).
fn clashing(r: &mut Rng, sh: &[usize]) -> Option<Vec<usize>> {
    let big: Vec<usize> = (0..sh.len()).filter(|&i| sh[i] != 1).collect();
    if big.is_empty() {
        return None;
    }
    let at = *r.pick(&big);
    let mut out = sh.to_vec();
    out[at] = match sh[at] {
        0 => 2 + r.below(3),
        n => n + 1 + r.below(3),
    };
    for i in 0..out.len() {
        if i != at && r.chance(1, 4) {
            out[i] = 1;
        }
    }
    Some(out)
}

/// A shape to which `sh` cannot be broadcast, in either direction or only in this one.
fn not_a_target(r: &mut Rng, sh: &[usize], colm: bool) -> Option<Vec<usize>> {
    if r.bool() {
        return clashing(r, sh);
    }
    // fewer axes, or an extent of one where `sh` has more
    let big: Vec<usize> = (0..sh.len()).filter(|&i| sh[i] != 1).collect();
    if big.is_empty() {
        return None;
    }
    let mut out = sh.to_vec();
    if r.bool() {
        out[*r.pick(&big)] = 1;
    } else {
        // drop an axis at the aligned end's far side only if it is not of extent one
        let far = if colm { sh.len() - 1 } else { 0 };
        out.remove(far);
        if bcast_shape_ord(sh, &out, colm).as_deref() == Some(&out[..]) {
            return None;
        }
    }
    Some(out)
}

devices!("c13.rs");

fn main() {
    main_check(Check {
        prop: "C13",
        level: "exploration",
        rule: "every case makes at least one request that must be refused; distinct by operation, layouts and arguments",
        assumptions: &["which requests are inconsistent follows the documentation and NumPy; fixed-dimensionality misuse that the types exclude is out of scope"],
        families: vec![
            fam("views_serial", ser::views_case, 160000, 2000000),
            fam("views_pool", par::views_case, 40000, 500000),
            fam("slices_serial", ser::slices_case, 160000, 2000000),
            fam("slices_pool", par::slices_case, 40000, 500000),
            fam("reshape_serial", ser::reshape_case, 128000, 1600000),
            fam("reshape_pool", par::reshape_case, 32000, 400000),
            fam("layouts_serial", ser::layouts_case, 128000, 1600000),
            fam("layouts_pool", par::layouts_case, 32000, 400000),
            fam("arith_serial", ser::arith_case, 128000, 1600000),
            fam("arith_pool", par::arith_case, 32000, 400000),
            fam("reduce_serial", ser::reduce_case, 96000, 1200000),
            fam("reduce_pool", par::reduce_case, 24000, 300000),
            fam("products_serial", ser::products_case, 96000, 1200000),
            fam("products_pool", par::products_case, 24000, 300000),
            fam("select_serial", ser::select_case, 128000, 1600000),
            fam("select_pool", par::select_case, 32000, 400000),
            fam("iters_serial", ser::iters_case, 64000, 800000),
            fam("iters_pool", par::iters_case, 16000, 200000),
            fam("create_serial", ser::create_case, 64000, 800000),
            fam("create_pool", par::create_case, 16000, 200000),
            fam("pack_serial", ser::pack_case, 64000, 800000),
            fam("pack_pool", par::pack_case, 16000, 200000),
        ],
        workers: 8,
    })
}
