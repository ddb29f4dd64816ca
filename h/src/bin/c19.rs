//! C19: packing of triangles and of fixed-size arrays places every element where it is defined to be.
use num::complex::ComplexFloat;
use num::Num;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{PackArrayAPI, UnpackArrayAPI};
use vh::*;

/// Element types whose unpacking is defined.
trait E: V + Copy + ComplexFloat + Num + Default {
    fn label(r: &mut Rng, k: usize) -> Self;
    /// only the part that a diagonal of this symmetry may have
    fn diag(self, symm: u8) -> Self;
}
macro_rules! e_real {
    ($($t:ty),*) => {$(impl E for $t {
        fn label(r: &mut Rng, k: usize) -> Self { (k + 1) as $t * if r.bool() { 1.0 } else { -1.0 } }
        fn diag(self, symm: u8) -> Self { if symm >= 2 { 0.0 } else { self } }
    })*};
}
macro_rules! e_cx {
    ($($t:ty, $f:ty);*) => {$(impl E for $t {
        fn label(r: &mut Rng, k: usize) -> Self {
            <$t>::new((k + 1) as $f * if r.bool() { 1.0 } else { -1.0 }, (k + 1) as $f + 0.5)
        }
        fn diag(self, symm: u8) -> Self {
            match symm {
                0 => self,
                1 => <$t>::new(self.re, 0.0),
                2 => <$t>::new(0.0, 0.0),
                _ => <$t>::new(0.0, self.im),
            }
        }
    })*};
}
e_real!(f32, f64);
e_cx!(C32, f32; C64, f64);

/// Pairs of a packed triangle in the order they are stored.
fn packed(n: usize, lower: bool, colm: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for x in 0..n {
        for y in 0..n {
            // row by row in row-major mode, column by column in column-major mode
            let (i, j) = if colm { (y, x) } else { (x, y) };
            if (lower && i >= j) || (!lower && i <= j) {
                v.push((i, j));
            }
        }
    }
    v
}
/// Shape of a stack of matrices; its matrix axes are the last two, or in column-major mode the first two.
fn stack(r: &mut Rng, n: usize, colm: bool) -> (Vec<usize>, Vec<usize>) {
    let cls = if n > 12 { Cls::Tiny } else { *r.pick(&[Cls::Tiny, Cls::Tiny, Cls::Mid]) };
    let mut rest = gen_shape(r, 0, 3, cls);
    let cap = if r.chance(1, 10) { 40000 } else { 8000 };
    while rest.iter().product::<usize>() * n * n > cap && rest.iter().any(|&k| k > 1) {
        let k = r.below(rest.len());
        rest[k] = (rest[k] / 2).max(1);
    }
    let mut s = rest.clone();
    if colm {
        s.insert(0, n);
        s.insert(0, n);
    } else {
        s.push(n);
        s.push(n);
    }
    (s, rest)
}
fn mat_size(r: &mut Rng) -> usize {
    match r.below(30) {
        0 => 0,
        1..=3 => 1,
        4..=6 => r.usize(10, 30),
        7 if !small_only() => r.usize(31, 130),
        _ => r.usize(2, 7),
    }
}
fn join(rest: &[usize], inner: &[usize], colm: bool) -> Vec<usize> {
    if colm {
        [inner, rest].concat()
    } else {
        [rest, inner].concat()
    }
}
/// Index of an entry of the stack.
fn split(i: &[usize], inner: usize, colm: bool) -> (Vec<usize>, Vec<usize>) {
    if colm {
        (i[inner..].to_vec(), i[..inner].to_vec())
    } else {
        (i[..i.len() - inner].to_vec(), i[i.len() - inner..].to_vec())
    }
}
fn triangular(p: usize) -> Option<usize> {
    (0..).map(|n| (n, n * (n + 1) / 2)).take_while(|t| t.1 <= p).find(|t| t.1 == p).map(|t| t.0)
}

devices!("c19.rs");

fn main() {
    main_check(Check {
        prop: "C19",
        level: "exploration",
        rule: "a case counts when at least two elements are packed or unpacked; distinct by operation, flags, type, layout and device mode",
        assumptions: &[
            "a packed triangle is stored row by row in row-major mode and column by column in column-major mode",
            "unpacked anti-symmetric matrices have a zero diagonal, anti-Hermitian ones an imaginary diagonal; packed diagonals of Hermitian matrices are real",
            "packing into arrays may be refused unless the axis is the contiguous one",
        ],
        families: vec![
            fam("pack_serial", ser::pack_case, 8000, 800000),
            fam("pack_pool", par::pack_case, 8000, 600000),
            fam("unpack_serial", ser::unpack_case, 8000, 800000),
            fam("unpack_pool", par::unpack_case, 8000, 600000),
            fam("round_serial", ser::round_case, 6000, 500000),
            fam("round_pool", par::round_case, 6000, 400000),
            fam("wrong_serial", ser::wrong_case, 4000, 100000),
            fam("wrong_pool", par::wrong_case, 3000, 100000),
            fam("array_serial", ser::array_case, 8000, 600000),
            fam("array_pool", par::array_case, 6000, 400000),
            fam("vec", vec_case, 6000, 300000),
        ],
        workers: 8,
    })
}

/// Plain vectors and slices.
fn vec_case(c: &mut Case) -> R {
    fn go<T: V + PartialEq, const N: usize>(c: &mut Case, mk: fn(usize) -> T) -> R {
        let r = &mut c.rng;
        let len = if r.chance(1, 4) { r.below(30) } else { r.below(12) * N };
        let cap = len + r.below(9);
        let form = r.below(3);
        c.d(format!("{} to arrays of {N}: length {len} capacity {cap} form {form}", std::any::type_name::<T>()));
        c.eval();
        if len > N {
            c.nontrivial();
        }
        let mut v: Vec<T> = Vec::with_capacity(cap);
        v.extend((0..len).map(mk));
        let want = v.clone();
        let check = |p: &[[T; N]]| -> R {
            ensure!(p.len() * N == len, "{} arrays", p.len());
            for (i, a) in p.iter().enumerate() {
                ensure!(a[..] == want[i * N..(i + 1) * N], "array {i}: {a:?}");
            }
            Ok(())
        };
        macro_rules! refused {
            ($x:expr) => {
                match $x {
                    Err(_) => {
                        ensure!(len % N != 0, "refused");
                        c.hit("refused");
                        return Ok(());
                    },
                    Ok(p) => {
                        ensure!(len % N == 0, "{len} elements taken as arrays of {N}");
                        p
                    },
                }
            };
        }
        match form {
            0 => {
                let mut p: Vec<[T; N]> = refused!(v.pack_array_f::<N>());
                check(&p)?;
                // grows and shrinks as any vector
                if c.rng.bool() {
                    p.reserve(1 + c.rng.below(5));
                } else {
                    p.shrink_to_fit();
                }
                check(&p)?;
                let mut u: Vec<T> = p.unpack_array();
                ensure!(u == want, "unpacked {u:?}");
                u.push(mk(7));
                u.pop();
                u.shrink_to_fit();
                ensure!(u == want, "unpacked {u:?}");
            },
            1 => {
                let p: &[[T; N]] = refused!(v.as_slice().pack_array_f::<N>());
                check(p)?;
                ensure!(p.as_ptr() as usize == v.as_ptr() as usize, "elsewhere");
                let u: &[T] = p.unpack_array();
                ensure!(u == want, "unpacked {u:?}");
            },
            _ => {
                let p: &mut [[T; N]] = refused!(v.as_mut_slice().pack_array_f::<N>());
                check(p)?;
                if let Some(a) = p.last_mut() {
                    a[N - 1] = mk(999);
                }
                let u: &mut [T] = p.unpack_array();
                if let Some(x) = u.last_mut() {
                    ensure!(*x == mk(999), "write through arrays lost");
                    *x = mk(len - 1);
                }
                ensure!(v == want, "now {v:?}");
            },
        }
        Ok(())
    }
    match c.rng.below(8) {
        0 => go::<i32, 1>(c, |k| k as i32),
        1 => go::<i32, 2>(c, |k| k as i32),
        2 => go::<f64, 3>(c, |k| k as f64),
        3 => go::<u8, 5>(c, |k| k as u8),
        4 => go::<C64, 4>(c, |k| C64::new(k as f64, 1.0)),
        5 => go::<u8, 3>(c, |k| k as u8),
        6 => go::<i64, 7>(c, |k| k as i64),
        _ => go::<C32, 2>(c, |k| C32::new(k as f32, 1.0)),
    }
}
