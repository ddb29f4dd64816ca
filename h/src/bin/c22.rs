//! C22: moving arrays between devices, ownerships, plain vectors and matrices of faer.
use faer_ext::IntoFaer;
use rstsr_core::prelude::*;
use rstsr_core::storage::exports::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use vh::*;

/// Elements with an identity.
trait El: Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn el(k: usize) -> Self;
}
impl El for i32 {
    fn el(k: usize) -> i32 { k as i32 * 3 - 1000 }
}
impl El for f64 {
    fn el(k: usize) -> f64 { k as f64 / 4.0 - 3.0 }
}
impl El for u8 {
    fn el(k: usize) -> u8 { (k % 251) as u8 }
}
impl El for C32 {
    fn el(k: usize) -> C32 { C32::new(k as f32, -1.5) }
}
impl El for String {
    fn el(k: usize) -> String { format!("element {k}") }
}
impl El for (u8, u64) {
    fn el(k: usize) -> Self { (k as u8, k as u64) }
}
fn raw_of<T: El>(n: usize) -> Vec<T> {
    (0..n).map(T::el).collect()
}
fn pos_of(sp: &Spec) -> Vec<usize> {
    let n: usize = sp.shape.iter().product();
    let _ = n;
    positions(sp.len, &sp.shape, &sp.stride, sp.offset).unwrap()
}
macro_rules! el_types {
    ($c:ident, $f:ident) => {
        match $c.rng.below(6) {
            0 => $f::<i32>($c),
            1 => $f::<f64>($c),
            2 => $f::<u8>($c),
            3 => $f::<C32>($c),
            4 => $f::<String>($c),
            _ => $f::<(u8, u64)>($c),
        }
    };
}

/// Elements that count their lives.
#[derive(Default)]
struct Book {
    born: AtomicUsize,
    dead: AtomicUsize,
}
static BAD: AtomicUsize = AtomicUsize::new(0);
const MAGIC: u64 = 0x6d61_7472_6978_2e2e;
struct Tracked {
    magic: u64,
    body: std::mem::ManuallyDrop<(usize, Arc<Book>)>,
}
impl Tracked {
    fn new(book: &Arc<Book>, k: usize) -> Tracked {
        book.born.fetch_add(1, Relaxed);
        Tracked { magic: MAGIC, body: std::mem::ManuallyDrop::new((k, book.clone())) }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new(&self.body.1, self.body.0)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if unsafe { std::ptr::read_volatile(&self.magic) } != MAGIC {
            BAD.fetch_add(1, Relaxed);
            return;
        }
        self.magic = 0;
        self.body.1.dead.fetch_add(1, Relaxed);
        unsafe { std::mem::ManuallyDrop::drop(&mut self.body) }
    }
}

/// Matrices of faer that become arrays.
fn mat_case(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => mat_t::<i32>(c),
        1 => mat_t::<C32>(c),
        2 => mat_t::<u8>(c),
        _ => mat_t::<f64>(c),
    }
}
fn mat_t<T: El + Default>(c: &mut Case) -> R {
    use rstsr_core::tensor::ext_conversion::IntoRSTSR;
    let r = &mut c.rng;
    let (m, n) = (r.below(9), r.below(9));
    let mut mat: faer::Mat<T> = faer::Mat::from_fn(m, n, |i, j| T::el(i * 100 + j));
    // a part of it, the other way around
    let (i0, j0) = (r.below(m + 1), r.below(n + 1));
    let (p, q) = (r.below(m - i0 + 1), r.below(n - j0 + 1));
    let flips = [r.bool() && r.bool(), r.bool() && r.bool(), r.bool()];
    let form = r.below(7);
    c.d(format!("form {form} {m} x {n} of {}, part {i0}+{p} {j0}+{q} flips {flips:?}", std::any::type_name::<T>()));
    c.eval();
    if p * q > 1 {
        c.nontrivial();
    }
    let entry = |i: usize, j: usize| {
        let i = i0 + if flips[0] { p - 1 - i } else { i };
        let j = j0 + if flips[1] { q - 1 - j } else { j };
        T::el(i * 100 + j)
    };
    let (h, w) = if flips[2] { (q, p) } else { (p, q) };
    let want = Nd::from_fn(&[h, w], |x| if flips[2] { entry(x[1], x[0]) } else { entry(x[0], x[1]) });
    let part = |v: faer::MatRef<'_, T>| -> faer::MatRef<'static, T> {
        let v = v.submatrix(i0, j0, p, q);
        let v = if flips[0] { v.reverse_rows() } else { v };
        let v = if flips[1] { v.reverse_cols() } else { v };
        let v = if flips[2] { v.transpose() } else { v };
        // only for the duration of the case
        unsafe { std::mem::transmute(v) }
    };
    match form {
        // the matrix itself
        0 => {
            let t = no_panic(|| mat.into_rstsr())?;
            same("matrix of faer", &obs!(t), &Nd::from_fn(&[m, n], |x| T::el(x[0] * 100 + x[1])))?;
            c.hit("Mat");
        },
        // a view of it
        1 | 2 => {
            let v = part(mat.as_ref());
            let t = no_panic(|| v.into_rstsr())?;
            ensure!(h * w == 0 || t.as_ptr() == v.as_ptr(), "the view is elsewhere");
            same("view of a matrix of faer", &obs!(t.view()), &want)?;
            // and back again
            let b = no_panic(|| t.into_faer())?;
            ensure!(b.nrows() == h && b.ncols() == w, "back again: {} x {}", b.nrows(), b.ncols());
            for i in 0..h {
                for j in 0..w {
                    ensure!(b[(i, j)] == *want.at(&[i, j]) && std::ptr::eq(&b[(i, j)], &v[(i, j)]), "back again: ({i}, {j})");
                }
            }
            c.hit("MatRef");
        },
        // a mutable view: written through
        3 | 4 => {
            let (x, y) = (c.rng.below(h.max(1)), c.rng.below(w.max(1)));
            {
                let v = mat.as_mut().submatrix_mut(i0, j0, p, q);
                let v = if flips[0] { v.reverse_rows_mut() } else { v };
                let v = if flips[1] { v.reverse_cols_mut() } else { v };
                let v = if flips[2] { v.transpose_mut() } else { v };
                let ptr = v.as_ptr();
                let mut t = no_panic(|| v.into_rstsr())?;
                ensure!(h * w == 0 || t.as_ptr() == ptr, "the mutable view is elsewhere");
                same("mutable view of a matrix of faer", &obs!(t.view()), &want)?;
                if h * w > 0 {
                    t[[x, y]] = T::el(77_777);
                }
            }
            let v = part(mat.as_ref());
            let mut now = want.clone();
            if h * w > 0 {
                now.set(&[x, y], T::el(77_777));
            }
            let got = Nd::from_fn(&[h, w], |x| v[(x[0], x[1])].clone());
            same("matrix written through a view", &Ok(got), &now)?;
            let mut others = 0;
            for i in 0..m {
                for j in 0..n {
                    others += (mat[(i, j)] != T::el(i * 100 + j)) as usize;
                }
            }
            ensure!(others <= 1, "{others} entries changed");
            c.hit("MatMut");
        },
        // one element repeated
        5 => {
            let one = T::el(5);
            let v = faer::MatRef::from_repeated_ref(&one, m, n);
            let t = no_panic(|| v.into_rstsr())?;
            same("repeated element", &obs!(t.view()), &Nd::from_fn(&[m, n], |_| one.clone()))?;
            c.hit("repeated");
        },
        // a column
        _ => {
            if w > 0 {
                let v = part(mat.as_ref());
                let j = c.rng.below(w);
                let col = v.col(j);
                let t = no_panic(|| col.into_rstsr())?;
                ensure!(h == 0 || t.as_ptr() == col.as_ptr(), "the column is elsewhere");
                same("column of a matrix of faer", &obs!(t.view()), &Nd::from_fn(&[h], |x| want.at(&[x[0], j]).clone()))?;
                c.hit("ColRef");
            }
        },
    }
    Ok(())
}
/// Owned matrices whose elements own memory.
fn owned_mat_case(c: &mut Case) -> R {
    use rstsr_core::tensor::ext_conversion::IntoRSTSR;
    let (m, n) = (c.rng.below(9), c.rng.below(9));
    c.d(format!("{m} x {n} of owning elements"));
    c.eval();
    if m * n > 1 {
        c.nontrivial();
    }
    let book = Arc::new(Book::default());
    let before = BAD.load(Relaxed);
    let mat: faer::Mat<Tracked> = faer::Mat::from_fn(m, n, |i, j| Tracked::new(&book, i * 100 + j));
    let t = no_panic(|| mat.into_rstsr())?;
    ensure!(t.shape().to_vec() == [m, n], "shape {:?}", t.shape());
    for i in 0..m {
        for j in 0..n {
            ensure!(t[[i, j]].body.0 == i * 100 + j, "entry ({i}, {j})");
        }
    }
    drop(t);
    let (born, dead) = (book.born.load(Relaxed), book.dead.load(Relaxed));
    ensure!(BAD.load(Relaxed) == before, "elements were dropped that never were made");
    ensure!(born == dead, "{born} elements made, {dead} dropped");
    Ok(())
}

devices!("c22.rs");
#[cfg(feature = "blas")]
blas_device!("c22.rs");

/// Pairs of devices.
macro_rules! pair {
    ($name:ident, $from:ident, $to:ident) => {
        mod $name {
            use super::*;
            type BA = super::$from::B;
            type BB = super::$to::B;
            fn ends(r: &mut Rng) -> (&'static BA, &'static BB, bool, bool) {
                let (x, y) = (r.bool(), r.bool());
                (super::$from::dev(r, x), super::$to::dev(r, y), x, y)
            }
            include!("../body/c22_pair.rs");
        }
    };
}
pair!(ss, ser, ser);
pair!(sf, ser, par);
pair!(fs, par, ser);
pair!(ff, par, par);
#[cfg(feature = "blas")]
pair!(sb, ser, obl);
#[cfg(feature = "blas")]
pair!(bs, obl, ser);
#[cfg(feature = "blas")]
pair!(fb, par, obl);
#[cfg(feature = "blas")]
pair!(bf, obl, par);
#[cfg(feature = "blas")]
pair!(bb, obl, obl);

fn main() {
    main_check(Check {
        prop: "C22",
        level: "exploration",
        rule: "a case is one array with a layout and ownership that is converted; distinct by layout, ownership, element type and target",
        assumptions: &[
            "export to a plain vector is for one axis, to a scalar for one element; anything else is refused",
            "a conversion that only borrows refers to the same memory",
        ],
        families: {
            #[cfg(not(feature = "blas"))]
            let v = vec![
                fam("pair_ss", ss::device_case, 4000, 300000),
                fam("pair_sf", sf::device_case, 4000, 300000),
                fam("pair_fs", fs::device_case, 4000, 300000),
                fam("pair_ff", ff::device_case, 4000, 300000),
                fam("own_serial", ser::own_case, 8000, 500000),
                fam("own_pool", par::own_case, 6000, 400000),
                fam("vec_serial", ser::vec_case, 8000, 500000),
                fam("vec_pool", par::vec_case, 6000, 400000),
                fam("to_faer_serial", ser::faer_case, 6000, 300000),
                fam("to_faer_pool", par::faer_case, 6000, 300000),
                fam("mat", mat_case, 8000, 500000),
                fam("owned_mat", owned_mat_case, 2000, 100000),
            ];
            #[cfg(feature = "blas")]
            let v = vec![
                fam("pair_sb", sb::device_case, 3000, 300000),
                fam("pair_bs", bs::device_case, 3000, 300000),
                fam("pair_fb", fb::device_case, 3000, 300000),
                fam("pair_bf", bf::device_case, 3000, 300000),
                fam("pair_bb", bb::device_case, 3000, 300000),
                fam("own_blas", obl::own_case, 4000, 400000),
                fam("vec_blas", obl::vec_case, 4000, 400000),
                fam("to_faer_blas", obl::faer_case, 4000, 300000),
            ];
            v
        },
        workers: 8,
    })
}
