//! C15: data races. Parallel kernels above their thresholds, shared inputs, adjacent outputs and
//! parallel iterators run under the race detector; closures given to the library count how often
//! each element reaches them.
use rayon::prelude::*;
use rstsr_core::prelude::*;
use rstsr_core::tensor::exports::DiagonalArgs;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
use vh::*;

type B = DeviceFaer;
type T = Tensor<f64, B, IxD>;
type V<'a> = TensorView<'a, f64, B, IxD>;

/// Hesitation inside the library's parallel loops, so that their tasks interleave differently.
fn hesitate(k: usize, salt: usize) {
    let h = (k ^ salt).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    if h % 4099 == 0 {
        std::thread::yield_now();
    } else if h % 8209 == 1 {
        for _ in 0..h % 700 {
            std::hint::spin_loop();
        }
    }
}

/// Counts how often each element reached a closure.
struct Ledger {
    n: Vec<AtomicU8>,
    threads: std::sync::Mutex<std::collections::HashSet<std::thread::ThreadId>>,
    calls: AtomicUsize,
}
impl Ledger {
    fn new(n: usize) -> Self {
        Ledger { n: (0..n).map(|_| AtomicU8::new(0)).collect(), threads: Default::default(), calls: AtomicUsize::new(0) }
    }
    fn note(&self, k: usize) {
        self.n[k].fetch_add(1, Relaxed);
        self.calls.fetch_add(1, Relaxed);
    }
    /// As note, and remembers the thread. The lock orders threads, which hides races: used on few calls.
    fn note_thread(&self) {
        self.threads.lock().unwrap().insert(std::thread::current().id());
    }
    fn once(&self, what: &str) -> R {
        match self.n.iter().position(|x| x.load(Relaxed) != 1) {
            Some(k) => bail!("{what}: element {k} of {} reached the closure {} times", self.n.len(), self.n[k].load(Relaxed)),
            None => Ok(()),
        }
    }
}

fn shape_big(r: &mut Rng) -> Vec<usize> {
    match r.below(10) {
        0 => vec![r.usize(16384, 17000)],
        1 => vec![r.usize(128, 140), r.usize(128, 140)],
        2 => vec![2, r.usize(90, 100), r.usize(90, 100)],
        3 => vec![r.usize(33, 40), r.usize(5, 7), r.usize(80, 100)],
        4 => vec![r.usize(60, 90), r.usize(60, 90)],
        5 => vec![r.usize(5, 20), r.usize(300, 600)],
        6 => vec![r.usize(300, 600), r.usize(3, 20)],
        7 => vec![r.usize(3, 9), r.usize(3, 9), r.usize(3, 9), r.usize(20, 60)],
        8 => vec![r.usize(1000, 5000)],
        _ => vec![r.usize(20, 70), r.usize(20, 70)],
    }
}

fn arr(r: &mut Rng, dv: &'static B, sh: &[usize]) -> T {
    let s = gen_layout(r, sh, false);
    let salt = r.next_u64() as usize;
    let raw: Vec<f64> = (0..s.len).map(|i| ((i ^ salt) % 11) as f64).collect();
    rt::asarray((raw, lay(&s), dv))
}
/// Elements 0, 1, 2 … in row-major order, in any layout.
fn ids(r: &mut Rng, dv: &'static B, sh: &[usize]) -> T {
    let s = gen_layout(r, sh, false);
    let mut raw = vec![-1f64; s.len];
    for (k, p) in positions(s.len, &s.shape, &s.stride, s.offset).unwrap().into_iter().enumerate() {
        raw[p] = k as f64;
    }
    rt::asarray((raw, lay(&s), dv))
}

/// One operation on inputs shared with other threads; whatever it writes is its own.
fn op(r: &mut Rng, a: &V, b: &V, dv: &'static B) -> Result<&'static str, Fail> {
    let n = a.ndim();
    let sh: Vec<usize> = a.shape().clone();
    let ax = if n > 0 { r.below(n) } else { 0 };
    let size = a.size();
    let salt = r.next_u64() as usize;
    Ok(match r.below(36) {
        0 => {
            let _ = a + b;
            "binary"
        },
        1 => {
            let mut c = a.to_owned();
            c += b;
            c *= 2.0;
            c -= &c.to_owned();
            "in place"
        },
        2 => {
            // into part of a larger buffer whose rest other elements hold
            let s = gen_layout(r, &sh, false);
            let mut buf = vec![7.5f64; s.len];
            rt::add_with_output(a, b, rt::asarray((&mut buf, lay(&s), dv)));
            let mut rest = buf.clone();
            for p in positions(s.len, &s.shape, &s.stride, s.offset)? {
                rest[p] = 7.5;
            }
            ensure!(rest.iter().all(|&x| x == 7.5), "add_with_output wrote outside its output");
            "with_output"
        },
        3 => {
            let t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            let u = t.mapv(|x| {
                l.note(x as usize);
                hesitate(x as usize, salt);
                x
            });
            l.once("mapv")?;
            let _ = u;
            "mapv"
        },
        4 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.mapvi(|x| {
                l.note(x as usize);
                hesitate(x as usize, salt);
                x + 0.5
            });
            l.once("mapvi")?;
            ensure!(t.iter().all(|&x| x.fract() == 0.5), "mapvi left an element unchanged");
            "mapvi"
        },
        5 => {
            let t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            let _ = t.mapvb(a, |x, y| {
                l.note(x as usize);
                hesitate(x as usize, salt);
                x + y
            });
            l.once("mapvb")?;
            "mapvb"
        },
        6 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.mapi(|x| {
                l.note(*x as usize);
                hesitate(*x as usize, salt);
                *x += 1.0
            });
            l.once("mapi")?;
            "mapi"
        },
        7 if n > 0 => {
            let p: Vec<isize> = r.perm(n)[..r.usize(1, n)].iter().map(|&x| x as isize).collect();
            let _ = (a.sum_axes(p.clone()), b.max_axes(p.clone()), a.min_axes(p));
            "reduction over axes"
        },
        8 => {
            let _ = (a.sum_all(), b.max_all(), a.mean_all(), b.var_all(), a.l2_norm_all());
            "reduction"
        },
        9 if n > 0 => {
            let _ = (a.argmax_axes(ax as isize), b.argmin_axes(ax as isize), a.argmin_all(), a.unraveled_argmax_all());
            "position of extremum"
        },
        10 if n > 0 => {
            let c = a.greater(5.0);
            let _ = (c.all_axes(ax as isize), c.any_axes(ax as isize), a.count_nonzero_all(), a.count_nonzero_axes(ax as isize));
            "truth values"
        },
        11 if n >= 2 && size < 30000 => {
            let p = if dv.default_order() == FlagOrder::F { a.swapaxes(0, 1) } else { a.swapaxes(-1, -2) };
            let _ = if r.bool() { rt::matmul(a, &p) } else { rt::matmul(&p, a) };
            "matmul"
        },
        12 if n >= 2 && sh[n - 1] * sh[n - 2] < 1000 => {
            let k = sh[n - 2];
            let m: T = rt::ones((vec![3, 1, 1, k, k.min(9)], dv));
            let x: T = a.to_owned().into_expand_dims(0);
            let p = x.swapaxes(-1, -2);
            let _ = if dv.default_order() == FlagOrder::F {
                rt::matmul(&m.reverse_axes(), &p.reverse_axes())
            } else {
                rt::matmul(&p, &m)
            };
            "batched matmul"
        },
        13 if n == 2 && size < 20000 => {
            let a2 = a.to_dim::<Ix2>();
            let mut c: Tensor<f64, B, Ix2> = rt::zeros((vec![sh[0], sh[0]], dv)).into_dim();
            c.matmul_from(&a2, &a2.t(), 2.0, 1.0);
            "symmetric product"
        },
        14 if n > 0 => {
            let _ = rt::vecdot(a, b, ax as isize);
            "vecdot"
        },
        15 => {
            let o = |r: &mut Rng| if r.bool() { FlagOrder::C } else { FlagOrder::F };
            let _ = (a.to_contig(o(r)).into_owned(), b.to_prefer(o(r)).into_owned());
            let s = Spec { len: 0, ..gen_layout(r, &sh, false) };
            let _ = a.to_layout(lay(&s)).into_owned();
            "layout change"
        },
        16 => {
            let mut t = arr(r, dv, &sh);
            t.assign(a);
            t.fill(3.0);
            "assign"
        },
        17 if n > 0 && size > 0 => {
            let m = sh[ax];
            let ix: Vec<usize> = (0..r.usize(1, m)).map(|_| r.below(m)).collect();
            let _ = a.index_select(ax as isize, ix);
            let _ = a.bool_select(ax as isize, (0..m).map(|_| r.bool()).collect::<Vec<bool>>());
            "selection"
        },
        18 if n > 0 => {
            let _ = (rt::concat((vec![a.view(), b.view()], ax as isize)), rt::stack((vec![a.view(), b.view()], 0)));
            "concat"
        },
        19 => {
            let t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            let s: f64 = t
                .iter()
                .into_par_iter()
                .map(|x| {
                    l.note(*x as usize);
                    hesitate(*x as usize, salt);
                    *x
                })
                .sum();
            l.once("parallel iter")?;
            ensure!(s == (size * size.saturating_sub(1) / 2) as f64, "parallel iter: sum {s}");
            "parallel iter"
        },
        20 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.iter_mut().into_par_iter().for_each(|x| {
                l.note(*x as usize);
                hesitate(*x as usize, salt);
                *x += 0.5;
            });
            l.once("parallel iter_mut")?;
            ensure!(t.iter().all(|&x| x.fract() == 0.5), "parallel iter_mut: element left unchanged");
            "parallel iter_mut"
        },
        21 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.indexed_iter_mut().into_par_iter().for_each(|(i, x)| {
                l.note(*x as usize);
                *x += i.len() as f64;
            });
            l.once("parallel indexed_iter_mut")?;
            let _: usize = a.indexed_iter().into_par_iter().map(|(i, _)| i[0 % i.len().max(1)..].len()).sum();
            "parallel indexed iter"
        },
        22 if n > 0 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.axes_iter_mut(ax as isize).into_par_iter().for_each(|mut v| {
                v.iter().for_each(|x| l.note(*x as usize));
                v += 1.0;
            });
            l.once("parallel axes_iter_mut")?;
            let _: f64 = a.axes_iter(ax as isize).into_par_iter().map(|v| v.sum_all()).sum();
            "parallel axes_iter"
        },
        23 if n > 0 => {
            let mut t = ids(r, dv, &sh);
            let l = Ledger::new(size);
            t.indexed_axes_iter_mut(ax as isize).into_par_iter().for_each(|(_, mut v)| {
                v.iter().for_each(|x| l.note(*x as usize));
                v += 1.0;
            });
            l.once("parallel indexed_axes_iter_mut")?;
            "parallel indexed_axes_iter"
        },
        24 if n >= 2 => {
            let k = r.usize(20, 70);
            let m: T = arr(r, dv, &[k, k]);
            let m3: T = arr(r, dv, &if dv.default_order() == FlagOrder::F { [40, 40, 5] } else { [5, 40, 40] });
            for t in [&m, &m3] {
                let (u, l) = (t.pack_triu(), t.pack_tril());
                let s = *r.pick(&[FlagSymm::Sy, FlagSymm::He, FlagSymm::Ay, FlagSymm::Ah, FlagSymm::N]);
                let _ = (u.unpack_triu(s), l.unpack_tril(s));
            }
            "triangles"
        },
        25 if n >= 2 => {
            let _ = (rt::triu(a).into_owned(), rt::tril((b, 1)).into_owned());
            "triu"
        },
        26 => {
            // several blocks of rows on both sides (blocks have 8 to 64 rows, by the length of a row)
            let k = *r.pick(&[1usize, 3, 5, 900, 2500]);
            let m = if k > 100 { r.usize(8, 40) } else { r.usize(30, 150) };
            let m2 = m + r.below(20);
            let (x, y) = (arr(r, dv, &[m, k]), arr(r, dv, &[m2, k]));
            use rstsr_sci_traits::prelude::rstsr_mods::distance::*;
            match r.below(3) {
                0 => {
                    let _: T = cdist((x.view(), y.view(), MetricEuclidean));
                },
                1 => {
                    let _: T = cdist((x.view(), y.view(), MetricCityBlock));
                },
                _ => {
                    let w = arr(r, dv, &[k]).into_dim::<Ix1>() + 1.0;
                    let _: T = cdist((x.view(), y.view(), MetricEuclidean, w.view()));
                },
            }
            "cdist"
        },
        27 => {
            let _ = (a.reshape(size as isize).into_owned(), a.t().reshape(size as isize).into_owned());
            "reshape"
        },
        28 => {
            let f = r.usize(1000, 20000);
            let z: T = rt::zeros((vec![f], dv));
            let l: T = rt::linspace((0.0, 1.0, f, dv));
            let g: T = rt::arange((f as f64, dv));
            let _ = (z.size(), l.size(), g.size(), rt::full_like((a, 2.0)));
            "creation"
        },
        29 => {
            let m = r.usize(10, 40);
            let x = arr(r, dv, &[m, m]).into_dim::<Ix2>();
            let e: T = rt::eye((m, dv));
            let e = e.into_dim::<Ix2>();
            let p = &rt::matmul(&x, &x.t()).into_dim::<Ix2>() + &(e * 50.0);
            use rstsr_linalg_traits::prelude::rstsr_funcs as la;
            let _ = (la::cholesky(p.view()), la::inv(p.view()), la::eigvalsh(p.view()), la::det(p.view()));
            "linear algebra"
        },
        30 => {
            let _ = (a.sqrt(), b.exp(), -a, a.abs());
            "unary"
        },
        31 => {
            // device operations from inside a closure of a device operation
            let m = r.usize(4096, 4200);
            let t = ids(r, dv, &[m]);
            let _ = t.mapv(|x| {
                if x as usize % 1024 == 7 {
                    let s: T = rt::ones((vec![40, 40], dv));
                    x + s.sum_all() + rt::matmul(&s, &s).sum_all()
                } else {
                    x
                }
            });
            "nested"
        },
        32 if n > 0 => {
            let _ = (rt::broadcast_to(&a.i(rt::slice!(0, 1)).to_owned(), sh.clone()).to_owned(), a.flip(ax as isize).to_owned());
            "broadcast copy"
        },
        33 if n == 2 => {
            let _ = a.diagonal(DiagonalArgs { offset: Some(1), axis1: None, axis2: None }).to_owned();
            "diagonal"
        },
        34 => {
            let t = a.to_owned().into_shared();
            let _ = (t.view() + b, t.into_owned());
            "shared storage"
        },
        35 => {
            let _ = (rt::minimum_f(a, b).map(|t| t.size()), (a / 3.0).size(), rt::less(a, b).size(), a.mapv(|x| x as i64).size());
            "comparison"
        },
        _ => "nothing",
    })
}

/// Programs running at once on shared inputs, each on its own outputs.
fn shared_case(c: &mut Case) -> R {
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let colm = r.bool();
    let nt = *r.pick(&[2usize, 3, 4, 8]);
    let dv = faer(nt, colm);
    let sh = shape_big(r);
    let a = arr(r, dv, &sh);
    let b = arr(r, dv, &sh);
    let k = *r.pick(&[1usize, 1, 2, 3]);
    let how = r.below(3);
    let seeds: Vec<u64> = (0..k).map(|_| r.next_u64()).collect();
    let steps = r.usize(2, 6);
    c.d(format!("{nt} threads, {k} programs, context {how}, shape {sh:?}, strides {:?} and {:?}", a.stride(), b.stride()));
    let done = std::sync::Mutex::new(vec![]);
    let upool = r.usize(2, 4);
    let prog = |s: u64| -> R {
        let mut r = Rng::new(s);
        for _ in 0..steps {
            let w = op(&mut r, &a.view(), &b.view(), dv)?;
            done.lock().unwrap().push(w);
        }
        Ok(())
    };
    let res: Vec<R> = match how {
        0 => std::thread::scope(|sc| {
            let h: Vec<_> = seeds.iter().map(|&s| sc.spawn(move || s)).collect();
            let h: Vec<u64> = h.into_iter().map(|h| h.join().unwrap()).collect();
            let p = &prog;
            let hs: Vec<_> = h.into_iter().map(|s| sc.spawn(move || no_panic(|| p(s)))).collect();
            hs.into_iter().map(|h| h.join().unwrap().unwrap_or_else(|e| Err(e.into()))).collect()
        }),
        1 => user_pool(upool).install(|| seeds.par_iter().map(|&s| prog(s)).collect()),
        _ => seeds.iter().map(|&s| prog(s)).collect(),
    };
    for e in res {
        e?;
    }
    c.nontrivial();
    let done = done.into_inner().unwrap();
    for w in done {
        c.eval();
        c.hit(w);
        c.d(w);
    }
    Ok(())
}

/// Threads that write views of one buffer which do not overlap, elements of which alternate.
fn adjacent_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let dv = faer(*r.pick(&[2usize, 4]), r.bool());
    let rows = r.usize(2, 5);
    let rest = shape_big(r);
    let mut sh = rest.clone();
    let ax = r.usize(0, rest.len());
    sh.insert(ax, rows);
    if sh.iter().product::<usize>() > 80000 {
        return Ok(());
    }
    let mut t = arr(r, dv, &sh);
    let src = arr(r, dv, &rest);
    let seed = r.next_u64();
    c.d(format!("shape {sh:?}, strides {:?}, axis {ax}", t.stride()));
    c.nontrivial();
    let views: Vec<_> = t.axes_iter_mut(ax as isize).collect();
    ensure!(views.len() == rows, "{} views instead of {rows}", views.len());
    std::thread::scope(|sc| {
        for (k, mut v) in views.into_iter().enumerate() {
            let src = &src;
            sc.spawn(move || {
                let mut r = Rng::new(seed ^ k as u64);
                for _ in 0..3 {
                    match r.below(7) {
                        0 => v.fill(k as f64),
                        1 => v.assign(src),
                        2 => v += src,
                        3 => v *= 2.0,
                        4 => v.mapvi(|x| x + 1.0),
                        5 => v.iter_mut().into_par_iter().for_each(|x| *x -= 1.0),
                        _ => rt::add_with_output(src, src, v.view_mut()),
                    }
                }
                v.fill(k as f64);
            });
        }
    });
    for (k, v) in t.axes_iter(ax as isize).enumerate() {
        ensure!(v.iter().all(|&x| x == k as f64), "view {k} holds elements of another view");
    }
    c.eval();
    c.hit("adjacent views written at once");
    Ok(())
}

/// The closure ledger must see several threads, or the parallel kernels were not exercised.
fn reach_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let nt = *r.pick(&[2usize, 4]);
    let dv = faer(nt, r.bool());
    let sh = vec![r.usize(120, 140), r.usize(140, 150)];
    let t = ids(r, dv, &sh);
    let l = Ledger::new(t.size());
    let _ = t.mapv(|x| {
        l.note(x as usize);
        if x as usize % 512 == 0 {
            l.note_thread();
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        x
    });
    l.once("mapv")?;
    c.eval();
    c.nontrivial();
    c.d(format!("{nt} threads shape {sh:?} strides {:?}", t.stride()));
    let k = l.threads.lock().unwrap().len();
    c.hit(format!("closure called on {k} threads"));
    Ok(())
}

/// What the types promise to the compiler: an array crosses threads only if its elements may.
trait Refuse {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct ProbeSend<T>(std::marker::PhantomData<T>);
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Refuse for ProbeSend<T> {}
impl<T> Refuse for ProbeSync<T> {}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
/// Shared between threads, but not moved.
#[derive(Clone)]
struct Stay(#[allow(dead_code)] *const u8);
unsafe impl Sync for Stay {}

fn bounds_case(c: &mut Case) -> R {
    use rstsr_core::prelude::rt;
    type C = std::cell::Cell<i32>;
    type N = std::rc::Rc<i32>;
    macro_rules! probe {
        ($name:expr, $t:ty, $send:expr, $sync:expr) => {{
            let (send, sync) = (ProbeSend::<$t>::SEND, ProbeSync::<$t>::SYNC);
            c.eval();
            ensure!(!send || $send, "{} is Send", stringify!($t));
            ensure!(!sync || $sync, "{} is Sync", stringify!($t));
            if $name == "plain" {
                ensure!(send && sync, "{} is not Send and Sync", stringify!($t));
            }
            c.hit("promise");
        }};
    }
    macro_rules! kinds {
        ($name:expr, $e:ty, $dev:ty, $send:expr, $sync:expr) => {
            c.d($name);
            c.d(stringify!($dev));
            c.nontrivial();
            let (s, y) = ($send, $sync);
            probe!($name, rt::Tensor<$e, $dev, IxD>, s, y);
            probe!($name, rt::TensorView<'static, $e, $dev, IxD>, y, y);
            probe!($name, rt::TensorMut<'static, $e, $dev, IxD>, s, y);
            probe!($name, rt::TensorArc<$e, $dev, IxD>, s && y, s && y);
            probe!($name, rt::TensorCow<'static, $e, $dev, IxD>, s && y, y);
            probe!($name, rstsr_core::storage::exports::DataReference<'static, Vec<$e>>, s && y, y);
        };
    }
    macro_rules! elements {
        ($dev:ty) => {
            match c.rng.below(4) {
                0 => { kinds!("plain", i32, $dev, true, true); },
                1 => { kinds!("cell", C, $dev, true, false); },
                2 => { kinds!("rc", N, $dev, false, false); },
                _ => { kinds!("stay", Stay, $dev, false, true); },
            }
        };
    }
    if c.rng.bool() {
        elements!(rstsr_core::prelude::DeviceCpuSerial);
    } else {
        elements!(rstsr_core::prelude::DeviceFaer);
    }
    Ok(())
}

fn main() {
    main_check(Check {
        prop: "C15",
        level: "exploration",
        rule: "operations run by pools of 2 to 8 threads on shared inputs; distinct by shapes, strides, context and the operations that ran",
        assumptions: &["the race detector sees all code of the process (standard library included); OpenBLAS is not part of this build"],
        families: vec![
            fam("shared", shared_case, 3000, 60000),
            fam("adjacent", adjacent_case, 800, 20000),
            fam("bounds", bounds_case, 200, 200),
            fam("reach", reach_case, 100, 1000),
        ],
        workers: 3,
    })
}
