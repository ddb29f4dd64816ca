//! C08, the settings that the whole process shares: the parallelism of faer (or the threads of BLAS) is
//! after any linear algebra what the user had set, whether the calls return, fail or overlap.
//! One case at a time, as the cases change the settings.
use rstsr_core::prelude::*;
use rstsr_linalg_traits::prelude::rstsr_funcs as la;
use std::sync::Mutex;
use vh::*;

#[cfg(not(feature = "blas"))]
mod here {
    pub type B = super::DeviceFaer;
    pub fn dev(n: usize, colm: bool) -> &'static B {
        vh::faer(n, colm)
    }
    pub type State = (faer::Par, usize);
    pub fn state() -> State {
        (faer::get_global_parallelism(), rayon::current_num_threads())
    }
    pub fn set(n: usize) {
        faer::set_global_parallelism(if n == 0 { faer::Par::Seq } else { faer::Par::rayon(n) });
    }
}
#[cfg(feature = "blas")]
mod here {
    pub type B = rstsr_openblas::DeviceOpenBLAS;
    pub fn dev(n: usize, colm: bool) -> &'static B {
        vh::oblas(n, colm)
    }
    pub type State = usize;
    pub fn state() -> State {
        rstsr_openblas::threading::get_num_threads()
    }
    pub fn set(n: usize) {
        rstsr_openblas::threading::set_num_threads(n.max(1))
    }
}
use here::*;
type T = Tensor<f64, B, Ix2>;

fn mat(r: &mut Rng, d: &'static B, m: usize, n: usize, kind: usize) -> T {
    let v: Vec<f64> = (0..m * n)
        .map(|k| {
            let (i, j) = (k / n.max(1), k % n.max(1));
            match kind {
                // definite
                0 => if i == j { 3.0 + i as f64 } else { 1.0 / (1.0 + (i + j) as f64) },
                // not definite
                1 => if i == j { -1.0 } else { 0.5 / (1.0 + (i + j) as f64) },
                // singular
                2 => 1.0,
                // no number
                3 => f64::NAN,
                _ => r.range(-9, 9) as f64,
            }
        })
        .collect();
    let t: Tensor<f64, B, IxD> = rt::asarray((v, [m, n].c(), d));
    t.into_dim::<Ix2>()
}

/// Any function of the module, on operands it accepts or refuses; true when it returned a result.
fn call(r: &mut Rng, d: &'static B) -> (String, bool) {
    let n = r.usize(1, 14);
    let kind = r.below(5);
    let (a, b) = (mat(r, d, n, n, kind), mat(r, d, n, n, r_kind(kind)));
    let odd = mat(r, d, n, n + 1, 4);
    let (name, res): (&str, Result<bool, String>) = match r.below(12) {
        0 => ("cholesky", no_panic(|| la::cholesky_f(a.view()).is_ok())),
        1 => ("eigh", no_panic(|| la::eigh_f(a.view()).is_ok())),
        2 => ("eigh general", no_panic(|| la::eigh_f((b.view(), a.view(), FlagUpLo::L, 1 + (n % 3) as i32)).is_ok())),
        3 => ("eigvalsh", no_panic(|| la::eigvalsh_f(a.view()).is_ok())),
        4 => ("inv", no_panic(|| la::inv_f(a.view()).is_ok())),
        5 => ("pinv", no_panic(|| la::pinv_f(a.view()).is_ok())),
        6 => ("svd", no_panic(|| la::svd_f(a.view()).is_ok())),
        7 => ("svdvals", no_panic(|| la::svdvals_f(odd.view()).is_ok())),
        8 => ("det", no_panic(|| la::det_f(a.view()).is_ok())),
        9 => ("solve_general", no_panic(|| la::solve_general_f((a.view(), b.view())).is_ok())),
        10 => ("cholesky of a matrix that is not square", no_panic(|| la::cholesky_f(odd.view()).is_ok())),
        _ => ("product", no_panic(|| rt::matmul_f(&a, &b).is_ok())),
    };
    let ok = matches!(res, Ok(true));
    (format!("{name} kind {kind} n {n} {}", match res { Ok(true) => "returned", Ok(false) => "failed", Err(_) => "panicked" }), ok)
}
fn r_kind(k: usize) -> usize {
    if k == 3 { 0 } else { k }
}

fn case(c: &mut Case) -> R {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let own = r.below(5);
    set(own);
    let before = state();
    let k = *r.pick(&[1usize, 1, 2, 3]);
    let plans: Vec<(u64, usize, bool, usize)> = (0..k).map(|_| (r.next_u64(), *r.pick(&[1usize, 2, 3, 4, 8]), r.bool(), r.usize(1, 4))).collect();
    c.d(format!("own setting {own}, plans {plans:?}"));
    let log = Mutex::new(vec![]);
    let prog = |(s, nt, colm, steps): (u64, usize, bool, usize)| {
        let mut r = Rng::new(s);
        for _ in 0..steps {
            let l = call(&mut r, dev(nt, colm));
            log.lock().unwrap().push(l);
        }
        state()
    };
    if k == 1 {
        prog(plans[0]);
    } else {
        std::thread::scope(|sc| {
            for p in &plans {
                let prog = &prog;
                let p = *p;
                sc.spawn(move || prog(p));
            }
        });
    }
    let after = state();
    let log = log.into_inner().unwrap();
    for (w, ok) in &log {
        c.eval();
        c.d(w);
        c.hit(if *ok { "calls that returned" } else { "calls that failed" });
    }
    c.nontrivial();
    ensure!(before == after, "the settings shared by the process were {before:?} and are {after:?}");
    Ok(())
}

fn main() {
    main_check(Check {
        prop: "C08",
        level: "exploration",
        rule: "every case counts; distinct by setting, programs and devices",
        assumptions: &[],
        families: vec![fam(if cfg!(feature = "blas") { "shared_settings_blas" } else { "shared_settings" }, case, 1500, 60000)],
        workers: 1,
    })
}
