//! C08: the same program gives the same results on every device, thread count, nesting and
//! under concurrent use; thread settings survive.
use rstsr_core::prelude::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex, OnceLock};
use vh::*;

/// What a program observed: (operation, result).
pub type Trace = Vec<(String, Nd<f64>)>;

/// Inputs of a program, as raw buffers.
#[derive(Clone)]
pub struct Inputs {
    pub spec: Vec<Spec>,
    pub raw: Vec<Vec<f64>>,
    pub colm: bool,
    pub seed: u64,
    pub steps: usize,
}

/// Keeps integer values small, exactly.
pub fn q(x: f64) -> f64 {
    let y = x.floor();
    if !y.is_finite() {
        return 3.0;
    }
    y - 13.0 * (y / 13.0).floor()
}

pub fn gen_inputs(r: &mut Rng) -> Inputs {
    let colm = r.bool();
    let spec: Vec<Spec> = (0..3)
        .map(|_| {
            let sh: Vec<usize> = match r.below(20) {
                0 => vec![*r.pick(&[16384usize, 16390, 5000, 1100])],
                1 => vec![r.usize(60, 140), r.usize(60, 140)],
                2 => vec![r.usize(20, 40), r.usize(2, 9), r.usize(20, 40)],
                3..=6 => vec![r.usize(20, 40), r.usize(20, 50)],
                7..=9 => vec![r.usize(2, 6), r.usize(2, 6), r.usize(2, 6), r.usize(2, 40)],
                _ => {
                    let c = pick_cls(r);
                    gen_shape(r, 1, 4, c)
                },
            };
            gen_layout(r, &sh, false)
        })
        .collect();
    let raw = spec.iter().map(|s| (0..s.len).map(|_| r.range(0, 12) as f64).collect()).collect();
    Inputs { spec, raw, colm, seed: r.next_u64(), steps: r.usize(3, 9) }
}

pub fn compare(what: &str, got: &Trace, want: &Trace) -> R {
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.0 == w.0, "{what}: step {k} was {} instead of {}", g.0, w.0);
        ensure!(g.1.shape == w.1.shape, "{what}: step {k} {}: shape {:?} instead of {:?}", g.0, g.1.shape, w.1.shape);
        for i in 0..w.1.data.len() {
            let (x, y) = (g.1.data[i], w.1.data[i]);
            ensure!(x == y || (x.is_nan() && y.is_nan()), "{what}: step {k} {}: shape {:?}: element #{i} is {x} instead of {y}", g.0, g.1.shape);
        }
    }
    ensure!(got.len() == want.len(), "{what}: {} steps instead of {}", got.len(), want.len());
    Ok(())
}

/// Log of the interleaving of concurrent programs.
pub struct Sched {
    log: Mutex<Vec<u8>>,
    running: AtomicUsize,
    pub peak: AtomicUsize,
}
impl Sched {
    pub fn new() -> Self {
        Sched { log: Mutex::new(vec![]), running: AtomicUsize::new(0), peak: AtomicUsize::new(0) }
    }
    pub fn step(&self, who: u8) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push(who);
    }
    pub fn enter(&self) {
        let n = self.running.fetch_add(1, Ordering::SeqCst) + 1;
        self.peak.fetch_max(n, Ordering::SeqCst);
    }
    pub fn leave(&self) {
        self.running.fetch_sub(1, Ordering::SeqCst);
    }
    /// Whether this interleaving had not been seen before.
    pub fn fresh(&self) -> bool {
        static SEEN: OnceLock<Mutex<HashSet<Vec<u8>>>> = OnceLock::new();
        let l = self.log.lock().unwrap_or_else(|e| e.into_inner()).clone();
        SEEN.get_or_init(|| Mutex::new(HashSet::new())).lock().unwrap_or_else(|e| e.into_inner()).insert(l)
    }
}

/// Seeded hesitation between operations, to vary the interleaving.
pub fn jitter(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(3000) {
                std::hint::spin_loop();
            }
        },
        2 => std::thread::sleep(std::time::Duration::from_micros(r.below(80) as u64)),
        _ => {},
    }
}

/// A caller's own pool, created once per size.
pub fn user_pool(n: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Mutex<std::collections::HashMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let m = P.get_or_init(|| Mutex::new(Default::default()));
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry(n).or_insert_with(|| Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())))
}

/// The thread count of the BLAS library as seen from this thread.
#[cfg(feature = "blas")]
pub fn blas_threads() -> usize {
    rstsr_openblas::threading::get_num_threads()
}
#[cfg(not(feature = "blas"))]
pub fn blas_threads() -> usize {
    0
}
#[cfg(feature = "blas")]
pub fn set_blas_threads(n: usize) {
    rstsr_openblas::threading::set_num_threads(n)
}
#[cfg(not(feature = "blas"))]
pub fn set_blas_threads(_: usize) {}

devices!("c08.rs");
#[cfg(feature = "blas")]
blas_device!("c08.rs");

/// What the serial device computes.
pub fn reference(i: &Inputs) -> Result<Trace, Fail> {
    ser::plain(i, serial(i.colm))
}

#[cfg(not(feature = "blas"))]
fn families() -> Vec<Family> {
    vec![
        fam("plain_pool", par::fam_plain, 2500, 200000),
        fam("in_user_pool", par::fam_user_pool, 1300, 100000),
        fam("in_device_pool", par::fam_device_pool, 800, 60000),
        fam("par_tasks", par::fam_par_tasks, 600, 50000),
        fam("user_threads", par::fam_threads, 800, 60000),
        fam("shared_inputs", par::fam_shared, 800, 60000),
        fam("user_threads_serial", ser::fam_threads, 400, 30000),
        fam("shared_inputs_serial", ser::fam_shared, 400, 30000),
        fam("nested_closures", par::fam_nested, 1200, 80000),
        fam("resize_clone", par::fam_resize, 300, 6000),
    ]
}
#[cfg(feature = "blas")]
fn families() -> Vec<Family> {
    vec![
        fam("plain_openblas", obl::fam_plain, 1800, 100000),
        fam("in_user_pool_openblas", obl::fam_user_pool, 800, 60000),
        fam("in_device_pool_openblas", obl::fam_device_pool, 400, 30000),
        fam("par_tasks_openblas", obl::fam_par_tasks, 400, 30000),
        fam("user_threads_openblas", obl::fam_threads, 500, 40000),
        fam("shared_inputs_openblas", obl::fam_shared, 500, 40000),
        fam("nested_closures_openblas", obl::fam_nested, 500, 40000),
        fam("panicking_product_openblas", obl::fam_panic, 600, 20000),
        fam("resize_clone_openblas", obl::fam_resize, 200, 4000),
    ]
}

fn main() {
    main_check(Check {
        prop: "C08",
        level: "exploration",
        rule: "a case counts when the program produced at least one result with more than one element; distinct by inputs, program seed and execution context",
        assumptions: &[
            "programs compute on small integers held in f64, so that every result is exact whatever the accumulation order",
            "the serial device run alone is the reference (its own correctness is C01-C07's subject)",
        ],
        families: families(),
        workers: 4,
    })
}
