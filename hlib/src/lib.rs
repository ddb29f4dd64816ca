//! Shared machinery of the runtime monitors: random workloads, the reference model of an
//! n-dimensional array, and the runner that drives cases, watches for violations and records
//! what was observed.
pub mod dev;
pub mod gen;
pub mod model;
pub mod poison;
pub mod rng;
pub mod run;
pub mod val;

pub use dev::*;
pub use gen::*;
pub use model::*;
pub use rng::*;
pub use run::*;
pub use val::*;

pub use num::complex::Complex;
pub type C64 = Complex<f64>;
pub type C32 = Complex<f32>;

pub use rstsr_common::axis_index::AxesIndex;
pub use rstsr_common::layout::indexer::Indexer;
pub use rstsr_common::layout::slice::SliceI;
pub use rstsr_common::prelude::{IxD, Layout};

/// Layout object of the library for a generated spec.
pub fn lay(s: &Spec) -> Layout<IxD> {
    Layout::new(s.shape.clone(), s.stride.clone(), s.offset).expect("generated layout accepted")
}

/// What a tensor of the library denotes, read through its raw buffer, shape, strides and offset
/// with our own address arithmetic.
#[macro_export]
macro_rules! obs {
    ($t:expr) => {{
        let t = $t;
        let r: Result<$crate::Nd<_>, String> =
            $crate::observe(&t.raw()[..], t.shape().as_ref(), t.stride().as_ref(), t.offset());
        r
    }};
}

/// Compares an observation with the expected array, exactly.
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &Result<Nd<T>, String>, want: &Nd<T>) -> R {
    match got {
        Err(e) => bail!("{what}: {e}; wanted shape {:?}", want.shape),
        Ok(g) => {
            ensure!(g.shape == want.shape, "{what}: shape {:?}, wanted {:?}", g.shape, want.shape);
            if let Some(k) = (0..want.data.len()).find(|&k| g.data[k] != want.data[k]) {
                bail!(
                    "{what}: shape {:?}: element #{k} (row-major) is {:?}, wanted {:?}",
                    g.shape,
                    g.data[k],
                    want.data[k]
                );
            }
        },
    }
    Ok(())
}

/// Normalised axis `a`, expressed at random as a negative index.
pub fn sgn(r: &mut Rng, a: usize, n: usize) -> isize {
    if r.chance(1, 3) {
        a as isize - n as isize
    } else {
        a as isize
    }
}

#[macro_export]
macro_rules! pick_first {
    ($a:block $b:block) => { $a };
}
#[macro_export]
macro_rules! pick_second {
    ($a:block $b:block) => { $b };
}

/// Instantiates a body file for the serial and the thread-pool device.
#[macro_export]
macro_rules! devices {
    ($file:literal) => {
        #[allow(dead_code)]
        mod ser {
            use super::*;
            #[allow(unused_imports)]
            use $crate::pick_first as by_dev;
            #[allow(dead_code)]
            pub type B = rstsr_core::prelude::DeviceCpuSerial;
            #[allow(dead_code)]
            pub fn dev(_r: &mut Rng, colm: bool) -> &'static B {
                serial(colm)
            }
            include!(concat!("../body/", $file));
        }
        #[allow(dead_code)]
        mod par {
            use super::*;
            #[allow(unused_imports)]
            use $crate::pick_second as by_dev;
            #[allow(dead_code)]
            pub type B = rstsr_core::prelude::DeviceFaer;
            #[allow(dead_code)]
            pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
                faer(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
            }
            include!(concat!("../body/", $file));
        }
    };
}

pub fn fam(name: &'static str, f: CaseFn, quick: usize, thorough: usize) -> Family {
    Family { name, f, quick, thorough }
}

/// Instantiates a body file for the OpenBLAS device.
#[cfg(feature = "blas")]
#[macro_export]
macro_rules! blas_device {
    ($file:literal) => {
        #[allow(dead_code)]
        mod obl {
            use super::*;
            #[allow(unused_imports)]
            use $crate::pick_second as by_dev;
            #[allow(dead_code)]
            pub type B = rstsr_openblas::DeviceOpenBLAS;
            #[allow(dead_code)]
            pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
                oblas(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
            }
            include!(concat!("../body/", $file));
        }
    };
}

/// `x` alone or `(x, y)`.
#[macro_export]
macro_rules! wrap {
    ($x:expr) => { $x };
    ($x:expr, $y:expr) => { ($x, $y) };
    ($($x:expr),*) => { ($($x),*) };
}
