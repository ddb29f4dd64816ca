//! C13 for linear algebra: operands whose shapes, dimensions, types of problem or devices do not fit are
//! answered by the fallible functions with an error, and stay as they are.
use rstsr_core::prelude::*;
use rstsr_linalg_traits::prelude::rstsr_funcs::*;
#[allow(unused_imports)]
use rstsr_linalg_traits::prelude::rstsr_structs::*;
use vh::*;

include!("../body/la_num.rs");

mod par {
    use super::*;
    #[allow(unused_imports)]
    use vh::pick_first as by_dev;
    pub type B = DeviceFaer;
    pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
        faer(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    pub fn dev2(d: &B) -> &'static B {
        if d.get_num_threads() == 3 { faer(2, d.default_order() == FlagOrder::F) } else { faer(3, d.default_order() == FlagOrder::F) }
    }
    include!("../body/la_put.rs");
    include!("../body/c13l.rs");
}
#[cfg(feature = "blas")]
mod obl {
    use super::*;
    #[allow(unused_imports)]
    use vh::pick_second as by_dev;
    pub type B = rstsr_openblas::DeviceOpenBLAS;
    pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
        oblas(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    pub fn dev2(d: &B) -> &'static B {
        if d.get_num_threads() == 3 { oblas(2, d.default_order() == FlagOrder::F) } else { oblas(3, d.default_order() == FlagOrder::F) }
    }
    include!("../body/la_put.rs");
    include!("../body/c13l.rs");
}

#[cfg(not(feature = "blas"))]
use par as here;
#[cfg(feature = "blas")]
use obl as here;

fn main() {
    main_check(Check {
        prop: "C13",
        level: "exploration",
        rule: "every case counts; distinct by types, layouts and shapes",
        assumptions: &[],
        families: vec![fam(if cfg!(feature = "blas") { "linalg_blas" } else { "linalg" }, here::linalg_case, 4000, 200000)],
        workers: 8,
    })
}
