//! C17: dense linear algebra. Results are judged by the equations that define them, evaluated in double
//! precision on the values that were passed; parts of an operand that must not be read hold NaN.
use rstsr_core::prelude::*;
use rstsr_linalg_traits::prelude::rstsr_funcs::*;
#[allow(unused_imports)]
use rstsr_linalg_traits::prelude::rstsr_structs::*;
use vh::*;

include!("../body/la_num.rs");

mod par {
    use super::*;
    #[allow(unused_imports)]
    use vh::pick_first as by_dev;
    pub type B = DeviceFaer;
    pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
        faer(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    include!("../body/la_put.rs");
    include!("../body/c17.rs");
}
#[cfg(feature = "blas")]
mod obl {
    use super::*;
    #[allow(unused_imports)]
    use vh::pick_second as by_dev;
    pub type B = rstsr_openblas::DeviceOpenBLAS;
    pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
        oblas(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    include!("../body/la_put.rs");
    include!("../body/c17.rs");
}

#[cfg(not(feature = "blas"))]
use par as here;
#[cfg(feature = "blas")]
use obl as here;

fn main() {
    main_check(Check {
        prop: "C17",
        level: "exploration",
        rule: "a case counts when the matrix is larger than one by one; distinct by operation, type, layout, form and size",
        assumptions: &[
            "residuals are bounded by 40 (n+4) eps times the norms (and the condition number of the constructed matrix where the method needs it)",
            "for a singular matrix an inverse or solution may be an error or not finite, but not a finite array",
        ],
        families: vec![
            fam("cholesky", here::cholesky_case, 4000, 200000),
            fam("det", here::det_case, 4000, 200000),
            fam("inv", here::inv_case, 4000, 200000),
            fam("pinv", here::pinv_case, 3000, 150000),
            fam("solve_general", here::solve_case, 5000, 250000),
            fam("solve_triangular", here::tri_case, 5000, 250000),
            fam("solve_symmetric", here::sym_case, 5000, 250000),
            fam("eigh", here::eigh_case, 2000, 100000),
            fam("eigh_general", here::geigh_case, 1500, 80000),
            fam("svd", here::svd_case, 4000, 200000),
        ],
        workers: 8,
    })
}
