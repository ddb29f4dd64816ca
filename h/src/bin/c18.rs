//! C18: the builders of BLAS and LAPACK routines. Every result is judged by the equation the routine promises,
//! evaluated in double precision; parts of an operand that must not be read hold NaN, and what must not be
//! written is compared with what it was.
#[cfg(feature = "blas")]
mod imp {
    use rstsr_blas_traits::prelude::*;
    use rstsr_core::prelude::*;
    use vh::*;

    include!("../body/la_num.rs");
    pub type B = rstsr_openblas::DeviceOpenBLAS;
    pub fn dev(r: &mut Rng, colm: bool) -> &'static B {
        oblas(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    include!("../body/la_put.rs");
    include!("../body/c18.rs");

    pub fn main() {
        main_check(Check {
            prop: "C18",
            level: "exploration",
            rule: "a case counts when the operands have more than one element; distinct by routine, type, flags, layouts and form",
            assumptions: &[
                "residuals are bounded by 40 (n+4) eps times the norms and the condition of the constructed matrix",
                "the diagonal of Hermitian operands is real",
            ],
            families: vec![
                fam("gemm", gemm_case, 6000, 400000),
                fam("symm", symm_case, 6000, 400000),
                fam("trsm", trsm_case, 6000, 400000),
                fam("potrf", potrf_case, 3000, 200000),
                fam("getrf", getrf_case, 4000, 200000),
                fam("gesv", gesv_case, 3000, 200000),
                fam("sysv", sysv_case, 3000, 200000),
                fam("syev", syev_case, 2500, 150000),
                fam("sygv", sygv_case, 2000, 100000),
                fam("gesvd", gesvd_case, 4000, 200000),
                fam("wrong_shapes", wrong_case, 3000, 100000),
            ],
            workers: 8,
        })
    }
}
#[cfg(feature = "blas")]
fn main() {
    imp::main()
}
#[cfg(not(feature = "blas"))]
fn main() {
    panic!("needs the feature blas")
}
