//! C14, the part that compiles only while `iter` of a tensor is not tied to the borrow of the tensor:
//! an iterator that outlives the memory it reads.
use rstsr_core::prelude::*;
use vh::*;

fn escape_case(c: &mut Case) -> R {
    let n = 200 + c.rng.below(200);
    c.d(format!("vector of {n} elements, iterated after it was dropped"));
    c.nontrivial();
    let t: Tensor<u64, DeviceCpuSerial, IxD> = rt::asarray((vec![7u64; n], vec![n], &DeviceCpuSerial::default()));
    let it = t.iter();
    drop(t);
    c.eval();
    let bad = it.filter(|&&x| x != 7).count();
    if bad > 0 {
        return fail("mem-escape-iter", format!("{bad} of {n} elements read from released memory"));
    }
    Ok(())
}

fn main() {
    main_check(Check {
        prop: "C14",
        level: "exploration",
        rule: "elements read through an iterator after its tensor was dropped must not come from released memory",
        assumptions: &[],
        families: vec![fam("escape", escape_case, 3, 3)],
        workers: 1,
    })
}
