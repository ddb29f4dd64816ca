//! C04: in-place operations change exactly the target elements.
use rstsr_core::prelude::*;
use vh::*;

fn cls(r: &mut Rng) -> Cls {
    match r.below(1000) {
        0..=1 => Cls::Huge,
        2..=16 => Cls::Big,
        17..=150 => Cls::Mid,
        _ => Cls::Tiny,
    }
}

/// A source shape that broadcasts to `shape`.
fn src_shape(r: &mut Rng, shape: &[usize], colm: bool) -> Vec<usize> {
    if colm {
        rev(&gen_bcast_partner(r, &rev(shape)))
    } else {
        gen_bcast_partner(r, shape)
    }
}

fn diff<T: V>(what: &str, got: &[T], want: &[T], inside: &[usize]) -> R {
    ensure!(got.len() == want.len(), "{what}: the buffer's length changed");
    for p in 0..got.len() {
        if !got[p].eqv(&want[p]) {
            let w = if inside.contains(&p) { "a target element" } else { "memory outside the target" };
            bail!("{what}: buffer position {p} ({w}) holds {:?}, wanted {:?}", got[p], want[p]);
        }
    }
    Ok(())
}

devices!("c04.rs");

fn main() {
    main_check(Check {
        prop: "C04",
        level: "exploration",
        rule: "a case counts when the target is non-empty; distinct by target layout, source layout, type and operation",
        assumptions: &["targets whose own elements share memory (broadcast targets) are excluded"],
        families: vec![
            fam("ops_serial", ser::ops, 200000, 6000000),
            fam("ops_pool", par::ops, 100000, 3000000),
            fam("set_serial", ser::set, 150000, 5000000),
            fam("set_pool", par::set, 80000, 2500000),
            fam("sliced_serial", ser::sliced, 80000, 3000000),
            fam("sliced_pool", par::sliced, 40000, 1500000),
        ],
        workers: 8,
    })
}
