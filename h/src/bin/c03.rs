//! C03: elementwise operations broadcast and apply the scalar function to each element.
use rstsr_core::prelude::*;
use vh::*;

/// Two broadcastable layouts; sizes biased to the kernels' switches.
fn pair(r: &mut Rng, colm: bool) -> (Spec, Spec) {
    let cls = match r.below(300) {
        0 => Cls::Huge,
        1..=7 => Cls::Big,
        8..=60 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let sh = gen_shape(r, 0, 4, cls);
    let (a, b) = gen_bcast_pair(r, &sh, colm);
    let (ba, bb) = (r.chance(1, 5), r.chance(1, 5));
    let sa = gen_layout(r, &a, ba);
    let sb = if a == b && r.chance(1, 3) {
        let mut s = sa.clone();
        if s.has_bcast() {
            s = gen_layout(r, &b, false);
        }
        s
    } else {
        gen_layout(r, &b, bb)
    };
    (sa, sb)
}

fn one(r: &mut Rng) -> Spec {
    let cls = match r.below(300) {
        0 => Cls::Huge,
        1..=7 => Cls::Big,
        8..=60 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let sh = gen_shape(r, 0, 5, cls);
    let b = r.chance(1, 5);
    gen_layout(r, &sh, b)
}

fn nd<T: Clone>(raw: &[T], s: &Spec) -> Nd<T> {
    observe(raw, &s.shape, &s.stride, s.offset).unwrap()
}

/// Which shapes broadcast together, and to what.
fn rules(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let base = gen_shape(r, 0, 5, Cls::Tiny);
    let m = *r.pick(&[0usize, 1, 2, 2, 2, 3, 3, 4]);
    let mut v: Vec<Vec<usize>> = vec![];
    for _ in 0..m {
        let mut s = base.clone();
        for x in s.iter_mut() {
            match r.below(14) {
                0..=4 => *x = 1,
                5 => *x = *r.pick(&[0usize, 2, 3]),
                _ => {},
            }
        }
        let k = r.below(s.len() + 1);
        let s = match r.below(8) {
            0..=2 if colm => s[..k].to_vec(),
            0..=2 => s[k..].to_vec(),
            3 => s[..k].to_vec(),
            _ => s,
        };
        v.push(s);
    }
    c.d(format!("rules {} {v:?}", if colm { "F" } else { "C" }));
    c.eval();
    let o = vh::ord(colm);
    let want = match m {
        0 => Some(vec![]),
        _ => v[1..].iter().try_fold(v[0].clone(), |a, b| bcast_shape_ord(&a, b, colm)),
    };
    c.hit(if want.is_some() { "agree" } else { "disagree" });
    let got = rt::broadcast_shapes_f(&v, o).ok();
    ensure!(got == want, "broadcast_shapes gave {got:?}, wanted {want:?}");
    if m >= 2 {
        let (a, b) = (&v[0], &v[1]);
        if !a.is_empty() && !b.is_empty() && a != b {
            c.nontrivial();
        }
        let w = bcast_shape_ord(a, b, colm);
        let got = rstsr_core::prelude_dev::broadcast_shape::<IxD, IxD, IxD>(a, b, o).ok().map(|x| x.0);
        ensure!(got == w, "broadcast_shape gave {got:?}, wanted {w:?}");
        // of the two-way question the answer is one shape itself
        let w = bcast_shape(a, b);
        let to_b = w.as_ref() == Some(b);
        let to_a = w.as_ref() == Some(a);
        ensure!(a.broadcastable_to(b) == to_b, "{a:?} broadcastable_to {b:?} is {}", !to_b);
        ensure!(b.broadcastable_to(a) == to_a, "{b:?} broadcastable_to {a:?} is {}", !to_a);
        ensure!(a.broadcastable_from(b) == to_a, "{a:?} broadcastable_from {b:?} is {}", !to_a);
        ensure!(b.broadcastable_from(a) == to_b, "{b:?} broadcastable_from {a:?} is {}", !to_b);
        // the layouts of both operands over the common shape
        let w = bcast_shape_ord(a, b, colm);
        let (sa, sb) = (gen_layout(&mut c.rng, a, false), gen_layout(&mut c.rng, b, false));
        let got = rstsr_core::prelude_dev::broadcast_layout::<IxD, IxD, IxD>(&lay(&sa), &lay(&sb), o).ok();
        ensure!(got.is_some() == w.is_some(), "broadcast_layout gave {got:?}, wanted the shape {w:?}");
        if let (Some(w), Some((la, lb))) = (w, got) {
            for (s, l, src) in [(&sa, la, a), (&sb, lb, b)] {
                let raw: Vec<usize> = (0..s.len).collect();
                let m0 = nd(&raw, s);
                let got = observe(&raw, l.shape(), l.stride(), l.offset());
                same("layout over the common shape", &got, &m0.broadcast_ord(&w, colm))?;
                let size = w.iter().product::<usize>();
                let own = src.iter().product::<usize>();
                if size > 0 {
                    ensure!(l.size_non_broadcast() == own, "size_non_broadcast {} of {l:?}", l.size_non_broadcast());
                    ensure!(l.is_broadcasted() == (size > own), "is_broadcasted {} of {l:?}", l.is_broadcasted());
                }
            }
        }
    }
    Ok(())
}

devices!("c03.rs");

fn main() {
    main_check(Check {
        prop: "C03",
        level: "exploration",
        rule: "a case counts when the result is non-empty; distinct by operand layouts, element types, operation and ownership form",
        assumptions: &["scalar operations of the Rust standard library and the num crates define the elementwise function"],
        families: vec![
            fam("arith_serial", ser::arith, 150000, 6000000),
            fam("arith_pool", par::arith, 80000, 3000000),
            fam("bits_serial", ser::bits, 40000, 1500000),
            fam("bits_pool", par::bits, 20000, 800000),
            fam("compare_serial", ser::compare, 80000, 3000000),
            fam("compare_pool", par::compare, 40000, 1500000),
            fam("unary_serial", ser::unary, 80000, 3000000),
            fam("unary_pool", par::unary, 40000, 1500000),
            fam("mapping_serial", ser::mapping, 60000, 2000000),
            fam("mapping_pool", par::mapping, 30000, 1000000),
            fam("rules", rules, 60000, 2000000),
        ],
        workers: 8,
    })
}
