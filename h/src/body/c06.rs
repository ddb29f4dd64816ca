macro_rules! prep {
    ($c:ident, $t:ty, $gen:expr, $what:expr) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let s = one(&mut $c.rng);
        let raw: Vec<$t> = (0..s.len).map(|_| ($gen)(&mut $c.rng)).collect();
        let (ax, axes) = gen_ax(&mut $c.rng, s.shape.len());
        let max = $c.rng.bool();
        $c.d(format!("{} {} {} {} over {:?}", $what, stringify!($t), if max { "max" } else { "min" }, s, ax));
        let m = nd(&raw, &s);
        let g = if m.size() == 0 { Nd { shape: vec![], data: vec![] } } else { group(&m, &axes) };
        let want = g.map(|v| first(v, max));
        if g.data.iter().zip(&want.data).any(|(v, w)| v.iter().filter(|x| x.1 == v[w.0].1).count() > 1) {
            $c.nontrivial();
        }
        $c.eval();
        (dev, s, raw, ax, max, m.size(), want)
    }};
}

macro_rules! flat_ty {
    ($c:ident, $t:ty, $gen:expr) => {{
        let (dev, s, raw, ax, max, size, want) = prep!($c, $t, $gen, "flat");
        let t = rt::asarray((&raw, lay(&s), dev));
        if size == 0 {
            ensure!(t.argmin_all_f().is_err() && t.argmax_all_f().is_err(), "position of the extremum of nothing was accepted");
            return Ok(());
        }
        let want = want.map(|w| w.0);
        let one = |v: usize| Ok(Nd { shape: vec![], data: vec![v] });
        let fixed = $c.rng.bool();
        let got: Result<Nd<usize>, String> = match (&ax, max) {
            (Ax::All, false) if fixed && s.shape.len() == 3 => one(t.to_dim::<Ix3>().argmin()),
            (Ax::All, true) if fixed && s.shape.len() == 3 => one(t.to_dim::<Ix3>().argmax()),
            (Ax::All, false) => one(t.argmin_all()),
            (Ax::All, true) => one(rt::argmax_all(&t)),
            (Ax::Null, false) => obs!(t.argmin_axes(None)),
            (Ax::Null, true) => obs!(t.argmax_axes(None)),
            (Ax::One(a), false) if fixed && s.shape.len() == 2 => obs!(t.to_dim::<Ix2>().argmin_axes(*a)),
            (Ax::One(a), true) if fixed && s.shape.len() == 2 => obs!(t.to_dim::<Ix2>().argmax_axes(*a)),
            (Ax::One(a), false) => obs!(rt::argmin_axes(t, *a)),
            (Ax::One(a), true) => obs!(rt::argmax_axes(t, *a)),
            (Ax::List(v), false) => obs!(t.argmin_axes(v)),
            (Ax::List(v), true) => obs!(t.argmax_axes(v)),
        };
        same("position", &got, &want)
    }};
}

macro_rules! multi_ty {
    ($c:ident, $t:ty, $gen:expr) => {{
        let (dev, s, raw, ax, max, size, want) = prep!($c, $t, $gen, "multi");
        let t = rt::asarray((&raw, lay(&s), dev));
        if size == 0 {
            ensure!(
                t.unraveled_argmin_all_f().is_err() && t.unraveled_argmax_all_f().is_err(),
                "position of the extremum of nothing was accepted"
            );
            return Ok(());
        }
        let want = want.map(|w| w.1.clone());
        let one = |v: Vec<usize>| Ok(Nd { shape: vec![], data: vec![v] });
        let fixed = $c.rng.bool();
        let got: Result<Nd<Vec<usize>>, String> = match (&ax, max) {
            (Ax::All, false) if fixed && s.shape.len() == 2 => one(t.to_dim::<Ix2>().unraveled_argmin().to_vec()),
            (Ax::All, true) if fixed && s.shape.len() == 2 => one(t.to_dim::<Ix2>().unraveled_argmax().to_vec()),
            (Ax::All, false) => one(t.unraveled_argmin_all()),
            (Ax::All, true) => one(rt::unraveled_argmax_all(&t)),
            (Ax::Null, false) => obs!(t.unraveled_argmin_axes(None)),
            (Ax::Null, true) => obs!(t.unraveled_argmax_axes(None)),
            (Ax::One(a), false) => obs!(t.unraveled_argmin_axes(*a)),
            (Ax::One(a), true) => obs!(rt::unraveled_argmax_axes(t, *a)),
            (Ax::List(v), false) => obs!(t.unraveled_argmin_axes(v)),
            (Ax::List(v), true) => obs!(t.unraveled_argmax_axes(v)),
        };
        same("multi-index", &got, &want)
    }};
}

pub fn flat(c: &mut Case) -> R {
    let d = *c.rng.pick(&[1i64, 2, 5, 100, 100000]);
    match c.rng.below(4) {
        0 => flat_ty!(c, i32, |r: &mut Rng| r.range(-d, d) as i32),
        1 => flat_ty!(c, f64, |r: &mut Rng| if r.chance(1, 50) { *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0]) } else { r.range(-d, d) as f64 / 3.0 }),
        2 => flat_ty!(c, u8, |r: &mut Rng| r.range(0, d.min(200)) as u8),
        _ => flat_ty!(c, String, |r: &mut Rng| format!("{:03}", r.range(0, d.min(999)))),
    }
}

pub fn multi(c: &mut Case) -> R {
    let d = *c.rng.pick(&[1i64, 2, 5, 100, 100000]);
    match c.rng.below(2) {
        0 => multi_ty!(c, i64, |r: &mut Rng| r.range(-d, d)),
        _ => multi_ty!(c, f32, |r: &mut Rng| r.range(-d, d) as f32 / 3.0),
    }
}
