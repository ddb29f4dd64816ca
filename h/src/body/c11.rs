macro_rules! made {
    ($what:expr, $t:expr, $want:expr, $colm:expr) => {{
        let t = $t;
        check_contig($what, t.shape().as_ref(), t.stride().as_ref(), t.offset(), t.raw().len(), $colm)?;
        same($what, &obs!(&t), &$want)?;
    }};
}

macro_rules! int_range {
    ($c:ident, $t:ty) => {{
        let r = &mut $c.rng;
        let (lo, hi) = (<$t>::MIN as i128, <$t>::MAX as i128);
        let clamp = |x: i128| x.max(lo).min(hi);
        let near = |r: &mut Rng| -> i128 {
            match r.below(8) {
                0 => lo + r.below(40) as i128,
                1 => hi - r.below(40) as i128,
                2 => 0,
                _ => clamp(r.range(-200, 200) as i128),
            }
        };
        let a = near(r);
        let unsigned = lo == 0;
        // keep the number of elements bounded: pick the number first
        let n = if r.chance(1, 60) { r.usize(200, 3000) } else { r.below(40) } as i128;
        let mut s: i128 = match r.below(6) {
            0 => 1,
            1 => 1 + r.below(7) as i128,
            2 => -1 - r.below(7) as i128,
            3 => ((hi - lo) / (1 + n)).max(1),
            4 => clamp(-((hi - lo) / (2 + n)).max(1)),
            _ => clamp(r.range(-50, 50) as i128),
        };
        if unsigned {
            s = s.abs();
        }
        if s == 0 {
            s = 1;
        }
        s = clamp(s);
        let slack = if r.bool() { 0 } else { (s.abs().min(1000) - 1).max(0).min(r.below(50) as i128) };
        let mut b = clamp(a + n * s - slack * s.signum());
        if r.chance(1, 12) {
            b = clamp(a - r.below(90) as i128 * s); // step leads away
        }
        let colm = $c.rng.bool();
        let d = dev(&mut $c.rng, colm);
        let form = $c.rng.below(6);
        let (a, b, s) = match form {
            0 if (b - a).abs() < 5000 => (a, b, 1),
            1 if b.abs() < 5000 => (0, b, 1),
            2 if (b - a).abs() < 5000 => (a, b, 1),
            3 if b.abs() < 5000 => (0, b, 1),
            _ => (a, b, s),
        };
        $c.d(format!("arange {} {a} {b} {s} form {form}", stringify!($t)));
        let want: Vec<$t> = range_i(a, b, s).into_iter().map(|x| x as $t).collect();
        if !want.is_empty() {
            $c.nontrivial();
        }
        $c.hit(format!("arange-{}", stringify!($t)));
        let want = Nd { shape: vec![want.len()], data: want };
        let (a, b, s) = (a as $t, b as $t, s as $t);
        match form {
            0 if s == 1 => made!("arange", rt::arange((a, b, d)), want, false),
            1 if s == 1 && a == 0 => made!("arange", rt::arange((b, d)), want, false),
            2 if s == 1 => made!("arange", rt::arange((a, b)), want, false),
            3 if s == 1 && a == 0 => made!("arange", rt::arange(b), want, false),
            4 => made!("arange", rt::arange((a, b, s)), want, false),
            _ => made!("arange", rt::arange((a, b, s, d)), want, false),
        }
    }};
}

macro_rules! float_range {
    ($c:ident, $t:ty) => {{
        let r = &mut $c.rng;
        let n = match r.below(60) {
            0 => r.usize(200, 5000),
            1 => 20000,
            _ => r.below(40),
        } as f64;
        // dyadic requests are exact; others may gain or lose the last element by rounding
        let exact = r.bool();
        let (a, mut s) = if exact {
            (r.range(-400, 400) as f64 / 8.0, r.range(-40, 40) as f64 / 8.0)
        } else {
            (r.f(-50.0, 50.0), r.f(-3.0, 3.0))
        };
        if s == 0.0 {
            s = 0.5;
        }
        let (a, s) = (a as $t as f64, s as $t as f64);
        let mut b = a + n * s + if exact { 0.0 } else { r.f(-1.0, 1.0) * s };
        if exact && r.chance(1, 2) {
            b -= s.signum() * 0.0625;
        }
        if r.chance(1, 12) {
            b = a - r.below(20) as f64 * s;
        }
        let b = b as $t as f64;
        let colm = $c.rng.bool();
        let d = dev(&mut $c.rng, colm);
        let own = $c.rng.chance(1, 4);
        $c.d(format!("arange {} {a} {b} {s}", stringify!($t)));
        $c.hit(format!("arange-{}", stringify!($t)));
        let q = (b - a) / s;
        let got: Vec<$t> = if own {
            let t = rt::arange((a as $t, b as $t, s as $t));
            ensure!(t.offset() == 0 && t.shape()[..] == [t.raw().len()], "arange layout");
            t.into_vec()
        } else {
            let t = rt::arange((a as $t, b as $t, s as $t, d));
            ensure!(t.offset() == 0 && t.shape()[..] == [t.raw().len()], "arange layout");
            t.into_vec()
        };
        let len = q.ceil().max(0.0);
        if len > 0.0 {
            $c.nontrivial();
        }
        let fuzzy = !exact && (q - q.round()).abs() < 1e-9 + (<$t>::EPSILON as f64) * 64.0 * (q.abs() + (a.abs() + b.abs()) / s.abs());
        let g = got.len() as f64;
        ensure!(g == len || (fuzzy && (g - len).abs() <= 1.0), "arange has {g} elements, wanted {len} (quotient {q})");
        let tol = (<$t>::EPSILON as f64) * 4.0 * (a.abs() + b.abs() + s.abs());
        for (i, x) in got.iter().enumerate() {
            let w = a + i as f64 * s;
            ensure!((*x as f64 - w).abs() <= tol, "arange element {i} is {x}, wanted {w}");
            ensure!(if s > 0.0 { (*x as f64) < b } else { (*x as f64) > b }, "arange element {i} = {x} reaches the end {b}");
        }
        if exact {
            for (i, x) in got.iter().enumerate() {
                ensure!(*x as f64 == a + i as f64 * s, "arange element {i} is {x}");
            }
        }
    }};
}

/// Ranges of every element type, sign and size of step.
pub fn range_case(c: &mut Case) -> R {
    c.eval();
    match c.rng.below(14) {
        0 => int_range!(c, i8),
        1 => int_range!(c, u8),
        2 => int_range!(c, i16),
        3 => int_range!(c, u16),
        4 => int_range!(c, i32),
        5 => int_range!(c, u32),
        6 => int_range!(c, i64),
        7 => int_range!(c, u64),
        8 => int_range!(c, isize),
        9 => int_range!(c, usize),
        10 | 11 => float_range!(c, f32),
        _ => float_range!(c, f64),
    }
    Ok(())
}

macro_rules! lin {
    ($c:ident, $t:ty, $eps:expr, $mk:expr) => {{
        let n = match $c.rng.below(80) {
            0 => $c.rng.usize(1000, 60000),
            1 => 300000,
            _ => $c.rng.below(30),
        };
        let (ar, ai, br, bi) = ($c.rng.f(-9.0, 9.0), $c.rng.f(-9.0, 9.0), $c.rng.f(-9.0, 9.0), $c.rng.f(-9.0, 9.0));
        let mk = $mk;
        let (a, b): ($t, $t) = (mk(ar, ai), mk(br, bi));
        let endpoint = $c.rng.bool();
        let colm = $c.rng.bool();
        let d = dev(&mut $c.rng, colm);
        let form = $c.rng.below(4);
        let endpoint = endpoint || form < 2;
        $c.d(format!("linspace {} {a} {b} {n} endpoint {endpoint} form {form}", stringify!($t)));
        $c.hit(format!("linspace-{}", stringify!($t)));
        if n > 1 {
            $c.nontrivial();
        }
        let t = match form {
            0 => obs!(rt::linspace((a, b, n, d))),
            1 => obs!(rt::linspace((a, b, n))),
            2 => obs!(rt::linspace((a, b, n, endpoint))),
            _ => obs!(rt::linspace((a, b, n, endpoint, d))),
        };
        let t = match t {
            Ok(t) => t,
            Err(e) => bail!("linspace: {e}"),
        };
        ensure!(t.shape == [n], "linspace has shape {:?}, wanted {n}", t.shape);
        let m = if n <= 1 { 1.0 } else if endpoint { (n - 1) as f64 } else { n as f64 };
        let (a, b) = (C64::from_f(a), C64::from_f(b));
        for (i, x) in t.data.iter().enumerate() {
            let w = a + (b - a) * (i as f64 / m);
            let x = C64::from_f(*x);
            ensure!((x - w).norm() <= $eps as f64 * 8.0 * (a.norm() + b.norm()), "linspace element {i} is {x}, wanted {w}");
        }
        if n > 0 {
            ensure!(C64::from_f(t.data[0]) == a, "linspace starts at {}", t.data[0]);
        }
    }};
}

trait FromF<T> {
    fn from_f(t: T) -> Self;
}
impl FromF<f64> for C64 {
    fn from_f(t: f64) -> C64 {
        C64::new(t, 0.0)
    }
}
impl FromF<f32> for C64 {
    fn from_f(t: f32) -> C64 {
        C64::new(t as f64, 0.0)
    }
}
impl FromF<C64> for C64 {
    fn from_f(t: C64) -> C64 {
        t
    }
}
impl FromF<C32> for C64 {
    fn from_f(t: C32) -> C64 {
        C64::new(t.re as f64, t.im as f64)
    }
}

pub fn linspace_case(c: &mut Case) -> R {
    c.eval();
    match c.rng.below(4) {
        0 => lin!(c, f32, f32::EPSILON, |r: f64, _i: f64| r as f32),
        1 => lin!(c, f64, f64::EPSILON, |r: f64, _i: f64| r),
        2 => lin!(c, C64, f64::EPSILON, C64::new),
        _ => lin!(c, C32, f32::EPSILON, |r: f64, i: f64| C32::new(r as f32, i as f32)),
    }
    Ok(())
}

fn fill_ty<T: V + PartialEq + num::Num>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let s = sh(&mut c.rng);
    let f = c.rng.bool();
    let v = loop {
        let v = T::gen(&mut c.rng);
        if v == v {
            break v;
        }
    };
    let what = c.rng.below(4);
    let form = c.rng.below(7);
    c.eval();
    c.d(format!("fill {what} form {form} {s:?} order {f} device order {colm} {v:?}"));
    c.hit(format!("fill-{what}-{form}"));
    if size_of(&s) > 0 {
        c.nontrivial();
    }
    let val = match what {
        0 => T::zero(),
        1 => T::one(),
        _ => v.clone(),
    };
    let want = Nd::from_fn(&s, |_| val.clone());
    let bo = build_colm();
    macro_rules! go {
        ($zeros:ident, $name:literal $(, $x:expr)?) => {
            match form {
                0 => made!($name, rt::$zeros::<_, (T, Vec<usize>)>(wrap!(s.clone() $(, $x)?, ord(f), d)), want, f),
                1 => made!($name, rt::$zeros::<_, (T, Vec<usize>)>(wrap!(s.clone() $(, $x)?, d)), want, colm),
                2 => made!($name, rt::$zeros::<_, (T, Vec<usize>)>(wrap!(s.clone() $(, $x)?, ord(f))), want, f),
                3 => made!($name, rt::$zeros::<_, (T, Vec<usize>)>((wrap!(s.clone() $(, $x)?))), want, bo),
                4 if s.len() == 2 => made!($name, rt::$zeros::<_, (T, [usize; 2])>(wrap!([s[0], s[1]] $(, $x)?, ord(f), d)), want, f),
                4 if s.len() == 3 => made!($name, rt::$zeros::<_, (T, [usize; 3])>(wrap!([s[0], s[1], s[2]] $(, $x)?, d)), want, colm),
                _ => {
                    // any non-overlapping layout, with gaps, negative strides and an offset
                    let sp = gen_layout(&mut c.rng, &s, false);
                    c.d(format!("layout {sp}"));
                    let l = if form == 5 {
                        let t = rt::$zeros::<_, (T, Vec<usize>)>((lay(&sp) $(, $x)?, d));
                        ensure!(t.layout() == &lay(&sp), "{}: layout {:?} for {sp}", $name, t.layout());
                        obs!(t)
                    } else {
                        let t = rt::$zeros::<_, (T, Vec<usize>)>((wrap!(lay(&sp) $(, $x)?)));
                        ensure!(t.layout() == &lay(&sp), "{}: layout {:?} for {sp}", $name, t.layout());
                        obs!(t)
                    };
                    same($name, &l, &want)?
                },
            }
        };
    }
    match what {
        0 => go!(zeros, "zeros"),
        1 => go!(ones, "ones"),
        2 => go!(full, "full", v.clone()),
        _ => {
            // uninitialised storage, then filled through assume_init and fill
            let sp = if form < 3 { contig_spec(&s, f) } else { gen_layout(&mut c.rng, &s, false) };
            let u = rt::uninit::<_, (T, Vec<usize>)>((lay(&sp), d));
            ensure!(u.layout() == &lay(&sp), "uninit: layout {:?} for {sp}", u.layout());
            let mut u = u;
            for x in u.raw_mut().iter_mut() {
                x.write(T::zero());
            }
            let mut t = unsafe { rt::assume_init(u) };
            t.fill(v.clone());
            same("uninit then fill", &obs!(t), &want)?;
        },
    }
    Ok(())
}

pub fn fill_case(c: &mut Case) -> R {
    match c.rng.below(6) {
        0 => fill_ty::<f64>(c),
        1 => fill_ty::<f32>(c),
        2 => fill_ty::<C64>(c),
        3 => fill_ty::<i32>(c),
        4 => fill_ty::<u8>(c),
        _ => fill_ty::<i64>(c),
    }
}

fn like_ty<T: V + PartialEq + num::Num>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let s = sh(&mut c.rng);
    let bc = c.rng.chance(1, 8);
    let sp = gen_layout(&mut c.rng, &s, bc);
    let raw: Vec<T> = gen_raw(&mut c.rng, sp.len);
    let t = rt::asarray((&raw, lay(&sp), d));
    let v = loop {
        let v = T::gen(&mut c.rng);
        if v == v {
            break v;
        }
    };
    let what = c.rng.below(3);
    let form = c.rng.below(6);
    let o = c.rng.below(4);
    let order = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K][o];
    let d2 = dev(&mut c.rng, colm);
    c.eval();
    c.d(format!("like {what} form {form} order {o} {sp} {v:?}"));
    if size_of(&s) > 0 {
        c.nontrivial();
    }
    let val = match what {
        0 => T::zero(),
        1 => T::one(),
        _ => v.clone(),
    };
    let want = Nd::from_fn(&s, |_| val.clone());
    // order that a C/F/A/K request asks for
    let is = |colm: bool| {
        let w = contig_spec(&s, colm);
        (0..s.len()).all(|k| s[k] == 1 || sp.stride[k] == w.stride[k])
    };
    let asked: Option<bool> = match if form >= 3 { 3 } else { o } {
        0 => Some(false),
        1 => Some(true),
        2 if is(false) && is(true) => None,
        2 if is(false) => Some(false),
        2 if is(true) => Some(true),
        2 => Some(build_colm()),
        _ if is(false) && !is(true) => Some(false),
        _ if is(true) && !is(false) => Some(true),
        _ => None,
    };
    macro_rules! fin {
        ($t:expr) => {{
            let t = $t;
            if let Some(f) = asked {
                check_contig("like", t.shape().as_ref(), t.stride().as_ref(), t.offset(), t.raw().len(), f)?;
            } else {
                // dense: the positions are exactly 0..size, and the stride order is kept
                let p = positions(t.raw().len(), t.shape().as_ref(), t.stride().as_ref(), t.offset());
                let mut p = match p {
                    Ok(p) => p,
                    Err(e) => bail!("like: {e}"),
                };
                p.sort();
                ensure!(p.iter().enumerate().all(|(i, &x)| i == x), "like: layout {:?} is not dense", t.layout());
            }
            same("like", &obs!(&t), &want)?;
        }};
    }
    match (what, form) {
        (0, 0) => fin!(rt::zeros_like((&t, order, d2))),
        (1, 0) => fin!(rt::ones_like((&t, order, d2))),
        (2, 0) => fin!(rt::full_like((&t, v.clone(), order, d2))),
        (0, 1 | 2) => fin!(rt::zeros_like((&t, order))),
        (1, 1 | 2) => fin!(rt::ones_like((&t, order))),
        (2, 1 | 2) => fin!(rt::full_like((&t, v.clone(), order))),
        (0, 3) => fin!(rt::zeros_like((&t, d2))),
        (1, 3) => fin!(rt::ones_like((&t, d2))),
        (2, 3) => fin!(rt::full_like((&t, v.clone(), d2))),
        (0, 4) => fin!(rt::zeros_like(&t)),
        (1, 4) => fin!(rt::ones_like(&t)),
        (2, 4) => fin!(rt::full_like((&t, v.clone()))),
        (0, _) => fin!(t.zeros_like()),
        (1, _) => fin!(t.ones_like()),
        _ => fin!(t.full_like(v.clone())),
    }
    Ok(())
}

pub fn like_case(c: &mut Case) -> R {
    match c.rng.below(3) {
        0 => like_ty::<f64>(c),
        1 => like_ty::<C32>(c),
        _ => like_ty::<i32>(c),
    }
}

pub fn eye_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let big = c.rng.chance(1, 60);
    let (n, m) = if big { (c.rng.usize(1, 90), c.rng.usize(1, 90)) } else { (c.rng.below(7), c.rng.below(7)) };
    let k = c.rng.range(-9, 9) as isize;
    let f = c.rng.bool();
    let form = c.rng.below(6);
    c.eval();
    c.d(format!("eye {n} {m} {k} order {f} form {form} device {colm}"));
    if n > 0 && m > 0 {
        c.nontrivial();
    }
    let e = |n: usize, m: usize, k: isize| Nd::from_fn(&[n, m], |i| (i[1] as isize - i[0] as isize == k) as u8 as f64);
    match form {
        0 => made!("eye", rt::eye((n, m, k, ord(f), d)), e(n, m, k), f),
        1 => made!("eye", rt::eye((n, m, k, d)), e(n, m, k), colm),
        2 => made!("eye", rt::eye((n, d)), e(n, n, 0), colm),
        3 => made!("eye", rt::eye((n, m, k, ord(f))), e(n, m, k), f),
        4 => made!("eye", rt::eye((n, m, k)), e(n, m, k), build_colm()),
        _ => made!("eye", rt::eye(n), e(n, n, 0), build_colm()),
    }
    Ok(())
}

fn tri_ty<T: V + PartialEq + num::Num + Copy>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let mut s = sh(&mut c.rng);
    if colm {
        s.truncate(2);
    }
    while s.len() < 2 {
        s.push(c.rng.usize(1, 5));
    }
    let form = c.rng.below(6);
    let sp = gen_layout(&mut c.rng, &s, false);
    let raw: Vec<T> = (0..sp.len).map(|_| loop { let v = T::gen(&mut c.rng); if v == v && v != T::zero() { break v } }).collect();
    let m = observe(&raw, &s, &sp.stride, sp.offset).unwrap();
    let lower = c.rng.bool();
    let dk = c.rng.bool();
    let k = if dk { 0 } else { c.rng.range(-6, 6) as isize };
    c.eval();
    c.d(format!("tri lower {lower} k {k} form {form} {sp}"));
    if m.size() > 0 {
        c.nontrivial();
    }
    let nd = s.len();
    let want = Nd::from_fn(&s, |i| {
        let (a, b) = (i[nd - 2] as isize, i[nd - 1] as isize);
        if (lower && b <= a + k) || (!lower && b >= a + k) { *m.at(i) } else { T::zero() }
    });
    macro_rules! tri {
        ($x:expr) => {
            if lower {
                if dk { rt::tril($x) } else { rt::tril(($x, k)) }
            } else if dk {
                rt::triu($x)
            } else {
                rt::triu(($x, k))
            }
        };
    }
    match form {
        0 | 1 => {
            let t = rt::asarray((&raw, lay(&sp), d));
            let got = if form == 0 { obs!(tri!(&t)) } else { obs!(tri!(t.view())) };
            same("tri", &got, &want)?;
            unchanged("tri", &raw, &raw)?;
        },
        2 | 3 => {
            // in place: exactly the elements of the array outside the triangle become zero
            let mut buf = raw.clone();
            {
                let t = rt::asarray((&mut buf, lay(&sp), d));
                same("tri in place", &obs!(tri!(t)), &want)?;
            }
            let mut exp = raw.clone();
            let p = positions(raw.len(), &s, &sp.stride, sp.offset).unwrap();
            for (k, &x) in p.iter().enumerate() {
                exp[x] = want.data[k];
            }
            unchanged("tri in place", &exp, &buf)?;
        },
        _ => {
            let t = rt::asarray((raw.clone(), lay(&sp), d));
            same("tri of owned", &obs!(tri!(t)), &want)?;
        },
    }
    Ok(())
}

pub fn tri_case(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => tri_ty::<f64>(c),
        1 => tri_ty::<C32>(c),
        2 => tri_ty::<u8>(c),
        _ => tri_ty::<i64>(c),
    }
}

fn wrap_ty<T: V + PartialEq>(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let d = dev(&mut c.rng, colm);
    let s = sh(&mut c.rng);
    let n = size_of(&s);
    let raw: Vec<T> = (0..n).map(|_| loop { let v = T::gen(&mut c.rng); if v == v { break v } }).collect();
    let form = c.rng.below(16);
    c.eval();
    c.d(format!("wrap form {form} {s:?} device {colm}"));
    c.hit(format!("wrap-{form}"));
    if n > 0 {
        c.nontrivial();
    }
    let flat = Nd { shape: vec![n], data: raw.clone() };
    let by = |f: bool| Nd::from_seq(&s, raw.clone(), f);
    let bo = build_colm();
    let mut mb = raw.clone();
    macro_rules! al {
        ($t:expr, $p:expr, $want:expr) => {{
            let t = $t;
            ensure!(t.raw().as_ptr() == $p, "wrapping a slice copies it");
            same("asarray", &obs!(&t), &$want)?;
        }};
    }
    let p = raw.as_ptr();
    match form {
        0 => made!("asarray(vec)", rt::asarray((raw.clone(), d)), flat, false),
        1 => made!("asarray(vec)", rt::asarray(raw.clone()), flat, false),
        2 => made!("asarray(vec, shape)", rt::asarray((raw.clone(), s.clone(), d)), by(colm), colm),
        3 => made!("asarray(vec, c)", rt::asarray((raw.clone(), s.c(), d)), by(false), false),
        4 => made!("asarray(vec, f)", rt::asarray((raw.clone(), s.f(), d)), by(true), true),
        5 => made!("asarray(vec, shape)", rt::asarray((raw.clone(), s.clone())), by(bo), bo),
        6 => al!(rt::asarray((&raw[..], s.clone(), d)), p, by(colm)),
        7 => al!(rt::asarray((&raw, s.f(), d)), p, by(true)),
        8 => al!(rt::asarray((&raw, d)), p, flat),
        9 => al!(rt::asarray(&raw[..]), p, flat),
        10 => al!(rt::asarray((&raw, s.c())), p, by(false)),
        11 => {
            let p = mb.as_ptr();
            al!(rt::asarray((&mut mb, s.clone(), d)), p, by(colm))
        },
        12 => {
            let p = mb.as_ptr();
            al!(rt::asarray((&mut mb[..], d)), p, flat)
        },
        13 => {
            // mutable wrapping writes through
            let f = c.rng.bool();
            let w: Vec<T> = (0..n).map(|_| T::gen(&mut c.rng)).collect();
            {
                let mut t = rt::asarray((&mut mb[..], if f { s.f() } else { s.c() }, d));
                let src = rt::asarray((&w, if f { s.f() } else { s.c() }, d));
                t.assign(&src);
            }
            for (k, (a, b)) in mb.iter().zip(&w).enumerate() {
                ensure!(a.eqv(b), "write through a wrapped mutable slice: element {k} is {a:?}, wanted {b:?}");
            }
        },
        14 => {
            // tensor to tensor, in a chosen order
            let bc = c.rng.chance(1, 8);
            let sp = gen_layout(&mut c.rng, &s, bc);
            let raw: Vec<T> = (0..sp.len).map(|_| loop { let v = T::gen(&mut c.rng); if v == v { break v } }).collect();
            let m = observe(&raw, &s, &sp.stride, sp.offset).unwrap();
            let t = rt::asarray((&raw, lay(&sp), d));
            let f = c.rng.bool();
            c.d(format!("order {f} {sp}"));
            let o = if f { TensorIterOrder::F } else { TensorIterOrder::C };
            match c.rng.below(4) {
                0 => made!("asarray(&t, order)", rt::asarray((&t, o)), m, f),
                1 => made!("asarray(view, order)", rt::asarray((t.view(), o)), m, f),
                2 => made!("asarray(owned, order)", rt::asarray((rt::asarray((raw.clone(), lay(&sp), d)), o)), m, f),
                _ => same("asarray(&t)", &obs!(rt::asarray(&t)), &m)?,
            }
        },
        _ => {
            let v = c.rng.range(-99, 99);
            let w = Nd { shape: vec![], data: vec![v] };
            match c.rng.below(3) {
                0 => same("asarray(scalar)", &obs!(rt::asarray(v)), &w)?,
                1 => same("asarray(scalar)", &obs!(rt::asarray((v, d))), &w)?,
                _ => same("from scalar", &obs!(rt::asarray((v as f64, d))), &w.map(|x| *x as f64))?,
            }
        },
    }
    Ok(())
}

pub fn wrap_case(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => wrap_ty::<f64>(c),
        1 => wrap_ty::<C64>(c),
        2 => wrap_ty::<String>(c),
        _ => wrap_ty::<i32>(c),
    }
}
