/// All ownership forms of a binary operation on same-typed operands.
macro_rules! forms {
    ($c:ident, $ra:ident, $sa:ident, $rb:ident, $sb:ident, $dev:ident, $op:tt, $name:ident, $nameo:ident) => {{
        let va = || rt::asarray((&$ra, lay(&$sa), $dev));
        let vb = || rt::asarray((&$rb, lay(&$sb), $dev));
        let oa = || rt::asarray(($ra.clone(), lay(&$sa), $dev));
        let ob = || rt::asarray(($rb.clone(), lay(&$sb), $dev));
        let k = $c.rng.below(20);
        $c.d(format!("form {k}"));
        $c.hit(format!("form_{k:02}"));
        let res = match k {
            0 => obs!(&va() $op &vb()),
            1 => obs!(&va() $op vb()),
            2 => obs!(va() $op &vb()),
            3 => obs!(va() $op vb()),
            4 => obs!(oa() $op &vb()),
            5 => obs!(&va() $op ob()),
            6 => obs!(oa() $op vb()),
            7 => obs!(va() $op ob()),
            8 => obs!(oa() $op ob()),
            9 => obs!(oa().into_cow() $op &vb()),
            10 => obs!(&oa() $op ob().into_cow()),
            11 => obs!(va().into_cow() $op ob().into_cow()),
            12 => obs!(oa().into_cow() $op vb().into_cow()),
            13 => obs!(&oa().into_shared() $op &ob().into_shared()),
            14 => obs!(va().$name(&vb())),
            15 => obs!(rt::$name(oa(), vb())),
            16 => obs!(va().into_cow() $op va().into_cow().view().to_owned().into_cow()),
            17 => {
                // an owned operand combined with a view of another owned operand of a fixed rank
                if $sa.shape.len() == 2 && $sb.shape.len() == 2 {
                    obs!((oa().into_dim::<Ix2>() $op vb().into_dim::<Ix2>()).into_dim::<IxD>())
                } else if $sa.shape.len() == 2 && $sb.shape.len() == 1 {
                    obs!((oa().into_dim::<Ix2>() $op &vb().into_dim::<Ix1>()).into_dim::<IxD>())
                } else if $sa.shape.len() == 1 && $sb.shape.len() == 3 {
                    obs!((&oa().into_dim::<Ix1>() $op ob().into_dim::<Ix3>()).into_dim::<IxD>())
                } else {
                    obs!(&va() $op &vb())
                }
            },
            _ => {
                // into a given output
                let sh = bcast_shape_ord(&$sa.shape, &$sb.shape, dev_colm($dev)).unwrap();
                let sc = gen_layout(&mut $c.rng, &sh, false);
                let mut buf = vec![$ra.first().cloned().unwrap_or_else(|| V::gen(&mut $c.rng)); sc.len];
                let mut t = rt::asarray((&mut buf, lay(&sc), $dev));
                rt::$nameo(&va(), &vb(), &mut t);
                obs!(&t)
            },
        };
        (k, res)
    }};
}

/// The main ownership forms.
macro_rules! forms_lite {
    ($c:ident, $ra:ident, $sa:ident, $rb:ident, $sb:ident, $dev:ident, $op:tt, $name:ident, $nameo:ident) => {{
        let va = || rt::asarray((&$ra, lay(&$sa), $dev));
        let vb = || rt::asarray((&$rb, lay(&$sb), $dev));
        let oa = || rt::asarray(($ra.clone(), lay(&$sa), $dev));
        let ob = || rt::asarray(($rb.clone(), lay(&$sb), $dev));
        let k = $c.rng.below(4);
        $c.d(format!("lite form {k}"));
        $c.hit(format!("lite_form_{k:02}"));
        let res = match k {
            0 => obs!(&va() $op &vb()),
            1 => obs!(oa() $op vb()),
            2 => obs!(&va() $op ob()),
            _ => obs!(oa() $op ob()),
        };
        (k, res)
    }};
}

fn dev_colm(d: &B) -> bool {
    d.default_order() == ColMajor
}

fn small_div<T: V>(v: &mut [T], r: &mut Rng, zero: impl Fn(&T) -> bool) {
    for x in v.iter_mut() {
        while zero(x) {
            *x = T::gen(r);
        }
    }
}

macro_rules! arith_ty {
    ($c:ident, $t:ty, $kind:tt, $sub_ok:expr, $forms:ident) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let (sa, sb) = pair(&mut $c.rng, colm);
        let mut ra: Vec<$t> = gen_raw(&mut $c.rng, sa.len);
        let mut rb: Vec<$t> = gen_raw(&mut $c.rng, sb.len);
        $c.d(format!("{} {} {} {}", stringify!($t), if colm { "F" } else { "C" }, sa, sb));
        let _ = (&mut ra, &mut rb);
        let opk = $c.rng.below(arith_ty!(@n $kind));
        $c.d(format!("op {opk}"));
        $c.hit(format!("{}_op{opk}", stringify!($t)));
        arith_ty!(@fix $kind, $c, ra, rb, opk);
        let (ma, mb) = (nd(&ra, &sa), nd(&rb, &sb));
        let (wa, wb) = (ra.clone(), rb.clone());
        let scalar = $c.rng.chance(1, 4);
        if ma.size() * mb.size() > 0 {
            $c.nontrivial();
        }
        $c.eval();
        if scalar && sa.len > 0 {
            // array with scalar, both sides
            let s: $t = rb.first().cloned().unwrap_or(<$t as num::One>::one());
            let va = || rt::asarray((&ra, lay(&sa), dev));
            let oa = || rt::asarray((ra.clone(), lay(&sa), dev));
            let form = $c.rng.below(8);
            $c.d(format!("scalar {s:?} form {form}"));
            macro_rules! sc {
                ($op:tt) => {{
                    let rhs = ma.map(|x| x.clone() $op s.clone());
                    match form {
                        0 => sim("array op scalar", &obs!(&va() $op s), &rhs)?,
                        1 => sim("view op scalar", &obs!(va() $op s), &rhs)?,
                        2 => sim("owned op scalar", &obs!(oa() $op s), &rhs)?,
                        _ => sim("cow op scalar", &obs!(oa().into_cow() $op s), &rhs)?,
                    }
                }};
                (@l $op:tt) => {{
                    // scalar on the left; avoid dividing by zero elements of integers
                    let lhs = ma.map(|x| s.clone() $op x.clone());
                    match form {
                        4 => sim("scalar op array", &obs!(s $op &va()), &lhs)?,
                        5 => sim("scalar op view", &obs!(s $op va()), &lhs)?,
                        6 => sim("scalar op owned", &obs!(s $op oa()), &lhs)?,
                        _ => sim("scalar op cow", &obs!(s $op oa().into_cow()), &lhs)?,
                    }
                }};
            }
            match (opk, form >= 4) {
                (0, false) => sc!(+),
                (0, true) => sc!(@l +),
                (1, false) if $sub_ok => sc!(-),
                (1, true) if $sub_ok => sc!(@l -),
                (2, false) => sc!(*),
                (2, true) => sc!(@l *),
                (3, false) => sc!(/),
                (3, true) if $sub_ok && ra.iter().all(|x| *x != <$t as num::Zero>::zero()) => sc!(@l /),
                _ => {},
            }
        } else {
            let (k, res, want) = arith_ty!(@ops $kind, $forms, $c, ra, sa, rb, sb, dev, opk, ma, mb, colm);
            let want = if k == 16 { arith_ty!(@self $kind, opk, ma) } else { want };
            sim("elementwise result", &res, &want)?;
        }
        unchanged("left operand", &ra, &wa)?;
        unchanged("right operand", &rb, &wb)?;
    }};
    (@n real) => { 5 };
    (@n cplx) => { 4 };
    (@fix real, $c:ident, $ra:ident, $rb:ident, $opk:ident) => {{
        if $opk >= 3 {
            small_div(&mut $rb, &mut $c.rng, |x| *x == num::Zero::zero());
            // form 16 divides the left operand by itself
            small_div(&mut $ra, &mut $c.rng, |x| *x == num::Zero::zero());
        }
        if $opk == 1 {
            arith_ty!(@unsign $ra, $rb);
        }
    }};
    (@fix cplx, $c:ident, $ra:ident, $rb:ident, $opk:ident) => {{}};
    (@unsign $ra:ident, $rb:ident) => {{
        lift(&mut $ra);
    }};
    (@ops real, $forms:ident, $c:ident, $ra:ident, $sa:ident, $rb:ident, $sb:ident, $dev:ident, $opk:ident, $ma:ident, $mb:ident, $colm:ident) => {
        match $opk {
            0 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, +, add, add_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() + y.clone())) },
            1 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, -, sub, sub_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() - y.clone())) },
            2 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, *, mul, mul_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() * y.clone())) },
            3 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, /, div, div_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() / y.clone())) },
            _ => {
                let va = || rt::asarray((&$ra, lay(&$sa), $dev));
                let vb = || rt::asarray((&$rb, lay(&$sb), $dev));
                let oa = || rt::asarray(($ra.clone(), lay(&$sa), $dev));
                let ob = || rt::asarray(($rb.clone(), lay(&$sb), $dev));
                let r = match $c.rng.below(4) {
                    0 => obs!(rt::rem(&va(), &vb())),
                    1 => obs!(rt::rem(oa(), &vb())),
                    2 => obs!(rt::rem(&va(), ob())),
                    _ => obs!(rt::rem(oa(), ob())),
                };
                (99, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() % y.clone()))
            },
        }
    };
    (@ops cplx, $forms:ident, $c:ident, $ra:ident, $sa:ident, $rb:ident, $sb:ident, $dev:ident, $opk:ident, $ma:ident, $mb:ident, $colm:ident) => {
        match $opk {
            0 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, +, add, add_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() + y.clone())) },
            1 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, -, sub, sub_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() - y.clone())) },
            2 => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, *, mul, mul_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() * y.clone())) },
            _ => { let (k, r) = $forms!($c, $ra, $sa, $rb, $sb, $dev, /, div, div_with_output); (k, r, zip(&$ma, &$mb, $colm, |x, y| x.clone() / y.clone())) },
        }
    };
    (@self $kind:tt, $opk:ident, $ma:ident) => {
        match $opk {
            0 => $ma.map(|x| x.clone() + x.clone()),
            1 => $ma.map(|x| x.clone() - x.clone()),
            2 => $ma.map(|x| x.clone() * x.clone()),
            _ => $ma.map(|x| x.clone() / x.clone()),
        }
    };
}

/// Keeps unsigned differences representable: raises the left operand above the generated range.
trait Lift {
    fn up(&mut self);
}
impl Lift for f64 {
    fn up(&mut self) {}
}
impl Lift for f32 {
    fn up(&mut self) {}
}
impl Lift for i32 {
    fn up(&mut self) {}
}
impl Lift for u32 {
    fn up(&mut self) {
        *self += 41;
    }
}
fn lift<T: Lift>(v: &mut [T]) {
    v.iter_mut().for_each(|x| x.up());
}

pub fn arith(c: &mut Case) -> R {
    match c.rng.below(10) {
        0..=3 => arith_ty!(c, f64, real, true, forms),
        4 => arith_ty!(c, f32, real, true, forms_lite),
        5..=6 => arith_ty!(c, i32, real, true, forms_lite),
        7 => arith_ty!(c, u32, real, false, forms_lite),
        _ => arith_ty!(c, C64, cplx, true, forms_lite),
    }
    Ok(())
}

macro_rules! bits_ty {
    ($c:ident, $t:ty, $($arm:literal => $op:tt $name:ident $nameo:ident),*) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let (sa, sb) = pair(&mut $c.rng, colm);
        let ra: Vec<$t> = gen_raw(&mut $c.rng, sa.len);
        let rb: Vec<$t> = gen_raw(&mut $c.rng, sb.len);
        let (ma, mb) = (nd(&ra, &sa), nd(&rb, &sb));
        let (wa, wb) = (ra.clone(), rb.clone());
        let n = [$($arm),*].len();
        let opk = $c.rng.below(n);
        $c.d(format!("{} {} {} {} op {opk}", stringify!($t), if colm { "F" } else { "C" }, sa, sb));
        $c.hit(format!("{}_bit{opk}", stringify!($t)));
        if ma.size() * mb.size() > 0 {
            $c.nontrivial();
        }
        $c.eval();
        match opk {
            $($arm => {
                let (_k, r) = forms_lite!($c, ra, sa, rb, sb, dev, $op, $name, $nameo);
                let want = zip(&ma, &mb, colm, |x, y| x.clone() $op y.clone());
                sim(stringify!($name), &r, &want)?;
            },)*
            _ => {},
        }
        unchanged("left operand", &ra, &wa)?;
        unchanged("right operand", &rb, &wb)?;
    }};
}

pub fn bits(c: &mut Case) -> R {
    match c.rng.below(3) {
        0 => bits_ty!(c, bool, 0usize => | bitor bitor_with_output, 1usize => & bitand bitand_with_output, 2usize => ^ bitxor bitxor_with_output),
        1 => bits_ty!(c, i32, 0usize => | bitor bitor_with_output, 1usize => & bitand bitand_with_output, 2usize => ^ bitxor bitxor_with_output),
        _ => bits_ty!(c, u16, 0usize => << shl shl_with_output, 1usize => >> shr shr_with_output, 2usize => | bitor bitor_with_output),
    }
    Ok(())
}

/// Comparison and promoted binary functions.
macro_rules! cmp_ops {
    ($c:ident, $ta:ty, $tb:ty, $tp:ty, $dev:ident, $ra:ident, $sa:ident, $rb:ident, $sb:ident, $ma:ident, $mb:ident, $colm:ident, $($k:literal => $name:ident $f:expr),*) => {{
        let n = [$($k),*].len();
        let opk = $c.rng.below(n);
        let form = $c.rng.below(5);
        $c.d(format!("op {opk} form {form}"));
        $c.hit(format!("{}_{}_cmp{opk}", stringify!($ta), stringify!($tb)));
        let va = || rt::asarray((&$ra, lay(&$sa), $dev));
        let vb = || rt::asarray((&$rb, lay(&$sb), $dev));
        match opk {
            $($k => {
                let f = $f;
                let want = zip(&$ma, &$mb, $colm, |x, y| f(*x as $tp, *y as $tp));
                match form {
                    0 => sim(stringify!($name), &obs!(rt::$name(&va(), &vb())), &want)?,
                    1 => sim(stringify!($name), &obs!(va().$name(&vb())), &want)?,
                    2 => sim(stringify!($name), &obs!(va().$name(vb())), &want)?,
                    3 => {
                        if let Some(&s) = $rb.first() {
                            let want = $ma.map(|x| f(*x as $tp, s as $tp));
                            sim(concat!(stringify!($name), " with scalar"), &obs!(rt::$name(&va(), s)), &want)?
                        }
                    },
                    _ => {
                        if let Some(&s) = $ra.first() {
                            let want = $mb.map(|y| f(s as $tp, *y as $tp));
                            let r = obs!(rt::$name(s, vb()));
                            sim(concat!(stringify!($name), " of scalar"), &r, &want)?
                        }
                    },
                }
            },)*
            _ => {},
        }
    }};
}

macro_rules! cmp_ty {
    ($c:ident, $ta:ty, $tb:ty, $tp:ty, $tf:ty, $fdiv:expr) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let (sa, sb) = pair(&mut $c.rng, colm);
        let ra: Vec<$ta> = gen_raw(&mut $c.rng, sa.len);
        let mut rb: Vec<$tb> = gen_raw(&mut $c.rng, sb.len);
        $c.d(format!("{} {} {} {} {}", stringify!($ta), stringify!($tb), if colm { "F" } else { "C" }, sa, sb));
        let fl = $c.rng.chance(1, 3);
        if fl {
            small_div(&mut rb, &mut $c.rng, |x| *x == num::Zero::zero());
        }
        let (ma, mb) = (nd(&ra, &sa), nd(&rb, &sb));
        let (wa, wb) = (ra.clone(), rb.clone());
        if ma.size() * mb.size() > 0 {
            $c.nontrivial();
        }
        $c.eval();
        if fl {
            cmp_ops!($c, $ta, $tb, $tp, dev, ra, sa, rb, sb, ma, mb, colm,
                0usize => floor_divide $fdiv,
                1usize => atan2 |x: $tp, y: $tp| (x as $tf).atan2(y as $tf),
                2usize => copysign |x: $tp, y: $tp| (x as $tf).copysign(y as $tf),
                3usize => hypot |x: $tp, y: $tp| (x as $tf).hypot(y as $tf),
                4usize => log_add_exp |x: $tp, y: $tp| ((x as $tf).exp() + (y as $tf).exp()).ln()
            );
        } else {
            cmp_ops!($c, $ta, $tb, $tp, dev, ra, sa, rb, sb, ma, mb, colm,
                0usize => maximum |x: $tp, y: $tp| if y > x || x != x { y } else { x },
                1usize => minimum |x: $tp, y: $tp| if y < x || x != x { y } else { x },
                2usize => equal |x: $tp, y: $tp| x == y,
                3usize => not_equal |x: $tp, y: $tp| x != y,
                4usize => less |x: $tp, y: $tp| x < y,
                5usize => less_equal |x: $tp, y: $tp| x <= y,
                6usize => greater |x: $tp, y: $tp| x > y,
                7usize => greater_equal |x: $tp, y: $tp| x >= y
            );
        }
        unchanged("left operand", &ra, &wa)?;
        unchanged("right operand", &rb, &wb)?;
    }};
}

pub fn compare(c: &mut Case) -> R {
    let ifd = |x: i64, y: i64| {
        let q = x / y;
        if x % y != 0 && ((x < 0) != (y < 0)) { q - 1 } else { q }
    };
    let ifd32 = |x: i32, y: i32| ifd(x as i64, y as i64) as i32;
    let _ = (&ifd, &ifd32);
    match c.rng.below(7) {
        0..=2 => cmp_ty!(c, f64, f64, f64, f64, |x: f64, y: f64| (x / y).floor()),
        3 => cmp_ty!(c, i32, i32, i32, f64, ifd32),
        4 => cmp_ty!(c, i32, f64, f64, f64, |x: f64, y: f64| (x / y).floor()),
        5 => cmp_ty!(c, u32, i32, i64, f64, ifd),
        _ => pow_case(c)?,
    }
    Ok(())
}

fn pow_case(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let (sa, sb) = pair(&mut c.rng, colm);
    let ra: Vec<f64> = gen_raw(&mut c.rng, sa.len);
    let rb: Vec<f64> = gen_raw(&mut c.rng, sb.len);
    let ri: Vec<i32> = (0..sb.len).map(|_| c.rng.range(-4, 5) as i32).collect();
    let ru: Vec<u32> = (0..sb.len).map(|_| c.rng.range(0, 6) as u32).collect();
    let rl: Vec<i64> = gen_raw(&mut c.rng, sa.len);
    c.d(format!("pow {sa} {sb}"));
    let (ma, mb, mi, mu, ml) = (nd(&ra, &sa), nd(&rb, &sb), nd(&ri, &sb), nd(&ru, &sb), nd(&rl, &sa));
    let va = rt::asarray((&ra, lay(&sa), dev));
    let vl = rt::asarray((&rl, lay(&sa), dev));
    c.eval();
    if ma.size() * mb.size() > 0 {
        c.nontrivial();
    }
    c.hit("pow");
    match c.rng.below(4) {
        0 => sim("pow f64 f64", &obs!(rt::pow(&va, &rt::asarray((&rb, lay(&sb), dev)))), &zip(&ma, &mb, colm, |x, y| x.powf(*y)))?,
        1 => {
            let got = obs!(rt::pow(&va, &rt::asarray((&ri, lay(&sb), dev))));
            let want = zip(&ma, &mi, colm, |x, y| x.powi(*y));
            sim("pow f64 i32", &got, &want)?
        },
        2 => sim("pow i64 u32", &obs!(rt::pow(vl, rt::asarray((&ru, lay(&sb), dev)))), &zip(&ml, &mu, colm, |x, y| x.pow(*y)))?,
        _ => {
            let p = c.rng.range(0, 5) as u32;
            sim("pow i64 scalar", &obs!(rt::pow(&vl, p)), &ml.map(|x| x.pow(p)))?
        },
    }
    Ok(())
}

/// Unary functions through the reference, the view and the consuming spelling.
macro_rules! un {
    ($c:ident, $dev:ident, $ra:ident, $sa:ident, $ma:ident, $own:tt, $($k:literal => $name:ident $f:expr),*) => {{
        let n = [$($k),*].len();
        let opk = $c.rng.below(n);
        let form = $c.rng.below(4);
        let va = || rt::asarray((&$ra, lay(&$sa), $dev));
        match opk {
            $($k => {
                let want = $ma.map($f);
                $c.d(format!("{} form {form}", stringify!($name)));
                $c.hit(stringify!($name));
                match form {
                    0 => sim(stringify!($name), &obs!((&va()).$name()), &want)?,
                    1 => sim(stringify!($name), &obs!(va().$name()), &want)?,
                    2 => sim(stringify!($name), &obs!(un!(@free $own, $name, &va())), &want)?,
                    _ => sim(stringify!($name), &obs!(un!(@own $own, $name, $ra, $sa, $dev)), &want)?,
                }
            },)*
            _ => {},
        }
    }};
    (@free $own:tt, $name:ident, $v:expr) => { $v.$name() };
    (@own own, $name:ident, $ra:ident, $sa:ident, $dev:ident) => { rt::asarray(($ra.clone(), lay(&$sa), $dev)).$name() };
    (@own not, $name:ident, $ra:ident, $sa:ident, $dev:ident) => { (&rt::asarray(($ra.clone(), lay(&$sa), $dev))).$name() };
}

pub fn unary(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let sa = one(&mut c.rng);
    c.d(format!("{} {}", if colm { "F" } else { "C" }, sa));
    if sa.size() > 0 {
        c.nontrivial();
    }
    c.eval();
    match c.rng.below(9) {
        0..=3 => {
            let ra: Vec<f64> = gen_raw(&mut c.rng, sa.len);
            let wa = ra.clone();
            let ma = nd(&ra, &sa);
            un!(c, dev, ra, sa, ma, own,
                0usize => acos |x| x.acos(), 1usize => acosh |x| x.acosh(), 2usize => asin |x| x.asin(), 3usize => asinh |x| x.asinh(),
                4usize => atan |x| x.atan(), 5usize => atanh |x| x.atanh(), 6usize => ceil |x| x.ceil(), 7usize => conj |x| *x,
                8usize => cos |x| x.cos(), 9usize => cosh |x| x.cosh(), 10usize => exp |x| x.exp(), 11usize => expm1 |x| x.exp_m1(),
                12usize => floor |x| x.floor(), 13usize => inv |x| 1.0 / x, 14usize => log |x| x.ln(), 15usize => log2 |x| x.log2(),
                16usize => log10 |x| x.log10(), 17usize => round |x| x.round(), 18usize => sin |x| x.sin(), 19usize => sinh |x| x.sinh(),
                20usize => square |x| x * x, 21usize => sqrt |x| x.sqrt(), 22usize => tan |x| x.tan(), 23usize => tanh |x| x.tanh(),
                24usize => trunc |x| x.trunc(), 25usize => abs |x| x.abs(), 26usize => real |x| *x, 27usize => imag |_| 0.0,
                28usize => sign |x: &f64| if x.is_nan() { f64::NAN } else if *x > 0.0 { 1.0 } else if *x < 0.0 { -1.0 } else { 0.0 },
                29usize => neg |x: &f64| -x
            );
            unchanged("operand", &ra, &wa)?;
        },
        4 => {
            let ra: Vec<f64> = gen_raw(&mut c.rng, sa.len);
            let wa = ra.clone();
            let ma = nd(&ra, &sa);
            un!(c, dev, ra, sa, ma, not,
                0usize => is_nan |x: &f64| x.is_nan(), 1usize => is_inf |x: &f64| x.is_infinite(), 2usize => is_finite |x: &f64| x.is_finite(),
                3usize => signbit |x: &f64| x.is_sign_negative()
            );
            unchanged("operand", &ra, &wa)?;
        },
        5 => {
            let ra: Vec<i32> = gen_raw(&mut c.rng, sa.len);
            let wa = ra.clone();
            let ma = nd(&ra, &sa);
            if c.rng.bool() {
                un!(c, dev, ra, sa, ma, own,
                    0usize => square |x| x * x, 1usize => abs |x| x.abs(), 2usize => real |x| *x, 3usize => imag |_| 0, 4usize => sign |x| x.signum(),
                    5usize => neg |x: &i32| -x, 6usize => not |x: &i32| !x
                );
            } else {
                un!(c, dev, ra, sa, ma, not,
                    0usize => sqrt |x| (*x as f64).sqrt(), 1usize => exp |x| (*x as f64).exp(), 2usize => floor |x| *x as f64,
                    3usize => signbit |x: &i32| *x < 0, 4usize => inv |x| 1.0 / (*x as f64)
                );
            }
            unchanged("operand", &ra, &wa)?;
        },
        6 => {
            let ra: Vec<bool> = gen_raw(&mut c.rng, sa.len);
            let ma = nd(&ra, &sa);
            un!(c, dev, ra, sa, ma, own, 0usize => not |x: &bool| !x);
        },
        _ => {
            let ra: Vec<C64> = (0..sa.len).map(|_| C64::new(c.rng.f(-1.5, 1.5), c.rng.f(-1.5, 1.5))).collect();
            let wa = ra.clone();
            let ma = nd(&ra, &sa);
            if c.rng.bool() {
                un!(c, dev, ra, sa, ma, own,
                    0usize => conj |x: &C64| C64::new(x.re, -x.im), 1usize => exp |x: &C64| x.exp(), 2usize => sqrt |x: &C64| x.sqrt(),
                    3usize => sin |x: &C64| x.sin(), 4usize => square |x: &C64| x * x, 5usize => inv |x: &C64| C64::new(1.0, 0.0) / x,
                    6usize => neg |x: &C64| -x, 7usize => log |x: &C64| x.ln(),
                    8usize => sign |x: &C64| if x.norm() == 0.0 { *x } else { x / x.norm() }
                );
            } else {
                un!(c, dev, ra, sa, ma, not,
                    0usize => abs |x: &C64| x.norm(), 1usize => real |x: &C64| x.re, 2usize => imag |x: &C64| x.im,
                    3usize => is_nan |_: &C64| false, 4usize => is_finite |_: &C64| true
                );
            }
            unchanged("operand", &ra, &wa)?;
        },
    }
    Ok(())
}

pub fn mapping(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let (sa, sb) = pair(&mut c.rng, colm);
    c.d(format!("{} {} {}", if colm { "F" } else { "C" }, sa, sb));
    let ra: Vec<i64> = (0..sa.len as i64).collect();
    let rb: Vec<i64> = (0..sb.len as i64).map(|x| x * 100000).collect();
    let (ma, mb) = (nd(&ra, &sa), nd(&rb, &sb));
    let va = rt::asarray((&ra, lay(&sa), dev));
    let vb = rt::asarray((&rb, lay(&sb), dev));
    let way = c.rng.below(10);
    c.d(format!("way {way}"));
    c.hit(format!("map_{way}"));
    c.eval();
    if ma.size() > 0 {
        c.nontrivial();
    }
    let calls = std::sync::atomic::AtomicUsize::new(0);
    let tick = || {
        calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    };
    let n = match way {
        0 => { sim("map", &obs!(va.map(|x| { tick(); x * 2 })), &ma.map(|x| x * 2))?; ma.size() },
        1 => { sim("mapv", &obs!(va.mapv(|x| { tick(); x.to_string() })), &ma.map(|x| x.to_string()))?; ma.size() },
        2 => { sim("map_fnmut", &by_dev!({ obs!(va.map_fnmut(|x| { tick(); *x as f64 })) } { obs!(va.map(|x| { tick(); *x as f64 })) }), &ma.map(|x| *x as f64))?; ma.size() },
        3 => { sim("mapv_fnmut", &by_dev!({ obs!(va.mapv_fnmut(|x| { tick(); x % 2 == 0 })) } { obs!(va.mapv(|x| { tick(); x % 2 == 0 })) }), &ma.map(|x| x % 2 == 0))?; ma.size() },
        4 => {
            let w = zip(&ma, &mb, colm, |x, y| x + y);
            sim("mapb", &obs!(va.mapb(&vb, |x, y| { tick(); x + y })), &w)?;
            w.size()
        },
        5 => {
            let w = zip(&ma, &mb, colm, |x, y| format!("{x}/{y}"));
            sim("mapvb", &obs!(va.mapvb(&vb, |x, y| { tick(); format!("{x}/{y}") })), &w)?;
            w.size()
        },
        6 => {
            let w = zip(&ma, &mb, colm, |x, y| x - y);
            sim("mapb_fnmut", &by_dev!({ obs!(va.mapb_fnmut(&vb, |x, y| { tick(); x - y })) } { obs!(va.mapb(&vb, |x, y| { tick(); x - y })) }), &w)?;
            w.size()
        },
        7 => {
            let w = zip(&ma, &mb, colm, |x, y| x < y);
            sim("mapvb_fnmut", &by_dev!({ obs!(va.mapvb_fnmut(&vb, |x, y| { tick(); x < y })) } { obs!(va.mapvb(&vb, |x, y| { tick(); x < y })) }), &w)?;
            w.size()
        },
        8 => {
            let mut o = va.to_owned();
            o.mapi(|x| { tick(); *x += 7 });
            sim("mapi", &obs!(&o), &ma.map(|x| x + 7))?;
            ma.size()
        },
        _ => {
            let mut o = va.to_owned();
            by_dev!({ o.mapvi_fnmut(|x| { tick(); x * 3 }) } { o.mapvi(|x| { tick(); x * 3 }) });
            sim("mapvi_fnmut", &obs!(&o), &ma.map(|x| x * 3))?;
            ma.size()
        },
    };
    let k = calls.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(k == n, "the function was called {k} times for {n} elements");
    Ok(())
}
