//! C20: promotion, casting, number helpers and closeness over all pairs of element types.
use half::{bf16, f16};
use rstsr_core::prelude::*;
use rstsr_dtype_traits::*;
use std::any::{type_name, TypeId};
use vh::*;

/// An element type; `bits` counts the whole real number.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ty {
    k: K,
    bits: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Bool,
    U,
    I,
    F,
    C,
    /// half precision: 16 for f16, 17 for bf16
    H,
}
/// A value: integers and floating-point numbers are exact.
#[derive(Clone, Copy, Debug)]
enum Val {
    I(i128),
    F(f64),
    C(f64, f64),
}
fn feq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative())
}
fn veq(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::I(x), Val::I(y)) => x == y,
        (Val::F(x), Val::F(y)) => feq(x, y),
        (Val::C(x, y), Val::C(z, w)) => feq(x, z) && feq(y, w),
        _ => false,
    }
}
trait N: Copy + Clone + Send + Sync + std::fmt::Debug + Default + PartialEq + 'static {
    const TY: Ty;
    fn make(r: &mut Rng) -> Self;
    fn val(self) -> Val;
}
macro_rules! n_int {
    ($($t:ty, $k:ident);*) => {$(impl N for $t {
        const TY: Ty = Ty { k: K::$k, bits: <$t>::BITS };
        fn make(r: &mut Rng) -> Self {
            match r.below(8) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => <$t>::MAX - r.below(3) as $t,
                3 => <$t>::MIN + r.below(3) as $t,
                4 => r.below(3) as $t,
                5 => {
                    let s = r.below(<$t>::BITS as usize - 1) as u32;
                    ((1u128 << s) as $t).wrapping_add(r.below(3) as $t).wrapping_sub(1)
                },
                6 => (r.below(100) as $t).wrapping_sub(50),
                _ => r.next_u64() as $t,
            }
        }
        fn val(self) -> Val { Val::I(self as i128) }
    })*};
}
n_int!(u8, U; u16, U; u32, U; u64, U; usize, U; i8, I; i16, I; i32, I; i64, I; isize, I);
impl N for bool {
    const TY: Ty = Ty { k: K::Bool, bits: 1 };
    fn make(r: &mut Rng) -> Self {
        r.bool()
    }
    fn val(self) -> Val {
        Val::I(self as i128)
    }
}
fn gen_f(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::NAN,
        5 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45]),
        6 => *r.pick(&[1.0, -1.0, 127.0, 128.0, 255.0, 256.0, 65535.0, 2147483647.0, 2147483648.0, 16777217.0, 9007199254740993.0, -128.0, 1.8446744073709552e19, 9.223372036854775807e18]),
        7 => r.range(-1000, 1000) as f64,
        8 => r.range(-1000, 1000) as f64 / 8.0,
        9 => f64::from_bits(r.next_u64()),
        10 => f32::from_bits(r.next_u64() as u32) as f64,
        _ => r.f(-100.0, 100.0),
    }
}
impl N for f64 {
    const TY: Ty = Ty { k: K::F, bits: 64 };
    fn make(r: &mut Rng) -> Self {
        gen_f(r)
    }
    fn val(self) -> Val {
        Val::F(self)
    }
}
impl N for f32 {
    const TY: Ty = Ty { k: K::F, bits: 32 };
    fn make(r: &mut Rng) -> Self {
        gen_f(r) as f32
    }
    fn val(self) -> Val {
        Val::F(self as f64)
    }
}
impl N for f16 {
    const TY: Ty = Ty { k: K::H, bits: 16 };
    fn make(r: &mut Rng) -> Self {
        if r.bool() { f16::from_bits(r.next_u64() as u16) } else { f16::from_f64(gen_f(r)) }
    }
    fn val(self) -> Val {
        Val::F(self.to_f64())
    }
}
impl N for bf16 {
    const TY: Ty = Ty { k: K::H, bits: 17 };
    fn make(r: &mut Rng) -> Self {
        if r.bool() { bf16::from_bits(r.next_u64() as u16) } else { bf16::from_f64(gen_f(r)) }
    }
    fn val(self) -> Val {
        Val::F(self.to_f64())
    }
}
impl N for C32 {
    const TY: Ty = Ty { k: K::C, bits: 32 };
    fn make(r: &mut Rng) -> Self {
        C32::new(<f32 as N>::make(r), <f32 as N>::make(r))
    }
    fn val(self) -> Val {
        Val::C(self.re as f64, self.im as f64)
    }
}
impl N for C64 {
    const TY: Ty = Ty { k: K::C, bits: 64 };
    fn make(r: &mut Rng) -> Self {
        C64::new(<f64 as N>::make(r), <f64 as N>::make(r))
    }
    fn val(self) -> Val {
        Val::C(self.re, self.im)
    }
}

/// The promotion rule of NumPy.
fn rule(a: Ty, b: Ty) -> Ty {
    let float_bits = |t: Ty| match t.k {
        K::F | K::C | K::H => t.bits,
        K::U | K::I if t.bits <= 16 => 32,
        K::U | K::I => 64,
        K::Bool => 0,
    };
    match (a.k, b.k) {
        (K::Bool, _) => b,
        (_, K::Bool) => a,
        (K::C, _) | (_, K::C) => Ty { k: K::C, bits: float_bits(a).max(float_bits(b)) },
        (K::F, _) | (_, K::F) => Ty { k: K::F, bits: float_bits(a).max(float_bits(b)) },
        (x, y) if x == y => Ty { k: x, bits: a.bits.max(b.bits) },
        _ => {
            let (u, i) = if a.k == K::U { (a, b) } else { (b, a) };
            match i.bits > u.bits {
                true => i,
                false if u.bits == 64 => Ty { k: K::F, bits: 64 },
                false => Ty { k: K::I, bits: u.bits * 2 },
            }
        },
    }
}
/// The value in the other type; `None` when it has none there.
fn convert(v: Val, to: Ty) -> Option<Val> {
    let round = |x: f64| match to.bits {
        32 => x as f32 as f64,
        16 => f16::from_f64(x).to_f64(),
        17 => bf16::from_f64(x).to_f64(),
        _ => x,
    };
    let round_i = |x: i128| match to.bits {
        32 => x as f32 as f64,
        64 => x as f64,
        _ => round(x as f64),
    };
    Some(match (v, to.k) {
        (Val::I(x), K::Bool) => Val::I((x != 0) as i128),
        (Val::F(x), K::Bool) => Val::I((x != 0.0) as i128),
        (Val::C(x, y), K::Bool) => Val::I((x != 0.0 || y != 0.0) as i128),
        (Val::I(x), K::U) => (x >= 0 && x < 1i128 << to.bits).then_some(Val::I(x))?,
        (Val::I(x), K::I) => (x >= -(1i128 << (to.bits - 1)) && x < 1i128 << (to.bits - 1)).then_some(Val::I(x))?,
        (Val::F(x), K::U | K::I) => {
            if !x.is_finite() || x.abs() >= 1e30 {
                return None;
            }
            return convert(Val::I(x.trunc() as i128), to);
        },
        (Val::I(x), K::F | K::H) => Val::F(round_i(x)),
        (Val::F(x), K::F | K::H) => Val::F(round(x)),
        (Val::I(x), K::C) => Val::C(round_i(x), 0.0),
        (Val::F(x), K::C) => Val::C(round(x), 0.0),
        (Val::C(x, y), K::C) => Val::C(round(x), round(y)),
        (Val::C(..), _) => return None,
    })
}
fn name<T>() -> &'static str {
    let n = type_name::<T>();
    n.rsplit("::").next().unwrap_or(n)
}

/// Promotion of a pair of types.
fn promote<A, B>(c: &mut Case) -> R
where
    A: N + DTypePromoteAPI<B>,
    B: N + DTypePromoteAPI<A>,
    <A as DTypePromoteAPI<B>>::Res: N,
    <B as DTypePromoteAPI<A>>::Res: N,
{
    type P<A, B> = <A as DTypePromoteAPI<B>>::Res;
    c.eval();
    c.nontrivial();
    let t = rule(A::TY, B::TY);
    let got = P::<A, B>::TY;
    c.d(format!("{} with {}", name::<A>(), name::<B>()));
    ensure!(got == t, "promoted to {got:?} instead of {t:?}");
    ensure!(TypeId::of::<P<A, B>>() == TypeId::of::<P<B, A>>(), "{} or {} by order", name::<P<A, B>>(), name::<P<B, A>>());
    let same_as = |x: TypeId, y: TypeId| x == y;
    let (ia, ib, ip) = (TypeId::of::<A>(), TypeId::of::<B>(), TypeId::of::<P<A, B>>());
    ensure!(<A as DTypePromoteAPI<B>>::SAME_TYPE == same_as(ia, ib), "SAME_TYPE");
    // a type of pointer size stands for its fixed-size counterpart
    let alike = |x: TypeId, y: TypeId, tx: Ty, ty: Ty| same_as(x, y) || (tx == ty && tx.bits == 64 && matches!(tx.k, K::U | K::I));
    ensure!(<A as DTypePromoteAPI<B>>::CAN_CAST_SELF == alike(ia, ip, A::TY, got), "CAN_CAST_SELF");
    ensure!(<A as DTypePromoteAPI<B>>::CAN_CAST_OTHER == alike(ib, ip, B::TY, got), "CAN_CAST_OTHER");
    for _ in 0..12 {
        let (a, b) = (A::make(&mut c.rng), B::make(&mut c.rng));
        c.d(format!("{a:?} {b:?}"));
        let (wa, wb) = (convert(a.val(), t).unwrap(), convert(b.val(), t).unwrap());
        let (x, y) = a.promote_pair(b);
        ensure!(veq(x.val(), wa), "promoted {a:?} to {x:?}");
        ensure!(veq(y.val(), wb), "promoted {b:?} to {y:?}");
        ensure!(veq(<A as DTypePromoteAPI<B>>::promote_self(a).val(), wa), "promote_self of {a:?}");
        ensure!(veq(<A as DTypePromoteAPI<B>>::promote_other(b).val(), wb), "promote_other of {b:?}");
        let (y, x) = b.promote_pair(a);
        ensure!(veq(x.val(), wa), "the other way, promoted {a:?} to {x:?}");
        ensure!(veq(y.val(), wb), "the other way, promoted {b:?} to {y:?}");
    }
    Ok(())
}

/// Casts between a pair of types.
fn cast<A: N + DTypeCastAPI<B>, B: N>(c: &mut Case) -> R {
    c.eval();
    c.nontrivial();
    c.d(format!("{} as {}", name::<A>(), name::<B>()));
    for _ in 0..16 {
        let a = A::make(&mut c.rng);
        if let Some(w) = convert(a.val(), B::TY) {
            let got: B = a.into_cast();
            ensure!(veq(got.val(), w), "{a:?} became {got:?}");
            c.hit("cast");
        } else {
            // no value there: any result, but a result
            let _: B = no_panic(|| a.into_cast())?;
            c.hit("out of range");
        }
    }
    Ok(())
}

/// The documented inequality, where the operands are finite; `None` where rounding decides.
fn close_rule(a: Val, b: Val, (rtol, atol): (f64, f64)) -> Option<bool> {
    let (diff, ab) = match (a, b) {
        (Val::I(x), Val::I(y)) => ((x - y).unsigned_abs() as f64, y.unsigned_abs() as f64),
        (Val::F(x), Val::F(y)) => ((x - y).abs(), y.abs()),
        (Val::C(x, y), Val::C(z, w)) => ((x - z).hypot(y - w), z.hypot(w)),
        _ => return None,
    };
    let tol = atol + rtol * ab;
    if diff == 0.0 {
        return Some(true);
    }
    if !diff.is_finite() || !tol.is_finite() || (diff - tol).abs() <= 1e-12 * (diff + tol) {
        return None;
    }
    Some(diff <= tol)
}
fn nan(v: Val) -> bool {
    match v {
        Val::I(_) => false,
        Val::F(x) => x.is_nan(),
        Val::C(x, y) => x.is_nan() || y.is_nan(),
    }
}
fn infinite(v: Val) -> bool {
    match v {
        Val::I(_) => false,
        Val::F(x) => x.is_infinite(),
        Val::C(x, y) => x.is_infinite() || y.is_infinite(),
    }
}
fn close<A, B>(c: &mut Case) -> R
where
    A: N + DTypePromoteAPI<B>,
    B: N,
    <A as DTypePromoteAPI<B>>::Res: N + ExtNum<AbsOut: DTypeCastAPI<f64>>,
{
    c.eval();
    c.nontrivial();
    c.d(format!("isclose {} {}", name::<A>(), name::<B>()));
    let t = <A as DTypePromoteAPI<B>>::Res::TY;
    for _ in 0..12 {
        let r = &mut c.rng;
        let (a, b) = (A::make(r), B::make(r));
        let rtol = *r.pick(&[0.0, 1e-12, 1e-5, 1e-2, 0.3, 1.0, 2.0]);
        let atol = *r.pick(&[0.0, 1e-8, 0.5, 1.0, 3.0, 40.0, 1e6]);
        let en = r.bool();
        let (args, what): (IsCloseArgs<f64>, _) = match r.below(7) {
            5 => (IsCloseArgs::default(), (1e-5, 1e-8, false)),
            0 => (None.into(), (1e-5, 1e-8, false)),
            1 => (rtol.into(), (rtol, 1e-8, false)),
            2 => ((rtol, atol).into(), (rtol, atol, false)),
            3 => (IsCloseArgsBuilder::default().rtol(rtol).equal_nan(en).build().unwrap(), (rtol, 1e-8, en)),
            4 => (Some(rtol).into(), (rtol, 1e-8, false)),
            _ => ((rtol, atol, en).into(), (rtol, atol, en)),
        };
        c.d(format!("{a:?} {b:?} {what:?}"));
        let (va, vb) = (convert(a.val(), t).unwrap(), convert(b.val(), t).unwrap());
        let got = no_panic(|| isclose(&a, &b, &args));
        // differences and magnitudes beyond the signed integer type
        if let (Val::I(x), Val::I(y), K::I) = (va, vb, t.k) {
            let max = (1i128 << (t.bits - 1)) - 1;
            if (x - y).abs() > max || y < -max {
                if got.is_err() || got.as_ref().ok() != close_rule(va, vb, (what.0, what.1)).as_ref() {
                    return fail("isclose-int-overflow", format!("isclose of {a:?} and {b:?} as {t:?}: {got:?}"));
                }
                continue;
            }
        }
        let got = got?;
        let want = if infinite(va) || infinite(vb) {
            None // the inequality is stated for finite values
        } else if nan(va) || nan(vb) {
            Some(nan(va) && nan(vb) && what.2)
        } else if t.bits == 32 && t.k != K::U && t.k != K::I && !single(va, vb) {
            None
        } else {
            close_rule(va, vb, (what.0, what.1))
        };
        if let Some(w) = want {
            // single precision rounds the difference before it is compared
            let slack = t.bits == 32 && matches!(t.k, K::F | K::C) || t.k == K::H;
            if slack && got != w && near_limit(va, vb, (what.0, what.1), t) {
                continue;
            }
            ensure!(got == w, "isclose({a:?}, {b:?}, {what:?}) is {got}");
            c.hit(if w { "close" } else { "apart" });
        }
    }
    Ok(())
}
/// Whether the difference stays a finite single-precision number.
fn single(a: Val, b: Val) -> bool {
    let f = |x: f64, y: f64| (x as f32 - y as f32).is_finite();
    match (a, b) {
        (Val::F(x), Val::F(y)) => f(x, y),
        (Val::C(x, y), Val::C(z, w)) => {
            f(x, z) && f(y, w) && ((x - z).hypot(y - w) as f32).is_finite() && (z.hypot(w) as f32).is_finite()
        },
        _ => true,
    }
}
fn near_limit(a: Val, b: Val, (rtol, atol): (f64, f64), t: Ty) -> bool {
    let (diff, ab) = match (a, b) {
        (Val::F(x), Val::F(y)) => ((x - y).abs(), y.abs()),
        (Val::C(x, y), Val::C(z, w)) => ((x - z).hypot(y - w), z.hypot(w)),
        _ => return false,
    };
    let tol = atol + rtol * ab;
    let e = match t.bits {
        16 => 2e-3,
        17 => 2e-2,
        _ => 1e-6,
    };
    (diff - tol).abs() <= e * (diff + tol) + 1e-44
}

type F = fn(&mut Case) -> R;
macro_rules! rows {
    ($f:ident; [$($a:ty),*]; $bs:tt) => { [$( rows!(@row $f; $a; $bs) ),*].concat() };
    (@row $f:ident; $a:ty; [$($b:ty),*]) => { vec![$( $f::<$a, $b> as F ),*] };
}
fn promote_case(c: &mut Case) -> R {
    let t: Vec<F> = [
        rows!(promote; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize, isize]),
        rows!(promote; [usize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize]),
        rows!(promote; [isize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, isize]),
        rows!(promote; [bool]; [f16, bf16]),
        rows!(promote; [f16]; [bool, f16]),
        rows!(promote; [bf16]; [bool, bf16]),
    ]
    .concat();
    let k = c.rng.below(t.len());
    t[k](c)
}
fn cast_case(c: &mut Case) -> R {
    let t: Vec<F> = [
        rows!(cast; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize, isize]),
        rows!(cast; [usize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize]),
        rows!(cast; [isize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, isize]),
        rows!(cast; [C32, C64]; [bool, C32, C64]),
        rows!(cast; [bool]; [f16, bf16]),
        rows!(cast; [f16]; [bool, f16]),
        rows!(cast; [bf16]; [bool, bf16]),
    ]
    .concat();
    let k = c.rng.below(t.len());
    t[k](c)
}
fn close_case(c: &mut Case) -> R {
    let t: Vec<F> = [
        rows!(close; [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize, isize]),
        rows!(close; [usize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize]),
        rows!(close; [isize]; [bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, isize]),
        rows!(close; [bool]; [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, C32, C64, usize, isize]),
    ]
    .concat();
    let k = c.rng.below(t.len());
    t[k](c)
}

macro_rules! helpers_int {
    ($c:ident, $t:ty) => {{
        for _ in 0..12 {
            let (a, b) = (<$t as N>::make(&mut $c.rng), <$t as N>::make(&mut $c.rng));
            let (x, y) = (a as i128, b as i128);
            $c.d(format!("{} {a} {b}", stringify!($t)));
            let fits = |v: i128| v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128;
            if fits(x.abs()) {
                ensure!(a.ext_abs() as i128 == x.abs(), "abs of {a} is {}", a.ext_abs());
            }
            if fits((x - y).abs()) {
                ensure!(a.ext_abs_diff(b) as i128 == (x - y).abs(), "|{a} - {b}| is {}", a.ext_abs_diff(b));
            }
            ensure!(a.ext_sign() as i128 == x.signum(), "sign of {a} is {}", a.ext_sign());
            ensure!(a.ext_real() == a && a.ext_imag() == 0 && a.ext_conj() == a, "parts of {a}");
            ensure!(!ExtNum::is_nan(&a), "{a} is not a number");
            ensure!(a.ext_min(b) as i128 == x.min(y) && a.ext_max(b) as i128 == x.max(y), "extremes of {a} and {b}");
            ensure!(<$t>::ext_min_value() == <$t>::MIN && <$t>::ext_max_value() == <$t>::MAX, "bounds");
            if b != 0 && fits(x.div_euclid(y).max(x / y)) {
                let q = x / y - ((x % y != 0 && (x < 0) != (y < 0)) as i128);
                if fits(q) {
                    ensure!(a.ext_floor_divide(b) as i128 == q, "{a} // {b} is {}", a.ext_floor_divide(b));
                }
            }
            let f: f64 = a.into_float();
            ensure!(feq(f, x as f64), "{a} as float is {f}");
        }
    }};
}
macro_rules! helpers_float {
    ($c:ident, $t:ty, $zero:expr, $one:expr, $to:expr, $next:expr) => {{
        let to = $to;
        for _ in 0..12 {
            let (a, b) = (<$t as N>::make(&mut $c.rng), <$t as N>::make(&mut $c.rng));
            $c.d(format!("{} {a:?} {b:?}", stringify!($t)));
            let eq = |x: $t, y: $t| feq(to(x), to(y));
            let (x, y) = (to(a), to(b));
            ensure!(feq(to(a.ext_abs()), x.abs()), "abs of {a:?}");
            let d = to(a - b).abs();
            ensure!(feq(to(a.ext_abs_diff(b)), d), "|{a:?} - {b:?}|");
            let s = to(a.ext_sign());
            ensure!(if x.is_nan() { s.is_nan() } else { s == if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 } }, "sign of {a:?} is {s}");
            ensure!(eq(a.ext_real(), a) && to(a.ext_imag()) == 0.0 && eq(a.ext_conj(), a), "parts of {a:?}");
            ensure!(ExtNum::is_nan(&a) == x.is_nan(), "is_nan of {a:?}");
            let (lo, hi) = (to(a.ext_min(b)), to(a.ext_max(b)));
            let (wl, wh) = (x.min(y), x.max(y));
            ensure!((lo == wl && hi == wh) || (wl.is_nan() && lo.is_nan() && hi.is_nan()), "extremes of {a:?} and {b:?}: {lo} {hi}");
            ensure!(to(<$t>::ext_min_value()) == f64::NEG_INFINITY && to(<$t>::ext_max_value()) == f64::INFINITY, "bounds");
            let q = to(a.ext_floor_divide(b));
            ensure!(feq(q, to(a / b).floor()), "{a:?} // {b:?} is {q}");
            ensure!(eq(a.into_float(), a), "float of {a:?}");
            // the neighbour: nothing lies between
            let n = a.ext_nextafter(b);
            let z = to(n);
            if x.is_nan() || y.is_nan() {
                ensure!(z.is_nan(), "neighbour of {a:?} towards {b:?} is {n:?}");
            } else if x == y {
                ensure!(z == y, "neighbour of {a:?} towards {b:?} is {n:?}");
            } else {
                let w: f64 = to($next(a, y > x));
                ensure!(z == w, "neighbour of {a:?} towards {b:?} is {n:?} instead of {w}");
            }
        }
    }};
}
macro_rules! helpers_cx {
    ($c:ident, $t:ty, $f:ty) => {{
        for _ in 0..12 {
            let (a, b) = (<$t as N>::make(&mut $c.rng), <$t as N>::make(&mut $c.rng));
            $c.d(format!("{a:?} {b:?}"));
            let n: $f = a.re.hypot(a.im);
            let eps = 8.0 * <$f>::EPSILON as f64;
            ensure!(fclose(a.ext_abs() as f64, n as f64, eps), "abs of {a:?} is {}", a.ext_abs());
            let d = a - b;
            let dn: $f = d.re.hypot(d.im);
            ensure!(fclose(a.ext_abs_diff(b) as f64, dn as f64, eps), "|{a:?} - {b:?}|");
            ensure!(feq(a.ext_real() as f64, a.re as f64) && feq(a.ext_imag() as f64, a.im as f64), "parts of {a:?}");
            let z = a.ext_conj();
            ensure!(feq(z.re as f64, a.re as f64) && feq(z.im as f64, -a.im as f64), "conjugate of {a:?} is {z:?}");
            ensure!(ExtNum::is_nan(&a) == (a.re.is_nan() || a.im.is_nan()), "is_nan of {a:?}");
            let s = a.ext_sign();
            if a.re == 0.0 && a.im == 0.0 {
                ensure!(s.re == 0.0 && s.im == 0.0, "sign of {a:?} is {s:?}");
            } else if n.is_finite() && n > 1e-30 && n < 1e30 {
                ensure!(fclose(s.re as f64, (a.re / n) as f64, eps) && fclose(s.im as f64, (a.im / n) as f64, eps), "sign of {a:?} is {s:?}");
            }
            let f = a.into_float();
            ensure!(feq(f.re as f64, a.re as f64) && feq(f.im as f64, a.im as f64), "float of {a:?}");
        }
    }};
}
fn fclose(a: f64, b: f64, eps: f64) -> bool {
    feq(a, b) || (a - b).abs() <= eps * b.abs() + 1e-44
}
fn next64(a: f64, up: bool) -> f64 {
    if up { a.next_up() } else { a.next_down() }
}
fn next32(a: f32, up: bool) -> f32 {
    if up { a.next_up() } else { a.next_down() }
}
/// Bit patterns of 16 bits, ordered as numbers.
fn next16(bits: u16, up: bool) -> u16 {
    let k = if bits & 0x8000 != 0 { -((bits & 0x7fff) as i32) } else { bits as i32 };
    let k = if up { k + 1 } else { k - 1 };
    if k < 0 { 0x8000 | (-k) as u16 } else { k as u16 }
}
fn helper_case(c: &mut Case) -> R {
    c.eval();
    c.nontrivial();
    match c.rng.below(16) {
        0 => helpers_int!(c, u8),
        1 => helpers_int!(c, u16),
        2 => helpers_int!(c, u32),
        3 => helpers_int!(c, u64),
        4 => helpers_int!(c, usize),
        5 => helpers_int!(c, i8),
        6 => helpers_int!(c, i16),
        7 => helpers_int!(c, i32),
        8 => helpers_int!(c, i64),
        9 => helpers_int!(c, isize),
        10 => helpers_float!(c, f32, 0.0, 1.0, |x: f32| x as f64, next32),
        11 => helpers_float!(c, f64, 0.0, 1.0, |x: f64| x, next64),
        12 => helpers_float!(c, f16, f16::ZERO, f16::ONE, |x: f16| x.to_f64(), |a: f16, up| f16::from_bits(next16(a.to_bits(), up))),
        13 => helpers_float!(c, bf16, bf16::ZERO, bf16::ONE, |x: bf16| x.to_f64(), |a: bf16, up| bf16::from_bits(next16(a.to_bits(), up))),
        14 => helpers_cx!(c, C32, f32),
        _ => helpers_cx!(c, C64, f64),
    }
    Ok(())
}

devices!("c20.rs");

fn main() {
    main_check(Check {
        prop: "C20",
        level: "exploration",
        rule: "a case is a pair of types with 12 to 16 value pairs, or an array operation over two types; distinct by types and values",
        assumptions: &[
            "the documented rule of promotion is the one of NumPy",
            "casts of values that the target cannot hold may give anything; fractions are truncated by casts to integers",
            "closeness of infinite values is not judged (the documented inequality is for finite ones)",
        ],
        families: vec![
            fam("promote", promote_case, 12000, 800000),
            fam("cast", cast_case, 12000, 800000),
            fam("close", close_case, 12000, 800000),
            fam("helpers", helper_case, 12000, 800000),
            fam("array_serial", ser::array_case, 8000, 400000),
            fam("array_pool", par::array_case, 8000, 300000),
        ],
        workers: 8,
    })
}
