/// Two types in array operations.
macro_rules! pairs {
    ($c:ident, $($k:literal => $a:ty, $b:ty, $kind:ident);*) => {
        match $c.rng.below([$($k),*].len()) {
            $($k => {
                macro_rules! res { () => { <$a as DTypePromoteAPI<$b>>::Res } }
                let r = &mut $c.rng;
                let colm = r.bool();
                let d = dev(r, colm);
                let cls = pick_cls(r);
                let s0 = gen_shape(r, 0, 4, cls);
                let (sha, shb) = gen_bcast_pair(r, &s0, colm);
                let (sa, sb) = (gen_layout(r, &sha, false), gen_layout(r, &shb, true));
                let ra: Vec<$a> = (0..sa.len).map(|_| <$a as N>::make(r)).collect();
                let rb: Vec<$b> = (0..sb.len).map(|_| <$b as N>::make(r)).collect();
                let ma = observe(&ra, &sha, &sa.stride, sa.offset).unwrap();
                let mb = observe(&rb, &shb, &sb.stride, sb.offset).unwrap();
                $c.d(format!("{} {} colm {colm} {sa} {sb}", stringify!($a), stringify!($b)));
                $c.eval();
                if ma.size() * mb.size() > 1 { $c.nontrivial(); }
                let t = <res!() as N>::TY;
                let _pr = |x: &$a, y: &$b| (convert(x.val(), t).unwrap(), convert(y.val(), t).unwrap());
                let form = $c.rng.below(3);
                let _va = || rt::asarray((&ra, lay(&sa), d));
                let vb = || rt::asarray((&rb, lay(&sb), d));
                pairs!(@$kind $c, $a, $b, form, colm, d, sa, sb, ra, rb, ma, mb, _va, vb, _pr, res);
            },)*
            _ => {},
        }
    };
    (@real $c:ident, $a:ty, $b:ty, $form:ident, $colm:ident, $d:ident, $sa:ident, $sb:ident, $ra:ident, $rb:ident, $ma:ident, $mb:ident, $va:ident, $vb:ident, $pr:ident, $res:ident) => {{
        let op = $c.rng.below(9);
        $c.d(format!("op {op} form {}", $form));
        let cmp = |f: fn(&Val, &Val) -> bool| move |x: &$a, y: &$b| { let (u, v) = $pr(x, y); f(&u, &v) };
        macro_rules! judge {
            ($name:ident, $f:expr) => {{
                let f = cmp($f);
                match $form {
                    0 => same(stringify!($name), &obs!(rt::$name($va(), $vb())), &zip(&$ma, &$mb, $colm, |x, y| f(x, y)))?,
                    1 if !$rb.is_empty() => {
                        let s = $rb[0];
                        same(concat!(stringify!($name), " with a scalar"), &obs!(rt::$name(&$va(), s)), &$ma.map(|x| f(x, &s)))?
                    },
                    _ => same(stringify!($name), &obs!($va().$name(&$vb())), &zip(&$ma, &$mb, $colm, |x, y| f(x, y)))?,
                }
            }};
        }
        match op {
            0 => judge!(equal, |x, y| order(x, y) == Some(std::cmp::Ordering::Equal)),
            1 => judge!(not_equal, |x, y| order(x, y) != Some(std::cmp::Ordering::Equal)),
            2 => judge!(less, |x, y| order(x, y) == Some(std::cmp::Ordering::Less)),
            3 => judge!(greater, |x, y| order(x, y) == Some(std::cmp::Ordering::Greater)),
            4 => judge!(less_equal, |x, y| matches!(order(x, y), Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal))),
            5 => judge!(greater_equal, |x, y| matches!(order(x, y), Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal))),
            6 | 7 => {
                let max = op == 6;
                let got: Nd<$res!()> = if max { obs!(rt::maximum($va(), $vb()))? } else { obs!(rt::minimum($va(), $vb()))? };
                let want = zip(&$ma, &$mb, $colm, |x, y| $pr(x, y));
                ensure!(got.shape == want.shape, "shape {:?}", got.shape);
                for (g, (x, y)) in got.data.iter().zip(&want.data) {
                    let w = pick_extreme(*x, *y, max);
                    let ok = w.iter().any(|w| match (g.val(), w) {
                        (Val::F(g), Val::F(w)) => g == *w || (g.is_nan() && w.is_nan()),
                        (g, w) => veq(g, *w),
                    });
                    ensure!(ok, "{} of {x:?} and {y:?} is {g:?}", if max { "maximum" } else { "minimum" });
                }
            },
            _ => pairs!(@assign $c, $a, $b, $form, $colm, $d, $sa, $sb, $ra, $rb, $ma, $mb, $va, $vb, $pr, $res),
        }
    }};
    // elements of the second are assigned to the first
    (@assign $c:ident, $a:ty, $b:ty, $form:ident, $colm:ident, $d:ident, $sa:ident, $sb:ident, $ra:ident, $rb:ident, $ma:ident, $mb:ident, $va:ident, $vb:ident, $pr:ident, $res:ident) => {{
        $c.d("assign");
        let shape = zip(&$ma, &$mb, $colm, |_, _| 0u8).shape;
        let sc = gen_layout(&mut $c.rng, &shape, false);
        let mut rc: Vec<$a> = (0..sc.len).map(|_| <$a as N>::make(&mut $c.rng)).collect();
        let mut now = rc.clone();
        let want = zip(&Nd::from_fn(&shape, |_| 0u8), &$mb, $colm, |_, y| *y);
        match $form {
            0 => rt::asarray((&mut rc, lay(&sc), $d)).assign($vb()),
            1 => rt::asarray((&mut rc, lay(&sc), $d)).assign(&$vb()),
            _ => {
                let mut t = rt::asarray((&mut rc, lay(&sc), $d));
                t.assign_f($vb()).map_err(|e| format!("{e:?}"))?
            },
        }
        let mut out = vec![];
        for (p, y) in positions(sc.len, &shape, &sc.stride, sc.offset).unwrap().into_iter().zip(&want.data) {
            match convert(y.val(), <$a as N>::TY) {
                Some(w) => ensure!(veq(rc[p].val(), w), "{y:?} assigned to {} is {:?}", stringify!($a), rc[p]),
                None => $c.hit("out of range"),
            }
            out.push(p);
        }
        // the rest of the memory is as before
        for p in out {
            now[p] = rc[p];
        }
        for (k, (x, y)) in now.iter().zip(&rc).enumerate() {
            ensure!(veq(x.val(), y.val()), "element {k} outside changed");
        }
        $c.hit("assigned");
    }};
}

fn order(x: &Val, y: &Val) -> Option<std::cmp::Ordering> {
    match (x, y) {
        (Val::I(x), Val::I(y)) => Some(x.cmp(y)),
        (Val::F(x), Val::F(y)) => x.partial_cmp(y),
        _ => None,
    }
}
/// The extreme of two values; a number is preferred to NaN.
fn pick_extreme(x: Val, y: Val, max: bool) -> Vec<Val> {
    match order(&x, &y) {
        None => match (nan(x), nan(y)) {
            (true, true) => vec![x],
            (true, false) => vec![y],
            _ => vec![x],
        },
        Some(std::cmp::Ordering::Equal) => vec![x, y],
        Some(o) => vec![if (o == std::cmp::Ordering::Greater) == max { x } else { y }],
    }
}

pub fn array_case(c: &mut Case) -> R {
    pairs!(c,
        0 => i8, i16, real; 1 => u8, i8, real; 2 => u16, i16, real; 3 => u32, i32, real; 4 => u64, i64, real;
        5 => i32, f32, real; 6 => f32, f64, real; 7 => u8, f32, real; 8 => usize, i64, real; 9 => isize, i64, real;
        10 => f64, u64, real; 11 => i64, i8, real; 12 => u16, f64, real; 13 => C64, f32, assign; 14 => C32, u16, assign;
        15 => C64, C32, assign; 16 => C32, C64, assign; 17 => bool, f64, assign; 18 => f32, bool, assign; 19 => f64, i8, assign;
        20 => u8, f64, assign; 21 => i16, u64, assign
    );
    Ok(())
}
