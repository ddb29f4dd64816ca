type Pair = (Vec<usize>, Vec<isize>);

/// Allocates the operands of a problem; A times its own transpose shares one buffer.
fn specs(r: &mut Rng, p: &Prob, colm: bool, selft: bool) -> (Spec, Spec) {
    let (ba, bb) = (r.chance(1, 10), r.chance(1, 10));
    let sa = gen_layout(r, &p.sa, ba);
    if selft {
        let n = sa.shape.len();
        let (x, y) = if colm { (0, 1) } else { (n - 2, n - 1) };
        let mut sb = sa.clone();
        sb.shape.swap(x, y);
        sb.stride.swap(x, y);
        return (sa, sb);
    }
    (sa, gen_layout(r, &p.sb, bb))
}

macro_rules! one_prod {
    ($c:ident, $a:ty, $b:ty, $t:ty, $selfok:tt) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let selft = $selfok && $c.rng.chance(1, 5);
        let p = gen_prob(&mut $c.rng, colm, selft);
        let (sa, sb) = specs(&mut $c.rng, &p, colm, selft);
        let exact = <$t as E>::eps() == 0.0 || $c.rng.chance(2, 3);
        let ra: Vec<$a> = (0..sa.len).map(|_| if exact { <$a as E>::int(&mut $c.rng) } else { <$a as E>::real(&mut $c.rng) }).collect();
        let rb: Vec<$b> = (0..sb.len).map(|_| if exact { <$b as E>::int(&mut $c.rng) } else { <$b as E>::real(&mut $c.rng) }).collect();
        let form = $c.rng.below(5);
        $c.d(format!("{} {} {} % {} {} exact {} form {}", stringify!($t), if colm { "F" } else { "C" }, sa, sb, if selft { "same buffer" } else { "" }, exact, form));
        $c.hit(format!("{} rank {}x{}", stringify!($t), p.sa.len(), p.sb.len()));
        if selft { $c.hit("times its own transpose"); }
        if p.bc.iter().product::<usize>() > 32 { $c.hit("large batch"); }
        let ma = observe(&ra, &sa.shape, &sa.stride, sa.offset)?;
        one_prod!(@go $c, $a, $b, $t, $selfok, selft, p, sa, sb, ra, rb, ma, dev, colm, exact, form)
    }};
    (@go $c:ident, $a:ty, $b:ty, $t:ty, true, $selft:ident, $p:ident, $sa:ident, $sb:ident, $ra:ident, $rb:ident, $ma:ident, $dev:ident, $colm:ident, $exact:ident, $form:ident) => {{
        let mb = if $selft { observe(&$ra, &$sb.shape, &$sb.stride, $sb.offset)? } else { observe(&$rb, &$sb.shape, &$sb.stride, $sb.offset)? };
        let (want, mag) = product(&$p, &$ma, &mb, $colm, |x: $a, y: $b| x * y);
        if want.size() > 0 && $p.k > 1 { $c.nontrivial(); }
        $c.eval();
        let ta = rt::asarray((&$ra, lay(&$sa), $dev));
        let tb = rt::asarray((if $selft { &$ra } else { &$rb }, lay(&$sb), $dev));
        let got = match $form {
            0 => obs!(&ta % &tb),
            1 => obs!(ta.matmul(&tb)),
            2 => obs!(rt::matmul_f(&ta, &tb).map_err(|e| format!("matmul: {e:?}"))?),
            3 => obs!(ta.view() % tb.view()),
            _ => obs!(rt::matmul(ta.to_owned(), tb)),
        };
        judge("product", &got, &want, &mag, $p.k, $exact)
    }};
    (@go $c:ident, $a:ty, $b:ty, $t:ty, false, $selft:ident, $p:ident, $sa:ident, $sb:ident, $ra:ident, $rb:ident, $ma:ident, $dev:ident, $colm:ident, $exact:ident, $form:ident) => {{
        let mb = observe(&$rb, &$sb.shape, &$sb.stride, $sb.offset)?;
        let (want, mag) = product(&$p, &$ma, &mb, $colm, |x: $a, y: $b| x * y);
        if want.size() > 0 && $p.k > 1 { $c.nontrivial(); }
        $c.eval();
        let ta = rt::asarray((&$ra, lay(&$sa), $dev));
        let tb = rt::asarray((&$rb, lay(&$sb), $dev));
        let got = obs!(&ta % &tb);
        judge("product", &got, &want, &mag, $p.k, $exact)
    }};
}

pub fn prod(c: &mut Case) -> R {
    match c.rng.below(9) {
        0 => one_prod!(c, i32, i32, i32, true),
        1 => one_prod!(c, usize, usize, usize, true),
        2..=3 => one_prod!(c, f32, f32, f32, true),
        4..=5 => one_prod!(c, f64, f64, f64, true),
        6 => one_prod!(c, C32, C32, C32, true),
        7 => one_prod!(c, C64, C64, C64, true),
        _ => one_prod!(c, f64, C64, C64, false),
    }
}

macro_rules! one_out {
    ($c:ident, $t:ty) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let selft = $c.rng.chance(1, 6);
        let p = gen_prob(&mut $c.rng, colm, selft);
        let (sa, sb) = specs(&mut $c.rng, &p, colm, selft);
        let sc = gen_layout(&mut $c.rng, &p.sc, false);
        let ra: Vec<$t> = (0..sa.len).map(|_| <$t as E>::int(&mut $c.rng)).collect();
        let rb: Vec<$t> = (0..sb.len).map(|_| <$t as E>::int(&mut $c.rng)).collect();
        let form = $c.rng.below(6);
        let (alpha, beta) = if form >= 4 { (<$t as E>::label(1), <$t as E>::zero()) } else { (<$t as E>::factor(&mut $c.rng), <$t as E>::factor(&mut $c.rng)) };
        $c.d(format!("{} {} {} = {:?} {} % {} {} + {:?} form {}", stringify!($t), if colm { "F" } else { "C" }, sc, alpha, sa, sb, if selft { "same buffer" } else { "" }, beta, form));
        $c.hit(format!("{} output beta {:?}", stringify!($t), beta));
        let ma = observe(&ra, &sa.shape, &sa.stride, sa.offset)?;
        let mb = observe(if selft { &ra } else { &rb }, &sb.shape, &sb.stride, sb.offset)?;
        let pos = positions(sc.len, &sc.shape, &sc.stride, sc.offset)?;
        let mut buf: Vec<$t> = (0..sc.len).map(<$t as E>::label).collect();
        if beta == <$t as E>::zero() && $c.rng.bool() {
            // former contents must be ignored
            for &q in &pos {
                buf[q] = <$t as E>::poison();
            }
        }
        let (pr, _) = product(&p, &ma, &mb, colm, |x: $t, y: $t| x * y);
        let mut want = buf.clone();
        for (i, &q) in pos.iter().enumerate() {
            want[q] = if beta == <$t as E>::zero() { alpha * pr.data[i] } else { alpha * pr.data[i] + beta * buf[q] };
        }
        if !pos.is_empty() && p.k > 1 { $c.nontrivial(); }
        $c.eval();
        let ta = rt::asarray((&ra, lay(&sa), dev));
        let tb = rt::asarray((if selft { &ra } else { &rb }, lay(&sb), dev));
        let mut got = buf.clone();
        match form {
            0 => {
                let mut t = rt::asarray((&mut got, lay(&sc), dev));
                rt::matmul_from(&mut t, &ta, &tb, alpha, beta);
            },
            1 => {
                let t = rt::asarray((&mut got, lay(&sc), dev));
                rt::matmul_from_f(t, &ta, tb.view(), alpha, beta).map_err(|e| format!("matmul_from: {e:?}"))?;
            },
            2 => {
                let mut t = rt::asarray((buf.clone(), lay(&sc), dev));
                t.matmul_from(&ta, &tb, alpha, beta);
                got = t.raw().clone();
            },
            3 => {
                let mut t = rt::asarray((buf.clone(), lay(&sc), dev));
                rt::matmul_from(t.view_mut(), ta.view(), &tb, alpha, beta);
                got = t.raw().clone();
            },
            4 => {
                let t = rt::asarray((&mut got, lay(&sc), dev));
                rt::matmul_with_output(&ta, &tb, t);
            },
            _ => {
                let mut t = rt::asarray((&mut got, lay(&sc), dev));
                ta.matmul_with_output(&tb, &mut t);
            },
        }
        for q in 0..got.len() {
            // every value is an integer or half-integer of moderate size: exact
            if got[q] != want[q] && !(got[q] != got[q] && want[q] != want[q]) {
                let w = if pos.contains(&q) { "an output element" } else { "memory outside the output" };
                bail!("buffer position {q} ({w}) holds {:?}, wanted {:?} (before: {:?})", got[q], want[q], buf[q]);
            }
        }
        Ok(())
    }};
}

pub fn output(c: &mut Case) -> R {
    match c.rng.below(7) {
        0 => one_out!(c, i64),
        1 => one_out!(c, u64),
        2 => one_out!(c, f32),
        3..=4 => one_out!(c, f64),
        5 => one_out!(c, C64),
        _ => one_out!(c, C32),
    }
}

macro_rules! one_vdot {
    ($c:ident, $t:ty) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        // contracted extents and remaining shapes
        let large = $c.rng.chance(1, 40);
        let ns = if $c.rng.chance(2, 3) { 1 } else { $c.rng.usize(1, 3) };
        let cs: Vec<usize> = (0..ns).map(|_| if large { $c.rng.usize(3, 40) } else { gen_dim_tiny(&mut $c.rng) }).collect();
        let cl = if $c.rng.chance(1, 30) { Cls::Mid } else { Cls::Tiny };
        let rest = gen_shape(&mut $c.rng, 0, 3, cl);
        let rest: Vec<usize> = if cs.iter().product::<usize>() * rest.iter().product::<usize>() > 20000 { vec![2; rest.len()] } else { rest };
        let (xa, xb) = gen_bcast_pair(&mut $c.rng, &rest, colm);
        let shc = bcast_shape_ord(&xa, &xb, colm).unwrap();
        let (mut sha, mut shb) = (xa.clone(), xb.clone());
        // positions of the contracted axes in the full shapes
        let (mut pa, mut pb): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
        let ax;
        if ns == 1 && $c.rng.bool() {
            let mn = sha.len().min(shb.len());
            let at = $c.rng.below(mn + 1);
            let neg = $c.rng.bool();
            let (ia, ib) = if neg { (sha.len() - at, shb.len() - at) } else { (at, at) };
            sha.insert(ia, cs[0]);
            shb.insert(ib, cs[0]);
            pa.push(ia);
            pb.push(ib);
            ax = if neg && at == 0 && $c.rng.bool() { Dx::Null } else if neg { Dx::Val(-(at as isize) - 1) } else { Dx::Val(at as isize) };
        } else {
            for k in 0..ns {
                for (sh, p) in [(&mut sha, &mut pa), (&mut shb, &mut pb)] {
                    let i = $c.rng.below(sh.len() + 1);
                    sh.insert(i, cs[k]);
                    for q in p.iter_mut() {
                        if *q >= i { *q += 1; }
                    }
                    p.push(i);
                }
            }
            ax = Dx::Pair(
                pa.iter().map(|&a| sgn(&mut $c.rng, a, sha.len())).collect(),
                pb.iter().map(|&a| sgn(&mut $c.rng, a, shb.len())).collect(),
            );
        }
        let (bca, bcb) = ($c.rng.chance(1, 8), $c.rng.chance(1, 8));
        let sa = gen_layout(&mut $c.rng, &sha, bca);
        let sb = gen_layout(&mut $c.rng, &shb, bcb);
        let ra: Vec<$t> = (0..sa.len).map(|_| <$t as E>::int(&mut $c.rng)).collect();
        let rb: Vec<$t> = (0..sb.len).map(|_| <$t as E>::int(&mut $c.rng)).collect();
        let into = $c.rng.bool();
        let sc = gen_layout(&mut $c.rng, &shc, false);
        $c.d(format!("{} {} {} . {} over {:?} into {}", stringify!($t), if colm { "F" } else { "C" }, sa, sb, ax, if into { sc.to_string() } else { "new".into() }));
        $c.hit(format!("{} vecdot {}", stringify!($t), match ax { Dx::Null => "default".into(), Dx::Val(_) => "axis".into(), Dx::Pair(..) => format!("{ns} pairs") }));
        let (ma, mb) = (observe(&ra, &sa.shape, &sa.stride, sa.offset)?, observe(&rb, &sb.shape, &sb.stride, sb.offset)?);
        let want = Nd::from_fn(&shc, |idx| {
            let (ia, ib) = (sub(idx, &xa, colm), sub(idx, &xb, colm));
            let mut s = <$t as E>::zero();
            for_idx(&cs, |ci| {
                let put = |rest: &[usize], p: &[usize], n: usize| {
                    let mut it = rest.iter();
                    (0..n).map(|d| match p.iter().position(|&q| q == d) { Some(k) => ci[k], None => *it.next().unwrap() }).collect::<Vec<_>>()
                };
                s = s + ma.at(&put(&ia, &pa, sha.len())).conj() * *mb.at(&put(&ib, &pb, shb.len()));
            });
            s
        });
        if want.size() > 0 && cs.iter().product::<usize>() > 1 { $c.nontrivial(); }
        $c.eval();
        let ta = rt::asarray((&ra, lay(&sa), dev));
        let tb = rt::asarray((&rb, lay(&sb), dev));
        if into {
            let buf: Vec<$t> = (0..sc.len).map(<$t as E>::label).collect();
            let pos = positions(sc.len, &sc.shape, &sc.stride, sc.offset)?;
            let mut wb = buf.clone();
            for (i, &q) in pos.iter().enumerate() { wb[q] = want.data[i]; }
            let mut got = buf.clone();
            let t = rt::asarray((&mut got, lay(&sc), dev));
            let r = match ax {
                Dx::Null => rt::vecdot_from_f(t, &ta, &tb, None),
                Dx::Val(a) => rt::vecdot_from_f(t, &ta, &tb, a),
                Dx::Pair(x, y) => rt::vecdot_from_f(t, &ta, &tb, (x, y)),
            };
            r.map_err(|e| format!("vecdot_from: {e:?}"))?;
            if let Some(q) = (0..got.len()).find(|&q| got[q] != wb[q]) {
                bail!("vecdot_from: buffer position {q} holds {:?}, wanted {:?} (before: {:?})", got[q], wb[q], buf[q]);
            }
            Ok(())
        } else {
            let got = match ax {
                Dx::Null => obs!(rt::vecdot(&ta, &tb, None)),
                Dx::Val(a) => obs!(ta.vecdot(&tb, a)),
                Dx::Pair(x, y) => obs!(rt::vecdot_f(&ta, &tb, (x, y)).map_err(|e| format!("vecdot: {e:?}"))?),
            };
            same("vecdot", &got, &want)
        }
    }};
}

pub fn vdot(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => one_vdot!(c, i64),
        1 => one_vdot!(c, f64),
        2 => one_vdot!(c, f32),
        _ => one_vdot!(c, C64),
    }
}
