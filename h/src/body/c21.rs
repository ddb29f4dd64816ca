/// Points, their model and layout.
struct Pts<T> {
    raw: Vec<T>,
    sp: Spec,
    m: Nd<T>,
}
fn pts<T: P>(r: &mut Rng, shape: &[usize], kind: u8) -> Pts<T> {
    let bc = r.chance(1, 6);
    let sp = if r.chance(1, 3) { contig_spec(shape, r.bool()) } else { gen_layout(r, shape, bc) };
    let raw: Vec<T> = (0..sp.len).map(|_| T::put(r, kind)).collect();
    let m = observe(&raw, shape, &sp.stride, sp.offset).unwrap();
    Pts { raw, sp, m }
}
fn row<T: P>(m: &Nd<T>, i: usize) -> Vec<C64> {
    (0..m.shape[1]).map(|j| m.at(&[i, j]).c()).collect()
}

fn judge<OT: O>(c: &mut Case, what: &str, m: M, got: &Nd<OT>, a: &[Vec<C64>], b: &[Vec<C64>], w: Option<&[f64]>, eps: f64) -> R {
    ensure!(got.shape == [a.len(), b.len()], "{what}: shape {:?} instead of [{}, {}]", got.shape, a.len(), b.len());
    for i in 0..a.len() {
        for j in 0..b.len() {
            let g = got.at(&[i, j]).f();
            match define(m, &a[i], &b[j], w) {
                Some((x, err)) => {
                    ensure!(near(m, g, x, err, eps), "{what}: {m:?} at ({i}, {j}) is {g} instead of {x}; rows {:?} and {:?} weights {w:?}", a[i], b[j]);
                    c.hit("entry");
                },
                None => c.hit("entry without value"),
            }
        }
    }
    Ok(())
}
macro_rules! with {
    ($c:ident, $T:ty, $O:ty, $mk:expr, $m:expr, $kind:expr, $weighted:tt) => {{
        let m: M = $m;
        let r = &mut $c.rng;
        let colm = r.bool();
        let d = dev(r, colm);
        let s = sets(r);
        let (xa, xb) = (pts::<$T>(r, &[s.m, s.k], $kind), pts::<$T>(r, &[s.n, s.k], $kind));
        let (ka, kb) = (xa.raw.iter().map(|x| x.c()).collect::<Vec<_>>(), xb.raw.iter().map(|x| x.c()).collect::<Vec<_>>());
        $c.d(format!("{m:?} {} colm {colm} {} {}", stringify!($T), xa.sp, xb.sp));
        $c.eval();
        if s.m * s.n * s.k > 1 { $c.nontrivial(); }
        let a: Vec<_> = (0..s.m).map(|i| row(&xa.m, i)).collect();
        let b: Vec<_> = (0..s.n).map(|i| row(&xb.m, i)).collect();
        let (ta, tb) = (rt::asarray((&xa.raw, lay(&xa.sp), d)), rt::asarray((&xb.raw, lay(&xb.sp), d)));
        let form = $c.rng.below(4);
        with!(@$weighted $c, $T, $O, $mk, m, s, d, a, b, ta, tb, form);
        let (na, nb) = (xa.raw.iter().map(|x| x.c()).collect::<Vec<_>>(), xb.raw.iter().map(|x| x.c()).collect::<Vec<_>>());
        ensure!(na == ka && nb == kb, "the points changed");
        Ok(())
    }};
    (@plain $c:ident, $T:ty, $O:ty, $mk:expr, $m:ident, $s:ident, $d:ident, $a:ident, $b:ident, $ta:ident, $tb:ident, $form:ident) => {{
        let got: Nd<$O> = match $form {
            0 => obs!(no_panic(|| cdist(($ta.view(), $tb.view(), $mk)))?)?,
            1 => obs!(no_panic(|| cdist_f(($ta.to_dim::<Ix2>(), $tb.to_dim::<Ix2>(), $mk)))?.map_err(|e| format!("{e:?}"))?)?,
            _ => obs!(no_panic(|| cdist_f(($ta.view(), $tb.view(), $mk)))?.map_err(|e| format!("{e:?}"))?)?,
        };
        judge($c, "distance", $m, &got, &$a, &$b, None, <$T as P>::EPS)?;
    }};
    (@both $c:ident, $T:ty, $O:ty, $mk:expr, $m:ident, $s:ident, $d:ident, $a:ident, $b:ident, $ta:ident, $tb:ident, $form:ident) => {{
        if $form < 2 {
            with!(@plain $c, $T, $O, $mk, $m, $s, $d, $a, $b, $ta, $tb, $form)
        } else {
            let r = &mut $c.rng;
            let sp = if r.chance(1, 3) { contig_spec(&[$s.k], true) } else { let bc = r.chance(1, 6); gen_layout(r, &[$s.k], bc) };
            let raw: Vec<$O> = (0..sp.len).map(|_| <$O as O>::of(*r.pick(&[0.0, 0.25, 0.5, 1.0, 1.0, 2.0, 3.0]))).collect();
            let w: Vec<f64> = observe(&raw, &[$s.k], &sp.stride, sp.offset).unwrap().data.iter().map(|x: &$O| x.f()).collect();
            let tw = rt::asarray((&raw, lay(&sp), $d));
            $c.d(format!("weights {sp}"));
            let got: Nd<$O> = match $form {
                2 => obs!(no_panic(|| cdist_f(($ta.view(), $tb.view(), $mk, tw.to_dim::<Ix1>())))?.map_err(|e| format!("{e:?}"))?)?,
                _ => obs!(no_panic(|| cdist_f(($ta.to_dim::<Ix2>(), $tb.to_dim::<Ix2>(), $mk, tw.view())))?.map_err(|e| format!("{e:?}"))?)?,
            };
            judge($c, "weighted distance", $m, &got, &$a, &$b, Some(&w), <$T as P>::EPS)?;
            $c.hit("weighted");
        }
    }};
}
pub fn dist_case(c: &mut Case) -> R {
    macro_rules! real {
        ($mk:expr, $m:expr, $kind:expr, $w:tt) => {
            if c.rng.chance(1, 3) { with!(c, f32, f32, $mk, $m, $kind, $w) } else { with!(c, f64, f64, $mk, $m, $kind, $w) }
        };
    }
    macro_rules! any {
        ($mk:expr, $m:expr, $kind:expr) => {
            match c.rng.below(5) {
                0 => with!(c, f32, f32, $mk, $m, $kind, both),
                1 => with!(c, C64, f64, $mk, $m, $kind, both),
                2 => with!(c, C32, f32, $mk, $m, $kind, both),
                _ => with!(c, f64, f64, $mk, $m, $kind, both),
            }
        };
    }
    let kind = c.rng.below(3) as u8;
    match c.rng.below(18) {
        0 => real!(MetricEuclidean, M::Euclidean, kind, both),
        1 => real!(MetricSqEuclidean, M::SqEuclidean, kind, both),
        2 => any!(MetricCityBlock, M::CityBlock, kind),
        3 => any!(MetricChebyshev, M::Chebyshev, kind),
        4 => any!(MetricCanberra, M::Canberra, kind),
        5 => any!(MetricBrayCurtis, M::BrayCurtis, kind),
        6 => {
            let p = *c.rng.pick(&[1.0, 1.5, 2.0, 3.0, 4.0, 0.5]);
            match c.rng.below(4) {
                0 => with!(c, f32, f32, MetricMinkowski::<f32>::new(p as f32), M::Minkowski(p), kind, both),
                1 => with!(c, C64, f64, MetricMinkowski::<C64>::new(p), M::Minkowski(p), kind, both),
                2 => with!(c, f64, f64, MetricMinkowski::<f64>::default(), M::Minkowski(2.0), kind, both),
                _ => with!(c, f64, f64, MetricMinkowski::<f64>::new(p), M::Minkowski(p), kind, both),
            }
        },
        7 => real!(MetricCosine::new(), M::Cosine, kind, both),
        8 => real!(MetricCorrelation::new(), M::Correlation, kind, both),
        9 => real!(MetricJensenShannon::new(), M::JensenShannon, kind % 2 + 3, plain),
        10 => match c.rng.below(4) {
            0 => with!(c, i32, f64, MetricHamming, M::Hamming, kind, both),
            1 => with!(c, u8, f64, MetricHamming, M::Hamming, kind, both),
            2 => with!(c, bool, f64, MetricHamming, M::Hamming, kind, both),
            _ => with!(c, f64, f64, MetricHamming, M::Hamming, 0, both),
        },
        11 => with!(c, bool, f64, MetricJaccard, M::Jaccard, kind, both),
        12 => with!(c, bool, f64, MetricYule, M::Yule, kind, both),
        13 => with!(c, bool, f64, MetricDice, M::Dice, kind, both),
        14 => with!(c, bool, f64, MetricRogersTanimoto, M::RogersTanimoto, kind, both),
        15 => with!(c, bool, f64, MetricRussellRao, M::RussellRao, kind, both),
        16 => with!(c, bool, f64, MetricSokalSneath, M::SokalSneath, kind, both),
        _ => default_metric(c),
    }
}
/// Without a metric the distance is Euclidean.
fn default_metric(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let s = sets(r);
    let (xa, xb) = (pts::<f64>(r, &[s.m, s.k], 1), pts::<f64>(r, &[s.n, s.k], 1));
    c.d(format!("no metric colm {colm} {} {}", xa.sp, xb.sp));
    c.eval();
    let (ta, tb) = (rt::asarray((&xa.raw, lay(&xa.sp), d)), rt::asarray((&xb.raw, lay(&xb.sp), d)));
    let got = obs!(no_panic(|| cdist((ta.view(), tb.view())))?)?;
    let a: Vec<_> = (0..s.m).map(|i| row(&xa.m, i)).collect();
    let b: Vec<_> = (0..s.n).map(|i| row(&xb.m, i)).collect();
    judge(c, "default distance", M::Euclidean, &got, &a, &b, None, f64::EPSILON)
}

/// A metric of the user: sees every pair of rows exactly once, with their positions.
struct Probe {
    ready: bool,
    calls: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    weighted: bool,
}
fn seen(uv: (&Vec<f64>, &Vec<f64>), offsets: (usize, usize), strides: (isize, isize), size: usize) -> f64 {
    (0..size as isize)
        .map(|i| {
            let (x, y) = (uv.0[(offsets.0 as isize + i * strides.0) as usize], uv.1[(offsets.1 as isize + i * strides.1) as usize]);
            (i + 1) as f64 * x - y
        })
        .sum()
}
impl MetricDistAPI<Vec<f64>> for Probe {
    type Out = f64;
    fn distance<const STRIDED: bool>(&self, uv: (&Vec<f64>, &Vec<f64>), offsets: (usize, usize), indices: (usize, usize), strides: (isize, isize), size: usize) -> f64 {
        self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        assert!(self.ready && !self.weighted, "used before it was initialized");
        assert!(STRIDED || size <= 1 || strides == (1, 1), "strides {strides:?} called contiguous");
        1e6 * indices.0 as f64 + 1e3 * indices.1 as f64 + seen(uv, offsets, strides, size)
    }
    fn initialize(&mut self, _: &Vec<f64>, _: &Layout<Ix2>, _: &Vec<f64>, _: &Layout<Ix2>) -> rt::Result<()> {
        self.ready = true;
        Ok(())
    }
}
impl MetricDistWeightedAPI<Vec<f64>> for Probe {
    type Weight = Vec<f64>;
    fn weighted_distance<const STRIDED: bool>(&self, uv: (&Vec<f64>, &Vec<f64>), offsets: (usize, usize), indices: (usize, usize), strides: (isize, isize), size: usize, w: &Vec<f64>, sum: f64) -> f64 {
        self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        assert!(self.ready && self.weighted, "used before it was initialized");
        assert!(STRIDED || size <= 1 || strides == (1, 1), "strides {strides:?} called contiguous");
        assert!(w.len() == size && w.iter().sum::<f64>() == sum, "{} weights with sum {sum}", w.len());
        1e6 * indices.0 as f64 + 1e3 * indices.1 as f64 + seen(uv, offsets, strides, size) + w.iter().enumerate().map(|(i, w)| (i + 1) as f64 * w).sum::<f64>()
    }
    fn weighted_initialize(&mut self, _: &Vec<f64>, _: &Layout<Ix2>, _: &Vec<f64>, _: &Layout<Ix2>, _: &Vec<f64>) -> rt::Result<()> {
        self.ready = true;
        Ok(())
    }
}
pub fn user_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let s = sets(r);
    let mk = |r: &mut Rng, sh: &[usize]| {
        let bc = r.chance(1, 6);
        let sp = if r.chance(1, 3) { contig_spec(sh, true) } else { gen_layout(r, sh, bc) };
        let raw: Vec<f64> = (0..sp.len).map(|_| r.range(-8, 8) as f64).collect();
        (raw, sp)
    };
    let ((ra, sa), (rb, sb)) = (mk(r, &[s.m, s.k]), mk(r, &[s.n, s.k]));
    let weighted = r.bool();
    let (rw, sw) = mk(r, &[s.k]);
    c.d(format!("user weighted {weighted} colm {colm} {sa} {sb} {sw}"));
    c.eval();
    if s.m * s.n * s.k > 1 {
        c.nontrivial();
    }
    let calls = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let p = Probe { ready: false, calls: calls.clone(), weighted };
    let (ta, tb) = (rt::asarray((&ra, lay(&sa), d)), rt::asarray((&rb, lay(&sb), d)));
    let tw = rt::asarray((&rw, lay(&sw), d));
    let got = match weighted {
        false => obs!(no_panic(|| cdist((ta.view(), tb.view(), p)))?)?,
        true => obs!(no_panic(|| cdist((ta.view(), tb.view(), p, tw.view())))?)?,
    };
    let (ma, mb) = (observe(&ra, &[s.m, s.k], &sa.stride, sa.offset).unwrap(), observe(&rb, &[s.n, s.k], &sb.stride, sb.offset).unwrap());
    let mw = observe(&rw, &[s.k], &sw.stride, sw.offset).unwrap();
    let extra: f64 = if weighted { mw.data.iter().enumerate().map(|(i, w)| (i + 1) as f64 * w).sum() } else { 0.0 };
    let want = Nd::from_fn(&[s.m, s.n], |i| {
        let t: f64 = (0..s.k).map(|q| (q + 1) as f64 * ma.at(&[i[0], q]) - mb.at(&[i[1], q])).sum();
        1e6 * i[0] as f64 + 1e3 * i[1] as f64 + t + extra
    });
    same("distances of the user", &Ok(got), &want)?;
    let n = calls.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(n == s.m * s.n, "{n} calls for {} pairs", s.m * s.n);
    Ok(())
}

/// A metric whose results own memory, and which may panic at one pair.
struct Names {
    book: std::sync::Arc<Book>,
    bad: Option<(usize, usize)>,
}
impl MetricDistAPI<Vec<i32>> for Names {
    type Out = Tracked;
    fn distance<const STRIDED: bool>(&self, uv: (&Vec<i32>, &Vec<i32>), offsets: (usize, usize), indices: (usize, usize), _: (isize, isize), _: usize) -> Tracked {
        if self.bad == Some(indices) {
            std::panic::panic_any("bad pair");
        }
        Tracked::new(&self.book, format!("{}:{}", uv.0[offsets.0], uv.1[offsets.1]))
    }
}
pub fn owned_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let (m, n, k) = (r.below(90), r.below(20), 1 + r.below(3));
    let bad = (r.bool() && m * n > 0).then(|| (r.below(m), r.below(n)));
    let (sa, sb) = (gen_layout(r, &[m, k], false), gen_layout(r, &[n, k], false));
    let (ra, rb): (Vec<i32>, Vec<i32>) = ((0..sa.len as i32).collect(), (0..sb.len as i32).collect());
    c.d(format!("owned results colm {colm} bad {bad:?} {sa} {sb}"));
    c.eval();
    if m * n > 1 {
        c.nontrivial();
    }
    let book = std::sync::Arc::new(Book::default());
    let before = BAD.load(Relaxed);
    let (ta, tb) = (rt::asarray((&ra, lay(&sa), d)), rt::asarray((&rb, lay(&sb), d)));
    let got = no_panic(|| cdist((ta.view(), tb.view(), Names { book: book.clone(), bad })));
    match bad {
        None => {
            let got = got?;
            let (ma, mb) = (observe(&ra, &[m, k], &sa.stride, sa.offset).unwrap(), observe(&rb, &[n, k], &sb.stride, sb.offset).unwrap());
            ensure!(got.shape().to_vec() == [m, n], "shape {:?}", got.shape());
            for i in 0..m {
                for j in 0..n {
                    let w = format!("{}:{}", ma.at(&[i, 0]), mb.at(&[j, 0]));
                    ensure!(got[[i, j]].text() == w, "entry ({i}, {j}) is {} instead of {w}", got[[i, j]].text());
                }
            }
            drop(got);
            let (born, dead) = (book.born.load(Relaxed), book.dead.load(Relaxed));
            ensure!(born >= m * n && dead == born, "{born} results made, {dead} dropped");
        },
        Some(_) => {
            ensure!(got.is_err(), "no panic");
            c.hit("panic of the metric");
            let (born, dead) = (book.born.load(Relaxed), book.dead.load(Relaxed));
            ensure!(dead <= born, "{born} results made, {dead} dropped");
        },
    }
    ensure!(BAD.load(Relaxed) == before, "results were dropped that never were made");
    Ok(())
}

/// Sets of different dimension, weights of a different length, arrays of other ranks.
pub fn wrong_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let (m, n, k) = (1 + r.below(5), 1 + r.below(5), r.below(6));
    let form = r.below(4);
    let q = loop {
        let q = r.below(8);
        if q != k {
            break q;
        }
    };
    let strided = r.bool();
    let which = r.below(5);
    c.d(format!("wrong {form} colm {colm} m {m} n {n} k {k} other {q} strided {strided} metric {which}"));
    c.eval();
    c.nontrivial();
    let sp = |sh: &[usize]| contig_spec(sh, !strided);
    let (sa, sb) = (sp(&[m, k]), sp(&[n, if form == 0 { q } else { k }]));
    let (ra, rb) = (vec![1.5; sa.len], vec![2.5; sb.len]);
    let (ta, tb) = (rt::asarray((&ra, lay(&sa), d)), rt::asarray((&rb, lay(&sb), d)));
    let lw = if form == 0 { k } else { q };
    let rw = vec![1.0f64; lw.max(1) * 2];
    let tw = rt::asarray((&rw, lay(&sp(&[lw])), d));
    macro_rules! each {
        ($f:ident) => {
            match which {
                0 => $f!(MetricEuclidean),
                1 => $f!(MetricCosine::new()),
                2 => $f!(MetricCorrelation::new()),
                3 => $f!(MetricHamming),
                _ => $f!(MetricCityBlock),
            }
        };
    }
    macro_rules! two { ($m:expr) => { cdist_f((ta.view(), tb.view(), $m)).is_err() } }
    macro_rules! three { ($m:expr) => { cdist_f((ta.view(), tb.view(), $m, tw.view())).is_err() } }
    match form {
        0 if c.rng.bool() => ensure!(no_panic(|| each!(two))?, "distances of points with {k} and {q} coordinates"),
        0 => ensure!(no_panic(|| each!(three))?, "weighted distances of points with {k} and {q} coordinates"),
        1 => ensure!(no_panic(|| each!(three))?, "{q} weights for {k} coordinates"),
        2 => {
            let rank = *c.rng.pick(&[0usize, 1, 3]);
            let sh = vec![2usize; rank];
            let s = contig_spec(&sh, true);
            let raw = vec![1.0; s.len];
            let t = rt::asarray((&raw, lay(&s), d));
            ensure!(no_panic(|| cdist_f((t.view(), t.view(), MetricEuclidean)).is_err())?, "distances of arrays with {rank} axes");
            ensure!(no_panic(|| cdist_f((ta.view(), t.view())).is_err())?, "distances to an array with {rank} axes");
        },
        _ => {
            let s = contig_spec(&[k, 1], true);
            let raw = vec![1.0; s.len];
            let t = rt::asarray((&raw, lay(&s), d));
            ensure!(no_panic(|| cdist_f((ta.view(), tb.view(), MetricEuclidean, t.view())).is_err())?, "weights with two axes");
        },
    }
    Ok(())
}

pub fn rule_case(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let colm = r.bool();
    let d = dev(r, colm);
    let (n, k) = ORDERS[if r.chance(1, 3) { r.below(32) } else { r.below(20) }];
    let from_degree = r.bool();
    c.d(format!("rule of order {n} from degree {from_degree} colm {colm}"));
    c.eval();
    c.nontrivial();
    let q = no_panic(|| if from_degree { lebedev_rule_from_degree(k, d) } else { lebedev_rule(n, d) })?;
    let (x, w): (rt::Tensor<f64, B, IxD>, _) = q.into();
    let (x, w) = (obs!(x)?, obs!(w)?);
    ensure!(x.shape == [k, 3] && w.shape == [k], "shapes {:?} {:?}", x.shape, w.shape);
    let p: Vec<[f64; 3]> = (0..k).map(|i| [*x.at(&[i, 0]), *x.at(&[i, 1]), *x.at(&[i, 2])]).collect();
    for (i, p) in p.iter().enumerate() {
        ensure!((p[0] * p[0] + p[1] * p[1] + p[2] * p[2] - 1.0).abs() < 1e-12, "point {i} off the sphere: {p:?}");
    }
    let total: f64 = w.data.iter().sum();
    ensure!((total - 1.0).abs() < 1e-12, "weights sum to {total}");
    // zonal harmonics about any direction are orthogonal to constants
    let v: [f64; 3] = loop {
        let v = [r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)];
        let s = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        if s > 0.1 {
            break [v[0] / s, v[1] / s, v[2] / s];
        }
    };
    let mut sums = vec![0.0; n + 1];
    for (p, &w) in p.iter().zip(&w.data) {
        let t = p[0] * v[0] + p[1] * v[1] + p[2] * v[2];
        let (mut a, mut b) = (1.0, t);
        for l in 1..=n {
            sums[l] += w * b;
            let next = ((2 * l + 1) as f64 * t * b - l as f64 * a) / (l + 1) as f64;
            (a, b) = (b, next);
        }
    }
    for l in 1..=n {
        ensure!(sums[l].abs() < 2e-11, "harmonic of degree {l} about {v:?} integrates to {:e}", sums[l]);
        c.hit("harmonic");
    }
    // and monomials have their known integrals
    for _ in 0..20 {
        let (i, j) = (r.below(n + 1), r.below(n + 1));
        if i + j > n {
            continue;
        }
        let l = r.below(n - i - j + 1);
        let s: f64 = p.iter().zip(&w.data).map(|(p, w)| w * p[0].powi(i as i32) * p[1].powi(j as i32) * p[2].powi(l as i32)).sum();
        let want = monomial(i, j, l);
        ensure!((s - want).abs() < 2e-11 * (1.0 + want), "x^{i} y^{j} z^{l} integrates to {s} instead of {want}");
        c.hit("monomial");
    }
    Ok(())
}
