//! C23: tensor contractions handed to TBLIS denote the sum of products that their subscripts say.
//! TBLIS itself is not installed: its C entry points are defined here by a plain loop that also
//! records what it was given.
#[cfg(not(feature = "tblis"))]
fn main() {
    eprintln!("built without the feature tblis");
    std::process::exit(3);
}
#[cfg(feature = "tblis")]
mod standin {
    use num::complex::Complex;
    use std::cell::{Cell, RefCell};
    use std::collections::BTreeMap;
    use std::ffi::{c_char, c_int, c_uint, c_void};

    #[repr(C)]
    #[derive(Clone, Copy)]
    pub union Val {
        s: f32,
        d: f64,
        c: Complex<f32>,
        z: Complex<f64>,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Scalar {
        data: Val,
        ty: c_int,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Tensor {
        ty: c_int,
        conj: c_int,
        scalar: Scalar,
        data: *mut c_void,
        ndim: c_int,
        len: *mut isize,
        stride: *mut isize,
    }
    thread_local! {
        pub static THREADS: Cell<usize> = const { Cell::new(1) };
        /// number of threads in force at each call that computes
        pub static SEEN: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
        pub static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    }
    trait El: Copy + num::Num + std::ops::AddAssign {
        fn scalar(s: &Scalar) -> Self;
        fn cj(self) -> Self;
    }
    macro_rules! el {
        ($t:ty, $f:ident, $cj:expr) => {
            impl El for $t {
                fn scalar(s: &Scalar) -> Self {
                    unsafe { s.data.$f }
                }
                fn cj(self) -> Self {
                    let f: fn($t) -> $t = $cj;
                    f(self)
                }
            }
        };
    }
    el!(f32, s, |x| x);
    el!(f64, d, |x| x);
    el!(Complex<f32>, c, |x| x.conj());
    el!(Complex<f64>, z, |x| x.conj());

    struct Op<'a> {
        lab: &'a [c_char],
        len: &'a [isize],
        stride: &'a [isize],
    }
    unsafe fn op<'a>(t: *const Tensor, idx: *const c_char) -> Op<'a> {
        let n = (*t).ndim as usize;
        if n == 0 {
            return Op { lab: &[], len: &[], stride: &[] };
        }
        Op {
            lab: std::slice::from_raw_parts(idx, n),
            len: std::slice::from_raw_parts((*t).len, n),
            stride: std::slice::from_raw_parts((*t).stride, n),
        }
    }
    fn bad(s: String) {
        BAD.with(|b| b.borrow_mut().push(s));
    }
    /// C = alpha A B + beta C over all labels; `b` may be absent.
    unsafe fn go<T: El>(a: *const Tensor, ia: *const c_char, b: Option<(*const Tensor, *const c_char)>, c: *mut Tensor, ic: *const c_char) {
        let (oa, oc) = (op(a, ia), op(c, ic));
        let ob = b.map(|(t, i)| op(t, i));
        let mut dims: BTreeMap<c_char, isize> = BTreeMap::new();
        for o in [Some(&oa), ob.as_ref(), Some(&oc)].into_iter().flatten() {
            for (l, n) in o.lab.iter().zip(o.len) {
                let k = *dims.entry(*l).or_insert(*n);
                if k != *n || *n < 0 {
                    return bad(format!("label {l} has lengths {k} and {n}"));
                }
            }
        }
        let labs: Vec<c_char> = dims.keys().cloned().collect();
        let lens: Vec<isize> = dims.values().cloned().collect();
        let weights = |o: &Op| -> Vec<isize> {
            labs.iter().map(|l| o.lab.iter().zip(o.stride).filter(|(x, _)| *x == l).map(|(_, s)| *s).sum()).collect()
        };
        let (wa, wc) = (weights(&oa), weights(&oc));
        let wb = ob.as_ref().map(weights);
        let outer: Vec<bool> = labs.iter().map(|l| oc.lab.contains(l)).collect();
        let alpha = {
            let x = T::scalar(&(*a).scalar);
            b.map_or(x, |(t, _)| x * T::scalar(&(*t).scalar))
        };
        let beta = T::scalar(&(*c).scalar);
        // all positions of C first, then what is added to them
        let mut idx = vec![0isize; labs.len()];
        let pos = |w: &[isize], i: &[isize]| -> isize { w.iter().zip(i).map(|(x, y)| x * y).sum() };
        for pass in 0..2 {
            let ranges: Vec<isize> = lens.iter().zip(&outer).map(|(n, o)| if pass == 0 && !o { 1 } else { *n }).collect();
            if ranges.iter().any(|n| *n == 0) {
                continue;
            }
            idx.iter_mut().for_each(|x| *x = 0);
            loop {
                let pc = ((*c).data as *mut T).offset(pos(&wc, &idx));
                if pass == 0 {
                    let old = if beta.is_zero() { T::zero() } else { pc.read() };
                    pc.write(if beta.is_zero() { T::zero() } else { beta * if (*c).conj != 0 { old.cj() } else { old } });
                } else {
                    let x = ((*a).data as *const T).offset(pos(&wa, &idx)).read();
                    let mut v = alpha * if (*a).conj != 0 { x.cj() } else { x };
                    if let (Some((t, _)), Some(w)) = (b, &wb) {
                        let y = ((*t).data as *const T).offset(pos(w, &idx)).read();
                        v = v * if (*t).conj != 0 { y.cj() } else { y };
                    }
                    pc.write(pc.read() + v);
                }
                let Some(k) = (0..idx.len()).rev().find(|&k| idx[k] + 1 < ranges[k]) else { break };
                idx[k] += 1;
                idx[k + 1..].iter_mut().for_each(|x| *x = 0);
            }
        }
    }
    unsafe fn by_type(a: *const Tensor, ia: *const c_char, b: Option<(*const Tensor, *const c_char)>, c: *mut Tensor, ic: *const c_char) {
        SEEN.with(|s| s.borrow_mut().push(THREADS.get()));
        let mut t = vec![(*a).ty, (*a).scalar.ty, (*c).ty, (*c).scalar.ty];
        if let Some((b, _)) = b {
            t.push((*b).ty);
            t.push((*b).scalar.ty);
        }
        if t.iter().any(|x| *x != t[0]) {
            return bad(format!("types {t:?} are mixed"));
        }
        match t[0] {
            0 => go::<f32>(a, ia, b, c, ic),
            1 => go::<Complex<f32>>(a, ia, b, c, ic),
            2 => go::<f64>(a, ia, b, c, ic),
            3 => go::<Complex<f64>>(a, ia, b, c, ic),
            x => bad(format!("type {x} is unknown")),
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn tblis_get_num_threads() -> c_uint {
        THREADS.get() as c_uint
    }
    #[no_mangle]
    pub unsafe extern "C" fn tblis_set_num_threads(n: c_uint) {
        THREADS.set(n as usize)
    }
    #[no_mangle]
    pub unsafe extern "C" fn tblis_tensor_add(_: *const c_void, _: *const c_void, a: *const Tensor, ia: *const c_char, b: *mut Tensor, ib: *const c_char) {
        by_type(a, ia, None, b, ib)
    }
    #[no_mangle]
    pub unsafe extern "C" fn tblis_tensor_mult(
        _: *const c_void, _: *const c_void, a: *const Tensor, ia: *const c_char, b: *const Tensor, ib: *const c_char, c: *mut Tensor, ic: *const c_char,
    ) {
        by_type(a, ia, Some((b, ib)), c, ic)
    }
    macro_rules! unused {
        ($($n:ident),*) => {$(
            #[no_mangle]
            pub unsafe extern "C" fn $n() {
                bad(concat!(stringify!($n), " is not provided here").into())
            }
        )*};
    }
    unused!(tblis_tensor_dot, tblis_tensor_reduce, tblis_tensor_scale, tblis_tensor_set, tblis_tensor_shift);
}
#[cfg(feature = "tblis")]
mod chk {
    use super::standin::*;
    use rstsr_common::prelude_dev::tensordot_to_einsum_str;
    use rstsr_core::prelude::*;
    use rstsr_core::prelude_dev::{DeviceAPI, DeviceRayonAPI};
    use rstsr_tblis::einsum_impl::*;
    use rstsr_tblis::tensordot_impl::*;
    use std::collections::BTreeMap;
    use vh::*;

    pub trait F: V + Copy + PartialEq + TblisFloatAPI + std::ops::AddAssign {
        fn small(r: &mut Rng) -> Self;
    }
    impl F for f32 {
        fn small(r: &mut Rng) -> Self { r.range(-3, 3) as f32 }
    }
    impl F for f64 {
        fn small(r: &mut Rng) -> Self { r.range(-3, 3) as f64 }
    }
    impl F for C32 {
        fn small(r: &mut Rng) -> Self { C32::new(r.range(-3, 3) as f32, r.range(-2, 2) as f32) }
    }
    impl F for C64 {
        fn small(r: &mut Rng) -> Self { C64::new(r.range(-3, 3) as f64, r.range(-2, 2) as f64) }
    }

    /// The definition: sum over all labels of the product of the operands.
    fn define<T: F>(labels: &[Vec<char>], ops: &[Nd<T>], out: &[char], dims: &BTreeMap<char, usize>) -> Nd<T> {
        let all: Vec<char> = dims.keys().cloned().collect();
        let lens: Vec<usize> = dims.values().cloned().collect();
        let at = |l: &[char], i: &[usize]| -> Vec<usize> { l.iter().map(|c| i[all.iter().position(|x| x == c).unwrap()]).collect() };
        let mut c = Nd::from_fn(&out.iter().map(|c| dims[c]).collect::<Vec<_>>(), |_| T::zero());
        for_idx(&lens, |i| {
            let mut v = T::one();
            for (l, o) in labels.iter().zip(ops) {
                v = v * *o.at(&at(l, i));
            }
            let p = at(out, i);
            let old = *c.at(&p);
            c.set(&p, old + v);
        });
        c
    }
    pub struct Arr<T> {
        raw: Vec<T>,
        sp: Spec,
        m: Nd<T>,
    }
    fn arr<T: F>(r: &mut Rng, shape: &[usize], bcast: bool) -> Arr<T> {
        let sp = if r.chance(1, 4) { contig_spec(shape, r.bool()) } else { let b = bcast && r.chance(1, 4); gen_layout(r, shape, b) };
        let raw: Vec<T> = (0..sp.len).map(|_| T::small(r)).collect();
        let m = observe(&raw, shape, &sp.stride, sp.offset).unwrap();
        Arr { raw, sp, m }
    }
    fn dev(r: &mut Rng, colm: bool) -> &'static DeviceFaer {
        faer(*r.pick(&[1usize, 2, 3, 4, 8]), colm)
    }
    /// Sets a thread number of TBLIS, runs `f`, and judges what TBLIS saw and what is left.
    fn watched<X>(r: &mut Rng, d: &DeviceFaer, f: impl FnOnce() -> X) -> Result<Result<X, String>, Fail> {
        let before = r.usize(1, 9);
        THREADS.set(before);
        SEEN.with(|s| s.borrow_mut().clear());
        BAD.with(|s| s.borrow_mut().clear());
        let x = no_panic(f);
        let bad = BAD.with(|s| s.borrow().clone());
        ensure!(bad.is_empty(), "calls of TBLIS are wrong: {}", bad.join("; "));
        ensure!(THREADS.get() == before, "{} threads of TBLIS are left instead of {before}", THREADS.get());
        let want = if rayon::current_thread_index().is_some() { 1 } else { d.get_num_threads() };
        let seen = SEEN.with(|s| s.borrow().clone());
        ensure!(seen.iter().all(|n| *n == want), "TBLIS works with {seen:?} threads instead of {want}");
        Ok(x)
    }

    struct Sub {
        labels: Vec<Vec<char>>,
        out: Vec<char>,
        dims: BTreeMap<char, usize>,
        text: String,
    }
    fn sub(r: &mut Rng) -> Sub {
        let pool: &[char] = if r.chance(1, 6) { &['μ', 'ν', 'κ', 'a', 'b', 'Z'] } else { &['a', 'i', 'k', 'B', 'x', 'p'] };
        let nop = *r.pick(&[1usize, 2, 2, 2, 2, 3, 3, 4]);
        let npool = r.usize(2, if nop > 2 { 5 } else { 6 });
        let mut dims = BTreeMap::new();
        let mut pl = pool.to_vec();
        r.shuffle(&mut pl);
        let big = r.chance(1, 8);
        for c in &pl[..npool] {
            dims.insert(*c, if big && r.chance(1, 3) { r.usize(5, 9) } else { *r.pick(&[1usize, 2, 2, 3, 3, 4]) });
        }
        let mut labels: Vec<Vec<char>> = vec![];
        for _ in 0..nop {
            let n = *r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 3, 4]);
            let n = if nop == 1 { n.max(1) } else { n };
            let repeat = r.chance(1, 6);
            let mut l: Vec<char> = vec![];
            while l.len() < n {
                let c = *r.pick(&pl[..npool]);
                if repeat || !l.contains(&c) || l.len() >= npool {
                    l.push(c);
                }
            }
            labels.push(l);
        }
        let mut used: Vec<char> = labels.iter().flatten().cloned().collect();
        let count = |c: &char| labels.iter().flatten().filter(|x| *x == c).count();
        let mut once: Vec<char> = used.iter().filter(|c| count(c) == 1).cloned().collect();
        once.sort();
        used.sort();
        used.dedup();
        dims.retain(|c, _| used.contains(c));
        let (out, implicit) = if r.chance(1, 6) {
            (once, true)
        } else {
            r.shuffle(&mut used);
            let n = r.usize(0, used.len().min(5));
            (used[..n].to_vec(), false)
        };
        let sep = *r.pick(&["", "", " "]);
        let mut text = labels.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join(&format!(",{sep}"));
        if !implicit {
            text += &format!("{sep}->{sep}{}", out.iter().collect::<String>());
        }
        Sub { labels, out, dims, text }
    }

    pub fn einsum_case(c: &mut Case) -> R {
        match c.rng.below(4) {
            0 => einsum_of::<f32>(c),
            1 => einsum_of::<C64>(c),
            2 => einsum_of::<C32>(c),
            _ => einsum_of::<f64>(c),
        }
    }
    fn einsum_of<T: F>(c: &mut Case) -> R
    where
        DeviceFaer: DeviceAPI<T, Raw = Vec<T>>,
    {
        let r = &mut c.rng;
        let d = dev(r, r.clone().bool());
        let s = sub(r);
        let xs: Vec<Arr<T>> = s.labels.iter().map(|l| arr(r, &l.iter().map(|x| s.dims[x]).collect::<Vec<_>>(), true)).collect();
        let form = r.below(7);
        let want = define(&s.labels, &xs.iter().map(|x| x.m.clone()).collect::<Vec<_>>(), &s.out, &s.dims);
        c.d(format!("'{}' {} colm {} form {form} {}", s.text, std::any::type_name::<T>(), d.default_order() == FlagOrder::F, xs.iter().map(|x| x.sp.to_string()).collect::<Vec<_>>().join(" ")));
        c.eval();
        if s.labels.len() > 1 || s.labels[0] != s.out {
            c.nontrivial();
        }
        let keep: Vec<Vec<T>> = xs.iter().map(|x| x.raw.clone()).collect();
        let ts: Vec<_> = xs.iter().map(|x| rt::asarray((&x.raw, lay(&x.sp), d))).collect();
        let refs: Vec<&_> = ts.iter().collect();
        let r = &mut c.rng.clone();
        match form {
            0..=3 => {
                let got = watched(r, d, || match form {
                    0 => Ok(einsum(&s.text, refs.clone(), true, None)),
                    1 => einsum_f(&s.text, &refs[..], "optimal", None),
                    2 => einsum_f(&s.text, refs.clone(), "greedy", None),
                    _ if ts.len() == 2 => einsum_f(&s.text, (ts[0].view(), &ts[1]), false, None),
                    _ if ts.len() == 1 => einsum_f(&s.text, (&ts[0],), false, None),
                    _ => einsum_f(&s.text, refs.clone(), "auto", None),
                })??;
                match got {
                    Ok(t) => same("result", &obs!(&t), &want)?,
                    Err(e) => bail!("refused: {e:?}"),
                }
                c.hit("new array");
            },
            _ => {
                let sp = gen_layout(r, &want.shape, false);
                let mut raw: Vec<T> = (0..sp.len).map(|_| T::small(r)).collect();
                let before = raw.clone();
                {
                    let mut out = rt::asarray((&mut raw, lay(&sp), d));
                    let got = watched(r, d, || match form {
                        4 => einsum_with_output(&s.text, refs.clone(), true, None, out.view_mut()),
                        5 => einsum_with_output_f(&s.text, refs.clone(), "greedy", None, out.view_mut()),
                        _ => out.einsum_from_f(&s.text, refs.clone(), true, None),
                    })??;
                    if let Err(e) = got {
                        bail!("refused with output {sp}: {e:?}");
                    }
                }
                same("output", &observe(&raw, &sp.shape, &sp.stride, sp.offset), &want)?;
                let mine = positions(sp.len, &sp.shape, &sp.stride, sp.offset).unwrap();
                for k in 0..raw.len() {
                    ensure!(mine.contains(&k) || raw[k] == before[k], "position {k} outside the output {sp} is written");
                }
                c.hit("given output");
            },
        }
        drop(refs);
        drop(ts);
        for (x, k) in xs.iter().zip(&keep) {
            unchanged("operand", &x.raw, k)?;
        }
        Ok(())
    }

    /// The same call from within a task of another pool works with a single thread.
    pub fn inside_case(c: &mut Case) -> R {
        let p = user_pool(c.rng.usize(1, 4));
        p.install(|| einsum_of::<f64>(c))
    }

    pub fn tensordot_case(c: &mut Case) -> R {
        match c.rng.below(4) {
            0 => tensordot_of::<f32>(c),
            1 => tensordot_of::<C64>(c),
            2 => tensordot_of::<C32>(c),
            _ => tensordot_of::<f64>(c),
        }
    }
    fn tensordot_of<T: F>(c: &mut Case) -> R
    where
        DeviceFaer: DeviceAPI<T, Raw = Vec<T>>,
    {
        let r = &mut c.rng;
        let d = dev(r, r.clone().bool());
        let (na, nb) = (r.usize(0, 4), r.usize(0, 4));
        let k = r.usize(0, na.min(nb).min(3));
        // which axes are summed: the inner ones or any pairs
        let inner = r.chance(1, 3);
        let (mut pa, mut pb) = (r.perm(na), r.perm(nb));
        pa.truncate(k);
        pb.truncate(k);
        if inner {
            pa = (na - k..na).collect();
            pb = (0..k).collect();
        }
        let mut sa: Vec<usize> = (0..na).map(|_| *r.pick(&[1usize, 2, 3, 3, 4])).collect();
        let mut sb: Vec<usize> = (0..nb).map(|_| *r.pick(&[1usize, 2, 3, 3, 4])).collect();
        for (i, j) in pa.iter().zip(&pb) {
            sb[*j] = sa[*i];
        }
        // wrong calls
        let wrong = if r.chance(1, 4) { r.usize(1, 5) } else { 0 };
        let (mut xa, mut xb): (Vec<isize>, Vec<isize>) =
            (pa.iter().map(|a| sgn(r, *a, na)).collect(), pb.iter().map(|b| sgn(r, *b, nb)).collect());
        let mut val = if inner && r.bool() { Some(k as isize) } else { None };
        let mut none = inner && k == 2 && r.bool();
        if wrong > 0 {
            none = false;
        }
        let mut must_fail = false;
        match wrong {
            1 if k > 0 => {
                // one length differs, also where one of the two is 1
                let j = *r.pick(&pb);
                let old = sb[j];
                sb[j] = if old != 1 && r.bool() { 1 } else { old + 1 };
                if r.bool() {
                    let (i, v) = (pa[pb.iter().position(|x| *x == j).unwrap()], sb[j]);
                    (sa[i], sb[j]) = (v, old);
                }
                must_fail = true;
            },
            2 => {
                val = Some(*r.pick(&[-1, na.max(nb) as isize, na.min(nb) as isize + 1, 9, isize::MIN]));
                let v = val.unwrap();
                must_fail = v < 0 || v > na as isize || v > nb as isize || (0..v as usize).any(|t| sa[na - v as usize + t] != sb[t]);
            },
            3 => {
                val = None;
                let x = if r.bool() { &mut xa } else { &mut xb };
                let n = x.len();
                if n > 0 {
                    x[r.below(n)] = *r.pick(&[5, -6, 7, isize::MAX, isize::MIN + 1]);
                    must_fail = true;
                }
            },
            4 => {
                // numbers of axes differ
                val = None;
                if r.bool() {
                    if xa.pop().is_some() { must_fail = true; }
                } else if let Some(free) = (0..nb).find(|j| !pb.contains(j)) {
                    xb.push(free as isize);
                    must_fail = true;
                }
            },
            5 => {
                // an axis twice
                val = None;
                if k > 0 && k < na.min(nb) {
                    xa.push(pa[0] as isize);
                    xb.push((0..nb).find(|j| !pb.contains(j)).unwrap() as isize);
                    must_fail = true;
                }
            },
            _ => {},
        }
        if wrong > 0 && !must_fail {
            return Ok(());
        }
        let (a, b): (Arr<T>, Arr<T>) = (arr(r, &sa, true), arr(r, &sb, true));
        c.d(format!("{} colm {} wrong {wrong} {val:?} {none} {xa:?} {xb:?} {} {}", std::any::type_name::<T>(), d.default_order() == FlagOrder::F, a.sp, b.sp));
        c.eval();
        c.nontrivial();
        let (ta, tb) = (rt::asarray((&a.raw, lay(&a.sp), d)), rt::asarray((&b.raw, lay(&b.sp), d)));
        let r = &mut c.rng.clone();
        let form = r.below(3);
        macro_rules! axes_call {
            ($f:ident, $x:expr, $y:expr $(, $o:expr)?) => {
                if none { $f($x, $y, None::<isize> $(, $o)?) }
                else if let Some(v) = val { $f($x, $y, v $(, $o)?) }
                else { $f($x, $y, (xa.clone(), xb.clone()) $(, $o)?) }
            };
        }
        if must_fail {
            let got = watched(r, d, || axes_call!(tensordot_f, ta.view(), &tb))??;
            ensure!(got.is_err(), "is not refused, but gives shape {:?}", got.unwrap().shape());
            c.hit("refused");
            return Ok(());
        }
        // labels of the definition
        let mut names = ('a'..='z').collect::<Vec<_>>().into_iter();
        let mut la: Vec<char> = (0..na).map(|_| names.next().unwrap()).collect();
        let mut lb: Vec<char> = (0..nb).map(|_| names.next().unwrap()).collect();
        for (i, j) in pa.iter().zip(&pb) {
            lb[*j] = la[*i];
        }
        let out: Vec<char> = (0..na).filter(|i| !pa.contains(i)).map(|i| la[i]).chain((0..nb).filter(|j| !pb.contains(j)).map(|j| lb[j])).collect();
        let dims: BTreeMap<char, usize> = la.iter().cloned().zip(sa.iter().cloned()).chain(lb.iter().cloned().zip(sb.iter().cloned())).collect();
        la.truncate(na);
        let want = define(&[la, lb], &[a.m.clone(), b.m.clone()], &out, &dims);
        match form {
            0 => {
                let got = watched(r, d, || axes_call!(tensordot, &ta, tb.view()))??;
                same("result", &obs!(&got), &want)?;
            },
            1 => {
                let got = watched(r, d, || axes_call!(tensordot_f, ta.view(), &tb))??.map_err(|e| format!("refused: {e:?}"))?;
                same("result", &obs!(&got), &want)?;
            },
            _ => {
                let sp = gen_layout(r, &want.shape, false);
                let mut raw: Vec<T> = (0..sp.len).map(|_| T::small(r)).collect();
                let before = raw.clone();
                {
                    let mut o = rt::asarray((&mut raw, lay(&sp), d));
                    let got = watched(r, d, || {
                        let o = o.view_mut();
                        axes_call!(tensordot_with_output_f, &ta, &tb, o)
                    })??;
                    if let Err(e) = got {
                        bail!("refused with output {sp}: {e:?}");
                    }
                }
                same("output", &observe(&raw, &sp.shape, &sp.stride, sp.offset), &want)?;
                let mine = positions(sp.len, &sp.shape, &sp.stride, sp.offset).unwrap();
                for k in 0..raw.len() {
                    ensure!(mine.contains(&k) || raw[k] == before[k], "position {k} outside the output {sp} is written");
                }
            },
        }
        c.hit("tensordot");
        Ok(())
    }

    /// The subscripts that tensordot makes, without TBLIS, for many axes.
    pub fn text_case(c: &mut Case) -> R {
        let r = &mut c.rng;
        let (na, nb) = (r.usize(0, 30), r.usize(0, 30));
        let k = r.usize(0, na.min(nb));
        let (mut pa, mut pb) = (r.perm(na), r.perm(nb));
        pa.truncate(k);
        pb.truncate(k);
        let xa: Vec<isize> = pa.iter().map(|a| sgn(r, *a, na)).collect();
        let xb: Vec<isize> = pb.iter().map(|b| sgn(r, *b, nb)).collect();
        c.d(format!("{na} {nb} {xa:?} {xb:?}"));
        c.eval();
        if k > 0 { c.nontrivial(); }
        let got = no_panic(|| tensordot_to_einsum_str(na, nb, (xa.clone(), xb.clone())))?;
        let t = match got {
            Ok(t) => t.split_whitespace().collect::<String>(),
            Err(e) => {
                ensure!(na + nb - k > 52, "{} labels are refused: {e:?}", na + nb - k);
                c.hit("too many labels");
                return Ok(());
            },
        };
        let (i, o) = t.split_once("->").ok_or("no arrow")?;
        let (a, b) = i.split_once(',').ok_or("no comma")?;
        let (a, b, o): (Vec<char>, Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect(), o.chars().collect());
        ensure!(a.len() == na && b.len() == nb, "'{t}' does not have {na} and {nb} labels");
        for x in 0..na {
            for y in 0..nb {
                let pair = pa.iter().zip(&pb).any(|(p, q)| *p == x && *q == y);
                ensure!((a[x] == b[y]) == pair, "'{t}': axes {x} and {y} {}", if pair { "are not summed" } else { "share a label" });
            }
        }
        let set = |v: &[char]| v.iter().collect::<std::collections::BTreeSet<_>>().len();
        ensure!(set(&a) == na && set(&b) == nb, "'{t}' repeats a label");
        let want: Vec<char> = (0..na).filter(|x| !pa.contains(x)).map(|x| a[x]).chain((0..nb).filter(|y| !pb.contains(y)).map(|y| b[y])).collect();
        ensure!(o == want, "'{t}' has the wrong result labels");
        c.hit("subscripts");
        Ok(())
    }

    /// Calls that have no meaning are refused, and leave everything as it was.
    pub fn wrong_case(c: &mut Case) -> R {
        let r = &mut c.rng;
        let d = dev(r, r.clone().bool());
        let s = sub(r);
        let mut text = s.text.clone();
        let mut shapes: Vec<Vec<usize>> = s.labels.iter().map(|l| l.iter().map(|x| s.dims[x]).collect()).collect();
        let mut out_shape: Vec<usize> = s.out.iter().map(|x| s.dims[x]).collect();
        let mut with_out = r.chance(1, 3);
        let mut other = None;
        let kind = r.below(8);
        let mut extra = 0usize;
        match kind {
            0 => {
                // a label stands for two lengths
                let flat: Vec<(usize, usize)> = (0..shapes.len()).flat_map(|i| (0..shapes[i].len()).map(move |j| (i, j))).collect();
                let multi: Vec<(usize, usize)> =
                    flat.into_iter().filter(|(i, j)| s.labels.iter().flatten().filter(|x| **x == s.labels[*i][*j]).count() > 1).collect();
                if multi.is_empty() { return Ok(()); }
                let (i, j) = *r.pick(&multi);
                shapes[i][j] = if shapes[i][j] != 1 && r.bool() { 1 } else { shapes[i][j] + 1 };
            },
            1 => {
                let i = r.below(shapes.len());
                if r.bool() || shapes[i].is_empty() { shapes[i].push(2); } else { shapes[i].pop(); }
            },
            2 => text = format!("{}->{}", text.split("->").next().unwrap(), "Q"),
            3 => {
                if s.labels.iter().all(|l| l.is_empty()) { return Ok(()); }
                let l = *s.labels.iter().flatten().next().unwrap();
                text = format!("{}->{l}{l}", text.split("->").next().unwrap());
            },
            4 => { text = format!("a,{}", text.split("->").next().unwrap()) },
            5 => {
                with_out = true;
                if r.bool() || out_shape.is_empty() { out_shape.push(2); } else { let n = out_shape.len(); out_shape[r.below(n)] += 1; }
            },
            6 => {
                // another device
                let o = faer(d.get_num_threads() + 1, r.bool());
                other = Some((o, r.below(shapes.len() + 1)));
                if let Some((_, k)) = other { if k == 0 && shapes.len() == 1 { with_out = true; } if k == shapes.len() { with_out = true; } }
            },
            _ => { extra = 1; text = "".into(); },
        }
        let xs: Vec<Arr<f64>> = shapes.iter().map(|x| arr(r, x, true)).collect();
        let sp = gen_layout(r, &out_shape, false);
        let mut raw: Vec<f64> = (0..sp.len).map(|_| f64::small(r)).collect();
        let before = raw.clone();
        c.d(format!("kind {kind} '{text}' {shapes:?} out {with_out} {sp}"));
        c.eval();
        c.nontrivial();
        let ts: Vec<_> = xs
            .iter()
            .enumerate()
            .map(|(k, x)| rt::asarray((&x.raw, lay(&x.sp), if let Some((o, n)) = other { if n == k { o } else { d } } else { d })))
            .collect();
        let refs: Vec<&_> = if extra == 1 { vec![] } else { ts.iter().collect() };
        let r = &mut c.rng.clone();
        let got = if with_out {
            let od = if let Some((o, n)) = other { if n == ts.len() { o } else { d } } else { d };
            let mut out = rt::asarray((&mut raw, lay(&sp), od));
            watched_any(r, || einsum_with_output_f(&text, refs, true, None, out.view_mut()).map(|_| vec![]))??
        } else {
            watched_any(r, || einsum_f(&text, refs, true, None).map(|t| t.shape().to_vec()))??
        };
        ensure!(got.is_err(), "is not refused, but gives {:?}", got.unwrap());
        unchanged("output of a refused call", &raw, &before)?;
        c.hit(format!("refused {kind}"));
        Ok(())
    }
    /// As `watched`, whatever the number of threads at work.
    fn watched_any<X>(r: &mut Rng, f: impl FnOnce() -> X) -> Result<Result<X, String>, Fail> {
        let before = r.usize(1, 9);
        THREADS.set(before);
        BAD.with(|s| s.borrow_mut().clear());
        let x = no_panic(f);
        let bad = BAD.with(|s| s.borrow().clone());
        ensure!(bad.is_empty(), "calls of TBLIS are wrong: {}", bad.join("; "));
        ensure!(THREADS.get() == before, "{} threads of TBLIS are left instead of {before}", THREADS.get());
        Ok(x)
    }
}
#[cfg(feature = "tblis")]
fn main() {
    use vh::*;
    main_check(Check {
        prop: "C23",
        level: "exploration",
        rule: "a case counts when elements are multiplied, summed or rearranged, or a call must be refused; distinct by subscripts or axes, type, layouts, form of call and device",
        assumptions: &[
            "the TBLIS library is not installed: its C functions are stood in for by a plain loop over the labels, so what is judged is what RSTSR and the crates tblis and opt-einsum-path hand to it and make of its results",
            "TBLIS gives sums of products of the arrays that its arguments describe and may hold repeated labels",
            "no length is zero, which the crate tblis excludes",
        ],
        families: vec![
            fam("einsum", chk::einsum_case, 24000, 400000),
            fam("inside_pool", chk::inside_case, 4000, 60000),
            fam("tensordot", chk::tensordot_case, 24000, 400000),
            fam("subscripts", chk::text_case, 4000, 100000),
            fam("wrong", chk::wrong_case, 12000, 200000),
        ],
        workers: 8,
    })
}
