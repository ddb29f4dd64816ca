/// Compound assignment and operations into a given output.
macro_rules! ops_ty {
    ($c:ident, $t:ty, $($k:literal => $opa:tt $op:tt $name:ident $nameo:ident),*) => {{
        let colm = $c.rng.bool();
        let dev = dev(&mut $c.rng, colm);
        let cl = cls(&mut $c.rng);
        let sh = gen_shape(&mut $c.rng, 0, 5, cl);
        let st = gen_layout(&mut $c.rng, &sh, false);
        let shs = src_shape(&mut $c.rng, &sh, colm);
        let bc = $c.rng.chance(1, 5);
        let ss = gen_layout(&mut $c.rng, &shs, bc);
        let shs2 = src_shape(&mut $c.rng, &sh, colm);
        let ss2 = gen_layout(&mut $c.rng, &shs2, false);
        // small labels, nowhere zero (for / and %) and bounded (for shifts)
        let buf0: Vec<$t> = (0..st.len).map(|_| $c.rng.range(1, 60) as $t).collect();
        let src: Vec<$t> = (0..ss.len).map(|_| $c.rng.range(1, 20) as $t).collect();
        let src2: Vec<$t> = (0..ss2.len).map(|_| $c.rng.range(1, 20) as $t).collect();
        let n = [$($k),*].len();
        let k = $c.rng.below(n);
        let form = $c.rng.below(7);
        $c.d(format!("{} {} target {} source {} op {} form {}", stringify!($t), if colm { "F" } else { "C" }, st, ss, k, form));
        $c.hit(format!("{}_op{}_form{}", stringify!($t), k, form));
        let pos = positions(st.len, &st.shape, &st.stride, st.offset)?;
        
        let ms = observe(&src, &ss.shape, &ss.stride, ss.offset)?.broadcast_ord(&sh, colm);
        let ms2 = observe(&src2, &ss2.shape, &ss2.stride, ss2.offset)?.broadcast_ord(&sh, colm);
        if !pos.is_empty() {
            $c.nontrivial();
        }
        $c.eval();
        let s = $c.rng.range(1, 9) as $t;
        let mut want = buf0.clone();
        let mut got = buf0.clone();
        let vs = rt::asarray((&src, lay(&ss), dev));
        match k {
            $($k => {
                for (i, &p) in pos.iter().enumerate() {
                    want[p] = match form {
                        0 | 1 | 2 | 3 => want[p] $op ms.data[i],
                        4 => want[p] $op s,
                        _ => ms.data[i] $op ms2.data[i],
                    };
                }
                match form {
                    0 => {
                        let mut t = rt::asarray((&mut got, lay(&st), dev));
                        t $opa &vs;
                    },
                    1 => {
                        let mut t = rt::asarray((&mut got, lay(&st), dev));
                        t $opa vs.view();
                    },
                    2 => {
                        let mut t = rt::asarray((got.clone(), lay(&st), dev));
                        { let mut m = t.view_mut(); m $opa vs.to_owned(); }
                        got = t.raw().clone();
                    },
                    3 => {
                        let mut t = rt::asarray((got.clone(), lay(&st), dev));
                        t $opa &vs;
                        got = t.raw().clone();
                    },
                    4 => {
                        let mut t = rt::asarray((&mut got, lay(&st), dev));
                        t $opa s;
                    },
                    _ => {
                        let v2 = rt::asarray((&src2, lay(&ss2), dev));
                        let mut t = rt::asarray((&mut got, lay(&st), dev));
                        rt::$nameo(&vs, &v2, &mut t);
                    },
                }
            },)*
            _ => {},
        }
        diff("compound assignment", &got, &want, &pos)?;
    }};
}

pub fn ops(c: &mut Case) -> R {
    // subtraction on unsigned types is left out: the random labels would underflow
    match c.rng.below(5) {
        0..=1 => ops_ty!(c, i64, 0usize => += + add add_with_output, 1usize => -= - sub sub_with_output, 2usize => *= * mul mul_with_output, 3usize => /= / div div_with_output,
            4usize => %= % rem rem_with_output, 5usize => |= | bitor bitor_with_output, 6usize => &= & bitand bitand_with_output, 7usize => ^= ^ bitxor bitxor_with_output,
            8usize => <<= << shl shl_with_output, 9usize => >>= >> shr shr_with_output),
        2 => ops_ty!(c, u16, 0usize => += + add add_with_output, 1usize => *= * mul mul_with_output),
        _ => ops_ty!(c, f64, 0usize => += + add add_with_output, 1usize => -= - sub sub_with_output, 2usize => *= * mul mul_with_output, 3usize => /= / div div_with_output),
    }
    Ok(())
}

/// Assignment, filling, in-place mapping, user functions.
pub fn set(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let cl = cls(&mut c.rng);
    let sh = gen_shape(&mut c.rng, 0, 5, cl);
    let st = gen_layout(&mut c.rng, &sh, false);
    let way = c.rng.below(16);
    let same_shape = way == 2 && c.rng.bool();
    let shs = if same_shape { sh.clone() } else { src_shape(&mut c.rng, &sh, colm) };
    let bc = c.rng.chance(1, 5);
    let ss = gen_layout(&mut c.rng, &shs, bc);
    let shs2 = src_shape(&mut c.rng, &sh, colm);
    let ss2 = gen_layout(&mut c.rng, &shs2, false);
    c.d(format!("{} target {st} source {ss} way {way}", if colm { "F" } else { "C" }));
    c.hit(format!("set_{way:02}"));
    let pos = positions(st.len, &st.shape, &st.stride, st.offset)?;
    
    let buf0: Vec<i64> = (0..st.len as i64).map(|x| -x - 1).collect();
    let src: Vec<i64> = (0..ss.len as i64).map(|x| x * 1000 + 7).collect();
    let src2: Vec<i64> = (0..ss2.len as i64).map(|x| x * 1000003).collect();
    let ms = observe(&src, &ss.shape, &ss.stride, ss.offset)?.broadcast_ord(&sh, colm);
    let ms2 = observe(&src2, &ss2.shape, &ss2.stride, ss2.offset)?.broadcast_ord(&sh, colm);
    if !pos.is_empty() {
        c.nontrivial();
    }
    c.eval();
    let mut want = buf0.clone();
    let mut got = buf0.clone();
    let vs = rt::asarray((&src, lay(&ss), dev));
    let v2 = rt::asarray((&src2, lay(&ss2), dev));
    let calls = std::sync::atomic::AtomicUsize::new(0);
    let tick = || {
        calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    };
    macro_rules! expect {
        (|$i:ident, $p:ident| $e:expr) => {
            for ($i, &$p) in pos.iter().enumerate() {
                let _ = $i;
                want[$p] = $e;
            }
        };
    }
    let mut called = false;
    match way {
        0 => {
            expect!(|i, p| ms.data[i]);
            rt::asarray((&mut got, lay(&st), dev)).assign(&vs);
        },
        1 => {
            expect!(|i, p| ms.data[i]);
            rt::asarray((&mut got, lay(&st), dev)).assign(vs.view());
        },
        2 => {
            expect!(|i, p| ms.data[i]);
            let mut t = rt::asarray((got.clone(), lay(&st), dev));
            t.assign(vs.to_owned());
            got = t.raw().clone();
        },
        3 => {
            expect!(|i, p| 4242);
            rt::asarray((&mut got, lay(&st), dev)).fill(4242);
        },
        4 => {
            expect!(|i, p| 17);
            let mut t = rt::asarray((got.clone(), lay(&st), dev));
            t.view_mut().fill(17);
            got = t.raw().clone();
        },
        5 => {
            expect!(|i, p| want[p] * 3 + 1);
            rt::asarray((&mut got, lay(&st), dev)).mapi(|x| {
                tick();
                *x = *x * 3 + 1
            });
            called = true;
        },
        6 => {
            expect!(|i, p| want[p] * 5);
            rt::asarray((&mut got, lay(&st), dev)).mapvi(|x| {
                tick();
                x * 5
            });
            called = true;
        },
        7 => {
            expect!(|i, p| want[p] - 2);
            let mut t = rt::asarray((&mut got, lay(&st), dev));
            by_dev!({ t.mapi_fnmut(|x| { tick(); *x -= 2 }) } { t.mapi(|x| { tick(); *x -= 2 }) });
            called = true;
        },
        8 => {
            expect!(|i, p| ms.data[i] - ms2.data[i]);
            let t = rt::asarray((&mut got, lay(&st), dev));
            rstsr_core::tensor::exports::op_mutc_refa_refb_func(t, &vs, &v2, &mut |c: &mut std::mem::MaybeUninit<i64>, a: &i64, b: &i64| {
                tick();
                c.write(a - b);
            })
            .map_err(|e| format!("{e:?}"))?;
            called = true;
        },
        9 => {
            expect!(|i, p| want[p] + ms.data[i]);
            let t = rt::asarray((&mut got, lay(&st), dev));
            rstsr_core::tensor::exports::op_muta_refb_func(t, &vs, &mut |a: &mut std::mem::MaybeUninit<i64>, b: &i64| {
                tick();
                unsafe { *a.assume_init_mut() += *b };
            })
            .map_err(|e| format!("{e:?}"))?;
            called = true;
        },
        10 => {
            expect!(|i, p| want[p] * 2);
            let t = rt::asarray((&mut got, lay(&st), dev));
            rstsr_core::tensor::exports::op_muta_func(t, &mut |a: &mut std::mem::MaybeUninit<i64>| {
                tick();
                unsafe { *a.assume_init_mut() *= 2 };
            })
            .map_err(|e| format!("{e:?}"))?;
            called = true;
        },
        11 => {
            // strings: values with destructors
            let b0: Vec<String> = buf0.iter().map(|x| x.to_string()).collect();
            let s0: Vec<String> = src.iter().map(|x| x.to_string()).collect();
            let mut w = b0.clone();
            for (i, &p) in pos.iter().enumerate() {
                w[p] = ms.data[i].to_string();
            }
            let mut g = b0;
            rt::asarray((&mut g, lay(&st), dev)).assign(rt::asarray((&s0, lay(&ss), dev)));
            diff("assignment of strings", &g, &w, &pos)?;
        },
        12 => {
            let b0: Vec<String> = buf0.iter().map(|x| x.to_string()).collect();
            let mut w = b0.clone();
            for &p in pos.iter() {
                w[p] = "x".into();
            }
            let mut g = b0;
            rt::asarray((&mut g, lay(&st), dev)).fill("x".to_string());
            diff("filling strings", &g, &w, &pos)?;
        },
        13 => {
            // mutable iteration
            expect!(|i, p| want[p] * 7);
            let mut t = rt::asarray((&mut got, lay(&st), dev));
            for x in t.iter_mut() {
                tick();
                *x *= 7;
            }
            called = true;
        },
        14 => {
            // index assignment of one element
            if !pos.is_empty() {
                let i = c.rng.below(pos.len());
                let mut idx = vec![0usize; sh.len()];
                let mut rest = i;
                for a in (0..sh.len()).rev() {
                    idx[a] = rest % sh[a];
                    rest /= sh[a];
                }
                want[pos[i]] = 99;
                let mut t = rt::asarray((&mut got, lay(&st), dev));
                t[&idx] = 99;
            }
        },
        _ => {
            // chained updates of the same view
            expect!(|i, p| (want[p] + ms.data[i]) * 3);
            let mut t = rt::asarray((&mut got, lay(&st), dev));
            t += &vs;
            t *= 3;
        },
    }
    diff("in-place operation", &got, &want, &pos)?;
    ensure!(src.iter().enumerate().all(|(i, &v)| v == i as i64 * 1000 + 7), "the source changed");
    let k = calls.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(!called || k == pos.len(), "{k} updates of {} elements", pos.len());
    Ok(())
}

/// Updates through slices and other mutable views of a larger array.
pub fn sliced(c: &mut Case) -> R {
    let colm = c.rng.bool();
    let dev = dev(&mut c.rng, colm);
    let cl = cls(&mut c.rng);
    let sh = gen_shape(&mut c.rng, 1, 4, cl);
    let st = gen_layout(&mut c.rng, &sh, false);
    let labels: Vec<usize> = (0..st.len).collect();
    let buf0: Vec<i64> = (0..st.len as i64).map(|x| -x - 1).collect();
    let mut idx: Vec<Indexer> = vec![];
    for &n in &sh {
        let s = match c.rng.below(4) {
            0 if n > 0 => Indexer::Select(c.rng.below(n) as isize),
            1 => Indexer::Slice(SliceI::new(None, None, Some(2isize))),
            2 => Indexer::Slice(SliceI::new(Some(c.rng.usize(0, n) as isize), None, None)),
            _ => Indexer::Slice(SliceI::new(None, None, if c.rng.bool() { Some(-1isize) } else { None })),
        };
        idx.push(s);
    }
    let lab = rt::asarray((&labels, lay(&st), dev));
    let tgt = obs!(lab.slice(idx.clone()))?;
    let shs = src_shape(&mut c.rng, &tgt.shape, colm);
    let ss = gen_layout(&mut c.rng, &shs, false);
    let src: Vec<i64> = (0..ss.len as i64).map(|x| x * 1000 + 7).collect();
    let ms = observe(&src, &ss.shape, &ss.stride, ss.offset)?.broadcast_ord(&tgt.shape, colm);
    let vs = rt::asarray((&src, lay(&ss), dev));
    let way = c.rng.below(6);
    c.d(format!("{} base {st} idx {idx:?} source {ss} way {way}", if colm { "F" } else { "C" }));
    c.hit(format!("sliced_{way}"));
    if tgt.size() > 0 {
        c.nontrivial();
    }
    c.eval();
    
    let mut want = buf0.clone();
    for (i, &p) in tgt.data.iter().enumerate() {
        want[p] = match way {
            0 | 1 => ms.data[i],
            2 => want[p] + ms.data[i],
            3 => 5,
            4 => want[p] * 2,
            _ => ms.data[i] + ms.data[i],
        };
    }
    let mut got = buf0.clone();
    {
        let mut t = rt::asarray((&mut got, lay(&st), dev));
        match way {
            0 => t.slice_mut(idx).assign(&vs),
            1 => t.i_mut(idx).assign(vs.to_owned()),
            2 => {
                let mut m = t.slice_mut(idx);
                m += &vs
            },
            3 => t.i_mut(idx).fill(5),
            4 => {
                let mut m = t.i_mut(idx);
                m *= 2
            },
            _ => rt::add_with_output(&vs, &vs, t.i_mut(idx)),
        }
    }
    diff("update through a slice", &got, &want, &tgt.data)
}
