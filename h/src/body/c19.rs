macro_rules! types {
    ($c:ident, $f:ident) => {
        match $c.rng.below(4) {
            0 => $f::<f32>($c),
            1 => $f::<f64>($c),
            2 => $f::<C32>($c),
            _ => $f::<C64>($c),
        }
    };
}

fn symm_of(k: u8) -> FlagSymm {
    match k {
        0 => FlagSymm::Sy,
        1 => FlagSymm::He,
        2 => FlagSymm::Ay,
        3 => FlagSymm::Ah,
        _ => FlagSymm::N,
    }
}

pub fn pack_case(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => pack_t::<i32>(c, |_, k| k as i32),
        1 => pack_t::<u8>(c, |_, k| (k % 251) as u8),
        2 => pack_t::<f64>(c, f64::label),
        3 => pack_t::<C64>(c, C64::label),
        _ => pack_t::<String>(c, |_, k| format!("{k}")),
    }
}
fn pack_t<T: V + PartialEq>(c: &mut Case, mk: fn(&mut Rng, usize) -> T) -> R
where
    T: PartialEq,
{
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let n = mat_size(r);
    let lower = r.bool();
    let (shape, rest) = stack(r, n, colm);
    let bc = r.chance(1, 4);
    let sp = gen_layout(r, &shape, bc);
    let raw: Vec<T> = (0..sp.len).map(|k| mk(r, k)).collect();
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    let form = r.below(6);
    let pairs = packed(n, lower, colm);
    c.d(format!("pack {} lower {lower} colm {colm} form {form} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 && n > 1 {
        c.nontrivial();
    }
    let want = Nd::from_fn(&join(&rest, &[pairs.len()], colm), |i| {
        let (b, k) = split(i, 1, colm);
        let (x, y) = pairs[k[0]];
        m.at(&join(&b, &[x, y], colm)).clone()
    });
    let t = rt::asarray((&raw, lay(&sp), d));
    let got = match (form, lower) {
        (0, true) => obs!(t.pack_tril()),
        (0, false) => obs!(t.pack_triu()),
        (1, true) => obs!(t.pack_tril_f().map_err(|e| format!("{e:?}"))?),
        (1, false) => obs!(t.pack_triu_f().map_err(|e| format!("{e:?}"))?),
        (2, _) if shape.len() == 2 => obs!(t.to_dim::<Ix2>().pack_tri(up_lo(lower))),
        (2, _) if shape.len() == 3 => obs!(t.to_dim::<Ix3>().pack_tri(up_lo(lower))),
        (3, _) => obs!(rt::asarray((raw.clone(), lay(&sp), d)).pack_tri(up_lo(lower))),
        (4, _) => {
            let mut other = raw.clone();
            let v = rt::asarray((&mut other, lay(&sp), d));
            obs!(v.pack_tri(up_lo(lower)))
        },
        _ => obs!(t.pack_tri(up_lo(lower))),
    };
    same("packed triangle", &got, &want)
}
fn up_lo(lower: bool) -> FlagUpLo {
    if lower {
        FlagUpLo::L
    } else {
        FlagUpLo::U
    }
}

/// Entry (i, j) of the matrix that a packed triangle stands for.
fn entry<T: E>(at: &dyn Fn(usize) -> T, pos: &Nd<usize>, lower: bool, symm: u8, i: usize, j: usize) -> T {
    let inside = if lower { i >= j } else { i <= j };
    if i == j {
        return if symm == 1 { at(*pos.at(&[i, j])) } else { at(*pos.at(&[i, j])).diag(if symm == 4 { 0 } else { symm }) };
    }
    if inside {
        return at(*pos.at(&[i, j]));
    }
    let x = at(*pos.at(&[j, i]));
    match symm {
        0 => x,
        1 => x.conj(),
        2 => -x,
        3 => -x.conj(),
        _ => T::zero(),
    }
}
fn pos_of(n: usize, lower: bool, colm: bool) -> Nd<usize> {
    let mut p = Nd::from_fn(&[n, n], |_| usize::MAX);
    for (k, (i, j)) in packed(n, lower, colm).into_iter().enumerate() {
        p.set(&[i, j], k);
    }
    p
}

pub fn unpack_case(c: &mut Case) -> R {
    types!(c, unpack_t)
}
fn unpack_t<T: E>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let n = mat_size(r);
    let (lower, symm) = (r.bool(), r.below(5) as u8);
    let (full, rest) = stack(r, n, colm);
    let np = n * (n + 1) / 2;
    let shape = join(&rest, &[np], colm);
    // Hermitian matrices have a real diagonal: no broadcasting along the packed axis then
    let bc = r.chance(1, 4) && symm != 1;
    let sp = gen_layout(r, &shape, bc);
    let mut raw: Vec<T> = (0..sp.len).map(|k| T::label(r, k)).collect();
    let pos = pos_of(n, lower, colm);
    if symm == 1 {
        let p = Nd { shape: shape.clone(), data: positions(sp.len, &shape, &sp.stride, sp.offset).unwrap() };
        for_idx(&rest, |b| {
            for i in 0..n {
                let k = *p.at(&join(b, &[*pos.at(&[i, i])], colm));
                raw[k] = raw[k].diag(1);
            }
        });
    }
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    let form = r.below(5);
    c.d(format!("unpack {} lower {lower} symmetry {symm} colm {colm} form {form} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > 1 {
        c.nontrivial();
    }
    let want = Nd::from_fn(&full, |i| {
        let (b, ij) = split(i, 2, colm);
        entry(&|k| *m.at(&join(&b, &[k], colm)), &pos, lower, symm, ij[0], ij[1])
    });
    let t = rt::asarray((&raw, lay(&sp), d));
    let s = symm_of(symm);
    let got = match (form, lower) {
        (0, true) => obs!(t.unpack_tril(s)),
        (0, false) => obs!(t.unpack_triu(s)),
        (1, _) => obs!(t.unpack_tri_f(up_lo(lower), s).map_err(|e| format!("{e:?}"))?),
        (2, _) if shape.len() == 1 => obs!(t.to_dim::<Ix1>().unpack_tri(up_lo(lower), s)),
        (2, _) if shape.len() == 2 => obs!(t.to_dim::<Ix2>().unpack_tri(up_lo(lower), s)),
        (3, _) => obs!(rt::asarray((raw.clone(), lay(&sp), d)).unpack_tri(up_lo(lower), s)),
        _ => obs!(t.unpack_tri(up_lo(lower), s)),
    };
    same("unpacked matrix", &got, &want)
}

/// A matrix of the symmetry comes back from its packed triangle.
pub fn round_case(c: &mut Case) -> R {
    types!(c, round_t)
}
fn round_t<T: E>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let n = mat_size(r);
    let (lower, symm) = (r.bool(), r.below(5) as u8);
    let (full, rest) = stack(r, n, colm);
    let size = full.iter().product::<usize>();
    let labels: Vec<T> = (0..size).map(|k| T::label(r, k)).collect();
    let stride = contig_spec(&full, false).stride;
    let lin = |i: &[usize]| labels[i.iter().zip(&stride).map(|(a, b)| a * *b as usize).sum::<usize>()];
    let want = Nd::from_fn(&full, |i| {
        let (b, ij) = split(i, 2, colm);
        let (x, y) = (ij[0], ij[1]);
        let z = lin(&join(&b, &[x.max(y), x.min(y)], colm));
        let inside = if lower { x >= y } else { x <= y };
        match symm {
            4 if inside => z,
            4 => T::zero(),
            _ if x == y => z.diag(symm),
            0 => z,
            _ if inside => z,
            1 => z.conj(),
            2 => -z,
            _ => -z.conj(),
        }
    });
    let sp = gen_layout(r, &full, false);
    let mut raw: Vec<T> = (0..sp.len).map(|_| T::label(r, 7777)).collect();
    for (k, x) in positions(sp.len, &full, &sp.stride, sp.offset).unwrap().into_iter().zip(&want.data) {
        raw[k] = *x;
    }
    let _ = rest;
    c.d(format!("pack and unpack {} lower {lower} symmetry {symm} colm {colm} {sp}", std::any::type_name::<T>()));
    c.eval();
    if size > 1 {
        c.nontrivial();
    }
    let t = rt::asarray((&raw, lay(&sp), d));
    let p = t.pack_tri(up_lo(lower));
    let u = p.unpack_tri(up_lo(lower), symm_of(symm));
    same("matrix from its packed triangle", &obs!(u.view()), &want)?;
    // and the triangle from the matrix
    let q = u.pack_tri(up_lo(lower));
    same("triangle of the unpacked", &obs!(q), &obs!(p.view())?)?;
    if symm == 0 || symm == 1 {
        // the other triangle tells the same
        let o = t.pack_tri(up_lo(!lower)).unpack_tri(up_lo(!lower), symm_of(symm));
        same("matrix from its other triangle", &obs!(o), &want)?;
        c.hit("both triangles");
    }
    Ok(())
}

pub fn wrong_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let cls = Cls::Tiny;
    let shape = gen_shape(r, 0, 4, cls);
    let sp = gen_layout(r, &shape, false);
    let raw: Vec<f64> = (0..sp.len).map(|k| k as f64).collect();
    let lower = r.bool();
    c.d(format!("colm {colm} {sp}"));
    c.eval();
    c.nontrivial();
    let t = rt::asarray((&raw, lay(&sp), d));
    let nd = shape.len();
    let square = nd >= 2 && if colm { shape[0] == shape[1] } else { shape[nd - 1] == shape[nd - 2] };
    match no_panic(|| t.pack_tri_f(up_lo(lower)).map(|x| x.shape().to_vec()))? {
        Ok(s) => ensure!(square, "packed although not square: {s:?}"),
        Err(e) => ensure!(!square, "refused to pack: {e:?}"),
    }
    let tri = if nd == 0 { None } else { triangular(if colm { shape[0] } else { shape[nd - 1] }) };
    match no_panic(|| t.unpack_tri_f(up_lo(lower), FlagSymm::Sy).map(|x| x.shape().to_vec()))? {
        Ok(s) => ensure!(tri.is_some(), "unpacked although not a triangle: {s:?}"),
        Err(e) => ensure!(tri.is_none(), "refused to unpack: {e:?}"),
    }
    Ok(())
}

pub fn array_case(c: &mut Case) -> R {
    match c.rng.below(7) {
        0 => array_t::<i32, 1>(c),
        1 => array_t::<i32, 2>(c),
        2 => array_t::<f64, 3>(c),
        3 => array_t::<u8, 4>(c),
        4 => array_t::<i64, 5>(c),
        5 => array_t::<f32, 8>(c),
        _ => array_t::<u8, 3>(c),
    }
}
fn array_t<T: V + PartialEq + Copy + num::NumCast, const N: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let colm = r.bool();
    let d = dev(r, colm);
    let cls = *r.pick(&[Cls::Tiny, Cls::Tiny, Cls::Mid]);
    let rest = gen_shape(r, 0, 4, cls);
    let ax = r.usize(0, rest.len());
    let neg = r.bool();
    let nd = rest.len() + 1;
    let axis = if neg { ax as isize - nd as isize } else { ax as isize };
    let mut shape = rest.clone();
    shape.insert(ax, N);
    // the layout of the arrays, and in most cases memory where the axis runs inside the arrays
    let ls = gen_layout(r, &rest, false);
    let fits = r.chance(3, 4);
    let sp = if fits {
        let mut st: Vec<isize> = ls.stride.iter().map(|s| s * N as isize).collect();
        st.insert(ax, 1);
        Spec { shape: shape.clone(), stride: st, offset: ls.offset * N, len: ls.len * N, kind: "arrays" }
    } else {
        gen_layout(r, &shape, false)
    };
    let raw: Vec<T> = (0..sp.len).map(|k| T::from(k % 120).unwrap()).collect();
    let m = observe(&raw, &shape, &sp.stride, sp.offset).unwrap();
    let before = raw.clone();
    let form = r.below(5);
    c.d(format!("arrays of {N} {} axis {axis} form {form} colm {colm} {sp}", std::any::type_name::<T>()));
    c.eval();
    if m.size() > N {
        c.nontrivial();
    }
    let want = Nd::from_fn(&rest, |b| -> [T; N] {
        std::array::from_fn(|k| {
            let mut i = b.to_vec();
            i.insert(ax, k);
            *m.at(&i)
        })
    });
    macro_rules! refusable {
        ($x:expr) => {
            match $x {
                Ok(p) => p,
                Err(e) => {
                    ensure!(!fits, "refused: {e:?}");
                    c.hit("refused");
                    return Ok(());
                },
            }
        };
    }
    macro_rules! content {
        ($p:expr) => {{
            let p = obs!($p)?;
            ensure!(p.shape == want.shape, "arrays of shape {:?}", p.shape);
            ensure!(p.data == want.data, "arrays {:?} instead of {:?}", p.data, want.data);
        }};
    }
    // where the array axis goes when unpacked
    let back = c.rng.usize(0, rest.len());
    let bneg = c.rng.bool();
    let baxis = if bneg { back as isize - nd as isize } else { back as isize };
    let mut bshape = rest.clone();
    bshape.insert(back, N);
    let unpacked = Nd::from_fn(&bshape, |i| {
        let mut b = i.to_vec();
        let k = b.remove(back);
        want.at(&b)[k]
    });
    c.d(format!("back to axis {baxis}"));
    match form {
        0 => {
            let t = rt::asarray((raw.clone(), lay(&sp), d));
            let p = refusable!(t.into_pack_array_f::<N>(axis));
            content!(p.view());
            same("unpacked", &obs!(p.into_unpack_array(baxis)), &unpacked)?;
        },
        1 => {
            let t = rt::asarray((&raw, lay(&sp), d));
            let p = refusable!(t.view().into_pack_array_f::<N>(axis));
            content!(p.view());
            let u = p.into_unpack_array_f(baxis).map_err(|e| format!("refused: {e:?}"))?;
            same("unpacked", &obs!(u.view()), &unpacked)?;
            ensure!(u.raw().as_ptr() as usize == raw.as_ptr() as usize, "a view moved");
        },
        2 => {
            let mut other = raw.clone();
            let mut expect = raw.clone();
            {
                let t = rt::asarray((&mut other, lay(&sp), d));
                let p = refusable!(t.into_pack_array_f::<N>(axis));
                content!(p.view());
                let mut u = p.into_unpack_array(baxis);
                same("unpacked", &obs!(&u), &unpacked)?;
                u.fill(T::from(121).unwrap());
            }
            for k in positions(sp.len, &shape, &sp.stride, sp.offset).unwrap() {
                expect[k] = T::from(121).unwrap();
            }
            unchanged("writing through arrays", &other, &expect)?;
            c.hit("written through");
        },
        3 => {
            let t = rt::asarray((&raw, lay(&sp), d));
            let p = refusable!(t.view().into_cow().into_pack_array_f::<N>(axis));
            content!(p.view());
            same("unpacked", &obs!(p.into_unpack_array(baxis)), &unpacked)?;
        },
        _ => {
            let t = rt::asarray((raw.clone(), lay(&sp), d));
            let p = refusable!(t.into_cow().into_pack_array_f::<N>(axis));
            content!(p.view());
            // as any tensor
            let q = p.view().into_contig(if colm { FlagOrder::F } else { FlagOrder::C });
            content!(q.view());
            let q = p.into_owned();
            content!(q.view());
            same("unpacked", &obs!(q.into_unpack_array(baxis)), &unpacked)?;
        },
    }
    c.hit("packed");
    unchanged("the source", &raw, &before)
}
