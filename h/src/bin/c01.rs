//! C01: every chain of view operations denotes exactly the elements the operations define, and
//! writing through a mutable view changes exactly those elements.
use rstsr_core::prelude::*;
use vh::*;

/// One random view operation on a model; returns its description and the model's result.
#[derive(Clone, Debug)]
pub enum Op {
    Slice(Vec<Indexer>),
    Permute(Vec<isize>),
    Reverse,
    Swap(isize, isize),
    MatT,
    Move(Vec<isize>, Vec<isize>),
    Flip(Option<Vec<isize>>),
    Squeeze(Option<Vec<isize>>),
    Expand(Vec<isize>),
    Diag(Option<isize>, Option<(isize, isize)>),
    Bcast(Vec<usize>),
}

fn gen_slice1(r: &mut Rng, n: usize) -> (Indexer, Vec<usize>) {
    let n_ = n as i64;
    let step = *r.pick(&[1i64, 1, 1, 2, 3, -1, -1, -2, -3, 5, -7]);
    let far = r.chance(1, 4);
    let (lo, hi) = if far { (-n_ - 4, n_ + 4) } else { (-n_, n_) };
    let start = if r.chance(1, 3) { None } else { Some(r.range(lo, hi)) };
    let mut stop = if r.chance(1, 3) { None } else { Some(r.range(lo, hi)) };
    // an explicit stop of -1 with a negative step means "through the first element" here and
    // "up to the last" elsewhere: ambiguous, left out
    if step < 0 && stop == Some(-1) {
        stop = None;
    }
    let step_opt = if step == 1 && r.bool() { None } else { Some(step as isize) };
    let pos = slice_positions(n, start, stop, step);
    (Indexer::Slice(SliceI::new(start.map(|v| v as isize), stop.map(|v| v as isize), step_opt)), pos)
}

pub fn gen_op(r: &mut Rng, m: &Nd<usize>, mutable: bool, colm: bool) -> (Op, Nd<usize>) {
    let nd = m.ndim();
    loop {
        match r.below(15) {
            0..=4 => {
                // indexers
                let mut ix: Vec<Indexer> = vec![];
                let mut sel: Vec<Option<Vec<usize>>> = vec![]; // per input axis; None = select
                let mut selv: Vec<usize> = vec![];
                let mut out_axes: Vec<Option<usize>> = vec![]; // Some(axis) or None = new axis
                let upto = if r.chance(1, 3) { r.usize(0, nd) } else { nd };
                let ell = r.chance(1, 4);
                let (lead, tail) = if ell { (r.usize(0, upto), 0usize) } else { (upto, 0) };
                let tail = if ell { r.usize(0, nd - lead) } else { tail };
                let newax = r.chance(1, 4);
                let mut ax = 0usize;
                let mut push_axis = |r: &mut Rng, ix: &mut Vec<Indexer>, out_axes: &mut Vec<Option<usize>>, ax: usize| {
                    let n = m.shape[ax];
                    if n > 0 && r.chance(1, 4) {
                        let p = r.below(n);
                        ix.push(Indexer::Select(sgn(r, p, n)));
                        sel.push(None);
                        selv.push(p);
                    } else {
                        let (i, p) = gen_slice1(r, n);
                        ix.push(i);
                        sel.push(Some(p));
                        selv.push(0);
                        out_axes.push(Some(ax));
                    }
                };
                for _ in 0..lead {
                    if newax && r.chance(1, 3) {
                        ix.push(Indexer::Insert);
                        out_axes.push(None);
                    }
                    push_axis(r, &mut ix, &mut out_axes, ax);
                    ax += 1;
                }
                let skip = nd - lead - tail;
                if ell {
                    ix.push(Indexer::Ellipsis);
                }
                let full = |ax: usize, out_axes: &mut Vec<Option<usize>>| {
                    out_axes.push(Some(ax));
                };
                let mut skipped = vec![];
                if ell {
                    for k in 0..skip {
                        full(ax + k, &mut out_axes);
                        skipped.push(ax + k);
                    }
                    ax += skip;
                    // selections of the skipped axes are complete; recorded below
                }
                let mut tail_ops: Vec<(Indexer, Option<Vec<usize>>, usize, usize)> = vec![];
                if ell {
                    for _ in 0..tail {
                        let n = m.shape[ax];
                        if n > 0 && r.chance(1, 4) {
                            let p = r.below(n);
                            tail_ops.push((Indexer::Select(sgn(r, p, n)), None, p, ax));
                        } else {
                            let (i, p) = gen_slice1(r, n);
                            tail_ops.push((i, Some(p), 0, ax));
                            out_axes.push(Some(ax));
                        }
                        ax += 1;
                    }
                }
                // per-axis selection table
                let mut table: Vec<Option<Option<Vec<usize>>>> = vec![None; nd];
                let mut tsel = vec![0usize; nd];
                for (k, s) in sel.into_iter().enumerate() {
                    table[k] = Some(s);
                    tsel[k] = selv[k];
                }
                for (i, s, p, a) in tail_ops {
                    ix.push(i);
                    table[a] = Some(s);
                    tsel[a] = p;
                }
                for a in 0..nd {
                    if table[a].is_none() {
                        table[a] = Some(Some((0..m.shape[a]).collect()));
                        if !ell || !skipped.contains(&a) {
                            out_axes.push(Some(a));
                        }
                    }
                }
                if newax && r.chance(1, 2) && !ell && lead == nd {
                    ix.push(Indexer::Insert);
                    out_axes.push(None);
                }
                let shape: Vec<usize> = out_axes
                    .iter()
                    .map(|o| match o {
                        None => 1,
                        Some(a) => table[*a].as_ref().unwrap().as_ref().unwrap().len(),
                    })
                    .collect();
                if ix.is_empty() {
                    continue;
                }
                let mut src = tsel.clone();
                let res = Nd::from_fn(&shape, |i| {
                    for (k, o) in out_axes.iter().enumerate() {
                        if let Some(a) = o {
                            src[*a] = table[*a].as_ref().unwrap().as_ref().unwrap()[i[k]];
                        }
                    }
                    *m.at(&src)
                });
                return (Op::Slice(ix), res);
            },
            5 => {
                let p = r.perm(nd);
                let a: Vec<isize> = p.iter().map(|&x| sgn(r, x, nd)).collect();
                return (Op::Permute(a), m.permute(&p));
            },
            6 => return (Op::Reverse, m.reversed_axes()),
            7 => {
                if nd == 0 {
                    continue;
                }
                let (a, b) = (r.below(nd), r.below(nd));
                let mut p: Vec<usize> = (0..nd).collect();
                p.swap(a, b);
                return (Op::Swap(sgn(r, a, nd), sgn(r, b, nd)), m.permute(&p));
            },
            8 => {
                if nd < 2 {
                    continue;
                }
                let mut p: Vec<usize> = (0..nd).collect();
                p.swap(nd - 1, nd - 2);
                return (Op::MatT, m.permute(&p));
            },
            9 => {
                if nd == 0 {
                    continue;
                }
                let k = r.usize(1, nd);
                let s = r.perm(nd)[..k].to_vec();
                let d = r.perm(nd)[..k].to_vec();
                let mut p: Vec<usize> = vec![usize::MAX; nd];
                for (x, y) in s.iter().zip(&d) {
                    p[*y] = *x;
                }
                let mut rest = (0..nd).filter(|a| !s.contains(a));
                for v in p.iter_mut() {
                    if *v == usize::MAX {
                        *v = rest.next().unwrap();
                    }
                }
                let ss = s.iter().map(|&x| sgn(r, x, nd)).collect();
                let dd = d.iter().map(|&x| sgn(r, x, nd)).collect();
                return (Op::Move(ss, dd), m.permute(&p));
            },
            10 => {
                let k = r.usize(0, nd);
                let ax = if r.chance(1, 5) { None } else { Some(r.perm(nd)[..k].to_vec()) };
                let flips: Vec<usize> = ax.clone().unwrap_or((0..nd).collect());
                let mut src = vec![0; nd];
                let shape = m.shape.clone();
                let res = Nd::from_fn(&shape, |i| {
                    for a in 0..nd {
                        src[a] = if flips.contains(&a) { shape[a] - 1 - i[a] } else { i[a] };
                    }
                    *m.at(&src)
                });
                let ax = ax.map(|v| v.iter().map(|&x| sgn(r, x, nd)).collect());
                return (Op::Flip(ax), res);
            },
            11 => {
                let ones: Vec<usize> = (0..nd).filter(|&a| m.shape[a] == 1).collect();
                if ones.is_empty() && r.chance(3, 4) {
                    continue;
                }
                let ax = if r.chance(1, 3) {
                    None
                } else {
                    let p = r.perm(ones.len());
                    let k = r.usize(0, ones.len());
                    Some(p[..k].iter().map(|&x| ones[x]).collect::<Vec<_>>())
                };
                let rm = ax.clone().unwrap_or(ones);
                let shape: Vec<usize> = (0..nd).filter(|a| !rm.contains(a)).map(|a| m.shape[a]).collect();
                let res = Nd { shape, data: m.data.clone() };
                let ax = ax.map(|v| v.iter().map(|&x| sgn(r, x, nd)).collect());
                return (Op::Squeeze(ax), res);
            },
            12 => {
                if nd >= 6 {
                    continue;
                }
                let k = r.usize(1, 2);
                let n2 = nd + k;
                let pos = r.perm(n2)[..k].to_vec();
                let mut it = m.shape.iter();
                let shape: Vec<usize> = (0..n2).map(|a| if pos.contains(&a) { 1 } else { *it.next().unwrap() }).collect();
                let ax = pos.iter().map(|&x| sgn(r, x, n2)).collect();
                return (Op::Expand(ax), Nd { shape, data: m.data.clone() });
            },
            13 => {
                if nd < 2 {
                    continue;
                }
                let def = r.chance(1, 3);
                let (a, b) = if def {
                    (0, 1)
                } else {
                    let p = r.perm(nd);
                    (p[0], p[1])
                };
                let (d1, d2) = (m.shape[a] as i64, m.shape[b] as i64);
                let off = if r.chance(1, 4) { None } else { Some(r.range(-d1 - 2, d2 + 2)) };
                let k = off.unwrap_or(0);
                // elements (i, i + k) inside the two axes, appended as the last axis
                let idx: Vec<(usize, usize)> =
                    (0..d1).filter(|i| i + k >= 0 && i + k < d2).map(|i| (i as usize, (i + k) as usize)).collect();
                let rest: Vec<usize> = (0..nd).filter(|&x| x != a && x != b).collect();
                let mut shape: Vec<usize> = rest.iter().map(|&x| m.shape[x]).collect();
                shape.push(idx.len());
                let mut src = vec![0; nd];
                let res = Nd::from_fn(&shape, |i| {
                    for (j, &x) in rest.iter().enumerate() {
                        src[x] = i[j];
                    }
                    let (p, q) = idx[i[rest.len()]];
                    src[a] = p;
                    src[b] = q;
                    *m.at(&src)
                });
                let ax = if def { None } else { Some((sgn(r, a, nd), sgn(r, b, nd))) };
                return (Op::Diag(off.map(|v| v as isize), ax), res);
            },
            _ => {
                if mutable || m.size() > 3000 {
                    continue;
                }
                let mut shape: Vec<usize> =
                    m.shape.iter().map(|&n| if n == 1 && r.bool() { r.usize(0, 4) } else { n }).collect();
                let extra = if nd < 5 { r.usize(0, 2) } else { 0 };
                for _ in 0..extra {
                    let v = r.usize(1, 3);
                    if colm {
                        shape.push(v);
                    } else {
                        shape.insert(0, v);
                    }
                }
                return (Op::Bcast(shape.clone()), m.broadcast_ord(&shape, colm));
            },
        }
    }
}

macro_rules! apply_common {
    ($t:expr, $op:expr, $by_ref:expr) => {{
        let t = $t;
        match $op.clone() {
            Op::Slice(ix) => t.into_slice(AxesIndex::Vec(ix)),
            Op::Permute(a) => t.into_permute_dims(a),
            Op::Reverse => t.into_reverse_axes(),
            Op::Swap(a, b) => t.into_swapaxes(a, b),
            Op::MatT => t.into_matrix_transpose(),
            Op::Move(s, d) => t.into_moveaxis(s, d),
            Op::Flip(Some(a)) => t.into_flip(a),
            Op::Flip(None) => t.into_flip(None),
            Op::Squeeze(Some(a)) => t.into_squeeze(a),
            Op::Squeeze(None) => t.into_squeeze(None),
            Op::Expand(a) => t.into_expand_dims(a),
            Op::Diag(o, ax) => match (o, ax) {
                (None, None) => t.into_diagonal(()),
                (Some(k), None) => t.into_diagonal(k),
                (k, Some((a, b))) => t.into_diagonal((k.unwrap_or(0), a, b)),
            },
            Op::Bcast(s) => t.into_broadcast(s),
        }
    }};
}

/// The same operation in its borrowing spelling; what it denotes.
macro_rules! apply_ref {
    ($t:expr, $op:expr, $r:expr) => {{
        let t = $t;
        match $op.clone() {
            Op::Slice(ix) => if $r.bool() { obs!(t.slice(AxesIndex::Vec(ix))) } else { obs!(t.i(AxesIndex::Vec(ix))) },
            Op::Permute(a) => match $r.below(3) { 0 => obs!(t.permute_dims(a)), 1 => obs!(t.transpose(a)), _ => obs!(rt::transpose(&t, a)) },
            Op::Reverse => match $r.below(3) { 0 => obs!(t.reverse_axes()), 1 => obs!(t.t()), _ => obs!(t.transpose(None)) },
            Op::Swap(a, b) => obs!(t.swapaxes(a, b)),
            Op::MatT => obs!(t.matrix_transpose()),
            Op::Move(s, d) => obs!(t.moveaxis(s, d)),
            Op::Flip(Some(a)) => obs!(t.flip(a)),
            Op::Flip(None) => obs!(t.flip(None)),
            Op::Squeeze(Some(a)) => obs!(t.squeeze(a)),
            Op::Squeeze(None) => obs!(t.squeeze(None)),
            Op::Expand(a) => if $r.bool() { obs!(t.expand_dims(a)) } else { obs!(t.unsqueeze(a)) },
            Op::Diag(o, ax) => match (o, ax) {
                (None, None) => obs!(t.diagonal(())),
                (Some(k), None) => obs!(t.diagonal(k)),
                (k, Some((a, b))) => obs!(t.diagonal((k.unwrap_or(0), a, b))),
            },
            Op::Bcast(s) => if $r.bool() { obs!(t.to_broadcast(s)) } else { obs!(t.broadcast_to(s)) },
        }
    }};
}

fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Slice(_) => "slice",
        Op::Permute(_) => "permute",
        Op::Reverse => "reverse_axes",
        Op::Swap(..) => "swapaxes",
        Op::MatT => "matrix_transpose",
        Op::Move(..) => "moveaxis",
        Op::Flip(_) => "flip",
        Op::Squeeze(_) => "squeeze",
        Op::Expand(_) => "expand_dims",
        Op::Diag(..) => "diagonal",
        Op::Bcast(_) => "broadcast",
    }
}

fn base_model(r: &mut Rng) -> (Spec, Vec<usize>, Nd<usize>) {
    let cls = if r.chance(1, 6) { Cls::Mid } else { Cls::Tiny };
    let shape = gen_shape(r, 0, 5, cls);
    let spec = gen_layout(r, &shape, false);
    let raw: Vec<usize> = (0..spec.len).collect();
    let m = observe(&raw, &spec.shape, &spec.stride, spec.offset).unwrap();
    (spec, raw, m)
}

devices!("c01.rs");

fn main() {
    main_check(Check {
        prop: "C01",
        level: "exploration",
        rule: "a case counts when its chain produced a non-empty view that is not the whole base array in its original order; distinct by base layout and operation chain",
        assumptions: &["an explicit stop of -1 with a negative step is not used"],
        families: vec![
            Family { name: "view_serial", f: ser::view_chain, quick: 400000, thorough: 20000000 },
            Family { name: "view_faer", f: par::view_chain, quick: 100000, thorough: 4000000 },
            Family { name: "write_serial", f: ser::write_chain, quick: 400000, thorough: 20000000 },
            Family { name: "write_faer", f: par::write_chain, quick: 100000, thorough: 4000000 },
            Family { name: "fixed_dim", f: ser::fixed_dim, quick: 150000, thorough: 6000000 },
        ],
        workers: 8,
    })
}
