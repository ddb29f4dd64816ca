//! C09: iterators visit every element exactly once in the promised order, from both ends, after
//! any splitting, and in parallel.
use rayon::prelude::*;
use rstsr_common::layout::iterator::{IndexedIterLayout, IterLayout, IterLayoutColMajor, IterLayoutRowMajor};
use rstsr_common::prelude::TensorIterOrder;
use rstsr_common::util::IterSplitAtAPI;
use rstsr_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::sync::Mutex;
use vh::*;

/// A visit through a mutable reference adds this to the element, so that the buffer counts visits.
const VISIT: usize = 1 << 40;

fn spec(r: &mut Rng, max_nd: usize, bcast: bool) -> Spec {
    let cls = match r.below(100) {
        0 => Cls::Big,
        1..=8 => Cls::Mid,
        _ => Cls::Tiny,
    };
    let nd = if r.chance(1, 6) { r.usize(4, max_nd.max(4)) } else { r.usize(0, max_nd) };
    let mut sh = gen_shape(r, nd, nd, cls);
    for n in sh.iter_mut() {
        if *n == 0 && !r.chance(1, 12) {
            *n = 2;
        }
    }
    while sh.iter().product::<usize>() > 8000 {
        let k = r.below(sh.len());
        sh[k] = (sh[k] / 2).max(1);
    }
    gen_layout(r, &sh, bcast)
}

fn pos(s: &Spec) -> Nd<usize> {
    Nd { shape: s.shape.clone(), data: positions(s.len, &s.shape, &s.stride, s.offset).unwrap() }
}

fn indices(shape: &[usize]) -> Nd<Vec<usize>> {
    Nd::from_fn(shape, |i| i.to_vec())
}

/// Runs an iterator through a random history of steps from both ends, splits and length queries,
/// against a queue. Returns what was visited.
fn drive<I, W>(c: &mut Case, it: I, want: &[W], key: &dyn Fn(I::Item) -> W) -> Result<Vec<W>, Fail>
where
    I: DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI,
    W: PartialEq + Debug + Clone,
{
    let mut live: Vec<(I, VecDeque<W>)> = vec![(it, want.iter().cloned().collect())];
    let mut seen = vec![];
    let drop_some = c.rng.chance(1, 8);
    let mut steps = c.rng.usize(0, 60);
    let mut mixed = (false, false, false);
    while let Some(k) = (!live.is_empty()).then(|| c.rng.below(live.len())) {
        let (it, q) = &mut live[k];
        ensure!(it.len() == q.len(), "len() is {}, {} elements are left", it.len(), q.len());
        //SH ensure!(it.size_hint() == (q.len(), Some(q.len())), "size_hint {:?} with {} left", it.size_hint(), q.len());
        steps = steps.saturating_sub(1);
        match if steps == 0 { 9 } else { c.rng.below(9) } {
            0..=2 => {
                mixed.0 = true;
                let g = it.next().map(key);
                seen.extend(g.clone());
                let w = q.pop_front();
                ensure!(g == w, "next() gave {:?}, wanted {:?} ({} left)", g, w, q.len());
            },
            3..=5 => {
                mixed.1 = true;
                let g = it.next_back().map(key);
                seen.extend(g.clone());
                let w = q.pop_back();
                ensure!(g == w, "next_back() gave {:?}, wanted {:?} ({} left)", g, w, q.len());
            },
            6..=7 if live.len() < 6 => {
                mixed.2 = true;
                let (it, mut q) = live.swap_remove(k);
                let m = match c.rng.below(6) {
                    0 => 0,
                    1 => q.len(),
                    _ => c.rng.usize(0, q.len()),
                };
                let (a, b) = it.split_at(m);
                let qb = q.split_off(m);
                live.push((a, q));
                live.push((b, qb));
            },
            8 if drop_some => {
                live.swap_remove(k);
            },
            9 => {
                // to the end, from one side
                let (mut it, q) = live.swap_remove(k);
                let back = c.rng.bool();
                let mut got: Vec<W> = vec![];
                let limit = q.len() + 3;
                while let Some(x) = if back { it.next_back() } else { it.next() } {
                    got.push(key(x));
                    ensure!(got.len() <= limit, "more elements than there are: {:?}", &got[limit - 3..]);
                }
                seen.extend(got.iter().cloned());
                ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "an exhausted iterator gave an element");
                let want: Vec<W> = if back { q.into_iter().rev().collect() } else { q.into_iter().collect() };
                if got != want {
                    let k = (0..want.len().max(got.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
                    bail!(
                        "draining from the {} gave {:?} as #{k} of {}, wanted {:?} of {}",
                        if back { "back" } else { "front" },
                        got.get(k),
                        got.len(),
                        want.get(k),
                        want.len()
                    );
                }
            },
            _ => {},
        }
    }
    c.hit(format!("history:{}{}{}", if mixed.0 { "f" } else { "" }, if mixed.1 { "b" } else { "" }, if mixed.2 { "s" } else { "" }));
    Ok(seen)
}

/// Visits in parallel, in one of several ways. Returns what was visited.
fn drive_par<I, W>(c: &mut Case, it: I, want: &[W], key: &(dyn Fn(I::Item) -> W + Sync)) -> Result<Vec<W>, Fail>
where
    I: IntoParallelIterator + Send,
    I::Iter: IndexedParallelIterator,
    I::Item: Send,
    W: PartialEq + Ord + Debug + Clone + Send + Sync,
{
    let nt = *c.rng.pick(&[1usize, 2, 3, 4, 8]);
    let n = want.len();
    let way = c.rng.below(11);
    let k = c.rng.usize(0, n + 1);
    let m = c.rng.usize(1, 5);
    let names = ["collect", "rev", "take", "skip", "enumerate", "zip", "max_len", "for_each", "step_by", "chunks", "fold"];
    c.d(format!("parallel {} k={k} m={m} on {nt} threads", names[way]));
    c.hit(format!("par:{}", names[way]));
    let (got, want): (Vec<W>, Vec<W>) = user_pool(nt).install(|| match way {
        0 => (it.into_par_iter().map(key).collect(), want.to_vec()),
        1 => (it.into_par_iter().rev().map(key).collect(), want.iter().rev().cloned().collect()),
        2 => (it.into_par_iter().take(k).map(key).collect(), want.iter().take(k).cloned().collect()),
        3 => (it.into_par_iter().skip(k).map(key).collect(), want.iter().skip(k).cloned().collect()),
        4 => {
            let mut v: Vec<(usize, W)> = it.into_par_iter().map(key).enumerate().collect();
            if v.iter().enumerate().any(|(i, x)| i != x.0) {
                v.reverse();
                v.truncate(1);
            }
            (v.into_iter().map(|x| x.1).collect(), want.to_vec())
        },
        5 => (
            it.into_par_iter().zip((0..k).into_par_iter()).map(|(x, _)| key(x)).collect(),
            want.iter().take(k).cloned().collect(),
        ),
        6 => (it.into_par_iter().with_max_len(m).map(key).collect(), want.to_vec()),
        7 => {
            let out = Mutex::new(vec![]);
            it.into_par_iter().for_each(|x| {
                let w = key(x);
                out.lock().unwrap().push(w)
            });
            let mut got = out.into_inner().unwrap();
            got.sort();
            let mut want = want.to_vec();
            want.sort();
            (got, want)
        },
        8 => (it.into_par_iter().step_by(m).map(key).collect(), want.iter().step_by(m).cloned().collect()),
        9 => {
            let v: Vec<Vec<W>> = it.into_par_iter().map(key).chunks(m).collect();
            (v.into_iter().flatten().collect(), want.to_vec())
        },
        _ => (
            it.into_par_iter()
                .fold(Vec::new, |mut a, x| {
                    a.push(key(x));
                    a
                })
                .reduce(Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                }),
            want.to_vec(),
        ),
    });
    if got != want {
        let k = (0..want.len().max(got.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
        bail!(
            "parallel visit ({}): {:?} as #{k} of {}, wanted {:?} of {}",
            names[way],
            got.get(k),
            got.len(),
            want.get(k),
            want.len()
        );
    }
    Ok(got)
}

/// Checks that the buffer shows exactly the visits made.
fn visits(buf: &[usize], seen: &[usize]) -> R {
    let mut n: BTreeMap<usize, usize> = BTreeMap::new();
    for p in seen {
        *n.entry(*p).or_default() += 1;
    }
    for (p, v) in buf.iter().enumerate() {
        let want = p + VISIT * n.get(&p).cloned().unwrap_or(0);
        ensure!(*v == want, "element at position {p} of the buffer was changed {} times, wanted {}", v.wrapping_sub(p) as f64 / VISIT as f64, want / VISIT);
    }
    Ok(())
}

fn visit(x: &mut usize) -> usize {
    let p = *x % VISIT;
    *x += VISIT;
    p
}

/// Memory order: every position exactly once; ascending when no stride is negative.
fn memory_order(s: &Spec, p: &Nd<usize>, got: &[usize]) -> R {
    let mut a = got.to_vec();
    let mut b = p.data.clone();
    if s.stride.iter().all(|&x| x >= 0) {
        ensure!(a.windows(2).all(|w| w[0] <= w[1]), "memory order is not ascending: {:?}", &a[..a.len().min(20)]);
    }
    a.sort();
    b.sort();
    ensure!(a == b, "memory order does not visit every element exactly once");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Default,
    C,
    F,
    A,
    K,
    G,
}
use TensorIterOrder as T;
impl O {
    fn lib(self) -> T {
        match self {
            O::C | O::Default => T::C,
            O::F => T::F,
            O::A => T::A,
            O::K => T::K,
            O::G => T::G,
        }
    }
}
fn gen_o(r: &mut Rng) -> O {
    *r.pick(&[O::Default, O::Default, O::C, O::C, O::F, O::F, O::A, O::K, O::K, O::G])
}

/// `want` for an order, given the elements in row-major order of their index and what a fresh
/// iterator in that order visits (for the orders that are left to the layout).
fn in_order<W: Clone + PartialEq>(o: O, colm: bool, w: &Nd<W>, fresh: &[W]) -> Vec<W> {
    match o {
        O::Default => w.seq(colm),
        O::C => w.seq(false),
        O::F => w.seq(true),
        O::A => {
            if w.seq(false) == fresh {
                w.seq(false)
            } else {
                w.seq(true)
            }
        },
        _ => fresh.to_vec(),
    }
}

devices!("c09.rs");

/// The iterators over layouts themselves.
fn layouts(c: &mut Case) -> R {
    let b = c.rng.chance(1, 4);
    let s = spec(&mut c.rng, 7, b);
    let p = pos(&s);
    let l = lay(&s);
    c.d(format!("layout iterators over {s}"));
    if s.size() > 1 {
        c.nontrivial();
    }
    c.eval();
    let par = c.rng.chance(1, 3);
    macro_rules! go {
        ($l:expr) => {{
            let l = $l;
            match c.rng.below(4) {
                0 if par => drive_par(c, IterLayoutRowMajor::new(&l).unwrap(), &p.seq(false), &|x| x).map(|_| ())?,
                1 if par => drive_par(c, IterLayoutColMajor::new(&l).unwrap(), &p.seq(true), &|x| x).map(|_| ())?,
                0 => drive(c, IterLayoutRowMajor::new(&l).unwrap(), &p.seq(false), &|x| x).map(|_| ())?,
                1 => drive(c, IterLayoutColMajor::new(&l).unwrap(), &p.seq(true), &|x| x).map(|_| ())?,
                2 => {
                    let o = gen_o(&mut c.rng);
                    c.d(format!("order {o:?}"));
                    let fresh: Vec<usize> = IterLayout::new(&l, o.lib()).unwrap().collect();
                    if matches!(o, O::K | O::G) {
                        memory_order(&s, &p, &fresh)?;
                    }
                    let want = in_order(o, false, &p, &fresh);
                    let it = IterLayout::new(&l, o.lib()).unwrap();
                    if par {
                        drive_par(c, it, &want, &|x| x)?;
                    } else {
                        drive(c, it, &want, &|x| x)?;
                    }
                },
                _ => {
                    let colm = c.rng.bool();
                    let q = Nd { shape: p.shape.clone(), data: indices(&s.shape).data.into_iter().zip(p.data.clone()).collect() };
                    let it = IndexedIterLayout::new(&l, ord(colm)).unwrap();
                    if par {
                        drive_par(c, it, &q.seq(colm), &|(i, x)| (ix(&i), x))?;
                    } else {
                        drive(c, it, &q.seq(colm), &|(i, x)| (ix(&i), x))?;
                    }
                },
            }
        }};
    }
    match s.shape.len() {
        1 if c.rng.bool() => go!(l.to_dim::<rstsr_common::prelude::Ix1>().unwrap()),
        2 if c.rng.bool() => go!(l.to_dim::<rstsr_common::prelude::Ix2>().unwrap()),
        3 if c.rng.bool() => go!(l.to_dim::<rstsr_common::prelude::Ix3>().unwrap()),
        4 if c.rng.bool() => go!(l.to_dim::<rstsr_common::prelude::Ix4>().unwrap()),
        _ => go!(l),
    }
    Ok(())
}

fn main() {
    main_check(Check {
        prop: "C09",
        level: "exploration",
        rule: "a case counts when more than one element is visited; distinct by layout, iterator, order and history",
        assumptions: &[
            "order A is row-major or column-major; orders K and G visit each element once, ascending in memory when no stride is negative",
            "the promised order of a parallel visit is that of rayon's indexed iterators",
        ],
        families: vec![
            fam("layouts", layouts, 40000, 2000000),
            fam("elem_serial", ser::elem, 40000, 2000000),
            fam("elem_pool", par::elem, 8000, 400000),
            fam("elem_mut_serial", ser::elem_mut, 40000, 2000000),
            fam("axes_serial", ser::axes, 30000, 1500000),
            fam("axes_pool", par::axes, 6000, 300000),
            fam("axes_mut_serial", ser::axes_mut, 30000, 1500000),
        ],
        workers: 8,
    })
}

fn ix<D: AsRef<[usize]>>(d: &D) -> Vec<usize> {
    d.as_ref().to_vec()
}
