//! Random shapes, memory layouts and buffers.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Spec {
    pub shape: Vec<usize>,
    pub stride: Vec<isize>,
    pub offset: usize,
    pub len: usize,
    pub kind: &'static str,
}

impl std::fmt::Display for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[shape {:?} stride {:?} offset {} len {}]", self.shape, self.stride, self.offset, self.len)
    }
}

impl Spec {
    pub fn size(&self) -> usize {
        self.shape.iter().product()
    }
    pub fn has_bcast(&self) -> bool {
        self.shape.iter().zip(&self.stride).any(|(&n, &s)| n > 1 && s == 0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cls {
    /// up to a few dozen elements
    Tiny,
    /// crosses the contiguous-inner-loop switches
    Mid,
    /// crosses the parallel switches of the reductions / operators
    Big,
    /// crosses every parallel switch
    Huge,
}

pub fn pick_cls(r: &mut Rng) -> Cls {
    // under the interpreter (VH_TINY) large arrays are rare
    if small_only() {
        return match r.below(60) {
            0 => Cls::Big,
            1..=4 => Cls::Mid,
            _ => Cls::Tiny,
        };
    }
    match r.below(100) {
        0..=64 => Cls::Tiny,
        65..=84 => Cls::Mid,
        85..=96 => Cls::Big,
        _ => Cls::Huge,
    }
}

pub fn small_only() -> bool {
    static F: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *F.get_or_init(|| std::env::var("VH_TINY").is_ok())
}

pub fn gen_dim_tiny(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1..=4 => 1,
        5..=9 => 2,
        10..=14 => 3,
        15..=17 => 4,
        18 => 5,
        _ => 7,
    }
}

/// A shape with ndim in lo..=hi.
pub fn gen_shape(r: &mut Rng, lo: usize, hi: usize, cls: Cls) -> Vec<usize> {
    let nd = r.usize(lo, hi);
    if nd == 0 {
        return vec![];
    }
    let cls = if small_only() && cls == Cls::Huge { Cls::Mid } else { cls };
    let (tmin, tmax) = match cls {
        Cls::Tiny => {
            let mut s: Vec<usize> = (0..nd).map(|_| gen_dim_tiny(r)).collect();
            while s.iter().product::<usize>() > 400 {
                let k = r.below(nd);
                s[k] = (s[k] / 2).max(1);
            }
            return s;
        },
        Cls::Mid => (40usize, 1200usize),
        Cls::Big => (1300, 7000),
        Cls::Huge => (17000, 40000),
    };
    let mut s: Vec<usize> = (0..nd)
        .map(|_| match r.below(8) {
            0 => 1,
            1..=2 => 2,
            3..=4 => 3,
            5 => r.usize(4, 9),
            6 => r.usize(15, 34),
            _ => r.usize(45, 68),
        })
        .collect();
    let target = r.usize(tmin, tmax);
    for _ in 0..64 {
        let p: usize = s.iter().product();
        if p > tmax {
            let k = r.below(nd);
            s[k] = (s[k] / 2).max(1);
        } else if p < tmin {
            let k = r.below(nd);
            let rest = p / s[k];
            s[k] = (target / rest).max(1);
        } else {
            break;
        }
    }
    s
}

/// A random layout over `shape` that maps distinct indices to distinct positions unless `bcast`
/// allows stride-0 axes.
pub fn gen_layout(r: &mut Rng, shape: &[usize], bcast: bool) -> Spec {
    let nd = shape.len();
    let total: usize = shape.iter().product();
    let mode = r.below(10);
    // order: axes from fastest to slowest
    let mut order: Vec<usize> = match mode {
        0..=2 => (0..nd).rev().collect(),
        3..=4 => (0..nd).collect(),
        _ => r.perm(nd),
    };
    let plain = mode == 0 || mode == 3 || mode == 5;
    let kind: &'static str = match mode {
        0 => "c",
        3 => "f",
        5 => "perm",
        _ => "strided",
    };
    if mode == 9 && nd >= 2 {
        // C order with one adjacent swap
        order = (0..nd).rev().collect();
        let k = r.below(nd - 1);
        order.swap(k, k + 1);
    }
    let mut stride = vec![0isize; nd];
    let mut ext = 1usize; // next free stride
    let mut lo = 0isize; // most negative displacement
    let mut hi = 0isize;
    let negmode = !plain && r.chance(1, 3);
    for &a in &order {
        let n = shape[a];
        if bcast && !plain && n >= 1 && r.chance(1, 6) {
            stride[a] = 0;
            continue;
        }
        let mul = if plain { 1 } else { *r.pick(&[1usize, 1, 1, 1, 1, 2, 3]) };
        let pad = if plain || !r.chance(1, 4) { 0 } else { r.usize(1, 3) };
        let s = (ext + pad) * mul;
        let neg = negmode && r.bool();
        stride[a] = if neg { -(s as isize) } else { s as isize };
        if n >= 1 {
            let span = (n - 1) as isize * stride[a];
            if span < 0 {
                lo += span;
            } else {
                hi += span;
            }
            ext = s * n.max(1);
            if ext == 0 {
                ext = 1;
            }
        }
    }
    let lead = if plain && r.bool() { 0 } else { r.usize(0, 4) };
    let tail = if plain && r.bool() { 0 } else { r.usize(0, 4) };
    let (offset, len) = if total == 0 {
        // as flips of an empty array leave it: the offset of the other axes stays meaningful
        ((lead as isize - lo) as usize, (lead as isize - lo) as usize + tail)
    } else {
        let off = lead as isize - lo;
        (off as usize, (off + hi) as usize + 1 + tail)
    };
    Spec { shape: shape.to_vec(), stride, offset, len, kind }
}

/// Standard contiguous layout in the given order, no padding.
pub fn contig_spec(shape: &[usize], colm: bool) -> Spec {
    let nd = shape.len();
    let mut stride = vec![0isize; nd];
    let mut e = 1usize;
    let it: Vec<usize> = if colm { (0..nd).collect() } else { (0..nd).rev().collect() };
    for a in it {
        stride[a] = e as isize;
        e *= shape[a].max(1);
    }
    Spec { shape: shape.to_vec(), stride, offset: 0, len: shape.iter().product(), kind: "contig" }
}

/// A shape that broadcasts with `shape` (row-major alignment): drops leading axes, sets axes to 1.
pub fn gen_bcast_partner(r: &mut Rng, shape: &[usize]) -> Vec<usize> {
    let mut s = shape.to_vec();
    if r.chance(1, 3) {
        return s;
    }
    let drop = if r.chance(1, 3) { r.usize(0, s.len()) } else { 0 };
    s.drain(..drop);
    for v in s.iter_mut() {
        if r.chance(1, 3) {
            *v = 1;
        }
    }
    s
}

/// Two shapes that broadcast with each other.
pub fn gen_bcast_pair(r: &mut Rng, shape: &[usize], colm: bool) -> (Vec<usize>, Vec<usize>) {
    let base: Vec<usize> = if colm { shape.iter().rev().cloned().collect() } else { shape.to_vec() };
    let (mut a, mut b) = match r.below(4) {
        0 => (base.clone(), base.clone()),
        1 => (base.clone(), gen_bcast_partner(r, &base)),
        2 => (gen_bcast_partner(r, &base), base.clone()),
        _ => (gen_bcast_partner(r, &base), gen_bcast_partner(r, &base)),
    };
    if colm {
        a.reverse();
        b.reverse();
    }
    (a, b)
}
