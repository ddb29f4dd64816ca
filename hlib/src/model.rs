//! Reference model: an n-dimensional array is a shape plus its elements listed in row-major
//! (last index fastest) logical order. Nothing here uses the library under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}

pub fn size_of(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// Calls f with each multi-index in row-major order.
pub fn for_idx(shape: &[usize], mut f: impl FnMut(&[usize])) {
    let n = size_of(shape);
    let mut idx = vec![0usize; shape.len()];
    for _ in 0..n {
        f(&idx);
        for k in (0..shape.len()).rev() {
            idx[k] += 1;
            if idx[k] < shape[k] {
                break;
            }
            idx[k] = 0;
        }
    }
}

/// Calls f with each multi-index in column-major (first index fastest) order.
pub fn for_idx_f(shape: &[usize], mut f: impl FnMut(&[usize])) {
    let n = size_of(shape);
    let mut idx = vec![0usize; shape.len()];
    for _ in 0..n {
        f(&idx);
        for k in 0..shape.len() {
            idx[k] += 1;
            if idx[k] < shape[k] {
                break;
            }
            idx[k] = 0;
        }
    }
}

pub fn ravel(shape: &[usize], idx: &[usize]) -> usize {
    let mut p = 0;
    for (n, i) in shape.iter().zip(idx) {
        p = p * n + i;
    }
    p
}

pub fn ravel_f(shape: &[usize], idx: &[usize]) -> usize {
    let mut p = 0;
    for (n, i) in shape.iter().zip(idx).rev() {
        p = p * n + i;
    }
    p
}

impl<T: Clone> Nd<T> {
    pub fn from_fn(shape: &[usize], mut f: impl FnMut(&[usize]) -> T) -> Self {
        let mut data = Vec::with_capacity(size_of(shape));
        for_idx(shape, |i| data.push(f(i)));
        Nd { shape: shape.to_vec(), data }
    }
    pub fn size(&self) -> usize {
        self.data.len()
    }
    pub fn ndim(&self) -> usize {
        self.shape.len()
    }
    pub fn at(&self, idx: &[usize]) -> &T {
        debug_assert!(idx.iter().zip(&self.shape).all(|(i, n)| i < n));
        &self.data[ravel(&self.shape, idx)]
    }
    pub fn set(&mut self, idx: &[usize], v: T) {
        let p = ravel(&self.shape, idx);
        self.data[p] = v;
    }
    pub fn map<U: Clone>(&self, f: impl FnMut(&T) -> U) -> Nd<U> {
        Nd { shape: self.shape.clone(), data: self.data.iter().map(f).collect() }
    }
    /// axes[k] = which input axis becomes output axis k
    pub fn permute(&self, axes: &[usize]) -> Nd<T> {
        let shape: Vec<usize> = axes.iter().map(|&a| self.shape[a]).collect();
        let mut src = vec![0; axes.len()];
        Nd::from_fn(&shape, |i| {
            for (k, &a) in axes.iter().enumerate() {
                src[a] = i[k];
            }
            self.at(&src).clone()
        })
    }
    pub fn reversed_axes(&self) -> Nd<T> {
        let axes: Vec<usize> = (0..self.ndim()).rev().collect();
        self.permute(&axes)
    }
    /// Row-major rule: axes are aligned at the end, size 1 axes are stretched.
    pub fn broadcast_to(&self, shape: &[usize]) -> Nd<T> {
        let d = shape.len() - self.ndim();
        let mut src = vec![0; self.ndim()];
        Nd::from_fn(shape, |i| {
            for k in 0..src.len() {
                src[k] = if self.shape[k] == 1 { 0 } else { i[k + d] };
            }
            self.at(&src).clone()
        })
    }
    /// Broadcast with the alignment of the given order (column-major aligns the first axes).
    pub fn broadcast_ord(&self, shape: &[usize], colm: bool) -> Nd<T> {
        if !colm {
            return self.broadcast_to(shape);
        }
        let rs: Vec<usize> = shape.iter().rev().cloned().collect();
        self.reversed_axes().broadcast_to(&rs).reversed_axes()
    }
    /// Elements listed in the given order.
    pub fn seq(&self, colm: bool) -> Vec<T> {
        if !colm {
            self.data.clone()
        } else {
            self.reversed_axes().data
        }
    }
    pub fn from_seq(shape: &[usize], seq: Vec<T>, colm: bool) -> Nd<T> {
        if !colm {
            Nd { shape: shape.to_vec(), data: seq }
        } else {
            let rs: Vec<usize> = shape.iter().rev().cloned().collect();
            Nd { shape: rs, data: seq }.reversed_axes()
        }
    }
    pub fn reshape(&self, shape: &[usize], colm: bool) -> Nd<T> {
        Nd::from_seq(shape, self.seq(colm), colm)
    }
}

/// Row-major broadcast of two shapes; None when they do not match.
pub fn bcast_shape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![0; n];
    for k in 0..n {
        let x = if k + a.len() >= n { a[k + a.len() - n] } else { 1 };
        let y = if k + b.len() >= n { b[k + b.len() - n] } else { 1 };
        out[k] = if x == y {
            x
        } else if x == 1 {
            y
        } else if y == 1 {
            x
        } else {
            return None;
        };
    }
    Some(out)
}

pub fn rev<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().rev().cloned().collect()
}

pub fn bcast_shape_ord(a: &[usize], b: &[usize], colm: bool) -> Option<Vec<usize>> {
    if colm {
        bcast_shape(&rev(a), &rev(b)).map(|s| rev(&s))
    } else {
        bcast_shape(a, b)
    }
}

/// Reads what a (shape, stride, offset) triple denotes over a flat buffer, with our own address
/// arithmetic. Err when an element lies outside the buffer.
pub fn observe<T: Clone>(raw: &[T], shape: &[usize], stride: &[isize], offset: usize) -> Result<Nd<T>, String> {
    let pos = positions(raw.len(), shape, stride, offset)?;
    Ok(Nd { shape: shape.to_vec(), data: pos.into_iter().map(|p| raw[p].clone()).collect() })
}

/// Flat positions of all elements in row-major logical order.
pub fn positions(len: usize, shape: &[usize], stride: &[isize], offset: usize) -> Result<Vec<usize>, String> {
    if shape.len() != stride.len() {
        return Err(format!("shape {shape:?} and stride {stride:?} differ in length"));
    }
    let mut total = 1usize;
    for &n in shape {
        total = total.checked_mul(n).ok_or_else(|| format!("shape {shape:?} overflows"))?;
    }
    if total > (1 << 28) {
        return Err(format!("shape {shape:?} is absurdly large"));
    }
    let mut out = Vec::with_capacity(total);
    let mut bad = None;
    for_idx(shape, |i| {
        if bad.is_some() {
            return;
        }
        let mut p = offset as i128;
        for (k, &ik) in i.iter().enumerate() {
            p += ik as i128 * stride[k] as i128;
        }
        if p < 0 || p >= len as i128 {
            bad = Some(format!(
                "element {i:?} of shape {shape:?} stride {stride:?} offset {offset} is at {p}, outside the buffer of {len}"
            ));
        } else {
            out.push(p as usize);
        }
    });
    match bad {
        Some(e) => Err(e),
        None => Ok(out),
    }
}

/// NumPy slice semantics for one axis: the list of selected positions.
pub fn slice_positions(n: usize, start: Option<i64>, stop: Option<i64>, step: i64) -> Vec<usize> {
    let n = n as i64;
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let clamp = |v: Option<i64>, def: i64| match v {
        None => def,
        Some(x) => {
            let x = if x < 0 { x + n } else { x };
            x.max(lo).min(hi)
        },
    };
    let (s, e) = if step > 0 { (clamp(start, 0), clamp(stop, n)) } else { (clamp(start, n - 1), clamp(stop, -1)) };
    let mut v = vec![];
    let mut x = s;
    while if step > 0 { x < e } else { x > e } {
        v.push(x as usize);
        x += step;
    }
    v
}
