//! C14: safe use never touches memory it may not touch, nor elements nobody wrote.
use rayon::prelude::*;
use rstsr_core::prelude::*;
use rstsr_core::tensor::exports::DiagonalArgs;
use vh::gen::small_only;
use vh::*;

/// Elements that know whether they were ever written: the allocator fills fresh memory with 0xFF
/// bytes and released memory with 0xFE.
pub trait Sane: Clone + std::fmt::Debug + Send + Sync + PartialEq + Default + 'static {
    const PLAIN: bool;
    fn make(r: &mut Rng) -> Self;
    fn sane(&self) -> bool;
}
impl Sane for i64 {
    const PLAIN: bool = true;
    fn make(r: &mut Rng) -> Self {
        r.below(100) as i64
    }
    fn sane(&self) -> bool {
        (0..1 << 52).contains(self)
    }
}
impl Sane for f64 {
    const PLAIN: bool = true;
    fn make(r: &mut Rng) -> Self {
        r.below(100) as f64
    }
    fn sane(&self) -> bool {
        (0.0..1e15).contains(self)
    }
}
impl Sane for [u16; 3] {
    const PLAIN: bool = true;
    fn make(r: &mut Rng) -> Self {
        [r.below(100) as u16, 7, r.below(100) as u16]
    }
    fn sane(&self) -> bool {
        self.iter().all(|&x| x < 100)
    }
}
impl Sane for String {
    const PLAIN: bool = false;
    fn make(r: &mut Rng) -> Self {
        format!("s{}", r.below(100))
    }
    fn sane(&self) -> bool {
        self.is_empty() || (self.len() < 5 && self.as_bytes()[0] == b's')
    }
}
impl Sane for Box<u32> {
    const PLAIN: bool = false;
    fn make(r: &mut Rng) -> Self {
        Box::new(r.below(100) as u32)
    }
    fn sane(&self) -> bool {
        **self < 100
    }
}

devices!("c14.rs");

fn raw_ty<E: Sane>(c: &mut Case) -> R {
    use rstsr_common::prelude_dev::*;
    let n = c.rng.usize(0, if small_only() { 200 } else { 600 });
    c.d(format!("{} {n}", std::any::type_name::<E>()));
    c.eval();
    c.nontrivial();
    // vectors of arrays and back, with room to spare in the vector
    let mut v: Vec<E> = Vec::with_capacity(n + c.rng.below(7));
    v.extend((0..n).map(|_| E::make(&mut c.rng)));
    let keep = v.clone();
    macro_rules! go {
        ($k:literal) => {{
            if n % $k != 0 {
                return Ok(());
            }
            let p: Vec<[E; $k]> = v.pack_array::<$k>();
            if !p.iter().flatten().eq(keep.iter()) {
                return fail("mem-pack", "elements changed".into());
            }
            let mut u: Vec<E> = p.unpack_array();
            if u != keep {
                return fail("mem-pack", "elements changed on the way back".into());
            }
            if c.rng.bool() {
                u.push(E::make(&mut c.rng));
                u.shrink_to_fit();
            }
        }};
    }
    match c.rng.below(4) {
        0 => go!(1),
        1 => go!(2),
        2 => go!(3),
        _ => go!(7),
    }
    // vectors whose elements are written later
    let m = c.rng.usize(0, 300);
    let u: Vec<std::mem::MaybeUninit<E>> = unsafe { uninitialized_vec(m) }.map_err(|e| Fail::from(format!("{e:?}")))?;
    if u.len() != m || u.capacity() < m || (u.as_ptr() as usize) % std::mem::align_of::<E>() != 0 {
        return fail("mem-alloc", format!("{m} elements: length {} capacity {}", u.len(), u.capacity()));
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Default)]
#[repr(align(128))]
pub struct Wide(u8);
impl Sane for Wide {
    const PLAIN: bool = true;
    fn make(r: &mut Rng) -> Self {
        Wide(r.below(100) as u8)
    }
    fn sane(&self) -> bool {
        self.0 < 100
    }
}
impl Sane for () {
    const PLAIN: bool = true;
    fn make(_: &mut Rng) -> Self {}
    fn sane(&self) -> bool {
        true
    }
}

/// Allocation of element buffers and their casts.
fn raw_case(c: &mut Case) -> R {
    match c.rng.below(6) {
        0 => raw_ty::<i64>(c),
        1 => raw_ty::<Wide>(c),
        2 => raw_ty::<()>(c),
        3 => raw_ty::<Box<u32>>(c),
        4 => {
            use rstsr_common::prelude_dev::*;
            // sizes whose number of bytes does not fit must be refused
            let n = *c.rng.pick(&[usize::MAX, usize::MAX / 8 + 200, usize::MAX / 4, 1 << 61, (1 << 61) + 200, isize::MAX as usize]);
            c.eval();
            c.d(format!("huge {n}"));
            match no_panic(|| unsafe { uninitialized_vec::<std::mem::MaybeUninit<i64>>(n) }) {
                Ok(Ok(v)) => {
                    std::mem::forget(v);
                    fail("mem-alloc", format!("{n} elements were granted"))
                },
                _ => Ok(()),
            }
        },
        _ => raw_ty::<String>(c),
    }
}

fn main() {
    if std::env::var("VH_MEM").is_err() {
        std::env::set_var("VH_MEM", "1");
    }
    main_check(Check {
        prop: "C14",
        level: "exploration",
        rule: "every case is a program of safe operations; distinct by shapes and operations",
        assumptions: &["calls marked unsafe and the functions named unchecked are out of scope"],
        families: vec![
            fam("move_serial", ser::move_case, 8000, 400000),
            fam("move_pool", par::move_case, 4000, 200000),
            fam("num_serial", ser::num_case, 8000, 400000),
            fam("num_pool", par::num_case, 4000, 200000),
            fam("raw", raw_case, 4000, 200000),
        ],
        workers: 8,
    })
}
