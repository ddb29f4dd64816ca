//! C24: a printed array shows its elements, nested as its axes are; only long axes are abbreviated.
use rstsr_core::format::format_tensor::{MAX_PRINT, MIN_PRINT};
use rstsr_core::prelude::*;
use std::sync::atomic::Ordering::Relaxed;
use vh::*;

/// Brackets, elements and ellipses of a text.
fn tokens(s: &str) -> Vec<String> {
    s.replace('[', " [ ").replace(']', " ] ").split_whitespace().map(|x| x.to_string()).collect()
}
struct Want<'a> {
    m: &'a Nd<String>,
    max: usize,
    min: usize,
}
/// What remains of the tokens after the part of the array below `idx`.
fn follow<'t>(w: &Want, idx: &mut Vec<usize>, t: &'t [String], long: &mut bool) -> Result<&'t [String], String> {
    let k = idx.len();
    if k == w.m.ndim() {
        let want = tokens(w.m.at(idx));
        return match t.starts_with(&want) {
            true => Ok(&t[want.len()..]),
            false => Err(format!("{:?} stands for element {idx:?}, which is {want:?}", &t[..want.len().min(t.len())])),
        };
    }
    let n = w.m.shape[k];
    let Some(("[", mut t)) = t.first().map(|x| (x.as_str(), &t[1..])) else { return Err(format!("no bracket opens at {idx:?}: {:?}", t.first())) };
    let mut i = 0;
    while i < n {
        if t.first().is_some_and(|x| x == "...") {
            // some axes must be shown in full; what is left out is the middle
            if n < w.max || n <= 2 * w.min {
                return Err(format!("axis {k} of {n} is abbreviated at {idx:?}"));
            }
            if i != w.min {
                return Err(format!("axis {k} of {n} is abbreviated after {i} entries at {idx:?}"));
            }
            *long = true;
            t = &t[1..];
            i = n - w.min;
        }
        idx.push(i);
        t = follow(w, idx, t, long)?;
        idx.pop();
        i += 1;
    }
    match t.first() {
        Some(x) if x == "]" => Ok(&t[1..]),
        x => Err(format!("no bracket closes at {idx:?}: {x:?}")),
    }
}
fn judge(c: &mut Case, what: &str, text: &str, m: &Nd<String>, max: usize, min: usize, whole: bool) -> R {
    let t = tokens(text);
    if m.size() == 0 {
        let n = t.iter().take_while(|x| *x == "[" || *x == "]").count();
        ensure!(n >= 2 && (!whole || n == t.len()), "{what}: an empty array of shape {:?} is printed as {text:?}", m.shape);
        c.hit("empty");
        return Ok(());
    }
    let mut long = false;
    match follow(&Want { m, max, min }, &mut vec![], &t, &mut long) {
        Err(e) => bail!("{what}: shape {:?}: {e}; text {:?}", m.shape, text.chars().take(600).collect::<String>()),
        Ok(rest) => ensure!(!whole || rest.is_empty(), "{what}: shape {:?}: more follows: {rest:?}", m.shape),
    }
    // an axis far longer than what is shown does not fill the screen
    let too_long = m.shape.iter().any(|n| *n > max.max(2 * min + 1));
    ensure!(long == too_long || m.shape.iter().any(|n| *n >= max && *n <= max.max(2 * min + 1)), "{what}: shape {:?} is {}", m.shape, if long { "abbreviated" } else { "not abbreviated" });
    c.hit(if long { "abbreviated" } else { "in full" });
    Ok(())
}
fn shape(r: &mut Rng) -> Vec<usize> {
    let nd = r.usize(0, 5);
    let mut s: Vec<usize> = (0..nd)
        .map(|_| match r.below(10) {
            0 => 1,
            1..=4 => r.usize(2, 4),
            5 => r.usize(5, 7),
            6 => r.usize(8, 10),
            7 => r.usize(7, 20),
            8 => r.usize(20, 60),
            _ => if r.chance(1, 4) { 0 } else { 2 },
        })
        .collect();
    while s.iter().product::<usize>() > 6000 {
        let k = r.below(nd);
        s[k] = (s[k] / 2).max(1);
    }
    s
}
trait P: V + std::fmt::Display {}
impl<T: V + std::fmt::Display> P for T {}
#[allow(unused)]
trait PE: P + std::fmt::LowerExp + std::fmt::UpperExp {}
impl<T: P + std::fmt::LowerExp + std::fmt::UpperExp> PE for T {}

macro_rules! plain {
    ($c:ident, $t:expr, $m:ident, $max:ident, $min:ident) => {{
        let t = $t;
        match $c.rng.below(6) {
            0 => judge($c, "{}", &no_panic(|| format!("{}", t))?, &$m.map(|x| format!("{}", x).trim().to_string()), $max, $min, true)?,
            1 => judge($c, "{:9}", &no_panic(|| format!("{:9}", t))?, &$m.map(|x| format!("{:9}", x).trim().to_string()), $max, $min, true)?,
            2 => judge($c, "{:.2}", &no_panic(|| format!("{:.2}", t))?, &$m.map(|x| format!("{:.2}", x).trim().to_string()), $max, $min, true)?,
            3 => judge($c, "{:<12.4}", &no_panic(|| format!("{:<12.4}", t))?, &$m.map(|x| format!("{:<12.4}", x).trim().to_string()), $max, $min, true)?,
            _ => {
                let s = no_panic(|| format!("{:?}", t))?;
                let body = s.split_once("Print ===").map(|x| x.1).ok_or_else(|| format!("no head in {s:?}"))?;
                judge($c, "{:?}", body, &$m.map(|x| format!("{:?}", x)), $max, $min, false)?
            },
        }
    }};
}
macro_rules! expo {
    ($c:ident, $t:expr, $m:ident, $max:ident, $min:ident) => {{
        let t = $t;
        match $c.rng.below(6) {
            0 => judge($c, "{:e}", &no_panic(|| format!("{:e}", t))?, &$m.map(|x| format!("{:e}", x)), $max, $min, true)?,
            1 => judge($c, "{:.3E}", &no_panic(|| format!("{:.3E}", t))?, &$m.map(|x| format!("{:.3E}", x)), $max, $min, true)?,
            2 => judge($c, "{:14.5e}", &no_panic(|| format!("{:14.5e}", t))?, &$m.map(|x| format!("{:14.5e}", x).trim().to_string()), $max, $min, true)?,
            _ => plain!($c, t, $m, $max, $min),
        }
    }};
}
macro_rules! show {
    ($c:ident, $T:ty, $way:ident, $d:expr, $max:expr, $min:expr) => {{
        let (max, min) = ($max, $min);
        let r = &mut $c.rng;
        let sh = shape(r);
        let bc = r.chance(1, 6);
        let sp = if r.chance(1, 3) { contig_spec(&sh, r.bool()) } else { gen_layout(r, &sh, bc) };
        let raw: Vec<$T> = gen_raw(r, sp.len);
        let m = observe(&raw, &sh, &sp.stride, sp.offset)?;
        $c.d(format!("{} {sp} max {max} min {min}", stringify!($T)));
        $c.eval();
        if m.size() > 1 { $c.nontrivial(); }
        let keep = raw.clone();
        {
            let t = rt::asarray((&raw, lay(&sp), $d));
            match $c.rng.below(3) {
                0 => $way!($c, &t, m, max, min),
                1 => $way!($c, t.view(), m, max, min),
                _ => match sh.len() {
                    2 => $way!($c, t.to_dim::<Ix2>(), m, max, min),
                    3 => $way!($c, t.to_dim::<Ix3>(), m, max, min),
                    _ => $way!($c, t.to_owned(), m, max, min),
                },
            }
        }
        unchanged("printed array", &raw, &keep)
    }};
}
fn show_serial(c: &mut Case) -> R {
    let d = serial(c.rng.bool());
    match c.rng.below(6) {
        0 => show!(c, bool, plain, d, 8, 3),
        1 => show!(c, i32, expo, d, 8, 3),
        2 => show!(c, u8, expo, d, 8, 3),
        3 => show!(c, f32, expo, d, 8, 3),
        4 => show!(c, String, plain, d, 8, 3),
        _ => show!(c, f64, expo, d, 8, 3),
    }
}
fn show_pool(c: &mut Case) -> R {
    let d = faer(*c.rng.pick(&[1usize, 2, 4]), c.rng.clone().bool());
    match c.rng.below(3) {
        0 => show!(c, C64, plain, d, 8, 3),
        1 => show!(c, i64, expo, d, 8, 3),
        _ => show!(c, f64, expo, d, 8, 3),
    }
}
/// Other limits than the usual ones.
fn limits(c: &mut Case) -> R {
    let min = c.rng.usize(1, 4);
    let max = c.rng.usize(2 * min + 1, 2 * min + 6);
    let d = serial(c.rng.bool());
    MIN_PRINT.store(min, Relaxed);
    MAX_PRINT.store(max, Relaxed);
    let x = (|| show!(c, i32, expo, d, max, min))();
    MIN_PRINT.store(3, Relaxed);
    MAX_PRINT.store(8, Relaxed);
    x
}
/// Many rows.
fn large(c: &mut Case) -> R {
    let r = &mut c.rng;
    let nd = r.usize(3, 7);
    let mut sh: Vec<usize> = (0..nd).map(|_| *r.pick(&[5usize, 6, 7, 7, 9, 30])).collect();
    while sh.iter().product::<usize>() > 200000 {
        let k = r.below(nd);
        sh[k] = 2;
    }
    let sp = contig_spec(&sh, r.bool());
    let raw: Vec<i32> = (0..sp.len as i32).collect();
    let m = observe(&raw, &sh, &sp.stride, sp.offset)?;
    c.d(format!("{sp}"));
    c.eval();
    c.nontrivial();
    let t = rt::asarray((&raw, lay(&sp), serial(c.rng.bool())));
    let s = no_panic(|| format!("{t}"))?;
    judge(c, "{}", &s, &m.map(|x| x.to_string()), 8, 3, true)
}
fn main() {
    main_check(Check {
        prop: "C24",
        level: "exploration",
        rule: "a case counts when the array has at least two elements; distinct by type, layout, form and limits",
        assumptions: &[
            "blanks and line breaks are not judged",
            "an axis shorter than MAX_PRINT is shown in full; where an axis is abbreviated, its first and last MIN_PRINT entries are shown",
            "MAX_PRINT is larger than twice MIN_PRINT",
        ],
        families: vec![
            fam("serial", show_serial, 4000, 200000),
            fam("pool", show_pool, 2000, 100000),
            fam("limits", limits, 2000, 100000),
            fam("large", large, 60, 2000),
        ],
        workers: 1,
    })
}
