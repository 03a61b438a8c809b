//! C16: median, median absolute deviation and modified z-scores.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::stats::{median, median_abs_deviation, mod_zscore};

pub fn check() -> Check {
    Check {
        id: "C16",
        bounds: "all sequences up to length 6 (thorough 8) over a 4-letter alphabet with ties, signs and infinities, all permutations of 1..=7 (thorough 9) distinct values, nine adversarial orders of every length up to 70 (thorough 400) and lengths up to 5003, all ten integer types with extreme values, f32 and f64, by reference / by value / unsized iterators; every pair of successive calls leaves the input unchanged",
        assumptions: &["NaN is not data", "the mean of two middle integers is rounded towards zero, as in the documented example"],
        scenarios,
    }
}
/// Middle of the sorted data.
pub fn med(x: &[f64]) -> f64 {
    let mut s = x.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 {
        0.0
    } else if n % 2 == 1 {
        s[n / 2]
    } else {
        let (a, b) = (s[n / 2 - 1], s[n / 2]);
        if a == b {
            a
        } else {
            a / 2.0 + b / 2.0
        }
    }
}
fn kinds<T: Flt>(kind: usize, v: &[T]) -> ((T, usize), (T, usize), Vec<T>) {
    match kind {
        0 => (median(v.iter()), median_abs_deviation(v.iter()), mod_zscore(v.iter()).collect()),
        1 => (median(v.iter().copied()), median_abs_deviation(v.iter().copied()), mod_zscore(v.iter().copied()).collect()),
        3..=5 => {
            let it = loose(v, kind - 3);
            (median(it.clone()), median_abs_deviation(it.clone()), mod_zscore(it).collect())
        }
        _ => {
            let h = v.len() / 2;
            let it = v[..h].iter().filter(|_| true).chain(v[h..].iter());
            (median(it.clone()), median_abs_deviation(it.clone()), mod_zscore(it).collect())
        }
    }
}
fn verdict<T: Flt>(ctx: &mut Ctx, x: &[f64], kind: usize) -> R {
    let v: Vec<T> = ofv(x);
    let x = tov(&v);
    let before = v.clone();
    let n = x.len();
    let what = || format!("{} values {:?} ({}, iterator {})", n, &x[..n.min(12)], T::NAME, kind);
    let ((m, mc), (d, dc), z) = ctx.must("median", || kinds(kind, &v))?;
    ctx.note(|| format!("{} -> median {} MAD {} scores {:?}", what(), m.f(), d.f(), tov(&z[..z.len().min(6)])));
    ctx.state(&[m.f(), d.f(), mc as f64]);
    ensure!(v == before, "{}: the input changed", what());
    ensure!(mc == n && dc == n, "{}: counts {} and {}", what(), mc, dc);
    let e = 4.0 * T::EPS;
    let mr = med(&x);
    nearf(|| format!("median of {}", what()), m.f(), mr, if n % 2 == 1 { 0.0 } else { e * mr.abs() + e * T::min_positive_value().f() })?;
    ensure!(z.len() == n, "{}: {} scores", what(), z.len());
    if n == 0 {
        near("median absolute deviation of nothing", d.f(), 0.0, 0.0)?;
        return Ok(());
    }
    if x.iter().any(|v| !v.is_finite()) || maxabs(&x) > <T as num_traits::Float>::max_value().f() / 8.0 {
        return Ok(());
    }
    let big = maxabs(&x);
    let dev: Vec<f64> = x.iter().map(|v| (v - mr).abs()).collect();
    let dr = med(&dev);
    nearf(|| format!("MAD of {}", what()), d.f(), dr, e * big + e * T::min_positive_value().f())?;
    for i in 0..n {
        let u = x[i] - mr;
        let zr = u * 0.6745 / dr;
        if dr == 0.0 && d.f() == 0.0 {
            // undefined or infinite, as the formula is
            ensure!(z[i].f().is_nan() && u == 0.0 || z[i].f() == zr, "{}: score of element {} is {} instead of {}", what(), i, z[i].f(), zr);
        } else {
            let t = 16.0 * T::EPS * (big / dr) * (1.0 + zr.abs());
            nearf(|| format!("{}: score of element {}", what(), i), z[i].f(), zr, t)?;
        }
    }
    Ok(())
}
fn words<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("all-words-{}-{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(0, nmax);
        let a = ctx.pick(&[[1.0, 2.0, -3.5, 2.25], [0.0, -0.0, 1e-3, 7.0], [-1.0, 1e30, f64::INFINITY, f64::NEG_INFINITY], [1e6, 1e6 + 1.0, 1e6 + 2.0, 1e6 + 3.0]]);
        let x: Vec<f64> = (0..n).map(|_| ctx.pick(&a)).collect();
        verdict::<T>(ctx, &x, n % 3)
    })
}
fn permutations(nmax: usize) -> Scenario {
    sc(format!("all-permutations-{}", nmax), move |ctx| {
        let n = ctx.range(1, nmax);
        let mut rest: Vec<f64> = (0..n).map(|i| (i * i) as f64 - 3.0).collect();
        let mut x = vec![];
        while !rest.is_empty() {
            let i = ctx.choose(rest.len());
            x.push(rest.remove(i));
        }
        verdict::<f64>(ctx, &x, 0)
    })
}
fn orders(n: usize, kind: usize) -> Vec<f64> {
    let mut x: Vec<f64> = (0..n).map(|i| pattern(i)).collect();
    match kind {
        0 => {}
        1 => x.sort_by(|a, b| a.partial_cmp(b).unwrap()),
        2 => x.sort_by(|a, b| b.partial_cmp(a).unwrap()),
        3 => x.fill(-2.5),
        4 => x.iter_mut().enumerate().for_each(|(i, v)| *v = (i % 2) as f64),
        5 => x.iter_mut().enumerate().for_each(|(i, v)| *v = (i.min(n - 1 - i)) as f64),
        6 => x.iter_mut().enumerate().for_each(|(i, v)| *v = -((i.min(n - 1 - i)) as f64)),
        7 => x.iter_mut().enumerate().for_each(|(i, v)| *v = if i == n / 2 { -9.0 } else { ints(i, 2) as f64 }),
        _ => x.iter_mut().enumerate().for_each(|(i, v)| *v = ((i * 7919) % 1000) as f64 * 0.125),
    }
    x
}
fn adversarial<T: Flt>(lens: Vec<usize>) -> Scenario {
    sc(format!("orders-{}-{}", T::NAME, lens.len()), move |ctx| {
        let n = ctx.pick(&lens);
        let o = ctx.choose(9);
        if n > 8194 && (o == 5 || o == 6) {
            // quadratic time: see organ_pipe
            return Ok(());
        }
        let k = ctx.choose(3);
        verdict::<T>(ctx, &orders(n, o), k)
    })
}
/// The orders on which the selection discards a couple of elements at a time: it has to finish
/// without exhausting the stack or the memory.
fn organ_pipe() -> Scenario {
    sc("organ-pipe", move |ctx| {
        let n = ctx.pick(&[16385usize, 40001]);
        let o = ctx.pick(&[5usize, 6]);
        let x = orders(n, o);
        let (m, c) = ctx.must("median", || sci_rs::stats::median(x.iter()))?;
        ctx.state(&[n as f64, o as f64, m]);
        let mut s = x.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(m == s[n / 2] && c == n, "organ pipe of {} values (order {}): median {} of {} values instead of {}", n, o, m, c, s[n / 2]);
        Ok(())
    })
}
/// Long inputs of every magnitude, up to the largest values of the type.
fn scales<T: Flt>() -> Scenario {
    sc(format!("scales-{}", T::NAME), move |ctx| {
        let n = ctx.pick(&[1usize, 2, 5, 6, 16, 17, 33, 64, 65, 66, 100, 129, 257, 600]);
        let o = ctx.choose(9);
        let k = ctx.pick(if T::EPS > 1e-10 { &[-110, -60, -24, 24, 60, 100, 127] } else { &[-1000, -500, -100, -52, 52, 100, 500, 1023] });
        let x = orders(n, o);
        let m = maxabs(&x).max(1.0);
        // 127 and 1023 fill the whole range of the type
        let f = if k == 127 || k == 1023 { 0.75 / m } else { 1.0 };
        let off = if k == 127 || k == 1023 { ctx.pick(&[0.0, 0.999]) } else { ctx.pick(&[0.0, 40.0]) };
        let x: Vec<f64> = x.iter().map(|v| if off == 0.999 { (1.0 - (v * f).abs() / 8.0) * 2f64.powi(k) } else { (v * f + off) * 2f64.powi(k) }).collect();
        let kind = ctx.choose(2);
        verdict::<T>(ctx, &x, kind)
    })
}
/// Long integer inputs near the limits of the type.
fn long_integers() -> Scenario {
    sc("long-integers", move |ctx| {
        let ty = ctx.choose(6);
        let n = ctx.pick(&[6usize, 15, 16, 33, 64, 65, 66, 100, 127, 130, 257, 300, 1024, 4096, 4098, 8192]);
        let o = ctx.choose(6);
        macro_rules! go {
            ($t:ty) => {{
                let (lo, hi) = (<$t>::MIN, <$t>::MAX);
                let mut x: Vec<$t> = (0..n)
                    .map(|i| {
                        let j = ((i * 7919 + 3) % 11) as $t;
                        match o {
                            0 => hi - j,
                            1 => lo + j,
                            2 => if i % 2 == 0 { hi - j } else { lo + j },
                            3 => hi,
                            4 => hi / 2 + j,
                            _ => if i < n / 2 { hi } else { j },
                        }
                    })
                    .collect();
                if ctx.flag() {
                    x.sort();
                }
                let (m, c) = ctx.must("median", || median::<_, $t>(x.iter()))?;
                ctx.state_u(m as u128);
                let mut s: Vec<i128> = x.iter().map(|v| *v as i128).collect();
                s.sort();
                let want = if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2]) / 2 };
                ensure!((m as i128, c) == (want, n), "median of {} values {:?} ({}) is {:?} instead of {:?}", n, &x[..6], stringify!($t), (m, c), (want, n));
                Ok(())
            }};
        }
        match ty {
            0 => go!(i8),
            1 => go!(u8),
            2 => go!(i32),
            3 => go!(u16),
            4 => go!(i64),
            _ => go!(u64),
        }
    })
}
/// Integer medians, exact.
fn integers() -> Scenario {
    sc("integers", move |ctx| {
        let ty = ctx.choose(10);
        let n = ctx.range(0, 5);
        macro_rules! go {
            ($t:ty) => {{
                let al = [1 as $t, 4, <$t>::MIN, <$t>::MAX, <$t>::MIN / 2 + 3, <$t>::MAX - 2];
                let x: Vec<$t> = (0..n).map(|_| ctx.pick(&al)).collect();
                let (m, c) = ctx.must("median", || median::<_, $t>(x.iter()))?;
                ctx.note(|| format!("{} {:?} -> {} {}", stringify!($t), x, m, c));
                ctx.state_u(m as u128);
                let mut s = x.clone();
                s.sort();
                let want = if n == 0 {
                    0
                } else if n % 2 == 1 {
                    s[n / 2]
                } else {
                    let (a, b) = (s[n / 2 - 1], s[n / 2]);
                    // exact mean rounded towards zero
                    if a < 0 as $t && b > 0 as $t || a == b {
                        if a == b { a } else { (a + b) / 2 }
                    } else {
                        let (q, r) = ((a / 2) + (b / 2), (a % 2) + (b % 2));
                        q + r / 2
                    }
                };
                ensure!((m, c) == (want, n), "median of {:?} ({}) is {:?} instead of {:?}", x, stringify!($t), (m, c), (want, n));
                let (m2, c2) = ctx.must("median", || median::<_, $t>(x.iter().copied()))?;
                ensure!((m2, c2) == (m, c), "median of {:?} differs by iterator", x);
                Ok(())
            }};
        }
        match ty {
            0 => go!(i8),
            1 => go!(u8),
            2 => go!(i16),
            3 => go!(u16),
            4 => go!(i32),
            5 => go!(u32),
            6 => go!(i64),
            7 => go!(u64),
            8 => go!(isize),
            _ => go!(usize),
        }
    })
}
fn extremes<T: Flt>() -> Scenario {
    sc(format!("extremes-{}", T::NAME), move |ctx| {
        let n = ctx.range(0, 5);
        let m = <T as num_traits::Float>::max_value().f();
        let al = [m, -m, m / 2.0, T::min_positive_value().f(), 0.0, 1.0];
        let x: Vec<f64> = (0..n).map(|_| ctx.pick(&al)).collect();
        let v: Vec<T> = ofv(&x);
        let (y, c) = ctx.must("median", || median::<_, T>(v.iter()))?;
        ctx.state(&[y.f()]);
        let w = med(&tov(&v));
        ensure!(c == n && close(y.f(), w, 4.0 * T::EPS * w.abs() + 4.0 * T::min_positive_value().f()), "median of {:?} is {} ({}) instead of {}", x, y.f(), c, w);
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        words::<f64>(6),
        words::<f32>(6),
        permutations(7),
        adversarial::<f64>((0..=70).collect()),
        adversarial::<f32>((0..=70).collect()),
        adversarial::<f64>(vec![100, 127, 128, 129, 255, 256, 257, 1000, 1001, 5003]),
        integers(),
        extremes::<f64>(),
        extremes::<f32>(),
        scales::<f64>(),
        scales::<f32>(),
        long_integers(),
        organ_pipe(),
    ];
    if t {
        v.push(adversarial::<f64>(vec![1000, 1002, 1023, 1024, 1026, 2047, 2048, 2050, 4094, 4095, 4096, 4097, 4098, 5002, 8191, 8192, 8194, 16384, 32768, 65535, 65536, 65538, 100_000]));
        v.push(adversarial::<f32>(vec![128, 256, 258, 1000, 1024, 4095, 4096, 4098, 8192, 16384, 65536, 65538]));
        v.push(words::<f64>(8));
        v.push(permutations(9));
        v.push(adversarial::<f64>((71..=400).collect()));
    }
    if l >= 2 {
        v.push(words::<f64>(10));
        v.push(permutations(10));
        v.push(adversarial::<f64>((401..=1500).collect()));
    }
    if l >= 3 {
        v.push(words::<f64>(11));
        v.push(permutations(11));
        v.push(adversarial::<f64>((1501..=4000).collect()));
    }
    v
}
