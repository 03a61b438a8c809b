//! C17: mean, variance, standard deviation and z-scores against exact rational sums.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::stats::{mean, stdev, variance, zscore};

pub fn check() -> Check {
    Check {
        id: "C17",
        bounds: "all sequences up to length 6 (thorough 8) over three 4-letter alphabets, eight shapes of every length up to 100 (thorough 700) and lengths up to 5003, shifts 0 / 1e3 / 1e6 and scales 2^-20..2^20, all rotations and reversals, f32 and f64, seven iterator kinds (with exact, loose and absent size hints); integer means over six types",
        assumptions: &["reference sums are exact integers; tolerance c*n*eps relative to the terms of the two-pass formulas", "integer means are judged when the sum and the count are representable in the type"],
        scenarios,
    }
}
/// Exact moments of samples v_i / 2^20.
pub struct Mom {
    pub n: usize,
    pub mean: f64,
    pub var: f64,
    /// n*v_i - sum
    pub dev: Vec<i128>,
    pub unit: f64,
}
pub fn moments(v: &[i64], unit: f64) -> Mom {
    let n = v.len() as i128;
    let s: i128 = v.iter().map(|x| *x as i128).sum();
    let dev: Vec<i128> = v.iter().map(|x| n * *x as i128 - s).collect();
    // var = sum dev^2 / n^3
    let q: f64 = dev.iter().map(|d| (*d as f64) * (*d as f64)).sum();
    let nf = n.max(1) as f64;
    Mom { n: v.len(), mean: s as f64 / nf * unit, var: q / (nf * nf * nf) * unit * unit, dev, unit }
}
fn run<T: Flt>(kind: usize, v: &[T]) -> ((T, usize), (T, usize), (T, usize), Vec<T>) {
    macro_rules! go {
        ($i:expr) => {
            (mean($i), variance($i), stdev($i), zscore($i).collect())
        };
    }
    match kind {
        0 => go!(v.iter()),
        1 => go!(v.iter().copied()),
        2 => go!(v.iter().filter(|_| true)),
        4 => go!(loose(v, 0)),
        5 => go!(loose(v, 1)),
        6 => go!(loose(v, 2)),
        _ => {
            let h = v.len() / 3;
            go!(v[..h].iter().chain(v[h..].iter()))
        }
    }
}
fn verdict<T: Flt>(ctx: &mut Ctx, v: &[i64], unit: f64, kind: usize) -> R {
    let m = moments(v, unit);
    let x: Vec<T> = v.iter().map(|k| T::of(*k as f64 * unit)).collect();
    let n = m.n;
    let what = || format!("{} samples {:?} ({}, iterator {})", n, tov(&x[..n.min(8)]), T::NAME, kind);
    let ((a, ac), (b, bc), (s, scount), z) = ctx.must("statistics", || run(kind, &x))?;
    ctx.note(|| format!("{} -> mean {} variance {} deviation {}", what(), a.f(), b.f(), s.f()));
    ctx.state(&[a.f(), b.f(), s.f()]);
    ensure!(ac == n && bc == n && scount == n, "{}: counts {} {} {}", what(), ac, bc, scount);
    ensure!(z.len() == n, "{}: {} scores", what(), z.len());
    if n == 0 {
        ensure!(a.f() == 0.0 && b.f() == 0.0 && s.f() == 0.0, "empty input gives {} {} {}", a.f(), b.f(), s.f());
        return Ok(());
    }
    let big = x.iter().fold(0.0f64, |q, w| q.max(w.f().abs()));
    let ne = (n as f64 + 4.0) * T::EPS;
    let dmean = ne * big;
    nearf(|| format!("mean of {}", what()), a.f(), m.mean, dmean)?;
    let sd = m.var.sqrt();
    // two-pass: deviations carry the error of the mean and their own rounding
    let dd = dmean + T::EPS * big;
    let dvar = 4.0 * ne * m.var + 4.0 * sd * T::EPS * big + dd * dd;
    nearf(|| format!("variance of {}", what()), b.f(), m.var, dvar)?;
    ensure!(b.f() >= 0.0, "{}: negative variance {}", what(), b.f());
    nearf(|| format!("deviation of {}", what()), s.f(), sd, if sd > 0.0 { dvar / sd + 2.0 * T::EPS * sd } else { dvar.sqrt() })?;
    if m.var == 0.0 {
        if b.f() == 0.0 && a.f() == x[0].f() {
            ensure!(z.iter().all(|v| v.f().is_nan()), "{}: scores {:?} of a constant", what(), tov(&z));
        }
        return Ok(());
    }
    if dvar > 0.01 * m.var {
        return Ok(());
    }
    for i in 0..n {
        let want = m.dev[i] as f64 / n as f64 * m.unit / sd;
        let t = 2.0 * dd / sd + want.abs() * (2.0 * dvar / m.var + 4.0 * T::EPS) + 4.0 * T::EPS;
        nearf(|| format!("{}: score of sample {}", what(), i), z[i].f(), want, t)?;
    }
    Ok(())
}
fn words<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("all-words-{}-{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(0, nmax);
        let a = ctx.pick(&[[0i64, 1, -1, 5], [1000, 1001, 1003, -1000], [1 << 20, 1, 0, -(1 << 18)]]);
        let v: Vec<i64> = (0..n).map(|_| ctx.pick(&a)).collect();
        verdict::<T>(ctx, &v, 0.5, n % 7)
    })
}
pub fn shape(n: usize, k: usize, amp: i64) -> Vec<i64> {
    (0..n)
        .map(|i| match k {
            0 => ints(i, amp),
            1 => i as i64,
            2 => -(i as i64) * 3,
            3 => amp,
            4 => (i % 2) as i64 * amp,
            5 => if i == n / 2 { amp * 16 } else { 1 },
            6 => if i + 1 == n { -amp } else { 0 },
            _ => ((i * i) % 17) as i64 - 8,
        })
        .collect()
}
fn shapes<T: Flt>(name: &str, lens: Vec<usize>) -> Scenario {
    sc(format!("shapes-{}-{}", T::NAME, name), move |ctx| {
        let n = ctx.pick(&lens);
        let k = ctx.choose(8);
        let shift = ctx.pick(&[0i64, 1000, -1_000_000]);
        let unit = ctx.pick(&[1.0, 1.0 / 1048576.0, 1048576.0]);
        let kind = ctx.choose(5);
        let v: Vec<i64> = shape(n, k, 500).iter().map(|x| x + shift).collect();
        if T::EPS > 1e-10 && v.iter().any(|x| x.abs() > 1 << 24) {
            return Err(Stop::Skip);
        }
        verdict::<T>(ctx, &v, unit, kind)
    })
}
/// Data of every magnitude whose squares the type can represent.
fn scales<T: Flt>() -> Scenario {
    sc(format!("scales-{}", T::NAME), move |ctx| {
        let n = ctx.range(1, 40);
        let k = ctx.choose(8);
        let e = ctx.pick(if T::EPS > 1e-10 { &[-50, -40, -30, -25, -12, 12, 25, 40, 45] } else { &[-480, -300, -150, -80, -60, -53, -40, -26, 26, 53, 80, 150, 300, 480] });
        let shift = ctx.pick(&[0i64, 1000]);
        let v: Vec<i64> = shape(n, k, 500).iter().map(|x| x + shift).collect();
        let kind = ctx.choose(2);
        verdict::<T>(ctx, &v, 2f64.powi(e), kind)
    })
}
fn rotations() -> Scenario {
    sc("orders", move |ctx| {
        let n = ctx.range(2, 24);
        let k = ctx.choose(8);
        let r = ctx.choose(n);
        let rev = ctx.flag();
        let mut v = shape(n, k, 300);
        v.rotate_left(r);
        if rev {
            v.reverse();
        }
        verdict::<f64>(ctx, &v, 0.25, 0)
    })
}
fn integers() -> Scenario {
    sc("integer-means", move |ctx| {
        let ty = ctx.choose(6);
        let n = ctx.range(0, 5);
        macro_rules! go {
            ($t:ty, $al:expr) => {{
                let al: [$t; 4] = $al;
                let x: Vec<$t> = (0..n).map(|_| ctx.pick(&al)).collect();
                let s: i128 = x.iter().map(|v| *v as i128).sum();
                if s > <$t>::MAX as i128 || s < <$t>::MIN as i128 || x.iter().scan(0i128, |a, v| { *a += *v as i128; Some(*a) }).any(|p| p > <$t>::MAX as i128 || p < <$t>::MIN as i128) {
                    return Err(Stop::Skip);
                }
                let (m, c) = ctx.must("mean", || mean::<_, $t>(x.iter()))?;
                ctx.note(|| format!("{} {:?} -> {} {}", stringify!($t), x, m, c));
                ctx.state_u(m as u128);
                let want = if n == 0 { 0 } else { (s / n as i128) as $t };
                ensure!((m, c) == (want, n), "mean of {:?} is {:?} instead of {:?}", x, (m, c), (want, n));
                Ok(())
            }};
        }
        match ty {
            0 => go!(i8, [1, -7, 20, -25]),
            1 => go!(u8, [0, 1, 50, 37]),
            2 => go!(i32, [3, -4, i32::MAX / 6, i32::MIN / 6]),
            3 => go!(u32, [0, 5, u32::MAX / 6, 11]),
            4 => go!(i64, [1, -8, i64::MAX / 6, i64::MIN / 6]),
            _ => go!(usize, [0, 2, 9, usize::MAX / 8]),
        }
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let big = vec![127, 128, 129, 255, 256, 257, 1000, 1023, 4096, 5003];
    let mut v = vec![
        words::<f64>(6),
        words::<f32>(6),
        shapes::<f64>("small", (0..=100).collect()),
        shapes::<f32>("small", (0..=100).collect()),
        shapes::<f64>("big", big),
        rotations(),
        integers(),
        scales::<f64>(),
        scales::<f32>(),
    ];
    if t {
        v.push(shapes::<f64>("very-long", vec![8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 100_000, 131_072, 131_073]));
        v.push(shapes::<f32>("very-long", vec![1023, 1024, 1025, 4096, 32768, 65536, 65537]));
        v.push(words::<f64>(8));
        v.push(shapes::<f64>("medium", (101..=700).collect()));
        v.push(shapes::<f32>("medium", (101..=300).collect()));
    }
    if l >= 2 {
        v.push(words::<f64>(9));
        v.push(shapes::<f64>("long", (701..=3000).collect()));
    }
    if l >= 3 {
        v.push(words::<f64>(11));
        v.push(shapes::<f64>("huge", vec![1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]));
        v.push(shapes::<f64>("longer", (3001..=12000).collect()));
    }
    v
}
