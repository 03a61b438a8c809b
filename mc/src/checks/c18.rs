//! C18: autocorrelation, lagged differences and root mean squares against exact sums.
use super::c17::{moments, shape};
use super::c18_table::{AUTO, BAD, RMS};
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::stats::{autocorr, autocorr_fast32, lag_diff, rms_fast32, rmssd};

pub fn check() -> Check {
    Check {
        id: "C18",
        bounds: "autocorr: every lag 0..=n+2 of every length 1..=40 (thorough 1..=150) for eight shapes, f32/f64, all words up to length 6; autocorr_fast32: every (N, M, SKIP) with N <= 9 and a spread of sizes to 129 (about 350 instances) with an impulse at every position, eight shapes, dirty output buffers; lag_diff and rmssd: every length, all words up to length 6; rms_fast32: N = 1..=40 and block-edge sizes to 1003",
        assumptions: &["a signal without variance has no autocorrelation (0/0)", "rmssd of fewer than two samples and rms of none are not judged"],
        scenarios,
    }
}
pub type Ac = fn(&mut [f32], &mut [f32]) -> f32;
pub type Rm = fn(&[f32]) -> f32;
pub fn ac<const N: usize, const M: usize, const S: usize>(y: &mut [f32], x: &mut [f32]) -> f32 {
    let y: &mut [f32; N] = y.try_into().unwrap();
    let x: &mut [f32; M] = x.try_into().unwrap();
    autocorr_fast32::<N, M, S>(y, x)
}
pub fn rm<const N: usize>(y: &[f32]) -> f32 {
    let y: &[f32; N] = y.try_into().unwrap();
    rms_fast32::<N>(y)
}
/// Sum of products of deviations at a lag, and the sum of their magnitudes.
fn lagsum(dev: &[i128], k: usize, n: usize, unit: f64) -> (f64, f64) {
    let (mut s, mut a) = (0i128, 0i128);
    for i in 0..n.saturating_sub(k) {
        let p = dev[i] * dev[i + k];
        s += p;
        a += p.abs();
    }
    let f = unit * unit / (n as f64 * n as f64);
    (s as f64 * f, a as f64 * f)
}
fn one_auto<T: Flt>(ctx: &mut Ctx, v: &[i64], k: usize, kind: usize, unit: f64) -> R {
    let m = moments(v, unit);
    if m.var == 0.0 {
        return Err(Stop::Skip);
    }
    let n = v.len();
    let x: Vec<T> = v.iter().map(|a| T::of(*a as f64 * unit)).collect();
    let r = ctx.must("autocorr", || match kind {
        0 => autocorr(x.iter(), k),
        1 => autocorr(x.iter().copied(), k),
        3 => autocorr(loose(&x, 0), k),
        4 => autocorr(loose(&x, 1), k),
        _ => autocorr(x.iter().filter(|_| true), k),
    })?;
    ctx.note(|| format!("{:?} lag {} -> {}", &v[..n.min(10)], k, r.f()));
    ctx.state(&[r.f()]);
    let (s, _) = lagsum(&m.dev, k, n, unit);
    let want = s / n as f64 / m.var;
    let big = x.iter().fold(0.0f64, |q, w| q.max(w.f().abs()));
    let sd = m.var.sqrt();
    let c = (n as f64 + 8.0) * T::EPS * (2.0 + big / sd);
    nearf(|| format!("autocorrelation of {:?} at lag {} ({})", v, k, T::NAME), r.f(), want, 4.0 * c * (1.0 + want.abs()) + 4.0 * c * c)
}
fn auto<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("autocorr-{}-{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(1, nmax);
        let sh = ctx.choose(8);
        let off = ctx.pick(&[0i64, 700]);
        let kind = ctx.choose(5);
        let k = ctx.range(0, n + 2);
        let v: Vec<i64> = shape(n, sh, 50).iter().map(|x| x + off).collect();
        one_auto::<T>(ctx, &v, k, kind, 0.25)
    })
}
/// Lags at and beyond every width an implementation might squeeze them into, and signals longer than them.
fn far<T: Flt>() -> Scenario {
    sc(format!("autocorr-far-{}", T::NAME), |ctx| {
        let n = ctx.pick(&[3usize, 40, 257, 300, 1025]);
        let sh = ctx.choose(8);
        let kind = ctx.choose(5);
        let base = ctx.pick(&[0usize, 1 << 7, 1 << 8, 1 << 10, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 48, 1 << 63, usize::MAX - 5]);
        let k = base.saturating_add(ctx.range(0, 5)).saturating_sub(2);
        if base > 0 || n <= 40 {
            return one_auto::<T>(ctx, &shape(n, sh, 50), k, kind, 0.25);
        }
        one_auto::<T>(ctx, &shape(n, sh, 50), n - 1 - k.min(2), kind, 0.25)
    })
}
fn very_long() -> Scenario {
    sc("autocorr-very-long", |ctx| {
        let n = ctx.pick(&[65_535usize, 65_536, 65_537, 70_000]);
        let k = ctx.pick(&[0usize, 1, 2, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_998, 69_999]);
        let sh = ctx.choose(8);
        match ctx.choose(3) {
            0 => one_auto::<f64>(ctx, &shape(n, sh, 50), k, 0, 0.25),
            1 => one_auto::<f64>(ctx, &shape(n, sh, 50), k, 3, 0.25),
            _ => diffs_one::<f64>(ctx, &shape(n, sh, 900), if k % 2 == 0 { 0 } else { 4 }, 0.5),
        }
    })
}
fn auto_words() -> Scenario {
    sc("autocorr-all-words", move |ctx| {
        let n = ctx.range(1, 6);
        let v: Vec<i64> = (0..n).map(|_| ctx.pick(&[0i64, 1, -2, 9])).collect();
        let k = ctx.range(0, n + 1);
        one_auto::<f64>(ctx, &v, k, 0, 0.25)
    })
}
fn fast_one(ctx: &mut Ctx, e: &(usize, usize, usize, Ac), v: &[i64], unit: f64) -> R {
    let (n, m, skip, f) = *e;
    let mo = moments(v, unit);
    let mut y: Vec<f32> = v.iter().map(|a| (*a as f64 * unit) as f32).collect();
    let mut x: Vec<f32> = (0..m).map(|i| 1e6 + i as f32).collect();
    let var = ctx.must(&format!("autocorr_fast32 N={} M={} SKIP={}", n, m, skip), || f(&mut y, &mut x))?;
    ctx.state(&tov(&x));
    let eps = f32::EPSILON as f64;
    let big = v.iter().fold(0.0f64, |q, a| q.max((*a as f64 * unit).abs()));
    let sd = mo.var.sqrt();
    let dd = (n as f64 + 4.0) * eps * big;
    let tv = (n as f64 + 8.0) * eps * mo.var + 4.0 * dd * sd + dd * dd;
    nearf(|| format!("variance returned for N={} M={} SKIP={} {:?}", n, m, skip, v), var as f64, mo.var, tv)?;
    for i in 0..m {
        let (s, a) = lagsum(&mo.dev, skip + i, n, unit);
        let t = (n as f64 + 8.0) * eps * a + n as f64 * (4.0 * dd * sd + dd * dd);
        nearf(|| format!("N={} M={} SKIP={}: lag {} of {:?}", n, m, skip, skip + i, v), x[i] as f64, s, t)?;
    }
    Ok(())
}
fn fast() -> Scenario {
    sc("autocorr-fast32", move |ctx| {
        let e = &AUTO[ctx.choose(AUTO.len())];
        let n = e.0;
        let s = ctx.choose(10);
        ctx.note(|| format!("N={} M={} SKIP={} signal {}", e.0, e.1, e.2, s));
        if s < 8 {
            return fast_one(ctx, e, &shape(n, s, 40), 0.5);
        }
        for i in 0..n {
            let mut v = vec![if s == 8 { 0 } else { 3 }; n];
            v[i] += 64;
            fast_one(ctx, e, &v, 0.5)?;
        }
        Ok(())
    })
}
fn fast_bad() -> Scenario {
    sc("autocorr-fast32-rejected", move |ctx| {
        let e = &BAD[ctx.choose(BAD.len())];
        ctx.state_u((e.0 * 10000 + e.1 * 100 + e.2) as u128);
        ctx.must_panic(&format!("autocorr_fast32 with N={} M={} SKIP={}", e.0, e.1, e.2), || {
            let mut y: Vec<f32> = (0..e.0).map(|i| i as f32).collect();
            let mut x = vec![0.0; e.1];
            (e.3)(&mut y, &mut x)
        })
    })
}
fn diffs_one<T: Flt>(ctx: &mut Ctx, v: &[i64], kind: usize, unit: f64) -> R {
    let x: Vec<T> = v.iter().map(|a| T::of(*a as f64 * unit)).collect();
    let n = v.len();
    let (d, r) = ctx.must("lag_diff / rmssd", || match kind {
        0 => (lag_diff::<_, T>(x.iter()).collect::<Vec<T>>(), rmssd::<_, T>(x.iter())),
        1 => (lag_diff::<_, T>(x.iter().copied()).collect(), rmssd::<_, T>(x.iter().copied())),
        3 => (lag_diff::<_, T>(loose(&x, 0)).collect(), rmssd::<_, T>(loose(&x, 0))),
        4 => (lag_diff::<_, T>(loose(&x, 1)).collect(), rmssd::<_, T>(loose(&x, 1))),
        _ => (lag_diff::<_, T>(x.iter().filter(|_| true)).collect(), rmssd::<_, T>(x.iter().filter(|_| true))),
    })?;
    ctx.note(|| format!("{:?} -> {:?} rmssd {}", &v[..n.min(8)], tov(&d[..d.len().min(8)]), r.f()));
    ctx.state(&tov(&d));
    ensure!(d.len() == n.saturating_sub(1), "{} differences of {} samples", d.len(), n);
    let mut q = 0i128;
    for i in 0..d.len() {
        let e = v[i + 1] - v[i];
        q += (e as i128) * (e as i128);
        nearf(|| format!("difference {} of {:?}", i, v), d[i].f(), e as f64 * unit, T::EPS * unit * (e.abs() as f64))?;
    }
    if n >= 2 {
        let w = (q as f64 / (n - 1) as f64).sqrt() * unit;
        nearf(|| format!("rmssd of {:?}", v), r.f(), w, (n as f64 + 8.0) * T::EPS * w)?;
    }
    Ok(())
}
fn diffs<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("differences-{}-{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(0, nmax);
        let s = ctx.choose(8);
        let k = ctx.choose(3);
        diffs_one::<T>(ctx, &shape(n, s, 900), k, 0.5)
    })
}
fn diff_words() -> Scenario {
    sc("differences-all-words", move |ctx| {
        let n = ctx.range(0, 6);
        let v: Vec<i64> = (0..n).map(|_| ctx.pick(&[0i64, 1, -5, 1 << 20])).collect();
        diffs_one::<f64>(ctx, &v, n % 3, 0.5)
    })
}
/// Signals of every magnitude whose squares the type can represent.
fn scales<T: Flt>() -> Scenario {
    sc(format!("scales-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let e = ctx.pick(if single { &[-50, -40, -30, -25, -12, 12, 25, 40] } else { &[-450, -150, -60, -53, -40, -26, 26, 53, 150, 450] });
        let unit = 2f64.powi(e);
        let sh = ctx.choose(8);
        let off = ctx.pick(&[0i64, 5, 700]);
        let what = ctx.choose(3);
        match what {
            0 => {
                let n = ctx.range(1, 24);
                let k = ctx.range(0, n);
                let v: Vec<i64> = shape(n, sh, 50).iter().map(|x| x + off).collect();
                one_auto::<T>(ctx, &v, k, 0, unit)
            }
            1 => {
                let n = ctx.range(0, 24);
                let v: Vec<i64> = shape(n, sh, 50).iter().map(|x| x + off).collect();
                diffs_one::<T>(ctx, &v, 0, unit)
            }
            _ if single => {
                let a = &AUTO[ctx.choose(AUTO.len())];
                let v: Vec<i64> = shape(a.0, sh, 40).iter().map(|x| x + off).collect();
                fast_one(ctx, a, &v, unit)
            }
            _ => Err(Stop::Skip),
        }
    })
}
fn rms() -> Scenario {
    sc("rms-fast32", move |ctx| {
        let (n, f) = RMS[ctx.choose(RMS.len())];
        let s = ctx.choose(9);
        let unit = 2f64.powi(ctx.pick(&[-1, -55, -30, -12, 12, 30, 40]));
        let mut all: Vec<Vec<i64>> = vec![];
        if s < 8 {
            all.push(shape(n, s, 70));
        } else {
            for i in (0..n).step_by((n / 300).max(1)).chain(n.saturating_sub(5)..n) {
                let mut v = vec![0; n];
                v[i] = -7;
                all.push(v);
            }
        }
        for v in all {
            let y: Vec<f32> = v.iter().map(|a| *a as f32 * unit as f32).collect();
            let r = ctx.must("rms_fast32", || f(&y))? as f64;
            ctx.state(&[r, n as f64]);
            let q: i128 = v.iter().map(|a| *a as i128 * *a as i128).sum();
            let w = (q as f64 / n as f64).sqrt() * unit;
            nearf(|| format!("rms of {} samples {:?}", n, &v[..n.min(20)]), r, w, (n as f64 + 8.0) * f32::EPSILON as f64 * w)?;
        }
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        auto::<f64>(40),
        auto::<f32>(40),
        auto_words(),
        fast(),
        fast_bad(),
        diffs::<f64>(130),
        diffs::<f32>(130),
        diff_words(),
        rms(),
        scales::<f64>(),
        scales::<f32>(),
    ];
    if t {
        v.push(far::<f64>());
        v.push(far::<f32>());
        v.push(very_long());
        v.push(auto::<f64>(150));
        v.push(diffs::<f64>(1100));
    }
    if l >= 2 {
        v.push(auto::<f64>(500));
        v.push(diffs::<f64>(4000));
    }
    if l >= 3 {
        v.push(auto::<f64>(1100));
        v.push(diffs::<f64>(16000));
    }
    v
}
