//! C15: Savitzky-Golay coefficients and filtering against discrete orthogonal polynomials.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};

pub fn check() -> Check {
    Check {
        id: "C15",
        bounds: "every window 1..=25 (thorough 1..=61), even ones included for the coefficients, every order below it up to 9, every derivative up to order+1, five spacings, omitted arguments, f64 and f32 where the normal equations are well enough conditioned; filtering: every signal length 0..=2*window+3 for windows up to 13 with an impulse at every position, dense signals, polynomials of every degree, by-value / by-reference / filtered iterators; every rejected (window, order) pair up to 16x16",
        assumptions: &[
            "(window, order) pairs for which eps*(window/2)^order exceeds 1e-5 (f64) or 1e-3 (f32, orders up to 4) are not judged: the documentation says that the coefficients degrade there",
            "tolerance 1e-4 (f64) and 3e-3 (f32) of the sum of the absolute weights: the SVD of the linear algebra library is now and then that inaccurate",
            "coefficients are listed in convolution order (last sample of the window first), as in SciPy",
        ],
        scenarios,
    }
}

/// Weights w_i such that sum w_i y_i is the derivative `d` at the centre of the least-squares
/// polynomial of degree `p` through y at the positions (i - (n-1)/2)*h, in time order.
pub fn weights(n: usize, p: usize, d: usize, h: f64) -> Vec<f64> {
    if d > p {
        return vec![0.0; n];
    }
    let c = (n as f64 - 1.0) / 2.0;
    // scaled positions keep the recurrence in range
    let s = c.max(1.0);
    let x: Vec<f64> = (0..n).map(|i| (i as f64 - c) / s).collect();
    let mut out = vec![0.0; n];
    // orthonormal polynomials over the points by the Stieltjes procedure; the points are symmetric
    let (mut q0, mut q1) = (vec![0.0; n], vec![1.0 / (n as f64).sqrt(); n]);
    // derivatives at 0: t[j] is the j-th derivative of the polynomial
    let (mut t0, mut t1) = (vec![0.0; d + 1], vec![0.0; d + 1]);
    t1[0] = 1.0 / (n as f64).sqrt();
    let mut beta = 0.0;
    for k in 0..=p {
        for i in 0..n {
            out[i] += q1[i] * t1[d];
        }
        if k == p {
            break;
        }
        let mut q2: Vec<f64> = (0..n).map(|i| x[i] * q1[i] - beta * q0[i]).collect();
        let mut t2: Vec<f64> = (0..=d).map(|j| (if j > 0 { j as f64 * t1[j - 1] } else { 0.0 }) - beta * t0[j]).collect();
        let nb = q2.iter().map(|v| v * v).sum::<f64>().sqrt();
        for v in q2.iter_mut() {
            *v /= nb;
        }
        for v in t2.iter_mut() {
            *v /= nb;
        }
        beta = nb;
        q0 = q1;
        q1 = q2;
        t0 = t1;
        t1 = t2;
    }
    let f = (s * h).powi(d as i32);
    out.iter().map(|v| v / f).collect()
}
/// Conditioning of the power basis.
fn cond(n: usize, p: usize) -> f64 {
    ((n as f64 / 2.0).max(1.0)).powi(p as i32)
}
fn l1(w: &[f64]) -> f64 {
    w.iter().map(|v| v.abs()).sum()
}
fn opt<T: Flt>(ctx: &mut Ctx, d: usize) -> (Option<usize>, f64, Option<T>) {
    // omitted derivative means 0, omitted spacing means 1
    let dv = if d == 0 && ctx.flag() { None } else { Some(d) };
    let h = ctx.pick(&[None, Some(1.0), Some(0.5), Some(2.0), Some(0.01), Some(300.0)]);
    (dv, h.unwrap_or(1.0), h.map(T::of))
}
fn usable<T: Flt>(n: usize, p: usize) -> bool {
    T::EPS * cond(n, p) <= if T::EPS > 1e-10 { 1e-3 } else { 1e-5 } && (T::EPS < 1e-10 || p <= 4)
}
fn tolerance<T: Flt>(w: &[f64]) -> f64 {
    (if T::EPS > 1e-10 { 3e-3 } else { 1e-4 }) * l1(w) + 1e-300
}
fn coeffs<T: Flt>(lo: usize, hi: usize, pmax: usize) -> Scenario {
    sc(format!("coefficients-{}-{}", T::NAME, hi), move |ctx| {
        let n = ctx.range(lo, hi);
        let p = ctx.range(0, pmax.min(n - 1));
        if !usable::<T>(n, p) {
            return Err(Stop::Skip);
        }
        let d = ctx.range(0, p + 1);
        let (dv, h, hv) = opt::<T>(ctx, d);
        let what = format!("coefficients of window {} order {} derivative {:?} spacing {:?}", n, p, dv, hv);
        let y = tov(&ctx.must(&what, || savgol_coeffs_dyn::<T>(n, p, dv, hv))?);
        let mut w = weights(n, p, d, T::of(h).f());
        w.reverse();
        ctx.state(&y);
        ctx.note(|| format!("{}: {:?}", what, y));
        cmp(&what, &y, &w, tolerance::<T>(&w))
    })
}
fn apply(w: &[f64], x: &[f64]) -> Vec<f64> {
    let (n, h) = (x.len() as i64, (w.len() / 2) as i64);
    (0..n)
        .map(|i| (0..w.len() as i64).map(|j| w[j as usize] * x[(i + j - h).clamp(0, n - 1) as usize]).sum())
        .collect()
}
fn filter<T: Flt>(ctx: &mut Ctx, x: &[f64], n: usize, p: usize, dv: Option<usize>, hv: Option<T>, kind: usize) -> R<Vec<f64>> {
    let v: Vec<T> = ofv(x);
    let what = format!("filtering {} samples with window {} order {}", x.len(), n, p);
    let y = ctx.must(&what, || match kind {
        0 => savgol_filter_dyn::<_, T>(v.iter(), n, p, dv, hv),
        1 => savgol_filter_dyn::<_, T>(v.iter().copied(), n, p, dv, hv),
        2 => savgol_filter_dyn::<_, T>(v.clone().into_iter().filter(|_| true), n, p, dv, hv),
        _ => {
            // an iterator that knows nothing of its length
            let mut i = 0;
            savgol_filter_dyn::<_, T>(
                std::iter::from_fn(|| {
                    i += 1;
                    v.get(i - 1).copied()
                }),
                n,
                p,
                dv,
                hv,
            )
        }
    })?;
    Ok(tov(&y))
}
fn verdict<T: Flt>(ctx: &mut Ctx, x: &[f64], n: usize, p: usize, d: usize, dv: Option<usize>, h: f64, y: &[f64]) -> R {
    let w = weights(n, p, d, T::of(h).f());
    let want = apply(&w, x);
    ctx.state(y);
    let t = tolerance::<T>(&w) * maxabs(x);
    cmp(&format!("{} samples, window {}, order {}, derivative {:?}, spacing {}, {}", x.len(), n, p, dv, h, T::NAME), y, &want, t)
}
fn impulses<T: Flt>(wmax: usize, pmax: usize) -> Scenario {
    sc(format!("impulses-{}-{}", T::NAME, wmax), move |ctx| {
        let n = 1 + 2 * ctx.range(0, (wmax - 1) / 2);
        if n < 3 {
            // order 0 needs a window of at least 2
            return Err(Stop::Skip);
        }
        let p = ctx.range(0, pmax.min(n - 2));
        if !usable::<T>(n, p) {
            return Err(Stop::Skip);
        }
        let d = ctx.range(0, p.min(3));
        let len = ctx.range(0, 2 * n + 3);
        let kind = ctx.choose(2) * 3;
        ctx.note(|| format!("impulses in {} samples, window {} order {} derivative {}", len, n, p, d));
        if len == 0 {
            let y = filter::<T>(ctx, &[], n, p, Some(d), None, kind)?;
            ensure!(y.is_empty(), "filtering nothing gave {} samples", y.len());
            return Ok(());
        }
        for i in 0..len {
            let mut x = vec![0.0; len];
            x[i] = 1.0;
            let y = filter::<T>(ctx, &x, n, p, Some(d), None, kind)?;
            verdict::<T>(ctx, &x, n, p, d, Some(d), 1.0, &y)?;
        }
        Ok(())
    })
}
fn dense<T: Flt>(wmax: usize, pmax: usize) -> Scenario {
    sc(format!("dense-{}-{}", T::NAME, wmax), move |ctx| {
        let n = 3 + 2 * ctx.range(0, (wmax - 3) / 2);
        let p = ctx.range(0, pmax.min(n - 2));
        if !usable::<T>(n, p) {
            return Err(Stop::Skip);
        }
        let d = ctx.range(0, p + 1);
        let (dv, h, hv) = opt::<T>(ctx, d);
        let len = ctx.pick(&[1, 2, n / 2, n / 2 + 1, n - 1, n, n + 1, 3 * n + 5, 100]);
        let kind = ctx.choose(4);
        let x: Vec<f64> = (0..len.max(1)).map(|i| (pattern(i) * 8.0) as f32 as f64 + 2.0).collect();
        let y = filter::<T>(ctx, &x, n, p, dv, hv, kind)?;
        ctx.note(|| format!("window {} order {} derivative {:?} spacing {:?}: {:?} -> {:?}", n, p, dv, hv, &x[..x.len().min(5)], &y[..y.len().min(5)]));
        verdict::<T>(ctx, &x, n, p, d, dv, h, &y)
    })
}
/// Sample spacings of either sign and every magnitude, signals of every magnitude.
fn scales<T: Flt>(wmax: usize, pmax: usize) -> Scenario {
    sc(format!("scales-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let n = 3 + 2 * ctx.range(0, (wmax - 3) / 2);
        let p = ctx.range(0, pmax.min(n - 2));
        if !usable::<T>(n, p) {
            return Err(Stop::Skip);
        }
        let d = ctx.range(0, p);
        let h = ctx.pick(if single { &[-0.5, -1.0, -3.0, 1e-4, 4e-3, 1e3, -40.0, 1.0, 1.0005, 0.999] } else { &[-0.5, -1.0, -3.0, 1e-9, -1e-6, 1e-3, 1e4, 1e9, 1.0, 1.0005, 0.9999, 1.0 + 1e-6, 1.0 - 1e-9, -1.0 - 1e-4, 2.0005, 0.1] });
        let k = ctx.pick(if single { &[0, -40, 40, -24] } else { &[0, -300, -100, -53, 100, 300] });
        let what = format!("coefficients of window {} order {} derivative {} spacing {}", n, p, d, h);
        let y = tov(&ctx.must(&what, || savgol_coeffs_dyn::<T>(n, p, Some(d), Some(T::of(h))))?);
        let mut w = weights(n, p, d, T::of(h).f());
        w.reverse();
        cmp(&what, &y, &w, tolerance::<T>(&w))?;
        let x: Vec<f64> = (0..2 * n).map(|i| ((pattern(i) * 8.0) as f32 as f64 + 2.0) * 2f64.powi(k)).collect();
        let y = filter::<T>(ctx, &x, n, p, Some(d), Some(T::of(h)), 0)?;
        verdict::<T>(ctx, &x, n, p, d, Some(d), h, &y)
    })
}
/// Wide windows, whose weights are small.
fn wide<T: Flt>(wins: Vec<usize>) -> Scenario {
    sc(format!("wide-{}-{}", T::NAME, wins.len()), move |ctx| {
        let n = ctx.pick(&wins);
        let p = ctx.range(0, if T::EPS > 1e-10 { 2 } else { 4 });
        if !usable::<T>(n, p) {
            return Err(Stop::Skip);
        }
        let d = ctx.range(0, p);
        let h = ctx.pick(&[1.0, 0.01, 25.0]);
        let len = ctx.pick(&[5usize, 120, 400]);
        let x: Vec<f64> = match ctx.choose(3) {
            0 => (0..len).map(|i| (pattern(i) * 8.0) as f32 as f64).collect(),
            1 => (0..len).map(|i| i as f64).collect(),
            _ => (0..len).map(|i| if i == len / 3 { 1.0 } else { 0.0 }).collect(),
        };
        let y = filter::<T>(ctx, &x, n, p, Some(d), Some(T::of(h)), 0)?;
        verdict::<T>(ctx, &x, n, p, d, Some(d), h, &y)
    })
}
/// Polynomials up to the order are reproduced (and differentiated) away from the edges.
fn polynomials(wmax: usize, pmax: usize) -> Scenario {
    sc("polynomials", move |ctx| {
        let n = 3 + 2 * ctx.range(0, (wmax - 3) / 2);
        let p = ctx.range(0, pmax.min(n - 2));
        if !usable::<f64>(n, p) {
            return Err(Stop::Skip);
        }
        let g = ctx.range(0, p);
        let d = ctx.range(0, p);
        let h = ctx.pick(&[1.0, 0.25]);
        let len = 2 * n + 3;
        let c = (len / 2) as f64;
        let s = n as f64;
        // y(t) = ((t - c)/s)^g with t in samples
        let x: Vec<f64> = (0..len).map(|i| ((i as f64 - c) / s).powi(g as i32)).collect();
        let y = filter::<f64>(ctx, &x, n, p, Some(d), Some(h), 0)?;
        ctx.state(&y);
        ensure!(y.len() == len, "{} samples instead of {}", y.len(), len);
        let w = weights(n, p, d, h);
        for i in n / 2..len - n / 2 {
            let mut v = if d > g { 0.0 } else { ((i as f64 - c) / s).powi((g - d) as i32) };
            for k in 0..d.min(g) {
                v *= (g - k) as f64 / (s * h);
            }
            near(&format!("window {} order {} derivative {} of degree {} at {}", n, p, d, g, i), y[i], v, tolerance::<f64>(&w) * maxabs(&x).max(1.0) * 4.0)?;
        }
        Ok(())
    })
}
fn rejected(m: usize) -> Scenario {
    sc("rejected", move |ctx| {
        let n = ctx.range(0, m);
        let p = ctx.range(0, m);
        let len = ctx.pick(&[0usize, 1, 5, 40]);
        let x: Vec<f64> = (0..len).map(pattern).collect();
        let bad = n % 2 == 0 || n < p + 2;
        let what = format!("window {} order {} on {} samples", n, p, len);
        if bad {
            ctx.must_panic(&what, || savgol_filter_dyn::<_, f64>(x.iter(), n, p, None, None))?;
        } else {
            let y = ctx.must(&what, || savgol_filter_dyn::<_, f64>(x.iter(), n, p, None, None))?;
            ensure!(y.len() == len, "{}: {} samples", what, y.len());
        }
        if p >= n {
            ctx.must_panic(&format!("coefficients of window {} order {}", n, p), || savgol_coeffs_dyn::<f64>(n, p, None, None))?;
        } else {
            let y = ctx.must(&format!("coefficients of window {} order {}", n, p), || savgol_coeffs_dyn::<f64>(n, p, None, None))?;
            ensure!(y.len() == n, "{} coefficients for window {}", y.len(), n);
        }
        ctx.state_u((n * 1000 + p * 10 + len) as u128);
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        coeffs::<f64>(1, 25, 9),
        coeffs::<f32>(1, 25, 5),
        impulses::<f64>(13, 6),
        impulses::<f32>(9, 3),
        dense::<f64>(21, 7),
        dense::<f32>(11, 4),
        polynomials(21, 7),
        rejected(16),
        scales::<f64>(15, 6),
        scales::<f32>(9, 3),
    ];
    if t {
        v.push(coeffs::<f64>(26, 101, 9));
        v.push(coeffs::<f32>(26, 61, 5));
        v.push(impulses::<f64>(31, 6));
        v.push(dense::<f64>(61, 8));
        v.push(wide::<f64>(vec![99, 101, 103, 151, 201, 301]));
        v.push(wide::<f32>(vec![63, 101, 129]));
    }
    if l >= 2 {
        v.push(coeffs::<f64>(102, 301, 9));
        v.push(impulses::<f64>(61, 8));
        v.push(dense::<f64>(151, 9));
        v.push(polynomials(101, 9));
    }
    if l >= 3 {
        v.push(coeffs::<f64>(302, 801, 9));
        v.push(impulses::<f64>(121, 8));
        v.push(dense::<f64>(401, 9));
    }
    v
}
