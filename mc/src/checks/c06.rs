//! C06: expanding roots into polynomials and transfer functions.
use super::c05::{a_pairs, a_reals, multisets};
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::Complex;
use sci_rs::signal::filter::design::{poly_dyn, zpk2tf_dyn};

pub fn check() -> Check {
    Check {
        id: "C06",
        bounds: "every sequence (hence every order and multiplicity) of up to 6 Gaussian-integer roots from a 7-root alphabet, 9 real roots up to 7 long, powers up to degree 40, every pair of (zero, pole) multisets up to degree 4-5 with slack orders 0..=3, f32 and f64, real and complex root types",
        assumptions: &["transfer functions of root sets are conjugate-symmetric", "zpk2tf's order argument is at least the number of roots"],
        scenarios,
    }
}

/// Exact expansion over the Gaussian integers.
fn exact(roots: &[(i128, i128)]) -> Vec<(i128, i128)> {
    let mut a: Vec<(i128, i128)> = vec![(1, 0)];
    for &(x, y) in roots {
        let mut b = vec![(0, 0); a.len() + 1];
        for (i, &(p, q)) in a.iter().enumerate() {
            b[i].0 += p;
            b[i].1 += q;
            b[i + 1].0 -= p * x - q * y;
            b[i + 1].1 -= p * y + q * x;
        }
        a = b;
    }
    a
}

fn poly_complex<T: Flt>(ctx: &mut Ctx, roots: &[(i128, i128)]) -> R {
    let want = exact(roots);
    let big = roots.iter().fold(1.0, |m, r| m * (1.0 + (r.0 as f64).hypot(r.1 as f64)));
    let v: Vec<Complex<T>> = roots.iter().map(|r| Complex::new(T::of(r.0 as f64), T::of(r.1 as f64))).collect();
    let keep = v.clone();
    let got = ctx.must("poly_dyn", || poly_dyn(&v))?;
    ctx.note(|| format!("roots {:?} -> {:?}", roots, got));
    ensure!(keep == v, "roots were modified");
    ensure!(got.len() == roots.len() + 1, "{} coefficients for {} roots", got.len(), roots.len());
    // exact as long as every intermediate is representable
    let tol = if big < 0.25 / T::EPS { 0.0 } else { 8.0 * T::EPS * big };
    let mut obs = vec![];
    for i in 0..got.len() {
        near(&format!("roots {:?}: Re c{}", roots, i), got[i].re.f(), want[i].0 as f64, tol)?;
        near(&format!("roots {:?}: Im c{}", roots, i), got[i].im.f(), want[i].1 as f64, tol)?;
        obs.push(got[i].re.f());
        obs.push(got[i].im.f());
    }
    ctx.state(&obs);
    Ok(())
}
fn sequences<T: Flt>(maxlen: usize) -> Scenario {
    const CAT: [(i128, i128); 7] = [(0, 0), (1, 0), (-2, 0), (0, 1), (0, -1), (1, 2), (1, -2)];
    sc(format!("gaussian-sequences-{}-{}", T::NAME, maxlen), move |ctx| {
        let n = ctx.range(0, maxlen);
        let r: Vec<(i128, i128)> = (0..n).map(|_| ctx.pick(&CAT)).collect();
        poly_complex::<T>(ctx, &r)
    })
}
fn real_sequences<T: Flt>(maxlen: usize) -> Scenario {
    sc(format!("real-sequences-{}-{}", T::NAME, maxlen), move |ctx| {
        let n = ctx.range(0, maxlen);
        let r: Vec<i128> = (0..n).map(|_| ctx.pick(&[0i128, 1, -1, 2, -3, 5, -7])).collect();
        let want = exact(&r.iter().map(|x| (*x, 0)).collect::<Vec<_>>());
        let v: Vec<T> = r.iter().map(|x| T::of(*x as f64)).collect();
        let got = ctx.must("poly_dyn", || poly_dyn(&v))?;
        let big = r.iter().fold(1.0, |m, x| m * (1.0 + (*x as f64).abs()));
        let tol = if big < 0.25 / T::EPS { 0.0 } else { 8.0 * T::EPS * big };
        let w: Vec<f64> = want.iter().map(|x| x.0 as f64).collect();
        ctx.note(|| format!("roots {:?} -> {:?}", r, got));
        cmp(&format!("roots {:?}", r), &tov(&got), &w, tol)?;
        ctx.state(&tov(&got));
        Ok(())
    })
}
fn powers<T: Flt>() -> Scenario {
    sc(format!("powers-{}", T::NAME), move |ctx| {
        // (x - r)^n (x - conj r)^m in several orders, up to high degree
        let n = ctx.range(0, 20);
        let m = ctx.range(0, 20);
        let r = ctx.pick(&[(1i128, 0i128), (-1, 0), (0, 1), (1, 1), (2, -1)]);
        let order = ctx.choose(3);
        let mut v = vec![];
        match order {
            0 => {
                v.extend(vec![r; n]);
                v.extend(vec![(r.0, -r.1); m]);
            }
            1 => {
                v.extend(vec![(r.0, -r.1); m]);
                v.extend(vec![r; n]);
            }
            _ => {
                for i in 0..n.max(m) {
                    if i < n {
                        v.push(r);
                    }
                    if i < m {
                        v.push((r.0, -r.1));
                    }
                }
            }
        }
        poly_complex::<T>(ctx, &v)
    })
}

/// Hundreds of roots whose products stay exactly representable.
fn many<T: Flt>(maxn: usize) -> Scenario {
    const CYC: [&[(i128, i128)]; 5] = [&[(0, 0)], &[(1, 0), (0, 1), (-1, 0), (0, -1)], &[(1, 0), (-1, 0), (0, 0)], &[(0, 1), (0, 0), (0, 0), (0, -1), (0, 0)], &[(0, 1), (0, -1), (1, 0), (-1, 0), (0, 0), (0, 0), (0, 0)]];
    sc(format!("many-roots-{}", T::NAME), move |ctx| {
        let n = ctx.range(8, maxn);
        let k = ctx.choose(5);
        let nonzero = (0..n).filter(|i| CYC[k][i % CYC[k].len()] != (0, 0)).count();
        if nonzero > if T::EPS > 1e-10 { 20 } else { 90 } {
            return Err(Stop::Skip);
        }
        let r: Vec<(i128, i128)> = (0..n).map(|i| CYC[k][i % CYC[k].len()]).collect();
        poly_complex::<T>(ctx, &r)?;
        // as a transfer function: monic, the coefficients scaled by the gain
        let (conv, gain) = (r.iter().map(|x| Complex::new(T::of(x.0 as f64), T::of(x.1 as f64))).collect::<Vec<_>>(), 3.0);
        let other = conv[..n / 2].to_vec();
        let swap = ctx.flag();
        let (z, p) = if swap { (&other, &conv) } else { (&conv, &other) };
        let got = ctx.must("zpk2tf_dyn", || zpk2tf_dyn(n, z, p, T::of(gain)))?;
        ensure!(got.b.len() == n + 1 && got.a.len() == n + 1, "{} and {} coefficients for order {}", got.b.len(), got.a.len(), n);
        let both = |m: usize| -> Vec<f64> { let e = exact(&r[..m]); let mut v = vec![0.0; n - m]; v.extend(e.iter().map(|x| x.0 as f64)); v };
        let (zn, pn) = if swap { (n / 2, n) } else { (n, n / 2) };
        let big = 2f64.powi(nonzero as i32) * 4.0;
        let tol = if big < 0.25 / T::EPS { 0.0 } else { 8.0 * T::EPS * big };
        cmp("numerator", &tov(&got.b), &both(zn).iter().map(|x| x * gain).collect::<Vec<_>>(), tol)?;
        cmp("denominator", &tov(&got.a), &both(pn), tol)
    })
}
fn transfer<T: Flt>(ctx: &mut Ctx, z: &[C], p: &[C], k: f64, slack: usize) -> R {
    let conv = |v: &[C]| -> Vec<Complex<T>> { v.iter().map(|x| Complex::new(T::of(x.re), T::of(x.im))).collect() };
    let (zt, pt) = (conv(z), conv(p));
    let back = |v: &[Complex<T>]| -> Vec<C> { v.iter().map(|x| c(x.re.f(), x.im.f())).collect() };
    let (z, p) = (back(&zt), back(&pt));
    let k = T::of(k).f();
    let order = z.len().max(p.len()) + slack;
    let got = ctx.must("zpk2tf_dyn", || zpk2tf_dyn(order, &zt, &pt, T::of(k)))?;
    let (b, a) = (tov(&got.b), tov(&got.a));
    let what = || format!("{} order {} z={:?} p={:?} k={} -> b={:?} a={:?}", T::NAME, order, z, p, k, b, a);
    ctx.note(|| what());
    ensure!(b.len() == order + 1 && a.len() == order + 1, "{}: lengths {} and {} for order {}", what(), b.len(), a.len(), order);
    let lead = a.iter().find(|v| **v != 0.0).copied().unwrap_or(0.0);
    ensure!(lead == 1.0, "{}: denominator is not monic", what());
    for i in 0..order + 3 {
        let th = 0.4 + i as f64 * 2.39996;
        let rad = [1.1, 0.4, 2.7, 0.05, 12.0][i % 5];
        let s = c(rad * th.cos(), rad * th.sin());
        let prod = |v: &[C]| v.iter().fold((c(1.0, 0.0), 1.0), |(q, m), r| (q * (s - r), m * (cabs(s) + cabs(*r))));
        let (zn, zc) = prod(&z);
        let (pn, pc) = prod(&p);
        let lhs = polyval(&b, s) * pn;
        let rhs = polyval(&a, s) * zn * k;
        let scale = polycond(&b, s) * pc + polycond(&a, s) * zc * k.abs();
        ensure!(cabs(lhs - rhs) <= 200.0 * T::EPS * scale, "{}: at s={} H is {} instead of {}", what(), s, polyval(&b, s) / polyval(&a, s), zn * k / pn);
    }
    let mut obs = b.clone();
    obs.extend(a);
    ctx.state(&obs);
    Ok(())
}
fn tf<T: Flt>(dz: usize, dp: usize) -> Scenario {
    let zs = multisets(&a_reals(), &a_pairs(), dz);
    let ps = multisets(&a_reals(), &a_pairs(), dp);
    sc(format!("transfer-functions-{}-z{}p{}", T::NAME, dz, dp), move |ctx| {
        let zi = ctx.choose(zs.len());
        let pi = ctx.choose(ps.len());
        let slack = ctx.choose(3);
        let k = [1.0, -0.37, 250.0, 0.0][(zi + pi) % 4];
        transfer::<T>(ctx, &zs[zi], &ps[pi], k, slack)
    })
}
/// Zeros and poles on real scalars (the function is generic over the root type).
fn tf_real<T: Flt>() -> Scenario {
    sc(format!("real-transfer-functions-{}", T::NAME), move |ctx| {
        let nz = ctx.range(0, 3);
        let z: Vec<f64> = (0..nz).map(|_| ctx.pick(&[0.0, 1.0, -0.5])).collect();
        let np = ctx.range(0, 3);
        let p: Vec<f64> = (0..np).map(|_| ctx.pick(&[0.0, 0.75, -1.0])).collect();
        let slack = ctx.choose(2);
        let (zt, pt): (Vec<T>, Vec<T>) = (ofv(&z), ofv(&p));
        let order = nz.max(np) + slack;
        let got = ctx.must("zpk2tf_dyn", || zpk2tf_dyn(order, &zt, &pt, T::of(3.0)))?;
        let poly = |r: &[f64], k: f64| -> Vec<f64> {
            let mut a = vec![k];
            for x in r {
                let mut b = vec![0.0; a.len() + 1];
                for i in 0..a.len() {
                    b[i] += a[i];
                    b[i + 1] -= a[i] * x;
                }
                a = b;
            }
            a
        };
        // same transfer function: both padded the same way
        let (b, a) = (tov(&got.b), tov(&got.a));
        ensure!(b.len() == order + 1 && a.len() == order + 1, "lengths {} {} for order {}", b.len(), a.len(), order);
        for i in 0..order + 3 {
            let s = c(0.3 + 0.9 * i as f64, 0.7 - 0.4 * i as f64);
            let l = polyval(&b, s) * polyval(&poly(&p, 1.0), s);
            let r = polyval(&a, s) * polyval(&poly(&z, 3.0), s);
            ensure!(cabs(l - r) <= 100.0 * T::EPS * (polycond(&b, s) * polycond(&poly(&p, 1.0), s) + 1.0), "z={:?} p={:?}: {:?}", z, p, got);
        }
        ctx.state(&b);
        Ok(())
    })
}
fn tf_orders(deg: usize) -> Scenario {
    let ps = multisets(&a_reals()[..4], &a_pairs()[..3], deg);
    sc(format!("transfer-input-orders-{}", deg), move |ctx| {
        let set = ctx.pick(&ps);
        let mut rest = set.clone();
        let mut v = vec![];
        while !rest.is_empty() {
            let i = ctx.choose(rest.len());
            v.push(rest.remove(i));
        }
        if ctx.flag() {
            transfer::<f64>(ctx, &v, &[c(-0.5, 0.0)], 1.5, 0)
        } else {
            transfer::<f64>(ctx, &[c(-0.5, 0.0)], &v, 1.5, 0)
        }
    })
}

/// Roots of every magnitude: scaling the roots by 2^k scales coefficient i by exactly 2^(k i).
fn scaled<T: Flt>(maxlen: usize) -> Scenario {
    const CAT: [(i128, i128); 7] = [(0, 0), (1, 0), (-2, 0), (0, 1), (0, -1), (1, 2), (1, -2)];
    sc(format!("scaled-roots-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let n = ctx.range(1, maxlen);
        let k: i32 = ctx.pick(if single { &[-30, -24, -13, -6, 13, 24, 30] } else { &[-200, -120, -90, -66, -60, -53, -40, -26, -13, 13, 26, 40, 60, 90, 200] });
        let r: Vec<(i128, i128)> = (0..n).map(|_| ctx.pick(&CAT)).collect();
        if n as i32 * (k.abs() + 3) > (if single { 120 } else { 1000 }) {
            return Err(Stop::Skip);
        }
        let want = exact(&r);
        let f = 2f64.powi(k);
        let v: Vec<Complex<T>> = r.iter().map(|r| Complex::new(T::of(r.0 as f64 * f), T::of(r.1 as f64 * f))).collect();
        let got = ctx.must("poly_dyn", || poly_dyn(&v))?;
        ctx.note(|| format!("roots {:?} * 2^{} -> {:?}", r, k, got));
        ensure!(got.len() == n + 1, "{} coefficients for {} roots", got.len(), n);
        for i in 0..=n {
            let g = f.powi(i as i32);
            nearf(|| format!("roots {:?} * 2^{}: Re c{}", r, k, i), got[i].re.f(), want[i].0 as f64 * g, 0.0)?;
            nearf(|| format!("roots {:?} * 2^{}: Im c{}", r, k, i), got[i].im.f(), want[i].1 as f64 * g, 0.0)?;
        }
        ctx.state(&got.iter().flat_map(|z| [z.re.f(), z.im.f()]).collect::<Vec<_>>());
        if r.iter().all(|x| x.1 == 0) {
            let v: Vec<T> = r.iter().map(|r| T::of(r.0 as f64 * f)).collect();
            let got = ctx.must("poly_dyn", || poly_dyn(&v))?;
            let w: Vec<f64> = (0..=n).map(|i| want[i].0 as f64 * f.powi(i as i32)).collect();
            cmp(&format!("real roots {:?} * 2^{}", r, k), &tov(&got), &w, 0.0)?;
        }
        // the numerator and the denominator alike (conjugate-symmetric sets only have real coefficients)
        if want.iter().all(|x| x.1 == 0) {
            let tf = ctx.must("zpk2tf_dyn", || zpk2tf_dyn(n, &v, &v, T::of(0.5)))?;
            let w: Vec<f64> = (0..=n).map(|i| want[i].0 as f64 * f.powi(i as i32)).collect();
            cmp(&format!("denominator of roots {:?} * 2^{}", r, k), &tov(&tf.a), &w, 0.0)?;
            let w: Vec<f64> = w.iter().map(|v| v * 0.5).collect();
            cmp(&format!("numerator of roots {:?} * 2^{}", r, k), &tov(&tf.b), &w, 0.0)?;
        }
        Ok(())
    })
}
/// Roots of very different magnitudes: the constant coefficient is their product to relative rounding.
fn spread<T: Flt>() -> Scenario {
    sc(format!("spread-roots-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let al: &[f64] = if single { &[1.0, -3.0, 1e-3, -1e-9, 1e6, -2e-12] } else { &[1.0, -3.0, 1e-5, -1e-20, 3e-40, 1e9, -2e25, 1e-70] };
        let n = ctx.range(1, 4);
        let r: Vec<f64> = (0..n).map(|_| ctx.pick(al)).collect();
        let pairs = ctx.range(0, n); // that many roots are imaginary
        let prod: f64 = r.iter().map(|x| T::of(*x).f().abs()).product();
        if prod < <T as num_traits::Float>::min_positive_value().f() / T::EPS || prod > <T as num_traits::Float>::max_value().f() * 1e-3 {
            return Err(Stop::Skip);
        }
        let v: Vec<Complex<T>> = r.iter().enumerate().map(|(i, x)| if i < pairs { Complex::new(T::of(0.0), T::of(*x)) } else { Complex::new(T::of(*x), T::of(0.0)) }).collect();
        let got = ctx.must("poly_dyn", || poly_dyn(&v))?;
        ctx.note(|| format!("roots {:?} -> {:?}", v, got));
        let mut w = c(1.0, 0.0);
        for x in &v {
            w *= c(-x.re.f(), -x.im.f());
        }
        let g = c(got[n].re.f(), got[n].im.f());
        ctx.state(&[g.re, g.im]);
        ensure!(cabs(g - w) <= 8.0 * n as f64 * T::EPS * cabs(w), "roots {:?}: constant coefficient {} instead of {}", v, g, w);
        Ok(())
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        sequences::<f64>(if t { 7 } else { 6 }),
        sequences::<f32>(5),
        real_sequences::<f64>(if t { 7 } else { 6 }),
        real_sequences::<f32>(5),
        powers::<f64>(),
        powers::<f32>(),
        many::<f64>(300),
        many::<f32>(150),
        tf::<f64>(if t { 5 } else { 4 }, 5),
        tf::<f32>(3, 4),
        tf_real::<f64>(),
        tf_real::<f32>(),
        tf_orders(if t { 6 } else { 5 }),
        scaled::<f64>(if t { 5 } else { 4 }),
        scaled::<f32>(4),
        spread::<f64>(),
        spread::<f32>(),
    ];
    if l >= 2 {
        v.push(sequences::<f64>(8));
        v.push(real_sequences::<f64>(9));
        v.push(tf::<f64>(6, 6));
        v.push(tf_orders(7));
    }
    if l >= 3 {
        v.push(sequences::<f64>(9));
        v.push(tf::<f64>(7, 7));
        v.push(tf_orders(8));
    }
    v
}
