//! C12: band transforms and the bilinear map.
use super::c05::{a_pairs, a_reals, multisets};
use super::design::{bad_lp2bs, bad_lp2hp, Zpk};
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::Complex;
use sci_rs::signal::filter::design::*;

pub fn check() -> Check {
    Check {
        id: "C12",
        bounds: "every pair of conjugate-symmetric (zero, pole) multisets up to degree 4 and 5 (6 in thorough) over 5-6 real roots and 5 conjugate pairs, all five transforms, parameter grids (and omitted parameters), 12 complex test points each, every input order of small sets, degrees up to 300, f64; a sub-grid in f32",
        assumptions: &["roots are conjugate-symmetric; no root at the origin for the inverting transforms and none at 2*fs for the bilinear map", "the recorded defect of the high-pass and band-stop transforms with finite zeros is accepted only when the result is exactly the recorded one"],
        scenarios,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tr {
    Lp,
    Hp,
    Bp,
    Bs,
    Bilinear,
}
const PTS: [(f64, f64); 12] = [
    (0.7, 0.9), (-0.35, 1.21), (0.61, -0.23), (2.3, 0.1), (-1.4, -0.6), (0.13, 0.11), (0.0, 1.0), (0.0, -2.7), (5.0, 3.0), (0.2, -3.1), (0.0, 0.31), (11.0, -20.0),
];

fn apply<T: Flt>(t: Tr, q: &Zpk, a: Option<f64>, b: Option<f64>) -> Zpk {
    let conv = |v: &[C]| -> Vec<Complex<T>> { v.iter().map(|x| Complex::new(T::of(x.re), T::of(x.im))).collect() };
    let z = ZpkFormatFilter::new(conv(&q.z), conv(&q.p), T::of(q.k));
    let (a, b) = (a.map(T::of), b.map(T::of));
    let r = match t {
        Tr::Lp => lp2lp_zpk_dyn(z, a),
        Tr::Hp => lp2hp_zpk_dyn(z, a),
        Tr::Bp => lp2bp_zpk_dyn(z, a, b),
        Tr::Bs => lp2bs_zpk_dyn(z, a, b),
        Tr::Bilinear => bilinear_zpk_dyn(z, a.unwrap()),
    };
    Zpk {
        z: r.z.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
        p: r.p.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
        k: r.k.f(),
    }
}
fn sub(t: Tr, s: C, a: f64, b: f64) -> C {
    match t {
        Tr::Lp => s / a,
        Tr::Hp => c(a, 0.0) / s,
        Tr::Bp => (s * s + a * a) / (s * b),
        Tr::Bs => s * b / (s * s + a * a),
        Tr::Bilinear => (s - 1.0) / (s + 1.0) * (2.0 * a),
    }
}
fn cond(q: &Zpk, s: C) -> f64 {
    q.z.iter().chain(&q.p).map(|r| (cabs(s) + cabs(*r)) / cabs(s - r)).sum::<f64>() + 4.0
}
fn agrees<T: Flt>(t: Tr, q: &Zpk, r: &Zpk, a: f64, b: f64, reference: &dyn Fn(C) -> C) -> Result<usize, String> {
    // cancellation in x - sqrt(x^2 - wo^2)
    let mut amp = 1.0;
    if matches!(t, Tr::Bp | Tr::Bs) {
        for x in q.p.iter().chain(&q.z) {
            let m = if t == Tr::Bp { cabs(*x) * b / 2.0 } else { b / 2.0 / cabs(*x) };
            amp += 2.0 * (m / a).powi(2);
        }
    }
    let mut used = 0;
    for (x, y) in PTS {
        let sc = match t {
            Tr::Bilinear => 1.0,
            _ => a,
        };
        let s = if t == Tr::Bilinear { c(x * 1.1, y) } else { c(x * sc, y * sc) };
        let u = sub(t, s, a, b);
        let w = reference(s);
        let g = r.h(s);
        // near the pole of the map itself nothing can be compared
        let size = q.p.iter().chain(&q.z).fold(1.0f64, |m, x| m.max(cabs(*x)));
        if !(cabs(u) < 1e6 * size) {
            continue;
        }
        let cd = cond(q, u) + cond(r, s);
        let tol = if T::EPS > 1e-10 { 20.0 } else { 200.0 } * T::EPS * amp * cd;
        if !(tol < 1e-2) {
            continue;
        }
        used += 1;
        let m = cabs(w).max(cabs(g));
        if !(cabs(w - g) <= tol * m) {
            return Err(format!("at {} H is {} instead of {}", s, g, w));
        }
    }
    Ok(used)
}
fn one<T: Flt>(ctx: &mut Ctx, t: Tr, q: &Zpk, pa: Option<f64>, pb: Option<f64>) -> R {
    // the values as the implementation sees them
    let rd = |v: &[C]| -> Vec<C> { v.iter().map(|x| c(T::of(x.re).f(), T::of(x.im).f())).collect() };
    let q = &Zpk { z: rd(&q.z), p: rd(&q.p), k: T::of(q.k).f() };
    let what = format!("{:?} {} wo/fs={:?} bw={:?} of {:?}", t, T::NAME, pa, pb, q);
    let r = ctx.call(|| apply::<T>(t, q, pa, pb));
    if q.z.len() > q.p.len() {
        ctx.state_u(q.z.len() as u128);
        ensure!(r.is_err(), "{}: more zeros than poles was not rejected", what);
        return Ok(());
    }
    let r = match r {
        Ok(r) => r,
        Err(m) => return fail(format!("{}: panicked: {}", what, m)),
    };
    ctx.note(|| format!("{} -> {:?}", what, r));
    let (a, b) = (T::of(pa.unwrap_or(1.0)).f(), T::of(pb.unwrap_or(1.0)).f());
    let (nz, np) = (q.z.len(), q.p.len());
    let deg = np - nz;
    let (wz, wp) = match t {
        Tr::Lp => (nz, np),
        Tr::Hp | Tr::Bilinear => (np, np),
        Tr::Bp => (2 * nz + deg, 2 * np),
        Tr::Bs => (2 * np, 2 * np),
    };
    ensure!(r.z.len() == wz && r.p.len() == wp, "{}: {} zeros and {} poles instead of {} and {}: {:?}", what, r.z.len(), r.p.len(), wz, wp, r);
    ensure!(r.k.is_finite() && r.z.iter().chain(&r.p).all(|v| v.re.is_finite() && v.im.is_finite()), "{}: non-finite {:?}", what, r);
    let mut obs: Vec<f64> = r.z.iter().chain(&r.p).flat_map(|v| [v.re, v.im]).collect();
    obs.push(r.k);
    ctx.state(&obs);
    match agrees::<T>(t, q, &r, a, b, &|s| q.h(sub(t, s, a, b))) {
        Ok(_) => Ok(()),
        Err(m) => {
            if nz > 0 && matches!(t, Tr::Hp | Tr::Bs) {
                let bad = if t == Tr::Hp { bad_lp2hp(q, a) } else { bad_lp2bs(q, a, b) };
                // poles must still be right: compare the pole polynomial alone
                let poles_only = |x: &Zpk| Zpk { z: vec![], p: x.p.clone(), k: 1.0 };
                let pq = poles_only(&bad);
                let pr = poles_only(&r);
                let same = agrees::<T>(t, q, &r, a, b, &|s| bad.h(s)).is_ok() && agrees::<T>(t, q, &pr, a, b, &|s| pq.h(s)).is_ok();
                if same {
                    let key = if t == Tr::Hp { "lp2hp-finite-zeros" } else { "lp2bs-finite-zeros" };
                    return ctx.known("C12", key, format!("{}: {}; result {:?}", what, m, r));
                }
            }
            fail(format!("{}: {}; result {:?}", what, m, r))
        }
    }
}

fn params(ctx: &mut Ctx, t: Tr, few: bool) -> (Option<f64>, Option<f64>) {
    let wo: &[Option<f64>] = if few { &[Some(2.0), None] } else { &[Some(2.0), None, Some(1.0), Some(0.05), Some(300.0)] };
    match t {
        Tr::Lp | Tr::Hp => (ctx.pick(wo), None),
        Tr::Bp | Tr::Bs => {
            let bw: &[Option<f64>] = if few { &[Some(0.5)] } else { &[Some(0.5), None, Some(3.0), Some(0.01)] };
            let a = ctx.pick(wo);
            let b = ctx.pick(bw);
            // the bandwidth scales with the centre
            (a, b.map(|x| x * a.unwrap_or(1.0)))
        }
        Tr::Bilinear => (ctx.pick(if few { &[Some(2.0)] } else { &[Some(2.0), Some(0.5), Some(48.0), Some(1000.0)] }), None),
    }
}
fn usable(t: Tr, q: &Zpk, fs: Option<f64>) -> bool {
    match t {
        Tr::Hp | Tr::Bs => q.z.iter().chain(&q.p).all(|x| cabs(*x) > 0.0),
        Tr::Bilinear => q.z.iter().chain(&q.p).all(|x| cabs(*x - 2.0 * fs.unwrap()) > 0.5),
        _ => true,
    }
}
fn grid<T: Flt>(t: Tr, dz: usize, dp: usize, few: bool) -> Scenario {
    let (r, p) = (a_reals(), a_pairs());
    let zs = multisets(&r, &p, dz);
    let ps = multisets(&r, &p, dp);
    sc(format!("{:?}-{}-z{}p{}{}", t, T::NAME, dz, dp, if few { "-few" } else { "" }), move |ctx| {
        let (a, b) = params(ctx, t, few);
        let zi = ctx.choose(zs.len());
        let pi = ctx.choose(ps.len());
        let q = Zpk { z: zs[zi].clone(), p: ps[pi].clone(), k: [1.0, -0.37, 250.0][(zi + pi) % 3] };
        if !usable(t, &q, a) {
            return Err(Stop::Skip);
        }
        one::<T>(ctx, t, &q, a, b)
    })
}
/// Centre frequencies, bandwidths and sampling rates of every magnitude.
fn wide<T: Flt>(dz: usize, dp: usize) -> Scenario {
    let (r, p) = (a_reals(), a_pairs());
    let zs = multisets(&r, &p, dz);
    let ps = multisets(&r, &p, dp);
    sc(format!("magnitudes-{}-z{}p{}", T::NAME, dz, dp), move |ctx| {
        let single = T::EPS > 1e-10;
        let t = ctx.pick(&[Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear]);
        let g = ctx.pick(if single { &[1e-6, 1e-3, 1e3, 1e6] } else { &[1e-30, 1e-20, 1e-13, 1e-9, 1e-6, 1e6, 1e9, 1.5e12, 1e13, 1e20, 1e30] });
        let zi = ctx.choose(zs.len());
        let pi = ctx.choose(ps.len());
        let (z, p) = (&zs[zi], &ps[pi]);
        let (a, b) = match t {
            Tr::Lp | Tr::Hp => (Some(2.3 * g), None),
            Tr::Bp | Tr::Bs => {
                let b = ctx.pick(&[0.37, 5.1, 1e-4, 1e4]);
                (Some(1.7 * g), Some(b * g))
            }
            Tr::Bilinear => (Some(1.9 * g), None),
        };
        let by = if t == Tr::Bilinear { g } else { 1.0 };
        let q = Zpk { z: z.iter().map(|x| x * by).collect(), p: p.iter().map(|x| x * by).collect(), k: [1.0, -0.37, 250.0][(zi + pi) % 3] };
        if t == Tr::Bilinear && q.z.iter().chain(&q.p).any(|x| cabs(*x - 3.8 * g) < 0.25 * g) || t != Tr::Bilinear && !usable(t, &q, a) {
            return Err(Stop::Skip);
        }
        one::<T>(ctx, t, &q, a, b)
    })
}
/// Input order: the roots may come in any order.
fn orders(deg: usize) -> Scenario {
    let sets = multisets(&[-1.0, -0.5, -3.0], &[c(-0.3, 0.4), c(-1.0, 2.0), c(0.0, 1.5)], deg);
    sc(format!("input-orders-{}", deg), move |ctx| {
        let t = ctx.pick(&[Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear]);
        let set = ctx.pick(&sets);
        let mut rest = set.clone();
        let mut v = vec![];
        while !rest.is_empty() {
            let i = ctx.choose(rest.len());
            v.push(rest.remove(i));
        }
        let q = match ctx.choose(2) {
            0 => Zpk { z: vec![], p: v, k: 2.0 },
            _ => {
                let mut p = v.clone();
                p.reverse();
                p.push(c(-0.75, 0.0));
                Zpk { z: v.iter().map(|x| x * 2.0).collect(), p, k: 2.0 }
            }
        };
        let (a, b) = params(ctx, t, true);
        one::<f64>(ctx, t, &q, a, b)
    })
}
/// High orders: Butterworth-like circles of poles.
fn high<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("high-orders-{}", T::NAME), move |ctx| {
        let t = ctx.pick(&[Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear]);
        let n = ctx.range(0, nmax);
        let nz = ctx.range(0, 4.min(n / 2)) * 2;
        let p: Vec<C> = (0..n)
            .map(|m| {
                let th = (2 * m + 1) as f64 * std::f64::consts::PI / (2 * n) as f64;
                if 2 * m + 1 == n {
                    c(-1.0, 0.0)
                } else if 2 * m + 1 > n {
                    let th2 = std::f64::consts::PI - th;
                    c(-th2.sin(), -th2.cos())
                } else {
                    c(-th.sin(), th.cos())
                }
            })
            .collect();
        let z: Vec<C> = (0..nz).map(|i| c(0.0, (1.5 + (i / 2) as f64) * if i % 2 == 0 { 1.0 } else { -1.0 })).collect();
        if nz > n {
            return Err(Stop::Skip);
        }
        let (a, b) = params(ctx, t, false);
        one::<T>(ctx, t, &Zpk { z, p, k: 0.8 }, a, b)
    })
}
/// Degrees in the hundreds, compared in logarithms.
fn very_high(degrees: Vec<usize>) -> Scenario {
    sc(format!("degrees-to-{}", degrees[degrees.len() - 1]), move |ctx| {
        let t = ctx.pick(&[Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear]);
        let n = ctx.pick(&degrees);
        let p: Vec<C> = (0..n / 2)
            .flat_map(|m| {
                let th = (0.1 + 0.8 * (m as f64 + 0.5) / (n / 2) as f64) * std::f64::consts::PI / 2.0;
                [c(-th.sin(), th.cos()), c(-th.sin(), -th.cos())]
            })
            .chain((0..n % 2).map(|_| c(-1.0, 0.0)))
            .collect();
        let nz = if matches!(t, Tr::Hp | Tr::Bs) { 0 } else { ctx.pick(&[0, n / 4 * 2, n / 2 * 2]) };
        let z: Vec<C> = (0..nz).map(|i| c(-0.2, (1.5 + 0.01 * (i / 2) as f64) * if i % 2 == 0 { 1.0 } else { -1.0 })).collect();
        let (a, b) = match t {
            Tr::Bp | Tr::Bs => (ctx.pick(&[2.0, 0.5]), 1.5),
            Tr::Bilinear => (ctx.pick(&[1.0, 0.5]), 0.0),
            _ => (ctx.pick(&[2.0, 0.5]), 0.0),
        };
        let q = Zpk { z, p, k: -1.25 };
        let what = format!("{:?} wo/fs={} bw={} of {} zeros and {} poles", t, a, b, q.z.len(), n);
        let two = matches!(t, Tr::Bp | Tr::Bs);
        let r = match ctx.call(|| apply::<f64>(t, &q, Some(a), if two { Some(b) } else { None })) {
            Ok(r) => r,
            Err(m) => return fail(format!("{}: panicked: {}", what, m)),
        };
        ctx.state(&[r.k, r.z.len() as f64, r.p.len() as f64]);
        ctx.note(|| format!("{}: gain {:e}", what, r.k));
        ensure!(r.k.is_finite() && r.k != 0.0, "{}: gain {}", what, r.k);
        let ln = |q: &Zpk, s: C| q.z.iter().map(|x| cln(s - x)).sum::<C>() - q.p.iter().map(|x| cln(s - x)).sum::<C>() + cln(c(q.k, 0.0));
        for (x, y) in PTS {
            let s = if t == Tr::Bilinear { c(x * 1.1, y) } else { c(x * a, y * a) };
            let u = sub(t, s, a, b);
            let cd = cond(&q, u) + cond(&r, s);
            let tol = 1e-12 * cd;
            if !(cabs(u) < 1e6) || !(tol < 1e-2) {
                continue;
            }
            let d = cexp(ln(&r, s) - ln(&q, u));
            ensure!(cabs(d - 1.0) <= tol, "{}: at {} H is {} times what it should be", what, s, d);
        }
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![];
    for tr in [Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear] {
        v.push(grid::<f64>(tr, 3, if t { 4 } else { 3 }, false));
        v.push(grid::<f64>(tr, 4, if t { 6 } else { 5 }, true));
        v.push(grid::<f32>(tr, 2, 3, true));
    }
    v.push(orders(if t { 6 } else { 5 }));
    v.push(high::<f64>(24));
    v.push(high::<f32>(6));
    v.push(wide::<f64>(2, 3));
    v.push(wide::<f32>(1, 2));
    v.push(very_high(if t { (25..=300).collect() } else { vec![25, 60, 127, 128, 129, 257] }));
    if l >= 2 {
        for tr in [Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear] {
            v.push(grid::<f64>(tr, 5, 6, false));
        }
        v.push(orders(7));
        v.push(high::<f64>(60));
    }
    if l >= 3 {
        for tr in [Tr::Lp, Tr::Hp, Tr::Bp, Tr::Bs, Tr::Bilinear] {
            v.push(grid::<f64>(tr, 6, 6, false));
        }
    }
    v
}
