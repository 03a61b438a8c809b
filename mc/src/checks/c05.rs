//! C05: zeros/poles/gain to second-order sections.
use super::c01::from_sos;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::Complex;
use sci_rs::signal::filter::design::{zpk2sos_dyn, ZpkFormatFilter, ZpkPairing};

pub fn check() -> Check {
    Check {
        id: "C05",
        bounds: "every pair of (zero, pole) multisets over 6 real roots and 5 conjugate pairs up to degree 5 each (6 in thorough), both pairings, digital and analog, all input orders up to degree 5, one-ulp perturbations of every conjugate, conjugate pairs at angles down to 1e-15 from the real axis, unmatched roots, degrees up to 40, f32 and f64",
        assumptions: &["transfer functions are compared at 8 complex points with a tolerance scaled by the conditioning of the product"],
        scenarios,
    }
}

/// All multisets of real roots / conjugate pairs of total degree <= d (at least 0).
pub fn multisets(reals: &[f64], pairs: &[C], d: usize) -> Vec<Vec<C>> {
    fn rec(reals: &[f64], pairs: &[C], ri: usize, pi: usize, left: usize, cur: &mut Vec<C>, out: &mut Vec<Vec<C>>) {
        out.push(cur.clone());
        if left >= 2 {
            for i in pi..pairs.len() {
                cur.push(pairs[i]);
                cur.push(pairs[i].conj());
                rec(reals, pairs, 0, i, left - 2, cur, out);
                cur.pop();
                cur.pop();
            }
        }
        // reals only after all pairs, to keep each multiset once
        if left >= 1 {
            for i in ri..reals.len() {
                cur.push(c(reals[i], 0.0));
                rec_r(reals, i, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    fn rec_r(reals: &[f64], ri: usize, left: usize, cur: &mut Vec<C>, out: &mut Vec<Vec<C>>) {
        out.push(cur.clone());
        if left >= 1 {
            for i in ri..reals.len() {
                cur.push(c(reals[i], 0.0));
                rec_r(reals, i, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(reals, pairs, 0, 0, d, &mut vec![], &mut out);
    out.sort_by_key(|s| s.len());
    out
}

pub fn d_reals() -> Vec<f64> {
    vec![0.0, 0.5, -0.5, 0.9, 1.0, -1.0]
}
pub fn d_pairs() -> Vec<C> {
    vec![c(0.3, 0.4), c(0.5, 0.2), c(0.5, 0.6), c(0.0, 0.8), c(0.5, 0.75f64.sqrt())]
}
pub fn a_reals() -> Vec<f64> {
    vec![-1.0, -0.5, -2.5, 0.0, -40.0, 3.0]
}
pub fn a_pairs() -> Vec<C> {
    vec![c(-0.3, 0.4), c(-1.0, 2.0), c(0.0, 1.5), c(-1.0, 0.25), c(-30.0, 200.0)]
}

const POINTS: [(f64, f64); 8] =
    [(1.7, 0.9), (-0.35, 1.21), (0.61, -0.23), (2.3, 0.0), (-1.4, -0.6), (0.13, 0.11), (-0.8, 0.05), (0.2, -3.1)];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    DigitalDefault,
    DigitalNearest,
    DigitalMinimal,
    AnalogDefault,
    AnalogMinimal,
}

fn prod(roots: &[C], s: C) -> (C, f64) {
    roots.iter().fold((c(1.0, 0.0), 1.0), |(p, q), r| (p * (s - r), q * (cabs(s) + cabs(*r))))
}

fn roots2(q: &[f64; 3]) -> Vec<C> {
    if q[0] == 0.0 {
        return if q[1] == 0.0 { vec![] } else { vec![c(-q[2] / q[1], 0.0)] };
    }
    let (b, d) = (q[1] / q[0], q[2] / q[0]);
    let disc = csqrt(c(b * b - 4.0 * d, 0.0));
    vec![(c(-b, 0.0) + disc) * 0.5, (c(-b, 0.0) - disc) * 0.5]
}
/// Distance to the unit circle.
fn circle(r: &C) -> f64 {
    (1.0 - cabs(*r)).abs()
}
/// Takes the elements closest to `r` out of `v`.
fn take(v: &mut Vec<C>, r: C) {
    if let Some((i, _)) = v.iter().enumerate().min_by(|a, b| cabs(a.1 - r).partial_cmp(&cabs(b.1 - r)).unwrap()) {
        v.remove(i);
    }
}
/// Digital sections: the poles closest to the unit circle come last (also the real ones among
/// themselves), and under the nearest pairing each section, from the last to the first, has the zero
/// closest to its worst pole. Ties may go either way.
fn pairing_order(sos: &[Sec], z: &[C], p: &[C], minimal: bool, tol: f64) -> R {
    let poles: Vec<Vec<C>> = sos.iter().map(|q| roots2(&q.a)).collect();
    let d: Vec<f64> = poles.iter().map(|r| r.iter().map(circle).fold(f64::INFINITY, f64::min)).collect();
    for w in d.windows(2) {
        ensure!(w[1] <= w[0] + tol, "distances to the unit circle {:?} are not decreasing", d);
    }
    let reals: Vec<Vec<f64>> = poles.iter().map(|r| r.iter().filter(|v| v.im.abs() <= tol).map(circle).collect()).collect();
    let mut closest = f64::INFINITY;
    for (i, r) in reals.iter().enumerate() {
        for v in r {
            ensure!(*v <= closest + tol, "a real pole of section {} is {} from the unit circle, one of an earlier section {}", i, v, closest);
        }
        closest = r.iter().fold(closest, |a, b| a.min(*b));
    }
    if minimal {
        return Ok(());
    }
    let m = z.len().max(p.len());
    let mut left = z.to_vec();
    left.resize(m + m % 2, c(0.0, 0.0));
    for (i, q) in sos.iter().enumerate().rev() {
        let zs = roots2(&q.b);
        let ok = poles[i].iter().filter(|r| circle(r) <= d[i] + tol).any(|p1| {
            let near = |v: &[C]| v.iter().map(|r| cabs(r - p1)).fold(f64::INFINITY, f64::min);
            if near(&zs) > near(&left) + 10.0 * tol {
                return false;
            }
            // two real zeros: the two real ones nearest to the pole
            if zs.iter().all(|r| r.im.abs() <= tol) {
                let mut dr: Vec<f64> = left.iter().filter(|r| r.im.abs() <= tol).map(|r| cabs(r - p1)).collect();
                dr.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let far = zs.iter().map(|r| cabs(r - p1)).fold(0.0, f64::max);
                return dr.len() < 2 || far <= dr[1] + 10.0 * tol;
            }
            true
        });
        ensure!(ok, "section {} has zeros {:?} for the poles {:?} although {:?} were left to choose from", i, zs, poles[i], left);
        for r in zs {
            take(&mut left, r);
        }
    }
    Ok(())
}

fn one<T: Flt>(ctx: &mut Ctx, z: &[C], p: &[C], k: f64, mode: Mode, order: usize) -> R {
    let conv = |v: &[C]| -> Vec<Complex<T>> { v.iter().map(|x| Complex::new(T::of(x.re), T::of(x.im))).collect() };
    let k = T::of(k).f();
    let zpk = || ZpkFormatFilter::new(conv(z), conv(p), T::of(k));
    let analog = matches!(mode, Mode::AnalogDefault | Mode::AnalogMinimal);
    let minimal = analog || mode == Mode::DigitalMinimal;
    let what = || format!("{:?} {} z={:?} p={:?} k={}", mode, T::NAME, z, p, k);
    let r = ctx.call(|| match mode {
        Mode::DigitalDefault => zpk2sos_dyn(order, zpk(), None, None),
        Mode::DigitalNearest => zpk2sos_dyn(order, zpk(), Some(ZpkPairing::Nearest), Some(false)),
        Mode::DigitalMinimal => zpk2sos_dyn(order, zpk(), Some(ZpkPairing::Minimal), Some(false)),
        Mode::AnalogDefault => zpk2sos_dyn(order, zpk(), None, Some(true)),
        Mode::AnalogMinimal => zpk2sos_dyn(order, zpk(), Some(ZpkPairing::Minimal), Some(true)),
    });
    if minimal && z.len() > p.len() {
        ctx.state(&[z.len() as f64, p.len() as f64]);
        ensure!(r.is_err(), "{}: more zeros than poles was not rejected", what());
        return Ok(());
    }
    let sos = match r {
        Ok(s) => from_sos(&s.sos),
        Err(m) => return fail(format!("{}: panicked: {}", what(), m)),
    };
    ctx.note(|| format!("{} -> {:?}", what(), sos));
    let empty = z.is_empty() && p.is_empty();
    let n = if empty { 1 } else { (z.len().max(p.len()) + 1) / 2 };
    ensure!(sos.len() == n, "{}: {} sections instead of {}", what(), sos.len(), n);
    let f32ish = T::EPS > 1e-10;
    let rel = if f32ish { 3e-4 } else { 1e-9 };
    for q in &sos {
        for v in q.b.iter().chain(&q.a) {
            ensure!(v.is_finite(), "{}: coefficient {}", what(), v);
        }
        ensure!(q.z == [0.0, 0.0], "{}: new sections must have cleared delay state", what());
        if analog {
            let lead = q.a.iter().find(|v| **v != 0.0).copied().unwrap_or(0.0);
            ensure!(lead == 1.0, "{}: denominator {:?} is not monic", what(), q.a);
        } else {
            ensure!(q.a[0] == 1.0, "{}: denominator {:?} is not monic", what(), q.a);
        }
    }
    // H(section cascade) = k * prod(s - z) / prod(s - p) [* z^(P - Z) under the default digital pairing]
    for (x, y) in POINTS {
        let s = if analog { c(x * 1.3, y * 1.7) } else { c(x, y) };
        let (mut zn, mut zc) = prod(z, s);
        let (mut pn, mut pc) = prod(p, s);
        if !minimal {
            let m = z.len().max(p.len());
            for _ in z.len()..m {
                zn *= s;
                zc *= cabs(s);
            }
            for _ in p.len()..m {
                pn *= s;
                pc *= cabs(s);
            }
        }
        let (mut bn, mut an, mut bc, mut ac) = (c(1.0, 0.0), c(1.0, 0.0), 1.0, 1.0);
        for q in &sos {
            bn *= polyval(&q.b, s);
            an *= polyval(&q.a, s);
            bc *= polycond(&q.b, s);
            ac *= polycond(&q.a, s);
        }
        let lhs = bn * pn;
        let rhs = an * zn * k;
        let scale = bc * pc + ac * zc * k.abs();
        ensure!(
            cabs(lhs - rhs) <= rel * scale,
            "{}: at s={} the cascade is {} instead of {}; sections {:?}",
            what(),
            s,
            bn / an,
            zn * k / pn,
            sos
        );
    }
    // the gain sits in the first section
    for (i, q) in sos.iter().enumerate() {
        let lead = q.b.iter().find(|v| **v != 0.0).copied().unwrap_or(0.0);
        let w = if i == 0 { k } else { 1.0 };
        ensure!((lead - w).abs() <= rel * w.abs(), "{}: section {} of {} has leading coefficient {} instead of {}", what(), i, n, lead, w);
    }
    if !analog && !empty {
        let tol = if f32ish { 2e-2 } else { 1e-5 };
        pairing_order(&sos, z, p, minimal, tol).map_err(|m| match m {
            Stop::Fail(m) => Stop::Fail(format!("{}: {}", what(), m)),
            o => o,
        })?;
    }
    let mut obs = vec![];
    for q in &sos {
        obs.extend(q.b);
        obs.extend(q.a);
    }
    ctx.state(&obs);
    Ok(())
}

fn grid<T: Flt>(name: &str, mode: &'static [Mode], analog: bool, dz: usize, dp: usize) -> Scenario {
    let (r, p) = if analog { (a_reals(), a_pairs()) } else { (d_reals(), d_pairs()) };
    let zs = multisets(&r, &p, dz);
    let ps = multisets(&r, &p, dp);
    sc(format!("{}-{}-z{}p{}", name, T::NAME, dz, dp), move |ctx| {
        let zi = ctx.choose(zs.len());
        let pi = ctx.choose(ps.len());
        let m = ctx.pick(mode);
        let k = [1.0, -0.37, 250.0][(zi + pi) % 3];
        one::<T>(ctx, &zs[zi], &ps[pi], k, m, ps[pi].len())
    })
}

fn permute(ctx: &mut Ctx, v: &[C]) -> Vec<C> {
    let mut rest = v.to_vec();
    let mut out = vec![];
    while !rest.is_empty() {
        // identical roots need not be permuted among themselves
        let mut idx: Vec<usize> = vec![];
        for i in 0..rest.len() {
            if !idx.iter().any(|j| rest[*j] == rest[i]) {
                idx.push(i);
            }
        }
        let i = ctx.pick(&idx);
        out.push(rest.remove(i));
    }
    out
}
fn orders<T: Flt>(deg: usize) -> Scenario {
    let ps = multisets(&d_reals(), &d_pairs(), deg);
    let ap = multisets(&a_reals(), &a_pairs(), deg);
    sc(format!("input-orders-{}-{}", T::NAME, deg), move |ctx| {
        let analog = ctx.flag();
        let set = ctx.pick(if analog { &ap } else { &ps });
        let v = permute(ctx, &set);
        let role = ctx.choose(3);
        let other: Vec<C> = match role {
            0 => vec![],
            1 => vec![c(-0.3, 0.4), c(-0.3, -0.4), c(-0.9, 0.0)],
            _ => v.iter().rev().copied().collect(),
        };
        let (z, p) = if role == 0 || ctx.flag() { (other, v) } else { (v, other) };
        let m = if analog { Mode::AnalogDefault } else { Mode::DigitalDefault };
        one::<T>(ctx, &z, &p, 2.0, m, p.len())
    })
}

/// `v` moved by `by` roundings of a number of size `scale`.
fn ulp<T: Flt>(v: f64, scale: f64, by: i32) -> f64 {
    T::of(v).f() + by as f64 * T::EPS * scale
}
/// Conjugates that differ by rounding in every possible direction, and reals with a rounding-size
/// imaginary part: still conjugate-symmetric within rounding.
fn rounding<T: Flt>(npairs: usize) -> Scenario {
    sc(format!("rounding-{}-{}", T::NAME, npairs), move |ctx| {
        let mut cat = d_pairs();
        cat.push(c(-0.5, 0.2));
        cat.push(c(0.0, 0.3));
        cat.push(c(0.0, 1.0));
        let n = ctx.range(1, npairs);
        let mut v: Vec<C> = vec![];
        for _ in 0..n {
            let q = ctx.pick(&cat);
            let a = ctx.choose(3) as i32 - 1;
            let b = ctx.choose(3) as i32 - 1;
            let s = cabs(q);
            v.push(c(ulp::<T>(q.re, s, a), ulp::<T>(q.im, s, 0)));
            v.push(c(ulp::<T>(q.re, s, 0), -ulp::<T>(q.im, s, b)));
        }
        match ctx.choose(4) {
            0 => {}
            1 => v.push(c(0.7, 0.0)),
            2 => v.push(c(0.7, 0.7 * 20.0 * T::EPS)),
            _ => {
                v.push(c(-0.6, 0.6 * 20.0 * T::EPS));
                v.push(c(-0.6, -0.6 * 20.0 * T::EPS));
            }
        }
        // alternate order: positives first, negatives first, interleaved
        match ctx.choose(3) {
            0 => {}
            1 => v.sort_by(|a, b| b.im.partial_cmp(&a.im).unwrap()),
            _ => v.sort_by(|a, b| a.im.partial_cmp(&b.im).unwrap()),
        }
        let as_poles = ctx.flag();
        let other = vec![c(0.25, 0.0)];
        if as_poles {
            one::<T>(ctx, &other, &v, 1.0, Mode::DigitalDefault, v.len())
        } else {
            one::<T>(ctx, &v, &other, 1.0, Mode::DigitalDefault, v.len())
        }
    })
}

/// Pairs on (up to rounding) the imaginary axis whose magnitudes differ by many orders.
fn magnitudes<T: Flt>(npairs: usize) -> Scenario {
    sc(format!("magnitudes-{}-{}", T::NAME, npairs), move |ctx| {
        let n = ctx.range(1, npairs);
        let mut v: Vec<C> = vec![];
        for _ in 0..n {
            let m = T::of(ctx.pick(&[1e-5, 1e-2, 1.0, 300.0])).f();
            for sg in [1.0, -1.0] {
                let by = ctx.choose(3) as f64 - 1.0;
                v.push(c(by * T::EPS * m, sg * m));
            }
        }
        if ctx.flag() {
            v.reverse();
        }
        let other = vec![c(-0.5, 0.0); v.len()];
        let (z, p) = if ctx.flag() { (other, v) } else { (v, other) };
        let m = ctx.pick(&[Mode::AnalogDefault, Mode::DigitalDefault]);
        one::<T>(ctx, &z, &p, 1.0, m, p.len())
    })
}

fn unmatched<T: Flt>(deg: usize) -> Scenario {
    let sets = multisets(&d_reals(), &d_pairs(), deg);
    sc(format!("unmatched-{}", T::NAME), move |ctx| {
        let good = ctx.pick(&sets);
        let mut bad = good.clone();
        // a lone root, or two roots that are not conjugates of one another
        match ctx.choose(6) {
            0 => bad.push(c(-0.2, 0.3)),
            1 => bad.push(c(-0.2, -0.3)),
            2 => bad.extend([c(-0.2, 0.3), c(-0.2, -0.31)]),
            3 => bad.extend([c(-0.2, 0.3), c(-0.21, -0.3)]),
            4 => bad.extend([c(-0.2, 0.3), c(-0.2, 0.3)]),
            _ => bad.extend([c(0.0, -0.3), c(0.0, -0.3)]),
        }
        let at = ctx.choose(3);
        let n = bad.len();
        bad.rotate_right([0, 1, n / 2][at]);
        let as_poles = ctx.flag();
        let analog = ctx.flag();
        let fill: Vec<C> = (0..n).map(|_| c(0.1, 0.0)).collect();
        let conv = |v: &[C]| -> Vec<Complex<T>> { v.iter().map(|x| Complex::new(T::of(x.re), T::of(x.im))).collect() };
        let (z, p) = if as_poles { (fill, bad) } else { (bad, fill) };
        ctx.state(&[n as f64, at as f64, good.len() as f64]);
        ctx.must_panic(&format!("z={:?} p={:?}", z, p), || {
            zpk2sos_dyn(n, ZpkFormatFilter::new(conv(&z), conv(&p), T::one()), None, Some(analog))
        })
    })
}
fn analog_nearest() -> Scenario {
    let sets = multisets(&a_reals(), &a_pairs(), 3);
    sc("analog-nearest-rejected", move |ctx| {
        let z = ctx.pick(&sets);
        let p = ctx.pick(&sets);
        ctx.state(&[z.len() as f64, p.len() as f64]);
        ctx.must_panic("nearest pairing of an analog filter", || {
            zpk2sos_dyn(3, ZpkFormatFilter::new(z.clone(), p.clone(), 1.0), Some(ZpkPairing::Nearest), Some(true))
        })
    })
}
/// Larger root sets of every structure: n pairs + r reals, well separated or repeated.
fn large<T: Flt>(maxn: usize) -> Scenario {
    large_at::<T>((0..=maxn).collect())
}
fn large_at<T: Flt>(ns: Vec<usize>) -> Scenario {
    let maxn = ns[ns.len() - 1];
    sc(format!("large-{}-{}", maxn, T::NAME), move |ctx| {
        let analog = ctx.flag();
        let np = ctx.pick(&ns);
        let rp = ctx.range(0, 5);
        let nz = ctx.pick(&ns);
        let rz = ctx.range(0, 5);
        let shape = ctx.choose(3);
        if np.abs_diff(nz) > 3 && np != maxn && nz != 0 && nz != maxn {
            return Err(Stop::Skip);
        }
        let mk = |n: usize, r: usize, off: f64| -> Vec<C> {
            let mut v = vec![];
            for i in 0..n {
                let q = match shape {
                    0 => {
                        let th = 0.2 + off + 2.5 * i as f64 / n as f64;
                        let rad = 0.55 + 0.4 * (i as f64 / n as f64);
                        c(rad * th.cos(), rad * th.sin())
                    }
                    // the same real part for all
                    1 => c(0.4, 0.1 + 0.05 * i as f64 + off),
                    // on the unit circle
                    _ => {
                        let th = 0.3 + off + 2.4 * i as f64 / n as f64;
                        c(th.cos(), th.sin())
                    }
                };
                let q = if analog { c(-q.re.abs() - 0.1, 1.0 + q.im) } else { q };
                v.push(q);
                v.push(q.conj());
            }
            for i in 0..r {
                let x: f64 = [-1.0, 0.3, -1.0, 0.0, 0.8][i];
                v.push(c(if analog { -0.2 - x.abs() } else { x }, 0.0));
            }
            // spread the conjugates apart
            let k = v.len();
            if k > 2 {
                v.rotate_left(k / 3);
                v.swap(0, k - 1);
            }
            v
        };
        let z = mk(nz, rz, 0.05);
        let p = mk(np, rp, 0.0);
        let m = if analog { Mode::AnalogMinimal } else { Mode::DigitalDefault };
        one::<T>(ctx, &z, &p, 0.5, m, p.len())
    })
}

/// Every subset of a list of distinct real roots (with or without conjugate pairs) as poles, against a few kinds of zeros.
fn subsets<T: Flt>(bits: usize) -> Scenario {
    const REALS: [f64; 12] = [0.15, -0.3, 0.45, -0.55, 0.65, -0.75, 0.82, -0.88, 0.93, -0.96, 0.98, 0.05];
    sc(format!("real-subsets-{}-{}", T::NAME, bits), move |ctx| {
        let pick = |m: usize| -> Vec<C> { (0..bits).filter(|i| m >> i & 1 == 1).map(|i| c(REALS[i], 0.0)).collect() };
        let mut p = pick(ctx.choose(1 << bits));
        match ctx.choose(3) {
            0 => {}
            1 => p.splice(0..0, [c(0.3, 0.6), c(0.3, -0.6)]).for_each(drop),
            _ => p.extend([c(-0.2, 0.9), c(0.5, 0.2), c(0.5, -0.2), c(-0.2, -0.9)]),
        }
        let z: Vec<C> = match ctx.choose(4) {
            0 => vec![],
            1 => vec![c(-1.0, 0.0); p.len()],
            2 => (0..p.len()).map(|i| c(1.1 - 0.17 * i as f64, 0.0)).collect(),
            _ => {
                let mut z: Vec<C> = vec![];
                for i in 0..p.len() / 2 {
                    let th = 0.4 + 0.4 * i as f64;
                    z.extend([c(th.cos(), th.sin()), c(th.cos(), -th.sin())]);
                }
                z.extend(vec![c(0.7, 0.0); p.len() % 2]);
                z
            }
        };
        let m = ctx.pick(&[Mode::DigitalDefault, Mode::DigitalMinimal]);
        one::<T>(ctx, &z, &p, 0.5, m, p.len())
    })
}

/// Conjugate pairs next to the real axis are pairs until their angle drowns in rounding: each root keeps its
/// own section coefficients to within rounding.
fn near_real<T: Flt>(npairs: usize) -> Scenario {
    sc(format!("near-real-{}-{}", T::NAME, npairs), move |ctx| {
        let lo = if T::EPS > 1e-10 { 7 } else { 15 };
        let mut v: Vec<C> = vec![];
        let mut want: Vec<[f64; 2]> = vec![];
        let n = ctx.range(1, npairs);
        for i in 0..n {
            let r = [1.0, 0.5, -0.9, 40.0][(i + ctx.choose(4)) % 4];
            let e = ctx.range(1, lo);
            let m = ctx.pick(&[1.0, 3.0]);
            let q = c(T::of(r).f(), T::of(r * m * 10f64.powi(-(e as i32))).f());
            v.push(q);
            v.push(q.conj());
            want.push([-2.0 * q.re, q.re * q.re + q.im * q.im]);
        }
        let analog = ctx.flag();
        let as_poles = ctx.flag();
        let conv = |v: &[C]| -> Vec<Complex<T>> { v.iter().map(|x| Complex::new(T::of(x.re), T::of(x.im))).collect() };
        let none = vec![c(0.0, 0.0); if as_poles { 0 } else { v.len() }];
        let (z, p) = if as_poles { (none, v.clone()) } else { (v.clone(), none) };
        let sos = ctx.must(&format!("roots {:?}", v), || zpk2sos_dyn(p.len(), ZpkFormatFilter::new(conv(&z), conv(&p), T::one()), None, Some(analog)))?;
        let got: Vec<[f64; 3]> = from_sos(&sos.sos).iter().map(|s| if as_poles { s.a } else { s.b }).collect();
        ctx.note(|| format!("{:?} -> {:?}", v, got));
        ctx.state(&got.concat());
        ensure!(got.len() == n, "{} sections for {} pairs", got.len(), n);
        // by linear coefficient (exact), then by constant
        let mut got = got;
        got.sort_by(|a, b| (a[1], a[2]).partial_cmp(&(b[1], b[2])).unwrap());
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (g, w) in got.iter().zip(&want) {
            let ok = g[0] == 1.0 && (g[1] - w[0]).abs() <= 8.0 * T::EPS * w[0].abs() && (g[2] - w[1]).abs() <= 8.0 * T::EPS * w[1].abs();
            ensure!(ok, "roots {:?} ({}): sections {:?} instead of 1, {:?}", v, T::NAME, got, want);
        }
        Ok(())
    })
}
/// Gains of every magnitude, carried by the first section alone.
fn gains<T: Flt>(deg: usize) -> Scenario {
    let zs = multisets(&d_reals(), &d_pairs(), deg);
    let ps = multisets(&[0.5, -0.9], &[c(0.3, 0.6), c(-0.7, 0.2)], deg + 2);
    let za = multisets(&a_reals(), &a_pairs(), deg);
    let pa = multisets(&[-1.0, -0.5], &[c(-0.3, 0.4)], deg + 2);
    sc(format!("gains-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let k = ctx.pick(if single { &[1e-36, -1e-30, 1e-20, 1e-10, -1e10, 1e20, 1e30] } else { &[1e-300, -1e-200, 1e-100, 1e-50, -1e-31, 1e-25, 1e-20, -1e-15, 1e-10, 1e10, -1e20, 1e50, 1e100, 1e300] });
        let m = ctx.pick(&[Mode::DigitalDefault, Mode::DigitalMinimal, Mode::AnalogDefault]);
        let (zs, ps) = if m == Mode::AnalogDefault { (&za, &pa) } else { (&zs, &ps) };
        let (zi, pi) = (ctx.choose(zs.len()), ctx.choose(ps.len()));
        one::<T>(ctx, &zs[zi], &ps[pi], k, m, ps[pi].len())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    const DN: &[Mode] = &[Mode::DigitalNearest];
    const DM: &[Mode] = &[Mode::DigitalMinimal];
    const AN: &[Mode] = &[Mode::AnalogDefault];
    const ALL: &[Mode] = &[Mode::DigitalDefault, Mode::DigitalNearest, Mode::DigitalMinimal];
    const AALL: &[Mode] = &[Mode::AnalogDefault, Mode::AnalogMinimal];
    let d = if t { 6 } else { 5 };
    let mut v = vec![
        grid::<f64>("digital-all", ALL, false, 3, 3),
        grid::<f64>("digital-nearest", DN, false, d, d),
        grid::<f64>("digital-minimal", DM, false, 4, d),
        grid::<f64>("analog-all", AALL, true, 3, 3),
        grid::<f64>("analog", AN, true, 4, d),
        grid::<f32>("digital-nearest", DN, false, 4, 4),
        grid::<f32>("analog", AN, true, 3, 4),
        orders::<f64>(if t { 5 } else { 4 }),
        orders::<f32>(3),
        rounding::<f64>(if t { 3 } else { 2 }),
        rounding::<f32>(2),
        magnitudes::<f64>(if l >= 2 { 4 } else if t { 3 } else { 2 }),
        magnitudes::<f32>(if t { 3 } else { 2 }),
        unmatched::<f64>(4),
        unmatched::<f32>(3),
        analog_nearest(),
        large::<f64>(if t { 20 } else { 10 }),
        large::<f32>(4),
        large_at::<f64>(vec![0, 31, 32, 33, 63, 64, 65, 100]),
        subsets::<f64>(if t { 12 } else { 8 }),
        subsets::<f32>(6),
        near_real::<f64>(if l >= 2 { 3 } else { 2 }),
        near_real::<f32>(2),
        gains::<f64>(2),
        gains::<f32>(1),
    ];
    if l >= 2 {
        v.push(grid::<f64>("digital-nearest-deep", DN, false, 7, 6));
        v.push(grid::<f64>("digital-minimal-deep", DM, false, 6, 6));
        v.push(grid::<f64>("analog-deep", AN, true, 6, 6));
        v.push(orders::<f64>(6));
        v.push(large::<f64>(40));
    }
    if l >= 3 {
        v.push(grid::<f64>("digital-nearest-deeper", DN, false, 7, 7));
        v.push(grid::<f64>("analog-deeper", AN, true, 7, 7));
        v.push(grid::<f32>("digital-nearest-deeper", DN, false, 5, 5));
        v.push(orders::<f64>(7));
    }
    v
}
