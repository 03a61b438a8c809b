//! Independent analytic reference for classical IIR designs, and a format-neutral view of a design.
use super::c01::from_sos;
use crate::engine::*;
use crate::ensure;
use crate::num::*;
use sci_rs::signal::filter::design::*;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam {
    Butter,
    Cheb1(f64),
    Cheb2(f64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Band {
    Lp,
    Hp,
    Bp,
    Bs,
}
impl Band {
    pub fn b(self) -> FilterBandType {
        match self {
            Band::Lp => FilterBandType::Lowpass,
            Band::Hp => FilterBandType::Highpass,
            Band::Bp => FilterBandType::Bandpass,
            Band::Bs => FilterBandType::Bandstop,
        }
    }
    pub fn two(self) -> bool {
        matches!(self, Band::Bp | Band::Bs)
    }
}
impl Fam {
    pub fn t(self) -> FilterType {
        match self {
            Fam::Butter => FilterType::Butterworth,
            Fam::Cheb1(_) => FilterType::ChebyshevI,
            Fam::Cheb2(_) => FilterType::ChebyshevII,
        }
    }
}
pub const BANDS: [Band; 4] = [Band::Lp, Band::Hp, Band::Bp, Band::Bs];
pub const OUTS: [FilterOutputType; 3] = [FilterOutputType::Zpk, FilterOutputType::Ba, FilterOutputType::Sos];

#[derive(Clone, Debug)]
pub struct Zpk {
    pub z: Vec<C>,
    pub p: Vec<C>,
    pub k: f64,
}
impl Zpk {
    pub fn h(&self, s: C) -> C {
        if !(s.re.is_finite() && s.im.is_finite()) {
            return if self.z.len() == self.p.len() { c(self.k, 0.0) } else { c(0.0, 0.0) };
        }
        h_zpk(&self.z, &self.p, self.k, s)
    }
}

/// Normalised analog low-pass prototypes, written from the textbook definitions.
pub fn proto(f: Fam, n: usize) -> Zpk {
    let nn = n as f64;
    let ang = |m: usize| (2 * m + 1) as f64 * PI / (2.0 * nn);
    match f {
        Fam::Butter => Zpk { z: vec![], p: (0..n).map(|m| c(-ang(m).sin(), ang(m).cos())).collect(), k: 1.0 },
        Fam::Cheb1(rp) => {
            let eps = (10f64.powf(rp / 10.0) - 1.0).sqrt();
            let v = (1.0 / eps).asinh() / nn;
            let p: Vec<C> = (0..n).map(|m| c(-ang(m).sin() * v.sinh(), ang(m).cos() * v.cosh())).collect();
            let mut k = p.iter().fold(c(1.0, 0.0), |a, x| a * -x).re;
            if n % 2 == 0 {
                k /= (1.0 + eps * eps).sqrt();
            }
            Zpk { z: vec![], p, k }
        }
        Fam::Cheb2(rs) => {
            let eps = 1.0 / (10f64.powf(rs / 10.0) - 1.0).sqrt();
            let v = (1.0 / eps).asinh() / nn;
            let p: Vec<C> = (0..n).map(|m| c(1.0, 0.0) / c(-ang(m).sin() * v.sinh(), ang(m).cos() * v.cosh())).collect();
            let z: Vec<C> = (0..n).filter(|m| 2 * m + 1 != n).map(|m| c(0.0, 1.0 / ang(m).cos())).collect();
            let k = (p.iter().fold(c(1.0, 0.0), |a, x| a * -x) / z.iter().fold(c(1.0, 0.0), |a, x| a * -x)).re;
            Zpk { z, p, k }
        }
    }
}
/// Chebyshev polynomial of the first kind.
fn cheb(n: usize, x: f64) -> f64 {
    let x = x.abs();
    if x <= 1.0 {
        (n as f64 * x.acos()).cos()
    } else {
        (n as f64 * x.acosh()).cosh()
    }
}
/// Closed-form squared magnitude at normalised angular frequency w.
pub fn mag2(f: Fam, n: usize, w: f64) -> f64 {
    let w = w.abs();
    match f {
        Fam::Butter => 1.0 / (1.0 + w.powi(2 * n as i32)),
        Fam::Cheb1(rp) => 1.0 / (1.0 + (10f64.powf(rp / 10.0) - 1.0) * cheb(n, w).powi(2)),
        Fam::Cheb2(rs) => {
            if w == 0.0 {
                return 1.0;
            }
            let t = cheb(n, 1.0 / w).powi(2);
            t / (t + 10f64.powf(rs / 10.0) - 1.0)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub fam: Fam,
    pub n: usize,
    pub band: Band,
    pub analog: bool,
    /// Angular (analog) or normalised to Nyquist = 1 (digital).
    pub w: Vec<f64>,
}
impl Spec {
    fn edges(&self) -> Vec<f64> {
        self.w.iter().map(|x| if self.analog { *x } else { (PI * x / 2.0).tan() }).collect()
    }
    /// Prototype frequency reached by the analog (or pre-warped) frequency s.
    pub fn map(&self, s: C) -> C {
        let e = self.edges();
        match self.band {
            Band::Lp => s / e[0],
            Band::Hp => c(e[0], 0.0) / s,
            Band::Bp => (s * s + e[0] * e[1]) / (s * (e[1] - e[0])),
            Band::Bs => s * (e[1] - e[0]) / (s * s + e[0] * e[1]),
        }
    }
    pub fn to_s(&self, x: C) -> C {
        if self.analog {
            x
        } else {
            (x - 1.0) / (x + 1.0)
        }
    }
    pub fn h(&self, p: &Zpk, x: C) -> C {
        let s = self.to_s(x);
        if !(s.re.is_finite() && s.im.is_finite()) {
            // z = -1: infinite analog frequency
            return match self.band {
                Band::Lp | Band::Bp => p.h(c(f64::INFINITY, 0.0)),
                Band::Hp | Band::Bs => p.h(c(0.0, 0.0)),
            };
        }
        let g = self.map(s);
        p.h(g)
    }
    /// Relative amplification of rounding in the request's own parameters.
    pub fn amp(&self) -> f64 {
        let e = self.edges();
        let near = if self.analog { 0.0 } else { self.w.iter().fold(0.0f64, |m, x| m.max(1.0 / (1.0 - x))) };
        // each edge seen from the other scale of the problem
        let mut a = 2.0 + near;
        if e.len() == 2 {
            let wo = (e[0] * e[1]).sqrt();
            a += (e[1] - e[0]) / wo + (e[0] + e[1]) / (e[1] - e[0]);
            // the band-stop transform cancels in a - sqrt(a^2 - wo^2) when |a| is large
            if self.band == Band::Bs {
                let q = proto(self.fam, self.n);
                let big = q.p.iter().map(|p| (e[1] - e[0]) / 2.0 / cabs(*p)).fold(0.0, f64::max);
                a += if self.analog { 2.0 * (big / wo).powi(2) } else { 2.0 * big };
            }
        }
        a
    }
}

/// A designed filter, whatever its format; polynomials in descending powers of s (or z).
#[derive(Clone, Debug)]
pub enum Got {
    Ba(Vec<f64>, Vec<f64>),
    Zpk(Zpk),
    Sos(Vec<Sec>),
}
pub fn got<T: Flt>(d: &DigitalFilter<T>) -> Got {
    match d {
        DigitalFilter::Ba(x) => Got::Ba(tov(&x.b), tov(&x.a)),
        DigitalFilter::Zpk(x) => Got::Zpk(Zpk {
            z: x.z.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
            p: x.p.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
            k: x.k.f(),
        }),
        DigitalFilter::Sos(x) => Got::Sos(from_sos(&x.sos)),
    }
}
impl Got {
    /// H at x, its magnitude with cancelled numerators floored at rounding, and its condition
    /// with respect to relative rounding of every stored number.
    pub fn h(&self, x: C, eps: f64) -> (C, f64, f64) {
        match self {
            Got::Zpk(q) => {
                let h = q.h(x);
                let mut cond = 1.0;
                for r in &q.p {
                    cond += (cabs(x) + cabs(*r)) / cabs(x - r);
                }
                let mag = cabs(h);
                for r in &q.z {
                    let d = cabs(x - r);
                    let sc = cabs(x) + cabs(*r);
                    if d > 1e-3 * eps * sc {
                        cond += sc / d;
                    }
                }
                (h, mag, cond)
            }
            Got::Ba(b, a) => poly_h(&[(b.clone(), a.clone())], x, eps),
            Got::Sos(s) => poly_h(&s.iter().map(|q| (q.b.to_vec(), q.a.to_vec())).collect::<Vec<_>>(), x, eps),
        }
    }
    pub fn finite(&self) -> bool {
        match self {
            Got::Ba(b, a) => b.iter().chain(a).all(|v| v.is_finite()),
            Got::Zpk(q) => q.k.is_finite() && q.z.iter().chain(&q.p).all(|v| v.re.is_finite() && v.im.is_finite()),
            Got::Sos(s) => s.iter().all(|q| q.b.iter().chain(&q.a).all(|v| v.is_finite())),
        }
    }
    pub fn flat(&self) -> Vec<f64> {
        match self {
            Got::Ba(b, a) => b.iter().chain(a).copied().collect(),
            Got::Zpk(q) => q.z.iter().chain(&q.p).flat_map(|v| [v.re, v.im]).chain([q.k]).collect(),
            Got::Sos(s) => s.iter().flat_map(|q| q.b.into_iter().chain(q.a)).collect(),
        }
    }
    /// Value of the denominator's roots test: are all poles strictly inside the stability region?
    pub fn stable(&self, analog: bool) -> Option<bool> {
        match self {
            Got::Zpk(q) => Some(q.p.iter().all(|p| if analog { p.re < 0.0 } else { cabs(*p) < 1.0 })),
            Got::Sos(s) => Some(s.iter().all(|q| {
                let a = q.a;
                if analog {
                    let l: Vec<f64> = a.iter().copied().skip_while(|v| *v == 0.0).collect();
                    !l.is_empty() && l.iter().all(|v| *v > 0.0)
                } else {
                    a[0] > 0.0 && a[2].abs() < a[0] && a[1].abs() < a[0] + a[2]
                }
            })),
            Got::Ba(..) => None,
        }
    }
}
fn poly_h(secs: &[(Vec<f64>, Vec<f64>)], x: C, eps: f64) -> (C, f64, f64) {
    let (mut h, mut mag, mut cond) = (c(1.0, 0.0), 1.0, 1.0);
    for (b, a) in secs {
        // common powers of the variable cancel
        let mut k = a.len().min(b.len());
        while k > 1 && a[k - 1] == 0.0 && b[k - 1] == 0.0 && a.len() == b.len() {
            k -= 1;
        }
        let (b, a) = if a.len() == b.len() { (&b[..k], &a[..k]) } else { (&b[..], &a[..]) };
        let (n, d) = (polyval(b, x), polyval(a, x));
        let (pn, pd) = (polycond(b, x), polycond(a, x));
        h *= cdiv(n, d);
        let m = cabs(n).max(eps * pn);
        mag *= m / cabs(d);
        if m > 0.0 {
            cond += pn / m;
        }
        cond += pd / cabs(d);
    }
    (h, mag, cond)
}

/// Points at which a design is examined: on the frequency axis (including the critical
/// frequencies and their neighbourhood) and off it.
pub fn points(sp: &Spec) -> Vec<C> {
    let mut v = vec![];
    if sp.analog {
        let lo = sp.w[0];
        let hi = *sp.w.last().unwrap();
        let mut w = vec![0.0, lo, hi, (lo * hi).sqrt()];
        for f in [0.01, 0.1, 0.3, 0.5, 0.8, 0.95, 0.99, 1.01, 1.05, 1.2, 2.0, 3.3, 10.0, 100.0] {
            w.push(lo * f);
            if hi != lo {
                w.push(hi * f);
            }
        }
        for i in 1..6 {
            w.push(lo + (hi - lo) * i as f64 / 6.0);
        }
        v.extend(w.iter().map(|x| c(0.0, *x)));
        for f in [0.2, 1.0, 4.0] {
            for th in [0.0f64, 0.5, 1.2] {
                v.push(c(lo * f * th.cos(), lo * f * th.sin()));
                v.push(c(hi * f * th.cos(), hi * f * th.sin()));
            }
        }
    } else {
        let mut th: Vec<f64> = (0..=16).map(|i| PI * i as f64 / 16.0).collect();
        for x in &sp.w {
            for f in [0.1, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 2.0] {
                if x * f < 1.0 {
                    th.push(PI * x * f);
                }
                // near Nyquist the distance to it is what counts
                if *x > 0.99 {
                    th.push(PI * (1.0 - (1.0 - x) * f));
                }
            }
        }
        if sp.w.len() == 2 {
            for i in 1..6 {
                th.push(PI * (sp.w[0] + (sp.w[1] - sp.w[0]) * i as f64 / 6.0));
            }
        }
        v.extend(th.iter().map(|t| if *t == 0.0 { c(1.0, 0.0) } else if *t == PI { c(-1.0, 0.0) } else { c(t.cos(), t.sin()) }));
        for r in [1.1, 1.5, 3.0, 12.0] {
            for t in [0.0f64, 0.4, 1.3, 2.2, 3.1] {
                v.push(c(r * t.cos(), r * t.sin()));
            }
        }
    }
    v
}

/// Error of an expanded transfer function: the polynomials are accumulated root by root, so the
/// rounding is relative to the product of absolute values, and the computed values themselves
/// may be all rounding error.
pub fn true_cond(zs: &[C], ps: &[C], g: &Got, x: C, w: f64) -> f64 {
    match g {
        Got::Ba(..) => {
            let part = |v: &[C]| v.iter().fold(1.0, |m, p| m * (cabs(x) + cabs(*p)) / cabs(x - p).max(1e-280));
            let d = part(ps);
            // the numerator may vanish: w * part(zs) is k * prod(|x|+|z|) / |a|
            let n = part(zs);
            let num = if w == 0.0 || !n.is_finite() {
                // lead coefficient times prod(|x|+|z|) over the true denominator
                let lead = if let Got::Ba(b, _) = g { b.iter().find(|v| **v != 0.0).copied().unwrap_or(0.0).abs() } else { 0.0 };
                let top = zs.iter().fold(lead, |m, z| m * (cabs(x) + cabs(*z)));
                top / ps.iter().fold(1.0, |m, p| m * cabs(x - p))
            } else {
                w * n
            };
            num + w * d
        }
        _ => 0.0,
    }
}

pub struct Tol {
    pub k: f64,
    pub floor: f64,
    pub skip: f64,
}
pub fn tol<T: Flt>() -> Tol {
    if T::EPS > 1e-10 {
        Tol { k: 16.0, floor: 1e-4, skip: 0.03 }
    } else {
        Tol { k: 64.0, floor: 1e-9, skip: 1e-3 }
    }
}

/// Compares a design with the analytic reference; returns the number of points judged.
pub fn judge<T: Flt>(sp: &Spec, g: &Got, want: &dyn Fn(C) -> C) -> R<usize> {
    let t = tol::<T>();
    let amp = sp.amp();
    let (zs, ps) = (zeros(sp), poles(sp));
    let mut used = 0;
    for x in points(sp) {
        let w = want(x);
        let (h, m, cd) = g.h(x, T::EPS);
        let e = m.max(cabs(w)) * cd + true_cond(&zs, &ps, g, x, cabs(w));
        let tl = t.k * T::EPS * amp * e + t.floor * (cabs(w) + 1e-6) + 1e-14 * amp * sp.n as f64;
        if !(tl <= t.skip * cabs(w).max(1e-3)) {
            continue;
        }
        used += 1;
        ensure!(cabs(h - w) <= tl, "{:?}: response at {} is {} instead of {} (tolerance {:e}); {:?}", sp, x, h, w, tl, g);
    }
    Ok(used)
}
/// The same, magnitude only, against the closed form on the frequency axis.
pub fn judge_mag<T: Flt>(sp: &Spec, g: &Got) -> R<usize> {
    let t = tol::<T>();
    let amp = sp.amp();
    let (zs, ps) = (zeros(sp), poles(sp));
    let mut used = 0;
    for x in points(sp) {
        let s = sp.to_s(x);
        if (sp.analog && x.re != 0.0) || (!sp.analog && (cabs(x) - 1.0).abs() > 1e-9) || !s.im.is_finite() || s.im.abs() > 1e12 {
            continue;
        }
        let om = sp.map(c(0.0, s.im));
        if !om.im.is_finite() {
            continue;
        }
        let w = mag2(sp.fam, sp.n, om.im).sqrt();
        let (h, m, cd) = g.h(x, T::EPS);
        let e = m.max(w) * cd + true_cond(&zs, &ps, g, x, w);
        let tl = t.k * T::EPS * amp * e + t.floor * (w + 1e-6) + 1e-14 * amp * sp.n as f64;
        if !(tl <= t.skip * w.max(1e-3)) {
            continue;
        }
        used += 1;
        ensure!((cabs(h) - w).abs() <= tl, "{:?}: magnitude at {} is {} instead of {} (tolerance {:e}); {:?}", sp, x, cabs(h), w, tl, g);
    }
    Ok(used)
}

pub fn expected_sections(sp: &Spec) -> usize {
    if sp.band.two() {
        sp.n
    } else {
        (sp.n + 1) / 2
    }
}

/// Shape and sanity requirements common to all designs.
pub fn shape(sp: &Spec, g: &Got) -> R {
    ensure!(g.finite(), "{:?}: non-finite coefficients {:?}", sp, g);
    let np = if sp.band.two() { 2 * sp.n } else { sp.n };
    match g {
        Got::Zpk(q) => ensure!(q.p.len() == np, "{:?}: {} poles instead of {}", sp, q.p.len(), np),
        Got::Sos(s) => ensure!(s.len() == expected_sections(sp), "{:?}: {} sections instead of {}", sp, s.len(), expected_sections(sp)),
        Got::Ba(b, a) => {
            ensure!(a.len() >= np + 1 && b.len() == a.len(), "{:?}: {} and {} coefficients", sp, b.len(), a.len());
            let lead = a.iter().find(|v| **v != 0.0).copied().unwrap_or(0.0);
            ensure!((lead - 1.0).abs() < 1e-6, "{:?}: leading denominator coefficient {}", sp, lead);
        }
    }
    if let Some(s) = g.stable(sp.analog) {
        ensure!(s, "{:?}: unstable {:?}", sp, g);
    }
    Ok(())
}

pub fn request<T: Flt>(sp: &Spec, out: FilterOutputType, fs: Option<f64>) -> DigitalFilter<T> {
    let wn: Vec<T> = match fs {
        Some(f) => sp.w.iter().map(|x| T::of(x * f / 2.0)).collect(),
        None => ofv(&sp.w),
    };
    let fs = fs.map(T::of);
    match sp.fam {
        Fam::Butter => butter_dyn(sp.n, wn, Some(sp.band.b()), Some(sp.analog), Some(out), fs),
        Fam::Cheb1(r) => cheby1_dyn(sp.n, T::of(r), wn, Some(sp.band.b()), Some(sp.analog), Some(out), fs),
        Fam::Cheb2(r) => cheby2_dyn(sp.n, T::of(r), wn, Some(sp.band.b()), Some(sp.analog), Some(out), fs),
    }
}
/// The request as the implementation sees it after rounding to T.
pub fn rounded<T: Flt>(sp: &Spec, fs: Option<f64>) -> Spec {
    let mut s = sp.clone();
    s.w = sp
        .w
        .iter()
        .map(|x| match fs {
            Some(f) => 2.0 * T::of(x * f / 2.0).f() / T::of(f).f(),
            None => T::of(*x).f(),
        })
        .collect();
    s.fam = match sp.fam {
        Fam::Butter => Fam::Butter,
        Fam::Cheb1(r) => Fam::Cheb1(T::of(r).f()),
        Fam::Cheb2(r) => Fam::Cheb2(T::of(r).f()),
    };
    s
}

/// Is this request affected by the recorded defect of the high-pass and band-stop transforms on
/// prototypes with finite zeros?
pub fn affected(sp: &Spec) -> bool {
    matches!(sp.fam, Fam::Cheb2(_)) && sp.n >= 2 && matches!(sp.band, Band::Hp | Band::Bs)
}
/// The recorded defect can also put a zero on the pole of the bilinear map, which makes the
/// digital design undefined.
pub fn singular(sp: &Spec) -> bool {
    if !affected(sp) || sp.analog {
        return false;
    }
    let q = proto(sp.fam, sp.n);
    let e: Vec<f64> = sp.w.iter().map(|x| 4.0 * (PI * x / 2.0).tan()).collect();
    let a = match sp.band {
        Band::Hp => bad_lp2hp(&q, e[0]),
        _ => bad_lp2bs(&q, (e[0] * e[1]).sqrt(), e[1] - e[0]),
    };
    a.z.iter().any(|z| cabs(z - 4.0) < 1e-5)
}
/// What the recorded defect makes of such a request.
pub fn defective(sp: &Spec) -> Zpk {
    let q = proto(sp.fam, sp.n);
    let e: Vec<f64> = sp.w.iter().map(|x| if sp.analog { *x } else { 4.0 * (PI * x / 2.0).tan() }).collect();
    let a = match sp.band {
        Band::Hp => bad_lp2hp(&q, e[0]),
        _ => bad_lp2bs(&q, (e[0] * e[1]).sqrt(), e[1] - e[0]),
    };
    if sp.analog {
        return a;
    }
    let f = c(4.0, 0.0);
    let mut z: Vec<C> = a.z.iter().map(|x| (f + x) / (f - x)).collect();
    while z.len() < a.p.len() {
        z.push(c(-1.0, 0.0));
    }
    let num = a.z.iter().fold(c(1.0, 0.0), |m, x| m * (f - x));
    let den = a.p.iter().fold(c(1.0, 0.0), |m, x| m * (f - x));
    Zpk { z, p: a.p.iter().map(|x| (f + x) / (f - x)).collect(), k: a.k * (num / den).re }
}
pub fn bad_lp2hp(q: &Zpk, wo: f64) -> Zpk {
    let mut z: Vec<C> = q.z.iter().map(|x| c(-2.0 * wo, 0.0) / x * c(0.0, -1.0)).collect();
    let p: Vec<C> = q.p.iter().map(|x| c(wo, 0.0) / x).collect();
    while z.len() < p.len() {
        z.push(c(0.0, 0.0));
    }
    let num = q.z.iter().fold(c(1.0, 0.0), |m, x| m * (x - 1.0));
    let den = q.p.iter().fold(c(1.0, 0.0), |m, x| m * -x);
    Zpk { z, p, k: q.k * (num / den).re }
}
pub fn bad_lp2bs(q: &Zpk, wo: f64, bw: f64) -> Zpk {
    let hp: Vec<C> = q.z.iter().map(|x| c(-bw, 0.0) / x * c(0.0, -1.0)).collect();
    let im: Vec<f64> = hp.iter().map(|x| csqrt(c(x.re * x.re - wo * wo, 0.0)).im).collect();
    let mut z: Vec<C> = hp.iter().zip(&im).map(|(x, i)| c(x.re, *i)).collect();
    z.extend(hp.iter().zip(&im).map(|(x, i)| c(x.re, -*i)));
    let deg = q.p.len() - q.z.len();
    z.extend(vec![c(0.0, wo); deg]);
    z.extend(vec![c(0.0, -wo); deg]);
    let mut p = vec![];
    for sgn in [1.0, -1.0] {
        for x in &q.p {
            let a = c(bw / 2.0, 0.0) / x;
            p.push(a + csqrt(a * a - wo * wo) * sgn);
        }
    }
    let num = q.z.iter().fold(1.0, |m, x| m * x.re);
    let den = q.p.iter().fold(c(1.0, 0.0), |m, x| m * -x).re;
    Zpk { z, p, k: q.k * num / den }
}

/// Poles (or finite zeros) of the correct design.
fn roots(sp: &Spec, from: &[C], infinite: usize) -> Vec<C> {
    let e = sp.edges();
    let mut s = vec![];
    for p in from {
        match sp.band {
            Band::Lp => s.push(p * e[0]),
            Band::Hp => s.push(c(e[0], 0.0) / p),
            Band::Bp | Band::Bs => {
                let a = if sp.band == Band::Bp { p * (e[1] - e[0]) / 2.0 } else { c((e[1] - e[0]) / 2.0, 0.0) / p };
                let d = csqrt(a * a - e[0] * e[1]);
                // avoid cancellation: the two roots multiply to w0^2
                let big = if cabs(a + d) > cabs(a - d) { a + d } else { a - d };
                s.push(big);
                s.push(c(e[0] * e[1], 0.0) / big);
            }
        }
    }
    let mut inf = 0;
    for _ in 0..infinite {
        match sp.band {
            Band::Lp => inf += 1,
            Band::Hp => s.push(c(0.0, 0.0)),
            Band::Bp => {
                s.push(c(0.0, 0.0));
                inf += 1;
            }
            Band::Bs => {
                let w = (e[0] * e[1]).sqrt();
                s.push(c(0.0, w));
                s.push(c(0.0, -w));
            }
        }
    }
    if !sp.analog {
        for x in s.iter_mut() {
            *x = (*x + 1.0) / (-*x + 1.0);
        }
        s.extend(vec![c(-1.0, 0.0); inf]);
    }
    s
}
pub fn poles(sp: &Spec) -> Vec<C> {
    roots(sp, &proto(sp.fam, sp.n).p, 0)
}
pub fn zeros(sp: &Spec) -> Vec<C> {
    let q = proto(sp.fam, sp.n);
    roots(sp, &q.z, q.p.len() - q.z.len())
}
/// The denominator of a design against the analytic poles.
pub fn judge_poles<T: Flt>(sp: &Spec, g: &Got) -> R {
    let ps = poles(sp);
    let t = tol::<T>();
    for x in points(sp) {
        let (mut w, mut sc) = (c(1.0, 0.0), 1.0);
        for p in &ps {
            w *= x - p;
            sc *= cabs(x) + cabs(*p);
        }
        let d = match g {
            Got::Zpk(q) => q.p.iter().fold(c(1.0, 0.0), |m, p| m * (x - p)),
            // common powers of x (padding) removed
            Got::Ba(_, a) => polyval(&a[..(ps.len() + 1).min(a.len())], x),
            Got::Sos(s) => {
                let v = s.iter().fold(c(1.0, 0.0), |m, q| m * polyval(&q.a, x));
                let pad = if sp.analog { 0 } else { 2 * s.len() - ps.len() };
                v / x.powu(pad as u32)
            }
        };
        // products of hundreds of roots leave the range of numbers
        let (d, w, sc) = if sc < 1e150 {
            (d, w, sc)
        } else {
            let s: Vec<f64> = ps.iter().map(|p| cabs(x) + cabs(*p)).collect();
            let prod = |v: &mut dyn Iterator<Item = C>| v.zip(&s).fold(c(1.0, 0.0), |m, (f, s)| m * (f / *s));
            match g {
                Got::Zpk(q) => (prod(&mut q.p.iter().map(|p| x - p)), prod(&mut ps.iter().map(|p| x - p)), 1.0),
                _ => continue,
            }
        };
        let tl = t.k * T::EPS * sp.amp() * sc * ps.len() as f64 + t.floor * cabs(w);
        ensure!(cabs(d - w) <= tl, "{:?}: denominator at {} is {} instead of {}; {:?}", sp, x, d, w, g);
    }
    Ok(())
}

/// Judges one design request end to end.
pub fn design<T: Flt>(ctx: &mut Ctx, property: &str, sp: &Spec, out: FilterOutputType, fs: Option<f64>) -> R {
    if singular(sp) {
        return Err(Stop::Skip);
    }
    let d = match ctx.call(|| request::<T>(sp, out, fs)) {
        Ok(d) => d,
        Err(m) => return fail(format!("{:?} {:?} fs={:?} {}: panicked: {}", sp, out, fs, T::NAME, m)),
    };
    let g = got(&d);
    let ok = matches!((&g, out), (Got::Ba(..), FilterOutputType::Ba) | (Got::Zpk(..), FilterOutputType::Zpk) | (Got::Sos(..), FilterOutputType::Sos));
    ensure!(ok, "{:?}: asked for {:?}, got {:?}", sp, out, g);
    let rs = rounded::<T>(sp, fs);
    ctx.note(|| format!("{:?} fs={:?} {} -> {:?}", rs, fs, T::NAME, g));
    ctx.state(&g.flat());
    shape(&rs, &g)?;
    if affected(&rs) {
        let bad = defective(&rs);
        judge_poles::<T>(&rs, &g)?;
        let q = proto(rs.fam, rs.n);
        // repaired code is fine, the recorded defect is reported, anything else is a violation
        if judge::<T>(&rs, &g, &|x| rs.h(&q, x)).is_ok() {
            return Ok(());
        }
        judge::<T>(&rs, &g, &|x| bad.h(x))?;
        let key = if rs.band == Band::Hp { "cheby2-highpass-zeros" } else { "cheby2-bandstop-zeros" };
        return ctx.known(property, key, format!("{:?}: the response is wrong: {:?}", rs, g));
    }
    let q = proto(rs.fam, rs.n);
    let a = judge::<T>(&rs, &g, &|x| rs.h(&q, x))?;
    let b = judge_mag::<T>(&rs, &g)?;
    ctx.trans += (a + b) as u64;
    Ok(())
}
