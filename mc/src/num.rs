//! Numeric helpers shared by the reference models.
use crate::engine::*;
use nalgebra::{Complex, RealField};
use num_traits::Float;

pub type C = Complex<f64>;
pub fn c(re: f64, im: f64) -> C {
    Complex::new(re, im)
}
/// Principal square root and logarithm (std or not).
pub fn csqrt(z: C) -> C {
    nalgebra::ComplexField::sqrt(z)
}
pub fn cexp(z: C) -> C {
    c(z.re.exp() * z.im.cos(), z.re.exp() * z.im.sin())
}
pub fn cln(z: C) -> C {
    c(cabs(z).ln(), z.im.atan2(z.re))
}
/// a / b without overflow in |b|^2.
pub fn cdiv(a: C, b: C) -> C {
    let m = cabs(b);
    (a / m) / (b / m)
}
pub fn cabs(z: C) -> f64 {
    z.re.hypot(z.im)
}

/// The two scalar types of the library.
pub trait Flt: RealField + Float + Copy + Default + std::iter::Sum + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Flt for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Flt for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
pub fn tov<T: Flt>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.f()).collect()
}
pub fn ofv<T: Flt>(x: &[f64]) -> Vec<T> {
    x.iter().map(|v| T::of(*v)).collect()
}

/// |a-b| <= tol, with equal infinities and NaN matched to NaN.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}
pub fn maxabs(x: &[f64]) -> f64 {
    x.iter().fold(0.0, |m, v| if v.abs() > m { v.abs() } else { m })
}
pub fn cmp(what: &str, got: &[f64], want: &[f64], tol: f64) -> R {
    if got.len() != want.len() {
        return fail(format!("{}: length {} instead of {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        if !close(got[i], want[i], tol) {
            return fail(format!("{}: element {} is {:e} instead of {:e} (tolerance {:e})", what, i, got[i], want[i], tol));
        }
    }
    Ok(())
}
pub fn near(what: &str, got: f64, want: f64, tol: f64) -> R {
    if close(got, want, tol) {
        Ok(())
    } else {
        fail(format!("{}: {:e} instead of {:e} (tolerance {:e})", what, got, want, tol))
    }
}
pub fn nearf(what: impl FnOnce() -> String, got: f64, want: f64, tol: f64) -> R {
    if close(got, want, tol) {
        Ok(())
    } else {
        near(&what(), got, want, tol)
    }
}

/// A fixed aperiodic pattern of distinct "ordinary" values in [-1, 1].
pub fn pattern(i: usize) -> f64 {
    let x = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    let x = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
    ((x >> 40) as f64) / ((1u64 << 23) as f64) - 1.0
}
pub fn ints(i: usize, m: i64) -> i64 {
    let v = ((pattern(i) + 1.0) * 0.5 * (2 * m + 1) as f64).floor() as i64 - m;
    v.clamp(-m, m)
}

// ---- second order sections -------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Sec {
    pub b: [f64; 3],
    pub a: [f64; 3],
    pub z: [f64; 2],
}
pub fn sec(b: [f64; 3], a: [f64; 3]) -> Sec {
    Sec { b, a, z: [0.0; 2] }
}
/// Transposed direct form II, one sample; returns output and the largest magnitude met.
pub fn df2t(x: f64, s: &mut [Sec], big: &mut f64) -> f64 {
    let mut x = x;
    for q in s.iter_mut() {
        let y = q.b[0] * x + q.z[0];
        q.z[0] = q.b[1] * x - q.a[1] * y + q.z[1];
        q.z[1] = q.b[2] * x - q.a[2] * y;
        for v in [y, q.z[0], q.z[1], x] {
            if v.is_finite() && v.abs() > *big {
                *big = v.abs();
            }
        }
        x = y;
    }
    x
}
/// Section i of an endless catalogue of distinct, stable, roughly unit-gain sections.
pub fn stock(i: usize) -> Sec {
    let r = 0.35 + 0.013 * (i % 29) as f64;
    let th = 0.35 + 0.37 * (i % 7) as f64 + 0.011 * i as f64;
    let a = [1.0, -2.0 * r * th.cos(), r * r];
    let g = 0.55 + 0.01 * (i % 5) as f64;
    let b = [g, 0.21 * g * if i % 2 == 0 { 1.0 } else { -1.0 } + 0.004 * i as f64, 0.13 + 0.003 * i as f64];
    sec(b, a)
}
/// Sections with a special structure.
pub fn special() -> Vec<Sec> {
    vec![
        sec([1.0, 0.0, 0.0], [1.0, 0.0, 0.0]),         // identity
        sec([0.5, 0.25, 0.125], [1.0, -0.5, 0.25]),    // generic
        sec([0.0, 1.0, 0.0], [1.0, 0.0, 0.0]),         // unit delay
        sec([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]),         // two-sample delay
        sec([0.25, 0.25, 0.0], [1.0, -0.5, 0.0]),      // first order
        sec([1.0, -2.0, 1.0], [1.0, -1.5, 0.5625]),    // double zero at DC, double pole
        sec([-0.75, 0.5, -0.25], [1.0, 0.9, 0.2]),     // negative
        sec([0.1, 0.0, -0.1], [1.0, 0.0, 0.81]),       // resonator
        sec([1.0, 0.0, 0.0], [1.0, -1.0, 0.0]),        // integrator
        sec([0.0, 0.0, 0.0], [1.0, -0.5, 0.1]),        // blocks everything but its own state
    ]
}
pub fn h_sos(s: &[Sec], z: C) -> C {
    let w = c(1.0, 0.0) / z;
    let mut h = c(1.0, 0.0);
    for q in s {
        let n = c(q.b[0], 0.0) + w * q.b[1] + w * w * q.b[2];
        let d = c(q.a[0], 0.0) + w * q.a[1] + w * w * q.a[2];
        h = h * n / d;
    }
    h
}

// ---- polynomials and transfer functions ---------------------------------------------------

pub fn polyval(p: &[f64], z: C) -> C {
    p.iter().fold(c(0.0, 0.0), |acc, k| acc * z + c(*k, 0.0))
}
/// Sum of |p_i||z|^i: the conditioning of polyval.
pub fn polycond(p: &[f64], z: C) -> f64 {
    let r = cabs(z);
    p.iter().fold(0.0, |acc, k| acc * r + k.abs())
}
pub fn h_zpk(z: &[C], p: &[C], k: f64, s: C) -> C {
    // interleave to stay in range
    let mut h = c(k, 0.0);
    let n = z.len().max(p.len());
    for i in 0..n {
        if i < z.len() {
            h *= s - z[i];
        }
        if i < p.len() {
            h /= s - p[i];
        }
    }
    h
}
/// Relative difference with floor.
pub fn crel(a: C, b: C) -> f64 {
    let d = cabs(a - b);
    let m = cabs(a).max(cabs(b));
    if d == 0.0 {
        0.0
    } else {
        d / m.max(1e-300)
    }
}

/// A slice whose size hint is right but says little: no upper bound, a loose one, or the largest.
#[derive(Clone)]
pub struct Loose<'a, T> {
    v: &'a [T],
    at: usize,
    hint: usize,
}
pub fn loose<T>(v: &[T], hint: usize) -> Loose<'_, T> {
    Loose { v, at: 0, hint }
}
impl<'a, T> Iterator for Loose<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let r = self.v.get(self.at);
        self.at += 1;
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.v.len().saturating_sub(self.at);
        match self.hint {
            0 => (0, None),
            1 => (left / 2, Some(3 * left + 7)),
            _ => (0, Some(usize::MAX)),
        }
    }
}
