//! C28: what is designed is what filters.
use super::c01::{from_sos, to_sos};
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use std::f64::consts::PI;

pub fn check() -> Check {
    Check {
        id: "C28",
        bounds: "Butterworth, Chebyshev I and II designs of order 1..=8 in every band the library designs correctly, 13 cut-offs and their pairs, with and without a sampling rate; each design filters an impulse, a step from its steady state, and sinusoids at 9 frequencies forward and zero-phase",
        assumptions: &["designs whose impulse response does not fall below 1e-12 within 20000 samples are left to C07 and C08, and to the scenario of narrow designs, whose sections must filter like the transfer function they describe"],
        scenarios,
    }
}
const FAMS: [Fam; 5] = [Fam::Butter, Fam::Cheb1(0.5), Fam::Cheb1(3.0), Fam::Cheb2(20.0), Fam::Cheb2(60.0)];
const CUTS: [f64; 13] = [0.01, 0.03, 0.08, 0.15, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.8, 0.9, 0.97];

fn sections<T: Flt>(sp: &Spec, fs: Option<f64>) -> Vec<Sos<T>> {
    let d = request::<T>(sp, FilterOutputType::Sos, fs);
    match d {
        DigitalFilter::Sos(s) => s.sos,
        _ => panic!("not in sections"),
    }
}

fn pipeline(nmax: usize, cuts: Vec<f64>) -> Scenario {
    let mut pairs = vec![];
    for i in 0..cuts.len() {
        for j in i + 1..cuts.len() {
            pairs.push(vec![cuts[i], cuts[j]]);
        }
    }
    sc(format!("pipeline-n{}-{}", nmax, cuts.len()), move |ctx| {
        let fam = ctx.pick(&FAMS);
        let band = ctx.pick(&BANDS);
        let n = ctx.range(1, nmax);
        let w = if band.two() { ctx.pick(&pairs) } else { vec![ctx.pick(&cuts)] };
        let sp = Spec { fam, n, band, analog: false, w };
        if affected(&sp) || singular(&sp) {
            return Err(Stop::Skip);
        }
        let rho = poles(&sp).iter().map(|p| cabs(*p)).fold(0.0, f64::max);
        // samples until the response has died out
        let len = if rho == 0.0 { 60 } else { (60.0 + 30.0 * (1e-2f64.ln() / rho.ln()).max(1.0)) as usize };
        if len > 20000 {
            return Err(Stop::Skip);
        }
        let len = (len + 3) / 4 * 4;
        let sos = match ctx.call(|| sections::<f64>(&sp, None)) {
            Ok(s) => s,
            Err(m) => return fail(format!("{:?}: panicked: {}", sp, m)),
        };
        let q = proto(sp.fam, sp.n);
        let h = |w: f64| sp.h(&q, c(w.cos(), w.sin()));
        let tol = 2e-7;

        // the response to an impulse is the designed response
        let mut s = sos.clone();
        let imp: Vec<f64> = (0..len).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect();
        let y = ctx.must("sosfilt", || sosfilt_dyn(imp.iter(), &mut s))?;
        ensure!(y.len() == len, "{:?}: {} outputs for {} inputs", sp, y.len(), len);
        for k in 0..=16 {
            let w = PI * k as f64 / 16.0;
            let step = c(w.cos(), -w.sin());
            let (mut e, mut acc) = (c(1.0, 0.0), c(0.0, 0.0));
            for v in &y {
                acc += e * *v;
                e *= step;
            }
            let want = h(w);
            ensure!(cabs(acc - want) <= tol, "{:?}: the filtered impulse has response {} instead of {} at {} of Nyquist", sp, acc, want, k as f64 / 16.0);
        }
        ctx.state(&y[..8]);
        ctx.note(|| format!("{:?}: impulse response of {} samples", sp, len));

        // the single-precision fast path realises it too
        let s32: Vec<Sos<f32>> = to_sos(&from_sos(&sos));
        let imp32: Vec<f32> = imp.iter().map(|x| *x as f32).collect();
        let mut z = vec![0.0f32; len];
        let mut t = s32.clone();
        ctx.must("sosfilt_fast32_st", || sosfilt_fast32_st(&imp32, &mut t, &mut z))?;
        let mut t = s32.clone();
        let slow = ctx.must("sosfilt_st", || sosfilt_st(imp32.iter(), &mut t).collect::<Vec<f32>>())?;
        let peak = slow.iter().fold(1e-3f32, |m, v| m.max(v.abs())) as f64;
        cmp(&format!("{:?}: fast path", sp), &tov(&z), &tov(&slow), 2e-3 * peak)?;

        // started in the steady state of a constant, it stays there
        let mut s = sos.clone();
        ctx.must("sosfilt_zi", || sosfilt_zi_dyn::<f64, _, Sos<f64>>(s.iter_mut()))?;
        for q in s.iter_mut() {
            q.zi0 *= 3.0;
            q.zi1 *= 3.0;
        }
        let dc = h(0.0).re;
        let y = ctx.must("sosfilt", || sosfilt_dyn([3.0f64; 40].iter(), &mut s))?;
        cmp(&format!("{:?}: a constant from its steady state", sp), &y, &[3.0 * dc; 40], 1e-6)?;

        // a sinusoid comes out with the designed gain and phase, or zero-phase with the gain squared
        for k in [1, 3, 4, 6, 7, 9, 11, 12, 15] {
            let w = PI * k as f64 / 16.0;
            let total = 2 * len + 96;
            let x: Vec<f64> = (0..total).map(|i| (w * i as f64 + 0.4).cos()).collect();
            let g = h(w);
            let mut s = sos.clone();
            let y = ctx.must("sosfilt", || sosfilt_dyn(x.iter(), &mut s))?;
            for i in [len, len + 17, total - 1] {
                let e = w * i as f64 + 0.4;
                let want = g.re * e.cos() - g.im * e.sin();
                nearf(|| format!("{:?}: sample {} of a sinusoid at {} of Nyquist", sp, i, k as f64 / 16.0), y[i], want, 10.0 * tol)?;
            }
            let y = ctx.must("sosfiltfilt", || sosfiltfilt_dyn(x.iter(), &sos))?;
            ensure!(y.len() == total, "{:?}: {} outputs for {} inputs of the zero-phase filter", sp, y.len(), total);
            let g2 = g.norm_sqr();
            for i in [len, len + 48, len + 95] {
                nearf(|| format!("{:?}: zero-phase sample {} of a sinusoid at {} of Nyquist", sp, i, k as f64 / 16.0), y[i], g2 * x[i], 10.0 * tol)?;
            }
        }
        Ok(())
    })
}
/// Designs too narrow to wait for: the first samples are those of the transfer function the sections describe.
fn narrow<T: Flt>(nmax: usize, cuts: Vec<f64>) -> Scenario
where
    Sos<T>: Clone,
{
    let mut pairs = vec![];
    for w in &cuts {
        pairs.push(vec![*w, 2.0 * *w]);
        pairs.push(vec![0.5 - *w, 0.5]);
        pairs.push(vec![*w, 1.0 - *w]);
    }
    let singles: Vec<f64> = cuts.iter().copied().chain(cuts.iter().map(|w| 1.0 - w)).collect();
    sc(format!("narrow-{}-n{}-{}", T::NAME, nmax, cuts.len()), move |ctx| {
        let fam = ctx.pick(&FAMS);
        let band = ctx.pick(&BANDS);
        let n = ctx.range(1, nmax);
        let w = if band.two() { ctx.pick(&pairs) } else { vec![ctx.pick(&singles)] };
        let sp = Spec { fam, n, band, analog: false, w };
        if affected(&sp) {
            return Err(Stop::Skip);
        }
        let sos = match ctx.call(|| sections::<T>(&sp, None)) {
            Ok(s) => s,
            Err(m) => return fail(format!("{:?}: panicked: {}", sp, m)),
        };
        const N: usize = 48;
        let x: Vec<f64> = (0..N).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect();
        // reference: each section normalised by its leading denominator coefficient
        let mut want = x.clone();
        let mut mag = x.clone();
        for q in &sos {
            let a0 = q.a[0].f();
            ensure!(a0 != 0.0 && a0.is_finite(), "{:?}: leading denominator coefficient {}", sp, a0);
            let b: Vec<f64> = q.b.iter().map(|v| v.f() / a0).collect();
            let a: Vec<f64> = q.a.iter().map(|v| v.f() / a0).collect();
            let (mut y, mut m) = (vec![0.0; N], vec![0.0; N]);
            for i in 0..N {
                for k in 0..3 {
                    if i >= k {
                        y[i] += b[k] * want[i - k];
                        m[i] += b[k].abs() * mag[i - k];
                    }
                    if k > 0 && i >= k {
                        y[i] -= a[k] * y[i - k];
                        m[i] += a[k].abs() * (y[i - k].abs());
                    }
                }
            }
            // running scale of everything that entered a sample
            let mut top = 0.0f64;
            for v in m.iter_mut() {
                top = top.max(*v);
                *v = top;
            }
            want = y;
            mag = m;
        }
        let xs: Vec<T> = x.iter().map(|v| T::of(*v)).collect();
        let mut s = sos.clone();
        let y = ctx.must("sosfilt", || sosfilt_dyn(xs.iter(), &mut s))?;
        let y: Vec<f64> = y.iter().map(|v| v.f()).collect();
        ctx.state(&y[..8]);
        ctx.note(|| format!("{:?}: {:?}", sp, &y[..4]));
        ensure!(y.len() == N, "{:?}: {} outputs", sp, y.len());
        for i in 0..N {
            let tol = T::EPS * 400.0 * (N * sos.len()) as f64 * mag[i];
            nearf(|| format!("{:?} ({}): sample {} of the impulse response of the sections", sp, T::NAME, i), y[i], want[i], tol)?;
        }
        Ok(())
    })
}
/// The sampling rate only names the frequencies.
fn rates(nmax: usize) -> Scenario {
    sc(format!("rates-n{}", nmax), move |ctx| {
        let fam = ctx.pick(&FAMS);
        let band = ctx.pick(&BANDS);
        let n = ctx.range(1, nmax);
        let w = if band.two() {
            ctx.pick(&[vec![0.2, 0.45], vec![0.25 - 1e-5, 0.5 + 2e-4], vec![0.33, 0.75 + 1e-6]])
        } else {
            vec![ctx.pick(&[0.3, 0.5, 0.5 - 2e-4, 0.5 + 1e-6, 0.25 + 1e-5, 0.75 - 3e-4, 0.1 + 1e-6, 1.0 / 3.0 + 1e-5])]
        };
        let fs = ctx.pick(&[1.0, 2.0, 1666.0, 44100.0, 0.02, 3.0, 123456789.0, 1e9 + 1.0]);
        let sp = Spec { fam, n, band, analog: false, w };
        let x: Vec<f64> = (0..64).map(pattern).collect();
        let (mut a, mut b) = match ctx.call(|| (sections::<f64>(&sp, None), sections::<f64>(&sp, Some(fs)))) {
            Ok(s) => s,
            Err(m) => return fail(format!("{:?}: panicked: {}", sp, m)),
        };
        let ya = ctx.must("sosfilt", || sosfilt_dyn(x.iter(), &mut a))?;
        let yb = ctx.must("sosfilt", || sosfilt_dyn(x.iter(), &mut b))?;
        ctx.state(&ya[..8]);
        cmp(&format!("{:?} at rate {}", sp, fs), &yb, &ya, 1e-9 * (1.0 + maxabs(&ya)))
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let mut v = vec![pipeline(if l == 0 { 4 } else { 8 }, if l == 0 { vec![0.15, 0.4, 0.75] } else { CUTS.to_vec() }), rates(if l == 0 { 4 } else { 8 })];
    let cuts: Vec<f64> = if l == 0 { vec![0.002, 0.02] } else { vec![1e-5, 1e-4, 5e-4, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05] };
    v.push(narrow::<f64>(if l == 0 { 6 } else { 12 }, cuts.clone()));
    v.push(narrow::<f32>(if l == 0 { 4 } else { 8 }, cuts[cuts.len() / 2..].to_vec()));
    if l >= 2 {
        v.push(narrow::<f64>(20, (1..60).map(|i| 10f64.powf(-6.0 + i as f64 * 0.09)).collect()));
        v.push(pipeline(12, (1..25).map(|i| i as f64 * 0.04).collect()));
    }
    if l >= 3 {
        v.push(pipeline(16, (1..50).map(|i| i as f64 * 0.02).collect()));
    }
    v
}
