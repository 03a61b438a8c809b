//! C07: digital Butterworth designs.
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::Check;

pub fn check() -> Check {
    Check {
        id: "C07",
        bounds: "orders 1..=16, four band types, 22 cut-offs and all band pairs of a 12-point grid from 0.001 to 0.99 of Nyquist, six sampling rates or none, three formats, f64; a sub-grid in f32; each design examined at 40-60 points on and off the unit circle",
        assumptions: &["responses are compared where the format's own rounding (condition of its coefficients) stays below 1e-3 in f64 and 3e-2 in f32"],
        scenarios,
    }
}
pub const CUTS: [f64; 22] = [
    0.001, 0.0042, 0.01, 0.02, 0.05, 0.08, 0.1, 0.125, 0.2, 0.25, 0.3, 1.0 / 3.0, 0.4, 0.5, 0.6, 2.0 / 3.0, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99,
];
pub const ENDS: [f64; 12] = [0.005, 0.02, 0.05, 0.1, 0.2, 0.25, 0.35, 0.5, 0.6, 0.75, 0.9, 0.98];
pub fn pairs(e: &[f64]) -> Vec<Vec<f64>> {
    let mut v = vec![];
    for i in 0..e.len() {
        for j in i + 1..e.len() {
            v.push(vec![e[i], e[j]]);
        }
    }
    // narrow bands
    v.push(vec![0.3, 0.302]);
    v.push(vec![0.49, 0.51]);
    v.push(vec![0.1, 0.11]);
    v
}
pub const RATES: [Option<f64>; 7] = [None, Some(2.0), Some(1.0), Some(1666.0), Some(48000.0), Some(0.01), Some(250.5)];

fn grid<T: Flt>(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>, rates: &'static [Option<f64>]) -> Scenario {
    let pr = pairs(&ends);
    sc(format!("butterworth-{}-n{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(1, nmax);
        let band = ctx.pick(&BANDS);
        let w = if band.two() { ctx.pick(&pr) } else { vec![ctx.pick(&cuts)] };
        let out = ctx.pick(&OUTS);
        let fs = ctx.pick(rates);
        let sp = Spec { fam: Fam::Butter, n, band, analog: false, w };
        design::<T>(ctx, "C07", &sp, out, fs)
    })
}
/// Critical frequencies down to a millionth of the band from either end of it.
pub const RIMS: [f64; 12] = [1e-6, 1e-5, 1e-4, 5e-4, 0.003, 0.3, 0.997, 0.9995, 0.9999, 0.99999, 0.999995, 1.0 - 1e-6];
pub fn rims<T: Flt>(property: &'static str, nmax: usize, fams: Vec<Fam>) -> Scenario {
    let mut pr = pairs(&RIMS);
    pr.push(vec![1e-5, 1.5e-5]);
    pr.push(vec![1.0 - 1.5e-5, 1.0 - 1e-5]);
    sc(format!("rims-{}-n{}", T::NAME, nmax), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.range(1, nmax);
        let band = ctx.pick(&BANDS);
        let w = if band.two() { ctx.pick(&pr) } else { vec![ctx.pick(&RIMS)] };
        let out = ctx.pick(&OUTS);
        let fs = ctx.pick(&[None, Some(1000.0)]);
        let sp = Spec { fam, n, band, analog: false, w };
        design::<T>(ctx, property, &sp, out, fs)
    })
}
/// Cut-offs a tiny fraction of the sampling rate, at sampling rates of every magnitude.
pub fn fractions<T: Flt>(property: &'static str, nmax: usize, fams: Vec<Fam>, low: f64) -> Scenario {
    const W: [f64; 16] = [1e-9, 3.3e-9, 1e-8, 7.7e-8, 1.3e-7, 1e-6, 2.2e-6, 1.7e-5, 2e-5, 9e-5, 3.1e-4, 0.0123456789, 0.271828, 0.5000001, 0.77, 0.9876543];
    sc(format!("fractions-{}-n{}", T::NAME, nmax), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.range(1, nmax);
        let band = ctx.pick(&BANDS);
        let i = ctx.choose(W.len());
        let w = if band.two() { vec![W[i], ctx.pick(&[W[i] * 1.5, W[i] * 3.0, 0.9])] } else { vec![W[i]] };
        if w[0] < low || w.len() == 2 && (w[1] >= 1.0 || w[0] >= w[1]) {
            return Err(Stop::Skip);
        }
        let out = ctx.pick(&OUTS);
        // coefficients of second order cannot hold poles that close to 1
        if w[0] < 1e-6 && !(n == 1 && w.len() == 1) && !matches!(out, sci_rs::signal::filter::design::FilterOutputType::Zpk) {
            return Err(Stop::Skip);
        }
        let fs = ctx.pick(&[None, Some(2.0), Some(1e-12), Some(3.7e-5), Some(44100.0), Some(2.4e9), Some(1e15)]);
        let sp = Spec { fam, n, band, analog: false, w };
        design::<T>(ctx, property, &sp, out, fs)
    })
}
/// Frequencies next to simple fractions of the band, at rates that are no round numbers.
pub fn nearby<T: Flt>(property: &'static str, nmax: usize, fams: Vec<Fam>) -> Scenario {
    const F: [f64; 9] = [0.1, 0.125, 0.2, 0.25, 1.0 / 3.0, 0.5, 2.0 / 3.0, 0.75, 0.9];
    const D: [f64; 7] = [0.0, 3e-4, -3e-4, 2e-5, -2e-5, 1e-7, -1e-7];
    sc(format!("nearby-{}-n{}", T::NAME, nmax), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.range(1, nmax);
        let band = ctx.pick(&BANDS);
        let i = ctx.choose(F.len());
        let d = ctx.pick(&D);
        let mut w = vec![F[i] * (1.0 + d)];
        if band.two() {
            let j = ctx.choose(F.len());
            if j == i {
                return Err(Stop::Skip);
            }
            w.push(F[j] * (1.0 + if j % 2 == 0 { d } else { 0.0 }));
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        let out = ctx.pick(&OUTS);
        let fs = ctx.pick(&[None, Some(3.0), Some(123456789.0), Some(1e9 + 1.0), Some(2147483651.0), Some(1e12 + 7.0)]);
        let sp = Spec { fam, n, band, analog: false, w };
        design::<T>(ctx, property, &sp, out, fs)
    })
}
/// Orders nobody has tabulated.
pub fn high<T: Flt>(property: &'static str, fams: Vec<Fam>, analog: bool) -> Scenario {
    sc(format!("orders-to-200-{}", T::NAME), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.pick(&[25, 32, 33, 40, 41, 44, 50, 63, 64, 65, 80, 100, 101, 127, 128, 150, 200]);
        let band = ctx.pick(&BANDS);
        let w = if band.two() { ctx.pick(&[vec![0.1, 0.8], vec![0.25, 0.6]]) } else { vec![ctx.pick(&[0.2, 0.5, 0.7])] };
        let out = ctx.pick(&OUTS[..2]);
        let sp = Spec { fam, n, band, analog, w };
        design::<T>(ctx, property, &sp, out, None)
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let fine: Vec<f64> = (1..100).map(|i| i as f64 / 100.0).collect();
    let fine_ends: Vec<f64> = (1..20).map(|i| i as f64 / 20.0).collect();
    let mut v = vec![
        grid::<f64>(16, CUTS.to_vec(), ENDS.to_vec(), &RATES),
        grid::<f32>(6, vec![0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 0.7, 0.9], vec![0.1, 0.2, 0.35, 0.5, 0.75, 0.9], &RATES[..4]),
        rims::<f64>("C07", 6, vec![Fam::Butter]),
        fractions::<f64>("C07", 5, vec![Fam::Butter], 0.0),
        fractions::<f32>("C07", 2, vec![Fam::Butter], 1e-3),
        nearby::<f64>("C07", 3, vec![Fam::Butter]),
        high::<f64>("C07", vec![Fam::Butter], false),
    ];
    if t {
        v.push(grid::<f64>(24, fine, fine_ends, &RATES));
    }
    if l >= 2 {
        v.push(grid::<f64>(24, (1..400).map(|i| i as f64 / 400.0).collect(), (1..40).map(|i| i as f64 / 40.0).collect(), &RATES));
    }
    if l >= 3 {
        v.push(grid::<f64>(40, (1..1000).map(|i| i as f64 / 1000.0).collect(), (1..60).map(|i| i as f64 / 60.0).collect(), &RATES));
    }
    v
}
