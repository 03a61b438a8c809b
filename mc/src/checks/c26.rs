//! C26: every call is a function of its arguments alone.
use super::c01::to_sos;
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::{Complex, DMatrix};
use ndarray::{arr1, ArrayD, IxDyn};
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::convolve::{convolve, correlate, ConvolveMode};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::signal::resample::resample;
use sci_rs::signal::wave::square;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub fn check() -> Check {
    Check {
        id: "C26",
        bounds: "a catalogue of calls over the whole public API in families whose members differ in one argument; each call alone, every ordered pair of calls, every ordered triple inside a family, every ordered triple of family leaders (thorough: all triples), each call after 60 repetitions of itself and of its siblings, and a rejected call before each; each history in a fresh process, results compared bit for bit with the call alone",
        assumptions: &["histories run on one thread: the library has no threads of its own"],
        scenarios,
    }
}

pub struct Op {
    fam: usize,
    name: String,
    run: Box<dyn Fn() -> Vec<u64> + Send + Sync>,
}
#[derive(Default)]
struct Cat {
    v: Vec<Op>,
    fam: usize,
}
impl Cat {
    fn family(&mut self) -> &mut Self {
        self.fam += 1;
        self
    }
    fn op(&mut self, name: impl Into<String>, f: impl Fn() -> Vec<u64> + Send + Sync + 'static) -> &mut Self {
        let fam = self.fam;
        self.v.push(Op { fam, name: name.into(), run: Box::new(f) });
        self
    }
}
fn b<T: Flt>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.f().to_bits()).collect()
}
fn sig(n: usize, off: usize) -> Vec<f64> {
    (0..n).map(|i| pattern(i + off)).collect()
}
fn sig32(n: usize, off: usize) -> Vec<f32> {
    (0..n).map(|i| pattern(i + off) as f32).collect()
}
/// `sig` with only its middle changed: one sample (1), two samples swapped (2).
fn mid(n: usize, off: usize, how: usize) -> Vec<f64> {
    let mut v = sig(n, off);
    match how {
        0 => {}
        1 => v[n / 2] += 0.125,
        _ => v.swap(n / 2, n / 2 - 1),
    }
    v
}
fn to32(v: Vec<f64>) -> Vec<f32> {
    v.into_iter().map(|x| x as f32).collect()
}
fn b32(v: &[f32]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits() as u64).collect()
}
fn one<T: Flt>(x: (T, usize)) -> Vec<u64> {
    vec![x.0.f().to_bits(), x.1 as u64]
}
fn secs(n: usize, off: usize) -> Vec<Sec> {
    (0..n).map(|i| stock(i + off)).collect()
}
fn des(n: usize, fam: Fam, band: Band, w: Vec<f64>, analog: bool, out: FilterOutputType, fs: Option<f64>) -> Vec<u64> {
    let (rp, rs) = match fam {
        Fam::Butter => (None, None),
        Fam::Cheb1(r) => (Some(r), None),
        Fam::Cheb2(r) => (None, Some(r)),
    };
    let d = iirfilter_dyn::<f64>(n, w, rp, rs, Some(band.b()), Some(fam.t()), Some(analog), Some(out), fs);
    got(&d).flat().iter().map(|x| x.to_bits()).collect()
}
fn zpk(z: &[(f64, f64)], p: &[(f64, f64)], k: f64) -> ZpkFormatFilter<f64> {
    let f = |v: &[(f64, f64)]| v.iter().map(|x| Complex::new(x.0, x.1)).collect();
    ZpkFormatFilter::new(f(z), f(p), k)
}
fn bz(z: &ZpkFormatFilter<f64>) -> Vec<u64> {
    let mut v = vec![z.k.to_bits()];
    for x in z.z.iter().chain(&z.p) {
        v.extend([x.re.to_bits(), x.im.to_bits()]);
    }
    v
}
fn bs(s: &[Sos<f64>]) -> Vec<u64> {
    s.iter().flat_map(|s| b(&[s.b[0], s.b[1], s.b[2], s.a[0], s.a[1], s.a[2], s.zi0, s.zi1])).collect()
}

fn catalogue() -> &'static [Op] {
    static CAT: OnceLock<Vec<Op>> = OnceLock::new();
    CAT.get_or_init(build)
}
fn build() -> Vec<Op> {
    let mut c = Cat::default();
    // filtering
    c.family();
    for (n, s, o) in [(9, 2, 0), (9, 2, 5), (9, 3, 0), (8, 2, 0)] {
        c.op(format!("sosfilt_dyn {} samples {} sections from {}", n, s, o), move || b(&sosfilt_dyn(sig(n, 0).iter(), &mut to_sos::<f64>(&secs(s, o)))));
    }
    c.op("sosfilt_dyn f32", || b(&sosfilt_dyn(sig32(9, 0).iter(), &mut to_sos::<f32>(&secs(2, 0)))));
    c.family();
    for (n, s, o) in [(9, 2, 0), (9, 2, 5), (8, 3, 0), (8, 8, 1)] {
        c.op(format!("sosfilt_fast32_st {} samples {} sections from {}", n, s, o), move || {
            let mut z = vec![0.0f32; n];
            sosfilt_fast32_st(&sig32(n, 0), &mut to_sos::<f32>(&secs(s, o)), &mut z);
            b(&z)
        });
    }
    c.op("sosfilt_ifast32_st", || {
        let mut z = [0.0f32; 8];
        sosfilt_ifast32_st(&(0..8).map(|i| ints(i, 900) as isize).collect::<Vec<_>>(), &mut to_sos::<f32>(&secs(2, 0)), &mut z);
        b(&z)
    });
    c.op("sosfilt_st", || b(&sosfilt_st(sig(7, 0).iter(), &mut to_sos::<f64>(&secs(2, 0))).collect::<Vec<f64>>()));
    c.op("sosfilt_item", || sig(7, 0).iter().scan(to_sos::<f64>(&secs(2, 0)), |s, x| Some(sosfilt_item(x, s).to_bits())).collect());
    c.family();
    for (n, s, o) in [(30, 2, 0), (30, 2, 5), (31, 2, 0), (30, 1, 0)] {
        c.op(format!("sosfiltfilt {} samples {} sections from {}", n, s, o), move || b(&sosfiltfilt_dyn(sig(n, 3).iter(), &to_sos::<f64>(&secs(s, o)))));
    }
    c.op("sosfiltfilt too short", || b(&sosfiltfilt_dyn(sig(5, 3).iter(), &to_sos::<f64>(&secs(2, 0)))));
    c.family();
    for (x, y) in [(0, 10), (1, 10), (0, 11)] {
        c.op(format!("lfilter_zi {} {}", x, y), move || {
            let mut a: Vec<f64> = sig(4, y).iter().map(|v| v * 0.3).collect();
            a[0] = 1.25;
            b(&lfilter_zi_dyn(&sig(4, x), &a))
        });
    }
    c.op("sosfilt_zi", || {
        let mut s = to_sos::<f64>(&secs(3, 0));
        sosfilt_zi_dyn::<f64, _, Sos<f64>>(s.iter_mut());
        bs(&s)
    });
    c.family();
    for (w, o, d, del) in [(7, 2, None, None), (7, 3, None, None), (9, 2, None, None), (7, 2, Some(1), None), (7, 2, Some(1), Some(0.5)), (7, 2, Some(2), Some(0.5))] {
        c.op(format!("savgol_coeffs {} {} {:?} {:?}", w, o, d, del), move || b(&savgol_coeffs_dyn::<f64>(w, o, d, del)));
    }
    c.op("savgol_coeffs f32", || b(&savgol_coeffs_dyn::<f32>(7, 2, None, None)));
    c.family();
    for (w, o, d, del, n) in [(7, 2, None, None, 12), (7, 2, Some(1), None, 12), (7, 2, Some(1), Some(0.25), 12), (5, 2, None, None, 12), (7, 2, None, None, 13), (7, 4, None, None, 12)] {
        c.op(format!("savgol_filter {} {} {:?} {:?} {} samples", w, o, d, del, n), move || b(&savgol_filter_dyn(sig(n, 0).iter(), w, o, d, del)));
    }
    c.family();
    for (r, q, n, ax) in [(5, 2, 2, 0), (5, 2, 3, 0), (2, 5, 2, 1), (5, 5, 2, 0), (5, 5, 2, 1)] {
        c.op(format!("odd_ext {}x{} by {} axis {}", r, q, n, ax), move || odd_ext_dyn(DMatrix::from_fn(r, q, |i, j| pattern(i * 5 + j)), n, ax).iter().map(|x| x.to_bits()).collect());
    }
    c.op("pad odd", || pad(Pad::Odd, Some(2), DMatrix::from_fn(5, 2, |i, j| pattern(i * 5 + j)), 0, 1).1.iter().map(|x| x.to_bits()).collect());
    c.op("odd_ext too long", || odd_ext_dyn(DMatrix::from_fn(3, 1, |i, j| pattern(i * 5 + j)), 3, 0).iter().map(|x| x.to_bits()).collect());
    c.family();
    for (n, o) in [(4, 0), (4, 1), (5, 0)] {
        c.op(format!("companion of {} from {}", n, o), move || companion_dyn::<f64, f64, _>(sig(n, o).into_iter(), n).iter().map(|x| x.to_bits()).collect());
    }
    // the same calls in single precision, and with inputs that differ only in the middle
    c.family();
    for how in 0..3 {
        c.op(format!("sosfiltfilt middle {}", how), move || b(&sosfiltfilt_dyn(mid(30, 3, how).iter(), &to_sos::<f64>(&secs(2, 0)))));
        c.op(format!("sosfilt_dyn middle {}", how), move || b(&sosfilt_dyn(mid(9, 0, how).iter(), &mut to_sos::<f64>(&secs(2, 0)))));
        c.op(format!("savgol_filter middle {}", how), move || b(&savgol_filter_dyn::<_, f64>(mid(12, 0, how).iter(), 7, 2, None, None)));
        c.op(format!("lfilter_zi middle {}", how), move || {
            let mut a: Vec<f64> = mid(4, 10, how).iter().map(|v| v * 0.3).collect();
            a[0] = 1.25;
            b(&lfilter_zi_dyn(&sig(4, 0), &a))
        });
    }
    c.family();
    c.op("sosfiltfilt 30 f32", || b32(&sosfiltfilt_dyn(sig32(30, 3).iter(), &to_sos::<f32>(&secs(2, 0)))));
    c.op("sosfiltfilt 30 f64", || b(&sosfiltfilt_dyn(sig(30, 3).iter(), &to_sos::<f64>(&secs(2, 0)))));
    c.op("lfilter_zi f32", || b32(&lfilter_zi_dyn(&sig32(4, 0), &[1.25f32, 0.2, -0.1, 0.05])));
    c.op("lfilter_zi f64", || b(&lfilter_zi_dyn(&sig(4, 0), &[1.25f64, 0.2, -0.1, 0.05])));
    c.op("sosfilt_zi f32", || {
        let mut s = to_sos::<f32>(&secs(3, 0));
        sosfilt_zi_dyn::<f32, _, Sos<f32>>(s.iter_mut());
        s.iter().flat_map(|s| b32(&[s.zi0, s.zi1])).collect()
    });
    c.op("sosfilt_zi f64", || {
        let mut s = to_sos::<f64>(&secs(3, 0));
        sosfilt_zi_dyn::<f64, _, Sos<f64>>(s.iter_mut());
        bs(&s)
    });
    c.family();
    for (w, o, d, del) in [(7, 2, None, None), (5, 2, None, None), (7, 2, Some(1), None), (7, 2, Some(1), Some(0.25))] {
        c.op(format!("savgol_filter f32 {} {} {:?} {:?}", w, o, d, del), move || b32(&savgol_filter_dyn::<_, f32>(sig32(12, 0).iter(), w, o, d, del.map(|v: f64| v as f32))));
        c.op(format!("savgol_filter f64 {} {} {:?} {:?}", w, o, d, del), move || b(&savgol_filter_dyn::<_, f64>(sig(12, 0).iter(), w, o, d, del)));
        c.op(format!("savgol_coeffs f32 {} {} {:?} {:?}", w, o, d, del), move || b32(&savgol_coeffs_dyn::<f32>(w, o, d, del.map(|v| v as f32))));
        c.op(format!("savgol_coeffs f64 {} {} {:?} {:?}", w, o, d, del), move || b(&savgol_coeffs_dyn::<f64>(w, o, d, del)));
    }
    c.family();
    for how in 0..3 {
        c.op(format!("resample middle {}", how), move || b(&resample(&mid(8, 0, how), 5)));
        c.op(format!("resample f32 middle {}", how), move || b32(&resample(&to32(mid(8, 0, how)), 5)));
        c.op(format!("convolve middle {}", how), move || b(&convolve(&mid(8, 0, how), &sig(5, 60), ConvolveMode::Full)));
        c.op(format!("convolve kernel middle {}", how), move || b(&convolve(&sig(8, 0), &mid(5, 60, how), ConvolveMode::Full)));
        c.op(format!("convolve f32 middle {}", how), move || b32(&convolve(&to32(mid(8, 0, how)), &sig32(5, 60), ConvolveMode::Full)));
    }
    c.family();
    for how in 0..3 {
        c.op(format!("median middle {}", how), move || one(stats::median::<_, f64>(mid(8, 0, how).iter())));
        c.op(format!("median f32 middle {}", how), move || one(stats::median::<_, f32>(to32(mid(8, 0, how)).iter())));
        c.op(format!("stdev middle {}", how), move || one(stats::stdev::<_, f64>(mid(8, 0, how).iter())));
        c.op(format!("stdev f32 middle {}", how), move || one(stats::stdev::<_, f32>(to32(mid(8, 0, how)).iter())));
        c.op(format!("mad middle {}", how), move || one(stats::median_abs_deviation::<_, f64>(mid(8, 0, how).iter())));
        c.op(format!("autocorr middle {}", how), move || vec![stats::autocorr::<_, f64>(mid(8, 0, how).iter(), 1).to_bits()]);
        c.op(format!("autocorr f32 middle {}", how), move || vec![stats::autocorr::<_, f32>(to32(mid(8, 0, how)).iter(), 1).to_bits() as u64]);
        c.op(format!("square middle {}", how), move || square(&arr1(&mid(8, 0, how)), 0.5).iter().map(|x: &f64| x.to_bits()).collect());
    }
    c.op("square f32", || square(&arr1(&sig32(8, 0)), 0.5).iter().map(|x: &f32| x.to_bits() as u64).collect());
    c.family();
    for (n, w, fs) in [(3, 0.2, None), (4, 0.2, None), (3, 0.2, Some(2.0))] {
        for out in [FilterOutputType::Zpk, FilterOutputType::Sos] {
            c.op(format!("butterworth f32 {} {} {:?} {:?}", n, w, fs, out), move || {
                let d = iirfilter_dyn::<f32>(n, vec![w as f32], None, None, Some(FilterBandType::Lowpass), Some(FilterType::Butterworth), Some(false), Some(out), fs.map(|v: f64| v as f32));
                got(&d).flat().iter().map(|x| x.to_bits()).collect()
            });
            c.op(format!("butterworth f64 {} {} {:?} {:?}", n, w, fs, out), move || des(n, Fam::Butter, Band::Lp, vec![w], false, out, fs));
        }
    }
    c.family();
    for n in [4, 5] {
        c.op(format!("companion f32 of {}", n), move || b32(companion_dyn::<f32, f32, _>(sig32(n, 0).into_iter(), n).as_slice()));
        c.op(format!("companion f64 of {}", n), move || b(companion_dyn::<f64, f64, _>(sig(n, 0).into_iter(), n).as_slice()));
        c.op(format!("poly f32 of {}", n), move || b32(poly_dyn(&sig32(n, 0)).as_slice()));
        c.op(format!("poly f64 of {}", n), move || b(poly_dyn(&sig(n, 0)).as_slice()));
        c.op(format!("poly f64 of {} middle", n), move || b(poly_dyn(&mid(n, 0, 1)).as_slice()));
    }
    // design
    let lp = Band::Lp;
    let z = FilterOutputType::Zpk;
    c.family();
    for (n, w, an, out, fs) in [(3, 0.2, false, z, None), (4, 0.2, false, z, None), (3, 0.4, false, z, None), (3, 0.2, true, z, None), (3, 0.2, false, FilterOutputType::Ba, None), (3, 0.2, false, FilterOutputType::Sos, None), (3, 0.2, false, z, Some(2.0)), (3, 0.2, false, z, Some(1.0))] {
        c.op(format!("butterworth low-pass {} {} analog {} {:?} {:?}", n, w, an, out, fs), move || des(n, Fam::Butter, lp, vec![w], an, out, fs));
    }
    c.op("butterworth beyond Nyquist", move || des(3, Fam::Butter, lp, vec![1.5], false, z, None));
    c.family();
    for band in BANDS {
        for n in [2, 3] {
            let w = if band.two() { vec![0.2, 0.5] } else { vec![0.2] };
            c.op(format!("butterworth {:?} {}", band, n), move || des(n, Fam::Butter, band, w.clone(), false, FilterOutputType::Sos, None));
        }
    }
    c.family();
    for (n, f) in [(3, Fam::Cheb1(1.0)), (3, Fam::Cheb1(2.0)), (4, Fam::Cheb1(1.0)), (3, Fam::Cheb2(20.0)), (3, Fam::Cheb2(40.0)), (4, Fam::Cheb2(20.0)), (3, Fam::Butter)] {
        c.op(format!("{:?} low-pass {}", f, n), move || des(n, f, lp, vec![0.3], false, z, None));
    }
    c.op("cheby1 f32", || {
        let d = cheby1_dyn::<f32>(3, 1.0, vec![0.3], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Zpk), None);
        got(&d).flat().iter().map(|x| x.to_bits()).collect()
    });
    c.family();
    let p3 = [(-0.5, 0.8), (-0.5, -0.8), (-1.0, 0.0)];
    let p3b = [(-0.5, 0.7), (-0.5, -0.7), (-1.0, 0.0)];
    for (nm, p, an, k) in [("a", p3, false, 1.0), ("b", p3b, false, 1.0), ("a", p3, true, 1.0), ("a", p3, false, 2.0)] {
        c.op(format!("zpk2sos {} analog {} gain {}", nm, an, k), move || bs(&zpk2sos_dyn(3, zpk(&[(-0.2, 0.0)], &p, k), None, Some(an)).sos));
    }
    c.op("zpk2sos minimal", move || bs(&zpk2sos_dyn(3, zpk(&[(-0.2, 0.0)], &p3, 1.0), Some(ZpkPairing::Minimal), None).sos));
    c.op("zpk2sos lone complex", || bs(&zpk2sos_dyn(1, zpk(&[], &[(0.3, 0.4)], 1.0), None, None).sos));
    c.family();
    for (nm, p, k) in [("a", p3, 1.0), ("b", p3b, 1.0), ("a", p3, 2.0)] {
        c.op(format!("zpk2tf {} {}", nm, k), move || {
            let q = zpk(&[(-0.2, 0.0)], &p, k);
            let t = zpk2tf_dyn(3, &q.z, &q.p, q.k);
            [b(&t.b), b(&t.a)].concat()
        });
    }
    c.op("poly", || b(&poly_dyn(&vec![1.0f64, 2.0, 3.0])));
    c.op("poly other", || b(&poly_dyn(&vec![1.0f64, 2.0, -3.0])));
    c.family();
    for w in [1.5, 2.5] {
        c.op(format!("lp2lp {}", w), move || bz(&lp2lp_zpk_dyn(zpk(&[], &p3, 1.0), Some(w))));
        c.op(format!("lp2hp {}", w), move || bz(&lp2hp_zpk_dyn(zpk(&[], &p3, 1.0), Some(w))));
        c.op(format!("lp2bp {}", w), move || bz(&lp2bp_zpk_dyn(zpk(&[], &p3, 1.0), Some(w), Some(0.5))));
        c.op(format!("lp2bs {}", w), move || bz(&lp2bs_zpk_dyn(zpk(&[], &p3, 1.0), Some(w), Some(0.5))));
        c.op(format!("bilinear {}", w), move || bz(&bilinear_zpk_dyn(zpk(&[], &p3, 1.0), w)));
    }
    c.op("lp2bp other width", move || bz(&lp2bp_zpk_dyn(zpk(&[], &p3, 1.0), Some(1.5), Some(0.75))));
    c.op("lp2bs other width", move || bz(&lp2bs_zpk_dyn(zpk(&[], &p3, 1.0), Some(1.5), Some(0.75))));
    // spectral
    c.family();
    for (n, m, o) in [(7, 5, 0), (7, 5, 9), (7, 6, 0), (8, 5, 0), (5, 7, 0)] {
        c.op(format!("resample {} to {} from {}", n, m, o), move || b(&resample(&sig(n, o), m)));
    }
    c.op("resample f32", || b(&resample(&sig32(7, 0), 5)));
    c.family();
    for (n, m, o) in [(7, 5, 0), (7, 5, 9), (5, 7, 0), (8, 5, 0)] {
        c.op(format!("convolve {} {} from {}", n, m, o), move || b(&convolve(&sig(n, o), &sig(m, 60), ConvolveMode::Full)));
    }
    c.op("convolve other kernel", || b(&convolve(&sig(7, 0), &sig(5, 70), ConvolveMode::Full)));
    c.op("convolve same", || b(&convolve(&sig(7, 0), &sig(5, 60), ConvolveMode::Same)));
    c.op("convolve valid", || b(&convolve(&sig(7, 0), &sig(5, 60), ConvolveMode::Valid)));
    c.op("correlate", || b(&correlate(&sig(7, 0), &sig(5, 60), ConvolveMode::Full)));
    c.op("correlate swapped", || b(&correlate(&sig(5, 60), &sig(7, 0), ConvolveMode::Full)));
    c.op("convolve f32", || b(&convolve(&sig32(7, 0), &sig32(5, 60), ConvolveMode::Full)));
    // statistics
    c.family();
    for (n, o) in [(7, 0), (8, 0), (7, 5)] {
        let one = |x: (f64, usize)| vec![x.0.to_bits(), x.1 as u64];
        c.op(format!("median {} {}", n, o), move || one(stats::median(sig(n, o).iter())));
        c.op(format!("mean {} {}", n, o), move || one(stats::mean(sig(n, o).iter())));
        c.op(format!("stdev {} {}", n, o), move || one(stats::stdev(sig(n, o).iter())));
        c.op(format!("autocorr {} {}", n, o), move || vec![stats::autocorr::<_, f64>(sig(n, o).iter(), 1).to_bits()]);
        c.op(format!("rmssd {} {}", n, o), move || vec![stats::rmssd::<_, f64>(sig(n, o).iter()).to_bits()]);
        c.op(format!("zscore {} {}", n, o), move || b(&stats::zscore(sig(n, o).iter()).collect::<Vec<f64>>()));
        c.op(format!("mod_zscore {} {}", n, o), move || b(&stats::mod_zscore(sig(n, o).iter()).collect::<Vec<f64>>()));
        c.op(format!("mad {} {}", n, o), move || one(stats::median_abs_deviation(sig(n, o).iter())));
    }
    c.op("median of nothing", || {
        let m: (f64, usize) = stats::median(sig(0, 0).iter());
        vec![m.0.to_bits(), m.1 as u64]
    });
    c.family();
    c.op("autocorr_fast32", || {
        let mut y = [0.0f32; 8];
        y.copy_from_slice(&sig32(8, 0));
        let mut x = [0.0f32; 5];
        let v = stats::autocorr_fast32::<8, 5, 2>(&mut y, &mut x);
        [b(&x), b(&[v])].concat()
    });
    c.op("autocorr_fast32 other", || {
        let mut y = [0.0f32; 8];
        y.copy_from_slice(&sig32(8, 3));
        let mut x = [0.0f32; 5];
        let v = stats::autocorr_fast32::<8, 5, 2>(&mut y, &mut x);
        [b(&x), b(&[v])].concat()
    });
    c.op("rms_fast32", || {
        let mut y = [0.0f32; 7];
        y.copy_from_slice(&sig32(7, 0));
        b(&[stats::rms_fast32(&y)])
    });
    // special functions
    c.family();
    for n in [0u64, 5, 20, 3] {
        c.op(format!("factorial {}", n), move || vec![n.factorial(), n.factorial2()]);
    }
    c.op("factorialk 17 3", || vec![17u64.factorialk(3)]);
    c.op("factorialk 17 4", || vec![17u64.factorialk(4)]);
    c.op("factorial overflow", || vec![200u8.factorial() as u64]);
    c.op("factorial i8", || vec![5i8.factorial() as u64]);
    c.family();
    for (n, k) in [(10u64, 4u64), (10, 5), (11, 4), (10, 7)] {
        c.op(format!("combinatorics {} {}", n, k), move || vec![n.comb(k), n.comb_rep(k), n.perm(k), n.stirling2(k)]);
    }
    c.op("comb u16", || vec![10u16.comb(4) as u64]);
    c.family();
    for x in [0.5, 3.0, 9.0, -3.0] {
        c.op(format!("bessel {}", x), move || b(&[Bessel::i0(&x), Bessel::i0e(&x)]));
    }
    c.op("bessel f32", || b(&[3.0f32.i0(), 3.0f32.i0e()]));
    c.op("bessel array", || ArrayD::from_elem(IxDyn(&[2, 2]), 3.0f64).i0().iter().map(|x| x.to_bits()).collect());
    c.op("bessel vector", || b(&vec![0.5f64, 3.0, 9.0].i0e()));
    c.family();
    for d in [0.5, 0.25, 0.0] {
        c.op(format!("square {}", d), move || square(&arr1(&[0.1, 2.0, 4.0, 6.2, 9.0, -1.0]), d).iter().map(|x: &f64| x.to_bits()).collect());
    }
    c.op("square other times", || square(&arr1(&[0.2, 3.0, 5.0, 6.2, 8.0, -2.0]), 0.5).iter().map(|x: &f64| x.to_bits()).collect());
    c.op("square bad duty", || square(&arr1(&[0.2]), 1.5).iter().map(|x: &f64| x.to_bits()).collect());
    c.v
}

fn hash(r: Result<Vec<u64>, ()>) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    match r {
        Ok(v) => {
            h.write_u64(1 + v.len() as u64);
            v.iter().for_each(|x| h.write_u64(*x));
        }
        Err(()) => h.write_u64(0),
    }
    h.finish()
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}
/// Reads histories (one line of numbers each) and runs each in a child of its own, forked before anything of the
/// library has run. Answers with one line: the hashes of the results, or how the child ended.
pub fn driver(_: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let cat = catalogue();
    for line in std::io::stdin().lines() {
        let Ok(line) = line else { return 0 };
        let ops: Vec<usize> = line.split_whitespace().map(|t| t.parse().expect("number")).collect();
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(200);
                let mut out = String::new();
                for i in ops {
                    out += &format!("{:x} ", hash(catch_unwind(AssertUnwindSafe(|| (cat[i].run)())).map_err(|_| ())));
                }
                out += "\n";
                let ok = std::io::Write::write_all(&mut std::fs::File::from(std::os::fd::AsFd::as_fd(&std::io::stdout()).try_clone_to_owned().expect("stdout")), out.as_bytes());
                _exit(if ok.is_ok() { 0 } else { 1 });
            }
            let mut st = 0;
            if pid < 0 || waitpid(pid, &mut st, 0) != pid {
                return 1;
            }
            if st != 0 {
                println!("ended {}", st);
            }
        }
    }
    0
}
struct Server {
    child: std::process::Child,
    to: std::process::ChildStdin,
    from: BufReader<std::process::ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn history(ops: &[usize]) -> R<Vec<u64>> {
    thread_local!(static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) });
    let line = SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| {
            let mut child = Command::new(std::env::current_exe().expect("exe")).args(["driver", "serve"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("a process");
            let to = child.stdin.take().expect("pipe");
            let from = BufReader::new(child.stdout.take().expect("pipe"));
            Server { child, to, from }
        });
        let q = ops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n";
        s.to.write_all(q.as_bytes()).expect("pipe");
        let mut line = String::new();
        s.from.read_line(&mut line).expect("pipe");
        line
    });
    ensure!(!line.starts_with("ended"), "the process running {:?} {}", ops.iter().map(|i| &catalogue()[*i].name).collect::<Vec<_>>(), line.trim());
    Ok(line.split_whitespace().map(|l| u64::from_str_radix(l, 16).unwrap_or(0)).collect())
}
fn alone(i: usize) -> R<u64> {
    static ONCE: OnceLock<Vec<OnceLock<u64>>> = OnceLock::new();
    let v = ONCE.get_or_init(|| (0..catalogue().len()).map(|_| OnceLock::new()).collect());
    if let Some(x) = v[i].get() {
        return Ok(*x);
    }
    let h = history(&[i])?;
    ensure!(h.len() == 1, "no result from {}", catalogue()[i].name);
    Ok(*v[i].get_or_init(|| h[0]))
}
fn run(ctx: &mut Ctx, ops: &[usize]) -> R {
    ctx.trans += ops.len() as u64;
    let h = history(ops)?;
    ensure!(h.len() == ops.len(), "{} results from {} calls", h.len(), ops.len());
    let name = |i: usize| &catalogue()[i].name;
    ctx.note(|| ops.iter().take(4).map(|i| name(*i).as_str()).collect::<Vec<_>>().join(" ; "));
    for (k, i) in ops.iter().enumerate() {
        ctx.state_u(((*i as u128) << 64) | h[k] as u128);
        ensure!(
            h[k] == alone(*i)?,
            "call {} ({}) gives another result after {} calls ({:?} first) than alone",
            k + 1,
            name(*i),
            k,
            ops[..k.min(12)].iter().map(|i| name(*i)).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let cat = catalogue();
    let n = cat.len();
    let fams: Vec<Vec<usize>> = (1..=cat[n - 1].fam).map(|f| (0..n).filter(|i| cat[*i].fam == f).collect()).collect();
    let lead: Vec<usize> = fams.iter().map(|f| f[0]).collect();
    let (f1, f2) = (fams.clone(), fams.clone());
    let mut v = vec![
        sc("pairs", move |ctx| {
            let (i, j) = (ctx.choose(n), ctx.choose(n));
            run(ctx, &[i, j])
        }),
        sc("triples-in-family", move |ctx| {
            let f = ctx.pick(&f1);
            let (i, j, k) = (ctx.pick(&f), ctx.pick(&f), ctx.pick(&f));
            run(ctx, &[i, j, k])
        }),
        sc("many-repetitions", move |ctx| {
            let f = ctx.pick(&f2);
            let i = ctx.pick(&f);
            let j = ctx.pick(&f);
            let mut h = vec![i; 60];
            h.push(j);
            h.extend(f.iter().cycle().take(40));
            run(ctx, &h)
        }),
    ];
    if l >= 1 {
        let f3 = fams.clone();
        let reps = if l >= 3 { 70_000 } else { 2100 };
        v.push(sc("thousands-of-repetitions", move |ctx| {
            let f = ctx.pick(&f3);
            let i = ctx.pick(&f);
            let mut h = vec![i; reps];
            h.extend(f.iter());
            run(ctx, &h)
        }));
        v.push(sc("triples-of-leaders", move |ctx| {
            let (i, j, k) = (ctx.pick(&lead), ctx.pick(&lead), ctx.pick(&lead));
            run(ctx, &[i, j, k])
        }));
    }
    if l >= 2 {
        v.push(sc("triples", move |ctx| {
            // one process per pair, followed by every third call in both orders
            let (i, j) = (ctx.choose(n), ctx.choose(n));
            let mut h = vec![i, j];
            h.extend(0..n);
            h.extend([i, j]);
            h.extend((0..n).rev());
            run(ctx, &h)
        }));
    }
    v
}
