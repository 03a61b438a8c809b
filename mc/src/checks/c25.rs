//! C25: no call reaches memory that is not its own.
use super::c01::to_sos;
use super::design::*;
use crate::engine::*;
use crate::guard;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::{Complex, DMatrix};
use ndarray::{ArrayD, IxDyn};
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::convolve::{convolve, correlate, ConvolveMode};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::signal::resample::resample;
use sci_rs::signal::wave::square;
use sci_rs::special::Bessel;
use sci_rs::stats;

pub fn check() -> Check {
    Check {
        id: "C25",
        bounds: "every entry point that takes sizes, over all argument sizes from empty to beyond the limit (matrices up to 6x6 with extensions up to 8 on axes 0..=2, companion matrices up to 10 coefficients x size 10, transfer functions up to 6x6 coefficients, cascades of 0..=9 sections on 0..=9 samples and buffers, filters of 0..=40 samples, windows up to 9, spectra up to 16x16, designs of order 0..=6 with 0..=3 critical frequencies; matrices, buffers and samples of up to 90000 elements one either side of each limit); each call is made four times, with blocks against an inaccessible page on either side and fresh memory filled with two different bytes",
        assumptions: &["heap accesses are watched at byte granularity next to page boundaries; arrays on the stack are covered by the compiler's bounds checks only"],
        scenarios,
    }
}

fn bits<T: Flt>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.f().to_bits()).collect()
}
fn mat(m: &DMatrix<f64>) -> Vec<u64> {
    let mut v = vec![m.nrows() as u64, m.ncols() as u64];
    v.extend(m.iter().map(|x| x.to_bits()));
    v
}
/// One call under four memory layouts: same result or same rejection, and no stray access.
fn probe(ctx: &mut Ctx, what: impl Fn() -> String, f: impl Fn() -> Vec<u64>) -> R {
    let mut first: Option<Option<Vec<u64>>> = None;
    for (side, fill) in [(1, 0xA7), (2, 0xA7), (1, 0x3E), (2, 0x3E)] {
        let before = guard::damaged();
        let r = guard::with(side, fill, || ctx.call(&f).ok());
        ensure!(guard::damaged() == before, "{}: wrote outside a heap block", what());
        match &first {
            None => {
                let mut h = Fnv(7);
                for x in r.iter().flatten() {
                    std::hash::Hasher::write_u64(&mut h, *x);
                }
                ctx.state_u(std::hash::Hasher::finish(&h) as u128);
                ctx.note(|| format!("{} -> {}", what(), if r.is_some() { "result" } else { "rejected" }));
                first = Some(r);
            }
            Some(w) => ensure!(*w == r, "{}: the result depends on what lies in or around fresh memory ({:x?} and {:x?})", what(), w, r),
        }
    }
    Ok(())
}

fn extension(max: usize) -> Scenario {
    sc("odd-extension", move |ctx| {
        let (r, c) = (ctx.range(0, max), ctx.range(0, max));
        let n = ctx.range(0, max + 2);
        let axis = ctx.range(0, 2);
        probe(ctx, || format!("odd_ext of {}x{} by {} on axis {}", r, c, n, axis), || mat(&odd_ext_dyn(DMatrix::from_fn(r, c, |i, j| pattern(i * 7 + j)), n, axis)))
    })
}
fn padding(max: usize) -> Scenario {
    sc("pad", move |ctx| {
        let (r, c) = (ctx.range(0, max), ctx.range(0, max));
        let k = ctx.choose(4);
        let n = match ctx.range(0, max + 2) {
            0 => None,
            n => Some(n - 1),
        };
        let taps = ctx.range(0, 2);
        let axis = ctx.range(0, 2);
        let kind = || match k {
            0 => Pad::None,
            1 => Pad::Odd,
            2 => Pad::Even,
            _ => Pad::Constant,
        };
        probe(ctx, || format!("pad kind {} of {}x{} by {:?} ({} taps) on axis {}", k, r, c, n, taps, axis), || {
            let (e, m) = pad(kind(), n, DMatrix::from_fn(r, c, |i, j| pattern(i * 7 + j)), axis, taps);
            let mut v = mat(&m);
            v.push(e as u64);
            v
        })
    })
}
fn companions(max: usize) -> Scenario {
    sc("companion", move |ctx| {
        let len = ctx.range(0, max);
        let m = ctx.range(0, max);
        let f32s = ctx.flag();
        probe(ctx, || format!("companion of {} coefficients with size {}", len, m), || {
            if f32s {
                let c = companion_dyn::<f32, f32, _>((0..len).map(|i| pattern(i) as f32 + 2.0), m);
                c.iter().map(|x| x.to_bits() as u64).collect()
            } else {
                mat(&companion_dyn::<f64, f64, _>((0..len).map(|i| pattern(i) + 2.0), m))
            }
        })
    })
}
fn steady(max: usize) -> Scenario {
    sc("steady-state", move |ctx| {
        let (nb, na) = (ctx.range(0, max), ctx.range(0, max));
        let lead = ctx.choose(3);
        probe(ctx, || format!("lfilter_zi of {} and {} coefficients, {} leading zeros", nb, na, lead), || {
            let b: Vec<f64> = (0..nb).map(|i| pattern(i) + 1.5).collect();
            let mut a: Vec<f64> = (0..na).map(|i| if i == 0 { 2.0 } else { 0.3 * pattern(i + 9) }).collect();
            for x in a.iter_mut().take(lead) {
                *x = 0.0;
            }
            bits(&lfilter_zi_dyn(&b, &a))
        })
    })
}
/// Sizes beyond any internal block, for the calls whose work grows with them.
fn wide(sizes: Vec<usize>) -> Scenario {
    sc("wide", move |ctx| {
        let kind = ctx.choose(9);
        let (n, m) = (ctx.pick(&sizes), ctx.pick(&sizes));
        probe(ctx, || format!("kind {} with sizes {} and {}", kind, n, m), || {
            let x: Vec<f64> = (0..n).map(pattern).collect();
            let y: Vec<f64> = (0..m).map(|i| pattern(i + 50)).collect();
            match kind {
                0 => {
                    let a: Vec<f64> = (0..m).map(|i| if i == 0 { 2.0 } else { 0.9 * pattern(i + 9) / m as f64 }).collect();
                    bits(&lfilter_zi_dyn(&x, &a))
                }
                1 => mat(&companion_dyn::<f64, f64, _>((0..n).map(|i| pattern(i) + 2.0), m)),
                2 => bits(&convolve(&x, &y, ConvolveMode::Same)),
                3 => bits(&correlate(&x, &y, ConvolveMode::Full)),
                4 => bits(&resample(&x, m)),
                5 => mat(&odd_ext_dyn(DMatrix::from_fn(n, 2, |i, j| pattern(i + 300 * j)), m, 0)),
                6 => mat(&odd_ext_dyn(DMatrix::from_fn(2, n, |i, j| pattern(j + 300 * i)), m, 1)),
                7 => {
                    let mut secs: Vec<Sec> = (0..n.min(70)).map(stock).collect();
                    for q in &mut secs {
                        q.b = q.b.map(|v| v * 0.7);
                    }
                    bits(&sosfiltfilt_dyn((0..m).map(pattern), &to_sos::<f64>(&secs)))
                }
                _ => {
                    let r: Vec<Complex<f64>> = (0..n).map(|i| Complex::new(0.9 * pattern(i), 0.0)).collect();
                    let p: Vec<Complex<f64>> = (0..m).map(|i| Complex::new(0.9 * pattern(i + 500), 0.0)).collect();
                    let t = zpk2tf_dyn(n.max(m), &r, &p, 0.5);
                    let mut v = bits(&t.b);
                    v.extend(bits(&t.a));
                    v
                }
            }
        })
    })
}
/// Matrices, buffers and cascades of tens of thousands of elements, one element either side of every limit.
fn huge() -> Scenario {
    sc("huge", move |ctx| {
        let kind = ctx.choose(6);
        let (r, c) = ctx.pick(&[(300, 300), (2, 33_000), (33_000, 2), (1, 70_001), (70_001, 1), (257, 256)]);
        let axis = ctx.choose(2);
        let side = if axis == 1 { c } else { r };
        let n = ctx.pick(&[0, 1, side / 2, side.max(2) - 2, side - 1, side, side + 1]);
        probe(ctx, || format!("kind {} {}x{} by {} on axis {}", kind, r, c, n, axis), || {
            let m = || DMatrix::from_fn(r, c, |i, j| ((i * 7 + j * 3) % 1001) as f64);
            match kind {
                0 => mat(&odd_ext_dyn(m(), n, axis)),
                1..=2 => {
                    let (e, m) = pad(if kind == 1 { Pad::Odd } else { Pad::None }, Some(n), m(), axis, 2);
                    let mut v = mat(&m);
                    v.push(e as u64);
                    v
                }
                3 => {
                    let y32: Vec<f32> = (0..side).map(|i| (i % 101) as f32).collect();
                    let mut z = vec![1.0f32; n];
                    let mut s: Vec<Sos<f32>> = to_sos(&[stock(0), stock(1)]);
                    sosfilt_fast32_st(&y32, &mut s, &mut z);
                    bits(&z)
                }
                4 => {
                    let y: Vec<i16> = (0..side).map(|i| (i % 101) as i16).collect();
                    let mut z = vec![1.0f32; n];
                    let mut s: Vec<Sos<f32>> = to_sos(&[stock(0), stock(1), stock(2)]);
                    sosfilt_ifast32_st(&y, &mut s, &mut z);
                    bits(&z)
                }
                _ => {
                    let y: Vec<f64> = (0..side).map(|i| (i % 101) as f64).collect();
                    vec![stats::autocorr::<_, f64>(y.iter(), n).to_bits(), stats::median::<_, f64>(y.iter().take(n)).0.to_bits()]
                }
            }
        })
    })
}
fn cascades(max: usize) -> Scenario {
    sc("cascades", move |ctx| {
        let kind = ctx.choose(5);
        let n = ctx.range(0, max);
        let s = ctx.range(0, max);
        let z = if kind >= 3 { ctx.range(0, max) } else { n };
        probe(ctx, || format!("filter kind {} with {} sections, {} samples, buffer of {}", kind, s, n, z), || {
            let secs: Vec<Sec> = (0..s).map(stock).collect();
            let mut s64: Vec<Sos<f64>> = to_sos(&secs);
            let mut s32: Vec<Sos<f32>> = to_sos(&secs);
            let y: Vec<f64> = (0..n).map(pattern).collect();
            let y32: Vec<f32> = y.iter().map(|x| *x as f32).collect();
            let yi: Vec<i16> = (0..n).map(|i| ints(i, 900) as i16).collect();
            let mut o = vec![5.5f32; z];
            match kind {
                0 => bits(&sosfilt_dyn(y.iter(), &mut s64)),
                1 => bits(&sosfilt_st(y.iter(), &mut s64).collect::<Vec<f64>>()),
                2 => y.iter().map(|x| sosfilt_item(x, &mut s64).to_bits()).collect(),
                3 => {
                    sosfilt_fast32_st(&y32, &mut s32, &mut o);
                    bits(&o)
                }
                _ => {
                    let yi: Vec<isize> = yi.iter().map(|x| *x as isize).collect();
                    sosfilt_ifast32_st(&yi, &mut s32, &mut o);
                    bits(&o)
                }
            }
        })
    })
}
fn zero_phase(max: usize) -> Scenario {
    sc("zero-phase", move |ctx| {
        let s = ctx.range(0, 4);
        let n = ctx.range(0, max);
        let order1 = ctx.flag();
        probe(ctx, || format!("sosfiltfilt of {} samples by {} sections", n, s), || {
            let mut secs: Vec<Sec> = (0..s).map(stock).collect();
            if order1 {
                for q in secs.iter_mut() {
                    q.a[2] = 0.0;
                    q.b[2] = 0.0;
                }
            }
            bits(&sosfiltfilt_dyn((0..n).map(pattern), &to_sos::<f64>(&secs)))
        })
    })
}
fn savgol(max: usize) -> Scenario {
    sc("savitzky-golay", move |ctx| {
        let w = ctx.range(0, max);
        let o = ctx.range(0, 5);
        let d = match ctx.range(0, 5) {
            0 => None,
            d => Some(d - 1),
        };
        let n = ctx.range(0, max + 4);
        let coef = n == max + 4;
        probe(ctx, || format!("savgol window {} order {} derivative {:?} of {} samples (coefficients only: {})", w, o, d, n, coef), || {
            if coef {
                bits(&savgol_coeffs_dyn::<f64>(w, o, d, None))
            } else {
                bits(&savgol_filter_dyn((0..n).map(pattern), w, o, d, None))
            }
        })
    })
}
fn spectra(max: usize) -> Scenario {
    sc("spectral", move |ctx| {
        let kind = ctx.choose(7);
        let (n, m) = (ctx.range(0, max), ctx.range(0, max));
        let mode = || match kind % 3 {
            0 => ConvolveMode::Full,
            1 => ConvolveMode::Valid,
            _ => ConvolveMode::Same,
        };
        probe(ctx, || format!("spectral kind {} with sizes {} and {}", kind, n, m), || {
            let x: Vec<f64> = (0..n).map(pattern).collect();
            let y: Vec<f64> = (0..m).map(|i| pattern(i + 50)).collect();
            bits(&match kind {
                0..=2 => convolve(&x, &y, mode()),
                3..=5 => correlate(&x, &y, mode()),
                _ => resample(&x, m),
            })
        })
    })
}
fn statistics(max: usize) -> Scenario {
    sc("statistics", move |ctx| {
        let kind = ctx.choose(11);
        let n = ctx.range(0, max);
        let k = if kind == 4 { ctx.range(0, max + 1) } else { 0 };
        probe(ctx, || format!("statistic {} of {} samples, {}", kind, n, k), || {
            let y: Vec<f64> = (0..n).map(|i| (pattern(i) * 3.0).round()).collect();
            let one = |x: (f64, usize)| vec![x.0.to_bits(), x.1 as u64];
            match kind {
                0 => one(stats::median(y.iter())),
                1 => one(stats::mean(y.iter())),
                2 => one(stats::variance(y.iter())),
                3 => one(stats::stdev(y.iter())),
                4 => vec![stats::autocorr::<_, f64>(y.iter(), k).to_bits()],
                5 => bits(&stats::lag_diff(y.iter()).collect::<Vec<f64>>()),
                6 => vec![stats::rmssd::<_, f64>(y.iter()).to_bits()],
                7 => bits(&stats::zscore(y.iter()).collect::<Vec<f64>>()),
                8 => bits(&stats::mod_zscore(y.iter()).collect::<Vec<f64>>()),
                9 => one(stats::median_abs_deviation(y.iter())),
                _ => {
                    let yi: Vec<i32> = y.iter().map(|x| *x as i32).collect();
                    let m: (i32, usize) = stats::median(yi.iter());
                    vec![m.0 as u64, m.1 as u64]
                }
            }
        })
    })
}
fn fzpk(z: &ZpkFormatFilter<f64>) -> Vec<u64> {
    let mut v = vec![z.z.len() as u64, z.p.len() as u64, z.k.to_bits()];
    for x in z.z.iter().chain(&z.p) {
        v.extend([x.re.to_bits(), x.im.to_bits()]);
    }
    v
}
fn roots(n: usize, real: bool, off: f64) -> Vec<Complex<f64>> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n {
        if real || v.len() + 1 == n {
            v.push(c(-0.3 - 0.1 * i as f64 + off, 0.0));
        } else {
            let q = c(-0.2 - 0.1 * i as f64 + off, 0.25 + 0.1 * i as f64);
            v.push(q);
            v.push(q.conj());
        }
        i += 1;
    }
    v
}
fn conversions(max: usize) -> Scenario {
    sc("conversions", move |ctx| {
        let kind = ctx.choose(11);
        let (nz, np) = (ctx.range(0, max), ctx.range(0, max));
        let order = ctx.range(0, max);
        let (rz, rp) = (ctx.flag(), ctx.flag());
        probe(ctx, || format!("conversion {} with {} zeros, {} poles, order {}", kind, nz, np, order), || {
            let (z, p) = (roots(nz, rz, 0.0), roots(np, rp, 0.05));
            let zpk = || ZpkFormatFilter::new(z.clone(), p.clone(), 0.7);
            match kind {
                0 => bits(&poly_dyn(&z.iter().map(|x| x.re).collect::<Vec<f64>>())),
                1 | 2 => {
                    let t = zpk2tf_dyn(order, &z, &p, 0.7f64);
                    let mut v = bits(&t.b);
                    v.extend(bits(&t.a));
                    v
                }
                3 => zpk2sos_dyn(order, zpk(), None, None).sos.iter().flat_map(|s| bits(&[s.b, s.a].concat())).collect(),
                4 => zpk2sos_dyn(order, zpk(), None, Some(true)).sos.iter().flat_map(|s| bits(&[s.b, s.a].concat())).collect(),
                5 => fzpk(&lp2lp_zpk_dyn(zpk(), Some(1.5))),
                6 => fzpk(&lp2hp_zpk_dyn(zpk(), Some(1.5))),
                7 => fzpk(&lp2bp_zpk_dyn(zpk(), Some(1.5), Some(0.5))),
                8 => fzpk(&lp2bs_zpk_dyn(zpk(), Some(1.5), Some(0.5))),
                9 => fzpk(&bilinear_zpk_dyn(zpk(), 2.0)),
                _ => Sos::from_scipy_dyn(order, (0..nz * 6 + np).map(pattern).collect::<Vec<f64>>()).iter().flat_map(|s| bits(&[s.b, s.a].concat())).collect(),
            }
        })
    })
}
fn designs(nmax: usize) -> Scenario {
    sc("designs", move |ctx| {
        let n = ctx.range(0, nmax);
        let fam = ctx.pick(&[Fam::Butter, Fam::Cheb1(1.0), Fam::Cheb2(30.0)]);
        let band = ctx.pick(&BANDS);
        let out = ctx.pick(&OUTS);
        let m = ctx.range(0, 3);
        let analog = ctx.flag();
        let rip = ctx.choose(3);
        probe(ctx, || format!("design order {} {:?} {:?} {} frequencies analog {}", n, fam, band, m, analog), || {
            let w: Vec<f64> = (0..m).map(|i| 0.2 + 0.25 * i as f64).collect();
            let (rp, rs) = match rip {
                0 => (Some(1.0), Some(30.0)),
                1 => (Some(0.0), Some(0.0)),
                _ => (None, None),
            };
            let d = iirfilter_dyn::<f64>(n, w, rp, rs, Some(band.b()), Some(fam.t()), Some(analog), Some(out), None);
            got(&d).flat().iter().map(|x| x.to_bits()).collect()
        })
    })
}
fn arrays(max: usize) -> Scenario {
    sc("arrays", move |ctx| {
        let kind = ctx.choose(5);
        let dims = ctx.range(0, 3);
        let shape: Vec<usize> = (0..dims).map(|_| ctx.range(0, max)).collect();
        let flip = ctx.flag();
        probe(ctx, || format!("array kind {} of shape {:?}, transposed {}", kind, shape, flip), || {
            let mut k = 0;
            let a = ArrayD::from_shape_simple_fn(IxDyn(&shape), || {
                k += 1;
                5.0 * pattern(k)
            });
            let t = if flip { a.t().to_owned() } else { a.clone() };
            match kind {
                0 => square(&t, 0.4).iter().map(|x| x.to_bits()).collect(),
                1 => square(&a.t(), 0.4).iter().map(|x| x.to_bits()).collect(),
                2 => t.i0().iter().map(|x| x.to_bits()).collect(),
                3 => t.i0e().iter().map(|x| x.to_bits()).collect(),
                _ => bits(&t.iter().copied().collect::<Vec<f64>>().i0()),
            }
        })
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let d = |a: usize, b: usize, c: usize| [a, b, c, c + c / 2][l.min(3) as usize];
    vec![
        extension(d(4, 6, 12)),
        padding(d(3, 5, 8)),
        companions(d(6, 10, 24)),
        steady(d(4, 6, 12)),
        cascades(d(6, 9, 18)),
        zero_phase(d(30, 40, 120)),
        savgol(d(7, 9, 17)),
        spectra(d(8, 16, 64)),
        statistics(d(9, 16, 80)),
        conversions(d(4, 6, 9)),
        designs(d(3, 6, 14)),
        arrays(d(2, 3, 5)),
        huge(),
        wide(if l == 0 { vec![1, 33, 65, 130] } else { vec![0, 1, 2, 3, 5, 16, 17, 31, 32, 33, 47, 63, 64, 65, 66, 67, 100, 127, 128, 129, 130, 200, 255, 256, 257] }),
    ]
}
