//! C10: formats, equivalent requests, defaults and precisions agree.
use super::c07::{nearby, pairs, CUTS};
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::*;

pub fn check() -> Check {
    Check {
        id: "C10",
        bounds: "three families, orders 0..=10, four band types, 8 cut-offs and all pairs of a 6-point grid, analog and digital, eleven sampling rates from 1e-160 to 1e200, every subset of omitted optional arguments, all three formats pairwise, f32 against f64; the same request repeated",
        assumptions: &["as for C07", "type II band-stop requests for which the defect recorded under C08 divides by zero are left out"],
        scenarios,
    }
}
const FAMS: [Fam; 5] = [Fam::Butter, Fam::Cheb1(0.5), Fam::Cheb1(3.0), Fam::Cheb2(20.0), Fam::Cheb2(50.0)];

/// Agreement of two views of one filter at the points of its specification.
fn agree<A: Flt, B: Flt>(what: &str, sp: &Spec, x: &Got, y: &Got) -> R {
    let eps = A::EPS.max(B::EPS);
    let t = if eps > 1e-10 { tol::<f32>() } else { tol::<f64>() };
    let (zs, ps) = (zeros(sp), poles(sp));
    for s in points(sp) {
        let (a, am, ac) = x.h(s, A::EPS);
        let (b, bm, bc) = y.h(s, B::EPS);
        if !(a.re.is_finite() && b.re.is_finite() && a.im.is_finite() && b.im.is_finite()) {
            continue;
        }
        let w = cabs(a).max(cabs(b));
        let mut e = am.max(w) * ac * A::EPS + bm.max(w) * bc * B::EPS;
        e += true_cond(&zs, &ps, x, s, w) * A::EPS + true_cond(&zs, &ps, y, s, w) * B::EPS;
        let tl = t.k * sp.amp() * e + t.floor * (w + 1e-6);
        if !(tl <= t.skip * w.max(1e-3)) {
            continue;
        }
        ensure!(cabs(a - b) <= tl, "{}: {:?}: at {} the responses are {} and {}; {:?} vs {:?}", what, sp, s, a, b, x, y);
    }
    Ok(())
}
fn spec(ctx: &mut Ctx, nmax: usize, cuts: &[f64], pr: &[Vec<f64>], analog: bool) -> R<Spec> {
    let fam = ctx.pick(&FAMS);
    let n = ctx.range(1, nmax);
    let band = ctx.pick(&BANDS);
    let w = if band.two() { ctx.pick(pr) } else { vec![ctx.pick(cuts)] };
    let sp = Spec { fam, n, band, analog, w };
    if singular(&sp) {
        Err(Stop::Skip)
    } else {
        Ok(sp)
    }
}
fn general<T: Flt>(sp: &Spec, out: Option<FilterOutputType>, analog: Option<bool>, fs: Option<f64>) -> DigitalFilter<T> {
    let wn: Vec<T> = match fs {
        Some(f) => sp.w.iter().map(|x| T::of(x * f / 2.0)).collect(),
        None => ofv(&sp.w),
    };
    let (rp, rs) = match sp.fam {
        Fam::Butter => (None, None),
        Fam::Cheb1(r) => (Some(T::of(r)), None),
        Fam::Cheb2(r) => (None, Some(T::of(r))),
    };
    iirfilter_dyn(sp.n, wn, rp, rs, Some(sp.band.b()), Some(sp.fam.t()), analog, out, fs.map(T::of))
}

fn formats<T: Flt>(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>) -> Scenario {
    let pr = pairs(&ends);
    sc(format!("formats-{}-n{}", T::NAME, nmax), move |ctx| {
        let analog = ctx.flag();
        let sp = spec(ctx, nmax, &cuts, &pr, analog)?;
        let mut v = vec![];
        for o in OUTS {
            let d = ctx.must(&format!("{:?} {:?}", sp, o), || request::<T>(&sp, o, None))?;
            v.push(got(&d));
        }
        ctx.note(|| format!("{:?} -> {:?}", sp, v));
        let rs = rounded::<T>(&sp, None);
        agree::<T, T>("zeros-poles-gain and coefficients", &rs, &v[0], &v[1])?;
        agree::<T, T>("zeros-poles-gain and sections", &rs, &v[0], &v[2])?;
        agree::<T, T>("coefficients and sections", &rs, &v[1], &v[2])?;
        for g in &v {
            ctx.state(&g.flat());
        }
        Ok(())
    })
}
/// The sampling rate only normalises the frequencies.
fn rates<T: Flt>(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>) -> Scenario {
    let pr = pairs(&ends);
    sc(format!("sampling-rate-{}", T::NAME), move |ctx| {
        let sp = spec(ctx, nmax, &cuts, &pr, false)?;
        let fs = ctx.pick(if T::EPS > 1e-10 { &[2.0, 1.0, 1024.0, 0.25, 1666.0, 44100.0, 3e-30, 7e30] } else { &[2.0, 1.0, 1024.0, 0.25, 1666.0, 44100.0, 1e-160, 3e-12, 1000000001.0, 7e20, 1e200] });
        let o = ctx.pick(&OUTS);
        let a = got(&ctx.must("design", || request::<T>(&sp, o, Some(fs)))?);
        // normalise by hand what the rate normalises
        let r = rounded::<T>(&sp, Some(fs));
        let b = got(&ctx.must("design", || request::<T>(&r, o, None))?);
        agree::<T, T>(&format!("fs={} and normalised frequencies", fs), &r, &a, &b)?;
        ctx.state(&a.flat());
        Ok(())
    })
}
fn same(what: &str, a: &Got, b: &Got, tol: f64) -> R {
    let (x, y) = (a.flat(), b.flat());
    ensure!(std::mem::discriminant(a) == std::mem::discriminant(b), "{}: {:?} and {:?}", what, a, b);
    ensure!(x.len() == y.len(), "{}: {:?} and {:?}", what, a, b);
    let m = maxabs(&x).max(1.0);
    for i in 0..x.len() {
        ensure!(close(x[i], y[i], tol * m), "{}: {:?} and {:?}", what, a, b);
    }
    Ok(())
}
/// The family functions equal the general one; repeating a request repeats the answer.
fn families<T: Flt>(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>) -> Scenario {
    let pr = pairs(&ends);
    sc(format!("families-{}-n{}", T::NAME, nmax), move |ctx| {
        let analog = ctx.flag();
        let sp = spec(ctx, nmax, &cuts, &pr, analog)?;
        let o = ctx.pick(&OUTS);
        let fs = if analog { None } else { ctx.pick(&[None, Some(500.0)]) };
        let a = got(&ctx.must("design", || request::<T>(&sp, o, fs))?);
        let b = got(&ctx.must("design", || general::<T>(&sp, Some(o), Some(analog), fs))?);
        same(&format!("{:?}: family function and general function", sp), &a, &b, 1e3 * T::EPS)?;
        let a2 = got(&ctx.must("design", || request::<T>(&sp, o, fs))?);
        same(&format!("{:?}: repeated request", sp), &a, &a2, 0.0)?;
        // the unused ripple has no influence
        if sp.fam == Fam::Butter {
            let wn: Vec<T> = match fs {
                Some(f) => sp.w.iter().map(|x| T::of(x * f / 2.0)).collect(),
                None => ofv(&sp.w),
            };
            let e = got(&ctx.must("design", || {
                iirfilter_dyn(sp.n, wn, Some(T::of(1.0)), Some(T::of(30.0)), Some(sp.band.b()), Some(FilterType::Butterworth), Some(analog), Some(o), fs.map(T::of))
            })?);
            same(&format!("{:?}: with unused ripples", sp), &a, &e, 1e3 * T::EPS)?;
        }
        ctx.state(&a.flat());
        Ok(())
    })
}
/// Every subset of omitted arguments of every entry point against the documented defaults.
fn defaults() -> Scenario {
    sc("omitted-arguments", move |ctx| {
        let n = ctx.range(0, 16);
        let entry = ctx.choose(4);
        let (ob, oa, oo) = (ctx.flag(), ctx.flag(), ctx.flag());
        let of = entry == 3 && ctx.flag();
        let fs = if ctx.flag() { None } else { Some(10.0) };
        // omitted band type: low pass for the family functions, band pass for the general one
        let band = if ob { if entry == 3 { Band::Bp } else { Band::Lp } } else { ctx.pick(&BANDS) };
        let out = if oo { FilterOutputType::Ba } else { ctx.pick(&OUTS) };
        let fam = match entry {
            0 => Fam::Butter,
            1 => Fam::Cheb1(1.0),
            2 => Fam::Cheb2(30.0),
            _ => if of { Fam::Butter } else { ctx.pick(&[Fam::Butter, Fam::Cheb1(1.0), Fam::Cheb2(30.0)]) },
        };
        let w = if band.two() { vec![0.2, 0.55] } else { vec![0.3] };
        let sp = Spec { fam, n, band, analog: false, w };
        let wn: Vec<f64> = sp.w.iter().map(|x| x * fs.unwrap_or(2.0) / 2.0).collect();
        let bt = if ob { None } else { Some(band.b()) };
        let an = if oa { None } else { Some(false) };
        let o = if oo { None } else { Some(out) };
        let what = format!("entry {} n={} btype={:?} analog={:?} output={:?} ftype omitted={} fs={:?}", entry, n, bt, an, o, of, fs);
        let (rp, rs) = match fam {
            Fam::Butter => (None, None),
            Fam::Cheb1(r) => (Some(r), None),
            Fam::Cheb2(r) => (None, Some(r)),
        };
        let a = got(&ctx.must(&what, || match entry {
            0 => butter_dyn::<f64>(n, wn, bt, an, o, fs),
            1 => cheby1_dyn::<f64>(n, 1.0, wn, bt, an, o, fs),
            2 => cheby2_dyn::<f64>(n, 30.0, wn, bt, an, o, fs),
            _ => iirfilter_dyn::<f64>(n, wn, rp, rs, bt, if of { None } else { Some(fam.t()) }, an, o, fs),
        })?);
        let b = got(&ctx.must(&what, || general::<f64>(&sp, Some(out), Some(false), fs))?);
        ctx.note(|| format!("{} -> {:?}", what, a));
        ctx.state(&a.flat());
        same(&what, &a, &b, 1e-12)
    })
}
fn precisions(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>) -> Scenario {
    let pr = pairs(&ends);
    sc("precisions", move |ctx| {
        let analog = ctx.flag();
        let sp = rounded::<f32>(&spec(ctx, nmax, &cuts, &pr, analog)?, None);
        let o = ctx.pick(&OUTS);
        let a = got(&ctx.must("design", || request::<f64>(&sp, o, None))?);
        let b = got(&ctx.must("design", || request::<f32>(&sp, o, None))?);
        ctx.state(&b.flat());
        agree::<f64, f32>("double and single precision", &sp, &a, &b)
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let cuts = vec![0.01, 0.05, 0.1, 0.25, 0.4, 0.6, 0.8, 0.95];
    let ends = vec![0.05, 0.1, 0.25, 0.4, 0.6, 0.9];
    let c32 = vec![0.1, 0.25, 0.5, 0.75];
    let e32 = vec![0.1, 0.3, 0.6, 0.8];
    let mut v = vec![
        formats::<f64>(10, cuts.clone(), ends.clone()),
        formats::<f32>(4, c32.clone(), e32.clone()),
        rates::<f64>(8, cuts.clone(), ends.clone()),
        rates::<f32>(4, c32.clone(), e32.clone()),
        families::<f64>(8, cuts.clone(), ends.clone()),
        families::<f32>(4, c32.clone(), e32.clone()),
        nearby::<f64>("C10", 1, FAMS.to_vec()),
        defaults(),
        precisions(4, c32, e32),
    ];
    if t {
        v.push(formats::<f64>(16, CUTS.to_vec(), (1..16).map(|i| i as f64 / 16.0).collect()));
        v.push(families::<f64>(16, CUTS.to_vec(), (1..12).map(|i| i as f64 / 12.0).collect()));
    }
    if l >= 2 {
        v.push(formats::<f64>(20, (1..40).map(|i| i as f64 / 40.0).collect(), (1..24).map(|i| i as f64 / 24.0).collect()));
        v.push(rates::<f64>(16, CUTS.to_vec(), (1..14).map(|i| i as f64 / 14.0).collect()));
    }
    if l >= 3 {
        v.push(formats::<f64>(24, (1..100).map(|i| i as f64 / 100.0).collect(), (1..40).map(|i| i as f64 / 40.0).collect()));
        v.push(families::<f64>(24, (1..60).map(|i| i as f64 / 60.0).collect(), (1..30).map(|i| i as f64 / 30.0).collect()));
    }
    v
}
