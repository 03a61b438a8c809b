//! C08: digital Chebyshev designs.
use super::c07::{fractions, high, nearby, pairs, rims, CUTS, RATES};
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::Check;
use sci_rs::signal::filter::design::FilterOutputType;

pub fn check() -> Check {
    Check {
        id: "C08",
        bounds: "orders 1..=12, both types, ripples 0.01..6 dB, attenuations 3..100 dB, four band types, 22 cut-offs and all band pairs of an 8-point grid, three formats, five sampling rates or none, explicit and omitted optional arguments, f64; a sub-grid in f32",
        assumptions: &["as for C07", "requests hit by the recorded defect of the high-pass/band-stop transforms with finite zeros (type II, order >= 2) are accepted only when their response is exactly what that defect produces"],
        scenarios,
    }
}
const RP: [f64; 5] = [0.01, 0.1, 0.5, 1.0, 6.0];
const RS: [f64; 6] = [3.0, 10.0, 20.0, 40.0, 60.0, 100.0];

fn grid<T: Flt>(nmax: usize, cuts: Vec<f64>, ends: Vec<f64>, rp: Vec<f64>, rs: Vec<f64>, rates: &'static [Option<f64>]) -> Scenario {
    grid_from::<T>(1, nmax, cuts, ends, rp, rs, rates)
}
fn grid_from<T: Flt>(nmin: usize, nmax: usize, cuts: Vec<f64>, ends: Vec<f64>, rp: Vec<f64>, rs: Vec<f64>, rates: &'static [Option<f64>]) -> Scenario {
    let pr = pairs(&ends);
    let fams: Vec<Fam> = rp.iter().map(|r| Fam::Cheb1(*r)).chain(rs.iter().map(|r| Fam::Cheb2(*r))).collect();
    sc(format!("chebyshev-{}-n{}-{}", T::NAME, nmin, nmax), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.range(nmin, nmax);
        let band = ctx.pick(&BANDS);
        let w = if band.two() { ctx.pick(&pr) } else { vec![ctx.pick(&cuts)] };
        let out = ctx.pick(&OUTS);
        let fs = ctx.pick(rates);
        let sp = Spec { fam, n, band, analog: false, w };
        design::<T>(ctx, "C08", &sp, out, fs)
    })
}
/// Every combination of omitted optional arguments; the documented defaults are low pass,
/// digital, coefficients, critical frequencies relative to Nyquist.
fn defaults() -> Scenario {
    use sci_rs::signal::filter::design::{cheby1_dyn, cheby2_dyn};
    sc("omitted-arguments", move |ctx| {
        let n = ctx.range(1, 7);
        let two = ctx.flag();
        let (ob, oa, oo, of) = (ctx.flag(), ctx.flag(), ctx.flag(), ctx.flag());
        let w = ctx.pick(&[0.07, 0.3, 0.81]);
        let out = if oo { FilterOutputType::Ba } else { ctx.pick(&OUTS) };
        let bt = if ob { None } else { Some(Band::Lp.b()) };
        let an = if oa { None } else { Some(false) };
        let o = if oo { None } else { Some(out) };
        let (fs, wn) = if of { (None, w) } else { (Some(500.0), w * 250.0) };
        let fam = if two { Fam::Cheb2(35.0) } else { Fam::Cheb1(0.8) };
        let what = format!("{:?} n={} btype={:?} analog={:?} output={:?} fs={:?}", fam, n, bt, an, o, fs);
        let d = ctx.must(&what, || match fam {
            Fam::Cheb2(r) => cheby2_dyn::<f64>(n, r, vec![wn], bt, an, o, fs),
            Fam::Cheb1(r) => cheby1_dyn::<f64>(n, r, vec![wn], bt, an, o, fs),
            _ => unreachable!(),
        })?;
        let sp = Spec { fam, n, band: Band::Lp, analog: false, w: vec![w] };
        let g = got(&d);
        let ok = matches!((&g, out), (Got::Ba(..), FilterOutputType::Ba) | (Got::Zpk(..), FilterOutputType::Zpk) | (Got::Sos(..), FilterOutputType::Sos));
        crate::ensure!(ok, "{}: got {:?}", what, g);
        ctx.note(|| format!("{} -> {:?}", what, g));
        shape(&sp, &g)?;
        let q = proto(fam, n);
        judge::<f64>(&sp, &g, &|x| sp.h(&q, x))?;
        ctx.state(&g.flat());
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let ends = vec![0.01, 0.05, 0.1, 0.25, 0.4, 0.6, 0.8, 0.95];
    let mut v = vec![
        grid::<f64>(12, CUTS.to_vec(), ends, RP.to_vec(), RS.to_vec(), &RATES[..4]),
        grid::<f32>(5, vec![0.1, 0.25, 0.5, 0.8], vec![0.15, 0.3, 0.6, 0.8], vec![0.5, 2.0], vec![20.0, 40.0], &RATES[..3]),
        defaults(),
        rims::<f64>("C08", 4, vec![Fam::Cheb1(0.3), Fam::Cheb2(30.0)]),
        grid::<f64>(8, vec![0.003, 0.1, 0.37, 0.8], vec![0.1, 0.25, 0.7], vec![1e-4, 1e-3, 4e-3, 0.009, 0.03, 10.0, 25.0], vec![0.05, 0.3, 1.0, 110.0, 140.0], &RATES[..1]),
        nearby::<f64>("C08", 2, vec![Fam::Cheb1(0.3), Fam::Cheb2(30.0)]),
        high::<f64>("C08", vec![Fam::Cheb1(0.3), Fam::Cheb2(30.0)], false),
        fractions::<f64>("C08", 3, vec![Fam::Cheb1(0.3), Fam::Cheb2(30.0)], 0.0),
        grid_from::<f64>(1, 1, vec![0.1, 0.37, 0.8], vec![0.2, 0.6], vec![1e-5, 1e-3, 60.0], vec![1e-3, 160.0, 180.0], &RATES[..1]),
        // ripples and attenuations of every size
        grid_from::<f64>(2, 6, vec![0.1, 0.37, 0.8], vec![0.2, 0.6], vec![1e-6, 1e-5, 40.0, 60.0], vec![1e-3, 160.0, 180.0, 189.0, 191.0, 200.0, 220.0, 250.0], &RATES[..1]),
    ];
    if t {
        v.push(grid::<f64>(
            16,
            (1..50).map(|i| i as f64 / 50.0).collect(),
            (1..14).map(|i| i as f64 / 14.0).collect(),
            vec![0.05, 0.3, 0.8, 2.0, 3.0, 5.0],
            vec![1.0, 15.0, 30.0, 50.0, 80.0, 120.0],
            &RATES,
        ));
    }
    if l >= 2 {
        v.push(grid::<f64>(20, (1..100).map(|i| i as f64 / 100.0).collect(), (1..25).map(|i| i as f64 / 25.0).collect(), vec![0.01, 0.1, 0.5, 1.0, 2.0, 3.0, 6.0, 12.0], vec![3.0, 10.0, 20.0, 40.0, 60.0, 80.0, 100.0], &RATES));
    }
    if l >= 3 {
        v.push(grid::<f64>(24, (1..200).map(|i| i as f64 / 200.0).collect(), (1..40).map(|i| i as f64 / 40.0).collect(), vec![0.02, 0.2, 0.7, 1.5, 4.0, 9.0], vec![5.0, 25.0, 35.0, 45.0, 70.0, 90.0], &RATES));
    }
    v
}
