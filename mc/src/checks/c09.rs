//! C09: analog designs and prototypes.
use super::c07::high;
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::{cheb1ap_dyn, cheb2ap_dyn};

pub fn check() -> Check {
    Check {
        id: "C09",
        bounds: "orders 1..=10, three families (5 ripples, 5 attenuations), four band types, 11 angular frequencies over 8 decades and all pairs within a factor 1000, three formats, f64; a sub-grid in f32; prototypes of orders 0..=24",
        assumptions: &["as for C07", "requests hit by the recorded defect of the high-pass/band-stop transforms with finite zeros (type II, order >= 2) are accepted only when their response is exactly what that defect produces"],
        scenarios,
    }
}
fn fams(rp: &[f64], rs: &[f64]) -> Vec<Fam> {
    let mut v = vec![Fam::Butter];
    v.extend(rp.iter().map(|r| Fam::Cheb1(*r)));
    v.extend(rs.iter().map(|r| Fam::Cheb2(*r)));
    v
}
fn grid<T: Flt>(nmax: usize, ws: Vec<f64>, far: f64, fams: Vec<Fam>) -> Scenario {
    let mut pr = vec![];
    for i in 0..ws.len() {
        for j in i + 1..ws.len() {
            if ws[j] / ws[i] <= far {
                pr.push(vec![ws[i], ws[j]]);
            }
        }
    }
    pr.push(vec![ws[ws.len() / 2], ws[ws.len() / 2] * 1.05]);
    sc(format!("analog-{}-n{}", T::NAME, nmax), move |ctx| {
        let fam = ctx.pick(&fams);
        let n = ctx.range(1, nmax);
        let band = ctx.pick(&BANDS);
        // a pole pair within a rounding error of the axis can't be told from one on it
        if n == 1 && band.two() && matches!(fam, Fam::Cheb2(r) if r >= 200.0) {
            return Ok(());
        }
        let w = if band.two() { ctx.pick(&pr) } else { vec![ctx.pick(&ws)] };
        let out = ctx.pick(&OUTS);
        let sp = Spec { fam, n, band, analog: true, w };
        design::<T>(ctx, "C09", &sp, out, None)
    })
}
fn prototypes<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("prototypes-{}", T::NAME), move |ctx| {
        let n = ctx.range(0, nmax);
        let two = ctx.flag();
        let r = if T::EPS > 1e-10 { ctx.pick(&[0.01, 0.1, 0.5, 1.0, 3.0, 6.0, 20.0, 40.0, 60.0, 100.0]) } else { ctx.pick(&[0.01, 0.1, 0.5, 1.0, 3.0, 6.0, 20.0, 40.0, 60.0, 100.0, 1e-6, 1e-4, 150.0, 190.0, 200.0, 250.0, 300.0]) };
        let r = T::of(r).f();
        if !two && r > 100.0 {
            return Ok(());
        }
        let d = ctx.must("prototype", || if two { cheb2ap_dyn::<T>(n, T::of(r)) } else { cheb1ap_dyn::<T>(n, T::of(r)) })?;
        let g = Zpk {
            z: d.z.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
            p: d.p.iter().map(|v| c(v.re.f(), v.im.f())).collect(),
            k: d.k.f(),
        };
        ctx.note(|| format!("type {} n={} r={} -> {:?}", two as u8 + 1, n, r, g));
        ensure!(g.p.len() == n, "{} poles for order {}", g.p.len(), n);
        ensure!(g.z.len() == if two { n - n % 2 } else { 0 }, "{} zeros for order {}", g.z.len(), n);
        ensure!(g.p.iter().all(|p| p.re < 0.0), "pole in the right half plane: {:?}", g);
        let fam = if two { Fam::Cheb2(r) } else { Fam::Cheb1(r) };
        if n == 0 {
            // order zero: a constant
            let want = if two { 1.0 } else { 10f64.powf(-r / 20.0) };
            return near("order 0 gain", g.k, want, 8.0 * T::EPS);
        }
        let t = tol::<T>();
        for i in 0..40 {
            let w = [0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1.0, 1.01, 1.1, 1.5, 2.0, 5.0, 20.0][i % 14] * (1.0 + 0.013 * (i / 14) as f64);
            let h = g.h(c(0.0, w));
            let want = mag2(fam, n, w).sqrt();
            let cond: f64 = g.p.iter().chain(&g.z).map(|p| (w + cabs(*p)) / cabs(c(0.0, w) - p).max(1e-12)).sum::<f64>() + 10.0;
            let tl = t.k * T::EPS * cond * want.max(1e-9) * n as f64 + t.floor * (want + 1e-6);
            if tl > 0.1 * (want + 1e-3) {
                continue;
            }
            near(&format!("{:?} order {} magnitude at {}", fam, n, w), cabs(h), want, tl)?;
        }
        let mut obs: Vec<f64> = g.p.iter().chain(&g.z).flat_map(|v| [v.re, v.im]).collect();
        obs.push(g.k);
        ctx.state(&obs);
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let ws = vec![1e-4, 1e-2, 0.1, 0.5, 1.0, 2.0, 10.0, 62.8, 200.0, 1000.0, 1e4];
    let mut v = vec![
        grid::<f64>(10, ws, 1000.0, fams(&[0.01, 0.1, 0.5, 1.0, 6.0], &[3.0, 10.0, 20.0, 40.0, 80.0])),
        grid::<f32>(4, vec![0.3, 1.0, 2.0, 5.0, 10.0], 10.0, fams(&[0.5, 2.0], &[20.0, 40.0])),
        grid::<f64>(5, vec![1e-3, 0.05, 0.5, 3.0, 2000.0, 7e4, 1e7], 1e11, fams(&[0.5, 3.0], &[20.0, 60.0])),
        grid::<f64>(4, vec![1e-12, 3.7e-9, 2.5e-6, 0.123456789, 98765.4321, 123456.789, 1e6 + 0.5, 3.3e9, 7.77e12, 1e15], 1e4, fams(&[0.5, 3.0], &[20.0, 60.0])),
        grid::<f64>(6, vec![0.2, 1.0, 5.0], 10.0, fams(&[1e-3, 25.0, 60.0], &[0.01, 0.2, 120.0, 160.0, 190.0, 200.0, 250.0, 300.0])),
        prototypes::<f64>(24),
        high::<f64>("C09", vec![Fam::Butter, Fam::Cheb1(0.3), Fam::Cheb2(30.0)], true),
        prototypes::<f32>(8),
    ];
    if t {
        v.push(grid::<f64>(
            14,
            (-12..=12).map(|i| 10f64.powf(i as f64 / 4.0)).collect(),
            100.0,
            fams(&[0.05, 0.3, 3.0], &[1.0, 15.0, 30.0, 60.0]),
        ));
    }
    if l >= 2 {
        v.push(grid::<f64>(18, (-24..=24).map(|i| 10f64.powf(i as f64 / 6.0)).collect(), 200.0, fams(&[0.01, 0.1, 0.5, 1.0, 2.0, 6.0], &[3.0, 10.0, 20.0, 40.0, 80.0, 100.0])));
    }
    if l >= 3 {
        v.push(grid::<f64>(20, (-36..=36).map(|i| 10f64.powf(i as f64 / 6.0)).collect(), 2000.0, fams(&[0.01, 0.05, 0.1, 0.3, 0.5, 1.0, 2.0, 3.0, 6.0], &[1.0, 3.0, 10.0, 15.0, 20.0, 30.0, 40.0, 60.0, 80.0, 100.0])));
    }
    v
}
