//! C02: steady-state initial conditions.
use super::c01::{from_sos, to_sos};
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{lfilter_zi_dyn, sosfilt_zi_dyn};

pub fn check() -> Check {
    Check {
        id: "C02",
        bounds: "all coefficient vectors over a 5-7 value alphabet for 2..=4 coefficients, patterned ones up to 40 coefficients and of 17 larger sizes up to 257, every number of leading zeros; all cascades of up to 4 structured sections and 1..=24 stock sections with arbitrary stored state",
        assumptions: &["|sum(a)| >= 5% of sum(|a|): filters with a pole (numerically) at DC have no steady state"],
        scenarios,
    }
}

/// The fixed point of the transposed direct form for a unit step, by its defining equations.
pub fn steady(b: &[f64], a: &[f64]) -> (f64, Vec<f64>) {
    let lead = a.iter().position(|x| *x != 0.0).unwrap_or(0);
    let mut a: Vec<f64> = a[lead..].to_vec();
    a.resize(b.len(), 0.0);
    let a0 = a[0];
    let a: Vec<f64> = a.iter().map(|x| x / a0).collect();
    let b: Vec<f64> = b.iter().map(|x| x / a0).collect();
    let y = b.iter().sum::<f64>() / a.iter().sum::<f64>();
    let m = b.len();
    let mut z = vec![0.0; m - 1];
    let mut next = 0.0;
    for i in (0..m - 1).rev() {
        z[i] = b[i + 1] - a[i + 1] * y + next;
        next = z[i];
    }
    (y, z)
}

fn check_tf<T: Flt>(ctx: &mut Ctx, b: &[f64], a: &[f64]) -> R {
    let bt: Vec<T> = ofv(b);
    let at: Vec<T> = ofv(a);
    let b = tov(&bt);
    let a = tov(&at);
    let lead = a.iter().position(|x| *x != 0.0);
    let Some(lead) = lead else { return Err(Stop::Skip) };
    let s: f64 = a.iter().sum();
    let sa: f64 = a.iter().map(|x| x.abs()).sum();
    if s.abs() < 0.05 * sa {
        return Err(Stop::Skip);
    }
    let z = ctx.must("steady state", || lfilter_zi_dyn(&bt, &at))?;
    let z = tov(&z);
    ctx.note(|| format!("b={:?} a={:?} zi={:?}", b, a, z));
    let (y, want) = steady(&b, &a);
    let a0 = a[lead].abs();
    let scale = maxabs(&b) / a0 + y.abs() * (1.0 + maxabs(&a) / a0) + maxabs(&want);
    let tol = (T::EPS * 300.0) * scale * (sa / s.abs()) * b.len() as f64;
    cmp("initial state", &z, &want, tol)?;
    // and by running the filter: constant output from the first sample on
    let an: Vec<f64> = {
        let mut v: Vec<f64> = a[lead..].iter().map(|x| x / a[lead]).collect();
        v.resize(b.len(), 0.0);
        v
    };
    let bn: Vec<f64> = b.iter().map(|x| x / a[lead]).collect();
    let mut st = z.clone();
    st.push(0.0);
    let y0 = bn[0] + st[0];
    near("first output for a unit step", y0, y, tol)?;
    let mut nx = vec![0.0; st.len()];
    for i in 0..z.len() {
        nx[i] = bn[i + 1] - an[i + 1] * y0 + st[i + 1];
    }
    cmp("state after one sample", &nx[..z.len()], &z, tol * 4.0)?;
    ctx.state(&z);
    Ok(())
}

fn grid<T: Flt>(m: usize, al: &'static [f64], lead: &'static [f64]) -> Scenario {
    sc(format!("tf-{}-{}coef", T::NAME, m), move |ctx| {
        let mut a = vec![ctx.pick(lead)];
        for _ in 1..m {
            a.push(ctx.pick(al));
        }
        let b: Vec<f64> = (0..m).map(|_| ctx.pick(al)).collect();
        check_tf::<T>(ctx, &b, &a)
    })
}
fn patterned<T: Flt>(mmax: usize) -> Scenario {
    patterned_at::<T>((2..=mmax).collect())
}
fn patterned_at<T: Flt>(sizes: Vec<usize>) -> Scenario {
    sc(format!("tf-{}-patterned-{}", T::NAME, sizes[sizes.len() - 1]), move |ctx| {
        let m = ctx.pick(&sizes);
        let lead0 = ctx.range(0, (m - 1).min(3));
        let a0 = ctx.pick(&[1.0, 2.0, -0.5, 1e-3, 1e3]);
        let v = ctx.choose(6);
        let mut a: Vec<f64> = (0..m).map(|i| 0.9 * pattern(i + 17 * v) / m as f64).collect();
        a[lead0] = 1.0;
        for x in a.iter_mut().take(lead0) {
            *x = 0.0;
        }
        for x in &mut a {
            *x *= a0;
        }
        let b: Vec<f64> = (0..m).map(|i| if v == 0 && i > 0 { 0.0 } else { pattern(i + 31 * v + 5) * 3.0 }).collect();
        check_tf::<T>(ctx, &b, &a)
    })
}

/// Leading coefficients near one and coefficients of every magnitude.
fn leading<T: Flt>() -> Scenario {
    sc(format!("tf-{}-leading", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let m = ctx.range(2, 9);
        let lead0 = ctx.range(0, (m - 1).min(2));
        let d = ctx.pick(if single { &[0.0, 1e-3, -1e-4, 1e-2, -0.5] } else { &[0.0, 1e-2, -1e-3, 1e-5, 9e-7, -1e-7, 1e-8, 1e-9, -1e-10] });
        let ka = ctx.pick(if single { &[0, -40, -12, 12, 40] } else { &[0, -300, -60, -30, 30, 60, 300] });
        let kb = ctx.pick(if single { &[0, -40, 40] } else { &[0, -300, -50, 50, 300] });
        let v = ctx.choose(3);
        let mut a: Vec<f64> = (0..m).map(|i| 0.9 * pattern(i + 17 * v) / m as f64).collect();
        a[lead0] = 1.0 + d;
        for x in a.iter_mut().take(lead0) {
            *x = 0.0;
        }
        let a: Vec<f64> = a.iter().map(|x| x * 2f64.powi(ka)).collect();
        let b: Vec<f64> = (0..m).map(|i| pattern(i + 31 * v + 5) * 3.0 * 2f64.powi(kb)).collect();
        check_tf::<T>(ctx, &b, &a)
    })
}
fn run_cascade<T: Flt>(ctx: &mut Ctx, secs: &[Sec], dirty: bool) -> R {
    let mut s = secs.to_vec();
    for (i, q) in s.iter_mut().enumerate() {
        q.b = q.b.map(|v| T::of(v).f());
        q.a = q.a.map(|v| T::of(v).f());
        q.z = if dirty { [pattern(i), f64::NAN] } else { [0.0, 0.0] };
    }
    let mut real: Vec<Sos<T>> = to_sos(&s);
    let before = s.clone();
    ctx.must("steady state of a cascade", || sosfilt_zi_dyn::<_, _, Sos<T>>(real.iter_mut()))?;
    let got = from_sos(&real);
    ctx.note(|| format!("{:?}", got));
    let mut g = 1.0;
    let mut obs = vec![];
    let mut cond = 1.0;
    for (i, (q, w)) in got.iter().zip(&before).enumerate() {
        ensure!(q.b == w.b && q.a == w.a, "coefficients of section {} changed", i);
        let (y, z) = steady(&w.b, &w.a);
        let sa: f64 = w.a.iter().sum();
        let sb: f64 = w.b.iter().map(|x| x.abs()).sum();
        cond *= 1.0 + 3.0 / sa.abs() + sb;
        let scale = (g as f64).abs() * (sb + y.abs() * 4.0) + if g == 0.0 { 0.0 } else { 1e-30 };
        // rounding of a gain that cancels to (nearly) zero is relative to its terms
        let slack = T::EPS * 64.0 * cond * (1.0 + scale);
        cmp(&format!("state of section {} of {}", i, got.len()), &q.z, &[g * z[0], g * z[1]], slack)?;
        g *= y;
        obs.extend(q.z);
    }
    // run: scaled to any step height, every output is the DC gain times it
    for amp in [1.0, -2.5, 1e6] {
        let mut m = got.clone();
        for q in &mut m {
            q.z = q.z.map(|v| v * amp);
        }
        let mut big = 0.0;
        for n in 0..6 {
            let y = df2t(amp, &mut m, &mut big);
            near(&format!("output {} for a step of {}", n, amp), y, g * amp, T::EPS * 256.0 * cond * (big + amp.abs()))?;
        }
    }
    ctx.state(&obs);
    Ok(())
}
fn cascades<T: Flt>(depth: usize) -> Scenario {
    sc(format!("cascades-{}-{}", T::NAME, depth), move |ctx| {
        let mut cat: Vec<Sec> = special().into_iter().filter(|s| s.a.iter().sum::<f64>().abs() > 1e-9).collect();
        cat.push(stock(4));
        cat.push(sec([2.0, 0.0, 0.0], [1.0, 0.0, 0.0]));
        let n = depth;
        let secs: Vec<Sec> = (0..n).map(|_| ctx.pick(&cat)).collect();
        let dirty = ctx.flag();
        run_cascade::<T>(ctx, &secs, dirty)
    })
}
fn stocks<T: Flt>() -> Scenario {
    sc(format!("stock-cascades-{}", T::NAME), move |ctx| {
        let n = ctx.range(0, 24);
        let off = ctx.range(0, 12);
        let secs: Vec<Sec> = (0..n).map(|i| stock(i + off)).collect();
        let dirty = ctx.flag();
        run_cascade::<T>(ctx, &secs, dirty)
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    const AL: [f64; 5] = [0.0, 0.5, -0.5, 1.0, -0.75];
    const AL7: [f64; 7] = [0.0, 0.5, -0.5, 1.0, -0.75, 0.9, -1.25];
    const LEAD: [f64; 5] = [1.0, 2.0, -0.5, 0.0, 4.0];
    let mut v = vec![
        grid::<f64>(2, &AL7, &LEAD),
        grid::<f32>(2, &AL7, &LEAD),
        grid::<f64>(3, &AL7, &LEAD),
        grid::<f32>(3, &AL, &LEAD),
        grid::<f64>(4, &AL, &LEAD),
        patterned::<f64>(if t { 40 } else { 20 }),
        patterned::<f32>(12),
        patterned_at::<f64>(vec![47, 48, 49, 50, 51, 63, 64, 65, 66, 67, 100, 101, 127, 128, 129, 130, 200, 257]),
        leading::<f64>(),
        leading::<f32>(),
        cascades::<f64>(1),
        cascades::<f64>(2),
        cascades::<f64>(3),
        cascades::<f64>(4),
        cascades::<f32>(2),
        cascades::<f32>(3),
        stocks::<f64>(),
        stocks::<f32>(),
    ];
    if t {
        v.push(grid::<f64>(5, &AL, &[1.0, 2.0, 0.0]));
        v.push(cascades::<f64>(5));
    }
    if l >= 2 {
        v.push(grid::<f64>(5, &AL7, &[1.0]));
        v.push(grid::<f64>(6, &AL, &[1.0]));
        v.push(grid::<f32>(4, &AL, &LEAD));
        v.push(cascades::<f64>(6));
    }
    if l >= 3 {
        v.push(grid::<f64>(6, &AL7, &[1.0]));
        v.push(grid::<f64>(7, &AL, &[1.0]));
        v.push(grid::<f32>(5, &AL, &LEAD));
    }
    v
}
