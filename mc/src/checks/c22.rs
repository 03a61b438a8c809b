//! C22: the square wave.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use ndarray::{Array, ArrayD, ArrayView, Axis, IxDyn};
use sci_rs::signal::wave::square;

pub fn check() -> Check {
    Check {
        id: "C22",
        bounds: "phases k/240 of a period (thorough k/2520) in the periods -1000..=1000 of a spread, 27 duty cycles including 0, 1 and their neighbours, f32 and f64, times just before and after every transition; every shape of rank 0..=5 with extents 0..=3, transposed, strided, reversed and sliced views; duty cycles outside [0, 1] including NaN and infinities",
        assumptions: &["times closer to a transition than 4 eps relative to the time are only judged where no transition exists (duty 0 and 1)"],
        scenarios,
    }
}
const DUTY: [f64; 27] = [
    0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 0.05, 0.95, 0.01, 0.99, 0.001, 0.999, 0.333, 0.667, 1e-6, 0.999999, 1e-30, 0.125, 0.875, 0.0078125,
];
/// Some(value) when the phase is clearly on one side.
fn expect(t: f64, duty: f64, eps: f64) -> Option<f64> {
    if duty == 0.0 {
        return Some(-1.0);
    }
    if duty == 1.0 {
        return Some(1.0);
    }
    if t == 0.0 {
        return Some(1.0);
    }
    let p = t / std::f64::consts::TAU;
    let ph = p - p.floor();
    let m = 4.0 * eps * (1.0 + p.abs());
    if ph < m || ph > 1.0 - m || (ph - duty).abs() < m {
        return None;
    }
    Some(if ph < duty { 1.0 } else { -1.0 })
}
fn call<T: Flt>(x: &[T], duty: T) -> Vec<T> {
    square(&ArrayView::from(x), duty).to_vec()
}
fn verdict<T: Flt>(ctx: &mut Ctx, x: &[f64], duty: f64) -> R {
    let v: Vec<T> = ofv(x);
    let d = T::of(duty);
    let y = ctx.must(&format!("square of {} times with duty {}", x.len(), duty), || call(&v, d))?;
    ensure!(y.len() == v.len(), "{} values for {} times", y.len(), v.len());
    ctx.state(&tov(&y));
    ctx.note(|| format!("duty {} times {:?} -> {:?}", duty, &x[..x.len().min(6)], tov(&y[..y.len().min(6)])));
    for i in 0..v.len() {
        let got = y[i].f();
        ensure!(got == 1.0 || got == -1.0, "square({:e}, {}) is {}", v[i].f(), duty, got);
        if let Some(w) = expect(v[i].f(), d.f(), T::EPS) {
            ensure!(got == w, "square({:e}, {}) is {} instead of {} ({})", v[i].f(), d.f(), got, w, T::NAME);
        }
    }
    Ok(())
}
fn phases<T: Flt>(per: usize, periods: Vec<i64>) -> Scenario {
    sc(format!("phases-{}-{}", T::NAME, per), move |ctx| {
        let duty = ctx.pick(&DUTY);
        let q = ctx.pick(&periods);
        let x: Vec<f64> = (0..per).map(|k| (q as f64 + k as f64 / per as f64) * std::f64::consts::TAU).collect();
        verdict::<T>(ctx, &x, duty)
    })
}
/// Just before and after the transitions.
fn transitions<T: Flt>() -> Scenario {
    sc(format!("transitions-{}", T::NAME), move |ctx| {
        let duty = ctx.pick(&DUTY);
        let q = ctx.choose(41) as f64 - 20.0;
        let mut x = vec![];
        for edge in [q, q + duty] {
            let t = edge * std::f64::consts::TAU;
            for k in 1..=30 {
                let h = T::EPS * 2f64.powi(k) * (1.0 + t.abs());
                x.push(t - h);
                x.push(t + h);
            }
            x.push(t);
        }
        verdict::<T>(ctx, &x, duty)
    })
}
/// Duty cycles so close to zero or one that only the instants of the edges tell them apart.
fn narrow<T: Flt>() -> Scenario {
    sc(format!("narrow-{}", T::NAME), move |ctx| {
        let low = <T as num_traits::Float>::min_positive_value().f();
        let duty = ctx.pick(&[1e-10, 1e-12, 1e-15, 2e-16, 1e-16, 1e-17, 1e-20, 1e-30, 1e-37, 1e-100, low, 1.0 - 1e-10, 1.0 - T::EPS, 1.0 - T::EPS / 2.0]);
        let q = ctx.choose(21) as f64 - 10.0;
        if T::of(duty).f() == 0.0 || T::of(duty).f() == 1.0 {
            return Err(Stop::Skip);
        }
        let mut x = vec![0.0, -0.0, 1e-3, -1e-3];
        x.extend((1..24).map(|k| (q + k as f64 / 24.0) * std::f64::consts::TAU));
        verdict::<T>(ctx, &x, duty)
    })
}
fn tiny<T: Flt>() -> Scenario {
    sc(format!("magnitudes-{}", T::NAME), move |ctx| {
        let duty = ctx.pick(&DUTY);
        let e = ctx.choose(200) as i32 - 149;
        let m = 2f64.powi(e);
        verdict::<T>(ctx, &[0.0, -0.0, m, -m, 1.1 * m, -1.1 * m, 1.7 * m, -1.7 * m], duty)
    })
}
fn shapes() -> Scenario {
    sc("shapes", move |ctx| {
        let rank = ctx.range(0, 5);
        let shape: Vec<usize> = (0..rank).map(|_| ctx.choose(4)).collect();
        let view = ctx.choose(5);
        let n: usize = shape.iter().product();
        let duty = 0.4;
        let base: Vec<f64> = (0..n).map(|i| pattern(i) * 30.0).collect();
        let arr: ArrayD<f64> = Array::from_shape_vec(IxDyn(&shape), base).unwrap();
        let mut v = arr.view();
        match view {
            0 => {}
            1 => v = v.reversed_axes(),
            2 => {
                for a in 0..rank {
                    v.invert_axis(Axis(a));
                }
            }
            3 => {
                for a in 0..rank {
                    if v.len_of(Axis(a)) > 1 {
                        v.slice_axis_inplace(Axis(a), ndarray::Slice::from(1..));
                    }
                }
            }
            _ => {
                for a in 0..rank {
                    v.slice_axis_inplace(Axis(a), ndarray::Slice::new(0, None, 2));
                }
            }
        }
        let y = ctx.must(&format!("square of shape {:?} view {}", shape, view), || square(&v, duty))?;
        ensure!(y.shape() == v.shape(), "shape {:?} becomes {:?}", v.shape(), y.shape());
        for (ix, t) in v.indexed_iter() {
            let w = expect(*t, duty, f64::EPSILON);
            ensure!(w.is_none() || w == Some(y[&ix]), "element {:?} of shape {:?} (view {}): square({}) is {}", ix, shape, view, t, y[&ix]);
        }
        ctx.state(&y.iter().copied().collect::<Vec<_>>());
        // fixed ranks
        if view == 0 && rank == 2 {
            let m = arr.clone().into_dimensionality::<ndarray::Ix2>().unwrap();
            let z = ctx.must("square of a matrix", || square(&m, duty))?;
            ensure!(z.into_dyn() == y, "matrix and dynamic array differ");
        }
        if view == 0 && rank == 3 {
            let m = arr.clone().into_dimensionality::<ndarray::Ix3>().unwrap();
            let z = ctx.must("square of a cube", || square(&m, duty))?;
            ensure!(z.into_dyn() == y, "cube and dynamic array differ");
        }
        Ok(())
    })
}
/// Large arrays of every rank and aspect, dynamic and of fixed rank.
fn large_shapes<T: Flt>() -> Scenario {
    sc(format!("large-shapes-{}", T::NAME), move |ctx| {
        let shapes: [&[usize]; 15] = [
            &[70_000], &[1, 70_000], &[70_000, 1], &[300, 257], &[7, 10_001], &[41, 42, 43], &[2, 3, 9000], &[9, 10, 11, 12], &[17, 1, 33, 65], &[6, 7, 8, 9, 10],
            &[4, 5, 6, 7, 8, 3], &[4, 3, 5, 3, 4, 3, 5], &[2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2], &[3, 2, 3, 2, 3, 2, 3, 2, 3], &[1, 1, 1, 1, 1, 1, 1, 5000],
        ];
        let shape = ctx.pick(&shapes);
        let view = ctx.choose(4);
        let duty = ctx.pick(&[0.0, 0.4, 1.0]);
        let n: usize = shape.iter().product();
        let base: Vec<T> = (0..n).map(|i| T::of(pattern(i) * 30.0)).collect();
        let arr: ArrayD<T> = Array::from_shape_vec(IxDyn(shape), base).unwrap();
        let mut v = arr.view();
        match view {
            0 => {}
            1 => v = v.reversed_axes(),
            2 => {
                for a in 0..shape.len() {
                    v.invert_axis(Axis(a));
                }
            }
            _ => {
                for a in 0..shape.len() {
                    if v.len_of(Axis(a)) > 1 {
                        v.slice_axis_inplace(Axis(a), ndarray::Slice::new(1, None, 2));
                    }
                }
            }
        }
        let d = T::of(duty);
        let check = |v: &ndarray::ArrayViewD<T>, y: &ArrayD<T>| -> R {
            ensure!(y.shape() == v.shape(), "shape {:?} becomes {:?}", v.shape(), y.shape());
            for (i, (t, g)) in v.iter().zip(y.iter()).enumerate() {
                let g = g.f();
                ensure!(g == 1.0 || g == -1.0, "square({:e}, {}) is {}", t.f(), duty, g);
                let w = expect(t.f(), d.f(), T::EPS);
                ensure!(w.is_none() || w == Some(g), "element {} of shape {:?} (view {}): square({}) is {}", i, shape, view, t.f(), g);
            }
            Ok(())
        };
        let y = ctx.must(&format!("square of shape {:?} view {}", shape, view), || square(&v, d))?;
        check(&v, &y)?;
        ctx.state(&[shape.len() as f64, n as f64, view as f64, duty, y.iter().map(|x| x.f()).sum()]);
        macro_rules! fixed {
            ($($t:ident)*) => { $( if let Ok(m) = v.view().into_dimensionality::<ndarray::$t>() {
                let z = ctx.must("square of an array of fixed rank", || square(&m, d))?;
                check(&v, &z.into_dyn())?;
            } )* };
        }
        fixed!(Ix1 Ix2 Ix3 Ix4 Ix5 Ix6);
        Ok(())
    })
}
fn rejected<T: Flt>() -> Scenario {
    sc(format!("duty-range-{}", T::NAME), move |ctx| {
        let n = ctx.choose(3);
        let x: Vec<T> = (0..n).map(|i| T::of(i as f64)).collect();
        let bad = ctx.pick(&[-1.0, -1e-30, 1.0 + f64::EPSILON, 1.0 + f32::EPSILON as f64, 1.5, 50.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.5, 2.0, 100.0]);
        let d = T::of(bad);
        if d.f() == 1.0 || d.f() == 0.0 {
            return Err(Stop::Skip);
        }
        ctx.state_u(n as u128);
        ctx.must_panic(&format!("duty {} for {} times", d.f(), n), || call(&x, d))
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let periods: Vec<i64> = vec![0, -1, 1, -2, 2, 3, -3, 7, -10, 25, -100, 159, 500, -1000, 1000];
    let mut v = vec![
        phases::<f64>(240, periods.clone()),
        phases::<f32>(240, periods.clone()),
        transitions::<f64>(),
        transitions::<f32>(),
        narrow::<f64>(),
        narrow::<f32>(),
        tiny::<f64>(),
        tiny::<f32>(),
        shapes(),
        large_shapes::<f64>(),
        large_shapes::<f32>(),
        rejected::<f64>(),
        rejected::<f32>(),
    ];
    if t {
        v.push(phases::<f64>(2520, (-60..=60).chain([-100000, 99999, 1 << 30]).collect()));
        v.push(phases::<f32>(2520, (-60..=60).collect()));
    }
    if l >= 2 {
        v.push(phases::<f64>(27720, (-100..=100).collect()));
    }
    if l >= 3 {
        v.push(phases::<f64>(360360, (-30..=30).collect()));
        v.push(phases::<f32>(27720, (-100..=100).collect()));
    }
    v
}
