//! C23: companion matrices, exact entries and no access outside the matrix.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, guard, Check};
use nalgebra::DMatrix;
use sci_rs::linalg::companion_dyn;

pub fn check() -> Check {
    Check {
        id: "C23",
        bounds: "every size 1..=24 (thorough 1..=64) with aperiodic coefficients and five leading coefficients, all words over {-2,0,1,3} for up to 5 coefficients, f64 / f32 / i32, owned and borrowed, repeated over 16 consecutive calls; every inconsistent pair (coefficients given, size asked) in 0..=12 x 0..=12 under an allocator with red zones around every block",
        assumptions: &["an inconsistent request may be rejected or answered, as long as nothing outside the matrix is touched"],
        scenarios,
    }
}
fn verify<T: PartialEq + Copy + std::fmt::Debug>(what: &str, m: &DMatrix<T>, row: &[T], zero: T, one: T, same: impl Fn(T, T) -> bool) -> R {
    let n = row.len();
    ensure!(m.nrows() == n && m.ncols() == n, "{}: {}x{} instead of {}x{}", what, m.nrows(), m.ncols(), n, n);
    for i in 0..n {
        for j in 0..n {
            let w = if i == 0 {
                row[j]
            } else if i == j + 1 {
                one
            } else {
                zero
            };
            let ok = if i == 0 { same(m[(i, j)], w) } else { m[(i, j)] == w };
            ensure!(ok, "{}: entry ({}, {}) is {:?} instead of {:?}", what, i, j, m[(i, j)], w);
        }
    }
    Ok(())
}
fn float<T: Flt>(ctx: &mut Ctx, p: &[f64], owned: bool) -> R {
    let v: Vec<T> = ofv(p);
    let m = ctx.must(&format!("companion of {:?}", p), || {
        if owned {
            companion_dyn::<T, T, _>(v.iter().copied(), v.len())
        } else {
            companion_dyn::<T, &T, _>(v.iter(), v.len())
        }
    })?;
    let row: Vec<T> = v[1..].iter().map(|x| T::of(-x.f() / v[0].f())).collect();
    ctx.state(&tov(m.as_slice()));
    ctx.note(|| format!("{:?} -> {:?}", &p[..p.len().min(8)], m));
    verify(&format!("companion of {:?} ({})", p, T::NAME), &m, &row, T::of(0.0), T::of(1.0), |a, b| close(a.f(), b.f(), 4.0 * T::EPS * b.f().abs()))
}
fn sizes<T: Flt>(nmax: usize) -> Scenario {
    sc(format!("sizes-{}-{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(1, nmax);
        let a0 = ctx.pick(&[1.0, -1.0, 2.5, 1e-3, -1e6]);
        let owned = ctx.flag();
        let fam = ctx.choose(3);
        let mut p: Vec<f64> = (0..n)
            .map(|i| match fam {
                0 => pattern(i),
                1 => (i + 1) as f64,
                _ => if i + 1 == n { 3.0 } else { 0.0 },
            })
            .collect();
        p[0] = a0;
        float::<T>(ctx, &p, owned)
    })
}
fn words() -> Scenario {
    sc("all-words", move |ctx| {
        let n = ctx.range(1, 5);
        let a0 = ctx.pick(&[1.0, -2.0, 3.0]);
        let mut p = vec![a0];
        for _ in 1..n {
            p.push(ctx.pick(&[0.0, 1.0, -2.0, 3.0]));
        }
        float::<f64>(ctx, &p, true)?;
        // integers divide exactly here
        if a0 != 3.0 && p[1..].iter().all(|x| x % a0 == 0.0) {
            let v: Vec<i32> = p.iter().map(|x| *x as i32).collect();
            let m = ctx.must("integer companion", || companion_dyn::<i32, i32, _>(v.iter().copied(), v.len()))?;
            let row: Vec<i32> = v[1..].iter().map(|x| -x / v[0]).collect();
            verify(&format!("companion of {:?}", v), &m, &row, 0, 1, |a, b| a == b)?;
        }
        Ok(())
    })
}
fn inconsistent() -> Scenario {
    let mut s = sc("inconsistent-sizes", move |ctx| {
        let len = ctx.range(0, 12);
        let m = ctx.range(0, 12);
        let dirty = ctx.flag();
        let v: Vec<f64> = (0..len).map(|i| pattern(i) + 2.0).collect();
        let before = guard::damaged();
        // neighbours that a stray write would hit
        let hay: Vec<Vec<f64>> = (0..8).map(|i| vec![i as f64; if dirty { m.max(1) * m.max(1) } else { 1 }]).collect();
        let r = ctx.call(|| companion_dyn::<f64, &f64, _>(v.iter(), m));
        for (i, h) in hay.iter().enumerate() {
            ensure!(h.iter().all(|x| *x == i as f64), "companion of {} coefficients with size {} changed unrelated memory", len, m);
        }
        match r {
            Ok(c) => {
                ctx.state(c.as_slice());
                ctx.note(|| format!("{} coefficients, size {} -> {}x{}", len, m, c.nrows(), c.ncols()));
                ensure!(len > 0 && m > 0, "companion of {} coefficients with size {} was accepted", len, m);
                if len == m {
                    let row: Vec<f64> = v[1..].iter().map(|x| -x / v[0]).collect();
                    verify("companion", &c, &row, 0.0, 1.0, |a, b| close(a, b, 1e-15 * b.abs()))?;
                }
                drop(c);
            }
            Err(_) => ensure!(len != m || len == 0, "companion of {} coefficients was rejected", len),
        }
        drop(hay);
        drop(v);
        ensure!(guard::damaged() == before, "companion of {} coefficients with size {} wrote outside a heap block", len, m);
        Ok(())
    });
    
    s
}
fn repeated() -> Scenario {
    sc("repeated", move |ctx| {
        let ns = [ctx.range(1, 6), ctx.range(1, 6), ctx.range(1, 6)];
        for k in 0..5 {
            for (j, n) in ns.iter().enumerate() {
                let mut p: Vec<f64> = (0..*n).map(|i| pattern(i + 7 * j + 31 * k)).collect();
                p[0] = 1.0 + j as f64;
                float::<f64>(ctx, &p, k % 2 == 0)?;
            }
        }
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![sizes::<f64>(24), sizes::<f32>(24), words(), inconsistent(), repeated()];
    if t {
        v.push(sizes::<f64>(64));
    }
    if l >= 2 {
        v.push(sizes::<f64>(200));
    }
    if l >= 3 {
        v.push(sizes::<f64>(600));
    }
    v
}
