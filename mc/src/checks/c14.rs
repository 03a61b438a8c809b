//! C14: Fourier resampling on a basis of the band-limited signals.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::resample::resample;
use std::f64::consts::PI;

pub fn check() -> Check {
    Check {
        id: "C14",
        bounds: "every pair of lengths 1..=40 (thorough 1..=110) and selected pairs up to 4096/6561, every integer frequency of the input with cosine and sine phase (a basis of all signals): kept below floor(min/2), removed above min/2; sums, scalings, impulses; f32 and f64; unchanged length for every even length up to 256",
        assumptions: &[
            "the bin at exactly floor(min/2) is not judged when the length changes: the documentation says that odd and even lengths are not told apart there",
            "tolerance 64*eps*log2(n)*|x|",
        ],
        scenarios,
    }
}
fn run(f32_: bool, x: &[f64], n: usize) -> Vec<f64> {
    if f32_ {
        tov(&resample::<f32>(&ofv::<f32>(x), n))
    } else {
        resample::<f64>(x, n)
    }
}
fn tone(len: usize, f: usize, sine: bool) -> Vec<f64> {
    (0..len)
        .map(|i| {
            // reduce the phase exactly
            let a = 2.0 * PI * ((f * i) % len) as f64 / len as f64;
            if sine {
                a.sin()
            } else {
                a.cos()
            }
        })
        .collect()
}
fn tol(f32_: bool, a: usize, b: usize, amp: f64) -> f64 {
    let eps = if f32_ { f32::EPSILON as f64 } else { f64::EPSILON };
    64.0 * eps * (((a + b) as f64).log2() + 2.0) * amp
}
fn tones(ctx: &mut Ctx, len: usize, n: usize, f32_: bool) -> R {
    let m = len.min(n);
    for f in 0..=len / 2 {
        for sine in [false, true] {
            let x = tone(len, f, sine);
            let what = format!("{} of frequency {} of {} samples resampled to {} (f32={})", if sine { "sine" } else { "cosine" }, f, len, n, f32_);
            let y = ctx.must(&what, || run(f32_, &x, n))?;
            ensure!(y.len() == n, "{}: {} samples returned", what, y.len());
            ctx.state(&y);
            let a = 4.0;
            if f == 0 || f < m / 2 {
                cmp(&what, &y, &tone(n, f, sine), tol(f32_, len, n, a))?;
            } else if 2 * f > m && !(len == n && len % 2 == 0) && f > m / 2 {
                cmp(&what, &y, &vec![0.0; n], tol(f32_, len, n, a))?;
            }
            if len == n && len % 2 == 0 {
                cmp(&what, &y, &x, tol(f32_, len, n, a))?;
            }
        }
    }
    Ok(())
}
fn basis(nmax: usize) -> Scenario {
    sc(format!("basis-{}", nmax), move |ctx| {
        let len = ctx.range(1, nmax);
        let n = ctx.range(1, nmax);
        let f = ctx.flag();
        ctx.note(|| format!("all tones of {} samples to {} samples, f32={}", len, n, f));
        tones(ctx, len, n, f)
    })
}
fn lengths(nmax: usize) -> Scenario {
    sc(format!("linearity-{}", nmax), move |ctx| {
        let len = ctx.range(1, nmax);
        let n = ctx.range(1, nmax);
        let a: Vec<f64> = (0..len).map(|i| pattern(i) + 0.3).collect();
        let b: Vec<f64> = (0..len).map(|i| pattern(900 + i)).collect();
        let s: Vec<f64> = (0..len).map(|i| a[i] - 2.5 * b[i]).collect();
        let (ya, yb, ys) = (ctx.must("resample", || run(false, &a, n))?, ctx.must("resample", || run(false, &b, n))?, ctx.must("resample", || run(false, &s, n))?);
        let w: Vec<f64> = (0..ya.len()).map(|i| ya[i] - 2.5 * yb[i]).collect();
        ctx.state(&ys);
        ctx.note(|| format!("{:?} to {}: {:?}", &s[..len.min(6)], n, &ys[..n.min(6)]));
        ensure!(ys.len() == n, "{} samples returned instead of {}", ys.len(), n);
        cmp(&format!("linearity from {} to {} samples", len, n), &ys, &w, tol(false, len, n, 16.0))?;
        // the mean is a tone of frequency 0 whatever the rest is
        let (ms, my) = (s.iter().sum::<f64>() / len as f64, ys.iter().sum::<f64>() / n as f64);
        if len % 2 == 0 && n >= len || n > len {
            near(&format!("mean of {} samples resampled to {}", len, n), my, ms, tol(false, len, n, 16.0))?;
        }
        // band limited signals survive a round trip through more samples
        if n > len && len % 2 == 0 && n > len + 1 {
            let k = (len / 2).max(1) - 1;
            let mut x = vec![0.7; len];
            for f in 1..=k {
                for (i, v) in tone(len, f, f % 2 == 0).iter().enumerate() {
                    x[i] += v * pattern(f);
                }
            }
            let up = ctx.must("resample", || run(false, &x, n))?;
            let back = ctx.must("resample", || run(false, &up, len))?;
            cmp(&format!("round trip {} to {} and back", len, n), &back, &x, tol(false, len, n, 8.0 * (k + 2) as f64))?;
        }
        Ok(())
    })
}
fn scaled() -> Scenario {
    sc("scaled", move |ctx| {
        let len = ctx.pick(&[1, 2, 5, 8, 16, 30]);
        let n = ctx.pick(&[1, 2, 3, 8, 21, 64]);
        let s = ctx.pick(&[1e-9, -1.0, 1e3, -1e9, 1e-30, -1e-15, 1e15, 1e30]);
        let f = ctx.flag();
        let a: Vec<f64> = (0..len).map(pattern).collect();
        let b: Vec<f64> = a.iter().map(|v| v * s).collect();
        let (ya, yb) = (ctx.must("resample", || run(f, &a, n))?, ctx.must("resample", || run(f, &b, n))?);
        ctx.state(&yb);
        ensure!(ya.len() == n && yb.len() == n, "{} and {} samples instead of {}", ya.len(), yb.len(), n);
        let w: Vec<f64> = ya.iter().map(|v| v * s).collect();
        cmp(&format!("{} samples times {} to {}", len, s, n), &yb, &w, tol(f, len, n, 4.0 * s.abs()))
    })
}
/// A small variation on a large offset survives.
fn offsets() -> Scenario {
    sc("offsets", move |ctx| {
        let len = ctx.pick(&[2usize, 4, 5, 8, 9, 16, 30, 33, 64, 100, 127]);
        let n = ctx.pick(&[1usize, 2, 3, 8, 16, 21, 33, 64, 100, 200]);
        let f = ctx.flag();
        let amp = ctx.pick(if f { &[1e-2, 1e-3, 1e-4] } else { &[1e-3, 1e-6, 1e-8, 1e-9, 1e-10, 1e-11] });
        let off = ctx.pick(&[1.0, -3.0, 1e6, 1e-6]);
        let m = len.min(n);
        let k = ctx.pick(&[1usize, 2, m / 4, (m / 2).max(1) - 1]);
        if k == 0 || k >= m / 2 {
            return Err(Stop::Skip);
        }
        let mk = |n: usize| -> Vec<f64> { tone(n, k, true).iter().map(|v| off * (1.0 + amp * v)).collect() };
        let y = ctx.must("resample", || run(f, &mk(len), n))?;
        ctx.state(&y);
        ctx.note(|| format!("{} samples around {} with variation {} to {}: {:?}", len, off, amp, n, &y[..n.min(5)]));
        cmp(&format!("{} samples around {} with a relative variation of {} to {} (f32={})", len, off, amp, n, f), &y, &mk(n), tol(f, len, n, 1.0) * off.abs())
    })
}
fn large(v: Vec<usize>) -> Scenario {
    sc(format!("large-{}", v.len()), move |ctx| {
        let len = ctx.pick(&v);
        let n = ctx.pick(&v);
        let m = len.min(n);
        let f32_ = ctx.flag();
        let mut fs = vec![0, 1, 2, 3, m / 8, m / 4, m / 3, (m / 2).max(2) - 2, (m / 2).max(1) - 1];
        for f in [m / 2 + 1, m / 2 + 2, m, len / 2] {
            if 2 * f > m + 1 && f <= len / 2 && n < len {
                fs.push(f);
            }
        }
        let f = ctx.pick(&fs);
        let sine = ctx.flag();
        if f != 0 && f >= m / 2 && !(f > m / 2) {
            return Err(Stop::Skip);
        }
        let x = tone(len, f, sine);
        let what = format!("tone {} (sine={}) of {} samples to {} (f32={})", f, sine, len, n, f32_);
        let y = ctx.must(&what, || run(f32_, &x, n))?;
        ctx.state(&y);
        let w = if f < m / 2 || f == 0 { tone(n, f, sine) } else { vec![0.0; n] };
        cmp(&what, &y, &w, tol(f32_, len, n, 4.0))
    })
}
fn same_length(nmax: usize) -> Scenario {
    sc("same-length", move |ctx| {
        let n = 2 * ctx.range(1, nmax / 2);
        let f = ctx.flag();
        let x: Vec<f64> = (0..n).map(|i| pattern(i) as f32 as f64).collect();
        let y = ctx.must("resample", || run(f, &x, n))?;
        ctx.state(&y);
        cmp(&format!("{} samples to {} samples", n, n), &y, &x, tol(f, n, n, 4.0))
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![basis(40), lengths(64), scaled(), offsets(), same_length(256), large(vec![64, 99, 100, 127, 128, 243, 256, 441, 480, 500, 1000, 1024, 1021])];
    if t {
        v.push(basis(110));
        v.push(lengths(200));
        v.push(large(vec![500, 997, 1000, 1023, 1024, 2048, 2187, 3001, 4096, 6561]));
    }
    if l >= 2 {
        v.push(basis(256));
        v.push(lengths(500));
    }
    if l >= 3 {
        v.push(basis(420));
        v.push(lengths(1200));
    }
    v
}
