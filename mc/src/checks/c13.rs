//! C13: convolution and correlation against the defining sums.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::convolve::{convolve, correlate, fftconvolve, ConvolveMode};

pub fn check() -> Check {
    Check {
        id: "C13",
        bounds: "every pair of lengths 1..=18 (thorough 1..=40) with every pair of unit impulses (a basis of the bilinear map), three modes, convolve / fftconvolve / correlate, f32 and f64; dense aperiodic signals for every pair of lengths 1..=72 and selected pairs up to 4099; all sequences over {-1,0,2} up to lengths 3 and 3; magnitudes 1e-12..1e12 and mixed",
        assumptions: &["tolerance 64*eps*log2(fft size)*|in1|*|in2| (2-norms): the result is only required up to rounding relative to the largest terms"],
        scenarios,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Full,
    Valid,
    Same,
}
const MODES: [M; 3] = [M::Full, M::Valid, M::Same];
fn mode(m: M) -> ConvolveMode {
    match m {
        M::Full => ConvolveMode::Full,
        M::Valid => ConvolveMode::Valid,
        M::Same => ConvolveMode::Same,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Conv,
    Fft,
    Corr,
}
const OPS: [Op; 3] = [Op::Conv, Op::Fft, Op::Corr];

fn run(f32_: bool, op: Op, a: &[f64], b: &[f64], m: M) -> Vec<f64> {
    macro_rules! go {
        ($t:ty) => {{
            let (a, b): (Vec<$t>, Vec<$t>) = (ofv(a), ofv(b));
            tov(&match op {
                Op::Conv => convolve(&a, &b, mode(m)),
                Op::Fft => fftconvolve(&a, &b, mode(m)),
                Op::Corr => correlate(&a, &b, mode(m)),
            })
        }};
    }
    if f32_ {
        go!(f32)
    } else {
        go!(f64)
    }
}
/// The defining sum.
fn reference(op: Op, a: &[f64], b: &[f64], m: M) -> Vec<f64> {
    let (n1, n2) = (a.len(), b.len());
    let mut full = vec![0.0; n1 + n2 - 1];
    for i in 0..n1 {
        if a[i] == 0.0 {
            continue;
        }
        for j in 0..n2 {
            let bj = if op == Op::Corr { b[n2 - 1 - j] } else { b[j] };
            full[i + j] += a[i] * bj;
        }
    }
    match m {
        M::Full => full,
        M::Valid => full[n1.min(n2) - 1..n1.max(n2)].to_vec(),
        M::Same => full[(n2 - 1) / 2..(n2 - 1) / 2 + n1].to_vec(),
    }
}
fn norm(x: &[f64]) -> f64 {
    let s = maxabs(x);
    if s == 0.0 {
        return 0.0;
    }
    s * x.iter().map(|v| (v / s) * (v / s)).sum::<f64>().sqrt()
}
fn one(ctx: &mut Ctx, f32_: bool, op: Op, a: &[f64], b: &[f64], m: M) -> R {
    let (a, b) = if f32_ { (tov(&ofv::<f32>(a)), tov(&ofv::<f32>(b))) } else { (a.to_vec(), b.to_vec()) };
    let y = ctx.must(&format!("{:?} {:?} of {} and {} samples", op, m, a.len(), b.len()), || run(f32_, op, &a, &b, m))?;
    let w = reference(op, &a, &b, m);
    let eps = if f32_ { f32::EPSILON as f64 } else { f64::EPSILON };
    let lg = ((a.len() + b.len()) as f64).log2() + 1.0;
    let tol = 64.0 * eps * lg * norm(&a) * norm(&b);
    ctx.note(|| format!("{:?} {:?} f32={} {:?} * {:?} -> {:?}", op, m, f32_, &a[..a.len().min(8)], &b[..b.len().min(8)], &y[..y.len().min(8)]));
    ctx.state(&y);
    cmp(&format!("{:?} {:?} f32={} of lengths {} and {}", op, m, f32_, a.len(), b.len()), &y, &w, tol)
}
fn impulses(nmax: usize) -> Scenario {
    sc(format!("impulses-{}", nmax), move |ctx| {
        let n1 = ctx.range(1, nmax);
        let n2 = ctx.range(1, nmax);
        let f = ctx.flag();
        let op = ctx.pick(&[Op::Conv, Op::Corr]);
        for i in 0..n1 {
            for j in 0..n2 {
                let mut a = vec![0.0; n1];
                let mut b = vec![0.0; n2];
                a[i] = 3.0;
                b[j] = -0.5;
                for m in MODES {
                    one(ctx, f, op, &a, &b, m)?;
                }
            }
        }
        Ok(())
    })
}
fn dense(nmax: usize) -> Scenario {
    sc(format!("dense-{}", nmax), move |ctx| {
        let n1 = ctx.range(1, nmax);
        let n2 = ctx.range(1, nmax);
        let f = ctx.flag();
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let a: Vec<f64> = (0..n1).map(|i| pattern(i) + 0.25).collect();
        let b: Vec<f64> = (0..n2).map(|i| pattern(500 + i) * 2.0).collect();
        one(ctx, f, op, &a, &b, m)
    })
}
fn large(big: Vec<usize>, small: Vec<usize>) -> Scenario {
    sc(format!("large-{}", big.len()), move |ctx| {
        let p = ctx.pick(&big);
        let q = ctx.pick(&small);
        let (n1, n2) = if ctx.flag() { (q, p) } else { (p, q) };
        let f = ctx.flag();
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let a: Vec<f64> = (0..n1).map(|i| pattern(i)).collect();
        let b: Vec<f64> = (0..n2).map(|i| pattern(90000 + i)).collect();
        one(ctx, f, op, &a, &b, m)
    })
}
fn words() -> Scenario {
    sc("all-words", move |ctx| {
        let n1 = ctx.range(1, 3);
        let n2 = ctx.range(1, 3);
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let f = ctx.flag();
        let al = [-1.0, 0.0, 2.0];
        let a: Vec<f64> = (0..n1).map(|_| ctx.pick(&al)).collect();
        let b: Vec<f64> = (0..n2).map(|_| ctx.pick(&al)).collect();
        one(ctx, f, op, &a, &b, m)
    })
}
fn magnitudes() -> Scenario {
    sc("magnitudes", move |ctx| {
        let n1 = ctx.pick(&[1, 2, 3, 7, 16, 33]);
        let n2 = ctx.pick(&[1, 2, 5, 8, 31]);
        let f = ctx.flag();
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let s = ctx.pick(&[1e-12, 1e-4, 1.0, 1e6, 1e12]);
        let t = ctx.pick(&[1e-12, 1.0, 1e9]);
        let mixed = ctx.choose(3);
        let mut a: Vec<f64> = (0..n1).map(|i| s * pattern(i)).collect();
        let mut b: Vec<f64> = (0..n2).map(|i| t * pattern(70 + i)).collect();
        if mixed >= 1 {
            a[n1 / 2] *= 1e8;
        }
        if mixed == 2 {
            b[n2 - 1] *= 1e6;
        }
        one(ctx, f, op, &a, &b, m)
    })
}
/// A short kernel against a signal whose length is near a power of two.
fn unequal(lo: u32, hi: u32) -> Scenario {
    sc(format!("unequal-{}-{}", lo, hi), move |ctx| {
        let p = ctx.range(lo as usize, hi as usize);
        let n1 = (1usize << p) + ctx.range(0, 7) - 4;
        let n2 = ctx.pick(&[1usize, 2, 3, 4, 5, 17]);
        let (n1, n2) = if ctx.flag() { (n2, n1) } else { (n1, n2) };
        let f = ctx.flag();
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let a: Vec<f64> = (0..n1).map(|i| pattern(i) + 0.5).collect();
        let b: Vec<f64> = (0..n2).map(|i| pattern(90000 + i) - 0.5).collect();
        one(ctx, f, op, &a, &b, m)
    })
}
/// Several calls in a row: no call influences a later one.
fn repeated() -> Scenario {
    sc("repeated-calls", move |ctx| {
        for step in 0..3 {
            let (n1, n2) = ctx.pick(&[(4, 3), (9, 9), (3, 17), (1, 1), (64, 2)]);
            let op = ctx.pick(&OPS);
            let m = ctx.pick(&MODES);
            let a: Vec<f64> = (0..n1).map(|i| pattern(i + step)).collect();
            let b: Vec<f64> = (0..n2).map(|i| pattern(40 + i + step)).collect();
            one(ctx, false, op, &a, &b, m)?;
        }
        Ok(())
    })
}
/// Both arguments may be the same data.
fn auto() -> Scenario {
    sc("same-signal", move |ctx| {
        let n = ctx.range(1, 130);
        let f = ctx.flag();
        let op = ctx.pick(&OPS);
        let m = ctx.pick(&MODES);
        let a: Vec<f64> = (0..n).map(|i| pattern(3 * i + 1)).collect();
        one(ctx, f, op, &a, &a, m)?;
        if op == Op::Corr && m == M::Full {
            let y = run(f, op, &a, &a, m);
            let e: f64 = a.iter().map(|x| x * x).sum();
            let eps = if f { 1e-4 } else { 1e-11 };
            ensure!(close(y[n - 1], e, eps * (e + 1.0)), "correlation of {} samples with themselves at lag 0 is {} instead of {}", n, y[n - 1], e);
        }
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let big = vec![100, 127, 128, 129, 255, 256, 257, 499, 500, 501, 513, 1000, 1023, 1025, 2047, 2049, 4099];
    let small = vec![1, 2, 3, 16, 63, 64, 65, 100, 301, 512, 700];
    let mut v = vec![impulses(18), dense(72), large(big, small), words(), magnitudes(), repeated(), auto()];
    if t {
        v.push(impulses(40));
        v.push(unequal(6, 13));
        v.push(dense(160));
        v.push(large(vec![5000, 8191, 8193, 10007, 16385, 20000, 32769], vec![1, 2, 129, 1000, 2048, 4097, 9001]));
    }
    if l >= 2 {
        v.push(impulses(64));
        v.push(dense(400));
        v.push(unequal(14, 15));
    }
    if l >= 3 {
        v.push(impulses(100));
        v.push(dense(900));
        v.push(unequal(16, 20));
    }
    v
}
