//! C03: zero-phase filtering.
use super::c01::{from_sos, to_sos};
use super::c02::steady;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::sosfiltfilt_dyn;

pub fn check() -> Check {
    Check {
        id: "C03",
        bounds: "0..=24 sections, every length from 0 to past the extension limit, impulses at every position, all pairs of structured sections, lengths up to 16385",
        assumptions: &["no section has a pole at DC", "extension length = 3 x (2 x sections + 1 - number of trailing zero coefficients shared by b and a), SciPy's definition"],
        scenarios,
    }
}

fn edge(s: &[Sec]) -> usize {
    let bz = s.iter().filter(|q| q.b[2] == 0.0).count();
    let az = s.iter().filter(|q| q.a[2] == 0.0).count();
    3 * (2 * s.len() + 1 - bz.min(az))
}
fn pass(s: &[Sec], x: &[f64], big: &mut f64) -> Vec<f64> {
    let mut m = s.to_vec();
    let mut g = x[0];
    for q in &mut m {
        let (y, z) = steady(&q.b, &q.a);
        q.z = [g * z[0], g * z[1]];
        g *= y;
        *big = big.max(q.z[0].abs()).max(q.z[1].abs());
    }
    x.iter().map(|v| df2t(*v, &mut m, big)).collect()
}
fn reference(s: &[Sec], x: &[f64], big: &mut f64) -> Vec<f64> {
    let e = edge(s);
    let n = x.len();
    let mut ext = vec![];
    for i in (1..=e).rev() {
        ext.push(2.0 * x[0] - x[i]);
    }
    ext.extend_from_slice(x);
    for i in 1..=e {
        ext.push(2.0 * x[n - 1] - x[n - 1 - i]);
    }
    let mut y = pass(s, &ext, big);
    y.reverse();
    let mut z = pass(s, &y, big);
    z.reverse();
    z[e..e + n].to_vec()
}

fn one<T: Flt>(ctx: &mut Ctx, secs: &[Sec], x: &[f64], dirty: bool, itk: usize) -> R {
    let mut s = secs.to_vec();
    for q in &mut s {
        q.b = q.b.map(|v| T::of(v).f());
        q.a = q.a.map(|v| T::of(v).f());
        q.z = [0.0, 0.0];
    }
    let mut given = s.clone();
    if dirty {
        for (i, q) in given.iter_mut().enumerate() {
            q.z = [3.0 * pattern(i), -7.0 * pattern(i + 50)];
        }
    }
    let real: Vec<Sos<T>> = to_sos(&given);
    let xs: Vec<T> = ofv(x);
    let x = tov(&xs);
    let r = ctx.call(|| match itk {
        0 => sosfiltfilt_dyn(xs.iter(), &real),
        1 => sosfiltfilt_dyn(xs.clone().into_iter(), &real),
        _ => {
            let mut i = 0;
            sosfiltfilt_dyn(
                std::iter::from_fn(|| {
                    i += 1;
                    xs.get(i - 1).copied()
                }),
                &real,
            )
        }
    });
    let e = edge(&s);
    if x.len() <= e {
        ctx.state(&[x.len() as f64, e as f64]);
        ensure!(r.is_err(), "a signal of {} samples with an extension of {} was not rejected", x.len(), e);
        return Ok(());
    }
    let got = match r {
        Ok(v) => tov(&v),
        Err(m) => return fail(format!("{} samples, extension {}: panicked: {}", x.len(), e, m)),
    };
    let mut big = maxabs(&x);
    let want = reference(&s, &x, &mut big);
    ctx.note(|| format!("{} sections, {} samples -> {:?}", s.len(), x.len(), &got[..got.len().min(6)]));
    cmp("zero-phase output", &got, &want, if T::EPS > 1e-10 { 2e-4 } else { 1e-9 } * big)?;
    for (a, b) in from_sos(&real).iter().zip(&from_sos(&to_sos::<T>(&given))) {
        ensure!(a.b == b.b && a.a == b.a && a.z == b.z, "the caller's sections were modified");
    }
    ctx.state(&got);
    Ok(())
}

fn signal(ctx: &mut Ctx, len: usize, kinds: usize) -> Vec<f64> {
    match ctx.choose(kinds) {
        0 => (0..len).map(pattern).collect(),
        1 => vec![-1.75; len],
        2 => (0..len).map(|i| if i < len / 2 { 0.0 } else { 1.0 }).collect(),
        3 => (0..len).map(|i| 0.25 * i as f64 - 3.0).collect(),
        4 => (0..len).map(|i| 1e9 + pattern(i)).collect(),
        5 => vec![0.0; len],
        _ => (0..len).map(|i| 1e-9 * pattern(i)).collect(),
    }
}

fn lengths<T: Flt>(nmax: usize, past: usize) -> Scenario {
    sc(format!("every-length-{}-n{}", T::NAME, nmax), move |ctx| {
        let n = ctx.range(0, nmax);
        let s: Vec<Sec> = (0..n).map(stock).collect();
        let len = ctx.range(0, edge(&s) + past);
        let x = signal(ctx, len, 4);
        let dirty = ctx.flag();
        one::<T>(ctx, &s, &x, dirty, 0)
    })
}
fn limits<T: Flt>() -> Scenario {
    sc(format!("limits-{}", T::NAME), move |ctx| {
        let n = ctx.range(1, 24);
        let mut s: Vec<Sec> = (0..n).map(stock).collect();
        // trailing zero coefficients shorten the extension by the smaller count
        let bz = ctx.range(0, n.min(3));
        let az = ctx.range(0, n.min(3));
        for i in 0..bz {
            s[i].b[2] = 0.0;
        }
        for i in 0..az {
            s[n - 1 - i].a = [1.0, -0.4, 0.0];
        }
        let e = edge(&s);
        let len = ctx.pick(&[e - 1, e, e + 1, e + 2, e + 17]);
        let x: Vec<f64> = (0..len).map(pattern).collect();
        let itk = ctx.choose(3);
        one::<T>(ctx, &s, &x, true, itk)
    })
}
fn structured<T: Flt>() -> Scenario {
    sc(format!("structured-{}", T::NAME), move |ctx| {
        let cat: Vec<Sec> = special().into_iter().filter(|s| s.a.iter().sum::<f64>().abs() > 1e-9).collect();
        let n = ctx.range(1, 3);
        let s: Vec<Sec> = (0..n).map(|_| ctx.pick(&cat)).collect();
        let e = edge(&s);
        let len = ctx.pick(&[e + 1, e + 2, e + 9, 60]);
        if len <= e {
            return Err(Stop::Skip);
        }
        let x = signal(ctx, len, 7);
        one::<T>(ctx, &s, &x, false, 0)
    })
}
fn impulses(nmax: usize) -> Scenario {
    sc("impulse-basis", move |ctx| {
        let n = ctx.range(1, nmax);
        let s: Vec<Sec> = (0..n).map(|i| stock(i + 2)).collect();
        let e = edge(&s);
        let len = ctx.range(e + 1, e + 12);
        let at = ctx.range(0, len - 1);
        let mut x = vec![0.0; len];
        x[at] = 1.0;
        one::<f64>(ctx, &s, &x, false, 0)
    })
}
fn long<T: Flt>() -> Scenario {
    sc(format!("long-{}", T::NAME), move |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 4, 5, 6, 8, 10, 11, 12, 16, 20, 33]);
        let s: Vec<Sec> = (0..n).map(stock).collect();
        let len = ctx.pick(&[128usize, 129, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 16385]);
        let x = signal(ctx, len, 3);
        let itk = ctx.choose(3);
        one::<T>(ctx, &s, &x, false, itk)
    })
}

/// Long cascades: sections that barely colour the signal, so that any number of them stays well conditioned.
fn many<T: Flt>(most: usize) -> Scenario {
    sc(format!("many-sections-{}-{}", T::NAME, most), move |ctx| {
        let n = ctx.range(1, most);
        if n > 40 && n % 8 > 1 && n % 8 < 7 && n % 10 != 0 {
            return Err(Stop::Skip);
        }
        let kind = ctx.choose(3);
        let s: Vec<Sec> = (0..n)
            .map(|i| {
                let e = 0.3 / (1 + i) as f64 * if i % 2 == 0 { 1.0 } else { -1.0 };
                sec([1.0, e, if kind == 1 { 0.0 } else { 0.01 }], [1.0, 0.5 * e, if kind == 2 { 0.0 } else { -0.003 * (i % 3 + 1) as f64 }])
            })
            .collect();
        let e = edge(&s);
        let len = ctx.pick(&[e - 1, e, e + 1, e + 6]);
        let x: Vec<f64> = (0..len).map(pattern).collect();
        one::<T>(ctx, &s, &x, n % 2 == 0, n % 3)
    })
}
/// Gains and signals of every magnitude: scaling a numerator or the signal by a power of two scales the
/// output exactly.
fn scales<T: Flt>() -> Scenario {
    sc(format!("scales-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let n = ctx.range(1, 4);
        let mut s: Vec<Sec> = (0..n).map(|i| stock(i + 1)).collect();
        let first_order = ctx.range(0, n.min(2));
        for i in 0..first_order {
            s[i].a = [1.0, -0.4, 0.0];
        }
        let at = ctx.choose(n);
        let ks: &[i32] = if single { &[-24, -12, 12, 24] } else { &[-200, -100, -66, -54, -40, -26, -12, 12, 40, 100, 200] };
        let (kb, kx) = (ctx.pick(ks), ctx.pick(ks));
        let e = edge(&s);
        let len = ctx.pick(&[e, e + 1, e + 9]);
        for q in &mut s {
            q.b = q.b.map(|v| T::of(v).f());
            q.a = q.a.map(|v| T::of(v).f());
        }
        let mut g = s.clone();
        g[at].b = g[at].b.map(|v| v * 2f64.powi(kb));
        let real: Vec<Sos<T>> = to_sos(&g);
        let x: Vec<f64> = (0..len).map(|i| T::of(pattern(i)).f()).collect();
        let xs: Vec<T> = x.iter().map(|v| T::of(v * 2f64.powi(kx))).collect();
        let r = ctx.call(|| sosfiltfilt_dyn(xs.iter(), &real));
        if len <= e {
            ensure!(r.is_err(), "a signal of {} samples with an extension of {} was not rejected", len, e);
            return Ok(());
        }
        let got = match r {
            Ok(v) => tov(&v),
            Err(m) => return fail(format!("{} samples, extension {}: panicked: {}", len, e, m)),
        };
        let mut big = maxabs(&x);
        let want = reference(&s, &x, &mut big);
        let f = 2f64.powi(2 * kb + kx);
        ctx.note(|| format!("{} sections, gain 2^{} in section {}, signal 2^{}, {} samples -> {:?}", n, kb, at, kx, len, &got[..4]));
        ctx.state(&got);
        let want: Vec<f64> = want.iter().map(|v| v * f).collect();
        cmp("zero-phase output of a scaled filter", &got, &want, if single { 2e-4 } else { 1e-9 } * big * f)
    })
}
/// Trailing coefficients that are tiny but not zero count as taps.
fn tiny<T: Flt>() -> Scenario {
    sc(format!("tiny-coefficients-{}", T::NAME), move |ctx| {
        let n = ctx.range(1, 3);
        let mut s: Vec<Sec> = (0..n).map(stock).collect();
        let vals: &[f64] = if T::EPS > 1e-10 { &[0.0, 1e-8, -1e-20, 1e-37] } else { &[0.0, 1e-9, -1e-16, 1e-20, -1e-100, 1e-307] };
        for q in s.iter_mut() {
            q.b[2] = ctx.pick(vals);
            q.a = [1.0, -0.4, ctx.pick(vals)];
        }
        let e = edge(&s);
        let len = ctx.pick(&[e, e + 1, e + 4]);
        let x: Vec<f64> = (0..len).map(pattern).collect();
        one::<T>(ctx, &s, &x, false, 0)
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        lengths::<f64>(if t { 12 } else { 7 }, if t { 60 } else { 24 }),
        lengths::<f32>(if t { 8 } else { 4 }, 24),
        limits::<f64>(),
        limits::<f32>(),
        structured::<f64>(),
        structured::<f32>(),
        impulses(if t { 6 } else { 3 }),
        long::<f64>(),
        long::<f32>(),
        scales::<f64>(),
        scales::<f32>(),
        tiny::<f64>(),
        tiny::<f32>(),
        many::<f64>(if t { 130 } else { 66 }),
        many::<f32>(if t { 66 } else { 34 }),
    ];
    if l >= 2 {
        v.push(lengths::<f64>(24, 200));
        v.push(impulses(12));
    }
    if l >= 3 {
        v.push(lengths::<f64>(60, 1500));
        v.push(lengths::<f32>(14, 800));
        v.push(impulses(60));
        v.push(many::<f64>(600));
    }
    v
}
