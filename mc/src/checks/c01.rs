//! C01: streaming SOS filtering.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{sosfilt_dyn, sosfilt_fast32_st, sosfilt_ifast32_st, sosfilt_item, sosfilt_st};

pub fn check() -> Check {
    Check {
        id: "C01",
        bounds: "section counts 0..=24 (33 thorough); all op sequences (entry point x chunk length) up to depth 3 (4 thorough); all 4-sample signals over a 9-value alphabet through all pairs of 10 structured sections; lengths up to 65537",
        assumptions: &["a[0] == 1 in every section, as the library documents (SciPy SOS layout)", "comparison tolerance 1e-9 (f64) / 1e-4 (f32) of the largest intermediate"],
        scenarios,
    }
}

pub fn to_sos<T: Flt>(s: &[Sec]) -> Vec<Sos<T>> {
    s.iter()
        .map(|q| {
            let mut x = Sos::new(q.b.map(T::of), q.a.map(T::of));
            x.zi0 = T::of(q.z[0]);
            x.zi1 = T::of(q.z[1]);
            x
        })
        .collect()
}
pub fn from_sos<T: Flt>(s: &[Sos<T>]) -> Vec<Sec> {
    s.iter().map(|q| Sec { b: q.b.map(|v| v.f()), a: q.a.map(|v| v.f()), z: [q.zi0.f(), q.zi1.f()] }).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    DynRef,
    DynOwned,
    DynLazy,
    St,
    StStep,
    StNth,
    Item,
    ItemRef,
    Fast,
    FastDirty,
    I8,
    U8,
    I16,
    Isize,
}
const GEN: [E; 8] = [E::DynRef, E::St, E::Item, E::DynOwned, E::DynLazy, E::StStep, E::StNth, E::ItemRef];
const F32: [E; 6] = [E::Fast, E::FastDirty, E::I8, E::U8, E::I16, E::Isize];

pub trait Fast: Flt {
    fn fast(e: E, x: &[Self], sos: &mut [Sos<Self>]) -> Vec<Self>;
}
impl Fast for f64 {
    fn fast(_: E, _: &[f64], _: &mut [Sos<f64>]) -> Vec<f64> {
        unreachable!()
    }
}
impl Fast for f32 {
    fn fast(e: E, x: &[f32], sos: &mut [Sos<f32>]) -> Vec<f32> {
        let mut z = vec![if e == E::FastDirty { f32::NAN } else { 7.5 }; x.len()];
        match e {
            E::Fast | E::FastDirty => sosfilt_fast32_st(x, sos, &mut z),
            E::I8 => sosfilt_ifast32_st(&x.iter().map(|v| *v as i8).collect::<Vec<_>>(), sos, &mut z),
            E::U8 => sosfilt_ifast32_st(&x.iter().map(|v| *v as u8).collect::<Vec<_>>(), sos, &mut z),
            E::I16 => sosfilt_ifast32_st(&x.iter().map(|v| *v as i16).collect::<Vec<_>>(), sos, &mut z),
            E::Isize => sosfilt_ifast32_st(&x.iter().map(|v| *v as isize).collect::<Vec<_>>(), sos, &mut z),
            _ => unreachable!(),
        }
        z
    }
}

fn apply<T: Fast>(e: E, x: &[T], sos: &mut [Sos<T>]) -> Vec<T> {
    match e {
        E::DynRef => sosfilt_dyn(x.iter(), sos),
        E::DynOwned => sosfilt_dyn(x.to_vec(), sos),
        E::DynLazy => {
            // an iterator without a size hint
            let mut i = 0;
            sosfilt_dyn(
                std::iter::from_fn(|| {
                    i += 1;
                    x.get(i - 1).copied()
                }),
                sos,
            )
        }
        E::St => sosfilt_st(x.iter(), sos).collect(),
        E::StStep => {
            let v = x.to_vec();
            let mut it = sosfilt_st(v, sos);
            let mut out = vec![];
            while let Some(y) = it.next() {
                out.push(y);
            }
            out
        }
        E::StNth => {
            // consume in a mixture of ways; every input must still be filtered exactly once
            let v = x.to_vec();
            let n = v.len();
            let mut it = sosfilt_st(v, sos);
            let mut out: Vec<T> = it.by_ref().take(n / 2).collect();
            out = it.fold(out, |mut o, y| {
                o.push(y);
                o
            });
            out
        }
        E::Item => x.iter().map(|v| sosfilt_item(*v, sos)).collect(),
        E::ItemRef => x.iter().map(|v| sosfilt_item::<T, &T>(v, sos)).collect(),
        e => T::fast(e, x, sos),
    }
}

/// Runs one call on the real code and on the reference (which it advances); compares outputs,
/// state, coefficients and the sections next to the slice.
fn step<T: Fast>(ctx: &mut Ctx, e: E, x: &[f64], model: &mut Vec<Sec>, real: &mut Vec<Sos<T>>, big: &mut f64) -> R {
    let n = model.len();
    let xs: Vec<T> = ofv(x);
    let want: Vec<f64> = xs.iter().map(|v| df2t(v.f(), model, big)).collect();
    // guard sections around the slice
    let mut all: Vec<Sos<T>> = to_sos(&[stock(3)]);
    all.extend(real.iter().cloned());
    all.extend(to_sos::<T>(&[stock(5)]));
    let before = from_sos(&all);
    let (ok, slice) = {
        let s = &mut all[1..1 + n];
        let r = ctx.must("filtering", || apply(e, &xs, s))?;
        (r, s.to_vec())
    };
    ctx.note(|| format!("{:?} {} x={:?} -> {:?}", e, T::NAME, xs, ok));
    let tol = if T::EPS > 1e-10 { 1e-4 } else { 1e-9 } * *big;
    let got = tov(&ok);
    cmp_class("output", &got, &want, tol)?;
    let after = from_sos(&all);
    for i in [0, n + 1] {
        ensure!(after[i].z == before[i].z && after[i].b == before[i].b && after[i].a == before[i].a, "a section outside the cascade was changed");
    }
    let mut obs = got;
    for i in 0..n {
        let (w, g) = (&model[i], &after[i + 1]);
        cmp_class(&format!("delay state of section {} of {}", i, n), &g.z, &w.z, tol)?;
        ensure!(g.b == before[i + 1].b && g.a == before[i + 1].a, "coefficients of section {} of {} were changed", i, n);
        obs.extend(g.z);
    }
    ctx.state(&obs);
    *real = slice;
    Ok(())
}
/// As cmp, but any non-finite value only has to be matched by a non-finite one.
fn cmp_class(what: &str, got: &[f64], want: &[f64], tol: f64) -> R {
    ensure!(got.len() == want.len(), "{}: {} values instead of {}", what, got.len(), want.len());
    for i in 0..got.len() {
        let same = if want[i].is_nan() {
            got[i].is_nan()
        } else if want[i].is_infinite() {
            !got[i].is_finite()
        } else {
            got[i].is_finite() && ((got[i] - want[i]).abs() <= tol || got[i] == want[i])
        };
        ensure!(same, "{}: value {} is {:e} instead of {:e} (tolerance {:e})", what, i, got[i], want[i], tol);
    }
    Ok(())
}

/// f32 coefficients are what the implementation sees, so the model uses the rounded ones too.
fn round_model<T: Flt>(m: &mut [Sec]) {
    for s in m {
        s.b = s.b.map(|v| T::of(v).f());
        s.a = s.a.map(|v| T::of(v).f());
        s.z = s.z.map(|v| T::of(v).f());
    }
}
fn cascade<T: Flt>(n: usize, init: usize) -> Vec<Sec> {
    let mut m: Vec<Sec> = (0..n).map(stock).collect();
    if init > 0 {
        for (i, s) in m.iter_mut().enumerate() {
            s.z = [pattern(100 + 2 * i), pattern(101 + 2 * i)];
            if init == 2 && i % 2 == 0 {
                s.z[0] = 0.0;
            }
        }
    }
    round_model::<T>(&mut m);
    m
}

fn history<T: Fast>(depth: usize, entries: &'static [E], lens: &'static [usize], nmax: usize) -> Scenario {
    sc(format!("history-{}-d{}-e{}-l{}", T::NAME, depth, entries.len(), lens.len()), move |ctx| {
        let n = ctx.range(0, nmax);
        let init = ctx.choose(2);
        let mut model = cascade::<T>(n, init);
        let mut real = to_sos::<T>(&model);
        let mut big = 1.0;
        let mut pos = 0;
        for _ in 0..depth {
            let e = ctx.pick(entries);
            let len = ctx.pick(lens);
            let x: Vec<f64> = (pos..pos + len)
                .map(|i| match e {
                    E::U8 => ints(i, 5).abs() as f64,
                    E::I8 | E::I16 | E::Isize => ints(i, 5) as f64,
                    _ => pattern(i),
                })
                .collect();
            pos += len;
            step(ctx, e, &x, &mut model, &mut real, &mut big)?;
        }
        Ok(())
    })
}

fn alphabet<T: Fast>(thorough: bool) -> Scenario {
    sc(format!("alphabet-{}", T::NAME), move |ctx| {
        let sp = special();
        let two = ctx.flag();
        let mut model = vec![sp[ctx.choose(sp.len())]];
        if two {
            let k = ctx.choose(sp.len());
            model.push(sp[k]);
        }
        let e = if T::EPS > 1e-10 { ctx.pick(&[E::DynRef, E::St, E::Fast]) } else { ctx.pick(&[E::DynRef, E::St]) };
        let tiny: f64 = if T::EPS > 1e-10 { 1e-30 } else { 1e-200 };
        let al = [0.0, 1.0, -1.0, -0.0, tiny, 1.0 / tiny.sqrt(), f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        let m = if thorough { al.len() } else { 7 };
        let n = if two && !thorough { 3 } else { 4 };
        let x: Vec<f64> = (0..n).map(|_| al[ctx.choose(m)]).collect();
        let mut x = x;
        x.push(0.5);
        round_model::<T>(&mut model);
        let mut real = to_sos::<T>(&model);
        let mut big = 0.0;
        step(ctx, e, &x, &mut model, &mut real, &mut big)
    })
}

/// The same cascade at scales far from one: nothing may be flushed, clamped or skipped.
fn scales<T: Fast>() -> Scenario {
    sc(format!("scale-{}", T::NAME), move |ctx| {
        let f32s = T::EPS > 1e-10;
        let sc = if f32s { ctx.pick(&[1e-30, 1e-27, 1e-24, 1e-20, 1e-12, 1e-6, 1e6, 1e12, 1e25]) } else { ctx.pick(&[1e-250, 1e-100, 1e-30, 1e-25, 1e-20, 1e-16, 1e-9, 1e9, 1e30, 1e100, 1e250]) };
        let n = ctx.range(1, 21);
        let e = if f32s { ctx.pick(&[E::DynRef, E::St, E::Item, E::Fast]) } else { ctx.pick(&[E::DynRef, E::St, E::Item]) };
        let len = ctx.pick(&[8usize, 9, 40]);
        let init = ctx.choose(2);
        let mut model = cascade::<T>(n, init);
        for s in &mut model {
            s.z = s.z.map(|z| T::of(z * sc).f());
        }
        let mut real = to_sos::<T>(&model);
        let x: Vec<f64> = (0..len).map(|i| if i % 5 == 4 { 0.0 } else { pattern(i) * sc }).collect();
        let mut big = 0.0;
        step(ctx, e, &x, &mut model, &mut real, &mut big)
    })
}

/// Long cascades of mostly plain wires, with one live section at every position: sparse signals reach it,
/// exact zeros included, and states are stored before.
fn wires<T: Fast>(lens: Vec<usize>) -> Scenario {
    sc(format!("wires-{}-{}", T::NAME, lens.len()), move |ctx| {
        let n = ctx.pick(&lens);
        let at = ctx.choose(n);
        let live = ctx.choose(special().len());
        let e = if T::EPS > 1e-10 { ctx.pick(&[E::DynRef, E::St, E::Item, E::Fast, E::I16, E::StNth, E::DynLazy]) } else { ctx.pick(&[E::DynRef, E::St, E::Item, E::StNth, E::DynLazy]) };
        let x: Vec<f64> = match ctx.choose(3) {
            0 => vec![1.0, 0.0, 0.0, 2.0, 0.0, -1.0, 0.0],
            1 => vec![0.0, 0.0, 3.0, 0.0, 0.0, 0.0, 0.0, 0.0],
            _ => vec![0.0; 5],
        };
        let mut model = vec![special()[0]; n];
        model[at] = special()[live];
        // (zero, nonzero) states in the live section, and one more behind it
        match ctx.choose(4) {
            0 => {}
            1 => model[at].z = [0.0, 1.5],
            2 => model[at].z = [-0.5, 0.0],
            _ => {
                model[at].z = [0.5, -2.0];
                model[n - 1].z[1] = 0.75;
            }
        }
        round_model::<T>(&mut model);
        let mut real = to_sos::<T>(&model);
        let mut big = 0.0;
        step(ctx, e, &x, &mut model, &mut real, &mut big)?;
        step(ctx, E::Item, &[0.0, 0.0], &mut model, &mut real, &mut big)
    })
}
fn long<T: Fast>(thorough: bool) -> Scenario {
    sc(format!("long-{}", T::NAME), move |ctx| {
        let n = if thorough { ctx.range(0, 24) } else { ctx.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22]) };
        let e = if T::EPS > 1e-10 { ctx.pick(&[E::DynRef, E::St, E::Fast, E::I16]) } else { ctx.pick(&[E::DynRef, E::St]) };
        let len = ctx.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 16384, 65536, 65537]);
        if len > 20000 && !thorough && n > 6 {
            return Err(Stop::Skip);
        }
        let mut model = cascade::<T>(n, 2);
        let mut real = to_sos::<T>(&model);
        let mut big = 1.0;
        let x: Vec<f64> = (0..len).map(|i| if e == E::I16 { ints(i, 9) as f64 } else { pattern(i) }).collect();
        step(ctx, e, &x, &mut model, &mut real, &mut big)?;
        // and the stream goes on
        step(ctx, E::Item, &[0.25, -1.0, 0.0, 2.0], &mut model, &mut real, &mut big)
    })
}

/// Taking only part of a lazy stream advances the state by exactly the samples taken.
fn partial<T: Fast>() -> Scenario {
    sc(format!("lazy-partial-{}", T::NAME), move |ctx| {
        let n = ctx.range(0, 12);
        let len = ctx.range(0, 6);
        let take = ctx.range(0, len);
        let mode = ctx.choose(3);
        let mut model = cascade::<T>(n, 1);
        let mut real = to_sos::<T>(&model);
        let mut big = 1.0;
        let x: Vec<T> = (0..len).map(|i| T::of(pattern(i))).collect();
        let want: Vec<f64> = x[..take].iter().map(|v| df2t(v.f(), &mut model, &mut big)).collect();
        let got: Vec<T> = ctx.must("lazy filtering", || {
            let mut it = sosfilt_st(x.clone(), &mut real);
            match mode {
                0 => it.by_ref().take(take).collect(),
                1 => (0..take).map(|_| it.next().expect("sample")).collect(),
                _ => {
                    // nth(k) consumes k+1 samples
                    if take > 0 {
                        vec![it.nth(take - 1).expect("sample")]
                    } else {
                        vec![]
                    }
                }
            }
        })?;
        let tol = if T::EPS > 1e-10 { 1e-4 } else { 1e-9 } * big;
        let want = if mode == 2 && take > 0 { vec![want[take - 1]] } else { want };
        cmp("lazy output", &tov(&got), &want, tol)?;
        for (i, (g, w)) in from_sos(&real).iter().zip(&model).enumerate() {
            cmp(&format!("state of section {} after {} of {} samples", i, take, len), &g.z, &w.z, tol)?;
        }
        ctx.state(&tov(&got));
        step(ctx, E::DynRef, &[1.0, 0.0, -0.5], &mut model, &mut real, &mut big)
    })
}

/// One sample that is not finite (or a state that is not), anywhere in a short call, through every section count.
fn nonfinite<T: Fast>(nmax: usize) -> Scenario {
    sc(format!("nonfinite-{}", T::NAME), move |ctx| {
        let n = ctx.range(0, nmax);
        let e = if T::EPS > 1e-10 { ctx.pick(&[E::DynRef, E::St, E::Item, E::Fast, E::FastDirty]) } else { ctx.pick(&[E::DynRef, E::St, E::Item]) };
        let len = ctx.range(1, 9);
        let bad = ctx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let at = ctx.choose(len + 2);
        let mut model = cascade::<T>(n, 1);
        let mut x: Vec<f64> = (0..len).map(pattern).collect();
        match at.checked_sub(len) {
            None => x[at] = bad,
            Some(k) if n > 0 => model[n / 2].z[k] = bad,
            _ => return Err(Stop::Skip),
        }
        let mut real = to_sos::<T>(&model);
        let mut big = 1.0;
        step(ctx, e, &x, &mut model, &mut real, &mut big)?;
        step(ctx, E::Item, &[0.25, -1.0], &mut model, &mut real, &mut big)
    })
}

fn integers() -> Scenario {
    sc("integer-extremes", |ctx| {
        let n = ctx.range(0, 11);
        let len = ctx.pick(&[1usize, 4, 5, 8]);
        let ty = ctx.choose(4);
        let at = ctx.range(0, len - 1);
        let v: f64 = match ty {
            0 => ctx.pick(&[i8::MIN as f64, i8::MAX as f64, -1.0]),
            1 => ctx.pick(&[u8::MAX as f64, 128.0, 127.0]),
            2 => ctx.pick(&[i16::MIN as f64, i16::MAX as f64, 256.0, 255.0, 128.0]),
            _ => ctx.pick(&[16777216.0, 1e12, -1e15, 32768.0, 65536.0, 2147483648.0]),
        };
        let e = [E::I8, E::U8, E::I16, E::Isize][ty];
        let mut x: Vec<f64> = (0..len).map(|i| ints(i, 3).abs() as f64).collect();
        x[at] = v;
        let mut model = cascade::<f32>(n, 1);
        let mut real = to_sos::<f32>(&model);
        let mut big = 1.0;
        step(ctx, e, &x, &mut model, &mut real, &mut big)
    })
}

fn buffers() -> Scenario {
    sc("output-buffer-size", |ctx| {
        let n = ctx.range(0, 10);
        let y = ctx.range(0, 9);
        let z = ctx.range(0, 9);
        if y == z {
            return Err(Stop::Skip);
        }
        let mut real = to_sos::<f32>(&cascade::<f32>(n, 1));
        let x = vec![1f32; y];
        let mut out = vec![0f32; z];
        ctx.state(&[n as f64, y as f64, z as f64]);
        if ctx.flag() {
            ctx.must_panic("an output buffer of another size", || sosfilt_fast32_st(&x, &mut real, &mut out))
        } else {
            let xi = vec![1i8; y];
            ctx.must_panic("an output buffer of another size", || sosfilt_ifast32_st(&xi, &mut real, &mut out))
        }
    })
}

fn scipy_layout() -> Scenario {
    sc("flat-layout", |ctx| {
        let n = ctx.range(0, 12);
        let m: Vec<Sec> = (0..n).map(stock).collect();
        let flat: Vec<f64> = m.iter().flat_map(|s| s.b.iter().chain(s.a.iter()).cloned().collect::<Vec<_>>()).collect();
        if ctx.flag() {
            // wrong number of coefficients
            let extra = ctx.choose(7);
            if extra == 0 {
                return Err(Stop::Skip);
            }
            let mut f = flat.clone();
            f.extend(vec![0.5; extra]);
            ctx.must_panic("a coefficient list of the wrong length", || Sos::from_scipy_dyn(n, f))?;
            ctx.state(&[n as f64, extra as f64]);
            return Ok(());
        }
        let mut got = ctx.must("building sections", || Sos::from_scipy_dyn(n, flat))?;
        ensure!(got.len() == n, "{} sections instead of {}", got.len(), n);
        for (i, (g, w)) in from_sos(&got).iter().zip(&m).enumerate() {
            ensure!(g.b == w.b && g.a == w.a && g.z == [0.0, 0.0], "section {} of {} differs from the list", i, n);
        }
        let mut model = m;
        let mut big = 1.0;
        step(ctx, E::DynRef, &[1.0, 0.5, -0.25, 0.0, 3.0], &mut model, &mut got, &mut big)
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    const ALL32: [E; 11] = [E::DynRef, E::St, E::Item, E::Fast, E::FastDirty, E::I8, E::U8, E::I16, E::Isize, E::StNth, E::DynLazy];
    const MIX32: [E; 5] = [E::DynRef, E::St, E::Item, E::Fast, E::I16];
    const MIX64: [E; 4] = [E::DynRef, E::St, E::Item, E::StNth];
    let _ = F32;
    let nmax = if t { 33 } else { 24 };
    let mut v = vec![
        history::<f64>(1, &GEN, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 33], nmax),
        history::<f32>(1, &ALL32, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 33], nmax),
        history::<f64>(2, &GEN, &[0, 1, 2, 3, 4, 5, 8], nmax),
        history::<f32>(2, &ALL32, &[0, 1, 2, 3, 4, 5, 8], nmax),
        history::<f64>(3, &MIX64, &[1, 3, 4], nmax),
        history::<f32>(3, &MIX32, &[1, 3, 4], nmax),
        partial::<f64>(),
        partial::<f32>(),
        alphabet::<f64>(t),
        alphabet::<f32>(t),
        scales::<f64>(),
        scales::<f32>(),
        wires::<f64>((1..=26).chain([31, 32, 33, 34, 40, 41, 63, 64, 65, 66, 100, 101, 129]).collect()),
        wires::<f32>((1..=26).chain([31, 32, 33, 34, 40, 41, 63, 64, 65, 66, 100, 101, 129]).collect()),
        long::<f64>(t),
        long::<f32>(t),
        nonfinite::<f64>(if t { 24 } else { 9 }),
        nonfinite::<f32>(if t { 24 } else { 9 }),
        integers(),
        buffers(),
        scipy_layout(),
    ];
    if t {
        // every length without a gap
        const LENS: [usize; 301] = {
            let mut a = [0; 301];
            let mut i = 0;
            while i < 301 {
                a[i] = i;
                i += 1;
            }
            a
        };
        v.push(history::<f64>(1, &GEN[..4], &LENS, nmax));
        v.push(history::<f32>(1, &MIX32, &LENS, nmax));
        v.push(history::<f64>(4, &MIX64, &[1, 3, 4, 8], nmax));
        v.push(history::<f32>(4, &MIX32, &[1, 2, 4, 5], nmax));
        v.push(history::<f32>(5, &[E::DynRef, E::Fast, E::I16], &[1, 4], nmax));
    }
    if l >= 2 {
        v.push(history::<f64>(5, &[E::DynRef, E::St, E::Item], &[1, 3, 4], nmax));
        v.push(history::<f32>(5, &MIX32, &[1, 4], nmax));
        v.push(history::<f64>(3, &GEN, &[0, 1, 2, 3, 4, 5, 7, 8, 9], nmax));
        v.push(history::<f32>(3, &ALL32, &[1, 2, 3, 4, 5, 8], nmax));
    }
    if l >= 3 {
        v.push(history::<f64>(6, &[E::DynRef, E::Item], &[1, 3, 4], nmax));
        v.push(history::<f32>(6, &[E::Fast, E::Item, E::I16], &[1, 4], nmax));
        v.push(history::<f32>(4, &ALL32, &[1, 3, 4], nmax));
    }
    v
}
