//! C27: the streaming entry points allocate nothing and never run ahead of their input.
use super::c01::{from_sos, to_sos};
use crate::engine::*;
use crate::guard;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats;
use std::cell::Cell;

pub fn check() -> Check {
    Check {
        id: "C27",
        bounds: "streams of 0..=12 samples through 0..=10 sections (stock and special), every number of samples pulled before the stream is dropped, resumed or asked for more after its end, f32 and f64, samples by value and by reference; allocation counts of every non-allocating entry point over all sizes up to 40 samples and 16 sections, and round sizes with their neighbours up to 10000 samples (65537 for statistics) and 65 sections (to 1001 samples with 1025 sections), the statistics over seven kinds of source (size hints exact, loose, absent)",
        assumptions: &[],
        scenarios,
    }
}

/// Input that counts how many samples were taken.
struct Tap<'a, T> {
    v: &'a [T],
    at: usize,
    taken: &'a Cell<usize>,
    asked: &'a Cell<usize>,
}
impl<T: Copy> Iterator for Tap<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.asked.set(self.asked.get() + 1);
        let r = self.v.get(self.at).copied();
        if r.is_some() {
            self.at += 1;
            self.taken.set(self.at);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.v.len() - self.at, Some(self.v.len() - self.at))
    }
}

fn cascade(i: usize, n: usize) -> Vec<Sec> {
    let sp = special();
    (0..n).map(|k| if i == 0 { stock(k) } else { sp[(i + k) % sp.len()] }).collect()
}

fn lazy<T: Flt>(maxn: usize, maxs: usize) -> Scenario {
    sc(format!("no-look-ahead-{}", T::NAME), move |ctx| {
        let s = ctx.range(0, maxs);
        let which = if s == 0 { 0 } else { ctx.choose(special().len()) };
        let n = ctx.range(0, maxn);
        let pull = ctx.range(0, n + 1);
        let secs = cascade(which, s);
        let y: Vec<T> = (0..n).map(|i| T::of(pattern(i))).collect();
        let mut model = secs.clone();
        let mut big = 1.0;
        let want: Vec<f64> = y.iter().take(pull).map(|x| df2t(x.f(), &mut model, &mut big)).collect();
        let tol = T::EPS * 2048.0 * big;
        let mut sos: Vec<Sos<T>> = to_sos(&secs);
        let (taken, asked) = (Cell::new(0), Cell::new(0));
        let what = format!("{} samples, {} sections ({}), {} pulled", n, s, which, pull);
        let (mut out, mut hints) = (Vec::with_capacity(n + 1), true);
        let mut early = None;
        let r = ctx.call(|| {
            let tap = Tap { v: &y, at: 0, taken: &taken, asked: &asked };
            let before = guard::allocations();
            let mut it = sosfilt_st(tap, &mut sos);
            if asked.get() != 0 {
                early = Some((0, asked.get()));
            }
            for k in 0..pull {
                let (lo, hi) = it.size_hint();
                hints &= lo <= n - k.min(n) && hi.map_or(true, |h| h >= n - k.min(n));
                let v = it.next();
                if early.is_none() && taken.get() != (k + 1).min(n) {
                    early = Some((k + 1, taken.get()));
                }
                match v {
                    Some(v) => out.push(v),
                    None => break,
                }
            }
            drop(it);
            guard::allocations() - before
        });
        let allocs = match r {
            Ok(a) => a,
            Err(m) => return fail(format!("{}: panicked: {}", what, m)),
        };
        ensure!(early.is_none(), "{}: after {} outputs {} inputs were taken", what, early.unwrap().0, early.unwrap().1);
        ensure!(hints, "{}: size_hint excludes the number of samples left", what);
        ensure!(allocs == 0, "{}: {} heap allocations", what, allocs);
        cmp(&format!("{}: output", what), &tov(&out), &want, tol)?;
        // the delay state is that of the samples pulled, no more and no less
        let after = from_sos(&sos);
        for (k, (a, b)) in after.iter().zip(&model).enumerate() {
            cmp(&format!("{}: delay state of section {}", what, k), &a.z, &b.z, tol)?;
        }
        ctx.note(|| what.clone());
        ctx.state(&tov(&out));
        Ok(())
    })
}

fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let b = guard::allocations();
    let r = f();
    let n = guard::allocations() - b;
    (r, n)
}
fn none(ctx: &mut Ctx, what: impl Fn() -> String, f: impl FnOnce()) -> R {
    match ctx.call(|| counted(f).1) {
        Ok(n) => {
            ctx.note(|| what());
            ensure!(n == 0, "{}: {} heap allocations", what(), n);
            Ok(())
        }
        Err(m) => fail(format!("{}: panicked: {}", what(), m)),
    }
}
fn filters(sizes: Vec<usize>, orders: Vec<usize>) -> Scenario {
    sc(format!("filters-do-not-allocate-{}", sizes.last().unwrap()), move |ctx| {
        let kind = ctx.choose(10);
        let s = ctx.pick(&orders);
        let n = ctx.pick(&sizes);
        let secs = cascade(0, s);
        let mut s64: Vec<Sos<f64>> = to_sos(&secs);
        let mut s32: Vec<Sos<f32>> = to_sos(&secs);
        let y: Vec<f64> = (0..n).map(pattern).collect();
        let y32: Vec<f32> = y.iter().map(|x| *x as f32).collect();
        let i8s: Vec<i8> = (0..n).map(|i| ints(i, 100) as i8).collect();
        let i16s: Vec<i16> = (0..n).map(|i| ints(i, 100) as i16).collect();
        let u8s: Vec<u8> = (0..n).map(|i| ints(i, 100).unsigned_abs() as u8).collect();
        let is: Vec<isize> = (0..n).map(|i| ints(i, 100) as isize).collect();
        let mut z = vec![0.0f32; n];
        let mut acc = 0.0f64;
        none(ctx, || format!("filter kind {} on {} samples with {} sections", kind, n, s), || match kind {
            0 => sosfilt_fast32_st(&y32, &mut s32, &mut z),
            1 => sosfilt_ifast32_st(&i8s, &mut s32, &mut z),
            2 => sosfilt_ifast32_st(&i16s, &mut s32, &mut z),
            3 => sosfilt_ifast32_st(&u8s, &mut s32, &mut z),
            4 => sosfilt_ifast32_st(&is, &mut s32, &mut z),
            5 => sosfilt_st(y.iter(), &mut s64).for_each(|v| acc += v),
            8 => sosfilt_st(loose(&y, 0), &mut s64).for_each(|v| acc += v),
            9 => sosfilt_st(loose(&y32, 2), &mut s32).for_each(|v| acc += v as f64),
            6 => y32.iter().for_each(|v| acc += sosfilt_item(*v, &mut s32) as f64),
            _ => y.iter().for_each(|v| acc += sosfilt_item(v, &mut s64)),
        })?;
        ctx.state(&[acc, z.iter().map(|x| *x as f64).sum()]);
        Ok(())
    })
}
fn statistics(sizes: Vec<usize>) -> Scenario {
    sc(format!("statistics-do-not-allocate-{}", sizes.last().unwrap()), move |ctx| {
        let kind = ctx.choose(8);
        let n = ctx.pick(&sizes);
        let k = if kind == 3 { if n > 300 { ctx.pick(&[0, 1, n / 2, n]) } else { ctx.range(0, n) } } else { 0 };
        let f32s = ctx.flag();
        let source = ctx.choose(7);
        fn from<'a, T: Flt + num_traits::Float, I: Iterator<Item = &'a T> + Clone>(kind: usize, k: usize, y: I) -> f64 {
            match kind {
                0 => stats::mean::<_, T>(y).0.f(),
                1 => stats::variance::<_, T>(y).0.f(),
                2 => stats::stdev::<_, T>(y).0.f(),
                3 => stats::autocorr::<_, T>(y, k).f(),
                4 => stats::lag_diff::<_, T>(y).map(|x: T| x.f()).sum(),
                5 => stats::rmssd::<_, T>(y).f(),
                6 => stats::zscore::<_, T>(y).map(|x: T| x.f()).sum(),
                _ => stats::zscore::<_, T>(y).take(2).map(|x: T| x.f()).sum(),
            }
        }
        fn go<T: Flt + num_traits::Float>(kind: usize, k: usize, source: usize, y: &[T]) -> f64 {
            let h = y.len() / 2;
            match source {
                0 => from(kind, k, y.iter()),
                1 => from(kind, k, y.iter().filter(|_| true)),
                2 => from(kind, k, loose(y, 0)),
                3 => from(kind, k, loose(y, 1)),
                4 => from(kind, k, loose(y, 2)),
                5 => from(kind, k, y[..h].iter().chain(y[h..].iter()).skip(1)),
                _ => from(kind, k, y.iter().rev().step_by(2)),
            }
        }
        let y: Vec<f64> = (0..n).map(pattern).collect();
        let y32: Vec<f32> = y.iter().map(|x| *x as f32).collect();
        let mut r = 0.0;
        none(ctx, || format!("statistic {} of {} samples from source {}", kind, n, source), || r = if f32s { go(kind, k, source, &y32) } else { go(kind, k, source, &y) })?;
        ctx.state(&[r]);
        Ok(())
    })
}
fn fixed() -> Scenario {
    fn at<const N: usize>(ctx: &mut Ctx) -> R {
        let mut y = [0.0f32; N];
        (0..N).for_each(|i| y[i] = pattern(i) as f32);
        let mut x = [0.0f32; 3];
        let mut r = 0.0f32;
        none(ctx, || format!("rms_fast32 of {}", N), || r = stats::rms_fast32(&y))?;
        let mut v = 0.0f32;
        none(ctx, || format!("autocorr_fast32 of {}", N), || v = stats::autocorr_fast32::<N, 3, 1>(&mut y, &mut x))?;
        ctx.state(&[r as f64, v as f64]);
        Ok(())
    }
    sc("fixed-size-statistics-do-not-allocate", move |ctx| match ctx.choose(8) {
        0 => at::<9>(ctx),
        1 => at::<4>(ctx),
        2 => at::<5>(ctx),
        3 => at::<6>(ctx),
        4 => at::<7>(ctx),
        5 => at::<8>(ctx),
        6 => at::<33>(ctx),
        _ => at::<130>(ctx),
    })
}
fn scalars() -> Scenario {
    sc("scalar-functions-do-not-allocate", move |ctx| {
        let n = ctx.range(0, 20) as u64;
        let k = ctx.range(0, 21) as u64;
        let x = n as f64 * 1.7 - 9.0;
        let mut acc = 0u64;
        let mut f = 0.0;
        none(ctx, || format!("special functions of {} and {}", n, k), || {
            acc = n.factorial().wrapping_add(n.factorial2()).wrapping_add(n.comb(k)).wrapping_add(n.perm(k)).wrapping_add(n.stirling2(k));
            if k > 0 {
                acc = acc.wrapping_add(n.factorialk(k));
            }
            f = Bessel::i0(&x) + Bessel::i0e(&x) + Bessel::i0(&(x as f32)) as f64;
            let s = Sos::<f64>::new([1.0, x, 0.0], [1.0, 0.0, 0.5]);
            f += s.b[1];
        })?;
        ctx.state(&[acc as f64, f]);
        Ok(())
    })
}

/// The exact counts for large arguments of the wide types (only where the result is representable).
fn counts(step: usize) -> Scenario {
    sc("counts-do-not-allocate", move |ctx| {
        let n = ctx.range(0, 140);
        let far = ctx.pick(&[0u128, 1, 1000, 1 << 40]);
        let mut acc = 0u128;
        macro_rules! go {
            ($t:ty) => {
                for k in (0..=n + 1).step_by(step) {
                    for f in 0..4usize {
                        let (a, b) = (n as u128 + far, k as u128);
                        let (Ok(x), Ok(y)) = (<$t>::try_from(a), <$t>::try_from(b)) else { continue };
                        let fits = super::c20::exact(f, a, b).is_some_and(|w| <$t>::try_from(w).is_ok());
                        if !fits {
                            continue;
                        }
                        none(ctx, || format!("count {} of {} and {} in {}", f, a, b, stringify!($t)), || {
                            let r = match f {
                                0 => x.comb(y),
                                1 => x.comb_rep(y),
                                2 => x.perm(y),
                                _ => x.stirling2(y),
                            };
                            acc = acc.wrapping_mul(31).wrapping_add(r as u128);
                        })?;
                    }
                }
            };
        }
        match ctx.choose(6) {
            0 => go!(u128),
            1 => go!(i128),
            2 => go!(u64),
            3 => go!(i64),
            4 => go!(i32),
            _ => go!(u16),
        }
        ctx.state_u(acc);
        Ok(())
    })
}
fn factorials() -> Scenario {
    sc("factorials-do-not-allocate", move |ctx| {
        let n = ctx.range(0, 60) as u128;
        let mut acc = 0u128;
        for k in 1..=n + 2 {
            let mut w = Some(1u128);
            let mut m = n;
            while m > 0 {
                w = w.and_then(|w| w.checked_mul(m));
                m = m.saturating_sub(k);
            }
            if w.is_none() {
                continue;
            }
            none(ctx, || format!("factorial of {} with step {}", n, k), || {
                acc = acc.wrapping_add(n.factorialk(k)).wrapping_add((n as u64 as u128).factorialk(k));
                if k == 1 {
                    acc = acc.wrapping_add(n.factorial());
                }
                if k == 2 {
                    acc = acc.wrapping_add(n.factorial2());
                }
            })?;
        }
        ctx.state_u(acc);
        let mut f = 0.0;
        for i in 0..400 {
            let x = n as f64 * 0.13 + i as f64 * 1.77 - 30.0;
            none(ctx, || format!("Bessel functions of {}", x), || f += Bessel::i0e(&x) + Bessel::i0e(&(x as f32)) as f64 + Bessel::i0(&(x % 80.0)) + Bessel::i0(&((x % 80.0) as f32)) as f64)?;
        }
        ctx.state(&[f]);
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let d = |a: usize, b: usize, c: usize| [a, b, c, 2 * c][l.min(3) as usize];
    vec![
        lazy::<f64>(d(8, 12, 24), d(6, 10, 18)),
        lazy::<f32>(d(8, 12, 24), d(6, 10, 18)),
        filters((0..=d(13, 40, 130)).collect(), (0..=d(10, 16, 24)).collect()),
        filters(vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000], vec![0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65]),
        filters(vec![0, 1, 2, 7, 64, 1001], vec![99, 100, 101, 127, 128, 129, 200, 256, 257, 500, 1000, 1025]),
        statistics((0..=d(20, 40, 200)).collect()),
        statistics(vec![64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4095, 4096, 4097, 10_000, 65_537]),
        fixed(),
        scalars(),
        factorials(),
        counts(if l == 0 { 7 } else { 1 }),
    ]
}
