//! C19: factorials of every integer type against exact checked products.
use crate::engine::*;
use crate::{ensure, Check};
use sci_rs::special::Factorial;

pub fn check() -> Check {
    Check {
        id: "C19",
        bounds: "twelve integer types; factorial and factorial2: every argument of 8-bit types, every argument from -70 to 70 and the extremes of the others; factorialk: every (n, k) of the 8-bit types, every (n, k) with n <= 140 (thorough 700) and k <= n+3 of the others, extreme and near-extreme n and k; only arguments whose exact result is representable are judged",
        assumptions: &["arguments whose result does not fit the type are outside the property", "a step below one is rejected"],
        scenarios,
    }
}
/// n (n-k) (n-2k) ... over the positive terms; None when it exceeds u128.
fn exact(n: i128, k: i128) -> Option<u128> {
    if n < 0 {
        return Some(0);
    }
    let mut r: u128 = 1;
    let mut m = n as u128;
    let k = k as u128;
    // the largest factor first: an overflow shows up soon
    while m > 0 {
        r = r.checked_mul(m)?;
        if m <= k {
            break;
        }
        m -= k;
    }
    Some(r)
}
fn exact_u(n: u128, k: u128) -> Option<u128> {
    let mut r: u128 = 1;
    let mut m = n;
    while m > 0 {
        r = r.checked_mul(m)?;
        if m <= k {
            break;
        }
        m -= k;
    }
    Some(r)
}
macro_rules! each {
    ($ctx:expr, $go:ident) => {{
        let t = $ctx.choose(12);
        match t {
            0 => $go!(u8),
            1 => $go!(i8),
            2 => $go!(u16),
            3 => $go!(i16),
            4 => $go!(u32),
            5 => $go!(i32),
            6 => $go!(u64),
            7 => $go!(i64),
            8 => $go!(usize),
            9 => $go!(isize),
            10 => $go!(u128),
            _ => $go!(i128),
        }
    }};
}
pub(crate) use each;

fn small() -> Scenario {
    sc("factorial-and-double", move |ctx| {
        macro_rules! go {
            ($t:ty) => {{
                let mut args: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MIN / 2];
                for a in -70i32..=70 {
                    if let Ok(x) = <$t>::try_from(a) {
                        args.push(x);
                    }
                }
                if <$t>::BITS == 8 {
                    args = (<$t>::MIN..=<$t>::MAX).collect();
                }
                let n = ctx.pick(&args);
                let dbl = ctx.flag();
                let neg = n < 0 as $t;
                let want = if neg { Some(0) } else { exact_u(n as u128, if dbl { 2 } else { 1 }) };
                let Some(w) = want.and_then(|w| <$t>::try_from(w).ok()) else { return Err(Stop::Skip) };
                let what = format!("{}{} of type {}", n, if dbl { "!!" } else { "!" }, stringify!($t));
                let got = ctx.must(&what, || if dbl { n.factorial2() } else { n.factorial() })?;
                ctx.note(|| format!("{} = {}", what, got));
                ctx.state_u(got as u128);
                ensure!(got == w, "{} is {} instead of {}", what, got, w);
                // the same value through the general step
                let k = ctx.must(&what, || n.factorialk(if dbl { 2 } else { 1 }))?;
                ensure!(k == w, "{} as k-factorial is {} instead of {}", what, k, w);
                Ok(())
            }};
        }
        each!(ctx, go)
    })
}
fn bytes() -> Scenario {
    sc("k-factorial-8bit", move |ctx| {
        macro_rules! go {
            ($t:ty) => {{
                let n = (<$t>::MIN as i32 + ctx.choose(256) as i32) as $t;
                for k in <$t>::MIN..=<$t>::MAX {
                    let what = format!("{} with step {} of type {}", n, k, stringify!($t));
                    if k <= 0 as $t {
                        ctx.must_panic(&what, || n.factorialk(k))?;
                        continue;
                    }
                    let Some(w) = exact(n as i128, k as i128).and_then(|w| <$t>::try_from(w).ok()) else { continue };
                    let got = ctx.must(&what, || n.factorialk(k))?;
                    ctx.state_u(got as u128);
                    ensure!(got == w, "{} is {} instead of {}", what, got, w);
                }
                Ok(())
            }};
        }
        if ctx.flag() {
            go!(i8)
        } else {
            go!(u8)
        }
    })
}
fn steps(nmax: usize) -> Scenario {
    sc(format!("k-factorial-{}", nmax), move |ctx| {
        macro_rules! go {
            ($t:ty) => {{
                let top = nmax.min(<$t>::MAX as u128 as usize);
                let n = ctx.range(0, top);
                for k in 1..=n + 3 {
                    let (Ok(a), Ok(b)) = (<$t>::try_from(n), <$t>::try_from(k)) else { continue };
                    let Some(w) = exact_u(n as u128, k as u128).and_then(|w| <$t>::try_from(w).ok()) else { continue };
                    let got = ctx.must("factorialk", || a.factorialk(b))?;
                    ctx.state_u(got as u128);
                    ensure!(got == w, "{} with step {} of type {} is {} instead of {}", n, k, stringify!($t), got, w);
                }
                Ok(())
            }};
        }
        each!(ctx, go)
    })
}
fn extremes() -> Scenario {
    sc("k-factorial-extremes", move |ctx| {
        macro_rules! go {
            ($t:ty) => {{
                const MX: $t = <$t>::MAX;
                let ns: Vec<$t> = vec![MX, MX - 1, MX - 2, MX / 2, MX / 2 + 1, MX / 3, MX / 7 * 2, 97, 0, 1, 2, 5, <$t>::MIN, <$t>::MIN + 1, MX / 100, 127, 126, 64];
                let n = ctx.pick(&ns);
                let ks: Vec<$t> = vec![MX, MX - 1, MX - 2, MX / 2, MX / 2 + 1, MX / 2 + 2, MX / 3 * 2, MX / 4 * 3, MX / 5, 1, 2, 3, 64, n.wrapping_sub(1), n.wrapping_sub(2), n, n / 2, n / 2 + 1];
                let k = ctx.pick(&ks);
                if k <= 0 as $t {
                    return Err(Stop::Skip);
                }
                let want = if n < 0 as $t { Some(0) } else { exact_u(n as u128, k as u128) };
                let Some(w) = want.and_then(|w| <$t>::try_from(w).ok()) else { return Err(Stop::Skip) };
                let what = format!("{} with step {} of type {}", n, k, stringify!($t));
                let got = ctx.must(&what, || n.factorialk(k))?;
                ctx.note(|| format!("{} = {}", what, got));
                ctx.state_u(got as u128);
                ensure!(got == w, "{} is {} instead of {}", what, got, w);
                Ok(())
            }};
        }
        each!(ctx, go)
    })
}
/// Every 16-bit argument with every step.
fn words16() -> Scenario {
    sc("k-factorial-16bit", move |ctx| {
        macro_rules! go {
            ($t:ty) => {{
                let n = (<$t>::MIN as i32 + ctx.choose(65536) as i32) as $t;
                let mut fast = 0u128;
                for k in 1..=<$t>::MAX {
                    let Some(w) = exact(n as i128, k as i128).and_then(|w| <$t>::try_from(w).ok()) else { continue };
                    let got = ctx.must("factorialk", || n.factorialk(k))?;
                    fast = fast.wrapping_mul(31).wrapping_add(got as u128);
                    ensure!(got == w, "{} with step {} of type {} is {} instead of {}", n, k, stringify!($t), got, w);
                }
                ctx.state_u(fast);
                Ok(())
            }};
        }
        if ctx.flag() {
            go!(i16)
        } else {
            go!(u16)
        }
    })
}
fn rejected() -> Scenario {
    sc("step-below-one", move |ctx| {
        let n = ctx.pick(&[0i64, 1, 5, 20, i64::MAX]);
        let k = ctx.pick(&[0i64, -1, -7, i64::MIN]);
        ctx.state_u(n as u128 ^ (k as u128) << 64);
        ctx.must_panic(&format!("{} with step {}", n, k), || n.factorialk(k))
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![small(), bytes(), steps(140), extremes(), rejected()];
    if t {
        v.push(steps(700));
    }
    if l >= 2 {
        v.push(steps(3000));
    }
    if l >= 3 {
        v.push(words16());
        v.push(steps(12000));
    }
    v
}
