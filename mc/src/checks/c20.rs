//! C20: combinations, permutations and Stirling numbers against exact counts.
use super::c19::each;
use crate::engine::*;
use crate::{ensure, Check};
use sci_rs::special::Combinatoric;

pub fn check() -> Check {
    Check {
        id: "C20",
        bounds: "twelve integer types, four functions: every (n, k) of the 8-bit types, every (n, k) with n <= 140 and k <= n+2 (thorough 260) of the others, near-diagonal and near-edge k for n up to the largest value of each type, negative arguments; all arguments whose exact count is representable",
        assumptions: &["arguments whose count does not fit the type are outside the property", "zero kinds give no combination with repetition, as the existing tests fix"],
        scenarios,
    }
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// n over k, None above u128.
fn comb(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let k = k.min(n - k);
    let mut r: u128 = 1;
    for i in 0..k {
        let (mut num, mut den) = (n - i, i + 1);
        let g = gcd(num, den);
        num /= g;
        den /= g;
        let h = gcd(r, den);
        r /= h;
        assert_eq!(den / h, 1);
        r = r.checked_mul(num)?;
    }
    Some(r)
}
fn perm(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let mut r: u128 = 1;
    for i in 0..k {
        r = r.checked_mul(n - i)?;
    }
    Some(r)
}
const SMAX: usize = 300;
/// Stirling numbers of the second kind by the recurrence; None where they exceed u128.
fn table() -> &'static Vec<Vec<Option<u128>>> {
    static T: std::sync::OnceLock<Vec<Vec<Option<u128>>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = vec![vec![Some(0u128); SMAX + 1]; SMAX + 1];
        t[0][0] = Some(1);
        for n in 1..=SMAX {
            for k in 1..=n {
                let a = t[n - 1][k].and_then(|x| x.checked_mul(k as u128));
                t[n][k] = a.and_then(|a| t[n - 1][k - 1].and_then(|b| a.checked_add(b)));
            }
        }
        t
    })
}
fn stirling(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    if n <= SMAX as u128 {
        return table()[n as usize][k as usize];
    }
    if k == 0 {
        return Some(0);
    }
    match n - k {
        0 => Some(1),
        1 => comb(n, 2),
        2 => comb(n, 3)?.checked_add(comb(n, 4)?.checked_mul(3)?),
        3 => comb(n, 4)?.checked_add(comb(n, 5)?.checked_mul(10)?)?.checked_add(comb(n, 6)?.checked_mul(15)?),
        _ if k == 1 => Some(1),
        _ if k == 2 && n <= 128 => Some((1u128 << (n - 1)) - 1),
        _ => None,
    }
}
const FUNS: [&str; 4] = ["comb", "comb_rep", "perm", "stirling2"];
/// Exact count for non-negative arguments; None when it does not fit or is not known.
pub fn exact(f: usize, n: u128, k: u128) -> Option<u128> {
    match f {
        0 => comb(n, k),
        1 => {
            if n == 0 {
                Some(0)
            } else {
                // n kinds, k picks
                comb((n - 1).checked_add(k)?, k)
            }
        }
        2 => perm(n, k),
        _ => stirling(n, k),
    }
}
macro_rules! one {
    ($ctx:expr, $t:ty, $f:expr, $n:expr, $k:expr) => {{
        let (n, k): ($t, $t) = ($n, $k);
        let want = if n < 0 as $t || k < 0 as $t { Some(0) } else { exact($f, n as u128, k as u128) };
        if let Some(w) = want.and_then(|w| <$t>::try_from(w).ok()) {
            let what = || format!("{}({}, {}) of type {}", FUNS[$f], n, k, stringify!($t));
            let got = match $ctx.call(|| match $f {
                0 => n.comb(k),
                1 => n.comb_rep(k),
                2 => n.perm(k),
                _ => n.stirling2(k),
            }) {
                Ok(g) => g,
                Err(m) => return fail(format!("{} panicked: {}", what(), m)),
            };
            $ctx.note(|| format!("{} = {}", what(), got));
            $ctx.state_u(got as u128);
            ensure!(got == w, "{} is {} instead of {}", what(), got, w);
        }
    }};
}
fn bytes() -> Scenario {
    sc("8bit-all", move |ctx| {
        let f = ctx.choose(4);
        let n = ctx.choose(256) as u8;
        if ctx.flag() {
            for k in i8::MIN..=i8::MAX {
                one!(ctx, i8, f, n as i8, k);
            }
        } else {
            for k in 0..=u8::MAX {
                one!(ctx, u8, f, n, k);
            }
        }
        Ok(())
    })
}
fn grid(nmax: usize) -> Scenario {
    sc(format!("grid-{}", nmax), move |ctx| {
        let f = ctx.choose(4);
        let n = ctx.range(0, nmax);
        macro_rules! go {
            ($t:ty) => {{
                if let Ok(a) = <$t>::try_from(n) {
                    for k in 0..=n + 2 {
                        if let Ok(b) = <$t>::try_from(k) {
                            one!(ctx, $t, f, a, b);
                        }
                    }
                    for k in [nmax + 50, 10 * nmax] {
                        if let Ok(b) = <$t>::try_from(k) {
                            one!(ctx, $t, f, a, b);
                        }
                    }
                }
                Ok(())
            }};
        }
        each!(ctx, go)
    })
}
fn edges(step: usize) -> Scenario {
    sc(format!("edges-{}", step), move |ctx| {
        let f = ctx.choose(4);
        macro_rules! go {
            ($t:ty) => {{
                const MX: $t = <$t>::MAX;
                let mut ns: Vec<$t> = vec![MX, MX - 1, MX / 2, MX / 2 + 1, MX / 3];
                for b in 3..<$t>::BITS as usize - 1 {
                    if b % step == 0 || b > <$t>::BITS as usize - 4 {
                        let p = (1 as $t) << b;
                        ns.extend([p - 1, p, p + 1]);
                        if let Some(q) = p.checked_add(p / 3) {
                            ns.push(q);
                        }
                    }
                }
                let n = ctx.pick(&ns);
                for d in 0..10u8 {
                    let d = d as $t;
                    let mut ks = vec![d];
                    if let Some(k) = n.checked_sub(d) {
                        ks.push(k);
                    }
                    if let Some(k) = n.checked_add(d) {
                        ks.push(k);
                    }
                    ks.push(MX - d);
                    for k in ks {
                        // long but finite tabulations are left out
                        if f == 3 && n as u128 > 200_000 && k > 2 as $t && k < n && n - k > 1 as $t {
                            continue;
                        }
                        one!(ctx, $t, f, n, k);
                        // swapped roles: few kinds, many picks
                        if f == 1 && d > 0 as $t {
                            one!(ctx, $t, f, d, k);
                        }
                    }
                }
                Ok(())
            }};
        }
        each!(ctx, go)
    })
}
fn negatives() -> Scenario {
    sc("negatives", move |ctx| {
        let f = ctx.choose(4);
        let n = ctx.pick(&[-1i64, -2, -10, i64::MIN, 0, 3, 40, i64::MAX]);
        let k = ctx.pick(&[-1i64, -5, i64::MIN, i64::MIN + 1, 0, 2, 41]);
        macro_rules! go {
            ($t:ty) => {{
                let (a, b) = (n.clamp(<$t>::MIN as i128 as i64, <$t>::MAX.min(i64::MAX as $t) as i64) as $t, k.clamp(<$t>::MIN as i128 as i64, 60) as $t);
                one!(ctx, $t, f, a, b);
                Ok(())
            }};
        }
        match ctx.choose(4) {
            0 => go!(i8),
            1 => go!(i16),
            2 => go!(i32),
            _ => go!(i64),
        }
    })
}
/// 16-bit types: every n, the k for which anything is representable.
fn words() -> Scenario {
    sc("16bit-wide", move |ctx| {
        let f = ctx.choose(4);
        let hi = ctx.choose(256) as u32;
        let lo = ctx.choose(16) as u32;
        for l in 0..16 {
            let n = hi * 256 + lo * 16 + l;
            for d in 0..=20u32 {
                for k in [d, n.saturating_sub(d), n + d] {
                    if k > u16::MAX as u32 {
                        continue;
                    }
                    one!(ctx, u16, f, n as u16, k as u16);
                    if n <= i16::MAX as u32 && k <= i16::MAX as u32 {
                        one!(ctx, i16, f, n as i16, k as i16);
                    }
                }
            }
        }
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![bytes(), grid(140), edges(5), negatives()];
    if t {
        v.push(grid(260));
        v.push(edges(1));
        v.push(words());
    }
    if l >= 2 {
        v.push(grid(1000));
    }
    if l >= 3 {
        v.push(grid(4000));
    }
    v
}
