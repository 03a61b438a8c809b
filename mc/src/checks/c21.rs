//! C21: modified Bessel functions against a double-double power series and the asymptotic series.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use ndarray::{ArrayD, IxDyn};
use sci_rs::special::Bessel;

pub fn check() -> Check {
    Check {
        id: "C21",
        bounds: "f64: 64 points per unit on [0, 709] and every power of two from the smallest subnormal to the largest number with neighbours, 4000 neighbouring values around 8 and around other region-size integers, both signs; f32: every 64th bit pattern (thorough: every single one) up to the largest finite value; monotonicity on the grid; vectors, nested vectors and arrays of rank 0..=4 of every small shape",
        assumptions: &["i0 is judged where exp|x| is finite", "tolerance 8 eps relative (cephes states about 3 eps)", "reference: positive power series in double-double up to 64, asymptotic series above; the two agree to 1e-17 where both apply"],
        scenarios,
    }
}
// ---- double-double -------------------------------------------------------------------------
#[derive(Clone, Copy)]
struct Dd(f64, f64);
fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let t = s - a;
    Dd(s, (a - (s - t)) + (b - t))
}
fn add(a: Dd, b: Dd) -> Dd {
    let s = two_sum(a.0, b.0);
    two_sum(s.0, s.1 + a.1 + b.1)
}
fn mul(a: Dd, b: Dd) -> Dd {
    let p = a.0 * b.0;
    let e = a.0.mul_add(b.0, -p) + a.0 * b.1 + a.1 * b.0;
    two_sum(p, e)
}
fn div(a: Dd, d: f64) -> Dd {
    let q = a.0 / d;
    let r = (-q).mul_add(d, a.0) + a.1;
    two_sum(q, r / d)
}
/// exp in double-double by range reduction and the Taylor series.
fn exp_dd(x: f64) -> Dd {
    // x = k*ln2 + r
    let k = (x / std::f64::consts::LN_2).round();
    let ln2 = Dd(0.6931471805599453, 2.3190468138462996e-17);
    let r = add(Dd(x, 0.0), mul(Dd(-k, 0.0), ln2));
    let r = Dd(r.0 / 256.0, r.1 / 256.0);
    let mut s = Dd(1.0, 0.0);
    let mut t = Dd(1.0, 0.0);
    for i in 1..16 {
        t = div(mul(t, r), i as f64);
        s = add(s, t);
    }
    for _ in 0..8 {
        s = mul(s, s);
    }
    let p = 2f64.powi((k / 2.0) as i32);
    let q = 2f64.powi((k - (k / 2.0).trunc()) as i32);
    Dd(s.0 * p * q, s.1 * p * q)
}
fn series(x: f64) -> Dd {
    let q = mul(Dd(x / 2.0, 0.0), Dd(x / 2.0, 0.0));
    let mut s = Dd(1.0, 0.0);
    let mut t = Dd(1.0, 0.0);
    for k in 1..2000 {
        t = div(div(mul(t, q), k as f64), k as f64);
        s = add(s, t);
        if t.0 < 1e-34 * s.0 {
            break;
        }
    }
    s
}
fn asymptotic(x: f64) -> f64 {
    let mut s = Dd(1.0, 0.0);
    let mut t = Dd(1.0, 0.0);
    for k in 1..60 {
        let m = (2 * k - 1) as f64;
        let u = div(div(div(mul(t, Dd(m * m, 0.0)), k as f64), 8.0), x);
        if u.0 >= t.0 || u.0 < 1e-34 {
            break;
        }
        t = u;
        s = add(s, t);
    }
    s.0 / std::f64::consts::TAU.sqrt() / x.sqrt()
}
/// exp(-|x|) I0(x), good to about 3e-16 relative.
fn ref_e(x: f64) -> f64 {
    let x = x.abs();
    if x < 64.0 {
        let p = mul(series(x), exp_dd(-x));
        p.0 + p.1
    } else {
        asymptotic(x)
    }
}
fn ref_0(x: f64) -> f64 {
    let x = x.abs();
    if x < 64.0 {
        series(x).0
    } else {
        let e = exp_dd(x);
        e.0 * asymptotic(x)
    }
}
fn one64(ctx: &mut Ctx, x: f64) -> R {
    let (a, b) = ctx.must(&format!("i0/i0e of {:e}", x), || (x.i0(), x.i0e()))?;
    let (na, nb) = ctx.must(&format!("i0/i0e of {:e}", -x), || ((-x).i0(), (-x).i0e()))?;
    ctx.state(&[a, b]);
    ctx.note(|| format!("i0({:e}) = {:e}, i0e = {:e}", x, a, b));
    let e = 8.0 * f64::EPSILON;
    let rb = ref_e(x);
    nearf(|| format!("i0e({:e})", x), b, rb, e * rb)?;
    nearf(|| format!("i0e({:e})", -x), nb, rb, e * rb)?;
    // where exp|x| is finite
    if x.abs() <= 709.78 {
        let ra = ref_0(x);
        nearf(|| format!("i0({:e})", x), a, ra, e * ra)?;
        nearf(|| format!("i0({:e})", -x), na, ra, e * ra)?;
        // exp(-x) of the platform and of the reference differ by an ulp
        nearf(|| format!("i0({:e}) against exp * i0e", x), a, x.abs().exp() * b, 2.0 * e * ra)?;
    }
    Ok(())
}
fn one32(ctx: &mut Ctx, x: f32) -> R {
    let (a, b) = ctx.must(&format!("i0/i0e of {:e}f32", x), || (x.i0(), x.i0e()))?;
    let (na, nb) = ctx.must(&format!("i0/i0e of {:e}f32", -x), || ((-x).i0(), (-x).i0e()))?;
    let e = 8.0 * f32::EPSILON as f64;
    let rb = ref32(x as f64);
    nearf(|| format!("i0e({:e}) in f32", x), b as f64, rb, e * rb)?;
    nearf(|| format!("i0e({:e}) in f32", -x), nb as f64, rb, e * rb)?;
    if x.abs() <= 88.72 {
        let ra = (x.abs() as f64).exp() * rb;
        nearf(|| format!("i0({:e}) in f32", x), a as f64, ra, e * ra)?;
        nearf(|| format!("i0({:e}) in f32", -x), na as f64, ra, e * ra)?;
    }
    Ok(())
}
/// exp(-x) I0(x) in plain double precision, enough to judge single precision.
fn ref32(x: f64) -> f64 {
    let x = x.abs();
    if x < 20.0 {
        let q = x * x / 4.0;
        let (mut s, mut t) = (1.0, 1.0);
        for k in 1..200 {
            t *= q / (k * k) as f64;
            s += t;
            if t < 1e-12 * s {
                break;
            }
        }
        s * (-x).exp()
    } else {
        let (mut s, mut t) = (1.0, 1.0);
        for k in 1..16 {
            let m = (2 * k - 1) as f64;
            let u = t * m * m / (k as f64 * 8.0) / x;
            if u >= t || u < 1e-13 {
                break;
            }
            t = u;
            s += t;
        }
        s / std::f64::consts::TAU.sqrt() / x.sqrt()
    }
}
fn grid64(per: usize, top: usize) -> Scenario {
    sc(format!("grid-f64-{}", per), move |ctx| {
        let k = ctx.choose(top);
        let mut last: Option<(f64, f64)> = None;
        for i in 0..=per {
            let x = k as f64 + i as f64 / per as f64;
            if x > 709.78 {
                break;
            }
            one64(ctx, x)?;
            let (a, b) = (x.i0(), x.i0e());
            if let Some((pa, pb)) = last {
                // the growth of i0 and the decay of i0e over a step are far above rounding
                ensure!(a > pa * (1.0 - 1e-15) || x < 1e-6, "i0 is not increasing before {}", x);
                ensure!(b < pb * (1.0 + 2e-15), "i0e is not decreasing before {}", x);
            }
            last = Some((a, b));
        }
        Ok(())
    })
}
fn powers() -> Scenario {
    sc("magnitudes-f64", move |ctx| {
        let e = ctx.choose(2098) as i32 - 1074;
        let m = ctx.pick(&[1.0, 1.0 + f64::EPSILON, 1.25, 1.5, 1.999, 1.0 - f64::EPSILON / 2.0]);
        let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) };
        let x = p * m;
        if !x.is_finite() {
            return Err(Stop::Skip);
        }
        one64(ctx, x)
    })
}
fn neighbours() -> Scenario {
    sc("neighbours-f64", move |ctx| {
        let c = ctx.pick(&[8.0f64, 1.0, 2.0, 4.0, 5.0, 7.5, 7.75, 16.0, 30.0, 32.0, 100.0, 700.0]);
        let j = ctx.choose(101) as i64 - 50;
        for k in 0..40 {
            let x = f64::from_bits((c.to_bits() as i64 + j * 40 + k) as u64);
            one64(ctx, x)?;
        }
        Ok(())
    })
}
/// Up to the largest argument with a finite exponential, and beyond every number.
fn edges() -> Scenario {
    sc("edges", move |ctx| {
        match ctx.choose(3) {
            0 => {
                let i = ctx.choose(2000);
                one32(ctx, 87.0 + i as f32 * (1.72 / 1999.0))?;
                one32(ctx, f32::from_bits(88.72f32.to_bits() - i as u32))
            }
            1 => {
                let i = ctx.choose(2000);
                one64(ctx, 708.0 + i as f64 * (1.78 / 1999.0))?;
                one64(ctx, f64::from_bits(709.78f64.to_bits() - i as u64))
            }
            _ => {
                let v = ctx.must("infinity and NaN", || (f64::INFINITY.i0e(), f64::NEG_INFINITY.i0e(), f64::NAN.i0e(), f64::NAN.i0(), f32::INFINITY.i0e(), f32::NEG_INFINITY.i0e(), f32::NAN.i0e(), f32::NAN.i0()))?;
                ctx.state(&[v.0, v.1]);
                ensure!(v.0 == 0.0 && v.1 == 0.0 && v.4 == 0.0 && v.5 == 0.0, "i0e at infinity: {:?}", v);
                ensure!(v.2.is_nan() && v.3.is_nan() && v.6.is_nan() && v.7.is_nan(), "of NaN: {:?}", v);
                Ok(())
            }
        }
    })
}
fn specials() -> Scenario {
    sc("zero", move |ctx| {
        let x = ctx.pick(&[0.0f64, -0.0]);
        let y = x as f32;
        let v = ctx.must("zero", || (x.i0(), x.i0e(), y.i0() as f64, y.i0e() as f64))?;
        ctx.state(&[v.0, v.1, v.2, v.3]);
        for (k, w) in [v.0, v.1, v.2, v.3].iter().enumerate() {
            ensure!((w - 1.0).abs() <= if k < 2 { 1e-15 } else { 5e-7 }, "value {} at zero is {}", k, w);
        }
        let self_check = (series(60.0), asymptotic(60.0));
        let p = mul(self_check.0, exp_dd(-60.0));
        ensure!(((p.0 - self_check.1) / p.0).abs() < 4e-16, "the two reference series disagree: {} {}", p.0, self_check.1);
        Ok(())
    })
}
fn bits32(step: u32) -> Scenario {
    sc(format!("bit-patterns-f32-{}", step), move |ctx| {
        // 0x7f80_0000 is infinity
        let hi = ctx.choose(255) as u32;
        let mid = ctx.choose(16) as u32;
        let base = hi << 23 | mid << 19;
        let mut i = 0;
        while i < 1 << 19 {
            let x = f32::from_bits(base + i);
            one32(ctx, x)?;
            i += step;
        }
        ctx.state(&[f32::from_bits(base).i0e() as f64]);
        ctx.note(|| format!("f32 from {:e}", f32::from_bits(base)));
        Ok(())
    })
}
fn containers() -> Scenario {
    sc("containers", move |ctx| {
        let rank = ctx.range(0, 4);
        let shape: Vec<usize> = (0..rank).map(|_| ctx.choose(4)).collect();
        let n: usize = shape.iter().product();
        let f = ctx.flag();
        let layout = ctx.choose(2);
        let xs: Vec<f64> = (0..n).map(|i| pattern(i) * 20.0 + (i % 3) as f64 * 40.0).collect();
        macro_rules! go {
            ($t:ty) => {{
                let v: Vec<$t> = ofv(&xs);
                let (a, b) = ctx.must("vector", || (v.i0(), v.i0e()))?;
                let (wa, wb): (Vec<$t>, Vec<$t>) = (v.iter().map(|x| x.i0()).collect(), v.iter().map(|x| x.i0e()).collect());
                ensure!(a == wa && b == wb, "vector {:?}: {:?} {:?} instead of {:?} {:?}", v, a, b, wa, wb);
                let nested = vec![v.clone(), vec![], v.clone()];
                let na = ctx.must("nested vector", || nested.i0())?;
                ensure!(na == vec![wa.clone(), vec![], wa.clone()], "nested vector {:?} -> {:?}", nested, na);
                let mut arr = ArrayD::<$t>::from_shape_vec(IxDyn(&shape), v.clone()).unwrap();
                if layout == 1 {
                    // reversed axes: not in standard order any more
                    arr = arr.reversed_axes();
                }
                let (ra, rb) = ctx.must("array", || (arr.i0(), arr.i0e()))?;
                ensure!(ra.shape() == arr.shape() && rb.shape() == arr.shape(), "shape {:?} -> {:?}", arr.shape(), ra.shape());
                for (ix, x) in arr.indexed_iter() {
                    ensure!(ra[&ix] == x.i0() && rb[&ix] == x.i0e(), "element {:?} of shape {:?}", ix, arr.shape());
                }
                ctx.state(&tov(&a));
                Ok(())
            }};
        }
        if f {
            go!(f32)
        } else {
            go!(f64)
        }
    })
}
/// Containers of every size around the block sizes an implementation might work in.
fn long_containers() -> Scenario {
    sc("long-containers", move |ctx| {
        let base = ctx.pick(&[0usize, 64, 128, 192, 256, 320, 512, 576, 1024, 2048, 4096]);
        let n = base + ctx.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 49, 56, 60, 61, 62, 63]);
        let f = ctx.flag();
        let kind = ctx.choose(3);
        let xs: Vec<f64> = (0..n).map(|i| match kind { 0 => pattern(i) * 20.0 + (i % 3) as f64 * 20.0, 1 => i as f64 * 0.05 - 3.0, _ => if i % 2 == 0 { 0.0 } else { -7.9 } } % 85.0).collect();
        macro_rules! go {
            ($t:ty) => {{
                let v: Vec<$t> = ofv(&xs);
                let (wa, wb): (Vec<$t>, Vec<$t>) = (v.iter().map(|x| x.i0()).collect(), v.iter().map(|x| x.i0e()).collect());
                let (a, b) = ctx.must("vector", || (v.i0(), v.i0e()))?;
                ensure!(a == wa && b == wb, "vector of {} elements", n);
                let nested = vec![v.clone(), vec![v.first().copied().unwrap_or(1.0)]];
                let (na, nb) = ctx.must("nested vector", || (nested.i0(), nested.i0e()))?;
                ensure!(na[0] == wa && nb[0] == wb && na[1].len() == 1, "nested vector of {} elements", n);
                let rows: Vec<Vec<$t>> = v.iter().map(|x| vec![*x]).collect();
                let (na, nb) = ctx.must("vector of vectors", || (rows.i0(), rows.i0e()))?;
                ensure!(na.len() == n && (0..n).all(|i| na[i] == vec![wa[i]] && nb[i] == vec![wb[i]]), "{} vectors of one element", n);
                let arr = ArrayD::<$t>::from_shape_vec(IxDyn(&[n]), v.clone()).unwrap();
                let (ra, rb) = ctx.must("array", || (arr.i0(), arr.i0e()))?;
                ensure!(ra.iter().eq(wa.iter()) && rb.iter().eq(wb.iter()), "array of {} elements", n);
                if n % 4 == 0 {
                    let arr = ArrayD::<$t>::from_shape_vec(IxDyn(&[n / 4, 4]), v.clone()).unwrap();
                    let (ra, rb) = ctx.must("matrix", || (arr.i0(), arr.i0e()))?;
                    ensure!(ra.iter().eq(wa.iter()) && rb.iter().eq(wb.iter()) && ra.shape() == [n / 4, 4], "matrix of {} elements", n);
                }
                ctx.state(&tov(&a));
                Ok(())
            }};
        }
        if f {
            go!(f32)
        } else {
            go!(f64)
        }
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 2;
    let mut v = vec![grid64(64, 710), edges(), powers(), neighbours(), specials(), bits32(64), containers(), long_containers()];
    if t {
        v.push(grid64(1000, 710));
        v.push(bits32(1));
    }
    if l >= 3 {
        v.push(grid64(20000, 710));
    }
    v
}
