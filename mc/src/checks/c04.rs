//! C04: odd extension and padding.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use nalgebra::{DMatrix, DVector, Dyn, OMatrix, RowDVector, SMatrix};
use sci_rs::signal::filter::{odd_ext_dyn, pad, Pad};

pub fn check() -> Check {
    Check {
        id: "C04",
        bounds: "every shape up to 7x7 (12x12 thorough), every extension length 0..=len+1, axes 0..=2, static and dynamic dimensions, i64 and f64, all pad types, default/explicit lengths; vectors up to 5000",
        assumptions: &["matrices with at least one row and column"],
        scenarios,
    }
}

fn val(i: usize, j: usize) -> i64 {
    ((i * 37 + j * 101 + i * j * 7) % 211) as i64 - 100
}
/// Sample at position i (may lie outside 0..n) of the odd extension.
fn odd(get: impl Fn(usize) -> i64, n: usize, i: isize) -> i64 {
    if i < 0 {
        2 * get(0) - get((-i) as usize)
    } else if i as usize >= n {
        2 * get(n - 1) - get(2 * (n - 1) - i as usize)
    } else {
        get(i as usize)
    }
}
fn even(get: impl Fn(usize) -> i64, n: usize, i: isize) -> i64 {
    if i < 0 {
        get((-i) as usize)
    } else if i as usize >= n {
        get(2 * (n - 1) - i as usize)
    } else {
        get(i as usize)
    }
}
fn constant(get: impl Fn(usize) -> i64, n: usize, i: isize) -> i64 {
    get(i.clamp(0, n as isize - 1) as usize)
}
fn expected(kind: usize, r: usize, cc: usize, n: usize, axis: usize) -> DMatrix<i64> {
    let ext = |get: &dyn Fn(usize) -> i64, len: usize, i: isize| match kind {
        0 => odd(get, len, i),
        1 => even(get, len, i),
        _ => constant(get, len, i),
    };
    if axis == 0 {
        DMatrix::from_fn(r + 2 * n, cc, |i, j| ext(&|k| val(k, j), r, i as isize - n as isize))
    } else {
        DMatrix::from_fn(r, cc + 2 * n, |i, j| ext(&|k| val(i, k), cc, j as isize - n as isize))
    }
}
fn same(got: &DMatrix<i64>, want: &DMatrix<i64>) -> R {
    ensure!(got.shape() == want.shape(), "shape {:?} instead of {:?}", got.shape(), want.shape());
    for i in 0..got.nrows() {
        for j in 0..got.ncols() {
            ensure!(got[(i, j)] == want[(i, j)], "entry ({}, {}) is {} instead of {}", i, j, got[(i, j)], want[(i, j)]);
        }
    }
    Ok(())
}
fn obs(ctx: &mut Ctx, m: &DMatrix<i64>) {
    let mut v: Vec<f64> = vec![m.nrows() as f64, m.ncols() as f64];
    v.extend(m.iter().map(|x| *x as f64));
    ctx.state(&v);
}

/// odd_ext_dyn on every shape; f64 results are exact here (small integers).
fn shapes(max: usize) -> Scenario {
    sc("odd-extension-shapes", move |ctx| {
        let r = ctx.range(1, max);
        let cc = ctx.range(1, max);
        let axis = ctx.choose(3);
        let len = if axis == 0 { r } else { cc };
        let n = ctx.range(0, len + 1);
        let ty = ctx.choose(3);
        ctx.note(|| format!("{}x{} axis {} by {}", r, cc, axis, n));
        let res: Result<DMatrix<i64>, String> = match ty {
            0 => ctx.call(|| odd_ext_dyn(DMatrix::from_fn(r, cc, val), n, axis)),
            1 => ctx.call(|| {
                let m = odd_ext_dyn(DMatrix::from_fn(r, cc, |i, j| val(i, j) as f64), n, axis);
                DMatrix::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)] as i64)
            }),
            _ => ctx.call(|| {
                let m = odd_ext_dyn(DMatrix::from_fn(r, cc, |i, j| val(i, j) as f32), n, axis);
                DMatrix::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)] as i64)
            }),
        };
        if axis == 2 || n >= len {
            ensure!(res.is_err(), "extension by {} of length {} along axis {} was not rejected", n, len, axis);
            ctx.state(&[r as f64, cc as f64, n as f64, axis as f64]);
            return Ok(());
        }
        match res {
            Err(m) => fail(format!("{}x{} axis {} by {}: panicked: {}", r, cc, axis, n, m)),
            Ok(m) => {
                obs(ctx, &m);
                same(&m, &expected(0, r, cc, n, axis))
            }
        }
    })
}
fn padding(max: usize) -> Scenario {
    sc("padding", move |ctx| {
        let r = ctx.range(1, max);
        let cc = ctx.range(1, max);
        let axis = ctx.choose(2);
        let len = if axis == 0 { r } else { cc };
        let kind = ctx.choose(4); // odd, none, even, constant
        let ntaps = ctx.range(0, 2);
        let explicit = ctx.flag();
        let n = if explicit { ctx.range(0, len + 1) } else { 3 * ntaps };
        let pl = if explicit { Some(n) } else { None };
        let f = |k: usize| [Pad::Odd, Pad::None, Pad::Even, Pad::Constant].into_iter().nth(k).unwrap();
        let res = ctx.call(|| pad(f(kind), pl, DMatrix::from_fn(r, cc, val), axis, ntaps));
        ctx.note(|| format!("pad kind {} len {:?} of {}x{} axis {} taps {} -> {:?}", kind, pl, r, cc, axis, ntaps, res.as_ref().map(|x| x.0)));
        let n = if kind == 1 { 0 } else { n };
        if n >= len {
            ctx.state(&[r as f64, cc as f64, n as f64]);
            ensure!(res.is_err(), "padding by {} along length {} was not rejected", n, len);
            return Ok(());
        }
        match res {
            Ok((e, m)) => {
                ensure!(e == n, "reported extension {} instead of {}", e, n);
                obs(ctx, &m);
                let k = if kind < 2 { 0 } else { kind - 1 };
                same(&m, &expected(k, r, cc, n, axis))
            }
            Err(m) if kind >= 2 && n > 0 => {
                ctx.state(&[kind as f64, n as f64]);
                ctx.known("C04", "pad-even-constant-unimplemented", format!("even/constant padding by {} panicked: {}", n, m))
            }
            Err(m) => fail(format!("padding {} by {} of {}x{} along {}: panicked: {}", kind, n, r, cc, axis, m)),
        }
    })
}
fn static_dims() -> Scenario {
    sc("static-dimensions", |ctx| {
        let which = ctx.choose(6);
        let axis = ctx.choose(2);
        let n = ctx.range(0, 5);
        let via_pad = ctx.flag();
        macro_rules! go {
            ($m:expr, $r:expr, $c:expr) => {{
                let (r, cc) = ($r, $c);
                let len = if axis == 0 { r } else { cc };
                let res = ctx.call(|| {
                    let m = $m;
                    let (e, x): (usize, OMatrix<i64, Dyn, Dyn>) = if via_pad { pad(Pad::Odd, Some(n), m, axis, 4) } else { (n, odd_ext_dyn(m, n, axis)) };
                    (e, x)
                });
                if n >= len {
                    ensure!(res.is_err(), "extension by {} of length {} was not rejected", n, len);
                    return Ok(());
                }
                match res {
                    Ok((e, m)) => {
                        ensure!(e == n, "reported extension {} instead of {}", e, n);
                        obs(ctx, &m);
                        same(&m, &expected(0, r, cc, n, axis))
                    }
                    Err(m) => fail(format!("{}x{} axis {} by {}: panicked: {}", r, cc, axis, n, m)),
                }
            }};
        }
        match which {
            0 => go!(SMatrix::<i64, 3, 4>::from_fn(val), 3, 4),
            1 => go!(SMatrix::<i64, 5, 1>::from_fn(val), 5, 1),
            2 => go!(SMatrix::<i64, 1, 6>::from_fn(val), 1, 6),
            3 => go!(DVector::<i64>::from_fn(6, val), 6, 1),
            4 => go!(RowDVector::<i64>::from_fn(6, val), 1, 6),
            _ => go!(SMatrix::<i64, 2, 2>::from_fn(val), 2, 2),
        }
    })
}
fn vectors(t: bool) -> Scenario {
    sc("long-vectors", move |ctx| {
        let len = if t { ctx.pick(&[20usize, 33, 64, 65, 100, 128, 257, 1000, 1025, 5000]) } else { ctx.pick(&[20usize, 33, 64, 65, 257, 1025]) };
        let axis = ctx.choose(2);
        let n = ctx.pick(&[1usize, 2, 7, 15, 18, 19, 31, 32, 33, 63, 64, 99, 127, 128, 255, 256, 511, 999, 1024, 4999]);
        if n >= len {
            return Err(Stop::Skip);
        }
        let (r, cc) = if axis == 0 { (len, 2) } else { (2, len) };
        let m = ctx.must("odd extension", || odd_ext_dyn(DMatrix::from_fn(r, cc, val), n, axis))?;
        obs(ctx, &m);
        same(&m, &expected(0, r, cc, n, axis))
    })
}
/// Matrices far longer in the other direction than the extension.
fn slabs() -> Scenario {
    sc("slabs", move |ctx| {
        let other = ctx.pick(&[100usize, 129, 255, 256, 257, 500, 511, 512, 513, 600, 1000, 1024, 1025, 2049, 4097, 10_000]);
        let len = ctx.pick(&[2usize, 3, 4, 5, 8, 9, 17]);
        let axis = ctx.choose(2);
        let n = ctx.range(1, len);
        let kind = ctx.choose(2);
        let (r, cc) = if axis == 0 { (len, other) } else { (other, len) };
        if n == len {
            return ctx.must_panic("an extension longer than the data", || match kind {
                0 => odd_ext_dyn(DMatrix::from_fn(r, cc, val), n, axis),
                _ => pad(Pad::Odd, Some(n), DMatrix::from_fn(r, cc, val), axis, 1).1,
            });
        }
        let m = ctx.must("odd extension", || match kind {
            0 => odd_ext_dyn(DMatrix::from_fn(r, cc, val), n, axis),
            _ => pad(Pad::Odd, Some(n), DMatrix::from_fn(r, cc, val), axis, 1).1,
        })?;
        ctx.state(&[r as f64, cc as f64, n as f64, axis as f64]);
        same(&m, &expected(0, r, cc, n, axis))
    })
}
/// Real-valued data: reflection through the edge in floating point.
fn floats() -> Scenario {
    sc("float-values", |ctx| {
        let len = ctx.range(2, 9);
        let n = ctx.range(1, len - 1);
        let al = [0.0, 1.5, -2.25, 1e18, 1e-18];
        let at = ctx.choose(len);
        let v = ctx.pick(&al);
        let mut x: Vec<f64> = (0..len).map(pattern).collect();
        x[at] = v;
        let m = ctx.must("odd extension", || odd_ext_dyn(DVector::from_vec(x.clone()), n, 0))?;
        let got: Vec<f64> = m.iter().cloned().collect();
        let mut want = vec![];
        for i in (1..=n).rev() {
            want.push(2.0 * x[0] - x[i]);
        }
        want.extend_from_slice(&x);
        for i in 1..=n {
            want.push(2.0 * x[len - 1] - x[len - 1 - i]);
        }
        ctx.state(&got);
        cmp("odd extension", &got[n..n + len], &x, 0.0)?;
        ensure!(got.len() == want.len(), "length {} instead of {}", got.len(), want.len());
        for (g, w) in got.iter().zip(&want) {
            near("reflected sample", *g, *w, 1e-12 * (1.0 + w.abs()))?;
        }
        Ok(())
    })
}

/// Every element type the bounds admit, with values for which twice the edge minus the mirrored sample
/// (in that order) is representable: rising, falling and extreme data.
fn elements() -> Scenario {
    sc("element-types", |ctx| {
        let ty = ctx.choose(14);
        let shape = ctx.choose(4);
        let len = ctx.range(2, 9);
        let cc = ctx.range(1, 2);
        let axis = ctx.choose(2);
        let n = ctx.range(1, len);
        let via_pad = ctx.flag();
        ctx.note(|| format!("element type {} shape {} length {} axis {} by {}", ty, shape, len, axis, n));
        // edge values stay below a quarter of 8 bits and mirrored samples below twice the edge
        let raw = |i: usize, j: usize| -> i64 {
            let d = i.min(len - 1 - i) as i64;
            let e = 25 + j as i64;
            match shape {
                0 => e + 3 * d,                    // rising from both edges
                1 => e - 4 * d,                    // falling from both edges
                2 => e + if d % 2 == 0 { 0 } else { 24 }, // oscillating
                _ => e,                            // constant
            }
        };
        let (r, c) = if axis == 0 { (len, cc) } else { (cc, len) };
        let at = |i: usize, j: usize| if axis == 0 { raw(i, j) } else { raw(j, i) };
        let want = if n < len {
            DMatrix::from_fn(if axis == 0 { r + 2 * n } else { r }, if axis == 0 { c } else { c + 2 * n }, |i, j| {
                if axis == 0 {
                    odd(|k| at(k, j), len, i as isize - n as isize)
                } else {
                    odd(|k| at(i, k), len, j as isize - n as isize)
                }
            })
        } else {
            DMatrix::from_element(1, 1, 0)
        };
        macro_rules! go {
            ($of:expr, $to:expr) => {{
                let res = ctx.call(|| {
                    let m = DMatrix::from_fn(r, c, |i, j| $of(at(i, j)));
                    let m = if via_pad { pad(Pad::Odd, Some(n), m, axis, 1).1 } else { odd_ext_dyn(m, n, axis) };
                    DMatrix::from_fn(m.nrows(), m.ncols(), |i, j| $to(m[(i, j)]))
                });
                if n >= len {
                    ensure!(res.is_err(), "extension by {} of length {} was not rejected", n, len);
                    return Ok(());
                }
                match res {
                    Ok(m) => {
                        obs(ctx, &m);
                        same(&m, &want)
                    }
                    Err(m) => fail(format!("element type {}: length {} axis {} by {}: panicked: {}", ty, len, axis, n, m)),
                }
            }};
        }
        use std::num::Wrapping;
        match ty {
            0 => go!(|v| v as u8, |v: u8| v as i64),
            1 => go!(|v| v as u16, |v: u16| v as i64),
            2 => go!(|v| v as u32, |v: u32| v as i64),
            3 => go!(|v| v as u64, |v: u64| v as i64),
            4 => go!(|v| v as usize, |v: usize| v as i64),
            5 => go!(|v| v as u128, |v: u128| v as i64),
            6 => go!(|v| v as i8, |v: i8| v as i64),
            7 => go!(|v| v as i16, |v: i16| v as i64),
            8 => go!(|v| v as i32, |v: i32| v as i64),
            9 => go!(|v| v as i128 * (1i128 << 90), |v: i128| (v >> 90) as i64),
            10 => go!(|v| v as f32, |v: f32| v as i64),
            11 => go!(|v| v as f64 * 2f64.powi(900), |v: f64| (v * 2f64.powi(-900)) as i64),
            12 => go!(|v| nalgebra::Complex::new(v as f64, -2.0 * v as f64), |v: nalgebra::Complex<f64>| if v.im == -2.0 * v.re { v.re as i64 } else { i64::MIN }),
            _ => go!(|v| Wrapping(v as u8), |v: Wrapping<u8>| v.0 as i64),
        }
    })
}

fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![shapes(if t { 14 } else { 8 }), padding(if t { 9 } else { 6 }), static_dims(), vectors(t), slabs(), floats(), elements()];
    if l >= 2 {
        v.push(shapes(24));
        v.push(padding(14));
    }
    if l >= 3 {
        v.push(shapes(110));
        v.push(padding(70));
    }
    v
}
