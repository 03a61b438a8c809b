//! C11: which design requests are accepted.
use super::design::*;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, Check};
use sci_rs::signal::filter::design::*;

pub fn check() -> Check {
    Check {
        id: "C11",
        bounds: "full cross product of 3 families (+ omitted), 4 band types (+ omitted), analog flag (+ omitted), 3 formats, 3 sampling rates, every vector of 0..=3 critical frequencies from 8 values (negative, zero, interior, Nyquist, above), ripples absent/negative/positive, orders 1, 2, 5; all four entry points; valid requests at extreme orders (0..=40), cut-offs (1e-6..1-1e-6) and ripples",
        assumptions: &["NaN or zero ripples, infinite analog frequencies and non-positive sampling rates are outside the property", "type II band-stop requests for which the defect recorded under C08 divides by zero are left out"],
        scenarios,
    }
}

const VALS: [f64; 8] = [0.3, 0.6, 0.001, 0.0, -0.5, 1.0, 1.5, 0.95];

struct Req {
    n: usize,
    w: Vec<f64>,
    rp: Option<f64>,
    rs: Option<f64>,
    band: Option<Band>,
    fam: Option<Fam>,
    analog: Option<bool>,
    out: Option<FilterOutputType>,
    fs: Option<f64>,
    entry: usize,
}
impl Req {
    fn text(&self) -> String {
        format!(
            "entry {} order {} w(normalised)={:?} rp={:?} rs={:?} band={:?} family={:?} analog={:?} output={:?} fs={:?}",
            self.entry, self.n, self.w, self.rp, self.rs, self.band, self.fam, self.analog, self.out, self.fs
        )
    }
    fn valid(&self) -> bool {
        let band = self.band.unwrap_or(if self.entry == 0 { Band::Bp } else { Band::Lp });
        let analog = self.analog.unwrap_or(false);
        if self.w.len() != if band.two() { 2 } else { 1 } {
            return false;
        }
        if analog && self.fs.is_some() {
            return false;
        }
        if self.w.iter().any(|x| x.is_nan() || *x <= 0.0 || (!analog && *x >= 1.0)) {
            return false;
        }
        if self.w.len() == 2 && self.w[0] >= self.w[1] {
            return false;
        }
        if self.rp.map_or(false, |r| r < 0.0) || self.rs.map_or(false, |r| r < 0.0) {
            return false;
        }
        match self.fam.unwrap_or(Fam::Butter) {
            Fam::Butter => true,
            Fam::Cheb1(_) => self.rp.is_some(),
            Fam::Cheb2(_) => self.rs.is_some(),
        }
    }
    fn call<T: Flt>(&self) -> DigitalFilter<T> {
        let f = self.fs.unwrap_or(2.0) / 2.0;
        let wn: Vec<T> = self.w.iter().map(|x| T::of(x * f)).collect();
        let bt = self.band.map(|b| b.b());
        let fs = self.fs.map(T::of);
        match self.entry {
            0 => iirfilter_dyn(self.n, wn, self.rp.map(T::of), self.rs.map(T::of), bt, self.fam.map(|f| f.t()), self.analog, self.out, fs),
            1 => butter_dyn(self.n, wn, bt, self.analog, self.out, fs),
            2 => cheby1_dyn(self.n, T::of(self.rp.unwrap()), wn, bt, self.analog, self.out, fs),
            _ => cheby2_dyn(self.n, T::of(self.rs.unwrap()), wn, bt, self.analog, self.out, fs),
        }
    }
    fn check<T: Flt>(&self, ctx: &mut Ctx) -> R {
        let ok = self.valid();
        if ok {
            let fam = self.fam.unwrap_or(Fam::Butter);
            let fam = if let Fam::Cheb2(_) = fam { Fam::Cheb2(self.rs.unwrap()) } else { fam };
            let band = self.band.unwrap_or(if self.entry == 0 { Band::Bp } else { Band::Lp });
            let sp = Spec { fam, n: self.n, band, analog: self.analog.unwrap_or(false), w: self.w.clone() };
            if singular(&sp) {
                return Err(Stop::Skip);
            }
        }
        let r = ctx.call(|| self.call::<T>());
        ctx.note(|| format!("{} -> {}", self.text(), if r.is_ok() { "accepted" } else { "rejected" }));
        match (r, ok) {
            (Ok(d), true) => {
                let g = got(&d);
                let o = self.out.unwrap_or(FilterOutputType::Ba);
                let m = matches!((&g, o), (Got::Ba(..), FilterOutputType::Ba) | (Got::Zpk(..), FilterOutputType::Zpk) | (Got::Sos(..), FilterOutputType::Sos));
                ensure!(m, "{}: returned {:?}", self.text(), g);
                ensure!(g.finite(), "{}: returned non-finite values {:?}", self.text(), g);
                ctx.state(&g.flat());
                Ok(())
            }
            (Err(_), false) => {
                ctx.state_u(self.w.len() as u128);
                Ok(())
            }
            (Ok(d), false) => fail(format!("{}: must be rejected but returned {:?}", self.text(), got(&d))),
            (Err(m), true) => fail(format!("{}: must be accepted but panicked: {}", self.text(), m)),
        }
    }
}
fn vector(ctx: &mut Ctx, vals: &[f64]) -> Vec<f64> {
    let k = ctx.range(0, 3);
    (0..k).map(|_| ctx.pick(vals)).collect()
}
fn general<T: Flt>(orders: &'static [usize], vals: &'static [f64]) -> Scenario {
    sc(format!("general-{}", T::NAME), move |ctx| {
        let fam = ctx.pick(&[Some(Fam::Butter), Some(Fam::Cheb1(0.0)), Some(Fam::Cheb2(0.0)), None]);
        let band = ctx.pick(&[Some(Band::Lp), Some(Band::Hp), Some(Band::Bp), Some(Band::Bs), None]);
        let w = vector(ctx, vals);
        let analog = ctx.pick(&[Some(false), Some(true), None]);
        let fs = ctx.pick(&[None, Some(2.0), Some(100.0)]);
        let rp = ctx.pick(&[None, Some(1.0), Some(-1.0)]);
        let rs = ctx.pick(&[None, Some(30.0), Some(-30.0)]);
        let n = ctx.pick(orders);
        let out = if n == 2 { ctx.pick(&[Some(FilterOutputType::Ba), Some(FilterOutputType::Zpk), Some(FilterOutputType::Sos)]) } else { None };
        Req { n, w, rp, rs, band, fam, analog, out, fs, entry: 0 }.check::<T>(ctx)
    })
}
fn wrappers<T: Flt>() -> Scenario {
    sc(format!("family-functions-{}", T::NAME), move |ctx| {
        let entry = ctx.range(1, 3);
        let band = ctx.pick(&[Some(Band::Lp), Some(Band::Hp), Some(Band::Bp), Some(Band::Bs), None]);
        let w = vector(ctx, &VALS);
        let analog = ctx.pick(&[Some(false), Some(true), None]);
        let fs = ctx.pick(&[None, Some(2.0), Some(100.0)]);
        let r = if entry == 1 { 1.0 } else { ctx.pick(&[20.0, 1.0, -1.0, 0.1]) };
        let n = ctx.pick(&[1usize, 2, 3, 5]);
        let out = ctx.pick(&[None, Some(FilterOutputType::Ba), Some(FilterOutputType::Zpk), Some(FilterOutputType::Sos)]);
        let (fam, rp, rs) = match entry {
            1 => (Fam::Butter, None, None),
            2 => (Fam::Cheb1(r), Some(r), None),
            _ => (Fam::Cheb2(r), None, Some(r)),
        };
        Req { n, w, rp, rs, band, fam: Some(fam), analog, out, fs, entry }.check::<T>(ctx)
    })
}
/// Valid requests at the ends of every range.
fn extremes<T: Flt>(nmax: usize, ws: Vec<f64>) -> Scenario {
    sc(format!("extremes-{}-n{}", T::NAME, nmax), move |ctx| {
        let fam = ctx.pick(&[Fam::Butter, Fam::Cheb1(0.001), Fam::Cheb1(0.5), Fam::Cheb1(20.0), Fam::Cheb2(0.5), Fam::Cheb2(20.0), Fam::Cheb2(150.0)]);
        let band = ctx.pick(&BANDS);
        let n = ctx.range(0, nmax);
        let i = ctx.choose(ws.len());
        let w = if band.two() {
            if i + 1 >= ws.len() {
                return Err(Stop::Skip);
            }
            let j = ctx.range(i + 1, ws.len() - 1);
            vec![ws[i], ws[j]]
        } else {
            vec![ws[i]]
        };
        let analog = ctx.flag();
        let out = Some(ctx.pick(&OUTS));
        let (rp, rs) = match fam {
            Fam::Butter => (None, None),
            Fam::Cheb1(r) => (Some(r), None),
            Fam::Cheb2(r) => (None, Some(r)),
        };
        Req { n, w, rp, rs, band: Some(band), fam: Some(fam), analog: Some(analog), out, fs: None, entry: 0 }.check::<T>(ctx)
    })
}
/// Bands and cut-offs of every width and place: two different frequencies are two frequencies.
fn narrow<T: Flt>() -> Scenario {
    sc(format!("narrow-bands-{}", T::NAME), move |ctx| {
        let single = T::EPS > 1e-10;
        let band = ctx.pick(&[Band::Bp, Band::Bs]);
        let fam = ctx.pick(&[Fam::Butter, Fam::Cheb1(1.0), Fam::Cheb2(30.0)]);
        let lo = ctx.pick(if single { &[1e-30, 1e-20, 1e-12, 1e-9, 1e-4, 0.1, 0.3, 0.7] } else { &[1e-150, 1e-100, 1e-60, 1e-30, 1e-20, 1e-17, 1e-16, 1e-15, 1e-12, 1e-9, 1e-4, 0.1, 0.3, 0.7] });
        let gap = ctx.pick(&[-1.0, 0.0, 1.0, 2.0, 64.0, 1e3, 0.5 / T::EPS, 2.0 / T::EPS, 10.0 / T::EPS]);
        let lo = T::of(lo).f();
        let hi = T::of(lo * (1.0 + gap * T::EPS)).f();
        if gap.abs() == 1.0 && (hi == lo || (hi / lo - 1.0).abs() > 1.5 * T::EPS) || hi >= 1.0 {
            return Err(Stop::Skip);
        }
        let analog = ctx.flag();
        let (rp, rs) = match fam {
            Fam::Butter => (None, None),
            Fam::Cheb1(r) => (Some(r), None),
            Fam::Cheb2(r) => (None, Some(r)),
        };
        let q = Req { n: 1, w: vec![lo, hi], rp, rs, band: Some(band), fam: Some(fam), analog: Some(analog), out: Some(FilterOutputType::Zpk), fs: None, entry: 0 };
        let r = ctx.call(|| q.call::<T>());
        ctx.note(|| format!("{} -> {}", q.text(), if r.is_ok() { "accepted" } else { "rejected" }));
        ctx.state_u(r.is_ok() as u128);
        ensure!(r.is_ok() == q.valid(), "{}: {}", q.text(), if r.is_ok() { "accepted but must be rejected".to_string() } else { format!("must be accepted but panicked: {}", r.err().unwrap()) });
        Ok(())
    })
}
fn edges<T: Flt>() -> Scenario {
    // the last frequency below Nyquist is valid, Nyquist is not; likewise above zero and Wn[0] = Wn[1]
    sc(format!("boundaries-{}", T::NAME), move |ctx| {
        let eps = T::EPS;
        let band = ctx.pick(&BANDS);
        let fam = ctx.pick(&[Fam::Butter, Fam::Cheb1(1.0), Fam::Cheb2(30.0)]);
        let edge = ctx.pick(&[1.0 - eps, 1.0 - 8.0 * eps, 1.0, 1.0 + 2.0 * eps, 1e-12, 0.0, -1e-12, -0.0, f64::NAN, f64::NEG_INFINITY, f64::INFINITY, 1e300]);
        let out = ctx.pick(&OUTS);
        let w = if band.two() {
            match ctx.choose(3) {
                0 => vec![0.25, edge],
                1 => vec![edge, 0.25],
                _ => vec![edge, edge],
            }
        } else {
            vec![edge]
        };
        let analog = ctx.flag();
        if analog && edge > 1e10 {
            return Err(Stop::Skip);
        }
        let fs = if analog { None } else { ctx.pick(&[None, Some(2.0), Some(64.0)]) };
        let (rp, rs) = match fam {
            Fam::Butter => (None, None),
            Fam::Cheb1(r) => (Some(r), None),
            Fam::Cheb2(r) => (None, Some(r)),
        };
        let q = Req { n: 1, w, rp, rs, band: Some(band), fam: Some(fam), analog: Some(analog), out: Some(out), fs, entry: 0 };
        if q.valid() && !matches!(out, FilterOutputType::Zpk) {
            return Err(Stop::Skip);
        }
        // only the decision is checked here: a cut-off one ulp from a limit leaves no precision
        let r = ctx.call(|| q.call::<T>());
        ctx.state_u(r.is_ok() as u128);
        ensure!(r.is_ok() == q.valid(), "{}: {}", q.text(), if r.is_ok() { "accepted but must be rejected".to_string() } else { format!("must be accepted but panicked: {}", r.err().unwrap()) });
        Ok(())
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![
        general::<f64>(if t { &[1, 2, 5] } else { &[2] }, &VALS),
        general::<f32>(&[3], &VALS[..5]),
        wrappers::<f64>(),
        edges::<f64>(),
        edges::<f32>(),
        narrow::<f64>(),
        narrow::<f32>(),
        extremes::<f64>(if t { 40 } else { 16 }, vec![1e-6, 1e-4, 0.01, 0.1, 0.3, 0.300001, 0.5, 0.9, 0.999, 0.999999]),
        extremes::<f32>(8, vec![0.01, 0.05, 0.1, 0.3, 0.31, 0.5, 0.9, 0.99]),
    ];
    if t {
        v.push(wrappers::<f32>());
    }
    if l >= 2 {
        v.push(general::<f64>(&[3, 4, 8, 9], &VALS));
        v.push(extremes::<f64>(80, vec![1e-3, 0.02, 0.2, 0.25, 0.4, 0.6, 0.75, 0.95, 0.99]));
    }
    if l >= 3 {
        v.push(general::<f64>(&[0, 6, 7, 10, 11, 12, 13, 14, 15, 16], &VALS));
        v.push(general::<f32>(&[1, 2, 4, 5, 6], &VALS));
        v.push(extremes::<f64>(160, vec![1e-5, 1e-3, 0.05, 0.2, 0.5, 0.8, 0.98]));
    }
    v
}
