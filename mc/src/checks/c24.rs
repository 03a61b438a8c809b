//! C24: plotting against stand-in interpreters with every kind of failure.
use crate::engine::*;
use crate::{ensure, Check};
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn check() -> Check {
    Check {
        id: "C24",
        bounds: "every combination of 15 interpreter behaviours (missing, not executable, not a program, a directory, reading all and exiting 0 / 3 / by SIGKILL / after much output, exiting or dying before reading, closing its input, reading late, reading partly, pausing halfway) with 10 sets of series (none to 3 series, empty to 120000 samples, extreme and non-finite values), every one of three interpreters that take half a day to two days by the caller's clock (the caller's clock, sleeps and timeouts run 200000 times fast), 18 exit statuses (thorough all 256) and 16 signals, up to 1030 series, and every pair (thorough triple) of six behaviours in one process; and every choice of 1..3 series of 1..5 (thorough 12) samples, the script executed by a real interpreter against stand-in plotting modules that record the curves",
        assumptions: &[
            "the interpreter is a stand-in found through PATH in a scratch directory; each execution is a process of its own with a 60 s limit",
            "when the interpreter stops reading before the end, returning without waiting for it is accepted",
            "the drawn curves are judged as data (which curve on which axes), not their styling; a script importing modules the stand-ins lack, or a system without python3, is not judged there",
            "the series are recognised as the first list of lists of numbers in what the interpreter is given",
        ],
        scenarios,
    }
}
const NB: usize = 15;
/// Interpreters that take their time (behaviours after the others, run under the fast clock).
const SLOW: usize = 3;
const ND: usize = 10;
/// Interpreters that read everything and end with any status (STATUS + code) or signal (SIGNAL + number).
const STATUS: usize = 1000;
const SIGNAL: usize = 2000;
fn data(k: usize) -> Vec<Vec<f32>> {
    let pat = |n: usize, s: usize| (0..n).map(|i| crate::num::pattern(i + s) as f32 * 100.0).collect::<Vec<f32>>();
    match k {
        0 => vec![],
        1 => vec![vec![]],
        2 => vec![vec![1.0]],
        3 => vec![pat(5, 0), pat(3, 9)],
        4 => vec![vec![0.0, -0.0, 1e-45, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 0.1, 1.0 / 3.0, 16777216.0, 1e20, -1e-20, 123456.79]],
        5 => vec![pat(2, 3), vec![], pat(1, 8)],
        6 => vec![pat(30_000, 0), pat(10, 5), pat(20_000, 77)],
        7 => vec![pat(120_000, 1)],
        8 => vec![vec![1.0, f32::NAN, 2.0, f32::INFINITY, f32::NEG_INFINITY, 3.0]],
        9 => (0..60).map(|i| pat(7, i)).collect(),
        10 => (0..101).map(|i| pat(2, i)).collect(),
        11 => (0..1030).map(|i| pat(1, i)).collect(),
        _ => (0..300).map(|i| pat(i % 5, i)).collect(),
    }
}
/// (script, does it read everything, does it leave a mark at its very end)
fn script(b: usize, dir: &Path) -> (String, bool, bool) {
    let d = dir.display();
    let all = format!("/bin/cat > '{d}/got'");
    let mark = format!("echo done > '{d}/mark'");
    let (s, r, m) = match b {
        3 => (format!("{all}\n{mark}\nexit 0"), true, true),
        4 => (format!("{all}\n{mark}\nexit 3"), true, true),
        5 => (format!("{all}\nkill -9 $$"), true, false),
        6 => ("exit 0".to_string(), false, false),
        7 => ("kill -9 $$".to_string(), false, false),
        8 => (format!("exec 0<&-\n/bin/sleep 0.1\n{mark}"), false, false),
        9 => (format!("/bin/sleep 0.15\n{all}\n/bin/sleep 0.15\n{mark}"), true, true),
        10 => ("/usr/bin/head -c 50 > /dev/null\nexit 0".to_string(), false, false),
        11 => (format!("{all}\n/usr/bin/head -c 400000 /dev/zero\n/usr/bin/head -c 400000 /dev/zero >&2\n{mark}"), true, true),
        12 => (format!("/usr/bin/head -c 300000 /dev/zero\n/usr/bin/head -c 300000 /dev/zero >&2\n{all}\n{mark}"), true, true),
        13 => (format!("/usr/bin/head -c 40 > '{d}/got'\n/bin/sleep 0.1\n/bin/cat >> '{d}/got'\n/bin/sleep 0.1\n{mark}\nexit 1"), true, true),
        15 => (format!("{all}\n/bin/sleep 0.7\n{mark}"), true, true),
        16 => (format!("/bin/sleep 0.7\n{all}\n{mark}\nexit 7"), true, true),
        17 => (format!("/usr/bin/head -c 60 > '{d}/got'\n/bin/sleep 0.4\n/bin/cat >> '{d}/got'\n/bin/sleep 0.4\n{mark}"), true, true),
        b if b >= SIGNAL => (format!("{all}\n{mark}\nulimit -c 0\nkill -{} $$\n/bin/sleep 5", b - SIGNAL), true, true),
        b if b >= STATUS => (format!("{all}\n{mark}\nexit {}", b - STATUS), true, true),
        _ => (format!("exec 0<&-\nexec 1>&-\nexec 2>&-\n/bin/sleep 0.05\nexit 2"), false, false),
    };
    (format!("#!/bin/sh\n{}\n", s), r, m)
}
/// The clock of the calling process, sped up on demand. These definitions take the place of the C library's
/// in this program, so every sleep, timeout and clock reading of the code under test goes through them.
mod clock {
    use std::sync::atomic::{AtomicI64, Ordering};
    const SPEED: i64 = 200_000;
    /// Real monotonic time (ns) when the clock was sped up; 0 = real time.
    static SINCE: AtomicI64 = AtomicI64::new(0);
    static SINCE_REAL: AtomicI64 = AtomicI64::new(0);
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Ts {
        s: i64,
        n: i64,
    }
    #[cfg(target_arch = "x86_64")]
    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
        r
    }
    #[cfg(target_arch = "x86_64")]
    mod nr {
        pub const NANOSLEEP: i64 = 35;
        pub const FUTEX: i64 = 202;
        pub const GETTIME: i64 = 228;
        pub const CLOCK_NANOSLEEP: i64 = 230;
    }
    #[cfg(target_arch = "x86_64")]
    mod hooks {
        use super::*;
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        unsafe fn done(r: i64) -> i64 {
            if r < 0 && r > -4096 {
                *__errno_location() = -r as i32;
                -1
            } else {
                r
            }
        }
        unsafe fn now(id: i32) -> i64 {
            let mut t = Ts { s: 0, n: 0 };
            raw(nr::GETTIME, id as i64, &mut t as *mut Ts as i64, 0, 0, 0, 0);
            t.s * 1_000_000_000 + t.n
        }
        fn since(id: i32) -> i64 {
            if id == 0 { SINCE_REAL.load(Ordering::Relaxed) } else { SINCE.load(Ordering::Relaxed) }
        }
        pub fn start() {
            if SINCE.load(Ordering::Relaxed) == 0 {
                unsafe {
                    SINCE_REAL.store(now(0), Ordering::Relaxed);
                    SINCE.store(now(1), Ordering::Relaxed);
                }
            }
        }
        fn ts(n: i64) -> Ts {
            Ts { s: n.div_euclid(1_000_000_000), n: n.rem_euclid(1_000_000_000) }
        }
        fn ns(t: Ts) -> i64 {
            t.s.saturating_mul(1_000_000_000).saturating_add(t.n)
        }
        /// The real moment at which the fast clock shows `v`.
        fn real(id: i32, v: i64) -> i64 {
            let z = since(id);
            if v <= z { v } else { z + (v - z) / SPEED + 1 }
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
            let r = raw(nr::GETTIME, id as i64, t as i64, 0, 0, 0, 0);
            let z = since(id);
            if r == 0 && SINCE.load(Ordering::Relaxed) != 0 && (id == 0 || id == 1) {
                *t = ts(z + (ns(*t) - z) * SPEED);
            }
            done(r) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn nanosleep(t: *const Ts, left: *mut Ts) -> i32 {
            if SINCE.load(Ordering::Relaxed) == 0 {
                return done(raw(nr::NANOSLEEP, t as i64, left as i64, 0, 0, 0, 0)) as i32;
            }
            let d = ts(ns(*t) / SPEED + 1);
            raw(nr::NANOSLEEP, &d as *const Ts as i64, 0, 0, 0, 0, 0);
            0
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const Ts, left: *mut Ts) -> i32 {
            if SINCE.load(Ordering::Relaxed) == 0 {
                return -raw(nr::CLOCK_NANOSLEEP, id as i64, flags as i64, t as i64, left as i64, 0, 0) as i32;
            }
            let d = if flags & 1 == 1 { ts(real(id, ns(*t))) } else { ts(ns(*t) / SPEED + 1) };
            raw(nr::CLOCK_NANOSLEEP, id as i64, flags as i64, &d as *const Ts as i64, 0, 0, 0);
            0
        }
        /// Futex waits with a time limit; everything else goes through unchanged.
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            let op = b & 0x7f;
            if n == nr::FUTEX && SINCE.load(Ordering::Relaxed) != 0 && (op == 0 || op == 9) && d != 0 {
                let t = *(d as *const Ts);
                let id = if b & 256 != 0 { 0 } else { 1 };
                let t = if op == 9 { ts(real(id, ns(t))) } else { ts(ns(t) / SPEED + 1) };
                return done(raw(n, a, b, c, &t as *const Ts as i64, e, f));
            }
            done(raw(n, a, b, c, d, e, f))
        }
    }
    pub fn speed_up() {
        #[cfg(target_arch = "x86_64")]
        hooks::start();
    }
    #[cfg(not(target_arch = "x86_64"))]
    const _: (i64, &AtomicI64, &AtomicI64, Option<Ts>) = (SPEED, &SINCE, &SINCE_REAL, None);
}
/// Child process: installs the stand-in, plots, reports.
pub fn driver(args: &[String]) -> i32 {
    if args[0] == "draw" {
        // written here, by a process without other threads: a concurrently forked process would hold
        // the file open for writing and keep it from being executed
        let (d, py) = (&args[1], &args[3]);
        let f = format!("{d}/bin/python");
        std::fs::write(&f, format!("#!/bin/sh\nexport PYTHONPATH='{d}' MC_OUT='{d}/plots' PYTHONDONTWRITEBYTECODE=1\nexec {py} - 2> '{d}/pyerr'\n")).expect("scratch");
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).expect("scratch");
        std::env::set_var("PATH", format!("{d}/bin"));
        let v: Vec<Vec<f32>> = args[2].split(';').map(|s| s.split(',').map(|t| t.parse().expect("number")).collect()).collect();
        sci_rs::plot::python_plot(v.iter().map(|x| x.as_slice()).collect());
        return 0;
    }
    let (fast, args) = if args[0] == "fast" { (true, &args[1..]) } else { (false, args) };
    let dir = PathBuf::from(&args[0]);
    for (step, w) in args[1..].chunks(2).enumerate() {
        let (b, k): (usize, usize) = (w[0].parse().unwrap(), w[1].parse().unwrap());
        let d = dir.join(format!("s{}", step));
        let bin = d.join("bin");
        std::fs::create_dir_all(&bin).unwrap();
        let py = bin.join("python");
        match b {
            0 => {}
            1 => std::fs::write(&py, "#!/bin/sh\nexit 0\n").unwrap(),
            2 => {
                std::fs::write(&py, b"\x7fELFnot really\0\0\0").unwrap();
                std::fs::set_permissions(&py, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
            NODIR => std::fs::create_dir_all(&py).unwrap(),
            _ => {
                let mut f = std::fs::File::create(&py).unwrap();
                f.write_all(script(b, &d).0.as_bytes()).unwrap();
                drop(f);
                std::fs::set_permissions(&py, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
        }
        std::env::set_var("PATH", &bin);
        let v = data(k);
        if fast {
            clock::speed_up();
        }
        let r: Vec<&[f32]> = v.iter().map(|x| x.as_slice()).collect();
        sci_rs::plot::python_plot(r);
        println!("returned {} mark={}", step, d.join("mark").exists() as u8);
    }
    0
}
const NODIR: usize = 100;

/// The first list of lists of numbers in the text.
fn lists(s: &str) -> Option<Vec<Vec<f32>>> {
    let b = s.as_bytes();
    let mut from = 0;
    while let Some(p) = s[from..].find('[') {
        let start = from + p;
        let mut depth = 0;
        let mut end = None;
        for i in start..b.len() {
            match b[i] {
                b'[' => depth += 1,
                b']' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(i);
                        break;
                    }
                }
                _ => {}
            }
        }
        if let Some(e) = end {
            if let Some(v) = nested(&s[start + 1..e]) {
                return Some(v);
            }
        }
        from = start + 1;
    }
    None
}
fn nested(s: &str) -> Option<Vec<Vec<f32>>> {
    let mut out = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        rest = rest.strip_prefix('[')?;
        let e = rest.find(']')?;
        let mut row = vec![];
        for t in rest[..e].split(',') {
            let t = t.trim();
            if t.is_empty() {
                continue;
            }
            // anything spelled in letters stands for a non-finite value
            row.push(match t.parse::<f32>() {
                Ok(x) => x,
                Err(_) if t.chars().any(|c| c.is_ascii_alphabetic()) => f32::NAN,
                Err(_) => return None,
            });
        }
        out.push(row);
        rest = rest[e + 1..].trim_start();
        match rest.strip_prefix(',') {
            Some(r) => rest = r.trim_start(),
            None => {
                if !rest.is_empty() {
                    return None;
                }
            }
        }
    }
    Some(out)
}
static SEQ: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn run(ctx: &mut Ctx, steps: &[(usize, usize)]) -> R {
    let dir = Scratch(std::env::temp_dir().join(format!("mc-plot-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed))));
    if std::fs::create_dir_all(&dir.0).is_err() {
        panic!("no scratch directory");
    }
    ctx.trans += steps.len() as u64;
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("driver");
    if steps.iter().any(|(b, _)| (NB..NB + SLOW).contains(b)) {
        c.arg("fast");
    }
    c.arg(&dir.0);
    for (b, k) in steps {
        c.arg(b.to_string()).arg(k.to_string());
    }
    let out = dir.0.join("out");
    let err = dir.0.join("err");
    c.stdin(Stdio::null()).stdout(std::fs::File::create(&out).unwrap()).stderr(std::fs::File::create(&err).unwrap());
    let mut ch = c.spawn().expect("driver");
    let t = Instant::now();
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(60) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return fail(format!("plotting {:?} does not return", steps));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let o = std::fs::read_to_string(&out).unwrap_or_default();
    let e = std::fs::read_to_string(&err).unwrap_or_default();
    ctx.note(|| format!("(behaviour, series) {:?} -> {} {:?}", steps, status, o));
    ensure!(status.code() == Some(0), "plotting with behaviours {:?} ended with {} instead of returning: {}", steps, status, e.chars().take(300).collect::<String>());
    for (i, (b, k)) in steps.iter().enumerate() {
        let d = dir.0.join(format!("s{}", i));
        if *b <= 2 || *b == NODIR {
            continue;
        }
        let (_, reads, marks) = script(*b, &d);
        if marks {
            ensure!(o.contains(&format!("returned {} mark=1", i)), "plotting with behaviour {} returned before the interpreter had finished", b);
        }
        if reads {
            let got = std::fs::read_to_string(d.join("got")).unwrap_or_default();
            let want = data(*k);
            let Some(l) = lists(&got) else { return fail(format!("no series in what the interpreter received: {}", got.chars().take(200).collect::<String>())) };
            ensure!(l.len() == want.len(), "{} series arrive instead of {}", l.len(), want.len());
            for (j, (x, y)) in l.iter().zip(&want).enumerate() {
                ensure!(x.len() == y.len(), "series {} arrives with {} samples instead of {}", j, x.len(), y.len());
                for (q, (a, w)) in x.iter().zip(y).enumerate() {
                    ensure!(!w.is_finite() || a == w, "sample {} of series {} arrives as {:e} instead of {:e}", q, j, a, w);
                }
            }
            ctx.state_u(got.len() as u128);
        }
    }
    ctx.state_u((o.len() as u128) << 32);
    Ok(())
}
/// Stand-ins for the plotting and signal modules: they accept any call and record what is drawn.
const STUB: &str = r#"
import os
class Any:
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Any()
    def __setitem__(self, k, v): pass
    def __iter__(self): return iter([])
    def __enter__(self): return self
    def __exit__(self, *a): return False
axes = []
class Axes(Any):
    def __init__(self, pos): self.pos = pos; self.curves = []; axes.append(self)
    def plot(self, *a, **k):
        nums = [list(x) for x in a if not isinstance(x, str)]
        self.curves.append((None, nums[0]) if len(nums) == 1 else (nums[0], nums[1]))
        return [Any()]
    def stem(self, *a, **k): return self.plot(*a)
def axis(*a, **k):
    pos = repr(a)
    for x in axes:
        if x.pos == pos: current[0] = x; return x
    current[0] = Axes(pos); return current[0]
current = [None]
def gca(*a, **k): return current[0] or axis(1, 1, 1)
class Cell:
    def __init__(self, i, j): self.i = i; self.j = j
    def __repr__(self): return "cell(%d,%d)" % (self.i, self.j)
class GridSpec(Any):
    def __init__(self, r, c, *a, **k):
        if r <= 0 or c <= 0: raise ValueError("grid")
        self.r = r; self.c = c
    def __getitem__(self, k):
        if not isinstance(k, tuple): k = (k // self.c, k % self.c)
        if any(isinstance(v, slice) for v in k): return Any()
        i, j = k
        if i < 0: i += self.r
        if j < 0: j += self.c
        if not (0 <= i < self.r and 0 <= j < self.c): raise IndexError("grid")
        return Cell(i, j)
class Figure(Any):
    def add_subplot(self, *a, **k): return axis(*a)
    def add_gridspec(self, r=1, c=1, **k): return GridSpec(r, c)
    def gca(self, *a, **k): return gca()
    def subplots(self, r=1, c=1, **k): return subplots(r, c)[1]
class Grid(list):
    def __getitem__(self, k):
        if isinstance(k, tuple): return list.__getitem__(self, k[0])[k[1]]
        return list.__getitem__(self, k)
    @property
    def flat(self): return [x for r in self for x in r]
def subplots(r=1, c=1, squeeze=True, **k):
    g = Grid([Grid([axis(Cell(i, j)) for j in range(c)]) for i in range(r)])
    if squeeze and r == 1: g = g[0]
    if squeeze and r == 1 and c == 1: g = g[0]
    return Figure(), g
def show(*a, **k):
    with open(os.environ["MC_OUT"], "w") as f:
        for x in axes:
            for (xs, ys) in x.curves:
                f.write("curve %s | %s | %s\n" % (x.pos.replace(" ", ""), "none" if xs is None else " ".join(repr(float(v)) for v in xs), " ".join(repr(float(v)) for v in ys)))
        f.write("shown\n")
class Arr(list):
    def max(self, *a, **k): return max(self)
    def min(self, *a, **k): return min(self)
    def sum(self, *a, **k): return sum(self)
    def __truediv__(self, o): return Arr(v / o for v in self)
    def __mul__(self, o): return Arr(v * o for v in self)
    def __rmul__(self, o): return Arr(v * o for v in self)
    def __neg__(self): return Arr(-v for v in self)
    def __sub__(self, o): return Arr(v - o for v in self)
    def __add__(self, o): return Arr(v + o for v in self)
    @property
    def size(self): return len(self)
    @property
    def shape(self): return (len(self),)
def correlate(a, b, mode="full", method="auto"):
    a = list(a); b = list(b)
    if not a or not b: raise ValueError("empty")
    n, m = len(a), len(b)
    full = Arr(sum(a[i + k] * b[i] for i in range(m) if 0 <= i + k < n) for k in range(-(m - 1), n))
    if mode == "full": return full
    if mode == "same":
        s = (len(full) - n) // 2; return Arr(full[s:s + n])
    if mode == "valid":
        lo, hi = min(n, m), max(n, m); return Arr(full[lo - 1:hi])
    raise ValueError(mode)
def correlation_lags(n, m, mode="full"):
    full = Arr(range(-(m - 1), n))
    if mode == "full": return full
    raise ValueError(mode)
"#;
fn python() -> Option<&'static str> {
    ["/usr/bin/python3", "/usr/local/bin/python3", "/bin/python3"].into_iter().find(|p| Path::new(p).exists())
}
fn drawn(ctx: &mut Ctx, v: &[Vec<f32>]) -> R {
    let Some(py) = python() else { return Ok(()) };
    let dir = Scratch(std::env::temp_dir().join(format!("mc-plot-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed))));
    let d = dir.0.display().to_string();
    for m in ["matplotlib", "scipy", "bin"] {
        std::fs::create_dir_all(dir.0.join(m)).expect("scratch");
    }
    let w = |f: &str, s: &str| std::fs::write(dir.0.join(f), s).expect("scratch");
    w("mcstub.py", STUB);
    w("matplotlib/__init__.py", "def use(*a, **k): pass\nrcParams = {}\n");
    w("matplotlib/pyplot.py", "from mcstub import *\nfrom mcstub import axis as _axis, Axes as _A\ndef figure(*a, **k): return Figure()\ndef subplot(*a, **k): return _axis(*a)\ndef plot(*a, **k): return gca().plot(*a, **k)\ndef __getattr__(n):\n    if n.startswith('__'): raise AttributeError(n)\n    return Any()\n");
    w("matplotlib/gridspec.py", "from mcstub import GridSpec\n");
    w("scipy/__init__.py", "from . import signal\n");
    w("scipy/signal.py", "from mcstub import correlate, correlation_lags\n");
    let series: String = v.iter().map(|s| s.iter().map(|x| format!("{:e}", x)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";");
    let o = Command::new(std::env::current_exe().expect("exe")).arg("driver").arg("draw").arg(&d).arg(&series).arg(py).stdin(Stdio::null()).output().expect("driver");
    ctx.trans += 1;
    ensure!(o.status.code() == Some(0), "plotting {} series ended with {}: {}", v.len(), o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
    let err = std::fs::read_to_string(dir.0.join("pyerr")).unwrap_or_default();
    if err.contains("ImportError") || err.contains("ModuleNotFoundError") {
        // the script uses a module the stand-ins do not provide
        return Ok(());
    }
    let got = std::fs::read_to_string(dir.0.join("plots")).unwrap_or_default();
    ctx.note(|| format!("series {} -> {}", series, got));
    ensure!(got.ends_with("shown\n"), "the script for series {} draws nothing: {}", series, err.lines().last().unwrap_or(""));
    struct Curve {
        axes: String,
        x: Option<Vec<f64>>,
        y: Vec<f64>,
    }
    let nums = |s: &str| s.split_whitespace().map(|t| t.parse::<f64>().unwrap_or(f64::NAN)).collect::<Vec<_>>();
    let mut curves: Vec<Curve> = vec![];
    for l in got.lines().filter_map(|l| l.strip_prefix("curve ")) {
        let mut f = l.split('|');
        let (a, x, y) = (f.next().unwrap_or("").trim().to_string(), f.next().unwrap_or("").trim().to_string(), f.next().unwrap_or("").trim().to_string());
        curves.push(Curve { axes: a, x: if x == "none" { None } else { Some(nums(&x)) }, y: nums(&y) });
    }
    ensure!(curves.len() == 2 * v.len(), "{} curves are drawn for {} series instead of two for each: {}", curves.len(), v.len(), got);
    for i in 0..curves.len() {
        for j in 0..i {
            ensure!(curves[i].axes != curves[j].axes, "two curves share the axes {} (series {})", curves[i].axes, series);
        }
    }
    let close = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-6 * (1.0 + y.abs()));
    let mut used = vec![false; curves.len()];
    for (i, s) in v.iter().enumerate() {
        let s: Vec<f64> = s.iter().map(|x| *x as f64).collect();
        let n = s.len() as isize;
        let at: Vec<f64> = (0..n).map(|k| k as f64).collect();
        let lags: Vec<f64> = (1 - n..n).map(|k| k as f64).collect();
        let corr: Vec<f64> = (1 - n..n).map(|k| (0..n).filter(|i| i + k >= 0 && i + k < n).map(|i| s[i as usize] * s[(i + k) as usize]).sum()).collect();
        let top = corr[(n - 1) as usize];
        let norm: Vec<f64> = corr.iter().map(|c| c / top).collect();
        let mut find = |what: &str, ok: &dyn Fn(&Curve) -> bool| -> R {
            match (0..curves.len()).find(|c| !used[*c] && ok(&curves[*c])) {
                Some(c) => {
                    used[c] = true;
                    Ok(())
                }
                None => fail(format!("{} of series {} of {} is not drawn: {}", what, i, series, got)),
            }
        };
        find("the samples", &|c| c.x.as_ref().map_or(true, |x| close(x, &at)) && close(&c.y, &s))?;
        find("the normalised autocorrelation against the lag", &|c| c.x.as_ref().map_or(false, |x| close(x, &lags)) && close(&c.y, &norm))?;
    }
    ctx.state_u(got.len() as u128);
    Ok(())
}
fn drawings(maxs: usize, maxn: usize) -> Scenario {
    sc(format!("drawn-curves-{}x{}", maxs, maxn), move |ctx| {
        let m = 1 + ctx.choose(maxs);
        let v: Vec<Vec<f32>> = (0..m).map(|j| { let n = 1 + ctx.choose(maxn); (0..n).map(|i| (crate::num::pattern(3 * i + 7 * j + n) * 8.0).round() as f32 + 0.5).collect() }).collect();
        drawn(ctx, &v)
    })
}
fn beh(i: usize) -> usize {
    if i == NB {
        NODIR
    } else {
        i
    }
}
fn single() -> Scenario {
    sc("one-plot", move |ctx| {
        let b = beh(ctx.choose(NB + 1));
        let k = ctx.choose(ND);
        run(ctx, &[(b, k)])
    })
}
/// The caller's clock runs 200 000 times faster than the interpreter's: a plot window that stays open for a day or two.
fn slow() -> Scenario {
    sc("slow-interpreters", move |ctx| {
        let b = NB + ctx.choose(SLOW);
        let k = ctx.pick(&[2, 3, 6, 7]);
        run(ctx, &[(b, k)])
    })
}
/// Every way for the interpreter to end.
fn endings(all: bool) -> Scenario {
    sc("endings", move |ctx| {
        let b = if ctx.flag() {
            SIGNAL + ctx.pick(&[1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 24, 25, 31])
        } else if all {
            STATUS + ctx.choose(256)
        } else {
            STATUS + ctx.pick(&[1, 2, 63, 64, 100, 120, 126, 127, 128, 129, 130, 134, 137, 139, 143, 200, 254, 255])
        };
        run(ctx, &[(b, 2)])
    })
}
fn many() -> Scenario {
    sc("many-series", move |ctx| {
        let b = ctx.pick(&[3, 9, 12]);
        let k = ctx.pick(&[10, 11, 12]);
        run(ctx, &[(b, k)])
    })
}
fn several(n: usize) -> Scenario {
    sc(format!("plots-in-a-row-{}", n), move |ctx| {
        let mut v = vec![];
        for i in 0..n {
            let b = ctx.pick(&[0, 3, 5, 6, 8, 12]);
            v.push((b, [3, 6, 4, 2][i % 4]));
        }
        run(ctx, &v)
    })
}
fn scenarios(l: u8) -> Vec<Scenario> {
    let t = l >= 1;
    let mut v = vec![single(), several(2), drawings(2, 4), slow(), endings(l >= 2), many()];
    if t {
        v.push(several(3));
        v.push(drawings(3, 5));
        v.push(several(4));
    }
    if l >= 2 {
        v.push(several(5));
        v.push(drawings(3, 12));
    }
    if l >= 3 {
        v.push(several(6));
    }
    v
}
