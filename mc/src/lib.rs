pub mod engine;
pub mod guard;
pub mod num;

use engine::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(level: u8) -> Vec<Scenario>,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn load_known() -> &'static [Known] {
    let mut v = Vec::new();
    // known: property=<id> key=<key> <text>
    if let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                let t = it.next().unwrap_or("").to_string();
                v.push(Known { property: p, key: k, text: t });
            }
        }
    }
    Box::leak(v.into_boxed_slice())
}

fn usage() -> ! {
    eprintln!("usage: run TIER | replay FILE");
    std::process::exit(2)
}

pub fn main_with(c: Check, driver: Option<fn(&[String]) -> i32>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() >= 3 => std::process::exit(supervise(&c, &a[2])),
        Some("worker") if a.len() >= 4 => std::process::exit(worker(&c, &a[2], Path::new(&a[3]), a.get(4).map(PathBuf::from))),
        Some("driver") if a.len() >= 3 && driver.is_some() => std::process::exit((driver.unwrap())(&a[2..])),
        Some("replay") if a.len() >= 3 => std::process::exit(replay(&c, &a[2])),
        _ => usage(),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn replay_path(id: &str, n: usize) -> PathBuf {
    let d = verif().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let variant = std::env::var("MC_VARIANT").unwrap_or_else(|_| "std".into());
    d.join(format!("{}-{}-{}.replay", id, variant, n))
}
fn write_replay(path: &Path, id: &str, tier: &str, mode: &str, v: &Violation) {
    let body = format!(
        "# replay with: {} replay {}\nproperty={}\ntier={}\nmode={}\nscenario={}\nchoices={}\ntask={}\n# {}\n{}",
        me().display(),
        path.display(),
        id,
        tier,
        mode,
        v.scenario,
        join(&v.choices),
        join(&v.task),
        v.message.replace('\n', " "),
        v.notes.iter().map(|n| format!("# {}\n", n.replace('\n', " "))).collect::<String>()
    );
    let _ = std::fs::write(path, body);
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Explores everything for one property; prints the verdict; 0 or 1.
fn worker(check: &Check, tier: &str, work: &Path, trace: Option<PathBuf>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let id = check.id;
    quiet_panics();
    let known = load_known();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let slots: &'static [Slot] = Box::leak((0..threads).map(|_| Slot { start: Mutex::new(None) }).collect::<Vec<_>>().into_boxed_slice());
    let limit = Duration::from_secs(if thorough { 180 } else { 45 });
    {
        let work = work.to_path_buf();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in slots {
                let hung = match &*s.start.lock().unwrap() {
                    Some((t, n, c)) if t.elapsed() > limit => Some((n.clone(), c.clone())),
                    _ => None,
                };
                if let Some((n, c)) = hung {
                    let _ = std::fs::write(work.join("hang"), format!("{}\n{}", n, join(&c)));
                    std::process::exit(77);
                }
            }
        });
    }
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
    let o = Opts { thorough, threads, deadline: t0 + Duration::from_secs(cap), known, trace, slots };
    let mut tot = Totals { complete: true, ..Default::default() };
    let mut vios: Vec<Violation> = Vec::new();
    let mut per = Vec::new();
    let all = scenarios(&check, tier);
    for s in all {
        let (t, v) = explore(&s, &o);
        per.push(format!(
            "{{\"scenario\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"max_depth\": {}, \"complete\": {}, \"wall_s\": {:.2}}}",
            esc(&s.name), t.executions - t.skipped, t.states, t.transitions, t.max_depth, t.complete, t.wall
        ));
        eprintln!(
            "[{}] {:<44} executions={} states={} transitions={} depth={} complete={} {:.2}s{}",
            id, s.name, t.executions - t.skipped, t.states, t.transitions, t.max_depth, t.complete, t.wall,
            if v.is_empty() { String::new() } else { format!(" VIOLATIONS={}", v.len()) }
        );
        tot.executions += t.executions;
        tot.skipped += t.skipped;
        tot.states += t.states;
        tot.transitions += t.transitions;
        tot.choice_points += t.choice_points;
        tot.max_depth = tot.max_depth.max(t.max_depth);
        tot.complete &= t.complete;
        tot.samples.extend(t.samples);
        tot.known.extend(t.known);
        for mut x in v.into_iter().take(2) {
            // Replay: same choices, same verdict.
            let e = run_one(&s, &x.choices, thorough, true, known);
            x.notes = e.notes.clone();
            let mode = match &e.result {
                Err(Stop::Fail(m)) => {
                    x.message = m.clone();
                    "single"
                }
                _ => {
                    x.message = format!("result depends on earlier calls in the same process: {}", x.message);
                    "history"
                }
            };
            let p = replay_path(id, vios.len() + 1);
            write_replay(&p, id, tier, mode, &x);
            println!("violation in scenario {}: {}", x.scenario, trunc(&x.message, 600));
            for n in x.notes.iter().take(12) {
                println!("    {}", trunc(n, 300));
            }
            println!("VIOLATION property={} replay={}", id, p.display());
            vios.push(x);
        }
        // decided: in the quick tier there is no need to look for more
        if vios.len() >= 6 || !vios.is_empty() && !thorough && t0.elapsed() > Duration::from_secs(20) {
            tot.complete = false;
            break;
        }
    }
    tot.known.sort();
    tot.known.dedup();
    let variant = std::env::var("MC_VARIANT").unwrap_or_else(|_| "std".into());
    for k in tot.known.iter().filter(|_| variant == "std") {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // Keep the samples few and spread.
    let step = (tot.samples.len() / 12).max(1);
    let samples: Vec<String> = tot.samples.iter().step_by(step).take(14).map(|s| esc(&trunc(s, 400))).collect();
    let other = if variant == "std" {
        let f = other_evidence(id, "plain");
        let o = std::fs::read_to_string(&f).map(|s| format!(",\n  \"release_build_run\": {}", s.trim_end())).unwrap_or_default();
        let _ = std::fs::remove_file(f);
        o
    } else {
        String::new()
    };
    let json = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"choice_points\": {}, \"max_depth\": {}, \"exhaustive\": {}, \"build\": {},\n  \"rule\": \"every choice sequence of every scenario below is executed on the real code; states = distinct observed value vectors, transitions = calls into the library, traces = complete executions compared with the reference model\",\n  \"bounds\": {},\n  \"known_findings_hit\": {},\n  \"scenarios\": [{}],\n  \"samples\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed,
        tot.states, tot.transitions, tot.executions - tot.skipped,
        tot.choice_points, tot.max_depth, tot.complete, esc(&variant),
        esc(check.bounds),
        tot.known.len(),
        per.join(",\n   "),
        samples.join(",\n   "),
        other,
        check.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        vios.len()
    );
    let ev = verif().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if variant != "std" {
        // taken up by the main run that follows
        let d = other_evidence(id, &variant);
        let _ = std::fs::create_dir_all(d.parent().unwrap());
        let _ = std::fs::write(d, &json);
    }
    if (variant == "std" || !vios.is_empty()) && std::fs::write(ev.join(format!("{}.json", id)), json).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!(
        "{} {} [{}]: executions={} states={} transitions={} exhaustive={} violations={} {:.1}s",
        id, tier, variant, tot.executions - tot.skipped, tot.states, tot.transitions, tot.complete, vios.len(), t0.elapsed().as_secs_f64()
    );
    if vios.is_empty() {
        0
    } else {
        1
    }
}

/// Where the run on another build of the library leaves its evidence for the main run.
fn other_evidence(id: &str, variant: &str) -> PathBuf {
    verif().join("mc/target/evidence").join(format!("{}.{}.json", id, variant))
}

fn me() -> PathBuf {
    std::env::current_exe().expect("exe")
}

/// Runs the worker; turns a crash or a hang of the code under test into a confirmed violation.
fn supervise(check: &Check, tier: &str) -> i32 {
    let id = check.id;
    let work = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let r = supervise_in(id, tier, &work);
    let _ = std::fs::remove_dir_all(&work);
    r
}
fn supervise_in(id: &str, tier: &str, work: &Path) -> i32 {
    let run = |trace: Option<&Path>| {
        let mut c = Command::new(me());
        c.arg("worker").arg(tier).arg(work);
        if let Some(t) = trace {
            c.arg(t);
        }
        c.status()
    };
    let st = match run(None) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    match st.code() {
        Some(c @ 0..=2) => return c,
        Some(77) => {
            let h = std::fs::read_to_string(work.join("hang")).unwrap_or_default();
            let mut l = h.lines();
            let v = Violation {
                scenario: l.next().unwrap_or("").into(),
                choices: split(l.next().unwrap_or("")),
                task: vec![],
                message: "the call does not terminate".into(),
                notes: vec![],
            };
            return confirm(id, tier, v);
        }
        _ => {}
    }
    use std::os::unix::process::ExitStatusExt;
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    let fatal = |s: &std::process::ExitStatus| s.signal().is_some_and(|n| [4, 6, 7, 8, 11].contains(&n));
    eprintln!("worker ended abnormally ({}), tracing", st);
    let tdir = work.join("trace");
    let _ = std::fs::create_dir_all(&tdir);
    let again = match run(Some(&tdir)) {
        Ok(s) if matches!(s.code(), Some(0..=2)) => {
            eprintln!("the crash did not repeat");
            return if s.code() == Some(1) { 1 } else { 2 };
        }
        Ok(s) => s,
        Err(_) => return 2,
    };
    let mut last = None;
    for f in std::fs::read_dir(&tdir).into_iter().flatten().flatten() {
        let h = std::fs::read_to_string(f.path()).unwrap_or_default();
        let mut l = h.lines();
        let v = Violation {
            scenario: l.next().unwrap_or("").into(),
            choices: split(l.next().unwrap_or("")),
            task: vec![],
            message: "the process is killed while running the library (memory fault, abort or stack overflow)".into(),
            notes: vec![],
        };
        if confirm(id, tier, v.clone()) == 1 {
            return 1;
        }
        if !v.scenario.is_empty() {
            last = Some(v);
        }
    }
    // Dies every time, but not in one execution alone: damage that only shows later.
    if let (true, true, Some(mut v)) = (fatal(&st), fatal(&again), last) {
        v.message = format!("the process is killed while running the library ({}), twice, after a history of calls", again);
        let p = replay_path(id, 1);
        write_replay(&p, id, tier, "scenario", &v);
        report(id, tier, &v, &p, 0.0);
        return 1;
    }
    2
}
fn report(id: &str, tier: &str, v: &Violation, p: &Path, wall: f64) {
    println!("violation in scenario {} choices {}: {}", v.scenario, join(&v.choices), v.message);
    println!("VIOLATION property={} replay={}", id, p.display());
    // The worker could not write it.
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": {:.1}, \"violations\": 1}}\n",
        esc(id), esc(tier), esc(&format!("{} choices={}: {}", v.scenario, join(&v.choices), v.message)), wall
    );
    let _ = std::fs::create_dir_all(verif().join("evidence"));
    let _ = std::fs::write(verif().join("evidence").join(format!("{}.json", id)), ev);
}
fn confirm(id: &str, tier: &str, v: Violation) -> i32 {
    let p = replay_path(id, 1);
    write_replay(&p, id, tier, "single", &v);
    let mut c = match Command::new(me()).arg("replay").arg(&p).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return 2,
    };
    let t = Instant::now();
    let bad = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.code() != Some(0) && s.code() != Some(2),
            Ok(None) if t.elapsed() > Duration::from_secs(if tier == "thorough" { 240 } else { 90 }) => {
                let _ = c.kill();
                let _ = c.wait();
                break true;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    if bad {
        report(id, tier, &v, &p, t.elapsed().as_secs_f64());
        1
    } else {
        eprintln!("not confirmed: {} {}", v.scenario, join(&v.choices));
        2
    }
}

fn replay(check: &Check, file: &str) -> i32 {
    let body = match std::fs::read_to_string(file) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let (id, tier) = (get("property"), get("tier"));
    let thorough = tier == "thorough";
    if id != check.id {
        eprintln!("replay of {} given to {}", id, check.id);
        return 2;
    }
    let known = load_known();
    let name = get("scenario");
    let choices = split(&get("choices"));
    let scs = scenarios(&check, &tier);
    let Some(s) = scs.iter().find(|s| s.name == name) else {
        eprintln!("no scenario {}", name);
        return 2;
    };
    quiet_panics();
    if get("mode") == "scenario" {
        let slots: &'static [Slot] = Box::leak(vec![Slot { start: Mutex::new(None) }].into_boxed_slice());
        let o = Opts { thorough, threads: 1, deadline: Instant::now() + Duration::from_secs(3600), known, trace: None, slots };
        let (_, v) = explore(s, &o);
        println!("{}", if v.is_empty() { "holds" } else { "FAILS" });
        return !v.is_empty() as i32;
    }
    let e = if get("mode") == "history" {
        replay_history(s, &split(&get("task")), &choices, thorough, known).unwrap_or_else(|| run_one(s, &choices, thorough, true, known))
    } else {
        run_one(s, &choices, thorough, true, known)
    };
    for n in &e.notes {
        println!("{}", n);
    }
    match e.result {
        Err(Stop::Fail(m)) => {
            println!("FAILS: {}", m);
            1
        }
        Ok(()) => {
            println!("holds");
            0
        }
        Err(Stop::Skip) => {
            println!("outside the domain");
            0
        }
    }
}

/// The scenarios of a tier, with the second and later ones of a name numbered.
fn scenarios(check: &Check, tier: &str) -> Vec<Scenario> {
    let mut v = (check.scenarios)(level(check.id, tier));
    for i in 1..v.len() {
        let name = v[i].name.clone();
        let mut k = 1;
        while v[..i].iter().any(|s| s.name == v[i].name) {
            k += 1;
            v[i].name = format!("{}-grid{}", name, k);
        }
    }
    v
}

/// How deep a tier goes: 0 to 3. The checks whose third level is cheap use it on every change.
fn level(id: &str, tier: &str) -> u8 {
    const CHEAP: [&str; 14] = ["C03", "C04", "C09", "C11", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C25", "C27"];
    match tier {
        "thorough" => 3,
        "smoke" => 0,
        _ if CHEAP.contains(&id) => 2,
        _ => 1,
    }
}
