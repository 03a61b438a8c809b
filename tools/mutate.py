#!/usr/bin/env python3
"""Development aid (no check uses it): one-token mutants of /repo's non-test code, run in scratch copies
under /tmp/mut against the checks of the file, then (survivors only) against the stable tests.
usage: mutate.py OUT.jsonl WORKERS [file-substring ...]"""
import re, os, sys, json, subprocess, shutil, threading, queue, time
OUT, W, ONLY = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
SRC = "/repo/sci-rs/src"
MAP = {
 "sosfilt.rs": "C01 C03", "sosfilt_zi.rs": "C02 C03", "lfilter_zi.rs": "C02 C03", "companion.rs": "C23 C02",
 "sosfiltfilt.rs": "C03", "ext.rs": "C04 C03", "savgol_filter.rs": "C15", "zpk2sos.rs": "C05 C10 C07", "cplx.rs": "C05 C10",
 "zpk2tf.rs": "C06 C10", "butter.rs": "C07 C10 C11", "iirfilter.rs": "C11 C07 C08 C09 C10", "bilinear_zpk.rs": "C12 C07",
 "lp2lp_zpk.rs": "C12", "lp2hp_zpk.rs": "C12", "lp2bp_zpk.rs": "C12", "lp2bs_zpk.rs": "C12 C07", "relative_degree.rs": "C12 C07",
 "sos.rs": "C01", "filter_output.rs": "C10", "convolve.rs": "C13", "resample.rs": "C14", "stats.rs": "C16 C17 C18",
 "factorial.rs": "C19 C20", "combinatorics.rs": "C20", "bessel.rs": "C21", "i0.rs": "C21", "chbevl.rs": "C21",
 "wave/mod.rs": "C22", "plot.rs": "C24",
}
def subs(line):
    r = []
    def each(pat, f):
        for m in re.finditer(pat, line):
            n = f(m)
            for x in ([n] if isinstance(n, str) else n):
                t = line[:m.start()] + x + line[m.end():]
                if t != line: r.append(t)
    sw = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "&&": "||", "||": "&&",
          "+=": "-=", "-=": "+=", "*=": "/=", "/=": "*="}
    each(r"(?<= )(\+|-|\*|/|<=|>=|<|>|==|!=|&&|\|\||\+=|-=|\*=|/=)(?= )", lambda m: sw[m.group(1)])
    each(r"(?<![\w.])(\d+)(?![\w.])", lambda m: [str(int(m.group(1)) + 1)] + ([str(int(m.group(1)) - 1)] if int(m.group(1)) else []))
    each(r"(?<![\w.])(\d+\.\d*)(?![\w])", lambda m: [repr(float(m.group(1)) * 1.001 + (0.001 if float(m.group(1)) == 0 else 0)), repr(float(m.group(1)) + 1)])
    each(r"(?<!\w)(-?\d\.\d{6,}(?:[eE][-+]?\d+)?)", lambda m: re.sub(r"\.(\d{7})(\d)", lambda k: "." + k.group(1) + str((int(k.group(2)) + 1) % 10), m.group(1)))
    each(r"\.\.=", lambda m: "..")
    each(r"(?<=[\w)])\.\.(?=[\w(])", lambda m: "..=")
    each(r"\btrue\b", lambda m: "false"); each(r"\bfalse\b", lambda m: "true")
    for a, b in [("min", "max"), ("sin", "cos"), ("first", "last"), ("next", "last"), ("re", "im"), ("floor", "ceil"), ("all", "any"), ("sinh", "cosh"), ("is_some", "is_none"), ("is_empty", "is_sorted"), ("zi0", "zi1"), ("rows", "columns"), ("nrows", "ncols")]:
        for x, y in ((a, b), (b, a)): each(r"(?<=\.)%s\b(?!\w)" % x, lambda m, y=y: y)
    for a, b in [("zero", "one"), ("one", "zero")]: each(r"(?<=::)%s\(\)" % a, lambda m, b=b: b + "()")
    each(r"\.rev\(\)|\.conj\(\)|\.abs\(\)|\.skip\(\w+\)|\.sqrt\(\)|\.cloned\(\)\.rev\(\)", lambda m: "")
    each(r"(?<=[(= ])-(?=[\w(])", lambda m: "")
    each(r"!(?=[\w(])", lambda m: "")
    if re.match(r"^\s*[\w.\[\]*]+ [-+*/]?= .*;$", line) or re.match(r"^\s*[\w.:]+\(.*\);$", line): r.append("")
    return r
jobs = []
for root, _, fs in os.walk(SRC):
    for f in sorted(fs):
        p = os.path.join(root, f); rel = os.path.relpath(p, SRC)
        key = next((k for k in MAP if rel == k or rel.endswith("/" + k)), None)
        if key is None or (ONLY and not any(o in rel for o in ONLY)): continue
        seen = False
        L = open(p).read().split("\n")
        for i, l in enumerate(L):
            if "#[cfg(test)]" in l: break
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "pub use", "mod ", "/*", "*")): continue
            code = l.split("//")[0].rstrip()
            for t in dict.fromkeys(subs(code)): jobs.append((rel, i, l, t, MAP[key].split()))
print(len(jobs), "mutants"); sys.stdout.flush()
q = queue.Queue(); [q.put(j) for j in jobs]
lock = threading.Lock(); out = open(OUT, "a"); done = [0]
NC = os.cpu_count()
def worker(k):
    D = f"/tmp/mut/{k}"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    subprocess.run(["git", "clone", "-q", "/repo", D + "/repo"], check=True)
    os.makedirs(D + "/verif"); shutil.copytree("/verif/mc", D + "/verif/mc", ignore=shutil.ignore_patterns("target"))
    shutil.copy("/verif/known_findings.txt", D + "/verif/")
    ct = D + "/verif/mc/Cargo.toml"; s = open(ct).read().replace("/repo/sci-rs", D + "/repo/sci-rs"); open(ct, "w").write(s)
    per = max(1, NC // W); cores = ",".join(str((k * per + c) % NC) for c in range(per))
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="-C target-cpu=x86-64 -A warnings", MC_VERIF=D + "/verif", MC_CAP_S="120")
    def sh(cmd, cwd, to, target):
        e = dict(env, CARGO_TARGET_DIR=target)
        p = subprocess.Popen(["taskset", "-c", cores, "bash", "-c", "ulimit -v 12000000; " + cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try: o, _ = p.communicate(timeout=to); return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
    while True:
        try: rel, i, old, new, checks = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(D, "repo/sci-rs/src", rel); L = open(p).read().split("\n"); orig = "\n".join(L)
        assert L[i] == old; L[i] = new; open(p, "w").write("\n".join(L))
        v = "SURVIVED"
        bins = " ".join("--bin " + c.lower() for c in checks)
        rc, o = sh(f"cargo build --release --offline {bins}", D + "/verif/mc", 300, D + "/vt")
        if rc: v = "nobuild"
        else:
            for c in checks:
                rc, o = sh(f"{D}/vt/release/{c.lower()} run smoke", D, 400, D + "/vt")
                if rc == 1: v = "killed " + c; break
                if rc != 0: v = f"odd {c} rc={rc} {o[-200:]}"; break
            if v == "SURVIVED":
                rc, o = sh("cargo test --offline --all-features --lib -q 2>&1 | tail -30", D + "/repo", 300, D + "/tt")
                if "test result: ok" not in o: v = "tests"
        open(p, "w").write(orig)
        with lock:
            done[0] += 1
            out.write(json.dumps({"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "v": v}) + "\n"); out.flush()
            if done[0] % 50 == 0: print(done[0], "of", len(jobs)); sys.stdout.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree("/tmp/mut", ignore_errors=True)
