#!/usr/bin/env python3
"""Writes mc/src/bin/cNN.rs (one small program per property, so that a check only builds what it needs)."""
import os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, "..", "mc", "src")
def deps(m, seen):
    if m in seen: return
    seen.add(m)
    for d in re.findall(r"super::([a-z0-9_]+)", open(os.path.join(src, "checks", m + ".rs")).read()):
        deps(d, seen)
os.makedirs(os.path.join(src, "bin"), exist_ok=True)
for f in sorted(glob.glob(os.path.join(src, "checks", "c[0-9][0-9].rs"))):
    m = os.path.basename(f)[:-3]
    s = set(); deps(m, s)
    o = "// Generated by tools/gen_bins.py.\n#![allow(dead_code, unused_imports)]\npub use mc::{engine, ensure, guard, num, Check};\n"
    for d in sorted(s): o += f'#[path = "../checks/{d}.rs"]\nmod {d};\n'
    o += "#[global_allocator]\nstatic ALLOC: guard::Guard = guard::Guard;\n"
    drv = f"Some({m}::driver)" if "pub fn driver" in open(f).read() else "None"
    o += f"fn main() {{\n    mc::main_with({m}::check(), {drv})\n}}\n"
    open(os.path.join(src, "bin", m + ".rs"), "w").write(o)
