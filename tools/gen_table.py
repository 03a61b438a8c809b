#!/usr/bin/env python3
"""Instantiates the const-generic statistics for every size that C18 enumerates."""
import os
here = os.path.dirname(os.path.abspath(__file__))
o = ["// Generated by tools/gen_table.py", "use super::c18::{ac, rm, Ac, Rm};"]
combos = []
for n in range(1, 10):
    for m in range(0, n + 1):
        for s in range(0, n - m + 1):
            combos.append((n, m, s))
for n in (10, 11, 12, 13, 16, 17, 18, 33, 64, 67, 129):
    for m in sorted({1, 3, n // 2, n}):
        for s in sorted({0, 1, 6, n - m}):
            if 0 <= s <= n - m: combos.append((n, m, s))
combos = sorted(set(combos))
o.append("pub static AUTO: &[(usize, usize, usize, Ac)] = &[")
o += [f"    ({n}, {m}, {s}, ac::<{n}, {m}, {s}>)," for n, m, s in combos]
o.append("];")
bad = [(3, 4, 0), (3, 2, 2), (3, 0, 4), (8, 8, 1), (8, 5, 4), (1, 1, 1), (4, 1, 4), (16, 9, 8)]
o.append("/// Requests for lags that do not exist.")
o.append("pub static BAD: &[(usize, usize, usize, Ac)] = &[")
o += [f"    ({n}, {m}, {s}, ac::<{n}, {m}, {s}>)," for n, m, s in bad]
o.append("];")
ns = list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1001, 1002, 1003]
o.append("pub static RMS: &[(usize, Rm)] = &[")
o += [f"    ({n}, rm::<{n}>)," for n in ns]
o.append("];")
open(os.path.join(here, "..", "mc/src/checks/c18_table.rs"), "w").write("\n".join(o) + "\n")
print(len(combos), "instances")
