#!/usr/bin/env python3
"""determinism.py [RUNS]: every execution is decided by its seed alone.  Executes
the same RUNS runs of each property several times, with 1, 3 and 8 workers and
under load, each time in fresh processes, and compares the hashes of the event
histories (every scheduling decision, fault, outcome and result)."""
import os, struct, subprocess, sys, tempfile

import check

HERE = os.path.dirname(os.path.abspath(__file__))
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 480
engines = {}


def execute(prop, nw, tmp):
    kind = check.Python if prop in ("C18", "C27") else check.Cpp
    if kind not in engines: engines[kind] = check.build(kind)
    e = engines[kind]
    ps = []
    for w in range(nw):
        cmd = e.worker(prop, 77, w + 40, nw, 100000,  # few of the slow runs on large meshes
                       os.path.join(tmp, str(w)))
        cmd = cmd + [str(runs // nw)] if kind is check.Python else cmd[:-2] + [str(runs // nw), cmd[-1]]
        ps.append(subprocess.Popen(cmd, env=e.env))
    if any(p.wait() for p in ps):
        sys.exit(f"{prop}: a worker failed")
    out = []
    for w in range(nw):
        raw = open(os.path.join(tmp, f"{w}.hash"), "rb").read()
        out += struct.unpack(f"<{len(raw) // 8}Q", raw)
    return sorted(out)


total = 0
for prop in ["C%02d" % k for k in range(1, 32) if k not in (20, 21, 22)]:
    with tempfile.TemporaryDirectory() as tmp:
        ref = execute(prop, 8, tmp)
        for nw in (8, 3, 1):
            if execute(prop, nw, tmp) != ref:
                sys.exit(f"{prop}: {nw} workers give other histories")
    total += len(ref)
    print(f"{prop}: {len(ref)} histories identical in 4 executions with 8, 8, 3 and 1 workers", flush=True)
print(f"{total} histories compared")
