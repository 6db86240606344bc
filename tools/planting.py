"""Helper to write /verif/seeded/<id>/ from exact text edits (development only; no check uses it)."""
import json, os, shutil, subprocess, sys, textwrap

SEED = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# cwd: the repository root.  Exit 0: behaviour is right; nonzero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
R=$PWD
export PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 PYTHONHASHSEED=0
cd "$W" && /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def plant(pid, prop, edits, needs, breaks, demo):
    d = f"{SEED}/{pid}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mk.{pid}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    files = sorted({f for f, _, _ in edits})
    subprocess.check_call(["git", "init", "-q", w])
    for f in files:
        os.makedirs(os.path.dirname(f"{w}/{f}"), exist_ok=True)
        shutil.copy(f"/repo/{f}", f"{w}/{f}")
    g = ["git", "-c", "core.autocrlf=false", "-C", w]
    subprocess.check_call(g + ["add", "-A", "-f"])
    subprocess.check_call(g + ["-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "b"])
    for f, old, new in edits:
        s = open(f"{w}/{f}", newline="").read()
        if s.count(old) == 0:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            sys.exit(f"{pid}: {f}: text occurs {s.count(old)} times: {old[:80]!r}")
        open(f"{w}/{f}", "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(g + ["diff", "--no-color", "--full-index"])
    open(f"{d}/patch.diff", "wb").write(diff)
    shutil.rmtree(w)
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write("import triton._C.libtriton  # must load before tensorflow\n" + textwrap.dedent(demo))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"])
    print("wrote", pid)
