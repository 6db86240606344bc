"""mutate.py FILE [ID...]: informal sensitivity run (development only).  FILE defines M = [(id, prop, path, old, new), ...];
each edit is applied to a scratch copy of /repo bind-mounted over /repo in a private namespace, and the property's quick check is run."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import time

ns = {}
exec(open(sys.argv[1]).read(), ns)
M = [m for m in ns["M"] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
ORIG = {}


def original(path):
    if path not in ORIG:
        p = subprocess.run(["git", "-C", "/repo", "show", f"790bab4:{path}"], capture_output=True)
        ORIG[path] = p.stdout.decode("utf-8", "replace").replace("\r\n", "\n") if p.returncode == 0 else ""
    return ORIG[path]


def run(m):
    mid, prop, path, old, new = m
    w = f"/tmp/mu.{mid}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/v/seeded")
    s = open(f"/repo/{path}", newline="").read()
    if s.count(old) == 0:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    if s.count(old) != 1:
        return f"{mid} {prop} BAD-EDIT occurs {s.count(old)} times"
    mine = [l for l in old.replace("\r\n", "\n").split("\n") if l.strip() and l not in new.replace("\r\n", "\n").split("\n") and l.strip() not in original(path)]
    subprocess.check_call(f"cp -a /repo {w}/repo; find {w}/repo -name __pycache__ -not -path '*/.git/*' -prune -exec rm -rf {{}} +", shell=True)
    open(f"{w}/repo/{path}", "w", newline="").write(s.replace(old, new))
    for x in ("check.sh", "setup.sh", "checks", "vlib", "tools", "known_findings.json", "properties.jsonl", "MANIFEST.json", ".deps"):
        if os.path.exists(f"/verif/{x}"):
            subprocess.check_call(["cp", "-a", f"/verif/{x}", f"{w}/v/"])
    os.makedirs(w + "/v/evidence"); os.makedirs(w + "/v/replays")
    t = time.time()
    p = subprocess.run(["timeout", "900", "unshare", "-rm", "bash", "-c",
                        f"mount --bind {w}/repo /repo; mount --bind {w}/v /verif; cd /verif; VERIF_SEED={os.environ.get('VERIF_SEED', '1')} VERIF_TIER=quick ./check.sh {prop} quick"],
                       capture_output=True, text=True)
    out = p.stdout + p.stderr
    why = next((l for l in out.splitlines() if l.startswith("[")), out.strip().splitlines()[-1] if out.strip() else "")
    shutil.rmtree(w, ignore_errors=True)
    return f"{mid} {prop} {'caught' if p.returncode == 1 else 'MISSED' if p.returncode == 0 else 'rc%d' % p.returncode} {time.time() - t:.0f}s {'(own lines)' if mine else ''} {why[:170]}"


with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for r in ex.map(run, M):
        print(r, flush=True)
