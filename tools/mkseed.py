"""mkseed(id, property, edits, needs, breaks, demo): writes seeded/<id> from textual edits of /repo's HEAD (development aid)."""
import json, os, subprocess, tempfile, shutil
H = "/verif/seeded"
SH = '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
cd /repo
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 %sOMPI_MCA_ess_singleton_isolated=1 MPLBACKEND=Agg OMP_NUM_THREADS=%d LAMBDAPIC_CHECK_UPDATE=0
T=$(mktemp -d); trap 'rm -r "$T"' EXIT; export DEMO_DIR="$T" TMPDIR="$T"
cd "$T"
timeout 280 %s/opt/venv/bin/python "$HERE/demo.py"
'''


def mkseed(id, prop, edits, needs, breaks, demo, jit=False, threads=2, mpi=1):
    d = os.path.join(H, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, a, b in edits:
        p = t + "/r/src/lambdapic/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    run = "" if mpi == 1 else f"mpirun --allow-run-as-root --oversubscribe --bind-to none --mca btl self,vader -n {mpi} "
    sh = SH % ("" if jit else "NUMBA_DISABLE_JIT=1 ", threads, run)
    if mpi > 1:
        sh = sh.replace("OMPI_MCA_ess_singleton_isolated=1 ", "")
    open(d + "/demo.sh", "w").write(sh)
    open(d + "/demo.py", "w").write(demo.strip("\n") + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
