"""mut.py FILE OLD NEW PROP... : one textual change in a scratch copy, then the checks (development aid)."""
import os, shutil, subprocess, sys, tempfile
f, a, b, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
t = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), t + "/repo"], check=True)
p = t + "/repo/src/lambdapic/" + f
s = open(p).read()
a, b = a.encode().decode("unicode_escape"), b.encode().decode("unicode_escape")
if s.count(a) < 1:
    print("NOT FOUND", f, a)
else:
    open(p, "w").write(s.replace(a, b, 1))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for q in props:
        r = subprocess.run(["python3", "check.py", q], cwd=here, env=dict(os.environ, VF_REPO=t + "/repo"), capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if "rejected" in l][:2] or r.stdout.splitlines()[-2:]
        print("==", q, "rc=%d" % r.returncode, a[:40].replace("\n", "~"), "->", b[:60].replace("\n", "~"), "|", " / ".join(x[:230] for x in out), flush=True)
shutil.rmtree(t)
