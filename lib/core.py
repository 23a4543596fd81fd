"""Framework core: scratch build of /repo, driver runs, TLC runs, verdicts, evidence."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, sysconfig, tempfile, time, traceback, uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")  # the override is for development on scratch copies only
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")


class MachineryError(Exception):
    """The check itself could not work (exit 2); never a verdict on the code."""


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _cpu():
    with open("/proc/cpuinfo", encoding="utf-8") as f:
        lines = sorted({l for l in f if l.startswith(("model name", "flags", "cpu family", "model\t"))})
    return hashlib.sha256("".join(lines).encode()).hexdigest()


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("OMPI_", "PMIX_", "NUMBA_")) and k not in ("LAMBDAPIC_USE_SIGMOID_SAMPLING", "PYTHONPATH")}
    env.update(SETUPTOOLS_SCM_PRETEND_VERSION="0.15.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PIP_NO_INDEX="1", PIP_DISABLE_PIP_VERSION_CHECK="1", MPLBACKEND="Agg", CC="mpicc",
               LAMBDAPIC_CHECK_UPDATE="0")
    return env


def build_source(scratch):
    """Copies /repo's working tree into the scratch directory and builds what is stale there.

    Compiled products of /repo are reused only when the recorded hash of their source (and of every
    header, the CPU, the interpreter, setup.py) equals what is in the working tree now.
    """
    tree = os.path.join(scratch, "tree")
    os.makedirs(tree)
    for name in os.listdir(REPO):
        p = os.path.join(REPO, name)
        if name in ("src",):
            shutil.copytree(p, os.path.join(tree, name), ignore=shutil.ignore_patterns("__pycache__", "*.so"), symlinks=True)
        elif os.path.isfile(p) and not name.startswith("."):
            shutil.copy2(p, os.path.join(tree, name))
    try:
        with open(os.path.join(REPO, "build/vp_stamp.json")) as f:
            stamp = json.load(f)
    except (OSError, ValueError):
        stamp = {}
    qed = "src/lambdapic/core/qed/"
    tables = (qed + "optical_depth_tables.py", qed + "optical_depth_tables_sigmoid.py")
    now = {"cpu": _cpu(), "python": sys_version_of_target()}
    for pat in ("src/**/*.h", "setup.py", "pyproject.toml"):
        for rel in glob.glob(pat, root_dir=tree, recursive=True):
            now[rel] = sha(os.path.join(tree, rel))
    reuse_any = bool(stamp) and all(stamp.get(k) == v for k, v in now.items()) and \
        all(k in now or k.endswith(".c") or k in tables for k in stamp)
    need = False
    nreused = ncompiled = 0
    future = time.time() + 5
    for rel in sorted(glob.glob("src/**/*.c", root_dir=tree, recursive=True)):
        stem = rel[:-2]
        sos = glob.glob(os.path.join(REPO, stem + ".*.so"))
        if reuse_any and sos and stamp.get(rel) == sha(os.path.join(tree, rel)):
            dst = os.path.join(tree, os.path.relpath(sos[0], REPO))
            shutil.copy2(sos[0], dst)
            os.utime(dst, (future, future))
            nreused += 1
        else:
            need = True
            ncompiled += 1
    for t in tables:
        npz = os.path.join(tree, t[:-3] + ".npz")
        if stamp.get(t) != (sha(os.path.join(tree, t)) if os.path.exists(os.path.join(tree, t)) else None):
            if os.path.exists(npz):
                os.remove(npz)
            need = True
        elif not os.path.exists(npz):
            need = True
    if need:
        env = base_env()
        env["OMPI_MCA_ess_singleton_isolated"] = "1"
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "8"], cwd=tree, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            raise MachineryError("build failed:\n" + r.stdout[-4000:])
    return os.path.join(tree, "src"), {"extensions_reused": nreused, "extensions_compiled": ncompiled}


_pyver = None


def sys_version_of_target():
    global _pyver
    if _pyver is None:
        _pyver = subprocess.run([PY, "-c", "import sys,sysconfig;print(sys.version+sysconfig.get_config_var('EXT_SUFFIX'),end='')"],
                                stdout=subprocess.PIPE, text=True, check=True).stdout
    return _pyver


def clean(x):
    """JSON that TLC's reader accepts: no nulls, no floats (recorded numbers are integers)."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x if v is not None]
    if isinstance(x, float):
        return repr(x)
    return x


class Hang(Exception):
    """The code under test does not come back; recorded as a violation."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_")
        self.t0 = time.time()
        self.states = self.transitions = self.traces_ok = 0
        self.mc = []            # exhaustive model runs
        self.samples = []
        self.violations = []    # dicts: clause, where, trace
        self.known_seen = []
        self._pool, self._vpool, self._dpool, self._futures, self._ndrive = None, None, None, [], 0
        self.extra = {}
        self.assumptions = []
        self.nevents = 0
        self.src = None

    # ---------------------------------------------------------------- build
    def build(self):
        if self.src is None:
            self.src, info = build_source(self.scratch)
            self.extra["build"] = info
        return self.src

    # --------------------------------------------------------------- drivers
    def drive_many(self, script, job, procs=4, **kw):
        """Like drive, with the scenarios dealt to several processes."""
        from concurrent.futures import ThreadPoolExecutor
        self.build()
        sc = job["scenarios"]
        parts = [sc[i::procs] for i in range(procs) if sc[i::procs]]
        base = os.path.splitext(script)[0]
        self._ndrive += 1
        with ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(lambda ip: self.drive(script, {**job, "scenarios": ip[1]}, tag=f"{base}_{self._ndrive}_{ip[0]}", **kw), enumerate(parts)))
        if any(t.get("died") for r in res for t in r):
            return [t for r in res for t in r]
        return [res[i % len(parts)][i // len(parts)] for i in range(len(sc))]

    def drive(self, script, job, mpi=1, threads=1, jit=False, timeout=300, env=None, tag=None):
        """Runs drivers/<script> on a job (JSON); returns the list of traces it wrote.

        A driver that dies (exception in the code under test, crash, hang) yields a pseudo trace with
        the event "died": the specification has no such action, so it is a rejected trace.
        """
        src = self.build()
        self._ndrive += 1
        tag = tag or f"{os.path.splitext(script)[0]}_{self._ndrive}"
        wd = os.path.join(self.scratch, "run_" + tag)
        os.makedirs(wd, exist_ok=True)
        jobf, outf = os.path.join(wd, "job.json"), os.path.join(wd, "out.json")
        with open(jobf, "w") as f:
            json.dump(job, f)
        e = base_env()
        e.update(PYTHONPATH=src + os.pathsep + DRIVERS, OMP_NUM_THREADS=str(threads), NUMBA_NUM_THREADS=str(max(1, threads)),
                 OPENBLAS_NUM_THREADS="1", VF_SRC=src, VERIF_SEED=str(self.seed))
        if not jit:
            e["NUMBA_DISABLE_JIT"] = "1"
        else:
            e["NUMBA_CACHE_DIR"] = os.path.join(self.scratch, "numba_cache")
        e.update(env or {})
        cmd = [PY, os.path.join(DRIVERS, script), jobf, outf]
        if mpi > 1:
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
                   "-n", str(mpi)] + cmd
            e.pop("OMPI_MCA_ess_singleton_isolated", None)
            e["TMPDIR"] = wd
        else:
            e["OMPI_MCA_ess_singleton_isolated"] = "1"
        t_run = time.time()
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, rc = self._watch(p, outf + ".cur", timeout, self.STALL_JIT if jit else self.STALL)
        self.extra.setdefault("timing", []).append([tag, round(time.time() - t_run, 1)])
        if rc not in (0,):
            if "VF-HARNESS-ERROR" in (out or ""):
                raise MachineryError(f"driver {script}: {out[-3000:]}")
            info = {"rc": rc if isinstance(rc, int) else -999, "what": "hang" if rc == "timeout" else "raised/crashed", "log": (out or "")[-3500:]}
            cur = None
            try:
                with open(outf + ".cur") as f:
                    cur = json.load(f)
            except (OSError, ValueError):
                pass
            if cur is None:
                raise MachineryError(f"driver {script} did not start: {(out or '')[-2500:]}")
            died = {"cfg": {"driver": script, "mpi": mpi, "scenario": cur}, "died": info, "ev": []}
            if rc == "timeout":
                # no time to wait for the next one: the operation never completes
                self.violations.append({"clause": "the code must complete the operation: it hangs", "spec": script, "event": 0, "trace": died})
                raise Hang()
            return [died]
        try:
            with open(outf) as f:
                return json.load(f)
        except (OSError, ValueError) as ex:
            raise MachineryError(f"driver {script} wrote no result: {ex}\n{(out or '')[-2000:]}")

    # one scenario takes seconds: without progress for this long, the code hangs
    STALL, STALL_JIT = 150, 300

    @staticmethod
    def _watch(p, cur, timeout, stall):
        t0 = last = time.time()
        seen = None
        while True:
            try:
                out, _ = p.communicate(timeout=2)
                return out, p.returncode
            except subprocess.TimeoutExpired:
                pass
            try:
                m = os.stat(cur).st_mtime_ns
            except OSError:
                m = None
            now = time.time()
            if m != seen:
                seen, last = m, now
            if now - t0 < timeout and now - last < stall:
                continue
            for sig in (signal.SIGTERM, signal.SIGKILL):
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    pass
                try:
                    out, _ = p.communicate(timeout=10)
                    break
                except subprocess.TimeoutExpired:
                    out = ""
            # processes mpirun left behind
            for d in glob.glob("/proc/[0-9]*"):
                try:
                    with open(d + "/cmdline", "rb") as f:
                        if os.path.dirname(cur).encode() + b"/" in f.read():
                            os.kill(int(d[6:]), signal.SIGKILL)
                except OSError:
                    pass
            return out, "timeout"

    # ------------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, extra_env=None, args=(), workers=8, timeout=600, mem="6g", cwd=None):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        env = base_env()
        env.update(extra_env or {})
        cp = os.pathsep.join([JAR] + [j for j in glob.glob(os.path.dirname(JAR) + "/*.jar") if j != JAR])
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{mem}", "-XX:ParallelGCThreads=4",
               "-DTLA-Library=" + SPEC + os.pathsep + os.path.join(SPEC, "mc"),
               "-cp", cp, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-config", cfg, *args, module]
        try:
            r = subprocess.run(cmd, cwd=cwd or SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timeout on {module}: {(ex.stdout or b'')[-2000:]}")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def _later(self, f, *a, **k):
        """The quick tier runs the models beside the drivers."""
        if self.thorough:
            return f(*a, **k)
        if self._pool is None:
            self._pool = concurrent.futures.ThreadPoolExecutor(max_workers=1)
        self._futures.append(self._pool.submit(f, *a, **k))

    def join(self):
        fs, self._futures = self._futures, []
        for f in fs:
            try:
                f.result()
            except Hang:
                pass

    def model(self, *a, **k):
        self._later(self._model, *a, **k)

    def refute(self, *a, **k):
        self._later(self._refute, *a, **k)

    def _model(self, name, cfg=None, timeout=600, workers=8, args=(), env=None):
        """Exhaustive check of spec/mc/<name>.tla. A failure here is an error of the specification."""
        cfg = cfg or name + ".cfg"
        d = os.path.join(SPEC, "mc")
        t = time.time()
        rc, out = self._tlc(name + ".tla", cfg, workers=workers, timeout=timeout, args=args, cwd=d, extra_env=env)
        g, s = self._counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"model {name}/{cfg} failed (rc={rc}):\n" + out[-4000:])
        self.states += s
        self.transitions += g
        self.mc.append({"model": name, "cfg": cfg, "distinct_states": s, "states_generated": g, "wall_s": round(time.time() - t, 1)})
        return out

    def _refute(self, name, cfg=None, num=3000, depth=80, timeout=120):
        """The deliberately wrong variant of a protocol must be refuted (the property is not vacuous)."""
        rc, out = self._tlc(name + ".tla", cfg or name + ".cfg", timeout=timeout, cwd=os.path.join(SPEC, "mc"),
                            args=("-noGenerateSpecTE", "-simulate", f"num={num}", "-depth", str(depth), "-seed", "1"))
        if rc == 0 or "is violated" not in out:
            raise MachineryError(f"model {name} should have been refuted: {out[-1500:]}")
        self.extra.setdefault("refuted_variants", []).append(name)

    def generate(self, name, cfg=None, env=None, timeout=300, marker="GEN", args=()):
        """Runs a generator specification; returns the JSON values it printed as <<marker, json>>."""
        d = os.path.join(SPEC, "mc")
        rc, out = self._tlc(name + ".tla", cfg or name + ".cfg", workers=1, timeout=timeout, cwd=d, extra_env=env, args=args)
        res = []
        for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % marker, out):
            res.append(json.loads(m.group(1).encode().decode("unicode_escape")))
        if rc not in (0,) or not res:
            raise MachineryError(f"generator {name} failed rc={rc}: {out[-3000:]}")
        g, s = self._counts(out)
        self.states += s
        self.transitions += g
        return res

    def drive_and_check(self, module, script, job, **kw):
        """A drive and the validation of its traces, in the quick tier beside everything else."""
        self.build()
        self._ndrive += 1
        tag = f"{os.path.splitext(script)[0]}_{self._ndrive}b"
        f = lambda: self._check_traces(module, self.drive(script, job, tag=tag, **kw), workers=4, mem="5g")
        if self.thorough:
            return f()
        if self._dpool is None:
            self._dpool = concurrent.futures.ThreadPoolExecutor(max_workers=2)
        self._futures.append(self._dpool.submit(f))

    def check_traces(self, module, traces, shards=1, **kw):
        """Validates traces against spec/<module>.tla; in the quick tier beside the next driver."""
        if self.thorough:
            return self._check_traces(module, traces, shards, **kw)
        if self._vpool is None:
            self._vpool = concurrent.futures.ThreadPoolExecutor(max_workers=2)
        for i in range(shards):
            if traces[i::shards]:
                self._futures.append(self._vpool.submit(self._check_traces, module, traces[i::shards], 1, **{"workers": 4, "mem": "5g", **kw}))

    def _check_traces(self, module, traces, shards=1, timeout=800, workers=8, mem="8g"):
        todo = []
        for t in traces:
            if t.get("died"):
                self.violations.append({"clause": "the code must complete the operation: it " + t["died"]["what"],
                                        "spec": module, "event": 0, "trace": t})
            else:
                todo.append(t)
        if not todo:
            return 0
        accepted = 0
        groups = [todo[i::shards] for i in range(shards)] if shards > 1 else [todo]
        for gi, grp in enumerate(groups):
            if not grp:
                continue
            f = os.path.join(self.scratch, f"tr_{module}_{gi}_{uuid.uuid4().hex}.json")
            with open(f, "w") as fh:
                json.dump([{"cfg": clean(t["cfg"]), "ev": t["ev"]} for t in grp], fh)
            t_run = time.time()
            rc, out = self._tlc(module + ".tla", module + ".cfg", extra_env={"TRACES": f}, timeout=timeout, workers=workers, mem=mem)
            self.extra.setdefault("timing", []).append(["TLC " + module, round(time.time() - t_run, 1)])
            g, s = self._counts(out)
            self.states += s
            self.transitions += g
            rej, acc = {}, set()
            flat = re.sub(r"\s+", " ", out)
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', flat):
                rej.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
            for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', flat):
                acc.add(int(m.group(1)))
            shape_err = re.search(r"(Attempted to [^\n]*|The exception was[^\n]*|In evaluation[^\n]*|[^\n]*is not in the domain of the function[^\n]*)", out) \
                if rc != 0 and "OutOfMemory" not in out and "Parsing or semantic analysis failed" not in out \
                and "JsonDeserialize" not in out else None
            blamed = False
            for i, t in enumerate(grp, 1):
                if i in rej:
                    l, cl = rej[i]
                    self.violations.append({"clause": cl, "spec": module, "event": l, "trace": t})
                elif i in acc:
                    accepted += 1
                    self.nevents += len(t["ev"])
                    if len(self.samples) < 3:
                        self.samples.append({"spec": module, "cfg": t["cfg"], "events": len(t["ev"])})
                elif shape_err:
                    if not blamed:
                        blamed = True
                        self.violations.append({"clause": "recorded behaviour has not the shape the specification allows: " + shape_err.group(1)[:300],
                                                "spec": module, "event": 0, "trace": t})
                else:
                    raise MachineryError(f"TLC gave no verdict on trace {i} of {module} (rc={rc}):\n{out[-5000:]}")
        self.traces_ok += accepted
        return accepted

    # -------------------------------------------------------------- finish
    def known(self):
        known = []
        try:
            with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
                for line in f:
                    line = line.strip()
                    if line and not line.startswith("#") and line.startswith("{"):
                        k = json.loads(line)
                        if k.get("property") == self.prop and k.get("status") == "known":
                            known.append(k)
        except OSError:
            pass
        return known

    def finish(self, level="model_checking"):
        self.join()
        known = self.known()
        new = []
        for v in self.violations:
            ident = (v["trace"].get("cfg") or {}).get("finding")
            k = next((k for k in known if ident is not None and k["id"] == ident and re.search(k["clause"], v["clause"])), None)
            if k:
                if k["id"] not in [x["id"] for x in self.known_seen]:
                    self.known_seen.append(k)
            else:
                new.append(v)
        for k in self.known_seen:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces_ok,
               "events_validated": self.nevents, "samples": self.samples, "models": self.mc, **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new:
            print(f"OK property={self.prop} tier={self.tier} traces={self.traces_ok} states={self.states} wall={ev['wall_s']}s")
            return 0
        rp = os.path.join(VERIF, "evidence", f"replay_{self.prop}.json")
        with open(rp, "w") as f:
            json.dump([{k: v for k, v in x.items()} for x in new[:5]], f, indent=1)
        for x in new[:5]:
            print(f"  rejected by {x['spec']} at event {x['event']}: {x['clause']}")
            c = json.dumps(x["trace"].get("cfg"))
            print("    scenario:", c[:600])
            if x["trace"].get("died"):
                print("    log:", x["trace"]["died"]["log"][-1500:])
        print(f"VIOLATION property={self.prop} replay={os.path.relpath(rp, VERIF)}")
        return 1

    def cleanup(self):
        for pool in (self._pool, self._vpool, self._dpool):
            if pool is not None:
                pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.scratch, ignore_errors=True)
