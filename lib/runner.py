"""Common machinery of the checks: running TLC, running recorders against /repo, verdicts, evidence.

A check of property X consists of
  1. model checking  - TLC explores the specification exhaustively within the bounds of a .cfg;
  2. generation      - TLC enumerates behaviours / cases of the specification (ndjson on stdout);
  3. recording       - a harness replays them into the real code in /repo and records what happened;
  4. trace checking  - TLC evaluates the recorded trace against the specification, step by step.
Only step 4 can produce a violation; trouble in any other step is an error of the machinery (exit 2).
"""
import concurrent.futures
import fcntl
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parents[1]
SPEC = VERIF / "spec"
BUILD = VERIF / "build"
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
IMPL_PY = os.environ.get("VERIF_IMPL_PYTHON", "/opt/venv/bin/python")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VERIF_JOBS", "8"))


class MachineryError(Exception):
    pass


def ensure_java():
    """Compile the Java meaning of module Dec (module overrides) if needed."""
    BUILD.mkdir(exist_ok=True)
    src = VERIF / "java" / "Dec.java"
    cls = BUILD / "classes" / "Dec.class"
    with open(BUILD / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = BUILD / "classes" / "Dec.src"
        if cls.exists() and stamp.exists() and stamp.read_bytes() == src.read_bytes():
            return cls.parent
        cls.parent.mkdir(parents=True, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA_JARS, "-d", str(cls.parent), str(src)],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac failed: " + r.stderr)
        stamp.write_bytes(src.read_bytes())
    return cls.parent


class Ctx:
    """State of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = 0
        self.notes = []
        self.runs = []
        self.violations = []
        self.classes = None

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=600, extra=(), xmx="3g", tag=None):
        if self.classes is None:
            self.classes = ensure_java()
        tag = tag or module
        d = pathlib.Path(tempfile.mkdtemp(prefix=f"tlc_{tag}_", dir=self.scratch))
        cfg = cfg or f"{module}.cfg"
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss16m", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={d}",
               "-cp", f"{self.classes}:{TLA_JARS}", "tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(d / "meta"),
               "-workers", str(workers), "-config", str(SPEC / cfg), *extra, str(SPEC / f"{module}.tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["SPECDATA"] = str(SPEC / "data")
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}/{cfg} after {timeout}s")
        finally:
            shutil.rmtree(d / "meta", ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def _stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m2:
                g = int(m2[-1].replace(",", ""))
                return g, g
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg=None, env=None, timeout=600, workers=NCPU, extra=(), xmx="6g"):
        """Exhaustive exploration of the specification itself. A failure is a defect of the specification."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env, workers=workers, timeout=timeout, extra=extra, xmx=xmx)
        g, d = self._stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"model checking {module}/{cfg} failed (rc={rc}):\n" + out[-4000:])
        self.states += d
        self.transitions += g
        self.runs.append({"model": cfg or module, "distinct_states": d, "states_generated": g,
                          "wall_s": round(time.time() - t, 1)})
        self.log(f"model {cfg or module}: {d} distinct states, {g} generated")
        return out

    def must_fail(self, module, cfg, what):
        """A wrong design of the model, which TLC has to refute: the property is not vacuous on the model."""
        t = time.time()
        rc, out = self.tlc(module, cfg, xmx="6g")
        if rc == 0 or not re.search(r"(Invariant|property) \w+ is violated", out):
            raise MachineryError(f"the wrong design {module}/{cfg} was not refuted (rc={rc}):\n" + out[-2000:])
        self.runs.append({"refuted_design": cfg, "by": what, "wall_s": round(time.time() - t, 1)})
        self.log(f"wrong design {cfg}: refuted by {what}")

    def generate(self, module, cfg=None, env=None, timeout=600, simulate=None, depth=None, xmx="3g", sample=None):
        """Behaviours/cases exported by TLC: every PrintT line that starts with '@@' + JSON."""
        t = time.time()
        extra = ["-deadlock"]
        if simulate:
            extra = ["-deadlock", "-simulate", f"num={simulate}", "-seed", str(self.seed)] + (["-depth", str(depth)] if depth else [])
        rc, out = self.tlc(module, cfg, env, workers=1, timeout=timeout, extra=extra, xmx=xmx)
        if rc != 0:
            raise MachineryError(f"generation {module}/{cfg} failed (rc={rc}):\n" + out[-4000:])
        g, d = self._stats(out)
        self.states += d
        self.transitions += g
        cases = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                cases.append(json.loads(json.loads(line)[2:]))
        if sample and len(cases) > sample:
            cases = random.Random(self.seed).sample(cases, sample)
        self.runs.append({"generator": cfg or module, "behaviours": len(cases), "states": d,
                          "wall_s": round(time.time() - t, 1)})
        self.log(f"generated {len(cases)} behaviours from {cfg or module}")
        if not cases:
            raise MachineryError(f"generator {module}/{cfg} produced nothing:\n{out[-2000:]}")
        return cases

    # ------------------------------------------------------------ recording
    def impl_env(self, home=None):
        home = pathlib.Path(home or tempfile.mkdtemp(prefix="home_", dir=self.scratch))
        (home / "tmp").mkdir(exist_ok=True)
        env = {k: v for k, v in os.environ.items()
               if k in ("PATH", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER")}
        env.update(HOME=str(home), XDG_DATA_HOME=str(home / "share"), XDG_CONFIG_HOME=str(home / "cfg"),
                   XDG_CACHE_HOME=str(home / "cache"), TMPDIR=str(home / "tmp"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=f"{REPO}:{VERIF / 'harness'}", VERIF_REPO=str(REPO), OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", VERIF_SCRATCH=str(home), PYTHONWARNINGS="ignore",
                   MPLCONFIGDIR=str(home / "mpl"))
        return env

    def record(self, script, cases=None, shards=1, args=(), timeout=600, seed=None):
        """Run harness/<script> against /repo; returns the list of recorded events (dicts).

        The harness reads cases (ndjson) and writes events (ndjson).  With shards > 1 the cases are
        dealt round-robin to that many processes (each with its own HOME/TMPDIR).
        """
        t = time.time()
        jobs = []
        for s in range(shards):
            d = pathlib.Path(tempfile.mkdtemp(prefix=f"rec{s}_", dir=self.scratch))
            cin, cout = d / "cases.ndjson", d / "trace.ndjson"
            if cases is not None:
                with open(cin, "w") as f:
                    for c in cases[s::shards]:
                        f.write(json.dumps(c) + "\n")
            cmd = [IMPL_PY, "-B", str(VERIF / "harness" / script), "--out", str(cout), "--seed",
                   str(self.seed if seed is None else seed), "--tier", self.tier, "--shard", str(s),
                   "--shards", str(shards), *map(str, args)]
            if cases is not None:
                cmd += ["--cases", str(cin)]
            jobs.append((cmd, d, cout))

        def one(job):
            cmd, d, cout = job
            r = subprocess.run(cmd, cwd=d, env=self.impl_env(d), capture_output=True, text=True, timeout=timeout)
            return r, cout

        events = []
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            try:
                results = list(ex.map(one, jobs))
            except subprocess.TimeoutExpired:
                raise MachineryError(f"recorder {script} timed out")
        for s, (r, cout) in enumerate(results):
            evs = []
            if cout.exists():
                with open(cout) as f:
                    evs = [json.loads(x) for x in f if x.strip()]
            if r.returncode != 0:
                crash = next((e for e in evs if e.get("event") == "recorder-crash"), None)
                if crash and (crash.get("in_repo") or crash.get("odd_result")):
                    # the implementation raised where it must not, or its result does not have the form it must have
                    self.violations.append({"clause": "uncaught-error-in-implementation" if crash.get("in_repo")
                                            else "result-of-unexpected-form", "event": crash})
                    evs = [e for e in evs if e is not crash]
                else:
                    raise MachineryError(f"recorder {script} failed rc={r.returncode}\n{r.stderr[-3000:]}")
            for e in evs:
                e["h"] = f"{s}:{e.get('h', 0)}"
            events.extend(evs)
        self.samples += len(cases) if cases is not None else len(events)
        self.runs.append({"recorder": script, "cases": len(cases) if cases is not None else None,
                          "events": len(events), "wall_s": round(time.time() - t, 1)})
        self.log(f"recorded {len(events)} events with {script}")
        return events

    # ------------------------------------------------------- trace checking
    def validate(self, module, events, cfg=None, shards=NCPU, timeout=800, env=None, xmx="3g", chunk=None):
        """TLC evaluates the recorded events against the specification; collects failing clauses."""
        t = time.time()
        cfg = cfg or "Trace.cfg"
        if not events and self.violations:
            return []
        if not events:
            raise MachineryError("empty trace for " + module)
        groups, order = {}, []
        for e in events:
            if e["h"] not in groups:
                groups[e["h"]] = []
                order.append(e["h"])
            groups[e["h"]].append(e)
        bins = [[] for _ in range(max(1, min(shards, len(order))))]
        size = [0] * len(bins)
        for h in order:
            i = size.index(min(size))
            bins[i].extend(groups[h])
            size[i] += sum(e.get("cost", 1) for e in groups[h])
        files = []
        for i, b in enumerate(bins):
            p = self.scratch / f"{module}_{i}_{int(time.time()*1e6)}.ndjson"
            with open(p, "w") as f:
                for e in b:
                    f.write(json.dumps(e) + "\n")
            files.append((p, b))

        def one(pb):
            p, b = pb
            en = dict(env or {})
            en["TRACE"] = str(p)
            return self.tlc(module, cfg, en, workers=1, timeout=timeout, extra=["-deadlock"], xmx=xmx)

        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(one, files))
        bad = []
        for (p, b), (rc, out) in zip(files, outs):
            consumed = re.findall(r'"CONSUMED (\d+)"', out)
            fails = [json.loads(json.loads(x)[2:]) for x in out.splitlines() if x.startswith('"@!')]
            for f in fails:
                for cl in f["clauses"]:
                    bad.append({"clause": cl, "event": b[f["line"] - 1], "module": module})
            if not consumed or int(consumed[-1]) != len(b):
                m = re.findall(r"/\\ l = (\d+)", out) or re.findall(r"\nl = (\d+)", out)
                if "Error" in out and m and rc != 0:
                    ln = min(int(m[-1]), len(b))
                    bad.append({"clause": "observation-outside-the-specification", "event": b[ln - 1],
                                "module": module, "tlc": out[-1500:]})
                else:
                    raise MachineryError(f"trace check {module} did not complete (rc={rc})\n{out[-3000:]}")
            g, d = self._stats(out)
            self.states += d
            self.transitions += g
        self.traces += len(order)
        self.events += len(events)
        self.runs.append({"trace_spec": module, "events": len(events), "histories": len(order),
                          "failing": len(bad), "wall_s": round(time.time() - t, 1)})
        self.log(f"trace check {module}: {len(events)} events, {len(order)} histories, {len(bad)} failing clauses")
        self.violations.extend(bad)
        return bad

    # --------------------------------------------------------------- verdict
    def finish(self, level, assumptions, known):
        known = [k for k in known if k.get("property") == self.prop and not k.get("fixed")]
        fresh, seen_known = [], {}
        for v in self.violations:
            k = next((k for k in known if v["clause"] == k["clause"] and
                      all(str(v["event"].get(a)) == str(b) for a, b in k.get("match", {}).items())), None)
            if k:
                seen_known[k["text"]] = seen_known.get(k["text"], 0) + 1
            else:
                fresh.append(v)
        for text in seen_known:
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events": self.events,
                           "samples": self.samples, "runs": self.runs, "notes": self.notes},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh), "assumptions": assumptions}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        rc = 0
        if fresh:
            rd = VERIF / "replay"
            rd.mkdir(exist_ok=True)
            rp = rd / f"{self.prop}_{self.tier}_{self.seed}.json"
            by = {}
            for v in fresh:
                by.setdefault(v["clause"], []).append(v)
            rp.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed,
                                      "repo": str(REPO), "clauses": {c: len(x) for c, x in by.items()},
                                      "examples": {c: x[:5] for c, x in by.items()}}, indent=1, default=str))
            for c, x in by.items():
                e = x[0]["event"]
                short = json.dumps({k: e[k] for k in list(e)[:14]}, default=str)[:700]
                print(f"  clause {c} failed {len(x)} time(s), e.g. {short}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            rc = 1
        self.cleanup()
        self.log(f"done rc={rc}")
        return rc

    def cleanup(self):
        # only ever touches what is inside the scratch directory: no change of permissions on the way,
        # a process that is just ending may still be writing there, hence the second attempt
        if os.environ.get("VERIF_KEEP") != "1":
            for _ in range(3):
                shutil.rmtree(self.scratch, ignore_errors=True)
                if not os.path.lexists(self.scratch):
                    break
                time.sleep(0.3)
