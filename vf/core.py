"""Runs one check: compiles the harnesses against /repo's working tree, records
traces, lets TLC validate them against the specification and model-check the
design, and writes the evidence file."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JAVACLS = os.path.join(BUILD, "java")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=c++11", "-O1", "-w", "-DTHLS_FW_UINT_ON_MASKED_UINT=1",
       "-I" + HARN, "-I" + os.path.join(REPO, "include")]
LIBS = ["-lmpfr", "-lgmp"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class CheckError(Exception):
    """The check itself could not be carried out."""


def java_override():
    """Compiles the BigNat override; '' if there is no Java compiler."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "java.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, "java", "BigNat.java")
        tag = os.path.join(JAVACLS, "tag")
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()
        if os.path.exists(tag) and open(tag).read() == h:
            return JAVACLS
        shutil.rmtree(JAVACLS, ignore_errors=True)
        os.makedirs(JAVACLS)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", JAVACLS, src],
                           capture_output=True, text=True)
        if r.returncode != 0:
            return ""
        open(tag, "w").write(h)
        return JAVACLS


class Shard:
    """One harness program, recording one trace validated by one trace spec."""

    def __init__(self, name, src, spec="TraceFP", args=(), inc=(), timeout=240, group=""):
        self.name, self.src, self.spec, self.args = name, src, spec, [str(a) for a in args]
        self.inc, self.timeout, self.group = list(inc), timeout, group


class Model:
    """One TLC model-checking run of the specification itself."""

    def __init__(self, name, spec, cfg=None, env=None, timeout=600, workers=1, override=True, expect_violation=False,
                 min_states=1, heap="2g"):
        self.name, self.spec, self.cfg = name, spec, cfg or spec
        self.env, self.timeout, self.workers, self.override = env or {}, timeout, workers, override
        self.min_states, self.heap = min_states, heap


def run_tlc(workdir, spec, cfg, env=None, timeout=300, override=True, workers=1, heap="2g", extra=()):
    os.makedirs(workdir, exist_ok=True)
    cls = java_override() if override else ""
    cp = (cls + ":" if cls else "") + TLAJAR
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-fp", "1",
           "-config", os.path.join(SPEC, cfg + ".cfg"), *extra, os.path.join(SPEC, spec + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"rc": -1, "out": "TLC timed out", "ok": False, "error": True, "states": 0, "trans": 0}
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = r.stdout + r.stderr
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", o)
    st = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
    ok = r.returncode == 0 and "No error has been found" in o
    # 0 success; 10..14 violations of assumption/deadlock/safety/liveness/postcondition
    error = not ok and ("MISMATCH" not in o)
    return {"rc": r.returncode, "out": o, "ok": ok, "error": error, "states": st[0], "trans": st[1]}


def sh(cmd, timeout, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=cwd)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as ex:
        return -999, "", "timeout"


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k.get("property") == prop:
                out.append(k)
    return out


class Run:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = os.path.join(VERIF, "replay")
        self.violations = []
        self.results = []
        self.models = []
        self.seen = set()
        self.known = known_findings(prop)
        self.known_hit = set()
        self.extra = {}
        self.known_file = ""
        if self.known:
            self.known_file = os.path.join(self.dir, "known.ndjson")
            with open(self.known_file, "w") as f:
                for k in self.known:
                    for c in k.get("cases", []):
                        f.write(json.dumps(c) + "\n")

    # ------------------------------------------------------------- pipelines
    def tenv(self, trace):
        e = {"TRACE": trace}
        if self.known_file:
            e["KNOWN"] = self.known_file
        return e

    def compile(self, sh_, d):
        src = os.path.join(d, "h.cpp")
        open(src, "w").write(sh_.src)
        exe = os.path.join(d, "h")
        cmd = CXX + ["-I" + i for i in sh_.inc] + [src, "-o", exe] + LIBS
        for attempt in range(2):
            rc, o, e = sh(cmd, 600)
            if rc == 0:
                return exe, None
            if "error:" in e or "undefined reference" in e:
                continue
            time.sleep(1)
        if "error:" in e or "undefined reference" in e:
            return None, e
        raise CheckError("compiler failed on %s: rc=%s %s" % (sh_.name, rc, e[-2000:]))

    def record(self, sh_, d, exe, trace):
        for attempt in range(2):
            rc, o, e = sh([exe, trace, str(SEED)] + sh_.args, sh_.timeout)
            if rc == 0:
                m = re.search(r"CASES (\d+) LINES (\d+) ABORTS (\d+)", o)
                if m:
                    return [int(x) for x in m.groups()], None
            if rc == -9:
                time.sleep(1)
        if rc == -9:
            raise CheckError("recording of %s was killed" % sh_.name)
        return None, "rc=%s %s %s" % (rc, o[-500:], e[-500:])

    def pipeline(self, s):
        d = os.path.join(self.dir, s.name)
        os.makedirs(d, exist_ok=True)
        res = {"shard": s, "viol": None, "cases": 0, "lines": 0, "states": 0, "trans": 0, "t": {}}
        t = time.time()
        exe, err = self.compile(s, d)
        res["t"]["compile"] = round(time.time() - t, 2)
        if err:
            res["viol"] = ("the library rejects at compile time a use the specification allows",
                           {"compiler": err[-6000:]}, None)
            return res
        trace = os.path.join(d, "trace.ndjson")
        t = time.time()
        cnt, err = self.record(s, d, exe, trace)
        res["t"]["record"] = round(time.time() - t, 2)
        if err:
            res["viol"] = ("an operation did not return", {"run": err}, None)
            return res
        res["cases"], res["lines"], res["aborts"] = cnt
        t = time.time()
        tl = run_tlc(d, s.spec, s.spec, env=self.tenv(trace), timeout=800)
        if tl["error"]:
            tl = run_tlc(d, s.spec, s.spec, env=self.tenv(trace), timeout=800)
        res["t"]["tlc"] = round(time.time() - t, 2)
        res["states"], res["trans"] = tl["states"], tl["trans"]
        for m in re.findall(r'<<"KNOWN", (.*?)>>\n', tl["out"]):
            res.setdefault("known", []).append(m)
        ms = re.search(r'<<"SEEN", (\{.*?\})>>\n', tl["out"], re.S)
        if not ms:
            ms = re.search(r'<<\s*"SEEN",\s*(\{.*?\})\s*>>\n', tl["out"], re.S)
        if ms:
            txt = re.sub(r"\s+", " ", ms.group(1))
            res["seen"] = split_set(txt)
        if tl["ok"]:
            res["ok"] = True
            res["sample"] = self.sample(trace)
            self.prefix(s, trace, d, res)
        elif tl["error"]:
            raise CheckError("TLC failed on %s (rc %s): %s" % (s.name, tl["rc"], tl["out"][-3000:]))
        else:
            self.reject(s, d, exe, trace, tl, res)
        if not os.environ.get("VERIF_KEEP"):
            for f in (trace, exe):
                try:
                    os.remove(f)
                except OSError:
                    pass
        return res

    def sample(self, trace):
        with open(trace) as f:
            line = f.readline()
            rest = [f.readline() for _ in range(3)]
        out = []
        for ln in [line] + rest[-1:]:
            if not ln.strip():
                continue
            ev = json.loads(ln)
            if isinstance(ev.get("c"), list):
                ev["c"] = ev["c"][:2]
            s = json.dumps(ev)
            out.append(s if len(s) < 1500 else s[:1500] + "...")
        return out

    def prefix(self, s, trace, d, res):
        """Keeps a few lines for the run without the Java override."""
        with open(trace) as f:
            lines = f.readlines()
        k = max(1, len(lines) // 2)
        res["prefix"] = (s.spec, lines[:1] + lines[k:k + 1])

    def reject(self, s, d, exe, trace, tl, res):
        m = re.search(r'<<\s*"MISMATCH",\s*"line",\s*(\d+)', tl["out"])
        ln = int(m.group(1)) if m else 1
        with open(trace) as f:
            lines = f.readlines()
        # confirm: a second recording rejected again at the same line
        t2 = os.path.join(d, "trace2.ndjson")
        cnt, err = self.record(s, d, exe, t2)
        if err:
            res["viol"] = ("an operation did not return", {"run": err}, None)
            return
        tl2 = run_tlc(d, s.spec, s.spec, env=self.tenv(t2), timeout=800)
        if tl2["ok"]:
            raise CheckError("rejection of %s was not repeatable" % s.name)
        if tl2["error"]:
            raise CheckError("TLC failed on re-run of %s: %s" % (s.name, tl2["out"][-2000:]))
        mm = [re.sub(r"\s+", " ", x) for x in
              re.findall(r'<<\s*"MISMATCH".*?>>\s*\n(?=[A-Z0-9<]|\n|$)', tl["out"], re.S)]
        try:
            os.remove(t2)
        except OSError:
            pass
        res["viol"] = ("the recorded behaviour is not one the specification allows",
                       {"mismatch": mm[:5] or tl["out"][-3000:]},
                       lines[ln - 1] if ln <= len(lines) else None)

    # ------------------------------------------------------------------- run
    def go(self, shards, models=()):
        java_override()
        jobs = []
        # long model runs first
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fm = {ex.submit(self.model, m): m for m in models}
            fs = {ex.submit(self.pipeline, s): s for s in shards}
            for f in cf.as_completed(list(fm) + list(fs)):
                r = f.result()
                if f in fm:
                    self.models.append(r)
                else:
                    self.results.append(r)
                    if os.environ.get("VERIF_VERBOSE"):
                        print("  shard", r["shard"].name, r["t"], r["cases"],
                              "VIOL" if r["viol"] else "", flush=True)
        self.results.sort(key=lambda r: r["shard"].name)
        for r in self.results:
            if r["viol"]:
                self.violation(r)
            for x in r.get("seen", []):
                self.seen.add(x)
            for k in r.get("known", []):
                self.known_hit.add(k)
        if not self.violations:
            self.pure()
        return self.finish()

    def model(self, m):
        d = os.path.join(self.dir, "model_" + m.name)
        t = time.time()
        for attempt in range(2):
            r = run_tlc(d, m.spec, m.cfg, env=m.env, timeout=m.timeout, override=m.override,
                        workers=m.workers, heap=m.heap)
            if r["ok"]:
                break
        if not r["ok"]:
            raise CheckError("model %s failed: %s" % (m.name, r["out"][-4000:]))
        if r["states"] < m.min_states:
            raise CheckError("model %s explored only %d states" % (m.name, r["states"]))
        if os.environ.get("VERIF_VERBOSE"):
            print("  model", m.name, r["states"], r["trans"], round(time.time() - t, 1), flush=True)
        return {"name": m.name, "spec": m.spec, "cfg": m.cfg, "states": r["states"], "trans": r["trans"],
                "wall_s": round(time.time() - t, 1)}

    def pure(self):
        """Revalidates a few recorded lines with the pure TLA+ definitions."""
        bys = {}
        for r in self.results:
            if "prefix" in r:
                bys.setdefault(r["prefix"][0], []).extend(r["prefix"][1])
        n = 0
        jobs = []
        rnd = random.Random(SEED)
        for spec, lines in sorted(bys.items()):
            if len(lines) > 6:
                lines = rnd.sample(lines, 6)
            cut = []
            for ln in lines:
                ev = json.loads(ln)
                lim = ev.get("pure", 12)
                if isinstance(ev.get("c"), list) and len(ev["c"]) > lim and not ev.get("whole"):
                    ev["c"] = ev["c"][:lim]
                if isinstance(ev.get("steps"), list) and not ev.get("whole"):
                    ev["steps"] = ev["steps"][:12]
                cut.append(json.dumps(ev) + "\n")
            if any(json.loads(x).get("whole") for x in cut):
                continue    # a line that depends on its predecessors
            d = os.path.join(self.dir, "pure_" + spec)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "trace.ndjson")
            open(p, "w").writelines(cut)
            jobs.append((spec, d, p, cut))
        def one(j):
            spec, d, p, cut = j
            r = run_tlc(d, spec, spec, env=self.tenv(p), timeout=300, override=False)
            if not r["ok"]:
                raise CheckError("pure TLA+ evaluation disagrees with the override on %s: %s" % (spec, r["out"][-3000:]))
            return sum(len(e["c"]) if isinstance(e.get("c"), list) else len(e.get("steps", [])) for e in map(json.loads, cut))
        with cf.ThreadPoolExecutor(4) as ex:
            for k in ex.map(one, jobs):
                n += k
        self.extra["cases_revalidated_without_override"] = n

    def violation(self, r):
        os.makedirs(self.replay_dir, exist_ok=True)
        s = r["shard"]
        what, detail, line = r["viol"]
        p = os.path.join(self.replay_dir, "%s-%s.json" % (self.prop, s.name))
        json.dump({"property": self.prop, "what": what, "detail": detail, "line": line, "shard": s.name,
                   "spec": s.spec, "seed": SEED, "tier": TIER, "args": s.args, "source": s.src,
                   "how": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --only %s" % (SEED, TIER, self.prop, s.name)},
                  open(p, "w"), indent=1)
        self.violations.append(p)
        d = detail.get("mismatch") or detail.get("run") or detail.get("compiler")
        txt = json.dumps(d)
        print("%s: %s: %s" % (s.name, what, txt[:1500]))

    def finish(self):
        states = sum(r["states"] for r in self.results) + sum(m["states"] for m in self.models)
        trans = sum(r["trans"] for r in self.results) + sum(m["trans"] for m in self.models)
        samples = []
        for r in self.results:
            samples.extend(r.get("sample", []))
        rnd = random.Random(SEED)
        if len(samples) > 6:
            samples = rnd.sample(samples, 6)
        cov = {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": sum(1 for r in self.results if r.get("ok")),
            "recorded_calls_validated": sum(r["cases"] for r in self.results if r.get("ok")),
            "trace_lines": sum(r["lines"] for r in self.results if r.get("ok")),
            "calls_that_aborted": sum(r.get("aborts", 0) for r in self.results),
            "model_runs": [{k: m[k] for k in ("name", "states", "trans", "wall_s")} for m in self.models],
            "kinds_exercised": sorted(self.seen)[:200],
            "samples": samples,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations),
              "assumptions": ["g++ 13 -O1 compiles the harness and library as the project's own build does",
                              "TLC and the BigInteger override of BigNat (cross-checked against the pure definitions)"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        print("%s %s: %d calls in %d traces, %d states, %.1f s" %
              (self.prop, TIER, cov["recorded_calls_validated"], cov["traces_validated_against_impl"],
               states, time.time() - self.t0))
        if self.violations:
            for p in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        return 0


def split_set(txt):
    """Top-level elements of a printed TLA+ set."""
    txt = txt.strip()[1:-1]
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(txt):
        if txt.startswith("<<", i):
            depth += 1
            cur += "<<"
            i += 2
            continue
        if txt.startswith(">>", i):
            depth -= 1
            cur += ">>"
            i += 2
            continue
        if txt[i] == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += txt[i]
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out
