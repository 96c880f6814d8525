"""Shared machinery of all checks: tiers, seeds, drivers, TLC runs, evidence.

A check is a module ``checks/<id>.py`` with

    LEVEL, RULE           # text for the evidence
    def run(ctx): ...     # uses ctx.model(), ctx.drive(), ctx.validate()

Outcome: ``ctx.violations`` non-empty -> exit 1 + VIOLATION line.
Machinery errors raise MachineryError -> exit 2.
"""

import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PARCE_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NPROC = max(2, min(8, os.cpu_count() or 2))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised in a driver when the code under test used too much CPU time."""


# ---------------------------------------------------------------- guards

def _on_alarm(signum, frame):
    raise Hang("CPU time limit")


class cpu_limit:
    """Raise Hang in the main thread when the block uses > seconds CPU time."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _on_alarm)
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def exc_name(e):
    return type(e).__name__


def where(e):
    """Short description of an exception, with the deepest frame in parce."""
    tb = traceback.extract_tb(e.__traceback__)
    loc = ""
    for f in tb:
        if "/parce/" in f.filename:
            loc = " at %s:%s" % (os.path.basename(f.filename), f.name)
    return "%s(%s)%s" % (type(e).__name__, str(e)[:120], loc)


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.round = 0
        self.violations = []      # dicts: clause, detail, case
        self.notes = []
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "models": [], "validations": []}
        self.assumptions = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rounds(self, n, quick=1, limit=700):
        """Repeat the body with new seeds (in the quick tier ``quick`` times),
        until the time limit is reached or a violation is found."""
        for self.round in range(quick if self.quick else n):
            yield self.round
            if self.violations or time.time() - self.t0 > (250 if self.quick else limit):
                break

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, clause, detail, case=None):
        self.violations.append({"clause": clause, "detail": detail, "case": case})

    # -- model checking ----------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=600, extra=(),
            heap="6g", tag=None):
        """Run TLC on spec/<module>.tla with config text ``cfg``."""
        tag = tag or module
        cfgfile = os.path.join(self.work, tag + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        meta = os.path.join(self.work, "meta_" + tag)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-nowarning",
               "-noGenerateSpecTE", "-config", cfgfile, *extra,
               os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=self.work, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired as x:
            raise MachineryError("TLC timeout on %s" % tag)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        with open(os.path.join(self.work, tag + ".out"), "w") as f:
            f.write(out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return TLCResult(p.returncode, out, gen, dist, time.time() - t)

    def model(self, module, cfg, timeout=600, expect_min=1, tag=None, **kw):
        """Exhaustively check the design model; its failure is a machinery
        error (the model does not depend on the code)."""
        if os.environ.get("VERIF_NOMODEL"):     # only for campaigns over many mutants
            return None
        r = self.tlc(module, cfg, timeout=timeout, extra=("-deadlock",) if kw.pop("no_deadlock", True) else (), tag=tag, **kw)
        if r.rc != 0 or "Model checking completed. No error has been found" not in r.out:
            raise MachineryError("design model %s failed:\n%s" % (module, r.out[-3000:]))
        if r.distinct < expect_min:
            raise MachineryError("design model %s vacuous: %d states" % (module, r.distinct))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"model": tag or module, "states": r.distinct,
                                   "transitions": r.generated, "wall_s": round(r.wall, 1)})
        self.log("model %s: %d distinct states, %.1fs" % (tag or module, r.distinct, r.wall))
        return r

    # -- conformance -------------------------------------------------------

    def validate(self, module, data, cases, what, cfg=None, timeout=700, tag=None, workers=NPROC):
        """Let TLC judge ``data["traces"]`` with trace spec ``module``.

        The trace spec prints  <<"BAD", t, l, clause, detail>>  for every
        rejected trace t (1-based) at line l and "BAD"s are violations. Every
        accepted trace contributes  Len(trace)+1  distinct states; the total is
        verified, so a trace that was not looked at is a machinery error.
        ``cases[t-1]`` describes the input of trace t for the replay file.
        """
        tag = tag or module
        traces = data["traces"]
        if not traces:
            raise MachineryError("no traces for " + tag)
        fn = os.path.join(self.work, tag + ".json")
        with open(fn, "w") as f:
            json.dump(data, f, separators=(",", ":"))
        if cfg is None:
            cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        r = self.tlc(module, cfg, env={"TRACE_FILE": fn}, timeout=timeout, tag=tag, workers=workers)
        if r.rc != 0 or "Model checking completed. No error has been found" not in r.out:
            if re.search(r"Attempted to|In applying the function|evaluating the (expression|nested)", r.out):
                # a recorded value has a type the specification does not allow
                m = re.search(r"Error: .*", r.out, re.S)
                self.violation("IllTyped", "%s: recorded values are outside the specification's types: %s"
                               % (what, (m.group(0) if m else r.out)[:1500]), {"case": None})
                return {}
            raise MachineryError("trace validation %s failed (rc %d):\n%s" % (tag, r.rc, r.out[-4000:]))
        bad = {}
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"(.*?)>>\s*$', r.out, re.M | re.S):
            bad.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3), m.group(4).strip(", \n")[:1500]))
        expected = 0
        for t, tr in enumerate(traces, 1):
            n = len(tr["ev"])
            expected += (bad[t][0] if t in bad else n) + 1
        if r.distinct != expected:
            raise MachineryError("trace validation %s incomplete: %d states, expected %d\n%s"
                                 % (tag, r.distinct, expected, r.out[-2000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["validations"].append({"what": what, "traces": len(traces),
                                        "events": sum(len(t["ev"]) for t in traces),
                                        "rejected": len(bad), "wall_s": round(r.wall, 1)})
        for t, (l, clause, det) in sorted(bad.items()):
            self.violation(clause, "%s: trace %d line %d %s" % (what, t, l, det[:400]),
                           {"case": cases[t - 1] if cases else None, "line": l,
                            "trace": traces[t - 1], "validator": module,
                            "spec_detail": det})
        self.log("validated %d traces (%d events) with %s: %d rejected, %.1fs"
                 % (len(traces), sum(len(t["ev"]) for t in traces), tag, len(bad), r.wall))
        return bad

    def sample(self, obj, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    # -- drivers -----------------------------------------------------------

    def drive(self, fn, jobs, wall=300, procs=NPROC):
        """Run fn(job) for every job in forked processes; return results in
        order. A job that dies or exceeds the wall time limit gives a Lost
        object, so the check decides what that means."""
        jobs = list(jobs)
        results = [None] * len(jobs)
        mp = multiprocessing.get_context("fork")
        pending = list(range(len(jobs)))[::-1]
        running = {}
        while pending or running:
            while pending and len(running) < procs:
                i = pending.pop()
                out = os.path.join(self.work, "job%d.json" % i)
                p = mp.Process(target=_job, args=(fn, jobs[i], out), daemon=False)
                p.start()
                running[i] = (p, time.time(), out)
            for i, (p, t, out) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    del running[i]
                    try:
                        with open(out) as f:
                            r = json.load(f)
                        os.unlink(out)
                    except (OSError, ValueError):
                        r = {"err": "driver process died with exit code %s" % p.exitcode}
                    if "err" in r:
                        results[i] = Lost(r["err"])
                    else:
                        results[i] = r["res"]
                elif time.time() - t > wall:
                    p.kill()
                    p.join()
                    del running[i]
                    results[i] = Lost("wall time limit (%ss)" % wall)
            time.sleep(0.01)
        return results

    def collect(self, fn, njobs, extra=(), wall=400):
        """Drive fn((seed, quick, *extra)) njobs times; every result is a list
        of {"case":…, "ev":[…], …} traces. A lost job is a violation: every
        driver bounds and records what the code under test does, so what is
        left is the code hanging uninterruptibly or killing the process."""
        jobs = [(self.seed * 5000 + self.round * 60 + i, self.quick, *extra) for i in range(njobs)]
        traces = []
        for j, r in zip(jobs, self.drive(fn, jobs, wall=wall)):
            if isinstance(r, Lost):
                if r.why.startswith("driver error"):
                    if '/parce/' not in r.why and not re.search(
                            r"^(Type|Attribute|Value|Index|Key|Assertion)Error\b", r.why, re.M):
                        raise MachineryError("driver %s: %s" % (fn.__name__, r.why))
                    # raised by the code under test, or by the driver on a
                    # value that it returned and that is of no allowed type
                    self.violation("Exception", "driver %s(%r): %s" % (fn.__name__, j, r.why[-800:]),
                                   {"case": {"driver": fn.__name__, "job": j}})
                    continue
                self.violation("Terminates", "driver %s(%r): %s" % (fn.__name__, j, r.why),
                               {"case": {"driver": fn.__name__, "job": j}})
            else:
                traces.extend(r)
        return traces

    # -- finish ------------------------------------------------------------

    def finish(self, level, rule, known=()):
        """Write the evidence, print the verdict, return the exit code."""
        new = []
        for v in self.violations:
            k = next((k for k in known if k["match"](v)), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                new.append(v)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": level, "coverage": dict(self.cov, rule=rule),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            clauses = {}
            for v in new:
                clauses[v["clause"]] = clauses.get(v["clause"], 0) + 1
            path = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "clauses": clauses, "violations": new[:20]}, f, indent=1, default=str)
            for v in new[:5]:
                print("  clause %s: %s" % (v["clause"], str(v["detail"])[:600]))
            print("  clauses violated: %s" % clauses)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        print("OK property=%s %s" % (self.pid, json.dumps(
            {k: v for k, v in self.cov.items() if isinstance(v, int)})), flush=True)
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


class Lost:
    def __init__(self, why):
        self.why = why


class TLCResult:
    def __init__(self, rc, out, generated, distinct, wall):
        self.rc, self.out, self.generated, self.distinct, self.wall = rc, out, generated, distinct, wall


def _job(fn, job, out):
    fd = os.open(os.devnull if not os.environ.get("VERIF_KEEP") else out + ".err",
                 os.O_WRONLY | os.O_CREAT)
    os.dup2(fd, 2)
    try:
        res = {"res": fn(job)}
    except Hang as e:
        res = {"err": "hang"}
    except BaseException as e:
        res = {"err": "driver error: " + "".join(traceback.format_exception(e))[-3000:]}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def codes(s):
    """Text as a sequence of code points."""
    return [ord(c) for c in s]
