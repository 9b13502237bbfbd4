"""Machinery shared by all checks: running TLC, drivers, verdicts, evidence."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET_PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CORES = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="specverif-%s-" % prop)
        self.states = self.transitions = 0
        self.mc_runs = []
        self.events = self.relevant = self.nontrivial = self.traces = 0
        self.violations = []
        self.samples = []
        self.notes = {}

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, xmx="3g", simulate=None, name=None):
        name = name or module
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfg_path = os.path.join(meta, name + ".cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg_path]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out_path = os.path.join(meta, "out.txt")
        try:
            with open(out_path, "w") as out:
                rc = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=meta,
                                    timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % name)
        return rc, out_path

    def model_check(self, module, cfg, workers=4, timeout=600, env=None, xmx="6g", name=None, sample=None):
        """Exhaustive check of the specification itself; returns the printed cases."""
        rc, out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, xmx=xmx, name=name)
        printed = []
        text = []
        with open(out) as f:
            for line in f:
                if line.startswith('"@@'):
                    printed.append(json.loads(line))
                elif len(text) < 4000:
                    text.append(line)
        text = "".join(text)
        if rc != 0 or "No error has been found" not in text:
            raise MachineryError("specification %s does not satisfy its properties (rc %s):\n%s"
                                 % (module, rc, text[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if not m:
            raise MachineryError("no state count from TLC:\n" + text[-2000:])
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.mc_runs.append({"module": name or module, "distinct_states": int(m.group(2)),
                             "states_generated": int(m.group(1))})
        tag = "@@CASE "
        printed.sort()       # TLC's workers print in any order
        if sample and len(printed) > sample[1]:
            self.notes["behaviours_of_" + (name or module)] = len(printed)
            printed = sample[0].sample(printed, sample[1])
        return [json.loads(p[len(tag):]) for p in printed if p.startswith(tag)]

    # -------------------------------------------------------------- drivers
    def drive(self, driver, shards, args=None, timeout=800):
        """shards: list of lists of cases.  Runs the driver on each in parallel, then
        TLC validates each recorded trace.  driver = (script, trace module)."""
        script, module = driver
        jobs = []
        for i, cases in enumerate(shards):
            inp = self.path("cases.%s.%d.ndjson" % (module, i))
            with open(inp, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
            jobs.append((i, inp))
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            futures = [ex.submit(self._shard, script, module, i, inp, args or {}, timeout) for i, inp in jobs]
            for f in futures:
                f.result()

    def _shard(self, script, module, i, inp, args, timeout):
        trace = self.path("trace.%s.%d.ndjson" % (module, i))
        work = self.path("work.%s.%d" % (module, i))
        os.makedirs(work, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(self.seed % 1000), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX="/nonexistent-pycache", VERIF_REPO=REPO)
        env.pop("PYTHONPATH", None)
        cfg = {"cases": inp, "trace": trace, "seed": self.seed, "shard": i, "tier": self.tier, "prop": self.prop}
        cfg.update(args)
        if args.get("locale"):
            env.update(dict(LC_ALL=args["locale"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"))
        p = subprocess.run([TARGET_PYTHON, os.path.join(VERIF, "harness", script), json.dumps(cfg)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=work, timeout=timeout)
        err = p.stderr.decode(errors="replace")
        if p.returncode != 0:
            # the drivers only read documented state; an answer that cannot even be read is not
            # one the specification allows
            if p.returncode != 1 or "Traceback" not in err or re.search(r"^(MemoryError|OSError)", err, re.M):
                raise MachineryError("driver %s failed (%d): %s" % (script, p.returncode, err[-3000:]))
            self.violations.append({"clauses": ["answer_cannot_be_read"], "module": module, "raw": None,
                                    "session": [{"e": "unreadable", "error": err[-1500:]}]})
            if not os.path.exists(trace):
                return
        self.validate(module, trace, timeout)

    def validate(self, module, trace, timeout=800):
        n = sum(1 for _ in open(trace))
        if n == 0:
            return
        rc, out = self.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                           env={"TRACE": trace, "PROP": self.prop}, timeout=timeout)
        verdict = None
        with open(out) as f:
            for line in f:
                if line.startswith('"@@VERDICT '):
                    verdict = json.loads(json.loads(line)[len("@@VERDICT "):])
        if verdict is None:
            text = open(out).read().split("Computing initial states")[-1]
            if re.search(r"Error: (Evaluating|TLC threw|The following behavior|Attempted|The error occurred|In evaluat)", text) \
                    and not re.search(r"OutOfMemory|StackOverflow|heap space|No space left|ndJsonDeserialize", text):
                # an event that is not even of the shape the specification speaks about
                self.violations.append({"clauses": ["not_a_step"], "module": module, "raw": None,
                                        "session": [{"e": "not_a_step", "error": text[:1500]}]})
                return
        if verdict is None or verdict["consumed"] != n:
            raise MachineryError("trace %s was not consumed (rc %s):\n%s"
                                 % (trace, rc, open(out).read().split("Computing initial states")[-1][:3500]))
        for k in ("consistent",):
            if k in verdict:
                self.notes["sessions_" + k] = self.notes.get("sessions_" + k, 0) + verdict[k]
        self.relevant += verdict["relevant"]
        self.nontrivial += verdict["nontrivial"]
        self.events += n
        lines = None
        bad = verdict["bad"] or []
        with open(trace) as f:
            lines = f.read().splitlines()
        starts = [k for k, s in enumerate(lines) if '"e": "reset"' in s[:40]]
        self.traces += len(starts)
        if len(self.samples) < 3:
            for s in lines[len(lines) // 2:][:1]:
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
        for b in bad:
            k = b["line"] - 1
            start = max([s for s in starts if s <= k] or [0])
            self.violations.append({"clauses": b["clauses"], "module": module,
                                    "session": [json.loads(x) for x in lines[start:k + 1]][-60:],
                                    "raw": self.raw_case(trace, len([s for s in starts if s <= k]))})

    @staticmethod
    def raw_case(trace, number):
        """The driver's input of the n-th session of a trace (beside the trace)."""
        path = trace + ".cases"
        if os.path.exists(path):
            with open(path) as f:
                for k, line in enumerate(f, 1):
                    if k == number:
                        return json.loads(line)
        return None

    # -------------------------------------------------------------- verdict
    def finish(self, assumptions=()):
        known = load_known(self.prop)
        listed, new = [], []
        for v in self.violations:
            key = violation_key(v)
            (listed if key in known else new).append((key, v))
        for key in sorted({k for k, _ in listed}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
        ev = {
            "property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "events_relevant_to_property": self.relevant,
                "events_exercising_property_nontrivially": self.nontrivial,
                "model_checking_runs": self.mc_runs,
                "samples": self.samples, **self.notes,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.relevant == 0 or self.nontrivial == 0:
            if not new:
                raise MachineryError("the property was not exercised (vacuous run)")
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            key, v = new[0]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, key))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "clauses": v["clauses"],
                           "trace_module": v["module"], "case": v["raw"], "session": v["session"],
                           "other_violations": len(new) - 1}, f, indent=1)
            print("violated clauses: %s" % ", ".join(sorted({c for _, w in new for c in w["clauses"]})))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s: %d traces, %d events (%d relevant, %d non-trivial), %d model states, %.1fs"
              % (self.prop, self.traces, self.events, self.relevant, self.nontrivial, self.states,
                 time.time() - self.t0))
        return 0


def violation_key(v):
    """Stable identity of a violation: the clauses and the event that failed."""
    e = v["session"][-1]
    text = json.dumps([sorted(v["clauses"]), e], sort_keys=True)
    return hashlib.sha1(text.encode()).hexdigest()[:12]


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' lines (open findings) and
    'fixed: property=<id> <commit> <text>' lines (which suppress nothing)."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def split(cases, n=None):
    n = n or CORES
    return [s for s in (cases[i::n] for i in range(n)) if s]
