"""Shared machinery of the checks: TLC runs, trace validation, verdicts, evidence."""

import atexit
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VP_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"


class MachineryError(Exception):
    """The check itself failed (neither a pass nor a violation)."""


def worker_env(**extra):
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=os.path.join(REPO, "src") + ":" + HARNESS,
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    env.pop("XLA_FLAGS", None)
    env.update({k: str(v) for k, v in extra.items()})
    return env


class Check:
    """One run of the check of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))
        self.work = tempfile.mkdtemp(prefix=f"vp_{pid}_")
        atexit.register(shutil.rmtree, self.work, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.canaries = 0
        self.samples = []
        self.model_runs = []
        self.violations = []
        self.actions = {}
        self.notes = []
        self.n_tlc = 0
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            self.known = [
                k
                for k in json.load(open(kf))["findings"]
                if k["property"] == pid and k["status"] == "known"
            ]
        self.known_hit = {}

    # ---------------------------------------------------------------- TLC
    def tlc(
        self,
        module,
        cfg,
        env=None,
        workers=4,
        args=(),
        timeout=600,
        xmx="3g",
        expect_ok=True,
        defs=None,
    ):
        """Run TLC on specs/<module>.tla with the configuration text `cfg`.

        `defs` gives constants whose values a configuration file cannot express."""
        self.n_tlc += 1
        d = os.path.join(self.work, f"tlc{self.n_tlc}")
        os.makedirs(d)
        spec = os.path.join(SPECS, f"{module}.tla")
        if defs:
            spec = os.path.join(d, f"MC{module}.tla")
            with open(spec, "w") as f:
                f.write(f"---- MODULE MC{module} ----\nEXTENDS {module}\n")
                for k, v in defs.items():
                    f.write(f"MC_{k} == {v}\n")
                f.write("====\n")
            cfg += "\nCONSTANTS\n" + "\n".join(f" {k} <- MC_{k}" for k in defs) + "\n"
        cfgf = os.path.join(d, f"{module}.cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            f"-Xmx{xmx}",
            "-Xss32m",
            f"-DTLA-Library={SPECS}",
            "-cp",
            JARS,
            "tlc2.TLC",
            "-workers",
            str(workers),
            "-metadir",
            os.path.join(d, "states"),
            "-noGenerateSpecTE",
            "-config",
            cfgf,
            *args,
            spec,
        ]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(
                cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d
            )
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = p.stdout
        res = {
            "module": module,
            "out": out,
            "rc": p.returncode,
            "states": 0,
            "distinct": 0,
            "prints": [],
        }
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            res["states"], res["distinct"] = int(m[1]), int(m[2])
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not res["states"]:
            res["states"] = int(m[1])
        for line in out.splitlines():
            if line.startswith("<<") or line.startswith('"'):
                res["prints"].append(line)
        for m in re.finditer(
            r"^<(\w+) line .*? of module (\w+)[^>]*>: (\d+):(\d+)", out, re.M
        ):
            key = f"{m[2]}.{m[1]}"
            self.actions[key] = self.actions.get(key, 0) + int(m[4])
        res["ok"] = p.returncode == 0
        if expect_ok and p.returncode != 0:
            tail = "\n".join(out.splitlines()[-60:])
            res["tail"] = tail
        self.states += res["distinct"]
        self.transitions += res["states"]
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return res

    def model(self, module, cfg, must_take=(), **kw):
        """Check a model; it must hold (the specification is ours: failure = machinery).

        `must_take` names actions that have to be taken at least once (vacuity)."""
        before = dict(self.actions)
        r = self.tlc(module, cfg, args=tuple(kw.pop("args", ())) + ("-coverage", "1"), **kw)
        if not r["ok"]:
            raise MachineryError(f"model {module} does not satisfy its properties:\n{r['tail']}")
        for a in must_take:
            k = f"{module}.{a}" if "." not in a else a
            if self.actions.get(k, 0) - before.get(k, 0) <= 0:
                raise MachineryError(f"model {module}: action {k} never taken\n" + r["out"][-3000:])
        self.model_runs.append(
            {"module": module, "states": r["states"], "distinct": r["distinct"]}
        )
        return r

    def refute(self, module, cfg, **kw):
        """A deliberately broken variant of the model must be refuted by TLC."""
        r = self.tlc(module, cfg, expect_ok=False, **kw)
        if r["ok"] or not re.search(r"(is|was|were) violated", r["out"]):
            raise MachineryError(
                f"broken variant of {module} was not refuted:\n{r['out'][-2000:]}"
            )
        self.model_runs.append(
            {"module": module, "states": r["states"], "distinct": r["distinct"], "refuted": True}
        )
        return r

    def scenarios(self, r, tag="SCN"):
        """Decode the JSON scenarios a model printed as <<tag, json>>."""
        out = []
        pre = f'<<"{tag}", "'
        for line in r["prints"]:
            if line.startswith(pre):
                body = line[len(pre) : -3]
                out.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        return out

    # ------------------------------------------------------ trace validation
    def _validate(self, module, traces, consts="", timeout=600, tries=12):
        f = os.path.join(self.work, f"traces{self.n_tlc}.json")
        with open(f, "w") as fh:
            json.dump(traces, fh)
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + consts
        r = self.tlc(module, cfg, env={"TRACES": f}, workers=6, timeout=timeout, xmx="6g")
        verdict = {}
        for line in r["prints"]:
            m = re.match(r'<<"VERDICT", (\d+), "([^"]*)", (\d+)>>', line)
            if m:
                verdict[int(m[1])] = (m[2], int(m[3]))
        if not r["ok"]:
            # an observation the specification has no meaning for
            m = re.findall(r"^(?:/\\ )?tr = (\d+)", r["out"], re.M)
            if m and tries and ("Attempted to" in r["out"] or "TLC expected" in r["out"]):
                k = int(m[-1]) - 1
                rest = self._validate(module, traces[:k] + traces[k + 1 :], consts, timeout, tries - 1) if traces[1:] else []
                at = re.findall(r"^/\\ i = (\d+)", r["out"], re.M)
                return rest[:k] + [("not-an-observation", int(at[-1]) + 1 if at else 0)] + rest[k:]
            raise MachineryError(f"trace validation with {module} failed:\n{r['tail']}")
        if len(verdict) != len(traces):
            missing = [i for i in range(1, len(traces) + 1) if i not in verdict][:5]
            raise MachineryError(
                f"{module}: {len(traces) - len(verdict)} traces without verdict, e.g. "
                f"{missing}\n{r['out'][-2000:]}"
            )
        return [verdict[i + 1] for i in range(len(traces))]

    def validate(self, module, traces, canary=None, consts="", label=""):
        """Validate recorded traces against specs/<module>.tla.

        Each trace is {"id": str, "cfg": {...}, "ev": [...]}; a rejected trace is a
        violation. `canary(trace, rng)` returns a corrupted copy that must be rejected
        (or None if the trace offers nothing to corrupt)."""
        traces = [t for t in traces]
        for t in traces:
            if not t["ev"]:
                self.report(t, "nothing-recorded", 0, module)
        traces = [t for t in traces if t["ev"]]
        if not traces:
            if self.violations:
                return []
            raise MachineryError("no traces to validate")
        canaries = []
        if canary is not None:
            pool = list(range(len(traces)))
            self.rng.shuffle(pool)
            for i in pool:
                if len(canaries) >= 12:
                    break
                try:
                    c = canary(copy.deepcopy(traces[i]), self.rng)
                except (IndexError, KeyError, TypeError):
                    c = None  # nothing here to corrupt
                if c is not None:
                    for x in c if isinstance(c, list) else [c]:
                        x["id"] = "canary:" + x["id"]
                        canaries.append((i, x))
        allt = traces + [c for _, c in canaries]
        verdicts = []
        chunk = 4000
        for k in range(0, len(allt), chunk):
            verdicts += self._validate(module, allt[k : k + chunk], consts)
        nbad = 0
        for t, (v, i) in zip(traces, verdicts):
            if v != "ok":
                nbad += 1
                self.report(t, v, i, module)
        for (i, c), (v, _) in zip(canaries, verdicts[len(traces) :]):
            if verdicts[i][0] != "ok":
                continue  # the original is rejected too: nothing to learn
            if v == "ok" and self.violations:
                continue
            if v == "ok":
                raise MachineryError(
                    f"{module}: canary accepted: {json.dumps(c)[:1500]}"
                )
            self.canaries += 1
        if canary is not None and not canaries and not nbad:
            raise MachineryError(f"{module}: no canary could be built")
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        if len(self.samples) < 4:
            s = json.dumps(traces[len(traces) // 2])
            self.samples.append(
                {"trace_spec": module, "label": label, "trace": s[:1500]}
            )
        return verdicts[: len(traces)]

    # ---------------------------------------------------------------- verdict
    def report(self, trace, clause, index, module):
        ident = f"{trace['id']}|{clause}"
        for k in self.known:
            if re.search(k["match"], ident):
                self.known_hit.setdefault(k["what"], 0)
                self.known_hit[k["what"]] += 1
                return
        self.violations.append(
            {"trace": trace, "clause": clause, "event": index, "module": module}
        )

    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid,
            "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events,
                "canary_traces_rejected": self.canaries,
                "model_runs": self.model_runs,
                "actions_taken": self.actions,
                "samples": self.samples or [{"note": "no sample"}],
            },
            "assumptions": self.notes,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            d = os.path.join(VERIF, "evidence", f"replay_{self.pid}.json")
            with open(d, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            for v in self.violations[:5]:
                print(
                    f"  rejected by {v['module']}: clause '{v['clause']}' at event "
                    f"{v['event']} of {v['trace']['id']}"
                )
            print(f"VIOLATION property={self.pid} replay={d}")
            return 1
        print(
            f"OK property={self.pid} states={self.states} traces={self.traces} "
            f"events={self.events} canaries={self.canaries} wall={wall:.1f}s"
        )
        return 0

    # ------------------------------------------------------------ real code
    def _uncrashed(self, result, script):
        """What the code returned could not even be recorded for some items."""
        ts = result["traces"] if isinstance(result, dict) and "traces" in result else result
        if not isinstance(ts, list):
            return result
        crashed = [t for t in ts if isinstance(t, dict) and t.get("ev") and t["ev"][0].get("op") == "crash"]
        for t in crashed:
            ts.remove(t)
            self.report(t, "not-recordable " + t["ev"][0]["kind"], 1, script)
        return result

    def run_worker(self, script, job, timeout=600, **env):
        return self.run_workers(script, [job], timeout=timeout, **env)[0]

    def run_workers(self, script, jobs, timeout=600, parallel=8, envs=None, **env):
        """Run harness/<script> once per job (JSON in, JSON out) in fresh processes."""
        procs, results = [], [None] * len(jobs)
        pending = list(range(len(jobs)))
        deadline = time.time() + timeout
        uid = f"{self.n_tlc}_{time.time_ns()}"

        def start(i):
            jf = os.path.join(self.work, f"job_{uid}_{i}.json")
            of = os.path.join(self.work, f"out_{uid}_{i}.json")
            lf = os.path.join(self.work, f"log_{uid}_{i}.txt")
            scratch = os.path.join(self.work, f"scratch_{uid}_{i}")
            os.makedirs(scratch)
            with open(jf, "w") as f:
                json.dump(jobs[i], f)
            e = worker_env(**env)
            if envs:
                e.update({k: str(v) for k, v in envs[i].items()})
            e["VP_SCRATCH"] = scratch
            e["TMPDIR"] = scratch
            log = open(lf, "w")
            p = subprocess.Popen(
                [PYTHON, os.path.join(HARNESS, script), jf, of],
                stdout=log,
                stderr=subprocess.STDOUT,
                env=e,
                cwd=scratch,
            )
            return (i, p, of, lf, scratch)

        while pending or procs:
            while pending and len(procs) < parallel:
                procs.append(start(pending.pop(0)))
            for rec in list(procs):
                i, p, of, lf, scratch = rec
                if p.poll() is not None:
                    procs.remove(rec)
                    if not os.path.exists(of):
                        tail = open(lf, errors="replace").read()[-3000:]
                        for r in procs:
                            r[1].kill()
                        raise MachineryError(f"worker {script} failed (rc {p.returncode}):\n{tail}")
                    results[i] = self._uncrashed(json.load(open(of)), script)
                    shutil.rmtree(scratch, ignore_errors=True)
            if time.time() > deadline:
                for r in procs:
                    r[1].kill()
                raise MachineryError(f"worker {script} timed out")
            time.sleep(0.02)
        return results


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        print(f"MACHINERY ERROR in check {pid}: {e}")
        rc = c.finish() if c.violations else 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    return rc
