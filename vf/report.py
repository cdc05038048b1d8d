"""Runs a check: collects coverage and failures, writes evidence, prints the verdict"""
import json
import os
import subprocess
import sys
import time

from . import build

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, ".replays")


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.failures = []  # (key, message, replay payload)
        self.errors = []
        self.exhaustive = True
        self.scen = []

    # ------------------------------------------------------------ coverage
    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def assume(self, *texts):
        self.assumptions += list(texts)

    def fail(self, key, msg, replay=None):
        self.failures.append((key, msg, replay))

    def error(self, msg):
        self.errors.append(msg)

    # ------------------------------------------------------------ C++ harness
    def cpp(self, name, sources, budget=None, workers=8, only=None, env=None, **kw):
        binary = build.build_harness(name, sources, **kw)
        return self.run_cpp(binary, budget=budget, workers=workers, only=only, env=env)

    def run_cpp(self, binary, budget=None, workers=8, only=None, env=None):
        if budget is None:
            budget = 700 if self.tier == "quick" else 3000
        tmp = os.path.join(build.BUILD, "tmp")
        os.makedirs(tmp, exist_ok=True)
        out = os.path.join(tmp, f"{self.prop}-{os.getpid()}.json")
        e = build.clean_env()
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
        e.update(env or {})
        cmd = [binary, "--tier", self.tier, "--out", out, "--workers", str(workers), "--budget", str(budget), "--tmp", tmp]
        if only:
            cmd += ["--only", only]
        res = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=tmp)
        sys.stderr.write(res.stderr)
        try:
            with open(out) as f:
                data = json.load(f)
            os.unlink(out)
        except (OSError, ValueError) as err:
            self.error(f"harness {os.path.basename(binary)} gave no result (exit {res.returncode}): {err}\n{res.stderr[-2000:]}")
            return
        for s in data["scenarios"]:
            self.count(s["states"], s["transitions"], s["executions"])
            self.scen.append({k: s[k] for k in ("name", "depth", "executions", "transitions", "states", "pruned", "max_choices", "complete", "wall_s")})
            if not s["complete"]:
                self.exhaustive = False
                if not s["failures"]:
                    self.scen[-1]["capped"] = "stopped at the time budget"
            for smp in s["samples"]:
                self.sample({"scenario": s["name"], "execution": smp})
            if s["notes"]:
                self.error(f"{s['name']}: {s['notes']}")
            for f in s["failures"]:
                payload = f"scenario {s['name']} tier {self.tier} choices\n" + " ".join(map(str, f["choices"])) + "\n"
                self.fail(f"{s['name']}:{f['key']}", f["msg"] + ("\n" + f["trace"] if f["trace"] else ""),
                          payload + f"# replay with: {binary} --replay <this file>\n# {f['key']}: {f['msg']}\n# trace:\n" +
                          "".join(f"# {ln}\n" for ln in f["trace"].splitlines()))
            if s["executions"] == 0 and not s["failures"]:
                self.error(f"{s['name']}: nothing was executed")

    # ------------------------------------------------------------ verdict
    def finish(self, level="model_checking"):
        known = []
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.prop]
        except OSError:
            pass
        new = []
        for key, msg, replay in self.failures:
            hit = [k for k in known if k["key"] == key]
            if hit:
                print(f"KNOWN-FINDING: property={self.prop} {hit[0]['what']}")
            else:
                new.append((key, msg, replay))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "exhaustive": bool(self.exhaustive and not self.errors),
        }
        if self.scen:
            cov["scenarios"] = self.scen
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for i, (key, msg, replay) in enumerate(new):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.prop}-{i}.txt")
            with open(path, "w") as f:
                f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1, default=str))
                f.write(f"\n# {key}\n")
            print(f"[{key}] {msg[:2500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        print(f"{self.prop} {self.tier}: states={self.states} transitions={self.transitions} executions={self.traces} "
              f"violations={len(new)} known={len(self.failures)-len(new)} wall={ev['wall_s']}s exhaustive={cov['exhaustive']}")
        if new:
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR:", e)
            return 2
        return 0
