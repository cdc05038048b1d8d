"""Exhaustive enumeration of input families for the Python parts of podio.

`explore` evaluates `fn(case)` for every case of a (finite, deterministic) list
in forked workers. fn raises Bad(key, msg) if the case violates the property.
Every failing case is evaluated again in a fresh process before it is reported.
"""
import json
import os
import pickle
import sys
import time
import traceback

from . import build

sys.dont_write_bytecode = True
if os.path.join(build.REPO, "python") not in sys.path:
    sys.path.insert(0, os.path.join(build.REPO, "python"))


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(key, msg)
        self.key, self.msg = key, msg


def eq(a, b, key, what=""):
    if a != b:
        raise Bad(key, f"{what}: got {a!r}, expected {b!r}"[:1800])


def check(cond, key, what=""):
    if not cond:
        raise Bad(key, str(what)[:1800])


def _one(fn, case):
    try:
        res = fn(case)
        return None, (res if isinstance(res, int) else 1)
    except Bad as b:
        return (b.key, b.msg), 1
    except Exception:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        last = tb.strip().splitlines()[-1]
        return ("exception-" + last.split(":")[0].split(".")[-1], tb[-1500:]), 1


def _fork(work):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(work())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    return pid, r


def _join(pid, r):
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        return None
    return pickle.loads(data)


def explore(rep, name, cases, fn, workers=8, show=repr, budget=None, chunk=None):
    """cases: list; returns the number of failing cases"""
    t0 = time.time()
    cases = list(cases)
    if budget is None:
        budget = 600 if rep.tier == "quick" else 2500
    n = len(cases)

    def share(w):
        def work():
            fails, done, trans = [], 0, 0
            for i in range(w, n, workers):
                if time.time() - t0 > budget:
                    break
                f, t = _one(fn, cases[i])
                done += 1
                trans += t
                if f and len([1 for x in fails if x[1] == f[0]]) < 3:
                    fails.append((i, *f))
            return fails, done, trans
        return work

    sys.stdout.flush()
    sys.stderr.flush()
    procs = [_fork(share(w)) for w in range(min(workers, max(1, n)))]
    fails, done, trans = [], 0, 0
    for p in procs:
        res = _join(*p)
        if res is None:
            rep.error(f"{name}: a worker died")
            continue
        fails += res[0]
        done += res[1]
        trans += res[2]
    best = {}
    for i, key, msg in sorted(fails):
        best.setdefault(key, (i, msg))
    for key, (i, msg) in best.items():
        again = _join(*_fork(lambda i=i: _one(fn, cases[i])))
        if again is None or again[0] is None or again[0][0] != key:
            rep.error(f"{name}: failure [{key}] of case {i} was not reproduced: {msg[:300]}")
            continue
        rep.fail(f"{name}:{key}", msg + "\ncase: " + show(cases[i])[:1500],
                 f"scenario {name}\ncase {i}: {show(cases[i])}\n[{key}] {msg}\n")
    rep.count(states=done, transitions=trans, traces=done)
    entry = {"name": name, "executions": done, "transitions": trans, "states": done, "complete": done == n, "wall_s": round(time.time() - t0, 2)}
    rep.scen.append(entry)
    if done < n:
        rep.exhaustive = False
    for i in (0, n // 2):
        if n:
            rep.sample({"scenario": name, "case": show(cases[i])[:600]})
    if n == 0:
        rep.error(f"{name}: no cases")
    print(f"[explore] {name:30} {done} cases, {trans} checks, {time.time()-t0:.1f}s{' FAILURES' if best else ''}", file=sys.stderr, flush=True)
    return len(fails)
