import itertools
import os
import sys
import types

from vf import build, pyenum
from vf.pyenum import Bad, eq

TECHNIQUE = "exhaustive enumeration of version numbers (all values per part, all pairs of a boundary grid)"
NOTE = ("All 65536 values of each part with boundary values in the others, all pairs of a 15x15x15 boundary grid for the comparisons, "
        "compile-time decoding of the grid, and all version strings over a small token alphabet for the Python parser (with a "
        "stand-in for the ROOT binding of the Version class).")


class Version:
    """stand-in for the binding: 16 bit members, conversions as done by cppyy"""

    def __init__(self, *args):
        self.__dict__.update(major=0, minor=0, patch=0)
        for k, v in zip(("major", "minor", "patch"), args):
            setattr(self, k, v)

    def __setattr__(self, k, v):
        if k not in ("major", "minor", "patch"):
            raise AttributeError(k)
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError("int/long conversion expects an integer object")
        if not 0 <= v < 65536:
            raise ValueError("integer out of range")
        self.__dict__[k] = v

    def __eq__(self, o):
        return (self.major, self.minor, self.patch) == (o.major, o.minor, o.patch)


def load_parser(declared):
    root = types.ModuleType("ROOT")
    root.gInterpreter = types.SimpleNamespace(LoadFile=lambda f: 0)
    root.podio = types.SimpleNamespace(version=types.SimpleNamespace(Version=Version))
    pod = types.ModuleType("podio")
    pod.__version__ = declared
    old = {k: sys.modules.get(k) for k in ("ROOT", "podio")}
    sys.modules["ROOT"], sys.modules["podio"] = root, pod
    try:
        mod = types.ModuleType("podio.version")
        with open(os.path.join(build.REPO, "python/podio/version.py")) as f:
            exec(compile(f.read(), "version.py", "exec"), mod.__dict__)  # pylint: disable=exec-used
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    return mod


def number(p):
    """-0 and the like are numbers too"""
    try:
        return 0 <= int(p) < 65536
    except ValueError:
        return False


def run(tier, rep):
    v = build.repo_version()
    declared = f"{v['MAJOR']}.{v['MINOR']}.{v['PATCH']}"
    grid = [0, 1, 2, 9, 10, 99, 127, 128, 255, 256, 999, 32767, 32768, 65534, 65535]  # as in c31.cc
    inc = os.path.join(build.BUILD, "c31")
    build.write_if_changed(os.path.join(inc, "c31_table.inc"),
                           "".join(f"PODIO_VERSION({a}, {b}, {c}),\n" for a, b, c in itertools.product(grid, repeat=3)))
    rep.cpp("c31", ["c31.cc", "vf.cc"], models=(), core=False, includes=(inc,), defs=(f'-DVF_VERSION="{declared}"',))
    mod = load_parser(declared)
    nums = ["0", "1", "2", "10", "007", "255", "65535"]
    good = [list(t) for n in (1, 2, 3) for t in itertools.product(nums, repeat=n)]
    tokens = ["0", "12", ".", "", "x", "-", "a1", "1a", "..", "0x1", "1-0", ",", "v"]
    bad = []
    for n in (1, 2, 3):
        for t in itertools.product(tokens, repeat=n):
            s = "".join(t)
            parts = s.split(".")
            if any(not number(p) for p in parts) and len(parts) <= 3:
                bad.append(s)
    bad += ["65536", "1.65536", "1.2.70000", "-1", "1.-2"]
    bad = sorted(set(bad))

    def parts(ver):
        return (ver.major, ver.minor, ver.patch)

    def do_good(toks):
        want = tuple([int(t) for t in toks] + [0] * (3 - len(toks)))
        ver = mod.parse(".".join(toks))
        eq(parts(ver), want, "parse-string")
        eq(parts(mod.parse(*[int(t) for t in toks])), want, "parse-numbers")
        eq(parts(mod.parse(ver)), want, "parse-version")
        eq(str(ver), ".".join(str(x) for x in want), "to-string")
        return 4

    def do_bad(s):
        try:
            ver = mod.parse(s)
        except (ValueError, TypeError, OverflowError):
            return
        raise Bad("malformed-accepted", f"{s!r} was parsed as {parts(ver)}")

    pyenum.explore(rep, "parseGood", good, do_good)
    pyenum.explore(rep, "parseBad", bad, do_bad)
    pyenum.explore(rep, "buildVersion", [declared], lambda d: eq(str(mod.build_version), d, "build-version"))
    rep.assume("the Python parser runs against a stand-in for the C++ binding of Version that accepts 16 bit unsigned members only")
