"""Builds harness binaries from the current working tree of /repo.

Objects are cached by content (a small direct-mode compiler cache), so that a
change anywhere in the tree re-compiles exactly what depends on it, and nothing
is ever taken from a build of another tree state.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(BUILD, "cache")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

PY = "/usr/bin/python3"


class BuildError(Exception):
    """The code under test or the harness does not compile"""


def log(*args):
    print(*args, file=sys.stderr, flush=True)


_hash_memo = {}
_memo_lock = threading.Lock()


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    with _memo_lock:
        if key in _hash_memo:
            return _hash_memo[key]
    with open(path, "rb") as f:
        h = hashlib.sha1(f.read()).hexdigest()
    with _memo_lock:
        _hash_memo[key] = h
    return h


def text_hash(*parts):
    h = hashlib.sha1()
    for part in parts:
        h.update(str(part).encode() + b"\0")
    return h.hexdigest()


def clean_env():
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "USER", "VERIF_SEED", "VERIF_TIER")}
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TMPDIR"] = BUILD
    return env


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def repo_version():
    ver = {}
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        for line in f:
            m = re.search(r"_VERSION_(MAJOR|MINOR|PATCH) +([0-9]+)", line)
            if m:
                ver[m.group(1)] = m.group(2)
    return ver


def version_header():
    """configure podioVersion.h; returns the include directory"""
    with open(os.path.join(REPO, "podioVersion.in.h")) as f:
        text = f.read()
    for k, v in repo_version().items():
        text = text.replace(f"@podio_VERSION_{k}@", v)
    inc = os.path.join(BUILD, "include")
    write_if_changed(os.path.join(inc, "podio", "podioVersion.h"), text)
    return inc


def core_sources():
    with open(os.path.join(REPO, "src", "CMakeLists.txt")) as f:
        m = re.search(r"[Ss][Ee][Tt]\(core_sources([^)]*)\)", f.read())
    names = [n for n in m.group(1).split() if n != "Pythonizations.cc"]
    return [os.path.join(REPO, "src", n) for n in names]


def generator_files():
    res = []
    for base in ("python/podio_gen", "python/templates"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            res += [os.path.join(root, f) for f in sorted(files) if not f.startswith("test_") and not f.endswith(".pyc")]
    res.append(os.path.join(REPO, "python/podio_class_generator.py"))
    return res


def generator_hash():
    return text_hash(*[f + file_hash(f) for f in generator_files()])


def run_generator(yaml, target, package, handlers=("ROOT", "SIO"), extra=(), env=None, timeout=120):
    cmd = [PY, os.path.join(REPO, "python/podio_class_generator.py"), *extra, yaml, target, package, *handlers, "-q"]
    # -q last: the handlers are nargs=*, options in between are fine
    return subprocess.run(cmd, env=env or clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def generate(yaml, package, handlers=("ROOT", "SIO"), extra=(), extra_files=(), tag=""):
    """Generate model code (cached by content); returns the directory"""
    key = text_hash(generator_hash(), file_hash(yaml), package, handlers, extra, *[file_hash(f) for f in extra_files])
    target = os.path.join(BUILD, "gen", f"{package}{tag}")
    stamp = target + ".stamp"
    if os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == key:
                return target
        os.unlink(stamp)
    shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target)
    res = run_generator(yaml, target, package, handlers, extra)
    if res.returncode != 0:
        raise BuildError(f"generator failed for {yaml}:\n{res.stdout[-3000:]}")
    with open(stamp, "w") as f:
        f.write(key)
    return target


# ---------------------------------------------------------------- compiling
CXX = "/usr/bin/g++"
BASE = ["-std=c++20", "-Wno-deprecated-declarations", "-pthread"]
FLAVOURS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # instrumented accesses; the runtime is ours (harness/cpp/mc_rt.cc)
    "mc": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-tsan"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
LINK = {"asan": ["-fsanitize=address"], "plain": [], "mc": [], "tsan": ["-fsanitize=thread"]}


def _parse_deps(depfile):
    with open(depfile) as f:
        text = f.read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return [d for d in deps if not d.startswith("/usr/")]


def compile_one(src, flags, source_text=None):
    """Compile a source; returns the object path in the cache"""
    os.makedirs(CACHE, exist_ok=True)
    if source_text is not None:
        name = text_hash(source_text)[:16]
        path = os.path.join(BUILD, "unity", name + ".cc")
        write_if_changed(path, source_text)
        src = path
    cmdkey = text_hash(CXX, flags, src)
    mani = os.path.join(CACHE, cmdkey + ".json")
    try:
        with open(mani) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        entries = []
    for deps, dephash, obj in entries:
        if os.path.exists(obj) and text_hash(*[file_hash(d) for d in deps]) == dephash:
            os.utime(obj)
            return obj
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
    os.close(fd)
    dep = tmp[:-2] + ".d"
    cmd = [CXX, *BASE, *flags, "-MD", "-MF", dep, "-c", src, "-o", tmp]
    res = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError(f"cannot compile {src}:\n$ {' '.join(cmd)}\n{res.stdout[-6000:]}")
    deps = _parse_deps(dep)
    os.unlink(dep)
    dephash = text_hash(*[file_hash(d) for d in deps])
    obj = os.path.join(CACHE, text_hash(cmdkey, dephash) + ".o")
    os.replace(tmp, obj)
    entries = [e for e in entries if os.path.exists(e[2]) and e[2] != obj][:12]
    entries.insert(0, [deps, dephash, obj])
    with open(mani + f".{os.getpid()}.{threading.get_ident()}", "w") as f:
        json.dump(entries, f)
    os.replace(f.name, mani)
    return obj


def compile_many(jobs):
    """jobs: list of (src, flags, source_text)"""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, *j) for j in jobs]
        errs, objs = [], []
        for f in futs:
            try:
                objs.append(f.result())
            except BuildError as e:
                errs.append(e)
        if errs:
            raise errs[0]
        return objs


def link(objs, out, flavour, extra=()):
    key = text_hash(*objs, flavour, extra)
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == key:
                return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [CXX, "-pthread", *LINK[flavour], *objs, "-o", out + ".tmp", *extra]
    res = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        raise BuildError(f"cannot link {out}:\n{res.stdout[-4000:]}")
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def model_units(gendir, package, sio=False):
    """Unity translation units for a generated model: one per type"""
    src = os.path.join(gendir, "src")
    groups = {}
    suffixes = ("CollectionData.cc", "Collection.cc", "Obj.cc", "SIOBlock.cc", ".cc")
    names = sorted(os.listdir(src))
    for n in names:
        if not n.endswith(".cc"):
            continue
        if "SIOBlock" in n:
            if sio:
                groups.setdefault("sio", []).append(n)
            continue
        base = n
        for s in suffixes:
            if base.endswith(s):
                base = base[: -len(s)]
                break
        if base.startswith("Mutable"):
            base = base[len("Mutable"):]
        groups.setdefault(base, []).append(n)
    return ["".join(f'#include "{src}/{n}"\n' for n in sorted(g)) for _, g in sorted(groups.items())]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *exc):
        self.f.close()


def prune():
    """keep the object cache small: drop objects not used for a day or beyond 3 GB"""
    try:
        ents = []
        for n in os.listdir(CACHE):
            p = os.path.join(CACHE, n)
            st = os.stat(p)
            ents.append((st.st_mtime, st.st_size, p))
        ents.sort(reverse=True)
        total = 0
        for mt, sz, p in ents:
            total += sz
            if total > 6 << 30 or (time.time() - mt > 86400 and p.endswith(".o")):
                os.unlink(p)
    except OSError:
        pass


def build_harness(name, sources, flavour="asan", models=("vfm",), sio=False, defs=(), link_extra=(), includes=(), core=True,
                  extra_units=(), plain_sources=()):
    """Build a harness from /verif/harness/cpp sources plus core podio and models"""
    with Lock():
        t0 = time.time()
        prune()
        inc = version_header()
        incs = [*includes, os.path.join(VERIF, "harness", "cpp"), inc, os.path.join(REPO, "include"), os.path.join(REPO, "src")]
        flags = list(FLAVOURS[flavour]) + ["-DPODIO_JSON_OUTPUT"] + list(defs)
        jobs = []
        gens = []
        for m in models:
            if isinstance(m, str):
                m = dict(yaml=os.path.join(VERIF, "harness", "models", m + ".yaml"), package=m)
            extra = m.get("extra", ())
            gendir = generate(m["yaml"], m["package"], m.get("handlers", ("ROOT", "SIO")), extra, m.get("extra_files", ()), m.get("tag", ""))
            gens.append(gendir)
            incs += [gendir, os.path.join(gendir, m["package"])]
        fl = flags + [f"-I{i}" for i in incs]
        for g, m in zip(gens, models):
            package = m if isinstance(m, str) else m["package"]
            for text in model_units(g, package, sio):
                jobs.append((None, fl, text))
        for s in sources:
            p = s if os.path.isabs(s) else os.path.join(VERIF, "harness", "cpp", s)
            jobs.insert(0, (p, fl, None))
        for s in plain_sources:
            # not instrumented
            pfl = ["-O2", "-g1", "-fno-builtin", "-fno-tree-loop-distribute-patterns", *fl[len(FLAVOURS[flavour]):]]
            jobs.insert(0, (os.path.join(VERIF, "harness", "cpp", s), pfl, None))
        if core:
            jobs += [(s, fl, None) for s in core_sources()]
        jobs += [(s, fl, None) for s in extra_units]
        objs = compile_many(jobs)
        out = link(objs, os.path.join(BUILD, "bin", name), flavour, link_extra)
        # run from a private copy, so that parallel checks may relink
        log(f"[build] {name} ({flavour}) {len(jobs)} units in {time.time()-t0:.1f}s")
        return out
