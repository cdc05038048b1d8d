"""Running podio's Python programs quickly (forked from this process) and reading what they produce."""
import os
import runpy
import shutil
import sys
import tempfile
import traceback

from . import build

TMP = os.path.join(build.BUILD, "tmp")
os.makedirs(TMP, exist_ok=True)
os.environ["TMPDIR"] = TMP
for p in ("python",):
    d = os.path.join(build.REPO, p)
    if d not in sys.path:
        sys.path.insert(0, d)

GENERATOR = os.path.join(build.REPO, "python/podio_class_generator.py")
COMPARE = os.path.join(build.REPO, "python/podio_schema_evolution.py")
JSON2YAML = os.path.join(build.REPO, "tools/json-to-yaml")


def preload():
    """load the modules once, so that forked runs are fast"""
    import jinja2  # pylint: disable=import-outside-toplevel,unused-import # noqa: F401
    import yaml  # pylint: disable=import-outside-toplevel,unused-import # noqa: F401


def run_script(path, argv, cwd=None, stdin=None, hash_seed=None):
    """run a Python program as if it had been started, returns (exit code, output)"""
    if hash_seed is not None:
        import subprocess  # pylint: disable=import-outside-toplevel
        res = subprocess.run([sys.executable, "-B", path, *argv], cwd=cwd, input=stdin, capture_output=True, text=True, check=False,
                             env={**os.environ, "PYTHONHASHSEED": str(hash_seed)})
        return res.returncode, res.stdout + res.stderr
    sys.stdout.flush()
    sys.stderr.flush()
    with tempfile.TemporaryFile("w+", dir=TMP) as out:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.dup2(out.fileno(), 1)
                os.dup2(out.fileno(), 2)
                sys.stdout = os.fdopen(1, "w", closefd=False)
                sys.stderr = os.fdopen(2, "w", closefd=False)
                if stdin is not None:
                    with tempfile.TemporaryFile("w+", dir=TMP) as inp:
                        inp.write(stdin)
                        inp.flush()
                        inp.seek(0)
                        os.dup2(inp.fileno(), 0)
                    sys.stdin = os.fdopen(0, "r", closefd=False)
                if cwd:
                    os.chdir(cwd)
                sys.argv = [path, *argv]
                try:
                    runpy.run_path(path, run_name="__main__")
                except SystemExit as err:
                    code = err.code if isinstance(err.code, int) else 0 if err.code is None else 1
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
        _, st = os.waitpid(pid, 0)
        out.seek(0)
        return os.waitstatus_to_exitcode(st), out.read()


class Scratch:
    """a scratch directory that is removed at the end"""

    def __init__(self, name):
        self.path = os.path.join(build.BUILD, f"{name}-{os.getpid()}")

    def __enter__(self):
        os.makedirs(self.path)
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)

    def dir(self):
        return tempfile.mkdtemp(dir=self.path)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


def tree(d):
    """relative name -> contents"""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, encoding="utf-8") as x:
                out[os.path.relpath(p, d)] = x.read()
    return out
