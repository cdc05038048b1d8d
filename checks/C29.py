import os
import shutil

from vf import build

TECHNIQUE = "exhaustive enumeration of patterns over a token alphabet against an independent glob implementation"
NOTE = ("All patterns of up to 4 (thorough: 5) tokens (literals, *, ?, classes, ranges, nested brace alternatives, separators) over a "
        "fixed directory tree in a scratch directory, relative, absolute and below the home directory. Unbalanced braces, "
        "backslash escapes and double separators are not part of the alphabet.")


def run(tier, rep):
    scratch = os.path.join(build.BUILD, f"glob-{os.getpid()}")
    os.makedirs(scratch)
    try:
        rep.cpp("c29", ["c29.cc", "vf.cc"], models=(), core=False, extra_units=(os.path.join(build.REPO, "src/Glob.cc"),), env={"VF_SCRATCH": scratch})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rep.assume("C locale, glibc")
