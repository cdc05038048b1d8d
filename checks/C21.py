import os
from vf import build

TECHNIQUE = "exhaustive enumeration of registration and collection sequences on the real registry, collector and holder against reference tables"
NOTE = ("Every sequence up to the reported depth of registering three models with different definitions, relation names and versions, of gathering the "
        "definitions of eight kinds of collections (two generated models, links, user data, subset, without definition), and of stored definition and version "
        "lists; all queries (known, unknown, neighbouring) after each. Registering a model first without and later with a version is not judged.")


def run(tier, rep):
    y = os.path.join(build.VERIF, "harness/models/vfi.yaml")
    rep.cpp("c21", ["c21.cc", "vf.cc"],
            models=("vfm", dict(yaml=y, package="vfi", extra=("--datamodel-version", "12.3.45"), tag="_v")))
