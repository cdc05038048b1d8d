import os

from vf import build

TECHNIQUE = "exhaustive enumeration of frames, selections, table layouts and conversion histories of the real Arrow conversion and generated mappers over an in-memory stand-in of the Arrow library"
NOTE = ("Every selection of ten collections, all kinds of members, arrays, components, vectors and relations with small, large and extreme values, every layout of tables of up to the reported number of "
        "rows (concatenated, combined, cut in all places), all orders of columns, parameters of all types and sizes, sequences of conversions, refused input; types of an upstream model. The Arrow library "
        "itself is not installed: harness/arrow replaces it, with its semantics of offsets, slices and children; wrong casts and reads out of range, which are undefined behaviour with the library, are "
        "reported. Files written with Arrow (Parquet, Feather) are not part of this.")

SOURCES = ("ArrowConverterRegistry.cc", "ArrowFrameConverter.cc", "ArrowFrameData.cc", "ArrowTypeRegistry.cc", "ArrowUtils.cc")


def run(tier, rep):
    def model(name, extra=(), extra_files=()):
        return dict(yaml=yaml(name), package=name, handlers=("ROOT", "ARROW"), tag="_arrow", extra=extra, extra_files=extra_files)

    def yaml(name):
        return os.path.join(build.VERIF, "harness", "models", name + ".yaml")
    rep.cpp("c35", ["c35.cc", "vf.cc"], models=(model("vfm"), model("vfa"), model("vfax", ("--upstream-edm", "vfa:" + yaml("vfa")), (yaml("vfa"),))),
            includes=[os.path.join(build.VERIF, "harness", "arrow")], extra_units=[os.path.join(build.REPO, "src", s) for s in SOURCES])
