import os

from vf import build

TECHNIQUE = "exhaustive enumeration of write histories, read histories, selections and interruption points of the real SIO reader and writer over an in-memory stand-in of the SIO library"
NOTE = ("Every sequence of frames up to the reported depth in three categories with every kind of content and selection of collections, then read front to back and back to front; every sequence of "
        "sequential, indexed, selective and out of range reads of files with interleaved categories; all selections of collections; all user data types and sizes; rewriting over generations; every "
        "prefix of a file as left by an interrupted writer; files of the legacy layout; the generic Reader and Writer with noting stand-ins of the ROOT back ends. The SIO library itself is not "
        "installed: harness/sio replaces it (records, blocks found by name, a lossless compression, streams in memory), so the on-disk format of the library is not part of this.")

SOURCES = ("SIOReader.cc", "SIOWriter.cc", "SIOBlock.cc", "SIOFrameData.cc", "SIOBlockUserData.cc", "SIOLegacyReader.cc", "Reader.cc", "Writer.cc")


def run(tier, rep):
    rep.cpp("c08", ["c08.cc", "vf.cc"], models=("vfm", "vfi"), sio=True, includes=[os.path.join(build.VERIF, "harness", "sio")],
            defs=("-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1"), extra_units=[os.path.join(build.REPO, "src", s) for s in SOURCES], link_extra=("-ldl",))
