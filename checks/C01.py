TECHNIQUE = "exhaustive enumeration of operation sequences on the real Frame against a reference map"
NOTE = ("Every sequence of put/get/typed get/list/move/fill/missing-name operations up to the reported depth over three names, two "
        "collection types and Frames made in memory or from raw data agrees with a plain map. Assumes names that do not collide in "
        "the 32 bit name hash; the raw data is an in-memory stand-in for a reader.")


def run(tier, rep):
    rep.cpp("c01", ["c01.cc", "vf.cc"])
    rep.assume("collection names do not collide in the 32 bit hash", "sequences up to the reported depth over three names")
