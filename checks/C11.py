TECHNIQUE = "exhaustive enumeration of operation sequences on real objects and collections against a reference model of ownership"
NOTE = ("Every sequence up to the reported depth of making, cloning, adding to owning and subset collections through mutable and immutable handles, "
        "creating, switching subset mode, clearing, moving and changing; each refusal is checked both ways and everything observable is compared after "
        "every step; then all collections are written and compared. Collections of original and read-back Frames, and links, likewise.")


def run(tier, rep):
    rep.cpp("c11", ["c11.cc", "vf.cc"])
