TECHNIQUE = "exhaustive enumeration of operation sequences on real originals and clones against a reference model"
NOTE = ("From every ownership state (free, created in or added to a collection at index 0 and 1, held by mutable or only by immutable handles) every "
        "sequence up to the reported depth of cloning both ways, changing, relating, adding and destroying either side, with everything compared after "
        "every step. Every object of five types read back through a Frame or from buffers is cloned through immutable and mutable handles, changed, put "
        "into a collection and written.")


def run(tier, rep):
    rep.cpp("c12", ["c12.cc", "vf.cc"])
