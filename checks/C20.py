TECHNIQUE = "exhaustive enumeration of registration sequences on the real registries against a reference table, with every question asked after each"
NOTE = ("Every sequence up to the reported depth of registering evolution functions (two types, any current version up to 4, any older version, user or "
        "automatic, any order) and creation functions (versions 1 to 4), then every version from 0 beyond the current one for known and unknown types: which "
        "function runs, with which version, that nothing else is touched, and that unknown ones are reported. Two user functions for one type and version "
        "are outside the contract and not judged. All types of a generated model and Frames over stored data of all old versions likewise.")


def run(tier, rep):
    rep.cpp("c20", ["c20.cc", "vf.cc"])
