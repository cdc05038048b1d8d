TECHNIQUE = "exhaustive enumeration of operation sequences on real collections against a reference model (a plain sequence)"
NOTE = ("Every sequence up to the reported depth of creating, adding, refusing, clearing, moving, swapping, subset switching, changing elements and "
        "building from ranges on two collections, for every data type and for links; afterwards all access paths (indexing, checked access, all iterator "
        "pairs and arithmetic, reverse, ranges, algorithms, member vectors of every length) are compared with the model, also after reading back.")


def run(tier, rep):
    rep.cpp("c15", ["c15.cc", "vf.cc"])
