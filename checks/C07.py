TECHNIQUE = "exhaustive enumeration of all small object graphs on the real generated code; written buffers are rebuilt and compared in full with the original"
NOTE = ("All relation assignments between two clusters and three hits, tracks with interface relations and links, vector members of every small length in "
        "up to three objects, subset collections of every content and order, extreme member values, empty slots, and all placements of objects in no "
        "collection with repeated attempts to write; rebuilt collections are compared by contents and by identity of every relation target, written again, "
        "and read a second time.")


def run(tier, rep):
    rep.cpp("c07", ["c07.cc", "vf.cc"])
