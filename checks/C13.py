TECHNIQUE = "exhaustive enumeration of setter sequences on real objects against plain structures, with all accessor forms compared"
NOTE = ("Every sequence up to the reported depth of all setter forms of all members (numbers, flag, components and nested components, array and its "
        "elements), vector members, one-to-one and one-to-many relations, also to interfaces, on two objects outside, created in and added to a "
        "collection; all getters, ranges, iterators and out-of-range accesses are compared after every step, and for every small shape of relations "
        "after reading back. Defaults and full constructors included.")


def run(tier, rep):
    rep.cpp("c13", ["c13.cc", "vf.cc"])
