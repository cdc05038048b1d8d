TECHNIQUE = "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with vector-clock race detection, against all sequential orders of the calls"
NOTE = ("Programs of 14 Frame calls (typed, untyped, wrongly typed and missing lookups, additions of new and existing names, listing, names, ID table) on a "
        "Frame over stored collections with cyclic relations, subset, link and user data collections: all pairs of calls with up to 3 preemptions, all two-against-one "
        "with up to 2, all triples with 1 (thorough: 5, 3, 2, and two against two with 2). The results of all threads and the final contents have to be those "
        "of one of the sequential orders, which are executed on the same code; all threads have to get the same objects.")


def run(tier, rep):
    rep.cpp("c02", ["c02.cc"], flavour="mc", plain_sources=("vf.cc", "mc_rt.cc"), link_extra=("-ldl",))
    rep.assume("threads switch at lock, atomic and static initialisation operations; every memory access is checked for races, so other switches give the same results",
               "memory is sequentially consistent (races are reported as such)")
