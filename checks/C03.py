TECHNIQUE = "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with vector-clock race detection, against what a single writer gets"
NOTE = ("Programs of 15 calls (fetching each of 9 kinds of collections for writing and copying its buffers, one that cannot be written, parameters, ID table, "
        "readers) on a Frame with new and on one with stored collections: all pairs with up to 2 preemptions, triples and two-against-one with 1 (thorough: 4, 2, 3). "
        "Every result in every thread, and the same call afterwards, has to be what a single caller gets.")


def run(tier, rep):
    rep.cpp("c03", ["c03.cc"], flavour="mc", plain_sources=("vf.cc", "mc_rt.cc"), link_extra=("-ldl",))
    rep.assume("threads switch at lock, atomic and static initialisation operations; every memory access is checked for races, so other switches give the same results",
               "memory is sequentially consistent (races are reported as such)")
