TECHNIQUE = "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with vector-clock race detection, against all sequential orders of the calls"
NOTE = ("Programs of 14 parameter operations on one value type (all four types), initially empty or filled: all pairs with up to 4 preemptions, two-against-one and "
        "triples with 2 (thorough: 8, 4, 3, and two against two); 10 operations on all types of two objects with copies of them, and 8 on the parameters of a Frame, two against one.")


def run(tier, rep):
    rep.cpp("c05", ["c05.cc"], models=(), flavour="mc", plain_sources=("vf.cc", "mc_rt.cc"), link_extra=("-ldl",))
    rep.assume("threads switch at lock, atomic and static initialisation operations; every memory access is checked for races, so other switches give the same results",
               "memory is sequentially consistent (races are reported as such)")
