TECHNIQUE = "exhaustive enumeration of operation sequences on real tables against a reference map and an independently written hash, and stateless model checking of concurrent use under a controlled scheduler"
NOTE = ("All sequences up to the reported depth of adding six names (empty, with NUL, long), rebuilding from lists and moving between two tables, with every lookup "
        "asked after each step; names of every length 0 to 300 (thorough 700) over four fill bytes with other bytes at five positions; concurrently, all programs of "
        "10 calls two against two with up to 3 preemptions and triples with up to 3 (thorough 5, 6), on tables that do and do not grow.")


def run(tier, rep):
    rep.cpp("c06", ["c06.cc"], models=(), flavour="mc", plain_sources=("vf.cc", "mc_rt.cc"), link_extra=("-ldl",))
    rep.assume("threads switch at lock, atomic and static initialisation operations; every memory access is checked for races, so other switches give the same results",
               "memory is sequentially consistent (races are reported as such)")
