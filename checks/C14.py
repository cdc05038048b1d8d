TECHNIQUE = "exhaustive enumeration of operation sequences on real objects; all pairs and triples of handles to them are compared with the reference model's identities"
NOTE = ("After every sequence up to the reported depth all ways to reach each object (mutable, immutable, interface, element, relation target) are compared "
        "pairwise for ==, !=, <, hash and ID, all triples for transitivity, and twice for stability; empty handles of all types; IDs of all small "
        "subset/owning combinations while writing and after reading back.")


def run(tier, rep):
    rep.cpp("c14", ["c14.cc", "vf.cc"])
