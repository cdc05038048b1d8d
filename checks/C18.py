TECHNIQUE = "exhaustive enumeration of all small link multigraphs on the real link collections and navigator, against a list of the links"
NOTE = ("All link collections with up to the reported number of links between two (three) objects at each end, also missing ends, equal and different "
        "weights and repeated links, objects inside and outside collections; for different types, equal types, an interface end and subset collections; every "
        "object (and an unlinked and a merely equal-looking one) is asked for in both directions through every overload; copied, moved and assigned "
        "navigators; link collections in Frames and read back.")


def run(tier, rep):
    rep.cpp("c18", ["c18.cc", "vf.cc"])
