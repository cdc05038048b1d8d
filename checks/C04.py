TECHNIQUE = "exhaustive enumeration of operation sequences on the real parameters against reference maps"
NOTE = ("Every sequence up to the reported depth of setting (6 forms, 4 types, 2 keys), clearing, copying, moving, swapping, extracting "
        "and loading agrees with one plain map per type, checked completely after every step, on the parameters and through a Frame. "
        "What loading does to a key that exists already is not specified and not judged.")


def run(tier, rep):
    rep.cpp("c04", ["c04.cc", "vf.cc"], models=())
    rep.assume("value alphabet: 5 special values per type plus ordinary ones")
