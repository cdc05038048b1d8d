TECHNIQUE = "exhaustive enumeration of operation sequences on real handles and collections against a reference model, with address checking and exact allocation balance"
NOTE = ("Every sequence up to the reported depth of making, copying, moving, swapping, relating, cloning, adding, clearing and destroying (17 handle, 20 "
        "collection, 23 link and 14 Frame operations), ended by three orders of destruction; everything that can be observed is compared with a "
        "reference model after every step. Untracked cycles of relations are left out of the leak balance.")


def run(tier, rep):
    rep.cpp("c10", ["c10.cc", "vf.cc"])
    rep.assume("a sequence is cut after an operation without effect in the quick tier", "handles to objects of a destroyed collection are only destroyed, not used")
