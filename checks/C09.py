TECHNIQUE = "exhaustive enumeration of access sequences, access orders and missing collections on real Frames over stored data"
NOTE = ("Every sequence up to the reported depth of reading any of eleven interrelated collections, preparing them for writing, adding unrelated, related and "
        "subset collections, listing, moving and querying; all orders of first access; all sets of missing collections. Afterwards everything is read, compared "
        "with the original by contents and identity, written again and compared with what was stored; unpacking is counted. Stored data is an in-memory copy of "
        "the write buffers (FrameData concept), not a file.")


def run(tier, rep):
    rep.cpp("c09", ["c09.cc", "vf.cc"])
