TECHNIQUE = "exhaustive enumeration of operation sequences on real user data collections against std::vector as the reference model"
NOTE = ("For each of the ten number types every sequence up to the reported depth of pushing, creating, resizing, clearing, writing, moving in and out, "
        "building from vectors and ranges, subset requests, preparing, reading back and passing through a Frame, with the extreme values of the type; "
        "everything observable is compared bit for bit afterwards, before and after reading back.")


def run(tier, rep):
    rep.cpp("c19", ["c19.cc", "vf.cc"])
