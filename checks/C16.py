TECHNIQUE = "exhaustive enumeration of operation sequences on real interface objects against a reference model of what each one holds"
NOTE = ("Every sequence up to the reported depth of making, assigning from mutable and immutable handles of all types, copying, moving, swapping, unlinking "
        "and self-assigning interface objects, changing the objects and dropping their handles, for three interfaces (different members, type orders and "
        "namespaces); kind, casts, refusals, members, IDs, equality, order, hash and printing are compared with the object itself. Interfaces as relations "
        "and link ends: all small assignments, before and after reading back.")


def run(tier, rep):
    rep.cpp("c16", ["c16.cc", "vf.cc"], models=("vfm", "vfi"))
