TECHNIQUE = "exhaustive enumeration of operation sequences on real links and link collections against a reference model, each with writing and reading back"
NOTE = ("Three link types (different types, the same type, an interface at one end). Every sequence up to the reported depth of making, setting (all "
        "forms), cloning, copying, adding, subsetting, clearing and moving, with all accessors compared after every step, then destroyed in two "
        "orders or written and read back and written again.")


def run(tier, rep):
    rep.cpp("c17", ["c17.cc", "vf.cc"])
    rep.assume("targets: three objects per side, one of them in no collection")
