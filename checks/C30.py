TECHNIQUE = "exhaustive enumeration of objects, object graphs, streams and parameter sets; output of the real code against renderers written from the model"
NOTE = ("All combinations of boundary values for every kind of member (arrays, components, arrays of components), all graphs of up to two (thorough: three) relations among six objects of types that "
        "refer to each other (also through an interface and to themselves), links, user data and parameter sets, printed through streams with four formats; the text is compared up to white space, the "
        "flags and precision of the stream and the objects have to be as before. JSON values are compared exactly. Array members are not part of printed collections; the table of subset link "
        "collections and JSON of unavailable objects are left open.")


def run(tier, rep):
    rep.cpp("c30", ["c30.cc", "vf.cc"], models=("vfp",))
