import copy
import itertools
import os

from checks import modelprobe as mp
from checks.modelprobe import INFO, Model
from vf import gen
from vf.pyenum import Bad, explore

TECHNIQUE = "exhaustive enumeration of models from a bounded grammar; every model is generated, compiled and probed by a generated program that asks for every name and type"
NOTE = ("All combinations of the three options with namespace schemes for a model with every kind of member, default, array, component, relation, vector "
        "member, extra code, interface and link; all subsets of kinds of content of one data type; every builtin type in every position. Each generated "
        "file is compiled on its own. The probe lists every name that any accessor could have and requires exactly the expected ones with exact types, then sets and reads everything.")

BUILTINS = ["int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool", "long long", "unsigned long long"]
FIXED = ["int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"]
ALL = BUILTINS + FIXED + ["std::" + t for t in FIXED]
DEFAULTS = {"bool": "true", "char": "'x'", "float": "1.25f", "double": "-1.5e300", "unsigned long long": "18446744073709551615ULL", "long long": "-9223372036854775807LL", "short": "-32768"}


def ident(t):
    return t.replace("std::", "std_").replace(" ", "_")


def default(t):
    return DEFAULTS.get(t, "42")


SCHEMES = {
    "plain": lambda n, i: n,
    "one": lambda n, i: "ns::" + n,
    "mixed": lambda n, i: ["a::", "", "b::"][i % 3] + n,
    "mixed2": lambda n, i: ["", "b::", "a::"][i % 3] + n,
}
NAMES = ["Basic", "Arrays", "Nested", "Coded", "Values", "Many", "First", "Second", "Third", "Empty", "Relonly", "Wrapper", "Wide", "Iface", "Iface2", "Link1", "Link2", "Link3"]


def names(scheme):
    return {n: SCHEMES[scheme](n, i) for i, n in enumerate(NAMES)}


def kitchen(scheme, opts):
    """a model with everything"""
    N = names(scheme)
    B, A, X, C = N["Basic"], N["Arrays"], N["Nested"], N["Coded"]
    text = {
        "schema_version": 7,
        "options": opts,
        "components": {
            X: {"Members": [f"{B} inner", f"{A} arrs", "int own{-3} [mm] // with a comment", f"std::array<{B}, 2> list", f"{C} defcomp{{-1, 2.25}} [mm] // with default"]},
            B: {"Members": [f"{t} b_{ident(t)}" for t in ALL]},
            A: {"Members": ["std::array<int, 3> ints{1, 2, 3} // numbers", "std::array<bool,1> flag", "std::array<std::uint16_t, 4> small", "std::array<double, 2> dbl [GeV]"]},
            C: {"Members": ["float cx{1.5}", "float cy{2.5} [mm]"],
                "ExtraCode": {"includes": "#include <cmath>\n#include <cstdlib>", "declaration": "float norm() const { return std::sqrt(cx * cx + cy * cy); }\n  static constexpr int magic = 4711;"}},
        },
        "datatypes": {
            N["Values"]: {**INFO, "Members": [f"{t} v{ident(t)} // plain" for t in ALL] + [f"{t} d{ident(t)}{{{default(t)}}} [cm] // with default" for t in ALL]
                          + ["std::array<float, 2> farr{1.f, 2.f} [mm/s] // array", f"std::array<{C}, 3> carr // of components", "std::array<uint64_t, 5> uarr // fixed width",
                             f"{C} defcoded{{3.5, 4}} [GeV] // with default", f"std::array<{C}, 2> defcodeds{{{C}(1, 2), {C}(3, 4)}} // with default"]},
            N["Wrapper"]: {**INFO, "Members": [f"{X} nested // all", f"{C} coded // with code", "int plain // builtin", "bool Upper // upper case", "int snake_case9 // numbers"]},
            N["Many"]: {**INFO, "Members": ["double energy{2.5} [GeV] // d", "int tag // d"],
                        "VectorMembers": [f"{t} vec{ident(t)} // of builtins" for t in ALL if t != "bool"] + [f"{C} vcoded // of components", f"{X} vnested // of components"]},
            N["First"]: {**INFO, "Members": ["double energy // d", "int tag // d"],
                         "OneToOneRelations": [f"{N['First']} me // self", f"{N['Second']} later // later", f"{N['Many']} earlier // earlier", f"{N['Iface']} some // interface"],
                         "OneToManyRelations": [f"{N['First']} mes // self", f"{N['Many']} earliers // earlier", f"{N['Second']} laters // later", f"{N['Iface']} somes // interface"],
                         "VectorMembers": ["int numbers // d", f"{C} comps // d"]},
            N["Wide"]: {**INFO, "Members": ["double energy{7} // d", "int tag // d", "double energy2 // d"]},
            N["Second"]: {**INFO, "Members": ["double energy // d", "int tag // d", "int third // d"], "OneToOneRelations": [f"{N['First']} back // cyclic"]},
            N["Third"]: {**INFO, "Members": ["int value{5} // d"],
                         "ExtraCode": {"includes": "#include <string>\n#include <cmath>",
                                       "declaration": "std::string hello() const;\n  int twice() const { return 2 * static_cast<int>(std::floor(0.5 + " + ("getValue" if opts.get("getSyntax") else "value") + "())); }",
                                       "implementation": "std::string {name}::hello() const { return \"{name}\"; }", "declarationFile": "decl.txt", "implementationFile": "impl.txt"},
                         "MutableExtraCode": {"includes": "#include <complex>", "declaration": "void triple();", "implementation": "void {name}::triple() { " + ("setValue(3 * getValue()" if opts.get("getSyntax") else "value(3 * value()") + "); }",
                                              "declarationFile": "mdecl.txt", "implementationFile": "mimpl.txt"}},
            N["Empty"]: {**INFO},
            N["Relonly"]: {**INFO, "OneToManyRelations": [f"{N['Third']} thirds // d"], "OneToOneRelations": [f"{N['Iface2']} one // d"]},
        },
        "interfaces": {
            N["Iface"]: {**INFO, "Types": [N["Many"], N["Wide"]], "Members": ["double energy // d", "int tag [mm] // d"]},
            N["Iface2"]: {**INFO, "Types": [N["Wrapper"]], "Members": [f"{C} coded // d", "bool Upper // d"]},
        },
        "links": {
            N["Link1"]: {**INFO, "From": N["First"], "To": N["Second"]},
            N["Link2"]: {**INFO, "From": N["Iface"], "To": N["Iface"]},
            N["Link3"]: {**INFO, "From": N["Third"], "To": N["Third"]},
        },
    }
    files = {"decl.txt": "int fromFile() const;\n", "impl.txt": "int {name}::fromFile() const { return 17; }\n", "mdecl.txt": "int fromMutableFile() { return 18; }\n", "mimpl.txt": "// {name}\n"}
    t = N["Third"].split("::")
    ns, bare = ("::" + t[0] + "::", t[1]) if len(t) == 2 else ("::", t[0])
    T, M = ns + bare, ns + "Mutable" + bare
    v = "getValue" if opts.get("getSyntax") else "value"
    probes = {
        N["Third"]: {"const": ["hello", "twice", "fromFile"], "mutable": ["triple", "fromMutableFile"],
                     "checks": [f'{T}{{}}.hello() == "{bare}" && {M}{{}}.hello() == "Mutable{bare}" && {T}{{}}.twice() == 10 && {T}{{}}.fromFile() == 17 && {M}{{}}.fromFile() == 17 && {M}{{}}.fromMutableFile() == 18',
                                f"[] {{ {M} x; x.triple(); return x.{v}() == 15; }}()"]},
        C: {"checks": [f"::{C}{{3, 4}}.norm() == 5 && ::{C}::magic == 4711"]},
    }
    return text, files, probes


KINDS = ["builtin", "component", "array", "vector", "one", "many", "ione", "imany", "code"]


def subset(kinds, ns, opts):
    """one data type with a subset of the kinds of content"""
    T, O, C, I = ns + "T", ns + "Other", ns + "Comp", ns + "If"
    d = {**INFO}

    def add(k, *v):
        d.setdefault(k, []).extend(v)
    if "builtin" in kinds:
        add("Members", "int number{3} [mm] // d", "float other // d")
    if "component" in kinds:
        add("Members", f"{C} comp // d")
    if "array" in kinds:
        add("Members", "std::array<int, 2> arr // d", f"std::array<{C}, 2> comps // d")
    if "vector" in kinds:
        add("VectorMembers", "int ints // d", f"{C} vcomps // d")
    if "one" in kinds:
        add("OneToOneRelations", f"{T} self // d", f"{O} onlyone // d")
    if "many" in kinds:
        add("OneToManyRelations", f"{O} others // d", f"{T} selves // d")
    if "ione" in kinds:
        add("OneToOneRelations", f"{I} iface // d")
    if "imany" in kinds:
        add("OneToManyRelations", f"{I} ifaces // d")
    if "code" in kinds:
        d["ExtraCode"] = {"declaration": "int answer() const { return 42; }"}
    text = {"schema_version": 1, "options": opts, "components": {C: {"Members": ["double cx{0.5}", "int cn"]}}, "datatypes": {T: d, O: {**INFO, "Members": ["int energy // d"]}}}
    if {"ione", "imany"} & set(kinds):
        text["interfaces"] = {I: {**INFO, "Types": [O], "Members": ["int energy // d"]}}
    return text, {}, {T: {"const": ["answer"], "checks": [f"::{T}{{}}.answer() == 42"]}} if "code" in kinds else {}


def options():
    return [dict(zip(("getSyntax", "exposePODMembers", "includeSubfolder"), v)) for v in itertools.product((False, True), repeat=3)]


TEXTS = ["plain", "it's \"quoted\"", "ends in a backslash \\", "back\\slash \\n \\u12 %d {x} {{y}} {% z %}", "*/ int x; /*", "/* open", "é ü 漢", "R\"(raw)\"", "??/", "#include <x>", "// more // ", "@file <tag> & 'x'", "a" * 300]
VARIABLES = ["value", "i", "o", "other", "component", "index", "a", "b", "j", "tmp", "ret_value", "obj", "data", "rhs", "lhs", "size_", "x", "entries", "buffers", "nElem", "collection", "begin_",
             "it", "v", "os", "member", "result", "prefix", "Type", "string", "vector", "std_", "podio_", "_lead", "X9", "elem", "item", "ID", "N", "key", "name", "range", "el", "m", "self"]


def special():
    """models with something unusual each"""
    out = {}
    opts = options()

    def case(name, dts, comps=None, ifs=None, links=None, version=1, o=None, files=None, probes=None):
        t = {"schema_version": version, "options": o if o is not None else opts[len(out) % 8]}
        if comps:
            t["components"] = comps
        t["datatypes"] = dts
        if ifs:
            t["interfaces"] = ifs
        if links:
            t["links"] = links
        out[name] = (t, files or {}, probes or {})

    for o in (opts[2], opts[7]):
        for i, t in enumerate(TEXTS):
            info = {"Description": t, "Author": TEXTS[(i + 1) % len(TEXTS)]}
            C, T, I = "Comp", "ns::T", "I"
            case(f"text {i} {o}", {T: {**info, "Members": [f"int one [mm] // {t}", f"{C} two // {t}", f"std::array<int, 2> three // {t}", f"float four{{1.f}} // {t}"], "VectorMembers": [f"int v // {t}", f"float w // {t}"],
                                       "OneToOneRelations": [f"{T} r // {t}", f"{I} ri // {t}"], "OneToManyRelations": [f"{T} rs // {t}", f"I ris // {t}"]},
                                   "U": {**info, "Members": [f"int one // {t}", f"int five // {t}"]}},
                 {C: {"Members": [f"int x // {t}", f"double y{{2.5}} [GeV] // {t}", "int z"]}}, {I: {**info, "Types": ["U"], "Members": [f"int one // {t}", f"int five // {t}"]}}, {"L": {**info, "From": T, "To": I}}, o=o)
    for o in (opts[2], opts[6], opts[3]):
        # names that the generated code might use itself
        vs = VARIABLES if not o["getSyntax"] else [v for v in VARIABLES if not v.startswith("_")]
        half = len(vs) // 2
        case(f"names {o}", {"T": {**INFO, "Members": [f"int {v} // d" for v in vs[:half]], "OneToManyRelations": [f"U {v} // d" for v in vs[half:]]},
                            "U": {**INFO, "Members": [f"float {v}{{1}} // d" for v in vs[half:]], "VectorMembers": [f"int {v} // d" for v in vs[:half]]},
                            "V": {**INFO, "OneToOneRelations": [f"T {v} // d" for v in vs]}}, {"C": {"Members": [f"int {v}" for v in vs]}}, o=o)
    for v in (1, 2, 9, 123456):
        case(f"version {v}", {"a::T": {**INFO, "Members": ["C c // d"]}}, {"C": {"Members": ["int x"]}}, version=v)
    # order of definitions
    comps = {"A": {"Members": ["int a1"]}, "n::B": {"Members": ["A inb"]}, "m::C": {"Members": ["n::B inc", "A ina"]}, "D": {"Members": ["m::C ind", "std::array<n::B, 2> arrd"]}}
    for i, p in enumerate(itertools.permutations(comps)):
        case(f"order {p}", {"T": {**INFO, "Members": [f"{p[0]} first // d"], "VectorMembers": [f"{p[1]} second // d"]}}, {k: comps[k] for k in p}, o={**opts[i % 8], "exposePODMembers": i % 2 == 0})
    dts = {"A": {**INFO, "Members": ["int ma // d"]}, "n::B": {**INFO, "OneToManyRelations": ["A ras // d"]}, "m::C": {**INFO, "OneToOneRelations": ["n::B rb // d", "A ra // d"]}, "n::D": {**INFO, "OneToManyRelations": ["m::C rcs // d", "n::I ris // d"]}}
    for i, p in enumerate(itertools.permutations(dts)):
        case(f"order of types {p}", {k: dts[k] for k in p}, ifs={"n::I": {**INFO, "Types": ["A", "n::B"], "Members": []}}, links={"L": {**INFO, "From": p[0], "To": p[1]}, "m::L2": {**INFO, "From": "n::I", "To": p[2]}}, o=opts[i % 8])
    # only some parts
    T = {"T": {**INFO, "Members": ["int x // d"]}}
    case("no components", T)
    case("only components", {}, {"C": {"Members": ["int x"]}})
    case("several interfaces", {**T, "U": {**INFO, "Members": ["int x // d"]}}, ifs={"I": {**INFO, "Types": ["T"], "Members": []}, "n::J": {**INFO, "Types": ["T", "U"], "Members": ["int x // d"]}, "K": {**INFO, "Types": ["U", "T"], "Members": []}})
    case("all links", {**T, "n::U": {**INFO}}, ifs={"n::I": {**INFO, "Types": ["T", "n::U"], "Members": []}},
         links={f"{'n::' if (i + j) % 2 else ''}L{i}{j}": {**INFO, "From": a, "To": b} for i, a in enumerate(("T", "n::U", "n::I")) for j, b in enumerate(("T", "n::U", "n::I"))})
    case("same member names", {"T": {**INFO, "Members": ["int x // d", "C c // d"]}, "U": {**INFO, "Members": ["C x // d"], "VectorMembers": ["C c // d"]}}, {"C": {"Members": ["int y"]}})
    case("vectors of components", {"ns::T": {**INFO, "VectorMembers": ["ns::C cs // d", "D ds // d"]}}, {"ns::C": {"Members": ["int y"]}, "D": {"Members": ["std::array<ns::C, 2> z"]}})
    case("vector of bool", {"T": {**INFO, "VectorMembers": ["bool flags // d"]}})
    case("default of a component", {"T": {**INFO, "Members": ["C c{1, 2.5} // d", "std::array<C, 2> cs{C(1, 2), C(3, 4)} // d", "double lim{std::numeric_limits<double>::max()} // d"], "ExtraCode": {"includes": "#include <limits>"}}},
         {"C": {"Members": ["int a", "double b"]}})
    case("default of a namespaced component", {"T": {**INFO, "Members": ["n::C c{1, 2.5} // d", "int i{3} // d"]}, "m::U": {**INFO, "Members": ["D c{n::C(1, 3.5)} // d", "n::C c2{4, 5} [mm] // d"]}},
         {"n::C": {"Members": ["int a", "double b"]}, "D": {"Members": ["n::C inner{7, 8.5}", "n::C none"]}})
    case("code with braces", {"T": {**INFO, "Members": ["int x // d"], "ExtraCode": {"declaration": "struct Inner { int v = 3; };\n  Inner inner() const;\n  template <class X> X as() const { return X(1); }", "implementation": "{name}::Inner {name}::inner() const { return {}; }\n// {name}"},
                                      "MutableExtraCode": {"declaration": "void twice() { auto& me = *this; (void)me; }"}}}, o=opts[0],
         probes={"T": {"const": ["inner", "as"], "mutable": ["twice"], "checks": ["::T{}.inner().v == 3 && ::MutableT{}.inner().v == 3 && ::T{}.as<int>() == 1"]}})
    case("code with own header", {"T": {**INFO, "ExtraCode": {"includes": '#include "myheader.h"', "declaration": "Mine mine() const { return {}; }"}}, "U": {**INFO, "MutableExtraCode": {"includes": '#include "myheader.h"', "declaration": "Mine mine() { return {}; }"}}},
         {"C": {"Members": ["int y"], "ExtraCode": {"includes": '#include "myheader.h"', "declaration": "Mine mine() const { return {}; }"}}}, files={"myheader.h": "#pragma once\nstruct Mine { int m = 6; };\n"},
         probes={"T": {"const": ["mine"], "checks": ["::T{}.mine().m == 6"]}, "U": {"mutable": ["mine"], "checks": ["::MutableU{}.mine().m == 6"]}, "C": {"checks": ["::C{}.mine().m == 6"]}})
    return out


def cycles():
    """types that refer to each other"""
    def rel(one=(), many=()):
        d = {**INFO, "Members": ["int e // d"]}
        if one:
            d["OneToOneRelations"] = [f"{t} one{t.replace('::', '_')} // d" for t in one]
        if many:
            d["OneToManyRelations"] = [f"{t} many{t.replace('::', '_')} // d" for t in many]
        return d
    o = dict(getSyntax=False, exposePODMembers=True, includeSubfolder=True)
    I = {"I": {**INFO, "Types": ["B"], "Members": ["int e // d"]}}
    models = {
        "one-one": ({"A": rel(["B"]), "B": rel(["A"])}, {}),
        "one-many": ({"A": rel(["B"]), "B": rel([], ["A"])}, {}),
        "many-one": ({"A": rel([], ["B"]), "B": rel(["A"])}, {}),
        "one-one-one": ({"A": rel(["B"]), "n::B": rel(["C"]), "C": rel(["A"])} and {"A": rel(["B"]), "B": rel(["C"]), "C": rel(["A"])}, {}),
        "many-one-one": ({"A": rel([], ["B"]), "B": rel(["C"]), "C": rel(["A"])}, {}),
        "one-interface-one": ({"A": rel(["I"]), "B": rel(["A"])}, I),
        "one-own-interface": ({"B": rel(["I"])}, I),
        "many-many": ({"A": rel([], ["B"]), "B": rel([], ["A"])}, {}),
        "many-many-many": ({"A": rel([], ["B"]), "B": rel([], ["C"]), "C": rel([], ["A"])}, {}),
        "many-interface-one": ({"A": rel([], ["I"]), "B": rel(["A"])}, I),
        "many-interface-many": ({"A": rel([], ["I"]), "B": rel([], ["A"])}, I),
        "one-interface-many": ({"A": rel(["I"]), "B": rel([], ["A"])}, I),
        "many-interface-one-one": ({"A": rel([], ["I"]), "B": rel(["C"]), "C": rel(["A"])}, I),
        "one-many-own-interface": ({"B": rel(["I"], ["I"])}, I),
        "two-interfaces": ({"A": rel([], ["I"]), "B": rel(["J"])}, {**I, "J": {**INFO, "Types": ["A"], "Members": ["int e // d"]}}),
        "many-two-interfaces": ({"A": rel([], ["I"]), "B": rel([], ["J"])}, {**I, "J": {**INFO, "Types": ["A"], "Members": ["int e // d"]}}),
        "namespaces": ({"a::A": rel([], ["b::B"]), "b::B": rel(["a::A"], ["a::A"])}, {}),
        "many-own-interface": ({"B": rel([], ["I"])}, I),
    }
    return {n: ({"schema_version": 1, "options": o, "datatypes": d, **({"interfaces": i} if i else {})}, {}, {}) for n, (d, i) in models.items()}


def cases(tier):
    out = []
    parts = 16
    for s, o in (("mixed", dict(getSyntax=True, exposePODMembers=True, includeSubfolder=False)), ("plain", dict(getSyntax=False, exposePODMembers=True, includeSubfolder=True))):
        out += [("alone", s, o, k, parts) for k in range(parts)]
    for i, o in enumerate(options()):
        for s in SCHEMES if tier == "thorough" else [list(SCHEMES)[i % 4]]:
            out.append(("kitchen", s, o))
    i = 0
    for r in range(len(KINDS) + 1):
        for ks in itertools.combinations(KINDS, r):
            if tier != "thorough" and r > 2 and r < len(KINDS) - 1:
                continue
            out.append(("subset", ks, ("", "ns::")[(i + r) % 2], options()[i % 8]))
            i += 1
    return out


def build_case(case):
    if case[0] in ("kitchen", "alone"):
        return kitchen(case[1], dict(case[2]))
    if case[0] == "subset":
        return subset(case[1], case[2], dict(case[3]))
    return case[2]


# explored on their own, so that the known findings can name them
BROKEN_CYCLES = ("two-interfaces", "many-two-interfaces", "many-interface-many")
CYCLE_PARTS = 2


def run_special(rep, tc, scratch):
    def one(case):
        text, files, probes = case[1]
        return mp.try_model(tc, Model(text, "pkg", files, probes=probes), scratch.dir())

    explore(rep, "unusual", list(special().items()), one)

    def cycle(case):
        # everything in one file and every file on its own; only the internal header of the
        # storage of a collection may rely on being included by the header of the collection
        m = Model(case[1][0], "pkg")
        if case[2] < CYCLE_PARTS:
            return mp.try_alone(tc, m, scratch.dir(), case[2], CYCLE_PARTS, internal=False)
        return mp.try_model(tc, m, scratch.dir())

    known = {n: c for n, c in cycles().items() if n in BROKEN_CYCLES}
    explore(rep, "cycles", [(n, c, k) for n, c in cycles().items() if n not in known for k in range(CYCLE_PARTS + 1)], cycle)
    for n, c in known.items():
        explore(rep, f"cycle {n}", [(n, c, k) for k in range(CYCLE_PARTS + 1)], cycle)


def run(tier, rep):
    gen.preload()
    with gen.Scratch("c28") as scratch:
        tc = mp.Toolchain(scratch.path)

        def one(case):
            text, files, probes = build_case(case)
            m = Model(text, "pkg", files, probes=probes)
            if case[0] == "alone":
                return mp.try_alone(tc, m, scratch.dir(), case[3], case[4], json=True)
            return mp.try_model(tc, m, scratch.dir())

        explore(rep, "models", cases(tier), one)
        run_special(rep, tc, scratch)
