import copy
import itertools
import os
import shutil
import subprocess
import sys

from checks import membergrammar as mg
from vf import build
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of single faults and edits at every place of base models, in all orders of types, against an independent oracle"
NOTE = ("All single edits (delete, add, rename, replace from an alphabet of declarations and type names) at every place of three base models "
        "(thorough: all pairs of edits), each in several orders of the types and with and without an upstream model and exposePODMembers, judged by an "
        "independent well-formedness oracle; and the generator run on one representative of each kind of fault. Unknown keys on the top "
        "level, unknown options, values of the wrong YAML kind, recursive components and member types of interfaces are left open.")

DT_KEYS = {"Description", "Author", "Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode"}
EC_KEYS = {"declaration", "implementation", "includes", "declarationFile", "implementationFile"}


def nested(name):
    parts = name.split("::")
    return len(parts) > 2


def faults(m, up, expose_default=True):
    """all faults of a model (as read from YAML), None if that is left open"""
    out = []
    try:
        if "schema_version" not in m:
            out.append("no schema version")
        elif int(m["schema_version"]) <= 0:
            out.append("schema version")
    except ValueError:
        out.append("schema version")
    comps, dts, ifs, links = (m.get(k, {}) for k in ("components", "datatypes", "interfaces", "links"))
    ucomps, udts, uifs = (set(up.get(k, {})) if up else set() for k in ("components", "datatypes", "interfaces"))
    allc = set(comps) | ucomps
    expose = m.get("options", {}).get("exposePODMembers", expose_default)
    cats = (comps, dts, ifs, links)
    names = [n for c in cats for n in c]
    bare = [n.split("::")[-1] for n in set(names)]
    if len(set(bare)) < len(bare) or any(b + x in bare or "Mutable" + b in bare for b in bare for x in ("Data", "Collection", "Obj", "CollectionData")):
        return None  # files with the same name for types of different namespaces: left open
    for n in set(names):
        if names.count(n) > 1:
            out.append(f"type {n} defined twice")
        if nested(n):
            out.append(f"type {n} in nested namespace")
    for n in ifs:
        if n in udts | uifs:
            out.append(f"interface {n} is an upstream type")
    for n in links:
        if n in udts | uifs:
            out.append(f"link {n} is an upstream type")

    def decl(text, need, where):
        st, d = mg.parse(text, need)
        if st == "bad":
            out.append(f"{where}: {text!r}: {d}")
            return None
        assert st == "ok", text
        return d

    def value_type(d, vector):
        if d.array_type is not None:
            return not vector and (mg.is_builtin(d.array_type) or d.array_type in allc)
        return mg.is_builtin(d.type) or d.type in allc

    parsed = {}
    for n, c in comps.items():
        for k in c:
            if k not in ("Members", "ExtraCode", "Description", "Author"):
                out.append(f"component {n}: {k}")
        for k in c.get("ExtraCode", {}):
            if k not in ("declaration", "declarationFile", "includes"):
                out.append(f"component {n}: extra code {k}")
        if "Members" not in c:
            out.append(f"component {n}: no members")
        ds = parsed[n] = [x for x in (decl(t, False, n) for t in c.get("Members", [])) if x]
        for d in ds:
            if not value_type(d, False):
                out.append(f"component {n}: member {d.name} of type {d.type}")
        if len({d.name for d in ds}) < len(ds):
            out.append(f"component {n}: member names")
    upmembers = {n: [mg.parse(t, False)[1] for t in c["Members"]] for n, c in (up or {}).get("components", {}).items()}
    for n, c in dts.items():
        for k in c:
            if k not in DT_KEYS:
                out.append(f"datatype {n}: {k}")
        for k in ("Description", "Author"):
            if k not in c:
                out.append(f"datatype {n}: {k} is missing")
        for ec in ("ExtraCode", "MutableExtraCode"):
            for k in c.get(ec, {}):
                if k not in EC_KEYS:
                    out.append(f"datatype {n}: {ec} {k}")
        used = []
        for cat in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"):
            for d in [x for x in (decl(t, True, n) for t in c.get(cat, [])) if x]:
                used.append(d.name)
                if "Relations" in cat:
                    good = d.type in set(dts) | set(ifs) | udts | uifs
                else:
                    good = value_type(d, cat == "VectorMembers")
                if not good:
                    out.append(f"datatype {n}: {cat} {d.name} of type {d.type}")
                if cat == "Members" and expose and d.array_type is None and d.type in allc:
                    used += [s.name for s in (parsed.get(d.type) if d.type in comps else upmembers[d.type])]
        if len(set(used)) < len(used):
            out.append(f"datatype {n}: names {used}")
    for kind, cat, need in (("interface", ifs, {"Description", "Author", "Members", "Types"}), ("link", links, {"Description", "Author", "From", "To"})):
        for n, c in cat.items():
            if set(c) != need:
                out.append(f"{kind} {n}: keys {set(c) ^ need}")
            for t in c.get("Members", []) if kind == "interface" else []:
                decl(t, True, n)
            known = set(dts) | udts | (set(ifs) | uifs if kind == "link" else set())
            for t in c.get("Types", []) if kind == "interface" else [c[k] for k in ("From", "To") if k in c]:
                if t not in known:
                    out.append(f"{kind} {n}: type {t}")
    return out


INFO = {"Description": "d", "Author": "a"}
UPSTREAM = {
    "schema_version": 1,
    "components": {"up::UComp": {"Members": ["int ua", "double ub"]}, "Shared": {"Members": ["int sa"]}},
    "datatypes": {"up::UType": {**INFO, "Members": ["int u // d"]}, "UPlain": {**INFO}},
    "interfaces": {"up::UIf": {**INFO, "Types": ["UPlain"], "Members": []}},
    "links": {"ULink": {**INFO, "From": "UPlain", "To": "up::UType"}},
}

BASES = {
    "full": {
        "schema_version": 2,
        "options": {"getSyntax": False, "exposePODMembers": False, "includeSubfolder": True},
        "components": {
            "Comp": {"Members": ["int a", "double b{1.5} [mm] // text", "std::array<int, 2> c"], "ExtraCode": {"includes": "#include <cmath>", "declaration": "int f() const;"}},
            "ns::Comp2": {"Members": ["Comp inner", "std::array<Comp, 3> many", "std::uint16_t w"], "Description": "d", "Author": "a"},
        },
        "datatypes": {
            "Type": {**INFO, "Members": ["int i // d", "Comp p // d"], "VectorMembers": ["float v // d", "ns::Comp2 w // d"], "OneToOneRelations": ["ns::Type2 one // d"],
                     "OneToManyRelations": ["Type many // d", "If any // d"]},
            "ns::Type2": {**INFO, "Members": ["std::array<ns::Comp2, 2> arr // d"], "OneToOneRelations": ["If iface // d"],
                          "ExtraCode": {"includes": "#include <cmath>", "declaration": "int f() const;", "implementation": "int {name}::f() const { return 1; }"},
                          "MutableExtraCode": {"declaration": "int g();", "implementation": "int {name}::g() { return 1; }"}},
            "Bare": {**INFO},
        },
        "interfaces": {"If": {**INFO, "Types": ["Type", "ns::Type2"], "Members": ["int i // d"]}},
        "links": {"ns::Link": {**INFO, "From": "Type", "To": "If"}, "Link2": {**INFO, "From": "Bare", "To": "ns::Type2"}},
    },
    "small": {
        "schema_version": 1,
        "components": {"Comp": {"Members": ["int a"]}},
        "datatypes": {"Type": {**INFO, "Members": ["Comp p // d", "int i // d"]}, "Other": {**INFO, "OneToOneRelations": ["Type t // d"]}},
    },
    "extension": {
        "schema_version": 3,
        "components": {"Comp": {"Members": ["up::UComp u", "std::array<Shared, 2> s"]}},
        "datatypes": {
            "Type": {**INFO, "Members": ["Comp p // d", "up::UComp q // d"], "VectorMembers": ["up::UComp v // d"], "OneToOneRelations": ["up::UType one // d"], "OneToManyRelations": ["up::UIf many // d"]},
        },
        "interfaces": {"If": {**INFO, "Types": ["Type", "UPlain"], "Members": ["int u // d"]}},
        "links": {"Link": {**INFO, "From": "up::UIf", "To": "UPlain"}},
    },
}

NAMES = ["Comp", "ns::Comp2", "Type", "ns::Type2", "Bare", "If", "ns::Link", "up::UComp", "up::UType", "up::UIf", "UPlain", "ULink", "Shared", "Unknown", "Typ", "Type2", "ns::Type", "UType", "up::Type", "int", "TypeData", "MutableType"]
MEMBERS = [t + " n // d" for t in NAMES] + [f"std::array<{t}, 2> n // d" for t in ("int", "Comp", "ns::Comp2", "Type", "Unknown", "up::UComp", "Shared", "If", "int8_t")] + [
    "float n // d", "std::int8_t n // d", "int n", "Comp n", "int i // d", "int a // d", "int p // d", "int many // d", "int v // d", "int ua // d", "double b{1} // d", "int 1n // d", "int n{} // d", "std::vector<int> n // d",
    "Comp Comp // d", "int f // d", "int32_t n{1} [mm] // d", "unsigned long long n // d"]
VERSIONS = [1, 7, "3", 0, -1, "0", "x", "", "1.5", "v2"]


def edits(m, members=MEMBERS, names=NAMES):
    """all single edits; yields (description, new model)"""

    def at(path):
        x = c = copy.deepcopy(m)
        for p in path:
            x = x[p]
        return c, x

    for v in VERSIONS:
        c, x = at([])
        x["schema_version"] = v
        yield f"schema_version {v!r}", c
    c, x = at([])
    x.pop("schema_version", None)
    yield "schema_version removed", c
    for v in (True, False):
        c, x = at([])
        x.setdefault("options", {})["exposePODMembers"] = v
        yield f"exposePODMembers {v}", c
    for cat in ("components", "datatypes", "interfaces", "links"):
        if cat not in m:
            continue
        c, x = at([])
        del x[cat]
        yield f"no {cat}", c
        for t in m[cat]:
            c, x = at([cat])
            del x[t]
            yield f"{cat}/{t} removed", c
            for n in names + ["a::b::c"]:
                if n not in m[cat] and n != "int":
                    c, x = at([])
                    x[cat] = {(n if k == t else k): v for k, v in x[cat].items()}
                    yield f"{cat}/{t} renamed {n}", c
                    c, x = at([cat])
                    x[n] = copy.deepcopy(x[t])
                    yield f"{cat}/{t} copied as {n}", c
            for k in ["Unknown", "members", "Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode", "TransientMembers", "Typedefs", "Types", "From", "To", "Description", "Author"]:
                if k not in m[cat][t]:
                    c, x = at([cat, t])
                    x[k] = {} if "Code" in k else "Type" if k in ("From", "To", "Description", "Author") else []
                    yield f"{cat}/{t} with {k}", c
            for k, v in m[cat][t].items():
                c, x = at([cat, t])
                del x[k]
                yield f"{cat}/{t}/{k} removed", c
                if k in ("From", "To"):
                    for n in names:
                        c, x = at([cat, t])
                        x[k] = n
                        yield f"{cat}/{t}/{k} is {n}", c
                if isinstance(v, dict):
                    for e in ["Unknown", "declaration", "implementation", "includes", "const_declaration", "Implementation"]:
                        c, x = at([cat, t, k])
                        x[e] = ""
                        yield f"{cat}/{t}/{k} with {e}", c
                    for e in v:
                        c, x = at([cat, t, k])
                        del x[e]
                        yield f"{cat}/{t}/{k}/{e} removed", c
                if isinstance(v, list):
                    items = names if k == "Types" else members
                    for n in items:
                        if n not in v or k != "Types":
                            c, x = at([cat, t, k])
                            x.append(n)
                            yield f"{cat}/{t}/{k} with {n}", c
                            c, x = at([cat, t, k])
                            x.insert(0, n)
                            yield f"{cat}/{t}/{k} with {n} in front", c
                        for i in range(len(v)):
                            if n not in v or k != "Types":
                                c, x = at([cat, t, k])
                                x[i] = n
                                yield f"{cat}/{t}/{k}[{i}] is {n}", c
                    for i in range(len(v)):
                        c, x = at([cat, t, k])
                        x.append(x[i])
                        if k != "Types":
                            yield f"{cat}/{t}/{k}[{i}] twice", c


def orders(m, every):
    """the same model with its types in other orders"""
    yield m
    for cat in ("datatypes", "components", "interfaces", "links"):
        ks = list(m.get(cat, {}))
        perms = list(itertools.permutations(ks))[1:]
        for p in perms if every else perms[-1:]:
            c = dict(m)
            c[cat] = {k: m[cat][k] for k in p}
            yield c
    yield {k: m[k] for k in reversed(m)}


def run(tier, rep):
    import podio_gen.podio_config_reader as pcr  # pylint: disable=import-outside-toplevel

    reader = pcr.PodioConfigReader
    up_edm = reader.parse_model(copy.deepcopy(UPSTREAM), "upstream")

    def verdict(m, up):
        try:
            reader.parse_model(copy.deepcopy(m), "pkg", up_edm if up else None)
            return None
        except pcr.DefinitionError as err:
            return str(err)

    def judge(m, up, what, every):
        fs = faults(m, UPSTREAM if up else None)
        n = 0
        if fs is None:
            return 0
        for o in orders(m, every):
            got = verdict(o, up)
            n += 1
            if fs and got is None:
                raise Bad("fault-accepted", f"{what}, upstream {bool(up)}: accepted in spite of {fs}; order {[list(o.get(k, {})) for k in ('components', 'datatypes', 'interfaces', 'links')]}")
            if not fs and got is not None:
                raise Bad("valid-refused", f"{what}, upstream {bool(up)}: refused: {got}; order {[list(o.get(k, {})) for k in ('components', 'datatypes', 'interfaces', 'links')]}")
        return n

    for name, m in BASES.items():
        eq(faults(m, UPSTREAM if name == "extension" else None), [], "base model")
    eq(faults(UPSTREAM, None), [], "upstream model")
    singles = [(b, up, what, m) for b in BASES for up in (False, True) for what, m in [("unchanged", BASES[b])] + list(edits(BASES[b]))]
    explore(rep, "single-edits", singles, lambda c: judge(c[3], c[1], f"{c[0]}: {c[2]}", True), show=lambda c: f"{c[0]}, upstream {c[1]}: {c[2]}\n{c[3]}")
    few_members = ["int n // d", "Unknown n // d", "Comp n // d", "Type n // d", "int i // d", "up::UComp n // d", "int n"]
    few_names = ["Comp", "Type", "If", "Unknown", "UPlain", "ns::Link"]
    bases2 = ["small", "extension"] if tier == "quick" else list(BASES)
    firsts = [(b, b == "extension", what, m) for b in bases2 for what, m in edits(BASES[b], few_members, few_names)]

    def second(c):
        return sum(judge(m, c[1], f"{c[0]}: {c[2]} + {what}", False) for what, m in edits(c[3], few_members, few_names))
    explore(rep, "pairs-of-edits", firsts, second, show=lambda c: f"{c[0]}, upstream {c[1]}: {c[2]}\n{c[3]}")

    # nothing is generated from a faulty model
    scratch = os.path.join(build.BUILD, f"c25-{os.getpid()}")
    kinds = {}
    for b, up, what, m in singles:
        fs = faults(m, UPSTREAM if up else None)
        if fs and len(fs) == 1 and not up:
            key = (what.split("/")[0].split(" ")[0], "".join(ch for ch in fs[0].split(": ")[-1] if ch.isalpha())[:12])
            kinds.setdefault(key, (b, what, m))
    import yaml  # pylint: disable=import-outside-toplevel

    def generated(case):
        b, what, m = case
        d = os.path.join(scratch, str(abs(hash((b, what)))))
        os.makedirs(d)
        with open(os.path.join(d, "m.yaml"), "w", encoding="utf-8") as f:
            yaml.safe_dump(m, f, sort_keys=False)
        res = subprocess.run([sys.executable, "-B", os.path.join(build.REPO, "python/podio_class_generator.py"), os.path.join(d, "m.yaml"), os.path.join(d, "out"), "pkg", "ROOT"],
                             capture_output=True, text=True, check=False, env={**os.environ, "TMPDIR": scratch})
        left = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, "out")) for f in fs]
        shutil.rmtree(d)
        if res.returncode == 0:
            raise Bad("generated-in-spite-of-fault", f"{b}: {what}: exit code 0")
        if left:
            raise Bad("files-from-faulty-model", f"{b}: {what}: {left}")
        return 1
    try:
        os.makedirs(scratch)
        every = list(kinds.values())
        explore(rep, "nothing-generated", every[::2] if tier == "quick" else every, generated, show=lambda c: f"{c[0]}: {c[1]}\n{c[2]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    check(len(singles) > 1000, "cases", "")
    rep.assume("models as read from YAML with values of the expected kinds")
