import copy
import json
import os
import shutil

from checks import C25
from checks import membergrammar as mg
from vf import gen
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of member declarations, extra code, options and model parts, round trip through the generated header and json-to-yaml"
NOTE = ("Every declaration of a product of types x defaults x units x descriptions (with quotes, backslashes, braces, raw string delimiters, non-ASCII text) in every "
        "category, all combinations of model parts and options, extra code given inline and in files; the definition is taken out of the generated "
        "header, converted by json-to-yaml, read back, compared with an independent reading of the original model, and used to generate the code again.")

INFO = C25.INFO
TYPES = ["int", "unsigned long long", "uint16_t", "std::int64_t", "Comp", "ns::Comp2", "std::array<int, 3>", "std::array<std::uint32_t,2>", "std::array<ns::Comp2, 4>"]
DEFAULTS = ["", "{1}", "{-2.5e3f}", "{'\"'}", "{'\\''}", "{a::b(1, {2})}", "{ 3 }"]
UNITS = ["", "[mm]", "[GeV/c^2]"]
DESCRIPTIONS = ["plain", "it's \"quoted\"", "back\\slash \\n", "{braces} {name} {{x}}", ")DATAMODEL\"", "R\"(raw)\" %s %d $x", "see [mm] // and more", "é ü 漢", "<tag> & 'x'", "trailing // ", "#include: yes - no", "a*/b/*c"]
TEXTS = ["", "int f() const { return 1; }", "// é \"q\" \\n\n  int g() const;\n\n", "{name} {% x %} {# c #}", "tab\there\n\"\\\"\"", " leading and trailing ", "%s {0} ${x} 'a' : - #"]

NAMESPACES = ["", "ns", "v", "v1", "vns", "Collection", "n_", "N9"]
TYPENAMES = ["vThing", "v2", "Vector", "x", "CollectionX", "MyData", "AnObj", "integer", "T_1", "lead_", "stdX", "ns1", "JSON", "n", "doubleX", "Z9z"]


def header_definition(path):
    """the value of the raw string literal of the definition header"""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    at = text.index("__JSONDefinition = ")
    i = text.index('R"', at) + 2
    j = text.index("(", i)
    delim = text[i:j]
    k = text.index(f'){delim}"', j)
    check(text[k + len(delim) + 2] == ";", "string-literal-cut", text[k:k + 80])
    return text[j + 1:k]


def expected(m, files):
    """independent reading of a (valid) model"""
    out = {}

    def extra(e, with_impl):
        e = dict(e)
        for k in ("declaration", "implementation"):
            if k + "File" in e and (with_impl or k == "declaration"):
                text = files[e.pop(k + "File")]
                e[k] = e.get(k, "") + "\n" + text
        return e

    def mem(texts, need):
        res = []
        for t in texts:
            st, d = mg.parse(t, need)
            check(st != "bad", "oracle", f"{t}: {d}")
            res.append(mg.attributes(d))
        return res

    comps = {}
    for n, c in m.get("components", {}).items():
        comps[n] = {k: mem(v, False) if k == "Members" else extra(v, False) if k == "ExtraCode" else v for k, v in c.items()}
    dts = {}
    for n, c in m.get("datatypes", {}).items():
        d = dts[n] = {}
        for k in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"):
            d[k] = mem(c.get(k, []), True)
        for k in ("ExtraCode", "MutableExtraCode"):
            d[k] = extra(c.get(k, {}), True)
        for k in ("Description", "Author"):
            d[k] = c[k]
    ifs = {n: {k: mem(v, True) if k == "Members" else v for k, v in c.items()} for n, c in m.get("interfaces", {}).items()}
    out["components"], out["datatypes"], out["interfaces"], out["links"] = comps, dts, ifs, m.get("links", {})
    o = m.get("options", {})
    out["options"] = {"getSyntax": o.get("getSyntax", False), "exposePODMembers": o.get("exposePODMembers", True), "includeSubfolder": "pkg/" if o.get("includeSubfolder", False) else ""}
    out["schema_version"] = int(m["schema_version"])
    return out


def seen(model):
    """what podio has read, in the same form"""
    def val(k, v):
        if k in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"):
            return [mg.observed(x) for x in v]
        if k == "Types":
            return [x.full_type for x in v]
        if k in ("From", "To"):
            return v.full_type
        return v
    out = {c: {n: {k: val(k, v) for k, v in d.items()} for n, d in getattr(model, c).items()} for c in ("components", "datatypes", "interfaces", "links")}
    out["options"], out["schema_version"] = dict(model.options), model.schema_version
    return out


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} / {b!r}"
    if isinstance(a, dict):
        if list(a) != list(b) and set(a) != set(b):
            return f"{path}: {sorted(a)} / {sorted(b)}"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} / {b!r}"


def declarations():
    out = []
    for t in TYPES:
        for d in DEFAULTS:
            for u in UNITS:
                out.append((t, d, u, DESCRIPTIONS[len(out) % len(DESCRIPTIONS)]))
    for t in TYPES:
        for c in DESCRIPTIONS:
            out.append((t, "", "", c))
            out.append((t, "{1}", "[mm]", c))
    return out


def text(i, d, described=True):
    t, df, u, c = d
    return f"{t} n{i}{df} {u}" + (f" // {c}" if described else "")


def cases():
    out = []
    base = {"schema_version": 3, "options": {"exposePODMembers": False}, "components": {"Comp": {"Members": ["int a"]}, "ns::Comp2": {"Members": ["Comp c", "double d{1.5} [mm]"]}}}
    decls = declarations()
    size = 12
    for i in range(0, len(decls), size):
        ds = list(enumerate(decls[i:i + size]))
        m = copy.deepcopy(base)
        m["components"]["Big"] = {"Members": [text(k, d, described=k % 3 != 0) for k, d in ds]}
        m["datatypes"] = {
            "Type": {**INFO, "Members": [text(k, d) for k, d in ds]},
            "ns::Vec": {**INFO, "VectorMembers": [text(k, d) for k, d in ds if not d[0].startswith("std::array")],
                        "OneToOneRelations": [text(100 + k, ("Type", "", "", d[3])) for k, d in ds], "OneToManyRelations": [text(200 + k, ("ns::Vec", "", "", d[3])) for k, d in ds]},
        }
        m["interfaces"] = {"If": {**INFO, "Types": ["Type"], "Members": [text(k, d) for k, d in ds]}}
        out.append((f"declarations {i}", m, {}))
    # descriptions and extra code
    for i, t in enumerate(TEXTS):
        m = copy.deepcopy(base)
        m["components"]["Comp"]["Description"] = t
        m["components"]["Comp"]["ExtraCode"] = {"includes": "#include <cmath>\n#include <vector>", "declaration": t}
        m["components"]["ns::Comp2"]["ExtraCode"] = {"declarationFile": "decl.inc", **({"declaration": t} if i % 2 else {})}
        m["datatypes"] = {
            "Type": {"Description": t, "Author": t, "Members": ["int i // d"], "ExtraCode": {"includes": "#include <cmath>", "declaration": t, "implementation": t}, "MutableExtraCode": {"declaration": t, "implementation": t}},
            "ns::Type2": {**INFO, "ExtraCode": {"declarationFile": "decl.inc", "implementationFile": "impl.inc"}, "MutableExtraCode": {"implementationFile": "impl.inc", "implementation": t, "declaration": t}},
        }
        m["interfaces"] = {"If": {"Description": t, "Author": t, "Types": ["Type", "ns::Type2"], "Members": []}}
        m["links"] = {"ns::L": {"Description": t, "Author": t, "From": "Type", "To": "If"}}
        out.append((f"texts {i}", m, {"decl.inc": t, "impl.inc": t + "\n" + t}))
    # parts and options
    full = C25.BASES["full"]
    import itertools  # pylint: disable=import-outside-toplevel
    for opts in itertools.product((None, True, False), repeat=3):
        for drop in ((), ("links",), ("interfaces", "links"), ("links", "components")):
            m = copy.deepcopy(full)
            for d in drop:
                del m[d]
            if "components" in drop:
                m["datatypes"]["Type"].pop("Members")
                m["datatypes"]["Type"].pop("VectorMembers")
                m["datatypes"]["ns::Type2"].pop("Members")
            elif opts[1] is not False:
                m["components"]["ns::Comp2"]["Members"] = ["Comp inner"]
            if "interfaces" in drop:
                m["datatypes"]["Type"].pop("OneToManyRelations")
                m["datatypes"]["ns::Type2"].pop("OneToOneRelations")
            m["options"] = {k: v for k, v in zip(("getSyntax", "exposePODMembers", "includeSubfolder"), opts) if v is not None}
            if not m["options"]:
                del m["options"]
            m["schema_version"] = 1 + len(out) % 4
            out.append((f"options {opts} without {drop}", m, {}))
    m = {"schema_version": "5"}
    out.append(("nothing", m, {}))
    # names of types in every role
    for i, ns in enumerate(NAMESPACES):
        for k in range(0, len(TYPENAMES), 4):
            a, b, c, d = [f"{ns}::{n}" if ns else n for n in (TYPENAMES[k:] + TYPENAMES)[:4]]
            m = {"schema_version": 1 + i, "options": {"exposePODMembers": False}, "components": {a: {"Members": ["int x"]}},
                 "datatypes": {b: {**INFO, "Members": [f"{a} c // d", f"std::array<{a}, 2> cs // d"], "VectorMembers": [f"{a} v // d"], "OneToOneRelations": [f"{b} me // d", f"{c} some // d"], "OneToManyRelations": [f"{b} mes // d"]}},
                 "interfaces": {c: {**INFO, "Types": [b], "Members": [f"{a} c // d"]}}, "links": {d: {**INFO, "From": b, "To": c}}}
            out.append((f"names {a} {b} {c} {d}", m, {}))
    return out


def run(tier, rep):
    import yaml  # pylint: disable=import-outside-toplevel
    gen.preload()
    import podio_gen.podio_config_reader as pcr  # pylint: disable=import-outside-toplevel
    handlers = [["ROOT"]] if tier == "quick" else [["ROOT"], ["ROOT", "SIO"], ["SIO", "ROOT", "ARROW"]]

    with gen.Scratch("c26") as scratch:
        def round_trip(case):
            what, m, files = case[:3]
            if not what.startswith("declarations"):
                fs = C25.faults(m, None)
                check(not fs, "oracle", f"{what}: {fs}")
            d = scratch.dir()
            try:
                for n, t in files.items():
                    gen.write(os.path.join(d, n), t)
                src = gen.write(os.path.join(d, "model.yaml"), yaml.safe_dump(m, sort_keys=False, allow_unicode=True))
                want = expected(m, files)
                for io in case[3]:
                    code, log = gen.run_script(gen.GENERATOR, ["-q", src, os.path.join(d, "one"), "pkg", *io], cwd=d)
                    if code != 0:
                        raise Bad("valid-model-not-generated", f"{what}: {log[-600:]}")
                    one = gen.tree(os.path.join(d, "one"))
                    text_ = header_definition(os.path.join(d, "one/pkg/DatamodelDefinition.h"))
                    try:
                        json.loads(text_)
                    except ValueError as err:
                        raise Bad("no-json", f"{what}: {err}: {text_[:300]}") from None
                    code, out = gen.run_script(gen.JSON2YAML, [], stdin=text_)
                    if code != 0:
                        raise Bad("json-to-yaml", f"{what}: {out[-500:]}")
                    again = gen.write(os.path.join(d, "again.yaml"), out)
                    try:
                        got = seen(pcr.PodioConfigReader.read(again, "pkg"))
                    except Exception as err:  # pylint: disable=broad-except
                        raise Bad("not-readable", f"{what}: {type(err).__name__}: {err}") from None
                    df = diff(got, want)
                    if df:
                        raise Bad("model-differs", f"{what}: read back / original: {df}")
                    for cat in ("components", "datatypes", "interfaces", "links"):
                        eq(list(got[cat]), list(want[cat]), "order", f"{what}: {cat}")
                    code, log = gen.run_script(gen.GENERATOR, ["-q", again, os.path.join(d, "two"), "pkg", *io], cwd=d)
                    if code != 0:
                        raise Bad("not-generated-again", f"{what}: {log[-600:]}")
                    two = gen.tree(os.path.join(d, "two"))
                    eq(sorted(two), sorted(one), "files", what)
                    for n in one:
                        if one[n] != two[n]:
                            i = next((i for i, (a, b) in enumerate(zip(one[n], two[n])) if a != b), 0)
                            raise Bad("code-differs", f"{what}: {n}: {one[n][max(0, i - 60):i + 80]!r} / {two[n][max(0, i - 60):i + 80]!r}")
                    for x in ("one", "two"):
                        shutil.rmtree(os.path.join(d, x))
                return len(one)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        explore(rep, "round-trip", [(*c, handlers) for c in cases()], round_trip, show=lambda c: f"{c[0]}\n{c[1]}")

        def empty_description(case):
            d = scratch.dir()
            try:
                m = {"schema_version": 1, "datatypes": {"Type": {**INFO, case: ["Type n //" if "Rel" in case else "int n //"]}}}
                src = gen.write(os.path.join(d, "model.yaml"), yaml.safe_dump(m, sort_keys=False))
                code, _ = gen.run_script(gen.GENERATOR, ["-q", src, os.path.join(d, "one"), "pkg", "SIO"], cwd=d)
                if code != 0:
                    return 1
                code, out = gen.run_script(gen.JSON2YAML, [], stdin=header_definition(os.path.join(d, "one/pkg/DatamodelDefinition.h")))
                again = gen.write(os.path.join(d, "again.yaml"), out)
                try:
                    pcr.PodioConfigReader.read(again, "pkg")
                except pcr.DefinitionError as err:
                    raise Bad("empty-description", f"{case}: member with an empty description: the embedded definition is refused: {err}") from None
                return 1
            finally:
                shutil.rmtree(d, ignore_errors=True)
        explore(rep, "empty-description", ["Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"], empty_description)
    rep.assume("models that the reader accepts; file system and Python as installed")
