import collections
import itertools
import json
import os
import shutil
import subprocess

from vf import build, gen
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of small models, filters and groups; the produced graph is read by graphviz and compared with the model"
NOTE = ("All models with up to three data types with one relation of each kind to any data type, interface or upstream type, with filters and groups, and a model with many parallel "
        "relations under all filters and groups; the graph source is read back by graphviz' own dot program (JSON output), so that only its meaning counts. "
        "Layout, the legend and groups of types that are not in the model are left open.")

INFO = {"Description": "d", "Author": "a"}
VIS = os.path.join(build.REPO, "tools/podio-vis")
UP = {"schema_version": 1, "datatypes": {"up::UType": {**INFO, "Members": ["int u // d"]}, "Plain": {**INFO}}}
A, B, C = "ns::T", "ns_T", "T"


def wanted(model, conf):
    remove = set(conf.get("Filter", []))
    nodes, edges = set(), collections.Counter()
    for g, names in conf.items():
        if g != "Filter":
            nodes |= {n for n in names if n not in remove}
    for n, d in model["datatypes"].items():
        if n in remove:
            continue
        if "Association" in n:
            ends = [r.split()[0] for r in d["OneToOneRelations"]]
            if not set(ends) & remove:
                nodes |= set(ends)
                edges[(ends[0], ends[1], "black")] += 1
            continue
        nodes.add(n)
        for kind, colour in (("OneToOneRelations", "blue"), ("OneToManyRelations", "red")):
            for r in d.get(kind, []):
                t = r.split()[0]
                if t not in remove:
                    nodes.add(t)
                    edges[(n, t, colour)] += 1
    groups = {g: {n for n in names if n not in remove} for g, names in conf.items() if g != "Filter"}
    return nodes, edges, {g: n for g, n in groups.items() if n}


def read_graph(text):
    res = subprocess.run(["dot", "-Tdot_json"], input=text, capture_output=True, text=True, check=False)
    check(res.returncode == 0 and not res.stderr, "not-a-graph", f"{res.stderr}\n{text}")
    g = json.loads(res.stdout)
    check(g["directed"], "not-directed", text)
    objs = g.get("objects", [])
    label, shown = {}, {}
    for o in objs:
        if "nodes" in o or "name" in o and o["name"].startswith("cluster"):
            continue
        label[o["_gvid"]] = o["name"] if o.get("label", "\\N") == "\\N" else o["label"]
        shown[o["_gvid"]] = o.get("shape") != "plaintext"
    names = [label[i] for i in label if shown[i]]
    check(len(names) == len(set(names)), "node-twice", f"{sorted(names)}\n{text}")
    edges = collections.Counter()
    for e in g.get("edges", []):
        if not shown[e["tail"]] and not shown[e["head"]]:
            continue
        edges[(label[e["tail"]], label[e["head"]], e.get("color", "none"))] += 1
        check(e.get("dir", "forward") == ("both" if e.get("color") == "black" else "forward"), "direction", text)
    groups = {o["label"]: {label[i] for i in o.get("nodes", [])} for o in objs if o["name"].startswith("cluster") and o.get("nodes") and all(shown[i] for i in o["nodes"])}
    return set(names), edges, groups


def cases(tier):
    out = []
    targets = [None, A, B, C, "If", "up::UType"]
    rest = [(x, y) for x in (None, ("OneToOneRelations", A), ("OneToManyRelations", C), ("OneToManyRelations", B)) for y in (None, ("OneToOneRelations", B), ("OneToManyRelations", A))]
    confs = [{}, {"Filter": [B]}, {"Filter": ["If", "up::UType"]}, {"G": [A, C]}]
    if tier == "thorough":
        confs = [{**({"Filter": list(f)} if f else {}), **g} for k in range(4) for f in itertools.combinations((A, B, "If", "up::UType"), k) for g in ({}, {"G": [A, C]})]
    for one, many in itertools.product(targets, repeat=2):
        for x, y in rest:
            m = {"schema_version": 1, "datatypes": {A: {**INFO}, B: {**INFO}, C: {**INFO}}, "interfaces": {"If": {**INFO, "Members": [], "Types": [A, B]}}}
            if one:
                m["datatypes"][A]["OneToOneRelations"] = [f"{one} x // d"]
            if many:
                m["datatypes"][A]["OneToManyRelations"] = [f"{many} y // d"]
            for n, r in ((B, x), (C, y)):
                if r:
                    m["datatypes"][n][r[0]] = [f"{r[1]} z // d"]
            for conf in confs:
                out.append((m, conf))
    # parallel relations, interfaces, components, links, names that graphviz knows
    rich = {"schema_version": 1, "components": {"Comp": {"Members": ["int i"]}},
            "datatypes": {
                A: {**INFO, "Members": ["Comp c // d"], "OneToOneRelations": [f"{B} p // d", f"{B} q // d", f"{A} r // d"], "OneToManyRelations": [f"{B} s // d", f"{B} t // d", "node u // d"]},
                B: {**INFO, "OneToOneRelations": ["ns::If o // d", "up::UType w // d"], "OneToManyRelations": ["ns::If o2 // d", "up::UType w2 // d"]},
                "node": {**INFO, "VectorMembers": ["int v // d"], "OneToManyRelations": ["l1 a // d", "ns::edge b // d"]}, "l1": {**INFO, "OneToOneRelations": ["r1 a // d"]}, "r1": {**INFO}, "ns::edge": {**INFO, "OneToOneRelations": ["node n // d"]}},
            "interfaces": {"ns::If": {**INFO, "Members": [], "Types": [A, B]}}, "links": {"L": {**INFO, "From": A, "To": "ns::If"}}}
    names = (A, B, "node", "ns::edge", "ns::If", "up::UType")
    groups = [{}, {"One": [A, B]}, {"Two words": ["l1"], "ns::If": ["r1", "ns::edge"]}, {"Q": [A], "R": [B, "node"], "S": ["ns::If"]}]
    for k in range(len(names) + 1):
        for f in itertools.combinations(names, k):
            for g in groups:
                out.append((rich, {**g, "Filter": list(f)} if f else g))
                if f:
                    out.append((rich, {"Filter": list(f), **g}))
    # associations
    ends = [A, B, "ns::If", "up::UType"]
    for a, b in itertools.product(ends, repeat=2):
        m = {"schema_version": 1, "datatypes": {A: {**INFO, "OneToOneRelations": [f"{B} p // d"]}, B: {**INFO}, "ns::XAssociation": {**INFO, "Members": ["float weight // d"], "OneToOneRelations": [f"{a} rec // d", f"{b} sim // d"]}},
             "interfaces": {"ns::If": {**INFO, "Members": [], "Types": [A, B]}}}
        for f in [()] + [(x,) for x in ends] + [("ns::XAssociation",)]:
            out.append((m, {"Filter": list(f)} if f else {}))
    # order of the types
    for p in itertools.permutations((A, B, "node", "ns::edge", "l1", "r1")):
        m = {**rich, "datatypes": {n: rich["datatypes"][n] for n in p}}
        out.append((m, {"Filter": [B]}))
    return out


def run(tier, rep):
    import yaml  # pylint: disable=import-outside-toplevel
    gen.preload()
    import graphviz  # pylint: disable=import-outside-toplevel,unused-import # noqa: F401
    with gen.Scratch("c32") as scratch:
        def show(case):
            model, conf = case[:2]
            d = scratch.dir()
            try:
                dump = lambda n, m: gen.write(os.path.join(d, n), yaml.safe_dump(m, sort_keys=False))  # noqa: E731
                args = [dump("m.yaml", model), "--dot", "--upstream-edm", "up:" + dump("up.yaml", UP)]
                if conf:
                    args += ["--graph-conf", dump("conf.yaml", conf)]
                if len(case) > 2:
                    args.remove("--dot")
                    args += ["--fmt", "svg", "--filename", "graph"]
                before = set(os.listdir(d))
                code, log = gen.run_script(VIS, args, cwd=d)
                check(code == 0, "failed", log[-800:])
                made = [f for f in os.listdir(d) if f not in before and not f.endswith(".svg")]
                eq(len(made), 1, "files", made)
                if len(case) > 2:
                    eq((made, os.path.exists(os.path.join(d, "graph.svg"))), (["graph"], True), "file-names")
                with open(os.path.join(d, made[0]), encoding="utf-8") as f:
                    text = f.read()
            finally:
                shutil.rmtree(d)
            got, want = read_graph(text), wanted(model, conf)
            eq(sorted(got[0]), sorted(want[0]), "nodes", text)
            if got[1] != want[1]:
                raise Bad("edges", f"not expected: {sorted((got[1] - want[1]).elements())}, missing: {sorted((want[1] - got[1]).elements())}\n{text}")
            if not set.intersection(*want[2].values()) if len(want[2]) > 1 else True:
                eq(got[2], want[2], "groups", text)
            return 1
        allc = cases(tier)
        explore(rep, "graphs", allc, show, show=lambda c: f"{c[0]}\n{c[1]}")
        explore(rep, "rendered", [(*c, True) for c in allc[::max(1, len(allc) // 16)]], show, show=lambda c: f"{c[0]}\n{c[1]}")

        def refused(case):
            d = scratch.dir()
            m = gen.write(os.path.join(d, "m.yaml"), yaml.safe_dump({"schema_version": 1, "datatypes": {"T": {**INFO, **case}}}))
            code, _ = gen.run_script(VIS, [m, "--dot"], cwd=d)
            check(code != 0 and len(os.listdir(d)) == 1, "bad-model-shown", f"{case}: exit code {code}, {os.listdir(d)}")
            return 1
        explore(rep, "refused", [{"OneToOneRelations": ["Nope x // d"]}, {"Members": ["T t // d"]}, {"Foo": 1}], refused)
    rep.assume("graphviz' dot reads graphs by its language definition")
