import concurrent.futures
import itertools
import os
import re
import shutil

import yaml

from checks import modelprobe as mp
from checks.modelprobe import INFO, Model
from vf import gen
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of placements of upstream types in an extension model; generated code compared with the code of the merged model, compiled and probed"
NOTE = ("Every upstream component, data type and interface in every role it can have in an extension model (44 placements; alone, together with every other in the thorough tier), with all options "
        "of both models and own types in three namespaces: the generated files must be the ones of one merged model up to the names in the includes, nothing of the upstream model may be generated "
        "again, and the code is compiled with that of the upstream model and run through the same probe as in C28. Names that only resemble upstream ones are tried in every role.")

UPSTREAM = {
    "components": {"UC": {"Members": ["int u1{7}", "double u2 [mm]"]}, "n::UC2": {"Members": ["UC inner", "std::array<UC, 2> list", "float u3"]}},
    "datatypes": {
        "UT": {**INFO, "Members": ["double energy // d", "int tag // d"]},
        "n::UT2": {**INFO, "Members": ["double energy // d", "int tag // d", "UC comp // d"], "VectorMembers": ["n::UC2 vecs // d"], "OneToOneRelations": ["UT one // d", "UI some // d"], "OneToManyRelations": ["UT many // d"]},
    },
    "interfaces": {"UI": {**INFO, "Types": ["UT"], "Members": ["double energy // d"]}, "n::UI2": {**INFO, "Types": ["UT", "n::UT2"], "Members": ["int tag // d"]}},
    "links": {"UL": {**INFO, "From": "UT", "To": "n::UT2"}},
}
COMPS, TYPES, IFACES = ["UC", "n::UC2"], ["UT", "n::UT2"], ["UI", "n::UI2"]
ROLES = [*[(r, t) for t in COMPS for r in ("comp", "comparray", "member", "array", "vector")], *[(r, t) for t in TYPES + IFACES for r in ("one", "many")],
         *[("types", ts) for ts in (("UT",), ("n::UT2",), ("UT", "n::UT2"), ("own", "UT"), ("n::UT2", "own"))],
         *[("link", p) for p in itertools.product([*TYPES, *IFACES, "own", "ownif"], repeat=2) if not set(p) <= {"own", "ownif"}]]

PARTS = 6


def options(i):
    return dict(zip(("getSyntax", "exposePODMembers", "includeSubfolder"), (bool(i & 1), bool(i & 2), bool(i & 4))))


def extension(roles, ns, opts, version=1):
    p = ns + "::" if ns else ""
    C, C2, T, T2, I = p + "C", p + "C2", p + "T", p + "T2", p + "I"
    comps = {C2: {"Members": ["int own"]}, C: {"Members": ["int first"]}}
    t = {**INFO, "Members": ["double energy{3} [GeV] // d", "int tag // d"], "VectorMembers": ["int vint // d"], "OneToOneRelations": [], "OneToManyRelations": []}
    dts = {T: t, T2: {**INFO, "Members": ["double energy // d", f"{C2} own2 // d"], "OneToManyRelations": [f"{T} ts // d"]}}
    ifs = {I: {**INFO, "Types": [T2], "Members": ["double energy // d"]}}
    links = {}
    own = {"own": T, "ownif": I}
    for k, (role, x) in enumerate(roles):
        if role == "comp":
            comps[C]["Members"].append(f"{x} x{k}")
        elif role == "comparray":
            comps[C]["Members"].append(f"std::array<{x}, 3> x{k}")
        elif role in ("member", "array", "vector", "one", "many"):
            if role == "member" and opts["exposePODMembers"] and any(r == role and y == x for r, y in roles[:k]):
                continue
            text = f"std::array<{x}, 2> x{k}" if role == "array" else f"{x} x{k}"
            t[{"vector": "VectorMembers", "one": "OneToOneRelations", "many": "OneToManyRelations"}.get(role, "Members")].append(text + " // d")
        elif role == "types":
            ifs[f"{p}J{k}"] = {**INFO, "Types": [own.get(y, y) for y in x], "Members": ["double energy // d", "int tag // d"]}
            t["OneToOneRelations"].append(f"{I} j{k} // d")
        else:
            links[f"{p}L{k}"] = {**INFO, "From": own.get(x[0], x[0]), "To": own.get(x[1], x[1])}
    out = {"schema_version": version, "options": opts, "components": comps, "datatypes": dts, "interfaces": ifs}
    if links:
        out["links"] = links
    return out


def models(case):
    roles, ns, eo, uo, version = case
    eopts, uopts = options(eo), options(uo)
    if any(r == "types" for r, _ in roles):
        uopts["getSyntax"] = eopts["getSyntax"]  # documented to be necessary
    up = {"schema_version": version[0], "options": uopts, **UPSTREAM}
    return up, extension(roles, ns, eopts, version[1])


INCLUDE = re.compile(r'^#include ["<].*[">]$')


def normalised(text):
    """(forward declarations, all lines but these and the includes)"""
    rest, fwd, block = [], set(), None
    for ln in text.splitlines():
        if INCLUDE.match(ln):
            continue  # judged by compiling
        if ln == "// forward declarations":
            block = ""
        elif block is not None and ln.startswith("class ") and ln.endswith(";"):
            fwd.add(block + ln)
        elif block == "" and ln.startswith("namespace ") and ln.endswith("{"):
            block = ln
        elif block and ln == "}":
            block = ""
        elif ln.strip():
            block = None
            rest.append(ln)
    return fwd, rest


def run(tier, rep):
    gen.preload()
    thorough = tier == "thorough"
    n = itertools.count()
    singles = [((r,), ns, next(n) % 8, (next(n) * 3 + i) % 8, (2, 2)) for i, r in enumerate(ROLES) for ns in ("", "n", "m")]
    if thorough:
        singles = [((r,), ns, eo, uo, (2, 2)) for r in ROLES for ns in ("", "n", "m") for eo in range(8) for uo in range(8)]
    pairs = [((a, b), ("", "n", "m")[i % 3], i % 8, i // 8 % 8, (3, 3)) for i, (a, b) in enumerate(itertools.combinations(ROLES, 2))]
    every = [(tuple(ROLES), ns, eo, uo, (1, 1)) for ns in ("", "n", "m") for eo in range(8) for uo in range(8)]

    with gen.Scratch("c33") as scratch:
        def merged(case):
            up, ext = models(case)
            d = scratch.dir()
            try:
                u, e = Model(up, "up"), Model(ext, "pkg")
                both = {"schema_version": ext["schema_version"], "options": ext["options"]}
                for k in ("components", "datatypes", "interfaces", "links"):
                    both[k] = {**(up[k] if k != "links" else {}), **ext.get(k, {})}
                e.upstream = u
                u.write(d)
                split = gen.tree(mp.generate(e, d))
                shutil.rmtree(os.path.join(d, "out-pkg"))
                one = gen.tree(mp.generate(Model(both, "pkg"), d))
                names = {x.split("::")[-1] for k in ("components", "datatypes", "interfaces", "links") for x in up[k]}
                kinds = ("", "Collection", "CollectionData", "Data", "Obj")
                upfiles = {f"{p}{m}{x}{s}.{t}" for x in names for s in kinds for m in ("", "Mutable") for p, t in (("pkg/", "h"), ("src/", "cc"))}
                again = sorted(set(split) & upfiles)
                check(not again, "upstream-generated-again", again)
                eq(sorted(split), sorted(set(one) - upfiles), "files")
                done = 0
                for f in sorted(split):
                    if os.path.basename(f) in ("pkg.h", "DatamodelDefinition.h", "selection.xml", "podio_generated_files.cmake") or not f.endswith((".h", ".cc")):
                        continue
                    a, b = normalised(split[f]), normalised(one[f])
                    if a[1] != b[1]:
                        k = next((i for i, (x, y) in enumerate(itertools.zip_longest(a[1], b[1])) if x != y))
                        raise Bad("code-differs", f"{f}: extension has {a[1][k:k + 2]}, merged model has {b[1][k:k + 2]}")
                    check(a[0] <= b[0], "forward-declarations", f"{f}: {a[0] - b[0]}")
                    done += 1
                    for x in u.comps | u.dts | u.ifs | u.links:
                        bare = x.split("::")[-1]
                        if re.search(rf'^#include "(?!up/).*\b{bare}(Collection)?\.h"', split[f], re.M):
                            check(not u.sub, "include-path", f"{f} includes {bare} without the folder of the upstream model")
                # the list of types and the embedded definition have the own types only
                top = split["pkg/pkg.h"]
                for x in names:
                    check(not re.search(rf"\b{x}(Collection)?\b", re.sub(r"#include.*", "", top).replace(" ", "\n")) or "LinkCollection" in top, "upstream-in-type-list", x)
                return done
            finally:
                shutil.rmtree(d, ignore_errors=True)

        explore(rep, "like-merged", singles + (pairs if thorough else pairs[::8]) + (every if thorough else every[::5]), merged)

        tc = mp.Toolchain(scratch.path)

        ups = {}

        def probe(case):
            up, ext = models(case[0])
            m = Model(ext, "pkg", upstream=ups[yaml.safe_dump(up)])
            if case[1] is not None:  # every file on its own
                return mp.try_alone(tc, m, scratch.dir(), case[1], PARTS)
            return mp.try_model(tc, m, scratch.dir())

        some = [((r,), ("", "n", "m")[i % 3], i % 8, (i * 5 + 2) % 8, (1 + i % 3, 1 + i % 2)) for i, r in enumerate(ROLES)]
        todo = some + every[::(1 if thorough else 17)] + (pairs[::3] if thorough else [])
        alone = every[3:4] + every[12::(1 if thorough else 25)]
        needed = {yaml.safe_dump(models(c)[0]): models(c)[0] for c in todo + alone}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            ups.update(zip(needed, ex.map(lambda u: tc.upstream(Model(u, "up")), needed.values())))
        explore(rep, "compile", [(c, None) for c in todo] + [(c, k) for c in alone for k in range(PARTS)], probe)

        def refused(case):
            what, edit = case
            up, ext = models(((), "", 2, 2, (1, 1)))
            edit(ext)
            d = scratch.dir()
            try:
                u = gen.write(os.path.join(d, "up.yaml"), yaml.safe_dump(up, sort_keys=False))
                y = gen.write(os.path.join(d, "pkg.yaml"), yaml.safe_dump(ext, sort_keys=False))
                out = os.path.join(d, "out")
                os.makedirs(out)
                code, text = gen.run_script(gen.GENERATOR, [y, out, "pkg", "-q", "--upstream-edm", f"up:{u}"])
                check(code != 0 and "Traceback" not in text, "accepted", f"{what}: {text[-300:]}")
                return 1
            finally:
                shutil.rmtree(d, ignore_errors=True)

        explore(rep, "refused", refusals(), refused, show=lambda c: c[0])


def refusals():
    out = []
    wrong = {"component": ["UC1", "U", "C_", "::UC", "up::UC", "n::UC", "UC2", "uc", "n::n::UC2", "nUC2", "UT", "UI", "UL"],
             "type": ["UT1", "T_", "up::UT", "n::UT", "UT2", "ut", "UC", "UL", "MutableUT", "UTCollection"]}

    def add(what, f):
        out.append((what, f))
    for t in wrong["component"]:
        add(f"component member {t}", lambda m, t=t: m["components"]["C"]["Members"].append(f"{t} bad"))
        add(f"component array {t}", lambda m, t=t: m["components"]["C"]["Members"].append(f"std::array<{t}, 2> bad"))
        add(f"member {t}", lambda m, t=t: m["datatypes"]["T"]["Members"].append(f"{t} bad // d"))
        add(f"array member {t}", lambda m, t=t: m["datatypes"]["T"]["Members"].append(f"std::array<{t}, 2> bad // d"))
        add(f"vector member {t}", lambda m, t=t: m["datatypes"]["T"]["VectorMembers"].append(f"{t} bad // d"))
    for t in wrong["type"]:
        for r in ("OneToOneRelations", "OneToManyRelations"):
            add(f"{r} {t}", lambda m, t=t, r=r: m["datatypes"]["T"][r].append(f"{t} bad // d"))
        add(f"interface of {t}", lambda m, t=t: m["interfaces"].update(B={**INFO, "Types": ["T", t], "Members": []}))
        add(f"link from {t}", lambda m, t=t: m.setdefault("links", {}).update(B={**INFO, "From": t, "To": "T"}))
        add(f"link to {t}", lambda m, t=t: m.setdefault("links", {}).update(B={**INFO, "From": "UT", "To": t}))
    for t in IFACES:
        add(f"interface of interface {t}", lambda m, t=t: m["interfaces"].update(B={**INFO, "Types": ["T", t], "Members": []}))
    for t in [*TYPES, *IFACES]:
        add(f"interface called {t}", lambda m, t=t: m["interfaces"].update({t: {**INFO, "Types": ["T"], "Members": []}}))
        add(f"link called {t}", lambda m, t=t: m.setdefault("links", {}).update({t: {**INFO, "From": "T", "To": "T"}}))
    return out
