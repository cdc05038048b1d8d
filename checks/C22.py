import collections
import copy
import itertools
import os
import re

from vf import gen
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of pairs of model versions and evolution files from small grammars, against an independent oracle"
NOTE = ("All pairs of model versions from grammars over members (presence x type), components, vector members, relations and whole data types, with all "
        "sets of up to two (thorough: three) declared renames over the names and types of the model, in both listing orders; judged in process and, for a subset, through the "
        "comparison program and the generator. Declared renames that contradict each other and changes of array sizes or element types are left open.")

INFO = {"Description": "d", "Author": "a"}
FIELDS = ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations")
ADDDROP = {"VectorMembers": "VectorMember", "OneToOneRelations": "SingleRelation", "OneToManyRelations": "MultiRelation"}


# ---------------------------------------------------------------- models
# a model is (components, datatypes): name -> {member: type} / name -> {field: {member: type}}
def as_yaml(m, reverse=False):
    def order(d):
        return list(reversed(list(d.items()))) if reverse else list(d.items())
    comps, dts = m
    out = {"schema_version": 2, "options": {"exposePODMembers": False}}
    if comps:
        out["components"] = {n: {"Members": [f"{t} {x}" for x, t in order(ms)]} for n, ms in order(comps)}
    if dts:
        out["datatypes"] = {n: {**INFO, **{f: [f"{t} {x} // d" for x, t in order(ms)] for f, ms in order(fs)}} for n, fs in order(dts)}
    return out


def signature(fs):
    return frozenset((f, n, t) for f, ms in fs.items() for n, t in ms.items())


def differences(old, new):
    out = collections.Counter()

    def members(name, a, b, suffix):
        for n in a:
            if n not in b:
                out[(f"Dropped{suffix}", name, n)] += 1
            elif a[n] != b[n]:
                out[("ChangedMemberType", name, n, a[n], b[n])] += 1
        for n in b:
            if n not in a:
                out[(f"Added{suffix}", name, n)] += 1

    for i, what in ((0, "Component"), (1, "Datatype")):
        for n in old[i]:
            if n not in new[i]:
                out[(f"Dropped{what}", n)] += 1
        for n in new[i]:
            if n not in old[i]:
                out[(f"Added{what}", n)] += 1
            elif n in old[i]:
                if i == 0:
                    members(n, old[0][n], new[0][n], "Member")
                else:
                    for f in FIELDS:
                        members(n, old[1][n].get(f, {}), new[1][n].get(f, {}), ADDDROP.get(f, "Member"))
    return out


def verdict(old, new, entries):
    """(changes after the judgement, [warnings as words], [errors as words], free warnings allowed), None if left open"""
    changes = differences(old, new)
    warnings, errors = [], []
    free = 0

    def members_of(m, n):
        return m[0][n] if n in m[0] else m[1][n].get("Members", {})

    types = {c[1] for c in changes if c[0] in ("AddedMember", "DroppedMember")}
    for t in sorted(types):
        a, b = members_of(old, t), members_of(new, t)
        dropped = [c[2] for c in changes if c[:2] == ("DroppedMember", t)]
        added = [c[2] for c in changes if c[:2] == ("AddedMember", t)]
        pairs = {(d, x) for d in dropped for x in added if a[d] == b[x]}
        known = {e[2:] for e in entries if e[0] == "member" and e[1] == t} & pairs
        if len({k[0] for k in known}) < len(known) or len({k[1] for k in known}) < len(known):
            return None
        for d, x in known:
            del changes[("DroppedMember", t, d)]
            del changes[("AddedMember", t, x)]
            changes[("RenamedMember", t, d, x)] += 1
        for d, x in sorted(pairs):
            if d not in {k[0] for k in known} and x not in {k[1] for k in known}:
                warnings.append((t, d, x))
    for c in changes:
        if c[0][5:] in ADDDROP.values() or c[0][7:] in ADDDROP.values():
            errors.append((c[1], c[2]))
        elif c[0] == "ChangedMemberType":
            arrays = ["std::array" in x for x in c[3:]]
            if arrays[0] != arrays[1]:
                errors.append((c[1], c[2]))
            elif arrays[0]:
                return None
            elif c[3] in old[0] or c[4] in new[0]:
                errors.append((c[1], c[2]))
    dropped = {c[1]: signature(old[1][c[1]]) for c in changes if c[0] == "DroppedDatatype"}
    added = {c[1]: signature(new[1][c[1]]) for c in changes if c[0] == "AddedDatatype"}
    renames = {e[1:] for e in entries if e[0] == "datatype" and e[1] in dropped and e[2] in added and dropped[e[1]] == added[e[2]]}
    if len({k[0] for k in renames}) < len(renames) or len({k[1] for k in renames}) < len(renames):
        return None
    for d, x in renames:
        del dropped[d]
        del added[x]
    for d, s in dropped.items():
        to = [x for x in added if added[x] == s]
        same = [x for x in dropped if dropped[x] == s]
        if len(to) == 1 and len(same) == 1:
            renames.add((d, to[0]))
        elif to:
            free += 1
    for d, x in renames:
        del changes[("DroppedDatatype", d)]
        del changes[("AddedDatatype", x)]
        changes[("RenamedDataType", d, x)] += 1
    for c in [c for c in changes if c[0] == "DroppedComponent"]:
        for e in [e for e in changes if e[0] == "AddedComponent"]:
            if set(old[0][c[1]]) == set(new[0][e[1]]):
                warnings.append((c[1], e[1]))
    return changes, warnings, errors, free


def observed(changes):
    out = collections.Counter()
    for c in changes:
        k = type(c).__name__
        if k == "ChangedMemberType":
            eq(c.old_member.name, c.new_member.name, "changed-member-name")
            key = (k, c.klassname, c.old_member.name, c.old_member.full_type, c.new_member.full_type)
        elif k == "RenamedMember":
            key = (k, c.klassname, c.member_name_old, c.member_name_new)
        elif k == "RenamedDataType":
            key = (k, c.name_old, c.name_new)
        elif hasattr(c, "member"):
            key = (k, c.klassname, c.member.name)
        else:
            key = (k, c.klassname)
        out[key] += 1
    return out


def show_diff(got, want):
    return f"not expected: {sorted((got - want).elements())}, missing: {sorted((want - got).elements())}"


def messages(texts, words, free, what, case):
    """every expected entry has a message of its own that names what it is about"""
    def fits(w, t):
        return all(re.search(rf"(?<![\w:]){re.escape(x)}(?![\w:])", t) for x in w)
    owner = {}

    def place(i, tried):
        for j, t in enumerate(texts):
            if j not in tried and fits(words[i], t):
                tried.add(j)
                if j not in owner or place(owner[j], tried):
                    owner[j] = i
                    return True
        return False
    for i, w in enumerate(words):
        if not place(i, set()):
            raise Bad(f"{what}-missing", f"no {what} for {w}: {texts}; {case}")
    if len(texts) > len(words) + free:
        raise Bad(f"{what}-not-expected", f"{texts}, expected {words}; {case}")


# ---------------------------------------------------------------- grammars
C1 = {"Comp": {"i": "int"}, "ns::Comp2": {"i": "int"}}
MTYPES = [None, "int", "double", "std::uint32_t", "std::array<int, 2>", "Comp", "ns::Comp2"]


def product_models(names, alphabets, make):
    for ts in itertools.product(*alphabets):
        ms = {n: t for n, t in zip(names, ts) if t is not None}
        yield make(ms)


def grammars(tier):
    """(name, list of models, list of evolution entries)"""
    out = []
    t = "ns::Type"

    def dt(ms):
        return (C1, {t: {"Members": ms}} if ms else {t: {}})
    xy = ("x", "y")
    ren = [("member", k, a, b) for k in (t, "Other") for a in xy for b in xy if a != b]
    out.append(("members", list(product_models(xy, [MTYPES] * 2, dt)), ren))
    xyz = ("x", "y", "z")
    ren3 = [("member", t, a, b) for a in xyz for b in xyz if a != b]
    out.append(("renames", list(product_models(xyz, [[None, "int", "double"]] * 3, dt)), ren3))
    wxyz = ("w", "x", "y", "z")
    out.append(("renames-4", list(product_models(wxyz, [[None, "int"]] * 4, dt)), [("member", t, a, b) for a in wxyz for b in wxyz if a != b]))

    def comp(ms):
        return ({**C1, "Comp": ms, "Use": {"c": "Comp"}}, {t: {"Members": {"c": "Comp"}}})
    ctypes = [None, "int", "double", "std::array<int, 2>", "ns::Comp2"]
    out.append(("component-members", [m for m in product_models(xyz, [ctypes, ctypes, [None, "int"]], comp) if m[0]["Comp"]],
                [("member", k, a, b) for k in ("Comp", t) for a, b in (("x", "y"), ("y", "x"), ("x", "z"), ("z", "x"))]))
    kinds = [None, ("VectorMembers", "int"), ("VectorMembers", "double"), ("VectorMembers", "Comp"), ("OneToOneRelations", t), ("OneToOneRelations", "Other"),
             ("OneToManyRelations", t), ("OneToManyRelations", "Other"), ("Members", "int")]

    def rel(ms):
        fs = {}
        for n, (f, ty) in ms.items():
            fs.setdefault(f, {})[n] = ty
        return (C1, {t: fs, "Other": {"Members": {"i": "int"}}})
    out.append(("relations", list(product_models(xy, [kinds] * 2, rel)), [("member", t, "x", "y"), ("member", t, "y", "x")]))
    sigs = [None, {"Members": {"x": "int"}}, {"Members": {"y": "int"}}, {"VectorMembers": {"x": "int"}}]

    def types(ms):
        return ({}, dict(ms))
    abc = ("A", "ns::B", "C")
    out.append(("datatypes", list(product_models(abc, [sigs] * 3, types)), [("datatype", a, b) for a in abc for b in abc if a != b]))
    more = [None, {"Members": {"x": "int", "y": "int"}}, {"Members": {"y": "int", "x": "int"}}, {"Members": {"x": "int"}, "OneToOneRelations": {"y": "A"}}, {"Members": {"x": "int"}, "OneToManyRelations": {"y": "A"}},
            {"Members": {"x": "int", "y": "double"}}, {}]
    out.append(("datatypes-2", [m for m in product_models(("A", "B", "C"), [[{}], more, more], types)], [("datatype", "B", "C"), ("datatype", "C", "B")]))
    csigs = [None, {"x": "int"}, {"x": "double"}, {"y": "int"}, {"x": "int", "y": "int"}]
    cs = [m for m in product_models(("P", "ns::Q", "R"), [csigs] * 3, lambda ms: (dict(ms), {"T": {"Members": {"i": "int"}}}))]
    out.append(("components", cs, [("member", "P", "x", "y")]))

    # members change together with the components they use
    def using(ms):
        comps = {n: {"i": "int"} for n in ("P", "ns::Q") if ms.get(n)}
        for n in ("x", "y"):
            if ms.get(n) in ("P", "ns::Q", "std::array<P, 2>"):
                comps.setdefault(ms[n].removeprefix("std::array<").removesuffix(", 2>"), {"i": "int"})
        if ms.get("y"):
            comps["U"] = {"y": ms["y"]}
        return (comps, {t: {"Members": {"x": ms["x"]}} if ms.get("x") else {}})
    mt = [None, "int", "double", "P", "ns::Q", "std::array<P, 2>"]
    out.append(("components-in-use", [m for m in product_models(("P", "ns::Q", "x", "y"), [[None, "yes"], [None, "yes"], mt, mt], using)], [("member", t, "x", "y")]))

    def mixed(ms):
        comps, dts = dict(C1), {"Fix": {}}
        for n, k in ms.items():
            if n == "P":
                comps[n] = k
            else:
                dts[n] = k
        return (comps, dts)
    out.append(("mixed", list(product_models(("P", "A", "ns::B"), [[None, {"x": "int"}, {"y": "int"}, {"x": "Comp"}], [None, {"Members": {"x": "int"}}, {"Members": {"y": "int"}}, {"VectorMembers": {"x": "int"}}, {"OneToOneRelations": {"x": "Fix"}}],
                                                                [None, {"Members": {"x": "int"}}, {"Members": {"x": "double"}}, {"OneToManyRelations": {"x": "Fix"}}]], mixed)),
                [("member", "P", "x", "y"), ("member", "A", "x", "y"), ("datatype", "A", "ns::B")]))
    return out


def evolution_file(path, entries, version=(1, 2)):
    import yaml  # pylint: disable=import-outside-toplevel
    mig = {}
    for e in entries:
        head = {"from_version": version[0], "to_version": version[1]}
        if e[0] == "member":
            mig.setdefault(e[1], []).append({**head, "rename_member": {"from": e[2], "to": e[3]}})
        else:
            mig.setdefault(e[1], []).append({**head, "rename_datatype": {"from": e[1], "to": e[2]}})
    return gen.write(path, yaml.safe_dump({"migrations": mig}, sort_keys=False))


def run(tier, rep):
    gen.preload()
    import yaml  # pylint: disable=import-outside-toplevel
    import podio_schema_evolution as pse  # pylint: disable=import-outside-toplevel
    import podio_gen.podio_config_reader as pcr  # pylint: disable=import-outside-toplevel
    from podio_gen.schema_evolution import SchemaMigrationReader  # pylint: disable=import-outside-toplevel
    thorough = tier == "thorough"

    with gen.Scratch("c22") as scratch:
        evo_dir = scratch.dir()

        def judge(new, old, evo):
            detected = pse.DataModelComparator(new).compare(old)
            before = observed(detected)
            res = pse.SchemaEvolutionJudge(new, evolution_file=evo).judge(old, detected)
            return before, observed(res.schema_changes), res.warnings, res.errors

        all_cli = []
        for name, models, entries in grammars(tier):
            parsed = [[pcr.PodioConfigReader.parse_model(as_yaml(m, rev), "pkg") for rev in (False, True)] for m in models]
            sets = [()]
            depth = 3 if thorough or name == "renames-4" else 2
            for k in range(1, depth + 1):
                sets += itertools.combinations(entries, k)
            # an order of the entries other than the one of the alphabet
            sets += [tuple(reversed(s)) for s in sets if len(s) == 2]
            evos = [evolution_file(os.path.join(evo_dir, f"{name}-{i}.yaml"), s) if s else None for i, s in enumerate(sets)]

            def pair(case, models=models, parsed=parsed, sets=sets, evos=evos):
                i, j = case
                old, new = models[i], models[j]
                n = 0
                plain = differences(old, new)
                relevant = {c[1] for c in plain if c[0] in ("DroppedMember", "DroppedDatatype")}
                for s, evo in zip(sets, evos):
                    if s and not thorough and not any(e[1] in relevant for e in s):
                        if s[0] != sets[1][0]:
                            continue  # entries for types without anything removed: the first one only
                    want = verdict(old, new, s)
                    if want is None:
                        continue
                    for rev in ((0, 0), (1, 1), (0, 1)) if not s or thorough else ((n % 2, n // 2 % 2),):
                        text = f"old {as_yaml(old)}\nnew {as_yaml(new)}\nentries {s}, order {rev}"
                        before, after, warnings, errors = judge(parsed[j][rev[1]], parsed[i][rev[0]], evo)
                        if before != plain:
                            raise Bad("differences", f"{show_diff(before, plain)}; {text}")
                        if after != want[0]:
                            raise Bad("judged-changes", f"{show_diff(after, want[0])}; {text}")
                        messages(warnings, want[1], want[3], "warning", text)
                        messages(errors, want[2], 0, "error", text)
                        n += 1
                return n
            pairs = list(itertools.product(range(len(models)), repeat=2))
            explore(rep, name, pairs, pair, show=lambda c, models=models: f"old {as_yaml(models[c[0]])}\nnew {as_yaml(models[c[1]])}")
            step = max(1, len(pairs) // (20 if not thorough else 200))
            for k in range(0, len(pairs), step):
                i, j = pairs[k]
                # entries that matter for the pair
                ss = [s for s in sets if verdict(models[i], models[j], s) is not None]
                base = verdict(models[i], models[j], ())
                useful = [s for s in ss if base and verdict(models[i], models[j], s) != base] or ss
                all_cli.append((name, models[i], models[j], ()))
                if useful and useful[0]:
                    all_cli.append((name, models[i], models[j], useful[k % len(useful)]))

        def programs(case):
            name, old, new, s = case
            want = verdict(old, new, s)
            if want is None:
                return 0
            changes, warnings, errors, free = want
            d = scratch.dir()
            fo = gen.write(os.path.join(d, "old.yaml"), yaml.safe_dump({**as_yaml(old), "schema_version": 1}, sort_keys=False))
            fn = gen.write(os.path.join(d, "new.yaml"), yaml.safe_dump(as_yaml(new), sort_keys=False))
            evo = evolution_file(os.path.join(d, "evo.yaml"), s)
            code, out = gen.run_script(gen.COMPARE, [fn, fo, "-e", evo])
            check("Traceback" not in out, "program-crash", out[-800:])
            eq(code != 0, bool(errors), "program-exit-code", out[-800:])
            if not free:
                eq("Warnings:" in out, bool(warnings), "program-warnings", out[-800:])
            for c in changes:
                check(any(all(x in l for x in c[1:]) for l in out.splitlines()), "change-not-printed", f"{c}: {out[-800:]}")
            code, out = gen.run_script(gen.GENERATOR, ["-q", "--old-description", fo, "--evolution_file", evo, fn, os.path.join(d, "out"), "pkg", "ROOT"], cwd=d)
            check("Traceback" not in out, "generator-crash", out[-800:])
            if not free:
                eq(code != 0, bool(errors or warnings), "generator-exit-code", f"errors {errors} warnings {warnings}: {out[-800:]}")
                made = [f for _, _, fs in os.walk(os.path.join(d, "out")) for f in fs]
                eq(bool(made), code == 0, "generator-output", f"exit code {code}: {made}")
            return 2
        explore(rep, "programs", all_cli, programs, show=lambda c: f"{c[0]}: old {as_yaml(c[1])}\nnew {as_yaml(c[2])}\nentries {c[3]}")

        # several old versions: the one that cannot be handled is found wherever it is
        def versions(case):
            d = scratch.dir()
            texts = {"same": {"x": "int"}, "added": {}, "vector": None, "rename": {"y": "int"}}
            fn = gen.write(os.path.join(d, "new.yaml"), yaml.safe_dump({**as_yaml(({}, {"T": {"Members": {"x": "int"}}})), "schema_version": 9}))
            args = []
            for i, c in enumerate(case):
                m = ({}, {"T": {"Members": texts[c]} if texts[c] is not None else {"Members": {"x": "int"}, "VectorMembers": {"v": "int"}}})
                args += [gen.write(os.path.join(d, f"old{i}.yaml"), yaml.safe_dump({**as_yaml(m), "schema_version": i + 1}))]
            args = args and ["--old-descriptions", *args]
            code, out = gen.run_script(gen.GENERATOR, ["-q", fn, os.path.join(d, "out"), "pkg", "ROOT", *args], cwd=d)
            check("Traceback" not in out, "generator-crash", out[-800:])
            eq(code != 0, "vector" in case or "rename" in case, "generator-exit-code", f"{case}: {out[-500:]}")
            return 1
        explore(rep, "versions", [c for k in (1, 2, 3) for c in itertools.product(("same", "added", "vector", "rename"), repeat=k)], versions)

        # evolution files that are not well-formed are refused
        good = {"from_version": 1, "to_version": 2, "rename_member": {"from": "x", "to": "y"}}

        def bad_entries():
            out = [("good", good, True), ("other numbers", {**good, "from_version": 3, "to_version": 7}, True),
                   ("datatype", {"from_version": 1, "to_version": 2, "rename_datatype": {"from": "T", "to": "U"}}, True)]
            for k in good:
                out.append((f"no {k}", {x: v for x, v in good.items() if x != k}, False))
            for k in ("from_version", "to_version"):
                for v in ("1", "two", 1.5, None, [1]):
                    out.append((f"{k} {v!r}", {**good, k: v}, False))
            for a in range(0, 4):
                for b in range(0, 4):
                    out.append((f"versions {a} {b}", {**good, "from_version": a, "to_version": b}, a < b))
            out.append(("two changes", {**good, "rename_datatype": {"from": "T", "to": "U"}}, False))
            for k in ("rename", "rename_members", "RENAME_MEMBER", "drop_member", "member_rename"):
                out.append((f"change {k}", {"from_version": 1, "to_version": 2, k: {"from": "x", "to": "y"}}, False))
            for k in ("rename_member", "rename_datatype"):
                for v in ({}, {"from": "x"}, {"to": "x"}, {"From": "x", "to": "y"}):
                    out.append((f"{k} {v}", {"from_version": 1, "to_version": 2, k: v}, False))
            return out
        files = []
        other = copy.deepcopy(good)
        for what, e, ok in bad_entries():
            files.append((what, {"migrations": {"T": [e]}}, ok))
            files.append((f"{what} last", {"migrations": {"T": [other, e], "U": []}}, ok))
            files.append((f"{what} first", {"migrations": {"U": [e], "T": [other]}}, ok))
        files += [("empty", {}, False), ("other key", {"migration": {}}, False), ("list", {"migrations": [good]}, False), ("no list", {"migrations": {"T": good}}, False),
                  ("none", {"migrations": {}}, True), ("empty list", {"migrations": {"T": []}}, True), ("string", {"migrations": {"T": "x"}}, False)]

        def evolution(case):
            what, content, ok = case
            d = scratch.dir()
            f = gen.write(os.path.join(d, "e.yaml"), yaml.safe_dump(content))
            try:
                got = SchemaMigrationReader.read_yaml(f)
            except Exception as err:  # pylint: disable=broad-except
                check(not ok, "valid-refused", f"{what}: {content}: {err}")
                check(isinstance(err, ValueError), "kind-of-error", f"{what}: {content}: {type(err).__name__} {err}")
                got = None
            else:
                check(ok, "invalid-accepted", f"{what}: {content}")
            if got is not None:
                want = {k: sorted((e["from_version"], e["to_version"], c, e[c]["from"], e[c]["to"]) for e in v for c in e if c.startswith("rename"))
                        for k, v in yaml.safe_load(yaml.safe_dump(content))["migrations"].items()}
                eq({k: sorted((m.from_version, m.to_version, m.type.value, m.details["from"], m.details["to"]) for m in v) for k, v in got.items()}, want, "entries", what)
            m = gen.write(os.path.join(d, "m.yaml"), yaml.safe_dump(as_yaml(({}, {"T": {"Members": {"x": "int"}}}))))
            if what.split()[-1] not in ("first", "last"):
                code, out = gen.run_script(gen.COMPARE, [m, m, "-e", f])
                eq(code == 0, ok, "program-exit-code", f"{what}: {out[-500:]}")
            return 2
        explore(rep, "evolution-files", files, evolution)
    rep.assume("models that the reader accepts; lists of types and members in two orders")
