import copy
import itertools
import os
import re
import shutil

from checks import C25
from vf import gen
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive exploration of sequences of generator runs over one directory, and of all models x options under several hash seeds"
NOTE = ("All sequences of up to three (thorough: four) runs from an alphabet of models, options, dry runs and refused models into one directory, compared after each "
        "run with what each run gives on its own; and every model and option set under eight (thorough: 24) hash seeds. The list for the build may be written "
        "again whenever any other file changed.")

INFO = C25.INFO


def variants():
    """name -> (model, upstream, old versions, evolution entries)"""
    full = copy.deepcopy(C25.BASES["full"])
    less = copy.deepcopy(full)
    less["links"].pop("Link2")
    less["datatypes"].pop("Bare")
    less["datatypes"]["Type"]["Members"] = ["int i // d", "double j // d", "Comp p // d"]
    bare = {"schema_version": 2, "options": {"includeSubfolder": True}, "datatypes": {"Bare": {**INFO}, "ns::Type2": {**INFO, "Members": ["int x // d"]}}}
    ext = copy.deepcopy(C25.BASES["extension"])
    ext["options"] = {"includeSubfolder": True}
    ext["datatypes"]["Type"]["Members"] = ["Comp p // d"]
    # versions with much that was dropped, added and renamed
    new = {"schema_version": 4, "options": {"exposePODMembers": False},
           "components": {"Kept": {"Members": ["int n1", "double m1", "float c"]}, **{f"New{i}": {"Members": [f"int q{i}"]} for i in range(4)}},
           "datatypes": {**{f"ns::N{i}": {**INFO, "Members": [f"int s{i} // d"]} for i in range(4)},
                         "Main": {**INFO, "Members": ["int n1 // d", "double n2 // d", "float n3 // d", "Kept k // d"], "OneToOneRelations": [f"ns::N{i} r{i} // d" for i in range(4)],
                                  "OneToManyRelations": [f"ns::N{i} t{i} // d" for i in range(4)]}},
           "interfaces": {f"If{i}": {**INFO, "Types": ["Main", "ns::N0", "ns::N1"], "Members": []} for i in range(3)}}
    old = {"schema_version": 3, "options": {"exposePODMembers": False},
           "components": {"Kept": {"Members": ["int o1", "double p1", "float c"]}, **{f"Old{i}": {"Members": [f"long p{i}"]} for i in range(4)}},
           "datatypes": {**{f"ns::O{i}": {**INFO, "Members": [f"int s{i} // d"]} for i in range(4)},
                         "Main": {**INFO, "Members": ["int o1 // d", "double o2 // d", "float o3 // d", "Kept k // d"], "OneToOneRelations": [f"ns::N{i} r{i} // d" for i in range(4)],
                                  "OneToManyRelations": [f"ns::N{i} t{i} // d" for i in range(4)]}}}
    for i in range(4):
        # the relation targets have to exist in the old version as well, so keep the new names there too
        old["datatypes"][f"ns::N{i}"] = {**INFO, "Members": [f"int s{i} // d"]}
    for i in range(4):
        new["datatypes"][f"ns::P{i}"] = {**INFO, "Members": [f"long z{i} // d"]}
        old["datatypes"][f"ns::O{i}"] = {**INFO, "Members": [f"long z{i} // d"]}
    older = copy.deepcopy(old)
    older["schema_version"] = 2
    older["components"]["Older"] = {"Members": ["short w"]}
    entries = [("member", "Main", f"o{i}", f"n{i}") for i in (1, 2, 3)] + [("member", "Kept", "o1", "n1"), ("member", "Kept", "p1", "m1")]
    out = {"full": (full, None, [], []), "less": (less, None, [], []), "bare": (bare, None, [], []), "extension": (ext, {**C25.UPSTREAM, "options": {"includeSubfolder": True}}, [], []),
           "evolved": (new, None, [old, older], entries)}
    wide = {"schema_version": 1, "options": {"exposePODMembers": True, "getSyntax": True},
            "components": {f"{ns}C{i}": {"Members": [f"std::array<int, {i + 1}> a{ns[:1]}{i}", f"std::uint{w}_t b{ns[:1]}{i}"]} for i, w in enumerate((16, 32, 64)) for ns in ("", "u::")},
            "datatypes": {"T": {**INFO, "Members": [f"{ns}C{i} m{ns[:1]}{i} // d" for i in range(3) for ns in ("", "u::")][:1], "VectorMembers": [f"{ns}C{i} v{ns[:1]}{i} // d" for i in range(3) for ns in ("", "u::")][1:],
                                "OneToManyRelations": [f"w::R{i} x{i} // d" for i in range(5)], "OneToOneRelations": [f"w::R{i} y{i} // d" for i in range(5)]},
                          **{f"w::R{i}": {**INFO, "OneToOneRelations": ["T back // d", "A any // d"]} for i in range(5)}},
            "interfaces": {n: {**INFO, "Types": ["T", *[f"w::R{i}" for i in range(5)]], "Members": []} for n in ("A", "w::B", "D")},
            "links": {f"L{i}": {**INFO, "From": "A", "To": f"w::R{i}"} for i in range(3)}}
    wide["components"]["Top"] = {"Members": [f"{ns}C{i} m{ns[:1]}{i}" for i in range(3) for ns in ("", "u::")]}
    for c in list(wide["components"]):
        if c.startswith("u::"):  # file names are made of the bare name
            wide["components"]["u::D" + c[4:]] = wide["components"].pop(c)
    text = repr(wide)
    wide = eval(re.sub(r"u::C(\d)", r"u::D\1", text))  # pylint: disable=eval-used
    out["wide"] = (wide, None, [], [])
    # models that differ in nothing but white space or case inside the texts
    for i, text in enumerate(("one text", "one  text", "One text", "one text ")):
        out[f"text{i}"] = ({"schema_version": 1, "options": {"includeSubfolder": True}, "components": {"C": {"Members": [f"int x // {text}"]}},
                            "datatypes": {"A": {"Description": text, "Author": text, "Members": [f"int i // {text}", "C c // d"], "OneToOneRelations": [f"A r // {text}"]}}}, None, [], [])
    return out


HANDLERS = (["ROOT"], ["ROOT", "SIO"], ["SIO", "ROOT", "ARROW"])


def prepare(d, variant):
    import yaml  # pylint: disable=import-outside-toplevel
    from checks.C22 import evolution_file  # pylint: disable=import-outside-toplevel
    model, up, olds, entries = variant
    args = []
    dump = lambda n, m: gen.write(os.path.join(d, n), yaml.safe_dump(m, sort_keys=False))  # noqa: E731
    if up:
        args += ["--upstream-edm", "up:" + dump("up.yaml", up)]
    if olds:
        args += ["--evolution_file", evolution_file(os.path.join(d, "evo.yaml"), entries), "--old-descriptions", *[dump(f"old{i}.yaml", m) for i, m in enumerate(olds)]]
    return dump("model.yaml", model), args


def generate(d, src, extra, out, opts, seed=None):
    handlers, flags = opts
    lang = "julia" in flags
    argv = [src, out, "pkg"] + ([] if lang else handlers)
    flags = [f for f in flags if f != "julia"] + (["-l", "julia"] if lang else [])
    return gen.run_script(gen.GENERATOR, flags + argv + extra, cwd=d, hash_seed=seed)


def cmake_lists(text):
    out = {}
    for name, body in re.findall(r"(?i)\bset\s*\(\s*(\w+)([^)]*)\)", text):
        check(name not in out, "list-twice", name)
        out[name] = body.split()
    return out


def check_lists(files, what):
    """every generated file is listed exactly once in the list it belongs to"""
    text = files.get("podio_generated_files.cmake")
    check(text is not None, "no-list", what)
    got = cmake_lists(text)
    names = [f for f in files if f != "podio_generated_files.cmake"]
    want = {"headers": sorted("${ARG_OUTPUT_FOLDER}/${datamodel}/" + f[4:] for f in names if f.endswith(".h")),
            "sources": sorted("${ARG_OUTPUT_FOLDER}/" + f for f in names if f.endswith(".cc")),
            "selection_xml": sorted("${ARG_OUTPUT_FOLDER}/" + f for f in names if f.endswith(".xml"))}
    eq({k: sorted(v) for k, v in got.items()}, want, "listed-files", what)


def stamps(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_ino)
    return out


def run(tier, rep):
    gen.preload()
    thorough = tier == "thorough"
    vs = variants()
    with gen.Scratch("c27") as scratch:
        # a function of the model and the options
        def seeds(case):
            name, handlers, flags = case
            ref = None
            for seed in list(range(8 if not thorough else 24)) + [None]:
                d = scratch.dir()
                src, extra = prepare(d, vs[name])
                code, log = generate(d, src, extra, os.path.join(d, "out"), (handlers, ["-q", *flags] if seed else flags), seed)
                if code != 0:
                    raise Bad("not-generated", f"{case}: {log[-800:]}")
                files = gen.tree(os.path.join(d, "out"))
                shutil.rmtree(d)
                if "julia" not in flags:
                    check_lists(files, str(case))
                if ref is None:
                    ref = files
                eq(sorted(files), sorted(ref), "files", f"{case}, hash seed {seed}")
                for f in files:
                    if files[f] != ref[f]:
                        k = next((k for k, (a, b) in enumerate(zip(files[f], ref[f])) if a != b), 0)
                        raise Bad("hash-seed-dependent", f"{case}, hash seed {seed}: {f}: {files[f][max(0, k - 80):k + 80]!r} / {ref[f][max(0, k - 80):k + 80]!r}")
            return len(ref)
        big = [n for n in vs if not n.startswith("text")]
        cases = [(n, h, ()) for n in big for h in HANDLERS] + [(n, HANDLERS[0], ("julia",)) for n in big if not vs[n][2]]
        cases += [("full", HANDLERS[1], ("--datamodel-version", "1.2.3")), ("full", HANDLERS[0], ("-c",)), ("bare", HANDLERS[2], ("-c",))]
        explore(rep, "hash-seeds", cases, seeds)

        # histories of runs over one directory
        bad_model = copy.deepcopy(vs["full"][0])
        bad_model["datatypes"]["Type"]["OneToOneRelations"] = ["Nope n // d"]
        bad_evolution = (vs["evolved"][0], None, [*vs["evolved"][2]], [])
        runs = [("full", 0, ()), ("full", 1, ()), ("less", 0, ()), ("bare", 0, ()), ("bare", 2, ()), ("evolved", 0, ()), ("extension", 1, ()), ("full", 0, ("-d",)), ("bare", 1, ("-d",)), ("full", 0, ("julia",)),
                ("BAD", 0, ()), ("BADEVO", 0, ())]
        close = [(f"text{i}", h, flags) for i in range(4) for h, flags in ((0, ()), (0, ("julia",)))]
        where = scratch.dir()
        sources, alone = {}, {}
        allv = {**vs, "BAD": (bad_model, None, [], []), "BADEVO": bad_evolution}
        for n, v in allv.items():
            d = os.path.join(where, n)
            os.makedirs(d)
            sources[n] = prepare(d, v)
        for r in runs + close:
            n, h, flags = r
            d = os.path.join(where, "out")
            code, log = generate(where, *sources[n], d, (HANDLERS[h], ["-q", *flags]))
            if n.startswith("BAD") == (code == 0):
                rep.fail("alone:exit-code", f"{r}: exit code {code}: {log[-500:]}", f"{r}\n{log}")
                return
            alone[r] = gen.tree(d) if os.path.exists(d) else {}
            if n.startswith("BAD") or "-d" in flags:
                if alone[r]:
                    rep.fail("alone:files-written", f"{r}: {sorted(alone[r])}", f"{r}: {sorted(alone[r])}")
            shutil.rmtree(d, ignore_errors=True)

        def history(case):
            d = scratch.dir()
            out = os.path.join(d, "out")
            now = {}
            try:
                for k, r in enumerate(case):
                    n, h, flags = r
                    before = {}
                    for f in now:
                        os.utime(os.path.join(out, f), ns=(10**9, 10**9 * (k + 1)))
                    before = stamps(out)
                    code, log = generate(where, *sources[n], out, (HANDLERS[h], ["-q", *flags]))
                    what = f"run {k + 1} of {case}"
                    eq(code != 0, n.startswith("BAD"), "exit-code", f"{what}: {log[-500:]}")
                    new = {**now, **alone[r]}
                    files = gen.tree(out)
                    eq(sorted(files), sorted(new), "files", what)
                    for f, t in new.items():
                        if files[f] != t:
                            raise Bad("contents", f"{what}: {f} is not what the run gives in an empty directory")
                    after = stamps(out)
                    changed = {f for f in alone[r] if now.get(f) != new[f]}
                    for f in now:
                        written = after[f] != before[f]
                        if f in changed:
                            check(written, "not-written", f"{what}: {f}")
                        elif written and not (f == "podio_generated_files.cmake" and changed):
                            raise Bad("rewritten", f"{what}: {f} was written again although nothing in it changed")
                    now = new
            finally:
                shutil.rmtree(d)
            return len(case)
        short = [r for r in runs if r not in (("BADEVO", 0, ()), ("bare", 1, ("-d",)), ("full", 0, ("julia",)))]
        hist = [h for k in (1, 2, 3, 4)[:4 if thorough else 3] for h in itertools.product(runs if k < 3 or thorough and k == 3 else short, repeat=k) if k < 4 or len(set(h)) < 4]
        explore(rep, "histories", hist, history)
        explore(rep, "close-histories", [h for k in (2, 3, 4)[:3 if thorough else 2] for h in itertools.product([r for r in close if r[2] == ()], repeat=k)] +
                list(itertools.product([r for r in close if r[2]], repeat=2)), history)
    rep.assume("a file system that keeps modification times; jinja2 as installed")
