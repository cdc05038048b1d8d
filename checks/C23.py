import itertools
import os
import re
import shutil

import yaml

from checks import membergrammar as mg
from checks import modelprobe as mp
from checks.C22 import evolution_file
from checks.modelprobe import INFO, Model
from vf import build, gen
from vf.pyenum import Bad, check, explore

TECHNIQUE = "exhaustive enumeration of histories of model versions; generated layouts, conversion rules and buffers compiled and run against an independent reading of the versions"
NOTE = ("All histories of up to three model versions over eight shapes of a type (absent, members added, dropped, reordered, renamed, widened, arrays), for components, nested components and data "
        "types, with contiguous and other version numbers and the old versions given in both orders: layout of every old version, list of dictionary classes and the effect of every conversion rule "
        "(the rules are executed as ROOT would). All histories of the names of a data type over three versions: buffers for every old name and version. Extension models with old versions. "
        "ROOT itself is not installed: that it follows the rules is assumed.")

# ---------------------------------------------------------------- histories
SHAPES = [
    None,
    [("int", "a"), ("double", "b")],
    [("int", "a")],
    [("double", "b"), ("int", "a")],
    [("unsigned long long", "a"), ("double", "b")],
    [("int", "c"), ("double", "b")],
    [("std::array<float, 3>", "d"), ("int", "a"), ("double", "b")],
    [("std::array<float, 3>", "e"), ("int", "a"), ("double", "b")],
]
RENAMES = [("a", "c"), ("c", "a"), ("d", "e"), ("e", "d")]
CORE = (0, 1, 2, 4, 5)
# old versions in the order in which they are given, current version
NUMBERS2 = [((1,), 2), ((3,), 9)]
NUMBERS3 = [((1, 2), 3), ((2, 1), 3), ((5, 2), 11)]


def histories(n, thorough):
    """tuples of shapes (oldest first, current version last), at least one version has something"""
    every = n == 2 or thorough
    return [h for h in itertools.product(range(len(SHAPES)) if every else CORE, repeat=n) if any(h)]


def shape(h, k):
    return None if SHAPES[h] is None else [(t, f"{x}{k}") for t, x in SHAPES[h]]


def build_models(tags, numbers):
    """tags: [(k, history)]; returns {version: (components, datatypes)}, ordered by version, and the renames"""
    olds, cur = numbers
    versions = [*sorted(olds), cur]
    out = {v: ({}, {}) for v in versions}
    entries = []
    for k, hist in tags:
        ns = ["", "n::", "m::"]
        leaf, mid, nest, own = ns[k % 3] + f"Leaf{k}", ns[(k + k // 3) % 3] + f"Mid{k}", ns[(k // 2) % 3] + f"Nest{k}", ns[(k // 5) % 3] + f"Own{k}"
        for v, h in zip(versions, hist):
            comps, dts = out[v]
            ms = shape(h, k)
            if ms is not None:
                comps[leaf] = ms
            comps[mid] = ([(leaf, f"l{k}"), ("int", f"x{k}"), (f"std::array<{leaf}, 2>", f"la{k}")] if ms else [("int", f"x{k}")])
            dts[nest] = {"Members": [(mid, f"m{k}"), *([(f"std::array<{leaf}, 3>", f"n{k}"), (leaf, f"o{k}")] if ms else []), ("int", f"y{k}")],
                         "VectorMembers": [("int", f"v{k}")], "OneToOneRelations": [(nest, f"one{k}")], "OneToManyRelations": [(nest, f"many{k}")]}
            if ms is not None:
                dts[own] = {"Members": shape(h, k), "VectorMembers": [(mid, f"w{k}")] if k % 2 else [], "OneToManyRelations": [(nest, f"u{k}")]}
        if any(hist):
            entries += [("member", t, f"{a}{k}", f"{b}{k}") for t in (leaf, own) for a, b in RENAMES]
    return out, entries


def text_of(version, model, options=None):
    comps, dts = model
    out = {"schema_version": version, "options": {"exposePODMembers": False, "includeSubfolder": True, **(options or {})}}
    if comps:
        out["components"] = {n: {"Members": [f"{t} {x}" for t, x in ms]} for n, ms in comps.items()}
    if dts:
        out["datatypes"] = {n: {**INFO, **{f: [f"{t} {x} // d" for t, x in ms] for f, ms in fs.items() if ms}} for n, fs in dts.items()}
    return out


# ---------------------------------------------------------------- oracle
def bases(typ):
    m = re.fullmatch(r"std::array<(.*), *(\d+)>", typ)
    return m.group(1) if m else typ


def as_version(typ, v, prefix, comps):
    """the type of a member, with components as of version v"""
    m = re.fullmatch(r"std::array<(.*), *(\d+)>", typ)
    if m:
        return f"std::array<{as_version(m.group(1), v, prefix, comps)}, {m.group(2)}>"
    if typ in comps:
        return prefix(typ, v)
    return typ if typ.startswith("std::") or mg.is_builtin(typ) else "::" + typ


def generated(n, v, suffix=""):
    return mp.versioned(n, v, suffix)


def reference(n, v, suffix=""):
    return f"::ref::v{v}::{n.replace('::', '_')}{suffix}"


def expected_rules(models, entries, numbers):
    """(class, old version) -> {new member: old member} for everything renamed"""
    olds, cur = numbers
    out = {}
    known = {}
    for e in entries:
        if e[0] == "member":
            known.setdefault(e[1], []).append((e[2], e[3]))
    for i, suffix in ((0, ""), (1, "Data")):
        for n, new in models[cur][i].items():
            for v in olds:
                if n not in models[v][i]:
                    continue
                a, b = [dict((x, t) for t, x in (d if i == 0 else d["Members"])) for d in (models[v][i][n], new)]
                moved = {y: x for x, y in known.get(n, []) if x in a and x not in b and y in b and y not in a and a[x] == b[y]}
                if moved:
                    out[n + suffix, v] = moved
    return out


def expected_classes(models, numbers, renamed=()):
    """renamed: {old name: set of versions in which it had the old name}"""
    olds, cur = numbers
    out = {}

    def add(name, version, vector=True):
        out[name] = version
        if vector:
            out[f"std::vector<{name}>"] = None

    def ver(n, v, suffix=""):
        return mp.versioned(n, v, suffix).removeprefix("::")
    for n in models[cur][0]:
        add(n, cur)
        add(ver(n, cur), cur)
    for n in models[cur][1]:
        ns, bare = mg.split_ns(n)
        add(n + "Data", cur)
        add(ver(n, cur, "Data"), cur)
        for x in (f"{ns}::Mutable{bare}" if ns else f"Mutable{bare}", n, n + "Collection"):
            add(x, cur, False)
    for v in olds:
        for n in models[v][0]:
            add(ver(n, v), v)
        for n in models[v][1]:
            if n in models[cur][1] or v in dict(renamed).get(n, ()):
                add(ver(n, v, "Data"), v)
    return out


def selected_versions(text):
    out = set()
    check(text.startswith("[") and text.endswith("]"), "rule-version", text)
    for part in text[1:-1].split(","):
        a, _, b = part.strip().partition("-")
        out |= set(range(int(a or 1), int(b) + 1)) if b else {int(a)}
    return out


class Rules:
    """the dictionary file; it is no well-formed XML (names of template instances)"""

    def __init__(self, path):
        with open(path, encoding="utf-8") as f:
            text = re.sub("<!--.*?-->", "", f.read(), flags=re.S)
        self.classes, self.rules = {}, []
        for m in re.finditer(r"<(class|ioread)\b((?:\s+\w+\s*=\s*\"[^\"]*\")*)\s*(/>|>)", text):
            attr = {k: v.replace("&lt;", "<").replace("&gt;", ">") for k, v in re.findall(r"(\w+)\s*=\s*\"([^\"]*)\"", m.group(2))}
            if m.group(1) == "class":
                self.classes.setdefault(attr["name"].replace(" ", ""), set()).add(attr.get("ClassVersion"))
                continue
            body = text[m.end():text.index("</ioread>", m.end())] if m.group(3) == ">" else ""
            code = re.fullmatch(r"\s*(?:<!\[CDATA\[)?(.*?)(?:\]\]>)?\s*", body, flags=re.S).group(1).strip()
            self.rules.append({"from": attr["sourceClass"], "to": attr["targetClass"], "versions": selected_versions(attr["version"]),
                               "source": [s.strip() for s in attr["source"].split(";") if s.strip()], "target": [t.strip() for t in attr["target"].split(",") if t.strip()], "code": code})


def check_classes(rules, want):
    have = {n: v for n, v in rules.classes.items()}
    names = {n.replace(" ", "") for n in want}
    check(names <= set(have), "dictionary-misses", f"no dictionary for {sorted(names - set(have))[:5]}")
    check(set(have) <= names | {f"std::vector<{n}>" for n in names}, "dictionary-unknown", f"dictionary for {sorted(set(have) - names)[:5]}")
    for n, v in want.items():
        if v is not None:
            check(str(v) in have[n.replace(" ", "")] and len(have[n.replace(" ", "")] - {None}) == 1, "class-version", f"{n}: {have[n.replace(' ', '')]}, expected {v}")


# ---------------------------------------------------------------- probe of layouts and rules
HEAD = r"""
#include <cstddef>
template <class A, class B> void copy(A& a, const B& b) { a = static_cast<A>(b); }
"""


def layouts(models, numbers, entries, rules, headers):
    w = mp.Writer()
    olds, cur = numbers
    for h in mp.COMMON:
        w(f"#include <{h}>")
    for h in headers:
        w(f'#include "{h}"')
    w(mp.PRELUDE)
    w(HEAD)
    order = [*sorted(olds), cur]
    classes = []  # (name with suffix, version, [(type, name)], ranges)
    for v in order:
        comps, dts = models[v]
        w(f"namespace ref::v{v} {{")
        done = set()

        def emit(n, v=v, comps=comps, done=done):
            if n in done:
                return
            done.add(n)
            for t, _ in comps[n]:
                if bases(t) in comps:
                    emit(bases(t))
            w(f"struct {n.replace('::', '_')} {{ {' '.join(f'{as_version(t, v, reference, comps)} {x};' for t, x in comps[n])} }};")
            classes.append((n, "", v, comps[n], []))
        for n in comps:
            emit(n)
        for n, d in dts.items():
            if n not in models[cur][1]:
                continue
            ranges = [x + s for f in ("VectorMembers", "OneToManyRelations") for _, x in d.get(f, []) for s in ("_begin", "_end")]
            w(f"struct {n.replace('::', '_')}Data {{ {' '.join(f'{as_version(t, v, reference, comps)} {x};' for t, x in d['Members'])} {' '.join(f'unsigned {x};' for x in ranges)} }};")
            classes.append((n, "Data", v, d["Members"], ranges))
        w("}")
    mains = []
    for n, suffix, v, ms, ranges in classes:
        comps = models[v][0]
        f = f"layout_{len(mains)}"
        mains.append(f)
        g, r = generated(n, v, suffix), reference(n, v, suffix)
        w(f"static void {f}() {{ // {n}{suffix} of version {v}")
        names = [x for _, x in ms] + ranges
        if names:
            w(f"  {g} o{{}}; auto& [{', '.join(f'f{i}_' for i in range(len(names)))}] = o;")
        w(f'  CHECK("layout-size", sizeof({g}) == sizeof({r}) && alignof({g}) == alignof({r}));')
        for i, x in enumerate(names):
            w(f'  CHECK("layout-order", (void*)&f{i}_ == (void*)&o.{x} && offsetof({g}, {x}) == offsetof({r}, {x}));')
        for t, x in ms:
            w(f'  CHECK("layout-type", std::is_same_v<decltype({g}::{x}), {as_version(t, v, generated, comps)}>);')
        for x in ranges:
            w(f'  CHECK("layout-type", std::is_same_v<decltype({g}::{x}), unsigned>);')
        if v == cur:
            w(f'  CHECK("current-version", std::is_same_v<{g}, ::{n}{suffix}>);')
        w("}")

    def current(n):
        return models[cur][1][n[:-4]]["Members"] if n.endswith("Data") and n not in models[cur][0] else models[cur][0][n]

    def old(n, v):
        return models[v][1][n[:-4]]["Members"] if n.endswith("Data") and n not in models[v][0] else models[v][0][n]

    want = expected_rules(models, entries, numbers)
    for key, moved in want.items():
        n, v = key
        mine = [r for r in rules.rules if r["from"] == r["to"] == n and v in r["versions"]]
        check(set(moved) <= {t for r in mine for t in r["target"]}, "no-conversion", f"{n} of version {v}: renamed {moved}, conversions {mine}")
        f = f"rules_{len(mains)}"
        mains.append(f)
        execute(w, f, n, n, v, mine, old(n, v), current(n), moved)
    for r in rules.rules:
        for v in r["versions"]:
            check((r["from"], v) in want and r["to"] == r["from"], "unexpected-conversion", f"{r} although {r['from']} of version {v} needs none")
    w("int main() {")
    for f in mains:
        w(f"  {f}();")
    w("  if (failures) return 1;\n  std::printf(\"OK\\n\"); return 0;\n}")
    return "\n".join(w.lines) + "\n", len(classes), sum(len(r["versions"]) for r in rules.rules)


def execute(w, f, src, dst, v, rules, old, new, moved):
    """run rules as ROOT does: with the members read from the file as `onfile` and a reference for every target"""
    olds, news = {x: t for t, x in old}, {x: t for t, x in new}
    for k, r in enumerate(rules):
        w(f"struct {f}_r{k} {{ struct Onfile {{ {' '.join(s + ';' for s in r['source'])} }};")
        w(f"  static void run(const Onfile& onfile, ::{dst}& newObj) {{ (void)onfile;")
        for t in r["target"]:
            w(f"    auto& {t} = newObj.{t};")
        w(f"    {r['code']}\n  }} }};")
    w(f"static void {f}() {{ // rules for {src} of version {v}")
    w(f"  for (int k = 0; k < 5; ++k) {{ ::{dst} o{{}}; const ::{dst} before{{}};")
    touched = set()
    for k, r in enumerate(rules):
        w(f"    {{ {f}_r{k}::Onfile onfile;")
        for s in r["source"]:
            x = s.split()[-1]
            check(x in olds, "conversion-source", f"{src} of version {v} has no member {x}: {r}")
            w(f'    CHECK("conversion-source", std::is_same_v<decltype(onfile.{x}), {as_current(olds[x])}>); some(onfile.{x}, k + {list(olds).index(x)});')
        w(f"    {f}_r{k}::run(onfile, o); }}")
        touched |= set(r["target"])
    for x, t in news.items():
        if x in touched:
            y = moved.get(x, x)
            check(y in olds and (x in moved or x in olds), "unexpected-conversion", f"{src} of version {v}: {x} is converted from something")
            w(f"    {{ {as_current(olds[y])} value; some(value, k + {list(olds).index(y)}); {as_current(t)} want; copy(want, value); CHECK(\"converted-value\", bytes(want, o.{x})); }}")
        else:
            w(f'    CHECK("other-member-changed", bytes(before.{x}, o.{x}));')
    w("  } }")


def as_current(t):
    m = re.fullmatch(r"std::array<(.*), *(\d+)>", t)
    if m:
        return f"std::array<{as_current(m.group(1))}, {m.group(2)}>"
    return t if mg.is_builtin(t) else "::" + t


HEAD += r"""
#include <cstring>
// any value without padding in between that matters: the members are compared as memory
template <class T> void some(T& x, int k) { std::memset((void*)&x, 1 + 2 * k, sizeof(T)); }
template <class T> bool bytes(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
"""


def write_models(d, models, numbers, entries, reverse=False, options=None):
    olds, cur = numbers
    paths = {v: gen.write(os.path.join(d, f"v{v}.yaml"), yaml.safe_dump(text_of(v, m, options), sort_keys=False)) for v, m in models.items()}
    evo = evolution_file(os.path.join(d, "evolution.yaml"), entries) if entries else None
    out = os.path.join(d, "out-pkg")
    os.makedirs(out)
    args = [paths[cur], out, "pkg", "-q", "--old-descriptions", *[paths[v] for v in olds]]
    if evo:
        args += ["--evolution_file", evo]
    code, text = gen.run_script(gen.GENERATOR, args)
    if code != 0:
        raise Bad("generator-refuses", text[-1500:])
    return out


def compile_run(tc, d, text, files=(), objs=()):
    fl, h = tc.pch[False]
    gen.write(os.path.join(d, "probe.cc"), text)
    src = gen.write(os.path.join(d, "all.cc"), "".join(f'#include "{f}"\n' for f in files) + '#include "probe.cc"\n')
    exe = os.path.join(d, "probe")
    out = os.path.join(d, "out-pkg")
    try:
        tc.run([build.CXX, *fl, f"-I{out}", f"-I{out}/pkg", f"-I{d}", *([f"-I{d}/out-up"] if os.path.isdir(f"{d}/out-up") else []), "-include", h, "-c", src, "-o", exe + ".o"], timeout=300)
        tc.run([build.CXX, "-pthread", exe + ".o", *objs, tc.lib, f"-Wl,-rpath,{tc.base}", "-o", exe])
    except build.BuildError as e:
        raise Bad("does-not-compile", str(e)) from e
    try:
        res = tc.run([exe])
    except build.BuildError as e:
        msg = str(e)
        m = re.search(r"FAIL ([a-z-]+):.*\(probe line (\d+)\)", msg)
        if m:
            lines = text.splitlines()
            start = [i for i in range(int(m.group(2))) if lines[i].startswith("static void") and "// " in lines[i]]
            msg += f"\nin {lines[start[-1]]}" if start else ""
        raise Bad(m.group(1) if m else "probe-died", msg) from e
    check("OK" in res, "probe-died", res)


def headers_of(out):
    inc = os.path.join(out, "pkg")
    return sorted(n for n in os.listdir(inc) if n.endswith(".h"))


# ---------------------------------------------------------------- renamed data types
def rename_models(hist, numbers, kind, second):
    """hist: name of the type per version (None: it is not there)"""
    olds, cur = numbers
    ns = {"plain": "", "ns": "n::"}[kind]
    out = {}
    for v, name in zip([*sorted(olds), cur], hist):
        comps = {"C": [("int", "c1"), ("float", "c2")]}
        dts = {"Other": {"Members": [("int", "z")]}}
        if name:
            dts[ns + name] = {"Members": [("int", "i"), ("C", "comp"), ("std::array<double, 3>", "arr")], "VectorMembers": [("int", "vec")],
                              "OneToOneRelations": [("Other", "one")], "OneToManyRelations": [("Other", "many")]}
        if second and name:
            dts["Y" + name] = {"Members": [("float", "q")]}
        out[v] = (comps, dts)
    return out


def rename_probe(models, hist, numbers, kind, second, rules, headers):
    olds, cur = numbers
    ns = {"plain": "", "ns": "n::"}[kind]
    w = mp.Writer()
    for h in mp.COMMON:
        w(f"#include <{h}>")
    for h in [*headers, "podio/CollectionBufferFactory.h", "podio/SchemaEvolution.h"]:
        w(f'#include "{h}"')
    w(mp.PRELUDE)
    w(HEAD)
    mains = []
    w("template <class C> static void buffers(const char* type, unsigned version, bool subset) {")
    w("  auto b = podio::CollectionBufferFactory::instance().createBuffers(type, version, subset);")
    w('  CHECK("no-buffers", b.has_value()); if (!b) return;')
    w('  CHECK("buffers-of-other-type", b->type == C::typeName); if (b->type != C::typeName) { std::printf("%s of version %u: %s\\n", type, version, std::string(b->type).c_str()); return; }')
    w("  const auto v = b->schemaVersion; const std::string t{b->type};")
    w("  auto e = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, t);")
    w("  auto c = e.createCollection(std::move(e), subset);")
    w('  CHECK("buffers-of-other-type", dynamic_cast<C*>(c.get()) != nullptr && c->getTypeName() == C::typeName && c->size() == 0);')
    w("}")
    w("static void all_buffers() { // buffers")
    pairs = [(ns, "")] + ([("Y", "")] if second else [])
    n_b = 0
    for pre, _ in pairs:
        now = pre + hist[-1]
        for v, name in zip([*sorted(olds), cur], hist):
            if name:
                for s in ("false", "true"):
                    w(f'  buffers<::{now}Collection>("{pre}{name}Collection", {v}, {s});')
                    n_b += 1
        for v in range(1, cur + 1):
            w(f'  buffers<::{now}Collection>("{now}Collection", {v}, false);')
    for v in range(1, cur + 1):
        w(f'  buffers<::OtherCollection>("OtherCollection", {v}, false);')
    w("}")
    mains.append("all_buffers")
    # every class of the dictionary is there
    w("static void dictionary() { // dictionary")
    for n in rules.classes:
        w(f'  CHECK("dictionary", sizeof({n}) > 0);')
    w("}")
    mains.append("dictionary")
    seen = set()
    for pre, _ in pairs:
        now = pre + hist[-1]
        for v, name in zip(sorted(olds), hist):
            if not name or name == hist[-1]:
                continue
            old = pre + name
            mine = [r for r in rules.rules if r["from"] == old + "Data" and v in r["versions"]]
            check(all(r["to"] == now + "Data" for r in mine), "conversion-target", mine)
            targets = {t for r in mine for t in r["target"]}
            ms = models[v][1][old]["Members"]
            check(targets >= {x for _, x in ms}, "no-conversion", f"{old} of version {v}: {mine}")
            f = f"rules_{len(mains)}"
            mains.append(f)
            execute(w, f, old + "Data", now + "Data", v, mine, ms, models[cur][1][now]["Members"], {x: x for _, x in ms})
            seen.add((old + "Data", v))
    for r in rules.rules:
        for v in r["versions"]:
            check((r["from"], v) in seen, "unexpected-conversion", r)
    w("int main() {")
    for f in mains:
        w(f"  {f}();")
    w("  if (failures) return 1;\n  std::printf(\"OK\\n\"); return 0;\n}")
    return "\n".join(w.lines) + "\n", n_b


def renamed_in(hist, numbers, pre):
    out = {}
    for v, name in zip(sorted(numbers[0]), hist):
        if name and name != hist[-1]:
            out.setdefault(pre + name, set()).add(v)
    return out


# ---------------------------------------------------------------- extension models
UP = {"components": {"UC": {"Members": ["int u1"]}, "n::UC2": {"Members": ["UC inner"]}},
      "datatypes": {"UT": {**INFO, "Members": ["double energy // d"]}}}


def extension(hist, numbers):
    olds, cur = numbers
    out = {}
    for v, h in zip([*sorted(olds), cur], hist):
        m = text_of(v, ({}, {}))
        up = {0: [], 1: ["UC uc"], 2: ["n::UC2 uc2"], 3: ["std::array<UC, 2> uca"], 4: ["std::array<n::UC2, 2> ua2", "UC uc"]}[h]
        m["components"] = {"Own": {"Members": [*up, "int a"]}}
        m["datatypes"] = {"T": {**INFO, "Members": [*[x + " // d" for x in up], "Own own // d", "int b // d"], "OneToOneRelations": ["UT one // d"], "OneToManyRelations": ["T many // d"],
                                "VectorMembers": ["UC vec // d"]}}
        out[v] = m
    return out


def run(tier, rep):
    gen.preload()
    thorough = tier == "thorough"
    with gen.Scratch("c23") as scratch:
        tc = mp.Toolchain(scratch.dir())

        def chunks(n, numbers, size):
            tags = list(enumerate(histories(n, thorough)))
            return [(tuple(tags[i::-(-len(tags) // size)]), num) for num in numbers for i in range(-(-len(tags) // size))]

        def layout(case):
            tags, numbers, whole = case
            d = scratch.dir()
            models, entries = build_models(tags, numbers)
            out = write_models(d, models, numbers, entries)
            rules = Rules(os.path.join(out, "src", "selection.xml"))
            check_classes(rules, expected_classes(models, numbers))
            cur = numbers[1]
            comps = {mg.split_ns(n)[1] for v in models for n in models[v][0]}
            heads = [f"pkg/{n}.h" for n in sorted(comps)] + [f"pkg/{mg.split_ns(n)[1]}Data.h" for n in models[cur][1]]
            if whole:
                heads = [f"pkg/{h}" for h in headers_of(out)]
            text, a, b = layouts(models, numbers, entries, rules, heads)
            files = [os.path.join(out, "src", n) for n in sorted(os.listdir(os.path.join(out, "src"))) if n.endswith(".cc")] if whole else []
            compile_run(tc, d, text, files)
            shutil.rmtree(d, ignore_errors=True)
            return a + b

        size = 12
        cases = [(t, n, False) for t, n in chunks(2, NUMBERS2, size) + chunks(3, NUMBERS3, size)]
        # a few with all generated code
        some = list(enumerate(histories(2, False)))
        cases += [(tuple(some[i::21]), NUMBERS2[0], True) for i in range(0, 21, 2 if not thorough else 1)]
        explore(rep, "layouts", cases, layout, show=lambda c: f"histories {c[0]} versions {c[1]} {'all code' if c[2] else ''}")

        def rename(case):
            hist, numbers, kind, second, known = case
            d = scratch.dir()
            models = rename_models(hist, numbers, kind, second)
            pre = {"plain": "", "ns": "n::"}[kind]
            olds = {**renamed_in(hist, numbers, pre), **(renamed_in(hist, numbers, "Y") if second else {})}
            entries = [("datatype", o, o[:-1] + hist[-1]) for o in olds] if known else []
            out = write_models(d, models, numbers, entries)
            rules = Rules(os.path.join(out, "src", "selection.xml"))
            want = expected_classes(models, numbers, olds)
            have = set(rules.classes)
            check({x.replace(" ", "") for x in want} <= have, "dictionary-misses", sorted({x.replace(" ", "") for x in want} - have))
            text, n = rename_probe(models, hist, numbers, kind, second, rules, [f"pkg/{h}" for h in headers_of(out)])
            files = [os.path.join(out, "src", x) for x in sorted(os.listdir(os.path.join(out, "src"))) if x.endswith(".cc")]
            compile_run(tc, d, text, files)
            shutil.rmtree(d, ignore_errors=True)
            return n

        names = ("A", "B", None)
        rcases = [(h, num, kind, False, known) for num in NUMBERS2 for h in itertools.product(names, ("B",)) for kind, known in (("plain", False), ("ns", True))]
        rcases += [(h, num, ("plain", "ns")[i % 2], False, bool(i // 2 % 2)) for num in NUMBERS3 for i, h in enumerate(itertools.product((*names, "D"), names, ("B",)))]
        rcases += [(("A", "B"), NUMBERS2[0], "plain", True, False), (("A", "A", "B"), NUMBERS3[0], "plain", True, False), (("A", "A", "B"), NUMBERS3[2], "ns", True, True)]
        explore(rep, "renamed-types", rcases, rename)

        up = tc.upstream(Model({**UP, "schema_version": 4, "options": {"includeSubfolder": True}}, "up"))

        def extend(case):
            hist, numbers = case
            d = scratch.dir()
            texts = extension(hist, numbers)
            olds, cur = numbers
            paths = {v: gen.write(os.path.join(d, f"v{v}.yaml"), yaml.safe_dump(m, sort_keys=False)) for v, m in texts.items()}
            out = os.path.join(d, "out-pkg")
            os.makedirs(out)
            code, text = gen.run_script(gen.GENERATOR, [paths[cur], out, "pkg", "-q", "--upstream-edm", f"up:{up.dir}/up.yaml", "--old-descriptions", *[paths[v] for v in olds]])
            check(code == 0, "generator-refuses", text[-1500:])
            shutil.copytree(os.path.join(up.dir, "out-up"), os.path.join(d, "out-up"))
            w = mp.Writer()
            for h in mp.COMMON:
                w(f"#include <{h}>")
            for h in headers_of(out):
                w(f'#include "pkg/{h}"')
            w(mp.PRELUDE)
            w(HEAD)
            w("static void old() { // old versions")
            n = 0
            for v, m in texts.items():
                for cls, ms in (("Own", m["components"]["Own"]["Members"]), ("TData", m["datatypes"]["T"]["Members"])):
                    ms = [re.sub(" // d$", "", x).rsplit(" ", 1) for x in ms]
                    more = ["vec_begin", "vec_end", "many_begin", "many_end"] if cls == "TData" else []
                    ns = [x for _, x in ms] + more
                    w(f"  {{ ::v{v}::{cls} o{{}}; auto& [{', '.join(f'f{i}_' for i in range(len(ns)))}] = o;")
                    for i, x in enumerate(ns):
                        w(f'    CHECK("layout-order", (void*)&f{i}_ == (void*)&o.{x});')
                    for t, x in ms:
                        want = f"::v{v}::Own" if t == "Own" else as_current(t)
                        w(f'    CHECK("layout-type", std::is_same_v<decltype(o.{x}), {want}>);')
                        n += 1
                    w("  }")
            for name in Rules(os.path.join(out, "src", "selection.xml")).classes:
                w(f'  CHECK("dictionary", sizeof({name}) > 0);')
            w("}\nint main() { old(); if (failures) return 1; std::printf(\"OK\\n\"); return 0; }")
            files = [os.path.join(out, "src", x) for x in sorted(os.listdir(os.path.join(out, "src"))) if x.endswith(".cc")]
            compile_run(tc, d, "\n".join(w.lines) + "\n", files, [up.obj])
            shutil.rmtree(d, ignore_errors=True)
            return n

        ecases = [(h, NUMBERS2[0]) for h in itertools.product(range(5), repeat=2) if (h[0] - h[1]) % 5 < 3 or thorough]
        ecases += [((0, 1, 2), NUMBERS3[0]), ((3, 4, 0), NUMBERS3[1]), ((4, 2, 3), NUMBERS3[2])]
        explore(rep, "extension", ecases, extend)
