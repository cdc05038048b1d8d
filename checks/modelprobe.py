"""Programs that decide whether the generated classes are the ones of the model.

`Model` is an independent reading of a model (through the member grammar of
membergrammar.py, nothing of podio). `probe` writes a C++ program that asks for
every name that any of the classes might have, with the exact types, and then
exercises all of them. `try_model` generates, compiles (each generated file on
its own), links and runs.
"""
import os
import shutil
import subprocess
import tempfile

import yaml

from checks import membergrammar as mg
from vf import build, gen
from vf.pyenum import Bad

INFO = {"Description": "d", "Author": "a"}
RELS = ("OneToOneRelations", "OneToManyRelations", "VectorMembers")


def cap(prefix, name):
    return prefix + name[0].upper() + name[1:]


class Model:
    def __init__(self, text, package="pkg", files=None, upstream=None, probes=None):
        """text: the model as it is put into the YAML file"""
        self.text, self.package, self.files, self.upstream = text, package, files or {}, upstream
        self.dir = self.obj = None  # where it was generated and compiled (upstream models)
        self.probes = probes or {}  # type -> names that extra code adds, expressions that must hold
        o = text.get("options", {})
        self.get, self.expose, self.sub = o.get("getSyntax", False), o.get("exposePODMembers", True), o.get("includeSubfolder", False)
        self.version = int(text["schema_version"])
        self.comps = {n: [self.decl(t) for t in c.get("Members", [])] for n, c in text.get("components", {}).items()}
        self.dts = {n: {k: [self.decl(t) for t in c.get(k, [])] for k in ("Members", *RELS)} for n, c in text.get("datatypes", {}).items()}
        self.ifs = {n: ([self.decl(t) for t in c.get("Members", [])], list(c["Types"])) for n, c in text.get("interfaces", {}).items()}
        self.links = {n: (c["From"], c["To"]) for n, c in text.get("links", {}).items()}

    @staticmethod
    def decl(t):
        st, d = mg.parse(t, False)
        if st != "ok":
            raise Bad("oracle", f"{t}: {st} {d}")
        return d

    def include(self, name):
        return f'#include "{self.package + "/" if self.sub else ""}{name}.h"'

    def kind(self, typ):
        typ = typ.removeprefix("::")
        if mg.is_builtin(typ):
            return "builtin"
        for m in (self, self.upstream):
            if m:
                for k in ("comps", "dts", "ifs"):
                    if typ in getattr(m, k):
                        return k
        raise Bad("oracle", f"no type {typ}")

    def component(self, typ):
        typ = typ.removeprefix("::")
        return self.comps[typ] if typ in self.comps else self.upstream.comps[typ]

    def getter(self, n):
        return cap("get", n) if self.get else n

    def setter(self, n):
        return cap("set", n) if self.get else n

    def adder(self, n):
        return cap("addTo", n) if self.get else "add" + n

    def write(self, d):
        for name, text in self.files.items():
            gen.write(os.path.join(d, name), text)
        return gen.write(os.path.join(d, self.package + ".yaml"), yaml.safe_dump(self.text, sort_keys=False, allow_unicode=True))


PRELUDE = r"""
#define NAMED(N) \
template <class T> struct Has_##N { struct F { int N; }; struct D : T, F {}; template <class X> static constexpr bool any() { return requires { &X::N; }; } static constexpr bool value = !any<D>(); };
static int failures = 0;
static void fail(const char* key, const char* what, int line) { if (++failures <= 5) std::printf("FAIL %s: %s (probe line %d)\n", key, what, line); }
#define CHECK(key, ...) do { if (!(__VA_ARGS__)) fail(key, #__VA_ARGS__, __LINE__); } while (0)
template <class A, class B> constexpr bool same = std::is_same_v<std::remove_cvref_t<A>, B>;
// converts to exactly one type
template <class V> struct Only { V v; template <class U> requires std::is_same_v<U, V> operator U() const { return v; } };
// values
template <class T> requires std::is_arithmetic_v<T> void set(T& x, int k) {
  if constexpr (std::is_same_v<T, bool>) x = k % 2 == 0;
  else if constexpr (std::is_floating_point_v<T>) { const T v[] = {T(1.5), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), T(-0.25)}; x = v[k % 5]; }
  else { const T v[] = {T(3), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(77), T(std::numeric_limits<T>::max() / 3)}; x = v[k % 5]; }
}
template <class T> requires std::is_arithmetic_v<T> bool eq(T a, T b) { return a == b; }
"""
PRELUDE2 = r"""
template <class T, std::size_t N> void set(std::array<T, N>& a, int k) { for (std::size_t i = 0; i < N; ++i) set(a[i], k + static_cast<int>(i)); }
template <class T, std::size_t N> bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { for (std::size_t i = 0; i < N; ++i) if (!eq(a[i], b[i])) return false; return true; }
template <class T> bool eqv(const T& a, const T& b) { return eq(a, b); }
template <class T> T val(int k) { T x{}; set(x, k); return x; }
"""
COMMON = ["algorithm", "any", "array", "cstdint", "cstdio", "fstream", "functional", "iomanip", "iostream", "limits", "map", "memory", "mutex", "numeric", "optional", "ostream", "ranges",
          "set", "sstream", "stdexcept", "string", "string_view", "tuple", "type_traits", "typeindex", "unordered_map", "utility", "variant", "vector"]
PODIO = ["podio/CollectionBase.h", "podio/CollectionBuffers.h", "podio/Frame.h", "podio/GenericParameters.h", "podio/LinkCollection.h", "podio/ObjectID.h", "podio/RelationRange.h",
         "podio/UserDataCollection.h", "podio/utilities/TypeHelpers.h", "podio/DatamodelRegistry.h"]


class Writer:
    def __init__(self):
        self.lines, self.late, self.names, self.count = [], [], set(), 0

    def __call__(self, s):
        self.lines.append(s)


def probe(m):
    w = Writer()
    up = m.upstream
    for h in COMMON:
        w(f"#include <{h}>")
    w(f'#include "{m.package}/{m.package}.h"')
    for x in (m, up) if up else (m,):
        for n in x.comps:
            w(x.include(mg.split_ns(n)[1]))
        for n in x.dts:
            w(x.include(mg.split_ns(n)[1] + "Collection"))
            w(x.include("Mutable" + mg.split_ns(n)[1]))
        for n in x.ifs:
            w(x.include(mg.split_ns(n)[1]))
        for n in x.links:
            w(x.include(mg.split_ns(n)[1] + "Collection"))
    w(PRELUDE)
    allc = {**(up.comps if up else {}), **m.comps}
    for n in allc:
        w(f"void set(::{n}&, int); bool eq(const ::{n}&, const ::{n}&);")
    w(PRELUDE2)
    for n, ms in allc.items():
        w(f"void set(::{n}& c, int k) {{ (void)k; (void)c; {' '.join(f'set(c.{d.name}, k + {i});' for i, d in enumerate(ms))} }}")
        w(f"bool eq(const ::{n}& a, const ::{n}& b) {{ (void)a; (void)b; return true {' '.join(f'&& eq(a.{d.name}, b.{d.name})' for d in ms)}; }}")

    pool = {n for x in m.probes.values() for k in ("const", "mutable") for n in x.get(k, ())}
    at = len(w.lines)
    mains = []
    for n, ms in m.comps.items():
        f = f"component_{len(mains)}"
        mains.append(f)
        w(f"static void {f}() {{ // {n}")
        w(f"  ::{n} c;")
        fields(w, f"::{n}", "c", ms)
        defaults(w, ms, lambda d: f"c.{d.name}")
        w(f'  CHECK("version-alias", std::is_same_v<{versioned(n, m.version)}, ::{n}>);')
        for text in m.probes.get(n, {}).get("checks", []):
            w(f'  CHECK("component-extra-code", {text});')
        w("}")

    for n, d in m.dts.items():
        f = f"datatype_{len(mains)}"
        mains.append(f)
        datatype(w, m, f, n, d, pool)
    for n, (ms, types) in m.ifs.items():
        f = f"interface_{len(mains)}"
        mains.append(f)
        interface(w, m, f, n, ms, types, pool)
    for n, (a, b) in m.links.items():
        f = f"link_{len(mains)}"
        mains.append(f)
        ns, bare = mg.split_ns(n)
        p = f"::{ns}::" if ns else "::"
        a, b = "::" + a.removeprefix("::"), "::" + b.removeprefix("::")
        w(f"static void {f}() {{ // {n}")
        w(f'  CHECK("link-type", std::is_same_v<{p}{bare}, podio::Link<{a}, {b}>>);')
        w(f'  CHECK("link-type", std::is_same_v<{p}Mutable{bare}, podio::MutableLink<{a}, {b}>>);')
        w(f'  CHECK("link-type", std::is_same_v<{p}{bare}Collection, podio::LinkCollection<{a}, {b}>>);')
        w(f"  {p}{bare}Collection c; auto l = c.create(); l.setWeight(2.f); " + (f"l.set({some(m, a)}); l.set({some(m, b)}); " if not overlap(m, a, b) else "") + f"l.setFrom({some(m, a)}); l.setTo({some(m, b)});")
        w(f'  CHECK("link-use", l.getFrom().isAvailable() && l.getTo().isAvailable() && l.getFrom() == decltype(l.getFrom())(c[0].getFrom()));')
        w('  CHECK("link-use", c[0].getWeight() == 2.f); (void)l;')
        w("}")

    def typelist(names, suffix=""):
        return "podio::utils::TypeList<" + ", ".join("::" + x + suffix for x in names) + ">"
    w("static void typelists() {")
    for name, names, suffix in (("DataTypes", m.dts, ""), ("DataCollectionTypes", m.dts, "Collection"), ("LinkTypes", m.links, ""),
                                ("LinkCollectionTypes", m.links, "Collection"), ("InterfaceTypes", m.ifs, "")):
        w(f'  CHECK("type-lists", std::is_same_v<{m.package}::{m.package}{name}, {typelist(names, suffix)}>);')
    w("}")
    w("int main() {")
    for f in [*mains, "typelists"]:
        w(f"  {f}();")
    w("  if (failures) return 1;\n  std::printf(\"OK\\n\"); return 0;\n}")
    w.lines[at:at] = [f"NAMED({n})" for n in sorted(w.names)] + w.late
    return "\n".join(w.lines) + "\n"


def overlap(m, a, b):
    """objects that fit both ends of a link"""
    def fits(t):
        t = t.removeprefix("::")
        return {t, *[y for x in (m, m.upstream) if x and t in x.ifs for y in x.ifs[t][1]]}
    return fits(a) & fits(b)


def versioned(n, v, suffix=""):
    ns, bare = mg.split_ns(n)
    return f"::{ns}::v{v}::{bare}{suffix}" if ns else f"::v{v}::{bare}{suffix}"


def fields(w, typ, var, ms, more=()):
    """exactly these public data members, of these types and in this order"""
    names = [d.name for d in ms] + list(more)
    if not names:
        w(f'  CHECK("members", std::is_empty_v<{typ}>);')
        return
    w(f"  {{ auto& [{', '.join(f'f{i}_' for i in range(len(names)))}] = {var};")
    for i, d in enumerate(ms):
        w(f'    CHECK("member-type", std::is_same_v<decltype(std::declval<{typ}&>().{d.name}), {d.type}>); CHECK("member-order", (void*)&f{i}_ == (void*)&{var}.{d.name});')
    for n in more:
        w(f'    CHECK("member-type", std::is_same_v<decltype(std::declval<{typ}&>().{n}), unsigned>);')
    w("  }")


def defaults(w, ms, access):
    for d in ms:
        init = d.default if d.default is not None else ""
        w(f'  {{ const {d.type} expected{{{init}}}; CHECK("default-value", eq({access(d)}, expected)); }}')


def some(m, typ, k=0):
    """expression for an (unset) object of a type, as relation target"""
    t = typ.removeprefix("::")
    for x in (m, m.upstream):
        if x and t in x.ifs:
            return f"::{x.ifs[t][1][k % len(x.ifs[t][1])]}{{}}"
        if x and t in x.dts:
            return f"::{t}{{}}"
    return None


def surface(m, d, mutable):
    """name -> list of requires-expressions on (T& t / const T& t)"""
    s = {}

    def add(name, *conds):
        s.setdefault(name, []).extend(conds)

    def ret(expr, typ):
        return f"requires(const T_& c) {{ requires same<decltype({expr}), {typ}>; }}"

    def can(expr):
        return f"requires(T_& t) {{ {expr}; }}"

    def ref(expr, typ):
        return f"requires(T_& t) {{ requires std::is_same_v<decltype({expr}), {typ}&>; }}"

    for x in d["Members"]:
        g, st = m.getter(x.name), m.setter(x.name)
        add(g, ret(f"c.{g}()", x.type))
        if x.array_type is not None:
            add(g, ret(f"c.{g}(std::size_t{{}})", x.array_type))
        if mutable:
            add(st, can(f"t.{st}(std::declval<Only<{x.type}>>())"))
            add(g, ref(f"t.{g}()", x.type))
            if x.array_type is not None:
                add(st, can(f"t.{st}(std::size_t{{}}, std::declval<Only<{x.array_type}>>())"))
        elif not m.get:
            add(st, "not " + can(f"t.{st}(std::declval<{x.type}>())"))
        if m.expose and x.array_type is None and m.kind(x.type) == "comps":
            for y in m.component(x.type):
                g, st = m.getter(y.name), m.setter(y.name)
                add(g, ret(f"c.{g}()", y.type))
                if mutable:
                    add(st, can(f"t.{st}(std::declval<Only<{y.type}>>())"))
                    if y.array_type is not None or m.kind(y.type) == "comps":
                        add(g, ref(f"t.{g}()", y.type))
    for x in d["OneToOneRelations"]:
        g, st = m.getter(x.name), m.setter(x.name)
        add(g, ret(f"c.{g}()", x.type))
        if mutable:
            add(st, can(f"t.{st}(std::declval<const {x.type}&>())"))
        elif not m.get:
            add(st, "not " + can(f"t.{st}(std::declval<const {x.type}&>())"))
    for x in d["OneToManyRelations"] + d["VectorMembers"]:
        g = m.getter(x.name)
        add(g, ret(f"c.{g}(std::size_t{{}})", x.type), ret(f"*c.{g}().begin()", x.type))
        add(x.name + "_size", ret(f"c.{x.name}_size()", "std::size_t"))
        add(x.name + "_begin", ret(f"*c.{x.name}_begin()", x.type))
        add(x.name + "_end", ret(f"*c.{x.name}_end()", x.type))
        if mutable:
            a = m.adder(x.name)
            add(a, can(f"t.{a}(std::declval<const {x.type}&>())"))
    return s


def names_around(m, d):
    """every name that one of the elements might be reachable by"""
    pool = set()
    for k in ("Members", *RELS):
        for x in d[k]:
            for n in (x.name, *([s.name for s in m.component(x.type)] if k == "Members" and x.array_type is None and m.kind(x.type) == "comps" else [])):
                pool |= {n, cap("get", n), cap("set", n), "add" + n, cap("addTo", n), n + "_size", n + "_begin", n + "_end", cap("add", n), "get" + n, "set" + n}
    return pool - set("id clone unlink swap".split())


def check_surface(w, cls, expected, pool, extra=()):
    w.count += 1
    w.late.append(f"template <class T_> static void surface_{w.count}() {{ // {cls}")
    for n in sorted(pool | set(expected)):
        w.names.add(n)
        if n in expected:
            w.late.append(f'    CHECK("missing-name", Has_{n}<T_>::value);')
            for c in expected[n]:
                w.late.append(f'    CHECK("accessor-type", {c});')
        elif n not in extra:
            w.late.append(f'    CHECK("unexpected-name", !Has_{n}<T_>::value);')
    w.late.append("}")
    w(f"  surface_{w.count}<{cls}>();")


def datatype(w, m, f, n, d, pool):
    ns, bare = mg.split_ns(n)
    p = f"::{ns}::" if ns else "::"
    T, M, C, D = p + bare, p + "Mutable" + bare, p + bare + "Collection", p + bare + "Data"
    multi = d["OneToManyRelations"] + d["VectorMembers"]
    ext = m.probes.get(n, {})
    w(f"static void {f}() {{ // {n}")
    w(f"  {{ {D} c;")
    fields(w, D, "c", d["Members"], [x.name + s for x in d["VectorMembers"] + d["OneToManyRelations"] for s in ("_begin", "_end")])
    defaults(w, d["Members"], lambda x: f"c.{x.name}")
    w("  }")
    w(f'  CHECK("version-alias", std::is_same_v<{versioned(n, m.version, "Data")}, {D}>);')
    pool = pool | names_around(m, d)
    check_surface(w, T, surface(m, d, False), pool, ext.get("const", ()))
    check_surface(w, M, surface(m, d, True), pool, (*ext.get("const", ()), *ext.get("mutable", ())))
    w(f'  CHECK("type-name", {T}::typeName == "{n}" && {C}::typeName == "{n}Collection" && {C}::valueTypeName == "{n}" && {C}::dataTypeName == "{n}Data");')
    w(f'  CHECK("class-relations", std::is_same_v<{T}::mutable_type, {M}> && std::is_same_v<{T}::collection_type, {C}> && std::is_same_v<{M}::object_type, {T}> && std::is_same_v<{C}::value_type, {T}> && std::is_same_v<{C}::mutable_type, {M}>);')
    w(f"  {C} coll;")
    w(f'  CHECK("type-name", coll.getTypeName() == "{n}Collection" && coll.getValueTypeName() == "{n}" && coll.getDataTypeName() == "{n}Data");')
    w(f'  CHECK("schema-version", coll.getSchemaVersion() == {m.version});')
    w(f"  {{ {T} x; {M} y; auto z = coll.create();")
    w("  auto fresh = [&](const auto& v) {")
    defaults(w, d["Members"], lambda k: f"v.{m.getter(k.name)}()")
    for r in d["OneToOneRelations"]:
        w(f'  CHECK("relation-unset", !v.{m.getter(r.name)}().isAvailable());')
    for r in multi:
        w(f'  CHECK("relation-empty", v.{r.name}_size() == 0 && v.{m.getter(r.name)}().empty() && v.{r.name}_begin() == v.{r.name}_end());')
    w("  (void)v; };")
    w("  fresh(x); fresh(y); fresh(z); }")
    if d["Members"]:
        # from values, in the order of the declaration
        args = ", ".join(f"val<{x.type}>({i} + k)" for i, x in enumerate(d["Members"]))
        w(f"  for (int k : {{0, 2}}) {{ const {T} x({args}); const {M} y({args}); auto z = coll.create({args});")
        w("  auto same = [&](const auto& v) {")
        for i, x in enumerate(d["Members"]):
            w(f'    CHECK("constructor", eq(v.{m.getter(x.name)}(), val<{x.type}>({i} + k)));')
        w("  }; same(x); same(y); same(z); }")
        w(f'  CHECK("constructor", !std::is_constructible_v<{T}, {", ".join(x.type for x in d["Members"])}, int>);')
    w(f"  auto o = coll.create(); const auto& co = o; const {T} t = o;")
    # setters change their member only
    ms = d["Members"]

    w("  auto all = [&](int k) { auto same = [&](const auto& v) {")
    for i, x in enumerate(ms):
        w(f'    CHECK("set-and-get", eq(v.{m.getter(x.name)}(), val<{x.type}>({i} + k)));')
    w("  (void)v; }; (void)k; same(co); same(t); same(coll[coll.size() - 1]); };")

    for i, x in enumerate(ms):
        w(f"  o.{m.setter(x.name)}(val<{x.type}>({i}));")
    w("  all(0);")
    for i, x in enumerate(ms):
        w(f"  o.{m.getter(x.name)}() = val<{x.type}>({i + 1});")
    w("  all(1);")
    for i, x in enumerate(ms):
        if x.array_type is not None:
            w(f"  for (std::size_t i = 0; i < {x.array_size}; ++i) {{ CHECK(\"array-access\", eq(t.{m.getter(x.name)}(i), val<{x.type}>({i + 1})[i]));")
            w(f"    o.{m.setter(x.name)}(i, val<{x.array_type}>({i} + (int)i)); CHECK(\"array-access\", eq(t.{m.getter(x.name)}(i), val<{x.array_type}>({i} + (int)i))); }}")
        else:
            w(f"  o.{m.setter(x.name)}(val<{x.type}>({i}));")
    w("  all(0);")
    if m.expose:
        for i, x in enumerate(ms):
            if x.array_type is None and m.kind(x.type) == "comps":
                subs = m.component(x.type)
                for j, y in enumerate(subs):
                    w(f'  CHECK("sub-member", eq(t.{m.getter(y.name)}(), val<{y.type}>({i + j})) && eq(co.{m.getter(y.name)}(), t.{m.getter(x.name)}().{y.name}));')
                    w(f"  o.{m.setter(y.name)}(val<{y.type}>({i + j + 3}));")
                    w(f'  CHECK("sub-member", eq(t.{m.getter(x.name)}().{y.name}, val<{y.type}>({i + j + 3})));')
                    if y.array_type is not None or m.kind(y.type) == "comps":
                        w(f"  o.{m.getter(y.name)}() = val<{y.type}>({i + j + 1});")
                        w(f'  CHECK("sub-member", eq(t.{m.getter(x.name)}().{y.name}, val<{y.type}>({i + j + 1})));')
                    w(f"  o.{m.setter(y.name)}(val<{y.type}>({i + j}));")
        w("  all(0);")
    for r in d["OneToOneRelations"]:
        target = some(m, r.type)
        w(f"  {{ const auto target = {target}; o.{m.setter(r.name)}(target);")
        w(f'    CHECK("relation-set", t.{m.getter(r.name)}() == decltype(t.{m.getter(r.name)}())(target) && co.{m.getter(r.name)}().isAvailable()); }}')
    for i, r in enumerate(multi):
        if r in d["VectorMembers"]:
            a, b = f"val<{r.type}>({i})", f"val<{r.type}>({i + 1})"
            cmp = "eq({}, {})"
        else:
            a, b = some(m, r.type), some(m, r.type, 1)
            cmp = "{} == std::remove_cvref_t<decltype({})>({})"
        w(f"  {{ const {r.type} a = {a}, b = {b}; o.{m.adder(r.name)}(a); o.{m.adder(r.name)}(b);")
        w("  auto both = [&](const auto& v) {")
        for v in ("v",):
            g = m.getter(r.name)
            for e in (f"{v}.{g}(0)", f"{v}.{g}()[0]", f"*{v}.{r.name}_begin()"):
                w(f'    CHECK("multi-relation", {cmp.format(e, "a") if "eq" in cmp else f"{e} == a"});')
            for e in (f"{v}.{g}(1)", f"{v}.{g}()[1]", f"*({v}.{r.name}_end() - 1)"):
                w(f'    CHECK("multi-relation", {cmp.format(e, "b") if "eq" in cmp else f"{e} == b"});')
            w(f'    CHECK("multi-relation", {v}.{r.name}_size() == 2 && {v}.{g}().size() == 2);')
        w("  }; both(co); both(t); }")
    for r in multi:
        w(f'  CHECK("multi-relation", t.{r.name}_size() == 2);')
    w("  all(0);")
    for i, x in enumerate(ms):
        w(f"  {{ const auto& cc = coll; const auto v = cc.{x.name}(); CHECK(\"collection-access\", same<decltype(v), std::vector<{x.type}>> && v.size() == coll.size() && eqv<{x.type}>(v.back(), t.{m.getter(x.name)}()) "
          f"&& eqv<{x.type}>(v.front(), cc[0].{m.getter(x.name)}()) && cc.{x.name}(1).size() == 1 && cc.{x.name}(1000).size() == coll.size()); }}")
    w(f"  const auto k = t.clone(); (void)k;")
    for x in ms:
        w(f'  CHECK("clone", eq(k.{m.getter(x.name)}(), t.{m.getter(x.name)}()));')
    w("  { std::ostringstream os; os << t << coll; CHECK(\"print\", !os.str().empty()); }")
    for text in m.probes.get(n, {}).get("checks", []):
        w(f'  CHECK("extra-code", {text});')
    w("}")


def interface(w, m, f, n, ms, types, pool):
    ns, bare = mg.split_ns(n)
    p = f"::{ns}::" if ns else "::"
    I = p + bare
    w(f"static void {f}() {{ // {n}")
    w(f'  CHECK("interfaced-types", std::is_same_v<{I}::interfaced_types, std::tuple<{", ".join("::" + t for t in types)}>>);')
    w(f'  CHECK("type-name", {I}::typeName == "{n}");')
    d = {"Members": ms, "OneToOneRelations": [], "OneToManyRelations": [], "VectorMembers": []}
    exp, m.expose = m.expose, False
    names = surface(m, d, False)
    m.expose = exp
    subs = set()
    for x in ms:
        if x.array_type is None and m.kind(x.type) == "comps":
            for y in m.component(x.type):
                subs |= {y.name, cap("get", y.name), cap("set", y.name)}
    check_surface(w, I, names, pool | names_around(m, d), subs)
    every = {**(m.upstream.dts if m.upstream else {}), **m.dts}
    for t in every:
        tns, tb = mg.split_ns(t)
        tp = f"::{tns}::" if tns else "::"
        neg = "" if t in types else "!"
        w(f'  CHECK("interface-accepts", {neg}std::is_constructible_v<{I}, {tp}{tb}> && {neg}std::is_constructible_v<{I}, {tp}Mutable{tb}> && {neg}{I}::isInitializableFrom<{tp}{tb}>);')
    w(f'  {{ auto e = {I}::makeEmpty(); CHECK("interface-empty", !e.isAvailable()); }}')
    for k, t in enumerate(types):
        tns, tb = mg.split_ns(t)
        tp = f"::{tns}::" if tns else "::"
        x = m if t in m.dts else m.upstream
        w(f"  {{ {tp}Mutable{tb} o;")
        for i, y in enumerate(ms):
            w(f"    o.{x.setter(y.name)}(val<{y.type}>({i + k}));")
        w(f"    {I} v = o; CHECK(\"interface-holds\", v.isAvailable() && v.isA<{tp}{tb}>() && v.as<{tp}{tb}>() == o);")
        for i, y in enumerate(ms):
            w(f'    CHECK("interface-member", eq(v.{m.getter(y.name)}(), val<{y.type}>({i + k})));')
        w("    std::ostringstream os; os << v; CHECK(\"print\", !os.str().empty()); }")
    w("}")


# ---------------------------------------------------------------- building
class Toolchain:
    """core podio and precompiled headers, once per check"""

    def __init__(self, base):
        self.base = base
        inc = build.version_header()
        self.inc = [f"-I{inc}", f"-I{build.REPO}/include", f"-I{build.REPO}/src"]
        self.flags = ["-std=c++20", "-O0", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS"]
        with build.Lock():
            objs = build.compile_many([(s, ["-O0", "-fPIC", *self.inc], None) for s in build.core_sources()])
        self.lib = os.path.join(base, "libpodio.so")
        self.run([build.CXX, "-shared", "-pthread", "-o", self.lib, *objs])
        self.pch = {}
        for json in (False, True):
            d = os.path.join(base, f"pch{int(json)}")
            h = gen.write(os.path.join(d, "pch.h"), "#pragma once\n" + "".join(f"#include <{x}>\n" for x in COMMON) + "".join(f'#include "{x}"\n' for x in PODIO)
                          + ("#include <nlohmann/json.hpp>\n" if json else ""))
            self.pch[json] = [*self.flags, *self.inc, *(["-DPODIO_JSON_OUTPUT"] if json else [])], h
        procs = [subprocess.Popen([build.CXX, *fl, "-x", "c++-header", h, "-o", h + ".gch"], env=build.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                 for fl, h in self.pch.values()]
        for p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise build.BuildError(out[-3000:])

    def upstream(self, m):
        """generate and compile an upstream model on its own, to be used by several models"""
        m.dir = tempfile.mkdtemp(dir=self.base)
        generate(m, m.dir)
        src = gen.write(os.path.join(m.dir, "all.cc"), "".join(f'#include "{f}"\n' for f in sources(m.dir, m)))
        m.obj = os.path.join(m.dir, "all.o")
        fl, h = self.pch[False]
        self.run([build.CXX, *fl, *includes(m.dir, m), "-include", h, "-c", src, "-o", m.obj])
        return m

    @staticmethod
    def run(cmd, cwd=None, timeout=120):
        r = subprocess.run(cmd, cwd=cwd, env=build.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, check=False, errors="replace")
        if r.returncode:
            raise build.BuildError(f"{' '.join(cmd[:3])}...: exit {r.returncode}\n{r.stdout[:2500]}")
        return r.stdout


def generate(m, d, extra=()):
    """write and generate; returns the output directory"""
    y = m.write(d)
    out = os.path.join(d, "out-" + m.package)
    os.makedirs(out)
    args = list(extra)
    if m.upstream:
        args += ["--upstream-edm", f"{m.upstream.package}:{os.path.join(m.upstream.dir or d, m.upstream.package + '.yaml')}"]
    code, text = gen.run_script(gen.GENERATOR, [y, out, m.package, "-q", *args])
    if code != 0:
        raise Bad("generator-refuses", text[-1500:])
    return out


def sources(d, m):
    src = os.path.join(d, "out-" + m.package, "src")
    return [os.path.join(src, n) for n in sorted(os.listdir(src)) if n.endswith(".cc")]


def includes(d, m):
    res = []
    for x in (m, m.upstream):
        if x:
            o = os.path.join(x.dir or d, "out-" + x.package)
            res += [f"-I{o}", f"-I{o}/{x.package}"]
    return [*res, f"-I{d}"]


def generate_all(m, d, extra=()):
    if m.upstream and not m.upstream.dir:
        generate(m.upstream, d)
    generate(m, d, extra)


def try_alone(tc, m, d, part, parts, json=False, internal=True):
    """every generated source and header has to compile on its own"""
    generate_all(m, d)
    fl, h = tc.pch[json]
    files = sources(d, m)
    inc = os.path.join(d, "out-" + m.package, m.package)
    files += [os.path.join(inc, n) for n in sorted(os.listdir(inc)) if n.endswith(".h")]
    if not internal:
        files = [f for f in files if not f.endswith("CollectionData.h")]
    done = 0
    for f in files[part::parts]:
        try:
            tc.run([build.CXX, *fl, *includes(d, m), "-include", h, "-fsyntax-only", "-x", "c++", f])
        except build.BuildError as e:
            raise Bad("file-does-not-compile", f"{os.path.basename(f)}: {e}") from e
        done += 1
    shutil.rmtree(d, ignore_errors=True)
    return done


def try_model(tc, m, d, json=False, keep=False, text=None, extra=()):
    """generate, compile, run the probe; raises Bad"""
    generate_all(m, d, extra)
    fl, h = tc.pch[json]
    files = sources(d, m)
    objs = []
    if m.upstream and m.upstream.obj:
        objs.append(m.upstream.obj)
    elif m.upstream:
        files += sources(d, m.upstream)
    text = text if text is not None else probe(m)
    gen.write(os.path.join(d, "probe.cc"), text)
    src = gen.write(os.path.join(d, "all.cc"), "".join(f'#include "{f}"\n' for f in files) + '#include "probe.cc"\n')
    exe = os.path.join(d, "probe")
    try:
        tc.run([build.CXX, *fl, *includes(d, m), "-include", h, "-c", src, "-o", exe + ".o"])
    except build.BuildError as e:
        where = str(e)
        first = next((ln for ln in where.splitlines() if "error:" in ln), "")
        raise Bad("probe-does-not-compile" if first.startswith(os.path.join(d, "probe.cc")) else "does-not-compile", where) from e
    try:
        tc.run([build.CXX, "-pthread", exe + ".o", *objs, tc.lib, f"-Wl,-rpath,{tc.base}", "-o", exe])
    except build.BuildError as e:
        raise Bad("does-not-link", str(e)) from e
    r = subprocess.run([exe], env=build.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, check=False, errors="replace")
    if r.returncode != 0 or "OK" not in r.stdout:
        key = r.stdout.split(":")[0].removeprefix("FAIL ").strip() if r.stdout.startswith("FAIL") else "probe-died"
        lines = text.splitlines()
        out = r.stdout[:1200]
        for ln in out.splitlines():
            if "(probe line " in ln:
                no = int(ln.rsplit("(probe line ", 1)[1].rstrip(")"))
                start = [i for i in range(no) if "static void" in lines[i] and "// " in lines[i]]
                out += f"\nin {lines[start[-1]]}" if start else ""
                break
        raise Bad(key, f"exit {r.returncode}: {out}")
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return text.count("CHECK(")
