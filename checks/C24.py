import itertools

from checks import membergrammar as mg
from vf.pyenum import Bad, check, eq, explore

TECHNIQUE = "exhaustive enumeration of token sequences and of all edits of well-formed declarations against an independent scanner"
NOTE = ("All token sequences up to length 5 (thorough: 6) over 20 tokens, all combinations of types x array forms x names x defaults x units "
        "x descriptions x spacings, and all single-token deletions, duplications, swaps and replacements of representative declarations, each with and without "
        "the requirement of a description. The expected reading comes from a hand written scanner. Identifiers that are C++ keywords "
        "other than the builtin type words, single colons, tabs and non-ASCII letters are left open.")

TYPES = ["int", "unsigned int", "unsigned", "unsigned long", "unsigned long long", "long", "long long", "float", "double", "char", "short", "bool",
         "int16_t", "std::int16_t", "uint16_t", "int32_t", "uint32_t", "std::uint64_t", "std::int64_t", "Comp", "ns::Comp", "::Comp", "T_1", "integer", "int16_tuple", "longer", "uint8_ty",
         "unsignedint", "intx", "std::string"]
BADTYPES = ["__foo", "_T", "1x", "int8_t", "uint8_t", "std::int8_t", "int_least32_t", "uint_fast64_t", "std::int_fast16_t", "a::b::c", "std::a::b", "::a::b", "unsigned float", "long int",
            "unsigned long int", "double double", "long long long", "", "-", "T*", "T&", "const int", "a-b"]
NAMES = ["x", "_x", "x1", "snake_case_2", "intx", "X", "std", "array", "long_"]
BADNAMES = ["1x", "", "a b", "a-b", "a.b", "x,", "int", "long", "a::b", "*x", "[4]x"]
DEFAULTS = ["", "{1}", "{-1.5e3f}", "{1, 2}", "{'a'}", "{a::b}", "{f(x)}", "{1}{2}", "{{1}, {2}}"]
BADDEFAULTS = ["{}", "{", "}", "{1", "1}", "=1", "(1)", "{1} x", "{// a}"]
UNITS = ["", "[mm]", "[GeV/c^2]", "[m*s]", "[cm2]", "[_]", "[/s]"]
BADUNITS = ["[]", "[1/s]", "[mm", "mm]", "(mm)", "[m m]", "[m-1]", "[mm] [mm]", "[m2/s]"]
DESCRIPTIONS = ["// d", "//d", "//  two words  ", "// [mm] in // brackets", "// {a} see {b}", "// see {a} // b", "// x // y {1} // z", "///< d", "// \"quoted\" \\n 'x'", "//"]
NODESC = ["", "/ d", "# d", "/* d */", "d"]
SPACINGS = [("", " ", " ", " ", " "), ("  ", "   ", "  ", "  ", "  "), ("", " ", "", "", "")]
ARRAYS = ["std::array<{t},{n}>", "std::array<{t}, {n}>", "  std::array < {t} , {n} >", "std::array<{t} ,{n} >"]
BADARRAYS = ["array<{t}, {n}>", "std:: array<{t}, {n}>", "::std::array<{t}, {n}>", "std::array<{t}>", "std::array<{n}, {t}>", "std::array<{t}, {n}", "std::array<{t} {n}>", "std::array<std::array<{t}, {n}>, {n}>",
             "std::array{t}, {n}>", "std::array<>", "std::array<{t}, {n}, {n}>", "std::vector<{t}>", "{t}[{n}]"]
SIZES = ["4", "1", "123"]
BADSIZES = ["N", "-1", "4u", "1.5", "", "0x4"]

TOKENS = ["int", "unsigned", "long", "Comp", "ns", "::", "_x", "x", "int8_t", "std::array", "<", "4", ",", ">", "{", "}", "[", "]", "//", " "]


def join(parts, sp):
    typ, name, default, unit, desc = parts
    return sp[0] + typ + sp[1] + name + sp[2] + default + sp[3] + unit + sp[4] + desc


def compare(text, need, parser, cache):
    want, d = mg.parse(text, need)
    try:
        got = mg.observed(parser.parse(text, need))
    except cache.DefinitionError:
        if want == "ok":
            raise Bad("valid-refused", f"{text!r} (description required: {need}) follows the grammar but is refused") from None
        return
    if want == "bad":
        raise Bad("invalid-accepted", f"{text!r} (description required: {need}) is outside of the grammar ({d}) but is read as {got['str']!r}")
    exp = mg.attributes(d)
    for k, v in exp.items():
        if got[k] != v:
            raise Bad(f"misread-{k}", f"{text!r} (description required: {need}): {k} is {got[k]!r}, expected {v!r}")
    check(set(exp) == set(got), "attributes", f"{set(exp) ^ set(got)}")


def run(tier, rep):
    import podio_gen.podio_config_reader as pcr  # pylint: disable=import-outside-toplevel

    parser = pcr.MemberParser()

    def both(texts):
        n = 0
        for t in texts:
            for need in (True, False):
                compare(t, need, parser, pcr)
                n += 1
        return n

    depth = 5 if tier == "quick" else 6
    heads = list(itertools.product(TOKENS, repeat=2 if tier == "quick" else 3))

    def sequences(head):
        def gen():
            yield "".join(head)
            for n in range(1, depth - len(head) + 1):
                for tail in itertools.product(TOKENS, repeat=n):
                    yield "".join(head + tail)
        return both(gen())
    explore(rep, "token-sequences", heads, sequences)

    # longer sequences behind fixed beginnings
    starts = ["std::array<int, 4> x", "std::array<Comp,4>", "int x", "std::array<", "int x{1}", "int x[mm]", "ns::Comp x {1} [mm] //", "unsigned long"]
    tails = list(itertools.product(starts, TOKENS))

    def continued(case):
        start, first = case
        def gen():
            for n in range(0, depth - 2):
                for tail in itertools.product(TOKENS, repeat=n):
                    yield start + first + "".join(tail)
                    yield first + start + "".join(tail)
        return both(gen())
    explore(rep, "continued", tails, continued)

    def product(case):
        typ, name = case
        def gen():
            for d, u, c, sp in itertools.product(DEFAULTS + BADDEFAULTS, UNITS + BADUNITS, DESCRIPTIONS + NODESC, SPACINGS if tier != "quick" else SPACINGS[1:]):
                yield join((typ, name, d, u, c), sp)
        n = both(gen())
        # cross check of the scanner with the way in which the declaration was put together
        if typ in TYPES and name in NAMES:
            for d, u, c, sp in itertools.product(DEFAULTS[:7], UNITS, DESCRIPTIONS[:8], SPACINGS):
                st, decl = mg.parse(join((typ, name, d, u, c), sp), True)
                eq(st, "ok", "oracle")
                eq((decl.name, decl.default, decl.unit, decl.description), (name, d[1:-1] or None, u[1:-1] or None, c[2:].strip()), "oracle")
        elif name in BADNAMES[:1] or typ in BADTYPES[:15] + BADTYPES[-6:]:
            for c, sp in itertools.product(DESCRIPTIONS, SPACINGS):
                eq(mg.parse(join((typ, name, "", "", c), sp), True)[0], "bad", "oracle")
        return n
    explore(rep, "members", list(itertools.product(TYPES + BADTYPES, NAMES[:1] if tier == "quick" else NAMES)) +
            list(itertools.product(TYPES[:4] if tier == "quick" else TYPES, NAMES[3:] + BADNAMES)), product)

    def arrays(case):
        form, typ, size = case
        def gen():
            for name, d, u, c, sp in itertools.product(["x", "1x", "", "int"], DEFAULTS[:4] + BADDEFAULTS[:3], UNITS[:3] + BADUNITS[:3], DESCRIPTIONS[:5] + NODESC[:3], SPACINGS + [("", "", "", "", "")]):
                yield join((form.format(t=typ, n=size), name, d, u, c), sp)
        return both(gen())
    explore(rep, "arrays", list(itertools.product(ARRAYS + BADARRAYS, TYPES + BADTYPES, SIZES[:1])) +
            list(itertools.product(ARRAYS, ["int", "Comp"], SIZES[1:] + BADSIZES)), arrays)

    # all single edits (thorough: pairs of edits) of representative declarations
    bases = [
        ["int", " ", "x", " ", "{", "1", "}", " ", "[", "mm", "]", " ", "//", " ", "d"],
        ["unsigned", " ", "long", " ", "long", " ", "x", "{", "1", "}", " ", "//", "d"],
        ["std::array", "<", "ns", "::", "Comp", ",", " ", "4", ">", " ", "x", " ", "{", "1", "}", " ", "[", "mm", "]", "//", "d"],
        ["std::array", " ", "<", " ", "unsigned", " ", "int", " ", ",", " ", "4", " ", ">", " ", "x"],
        ["ns", "::", "Comp", " ", "x", " ", "[", "mm", "]"],
    ]

    def edits(toks):
        for i in range(len(toks)):
            yield toks[:i] + toks[i + 1:]
            yield toks[:i] + [toks[i]] + toks[i:]
            for t in TOKENS:
                yield toks[:i] + [t] + toks[i + 1:]
                yield toks[:i] + [t] + toks[i:]
            for j in range(i + 1, len(toks)):
                yield toks[:i] + [toks[j]] + toks[i + 1:j] + [toks[i]] + toks[j + 1:]

    firsts = [e for b in bases for e in edits(b)]
    if tier == "quick":
        explore(rep, "edits", [firsts[i::64] for i in range(64)], lambda block: both("".join(e) for e in block))
    else:
        explore(rep, "edits", firsts, lambda f: both(["".join(f)] + ["".join(e) for e in edits(f)]))
    rep.assume("ASCII declarations on one line")
