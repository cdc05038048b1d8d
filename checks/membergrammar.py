"""Independent description of the member declaration grammar of podio.

`parse(text, need_description)` is a hand written scanner (no regular
expressions, nothing shared with podio). It returns
  ("ok", Decl)    the declaration follows the grammar: it must be read as this
  ("maybe", Decl) spelling that the documentation leaves open: refuse it or read it as this
  ("bad", why)    the declaration must be refused
"""
from dataclasses import dataclass
from typing import Optional

WORDS = {
    ("int",), ("long",), ("float",), ("double",), ("unsigned", "int"), ("unsigned",), ("unsigned", "long"),
    ("char",), ("short",), ("bool",), ("long", "long"), ("unsigned", "long", "long"),
}
BUILTIN_WORDS = {"int", "long", "float", "double", "unsigned", "char", "short", "bool"}
FIXED = {"int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"}
FORBIDDEN_FIXED = {f"{u}int{k}{n}_t" for u in ("", "u") for k in ("", "_fast", "_least") for n in (8, 16, 32, 64)} - FIXED
LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGITS = set("0123456789")


@dataclass
class Decl:
    name: str
    type: str  # as used in the generated code
    array_type: Optional[str] = None
    array_size: Optional[str] = None
    default: Optional[str] = None
    unit: Optional[str] = None
    description: str = ""


class Refuse(Exception):
    pass


class Scan:
    def __init__(self, text):
        self.t, self.i, self.open = text, 0, False

    def peek(self, s):
        return self.t.startswith(s, self.i)

    def end(self):
        return self.i >= len(self.t)

    def spaces(self):
        n = 0
        while self.peek(" "):
            self.i += 1
            n += 1
        return n

    def take(self, s):
        if not self.peek(s):
            raise Refuse(f"expected {s!r} at {self.i}")
        self.i += len(s)

    def ident(self, first, rest):
        j = self.i
        if j >= len(self.t) or self.t[j] not in first:
            raise Refuse(f"no identifier at {j}")
        while j < len(self.t) and self.t[j] in rest:
            j += 1
        res, self.i = self.t[self.i:j], j
        return res

    def word(self):
        return self.ident(LETTERS | {"_"}, LETTERS | DIGITS | {"_"})

    def type_word(self):
        """one (possibly qualified) word, starting with a letter"""
        lead = ""
        if self.peek("::"):
            self.i += 2
            lead = "::"
        parts = [self.ident(LETTERS, LETTERS | DIGITS | {"_"})]
        while self.peek(":"):
            if not self.peek("::"):
                self.open = True  # single colons: not documented
                self.i += 1
            else:
                self.i += 2
            if self.end() or self.t[self.i] not in LETTERS | DIGITS | {"_"}:
                self.open = True
                parts.append("")
                break
            if self.t[self.i] not in LETTERS:
                self.open = True
            parts.append(self.ident(LETTERS | DIGITS | {"_"}, LETTERS | DIGITS | {"_"}))
        return lead, parts


def normal_type(lead, parts):
    full = lead + "::".join(parts)
    bare = parts[1] if len(parts) == 2 and parts[0] == "std" and not lead else full
    if bare in FORBIDDEN_FIXED:
        raise Refuse(f"{bare} is not allowed")
    if bare in FIXED:
        return "std::" + bare
    if len(parts) + (1 if lead else 0) > 2:
        raise Refuse("nested namespace")
    return full


def builtin(words):
    return tuple(words) in WORDS


def scan_type(s):
    """type name up to (not including) the blanks in front of the name, or to ',' in an array"""
    lead, parts = s.type_word()
    if lead == "" and len(parts) == 1 and parts[0] in BUILTIN_WORDS:
        words = [parts[0]]
        while True:
            save = s.i
            n = s.spaces()
            try:
                w = s.word()
            except Refuse:
                s.i = save
                break
            if w not in BUILTIN_WORDS:
                s.i = save
                break
            if n != 1:
                s.open = True  # only single blanks are documented inside of the builtin types
            words.append(w)
        if not builtin(words):
            raise Refuse(f"{words} is not a type")
        return " ".join(words)
    return normal_type(lead, parts)


def parse(text, need_description):
    s = Scan(text)
    try:
        s.spaces()
        save = s.i
        array = None
        if s.peek("std::array"):
            s.i += len("std::array")
            s.spaces()
            if s.peek("<"):
                s.i += 1
                s.spaces()
                elem = scan_type(s)
                s.spaces()
                s.take(",")
                s.spaces()
                size = s.ident(DIGITS, DIGITS)
                s.spaces()
                s.take(">")
                array = (elem, size)
                if size.startswith("0"):
                    s.open = True
            else:
                s.i = save
        if array is None:
            typ = scan_type(s)
            if s.spaces() == 0:
                raise Refuse("no blank between type and name")
        else:
            typ = f"std::array<{array[0]}, {array[1]}>"
            tight = s.spaces() == 0
        name = s.word()
        if name in BUILTIN_WORDS:
            raise Refuse("a type is no name")
        after = s.i
        default = unit = None
        s.spaces()
        if s.peek("{"):
            # ends at the last brace before a comment
            c = s.t.find("//", s.i)
            stop = s.t.rfind("}", s.i, c if c >= 0 else len(s.t))
            if stop < 0:
                raise Refuse("default value not closed")
            default = s.t[s.i + 1:stop]
            if default == "":
                raise Refuse("empty default value")
            if default.strip() != default or "}" in default or "{" in default:
                s.open = True
            s.i = stop + 1
        s.spaces()
        if s.peek("["):
            s.i += 1
            stop = s.t.find("]", s.i)
            if stop < 0:
                raise Refuse("unit not closed")
            unit = s.t[s.i:stop]
            k = 0
            while k < len(unit) and (unit[k] in LETTERS or unit[k] in "_*/^"):
                k += 1
            m = k
            while m < len(unit) and (unit[m] in LETTERS or unit[m] in DIGITS or unit[m] == "_"):
                m += 1
            if k == 0 or m != len(unit):
                raise Refuse("not a unit")
            s.i = stop + 1
        s.spaces()
        description = ""
        if s.peek("//"):
            description = s.t[s.i + 2:].strip()
            if description == "":
                s.open = True  # nothing after the slashes
        elif not s.end():
            raise Refuse(f"unexpected {s.t[s.i:]!r}")
        elif need_description:
            raise Refuse("description missing")
        elif array is not None and tight:
            s.open = True  # no blank after the array type (undocumented)
        del after
        return ("maybe" if s.open else "ok",
                Decl(name, typ, array and array[0], array and array[1], default, unit, description))
    except Refuse as err:
        return "bad", str(err)


JULIA = {
    "int": "Int32", "float": "Float32", "double": "Float64", "bool": "Bool", "long": "Int64", "unsigned int": "UInt32", "unsigned": "UInt32",
    "unsigned long": "UInt64", "char": "Char", "short": "Int16", "long long": "Int64", "unsigned long long": "UInt64",
}


def julia_scalar(bare):
    bare = bare.removeprefix("::")
    if bare in JULIA:
        return JULIA[bare]
    bare = bare.removeprefix("std::")
    if bare in FIXED:
        return ("UInt" if bare[0] == "u" else "Int") + bare.split("int")[1][:-2]
    return bare


def split_ns(typ):
    """(namespace, bare type); std is part of the type"""
    parts = typ.split("::")
    if len(parts) == 2 and parts[0] != "std":
        return parts[0], parts[1]
    return "", typ


def is_builtin(typ):
    return tuple(typ.split(" ")) in WORDS or typ.removeprefix("std::") in FIXED


def cap(prefix, name):
    return prefix + name[0].upper() + name[1:]


def attributes(d):
    """all observable attributes of the member that the declaration stands for"""
    arr = d.array_type is not None
    bi = not arr and is_builtin(d.type)
    bia = arr and is_builtin(d.array_type)
    doc = d.description + (f" [{d.unit}]" if d.unit is not None else "")
    tail = f" ///< {doc}" if doc else ""
    init = f"{{{d.default if d.default is not None else ''}}}"
    out = {
        "name": d.name, "full_type": d.type, "description": d.description, "default_val": d.default, "unit": d.unit,
        "is_array": arr, "is_builtin": bi, "is_builtin_array": bia, "docstring": doc,
    }
    inc = set()
    if arr:
        out["array_type"], out["array_size"] = d.array_type, d.array_size
        out["array_namespace"], out["array_bare_type"] = split_ns(d.array_type)
        inc.add("#include <array>")
        elem = julia_scalar(d.array_type)
        if not bia:
            elem = elem.split("::")[-1] + "Struct"
        out["julia_type"] = f"MVector{{{d.array_size}, {elem}}}"
        scoped = d.type
    else:
        ns, bare = split_ns(d.type)
        out["namespace"], out["bare_type"] = ns, bare
        out["julia_type"] = julia_scalar(bare)
        scoped = f"::{ns}::{bare}" if ns else d.type
        if d.type.startswith("std::") and bi:
            scoped = d.type
    if any(t and t.removeprefix("std::") in FIXED for t in (d.type, d.array_type)):
        inc.add("#include <cstdint>")
    out["includes"] = inc
    out["str"] = f"{scoped} {d.name}{init};{tail}"
    out["signature"] = f"const {d.type}{'' if bi else '&'} {d.name}"
    out["return"] = d.type if bi else f"const {d.type}&"
    if arr:
        out["return_array"] = d.array_type if bia else f"const {d.array_type}&"
    out["getters"] = [d.name, cap("get", d.name)]
    out["setters"] = [d.name, cap("set", d.name), "add" + d.name, cap("addTo", d.name)]
    # the type with an intermediate version namespace
    if bi or bia:
        v = scoped
    elif arr:
        ns, bare = split_ns(d.array_type)
        v = f"std::array<::{ns}::v7::{bare}, {d.array_size}>" if ns else f"std::array<::v7::{bare}, {d.array_size}>"
    else:
        ns, bare = split_ns(d.type)
        v = f"::{ns}::v7::{bare}" if ns else f"::v7::{bare}"
    out["versioned"] = f"{v} {d.name}{init};{tail}"
    return out


def observed(m):
    out = {
        k: getattr(m, k)
        for k in ("name", "full_type", "description", "default_val", "unit", "is_array", "is_builtin", "is_builtin_array", "docstring", "includes", "julia_type", "signature")
    }
    out["str"] = str(m)
    out["return"] = m.getter_return_type()
    if m.is_array:
        for k in ("array_type", "array_size", "array_namespace", "array_bare_type"):
            out[k] = getattr(m, k)
        out["array_size"] = str(out["array_size"])
        out["return_array"] = m.getter_return_type(for_array=True)
    else:
        out["namespace"], out["bare_type"] = m.namespace, m.bare_type
    out["getters"] = [m.getter_name(False), m.getter_name(True)]
    out["setters"] = [m.setter_name(False), m.setter_name(True), m.setter_name(False, is_relation=True), m.setter_name(True, is_relation=True)]
    out["versioned"] = m.qualified_as_version(7)
    return out
