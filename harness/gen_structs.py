#!/usr/bin/env python3
"""Writes random aggregate shapes, together with a table of their fields that uses only ordinary member
access (no reflection), for d_struct.cpp:  gen_structs.py <seed> <number of shapes> > structs_gen.hpp

Every shape S comes with
  Fields<S>::each(s, f)    calls f("name", s.name) for every field in declaration order
and, for shapes without pointers and string views, with a sub-struct: a random subset of the fields in a
random order in which every value became a pointer (Fields<Sub>, SubOf<S>)."""
import random
import sys

seed, count = int(sys.argv[1]), int(sys.argv[2])
R = random.Random(seed * 7919 + 17)
PRIMS = ["bool", "char", "std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t",
         "std::int64_t", "std::uint64_t", "float", "double", "std::chrono::milliseconds", "std::chrono::duration<std::int16_t>",
         "std::bitset<5>", "std::bitset<70>"]
NAMES = ["a", "b", "x", "y", "z", "value", "data", "size", "first", "second", "data_", "a1", "a10", "a2", "id", "next", "long_name_of_a_field", "name", "type", "count", "has_value", "B", "A"]
out = []
uid = [0]
memo = {}


class T:
    """kind: prim enum sv ptr struct array vec opt"""

    def __init__(self, kind, cpp, elem=None, n=0, fields=None):
        self.kind, self.cpp, self.elem, self.n, self.fields = kind, cpp, elem, n, fields

    def viewable(self):
        if self.kind in ("sv", "ptr"):
            return False
        if self.kind == "struct":
            return any(f.viewable() for _, f in self.fields)
        if self.elem:
            return self.elem.viewable()
        return True

    def paths(self):
        if self.kind == "struct":
            return 1 + sum(f.paths() for _, f in self.fields)
        if self.elem:
            return 1 + self.elem.paths()
        return 1

    def cells(self):
        if self.kind == "struct":
            return 1 + sum(f.cells() for _, f in self.fields)
        if self.elem:
            return 1 + max(1, self.n) * self.elem.cells()
        return 1


def gen(depth, dims, budget):
    r = R.random()
    if depth <= 0 or r < 0.42:
        q = R.random()
        if q < 0.13:
            return T("enum", R.choice(["Color", "Level"]))
        if q < 0.18:
            return T("sv", "std::string_view")
        if q < 0.23:
            return T("ptr", R.choice(["const std::int32_t*", "double*"]))
        return T("prim", R.choice(PRIMS))
    if r < 0.64:
        return struct(depth - 1, dims, budget)
    if r < 0.76 and dims > 0:
        e = gen(depth - 1, dims - 1, budget)
        n = R.choice([1, 2, 3, 4])
        return T("array", "std::array<%s, %d>" % (e.cpp, n), e, n)
    if r < 0.9 and dims > 0:
        e = gen(depth - 1, dims - 1, budget)
        n = R.choice([1, 2, 3, 5])
        return T("vec", "fc::FixedVector<%s, %d>" % (e.cpp, n), e, n)
    e = gen(depth - 1, dims, budget)
    return T("opt", "std::optional<%s>" % e.cpp, e)


def emit(name, fields, base=None):
    body = "".join("    %s %s{};\n" % (t.cpp, n) for n, t in fields)
    if base:
        # all fields live in the base class
        out.append("struct %s_base\n{\n%s};\nstruct %s : %s_base\n{\n};\n" % (name, body, name, name))
    else:
        out.append("struct %s\n{\n%s};\n" % (name, body))
    out.append("template <>\nstruct Fields<%s>\n{\n    static constexpr std::size_t N = %d;\n    using types = Types<%s>;\n    template <class S, class F>\n    static void each(S& s, F&& f)\n    {\n%s    }\n};\n"
               % (name, len(fields), ", ".join(t.cpp for _, t in fields), "".join('        f("%s", s.%s);\n' % (n, n) for n, _ in fields)))


def struct(depth, dims, budget, top=False):
    if memo and not top and R.random() < 0.3:
        c = [s for s in memo.values() if s.depth <= depth and s.dims <= dims and s.paths() < budget]
        if c:
            return R.choice(c)
    n = R.choice([1, 2, 3, 4, 5, 6]) if not top else R.choice([2, 4, 6, 8, 12])
    names = R.sample(NAMES, n)
    fields, left = [], budget
    for nm in names:
        t = gen(depth, dims, max(1, left // 2))
        if t.paths() > left or t.cells() > 400:
            t = T("prim", R.choice(PRIMS))
        left -= t.paths()
        if left <= 0:
            break
        fields.append((nm, t))
    uid[0] += 1
    name = "G%d" % uid[0]
    emit(name, fields, base=R.random() < 0.15)
    s = T("struct", name, fields=fields)
    s.depth, s.dims = depth, dims
    memo[name] = s
    return s


def sub(t):
    if t.kind == "prim":
        return T("prim", R.choice(["const ", ""]) + t.cpp + "*")
    if t.kind == "enum":
        return T("sv", "std::string_view")
    if t.kind == "array":
        e, n = sub(t.elem), R.choice([t.n, t.n, max(1, t.n - 1)])
        return T("array", "std::array<%s, %d>" % (e.cpp, n), e, n)
    if t.kind == "vec":
        e, n = sub(t.elem), R.choice([t.n, t.n, max(1, t.n - 1)])
        return T("vec", "fc::FixedVector<%s, %d>" % (e.cpp, n), e, n)
    if t.kind == "opt":
        e = sub(t.elem)
        return T("opt", "std::optional<%s>" % e.cpp, e)
    fields = [(n, f) for n, f in t.fields if f.viewable()]
    keep = R.sample(fields, max(1, len(fields) - R.choice([0, 0, 1, 2])))
    fields = [(n, sub(f)) for n, f in keep]
    uid[0] += 1
    name = "V%d" % uid[0]
    emit(name, fields)
    return T("struct", name, fields=fields)


print("// generated by gen_structs.py %d %d" % (seed, count))
tops, pairs = [], []
i = 0
while i < count:
    mark, save = len(out), dict(memo)
    s = struct(R.choice([1, 2, 3, 4]), R.choice([1, 2, 3, 4]), R.choice([12, 30, 60]), top=True)
    if s.cells() > 1500 or s.paths() > 90 or not s.viewable():
        del out[mark:]
        memo.clear()
        memo.update(save)
        continue
    tops.append(s)
    v = sub(s)
    pairs.append((s, v))
    i += 1
print("\n".join(out))
print("using AllShapes = Types<%s>;" % ", ".join(t.cpp for t in tops))
for s, v in pairs:
    print("template <>\nstruct SubOf<%s>\n{\n    using type = %s;\n};" % (s.cpp, v.cpp))
