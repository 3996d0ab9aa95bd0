"""Which drivers, suites and monitor kinds decide which property."""
SUITE_BITS = {"model": 1, "ctor": 2, "value": 4, "iter": 8, "alias": 16, "reloc": 32, "check": 64}

RULE_SEQ = ("A case is a random or systematic history of public operations on a freshly built container "
            "(several element types, capacities 0..300 and, more lightly, 255..70000, random rotation of the internal layout, containers of containers, a few histories of hundreds of thousands of operations), compared with a reference model after every "
            "call; distinct_nontrivial counts distinct (configuration, operation, arguments, size/layout) combinations "
            "that reached the oracle with a non-trivial state.")

RULE_COST = ("A case is one history of insertions and deletions (bulk orders x shrink patterns, or an adaptive adversary that sees the search depths); "
             "after it, lookups are executed with comparator/equality/hash calls, distinct entries looked at and executed control-flow edges counted by the monitors. "
             "distinct_nontrivial counts distinct (container size, observed depth) and distinct counted totals.")

RULE_UTIL = ("A case is a random history or operand tuple (values are drawn from the extremes of the type, their neighbours, small and uniformly random ones), every "
             "result of which is compared with an independent exact computation; distinct_nontrivial counts distinct operand tuples or abstract states that reached the oracle.")

RULE_STRUCT = ("A case is one object of one aggregate shape (hand-written ones and random ones written by gen_structs.py together with a table of their fields that uses ordinary "
               "member access) in a random state, whose reflection, walk, views, writes through views and sub-struct views are compared with that table; or one decomposition into 1..1024 "
               "fields; or one path string. distinct_nontrivial counts distinct object states, view sizes, paths and field counts.")

RULE_SHARED = ("A case is one container, view or enum table in a random state. Either its pages are made read-only by the kernel while every reading operation runs (a write is a fault), or four "
               "threads read it at the same time and run histories on objects of their own under ThreadSanitizer, and their results are compared with those of one thread afterwards. "
               "distinct_nontrivial counts distinct contents read and distinct (contents, order in which the threads finished).")

RULE_CT = ("A case is one history of 6..40 public operations, a function of its seed alone, executed once by the compiler's constant evaluator (which itself rejects undefined behaviour, leaks and "
           "accesses outside a lifetime) and once at run time under the sanitizers; after every step the digest of all return values and of the whole contents is compared. "
           "distinct_nontrivial counts distinct digests, i.e. distinct observed (operation, results, contents).")

ALL = [("d_vector.cpp", 4), ("d_deque.cpp", 4), ("d_circ.cpp", 4), ("d_list.cpp", 4), ("d_adapters.cpp", 2), ("d_string.cpp", 3),
       ("d_map.cpp", 5), ("d_umap.cpp", 4), ("d_enum.cpp", 4)]


def big(part):
    return {"src": "d_big.cpp", "parts": [part]}


def make(part):
    return {"src": "d_make.cpp", "parts": [part]}


def values(part):
    return {"src": "d_values.cpp", "parts": [part]}


def long(part):
    return {"src": "d_long.cpp", "parts": [part]}


def nest(part):
    return {"src": "d_nest.cpp", "parts": [part]}


def everywhere(mask, suites=None):
    """Every container driver, restricted to some suites."""
    return [{"src": s, "parts": list(range(n)), "mask": mask, "suites": suites or mask} for s, n in ALL]


CT = {"defs": ["-DCT=1"], "twin": ["-DCT=1", "-DCT=0"], "seed_def": "SEEDBASE",
      "variant_defs": {"O0": ["-fconstexpr-steps=30000000", "-ferror-limit=2"], "O2": ["-fconstexpr-steps=30000000", "-ferror-limit=2"],
                       "gcc": ["-fconstexpr-ops-limit=1000000000", "-fmax-errors=2", "-fconstexpr-loop-limit=100000000"]}}

# the driver parts that the quick tier also runs under memcheck (the thorough tier runs all of them)
MEMCHECK = [("d_vector.cpp", 0), ("d_deque.cpp", 1), ("d_circ.cpp", 2), ("d_list.cpp", 0), ("d_adapters.cpp", 1), ("d_string.cpp", 0), ("d_map.cpp", 1), ("d_umap.cpp", 0), ("d_enum.cpp", 1)]

PROPS = {
    "C01": {"drivers": [{"src": "d_vector.cpp", "parts": [0, 1, 2, 3]}, big(0), make(0), values(0), long(0), nest(0)], "rule": RULE_SEQ, "min_cases": 10000},
    "C02": {"drivers": [{"src": "d_deque.cpp", "parts": [0, 1, 2, 3]}, big(1), make(1), values(1), long(1), nest(1), {"src": "d_adapters.cpp", "parts": [0]}], "rule": RULE_SEQ, "min_cases": 10000},
    "C03": {"drivers": [{"src": "d_circ.cpp", "parts": [0, 1, 2, 3]}, big(2), make(2), values(2), long(2), nest(1), {"src": "d_adapters.cpp", "parts": [1]}], "rule": RULE_SEQ, "min_cases": 10000},
    "C04": {"drivers": [{"src": "d_list.cpp", "parts": [0, 1, 2, 3]}, big(3), make(3), values(3), long(3), nest(2)], "rule": RULE_SEQ, "min_cases": 10000},
    "C05": {"drivers": [{"src": "d_string.cpp", "parts": [0, 1, 2]}, big(4), values(4), long(0), nest(2)], "rule": RULE_SEQ, "min_cases": 5000},
    "C06": {"drivers": [{"src": "d_map.cpp", "parts": [0, 1, 2, 3, 4]}, big(5), make(4), values(5), long(4), nest(3), {"src": "d_ref.cpp", "parts": [0]}], "rule": RULE_SEQ, "min_cases": 10000},
    "C07": {"drivers": [{"src": "d_cost.cpp", "parts": [0, 1, 2]}, {"src": "d_cost.cpp", "parts": [3], "flags": ["-fsanitize-coverage=trace-pc"]}], "rule": RULE_COST, "min_cases": 500, "thorough_variants": ["O0", "O2"]},
    "C08": {"drivers": [{"src": "d_umap.cpp", "parts": [0, 1, 2, 3]}, big(6), make(5), values(6), long(5), nest(4), {"src": "d_ref.cpp", "parts": [1]}], "rule": RULE_SEQ, "min_cases": 10000},
    "C09": {"drivers": [{"src": "d_enum.cpp", "parts": [0, 1, 2, 3]}, {"src": "d_ref.cpp", "parts": [2]}, values(7), long(6), nest(5)], "rule": RULE_SEQ, "min_cases": 10000},
    "C10": {"drivers": everywhere(["model", "ctor", "value", "alias"]) + [{"src": "d_values.cpp", "parts": list(range(8))}, {"src": "d_nest.cpp", "parts": list(range(6))}], "kinds": ["LIFE", "SAN", "ABORT", "HANG", "STABLE"], "memcheck": MEMCHECK, "rule": RULE_SEQ, "min_cases": 10000},
    "C11": {"drivers": [dict(d, runs=[{"suites": ["check"]}, {"suites": ["model", "ctor"], "kinds": ["CHECK", "ABORT"]}]) for d in everywhere(["check", "model", "ctor"])] + [{"src": "d_policy.cpp", "parts": [0]}], "rule": RULE_SEQ, "min_cases": 1000},
    "C12": {"drivers": everywhere(["model", "ctor", "reloc"]) + [{"src": "d_traits.cpp", "parts": [0, 1]}], "kinds": ["ALLOC", "RELOC", "TRAIT"], "rule": RULE_SEQ, "min_cases": 10000},
    "C13": {"drivers": everywhere(["iter"]) + [{"src": "d_algo.cpp", "parts": [0, 1, 2, 3]}], "rule": RULE_SEQ, "min_cases": 1000},
    "C14": {"drivers": everywhere(["value"]) + [{"src": "d_values.cpp", "parts": list(range(8))}, {"src": "d_nest.cpp", "parts": list(range(6))}], "rule": RULE_SEQ, "min_cases": 1000},
    "C15": {"drivers": [{"src": "d_ct.cpp", "parts": [0, 1, 2, 3, 4, 5, 6, 7], "tier_defs": {"thorough.O0": ["-DMULT=24"], "thorough.gcc": ["-DMULT=6"]}, **CT},
                        {"src": "d_ctapi.cpp", "parts": [0, 1, 2, 3, 4, 5], "tier_defs": {"thorough.O0": ["-DMULT=12"], "thorough.gcc": ["-DMULT=4"]}, **CT}],
            "rule": RULE_CT, "min_cases": 500},
    "C16": {"drivers": [{"src": "d_views.cpp", "parts": [0, 1, 2, 3]}], "rule": RULE_SEQ, "min_cases": 5000},
    "C17": {"drivers": [{"src": "d_enumutil.cpp", "parts": [0]}], "rule": RULE_UTIL, "min_cases": 500},
    "C18": {"drivers": [{"src": "d_struct.cpp", "parts": [1, 2, 3, 4, 5, 6], "gen": {"script": "gen_structs.py", "out": "structs_gen.hpp", "count": 5}},
                        {"src": "d_struct.cpp", "parts": [0]},
                        {"src": "d_extent.cpp", "parts": [0, 1, 2], "flags": ["-fbracket-depth=1024"]},
                        {"src": "d_struct.cpp", "parts": [10, 11, 12, 13, 14, 15, 16, 17, 18], "flags": ["-fno-sanitize=all", "-g0"]}],
            "rule": RULE_STRUCT, "min_cases": 2000, "thorough_variants": ["O0", "O2"]},
    "C19": {"drivers": [{"src": "d_ints.cpp", "parts": [0]}], "rule": RULE_UTIL, "min_cases": 5000},
    "C20": {"drivers": [{"src": "d_vocab.cpp", "parts": [0]}], "rule": RULE_UTIL, "min_cases": 2000},
    "C21": {"drivers": [{"src": "d_shared.cpp", "parts": [0]}, {"src": "d_shared.cpp", "parts": [1], "flags": ["-fno-sanitize=all", "-fsanitize=thread", "-DVF_TSAN"]}], "rule": RULE_SHARED, "min_cases": 2000,
            "technique": "runtime monitoring: ThreadSanitizer over concurrent readers and independent writers, plus write-protected pages as a monitor of const operations"},
}
