#!/usr/bin/env python3
"""check.py <property>: decide one property (VERIF_SEED, VERIF_TIER)."""
import os, re, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, SEED, TIER

THOROUGH = TIER == "thorough"

SEQ32 = "SeqKeys<int, std::less<int>>"
SEQ64D = "SeqKeys<std::int64_t, std::greater<std::int64_t>>"
STR = "StrKeys"
CI = "CiKeys"
TENS = "TensKeys<TensLess>"
TENSG = "TensKeys<TensGreater>"
NOEQ = "NoEqKeys"
ODD = "OddKeys"


def num(t, cmp="std::less"):
    return "NumKeys<%s, %s<%s>>" % (t, cmp, t)


AVX = ("-mavx2", "-mfma")
SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-D_GLIBCXX_ASSERTIONS")
NDEBUG = ("-DNDEBUG",)


def release(c):
    """Every other driver is built without assertions, as release builds are."""
    return NDEBUG if len(c.builds) % 2 else ()


def tree(c, name, km, val, L, I, mode="Binary", alloc="StdA", no=1, flags=(), opt="-O1"):
    """Build the btree driver for one configuration."""
    flags = tuple(flags) + release(c)
    c.build(name, "int main(int c, char** v) { return map_main<Config<%s, %s, %s, %s, "
            "SearchMode::%s, %s, %d>>(c, v); }" % (km, val, L, I, mode, alloc, no),
            flags=flags, opt=opt)
    return name


def mixargs(**kw):
    a = []
    for k, v in kw.items():
        a += ["-x", k, v]
    return a


def runs(c, name, prog, U, n, seeds, NO=1, timeout=60, spec="OMapTrace", **mix):
    for s in range(seeds):
        c.trace(name, ["-prog", prog, "-U", U, "-n", n, "-seed", seed(c.prop, name, prog, s)]
                + mixargs(**mix), U=U, NO=NO, spec=spec, timeout=timeout)


def tall(c, name, U, seeds, NO=1, **kw):
    """Trees of five and more levels, whole: copies, moves, clearing, draining."""
    runs(c, name, "tall", U, scale(2, 4), scale(seeds, 3 * seeds), NO=NO, timeout=scale(100, 300), **kw)


def seed(*what):
    return zlib.crc32(repr((SEED,) + what).encode())


def scale(q, t):
    return t if THOROUGH else q


# ------------------------------------------------- the tree's algorithms (BTree)
def btree_model(c, L, I, top, ids, workers=2, timeout=600, searches=True):
    """Every shape a tree with such capacities and at most `top` elements can
    have, and every insertion and erasure in it."""
    cfg = ("CONSTANTS\nLC = %d\nIC = %d\nMaxN = %d\nMaxId = %d\nWrong = 0\nSPECIFICATION Spec\n"
           "INVARIANTS TypeOK Refines Soundness%s\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (L, I, top, ids, " Searches" if searches else ""))
    c.model("BTree", cfg, "BTree-%dx%d-%d" % (L, I, top), timeout, workers)


def mistakes(c, wrong):
    """Variants of the model with one mistake each: TLC must refute them, which
    shows that the invariants constrain these steps."""
    for w, inv in wrong.items():
        c.model("BTree", "CONSTANTS\nLC = 4\nIC = 4\nMaxN = 15\nMaxId = 14\nWrong = %d\nSPECIFICATION Spec\n"
                "INVARIANTS TypeOK Refines Soundness Searches\nVIEW View\nCHECK_DEADLOCK FALSE\n" % w,
                "BTree-mistake-%d" % w, 200, 1, expect=inv)


def paths(c, name, L, I, U, spec="OMapTrace", NO=1, keep=None, top=None, **mix):
    """Replay histories of the specification at the real capacities."""
    top = top or 14 * L + 28
    num, depth = scale(24, 160), 420 if top < 200 else 800
    files, made = c.histories("h%dx%d-%s" % (L, I, name), (L, I), top, 60 + top // 4, num, depth,
                              keep or scale(14, 120), parts=scale(2, 6), jvms=scale(1, 4))
    for i, f in enumerate(files):
        c.trace(name, ["-prog", "paths", "-f", f, "-U", U, "-seed", seed(c.prop, name, "paths", i)]
                + mixargs(**mix), U=U, NO=NO, spec=spec, timeout=scale(60, 300),
                label="%s paths %d" % (name, i), after=made)


# -------------------------------------------------------------------- C01..C05
def trees_basic(c):
    """Tree configurations covering every rebalancing regime: tiny nodes (one
    element borrowed), odd sizes, nodes with partial borrows (>= 16), different
    leaf and internal sizes, large nodes."""
    return [
        (tree(c, "t8x8", SEQ32, "int", 8, 8), 420),
        (tree(c, "t9x8", STR, "std::string", 9, 8), 420),
        (tree(c, "t16x16", SEQ64D, "std::int64_t", 16, 16, "Linear"), 1300),
        (tree(c, "t13x11", num("std::uint64_t"), "double", 13, 11, "SIMD", flags=AVX), 800),
        (tree(c, "t32x9", num("std::int32_t", "std::greater"), "Big<40>", 32, 9, "SIMD", flags=AVX), 1500),
        (tree(c, "t8x17", TENS, "int", 8, 17, "Linear", flags=SAN), 900),
        (tree(c, "tdef", num("std::int64_t"), "Big<72>", "fc::default_leaf_node_size<std::int64_t, Big<72>>()",
              "fc::default_internal_node_size<std::int64_t>()"), 1500),
    ]


def c01(c):
    for name, U in trees_basic(c):
        runs(c, name, "life", U, scale(10, 60), scale(3, 12), probe=350, scan=6, erng=1, clear=2,
             bounds=20)
    runs(c, "t8x8", "matrix", 420, -1, 1, probe=100, walk=20)
    tall(c, "t8x8", 1500, 3, probe=60, bounds=5)
    paths(c, "t8x8", 8, 8, 420, probe=200, scan=10)
    btree_model(c, 4, 4, scale(14, 21), 28)
    mistakes(c, {1: "Soundness", 2: "Soundness", 15: "Soundness", 17: "Searches", 19: "Soundness"})
    c.assumptions.append("trees of up to 1500 keys and 6 node-size regimes")
    big(c, "big8x8", SEQ32, "std::int64_t", 8, 8, n=40, seeds=2)
    big(c, "big24x16", STR, "std::string", 24, 16, n=25)
    big_model(c)


def c02(c):
    for name, U in trees_basic(c):
        runs(c, name, "life", U, scale(9, 60), scale(3, 12), probe=150, insert=10, ioa=10, sub=10,
             te=10, emplace=8, hint=8, write=500, walk=100)
    runs(c, "t8x8", "objects", 300, 60, 3, write=500)
    paths(c, "t8x8", 8, 8, 420, probe=100, insert=10, ioa=10, sub=10, te=10, emplace=8, hint=8, write=300)
    big(c, "big8x8", SEQ32, "std::string", 8, 8, n=40)
    big(c, "big600", SEQ64D, "Fat", 600, 520, n=40)


def c03(c):
    for name, U in trees_basic(c):
        runs(c, name, "life", U, scale(8, 50), scale(3, 12), probe=60, walk=900, scan=30, bounds=60)
    runs(c, "t8x8", "matrix", 420, -1, 1, probe=10, walk=500)
    tall(c, "t8x8", 1500, 3, probe=10, walk=200, bounds=10)
    paths(c, "t8x8", 8, 8, 420, probe=20, walk=400, scan=60)
    mistakes(c, {4: "Soundness", 5: "Soundness", 9: "Soundness", 10: "Soundness"})
    big(c, "big8x8", SEQ64D, "std::int64_t", 8, 8, n=40, walks=12, objects=0, seeds=2)
    big(c, "big600", SEQ32, "std::int64_t", 600, 520, "Linear", n=20, walks=12, objects=0)


def c04(c):
    for name, U in trees_basic(c):
        runs(c, name, "life", U, scale(8, 50), scale(3, 12), probe=10, bounds=900, walk=400)
    runs(c, "t8x8", "matrix", 420, -1, 1, bounds=400)
    tall(c, "t8x8", 1500, 3, bounds=300, walk=50)
    paths(c, "t8x8", 8, 8, 420, probe=20, bounds=600)
    btree_model(c, 8, 4, scale(16, 24), 14)
    mistakes(c, {17: "Searches"})
    big(c, "big8x8", SEQ32, "std::int64_t", 8, 8, n=40, objects=0, looks=200)
    big(c, "big64", SEQ32, "std::int64_t", 64, 64, "SIMD", n=40, objects=0, looks=200, flags=AVX)
    big_model(c)


def c05(c):
    for name, U in trees_basic(c):
        runs(c, name, "life", U, scale(10, 60), scale(3, 12), probe=60, loops=1, epos=20, erng=6,
             walk=300, scan=15)
    runs(c, "t8x8", "matrix", 420, -1, 1, epos=15, erng=3, walk=200)
    tall(c, "t8x8", 1500, 3, epos=20, erng=2, walk=60)
    paths(c, "t8x8", 8, 8, 420, probe=20, epos=30, walk=200, scan=10)
    paths(c, "t13x11", 13, 11, 800, probe=20, epos=30, walk=200, scan=10, keep=scale(6, 60))
    btree_model(c, 4, 4, scale(14, 21), 28, searches=False)
    btree_model(c, 8, 4, scale(18, 26), 14, searches=False)
    mistakes(c, {7: "Refines", 8: "Refines", 16: "Refines", 18: "Refines"})
    big(c, "big8x8", SEQ32, "std::int64_t", 8, 8, n=60, objects=0, drops=1, seeds=2)
    big(c, "big600", TENS, "std::string", 600, 520, n=40, objects=0, drops=1)


# ------------------------------------------------------------------ C06, C07
def rec(km, prop="true"):
    return "RecA<%s, %s>" % (km, prop)


def c06(c):
    cfgs = [
        (tree(c, "r8x8", "RegKeys", "RegObj", 8, 8, alloc=rec("RegKeys")), 400, 200),
        (tree(c, "r9x9", "RegKeys", "int", 9, 9, "Linear", alloc=rec("RegKeys")), 400, 200),
        (tree(c, "r16x8", SEQ32, "int", 16, 8, alloc=rec(SEQ32)), 800, 100),
        (tree(c, "r8x32", "RegKeys", "int", 8, 32, alloc=rec("RegKeys")), 900, 80),
        (tree(c, "r33x17", num("std::uint32_t"), "int", 33, 17, "SIMD", alloc=rec(num("std::uint32_t")), flags=AVX), 1500, 60),
        (tree(c, "r10x11", STR, "std::string", 10, 11, alloc=rec(STR)), 700, 100),
    ]
    for name, U, sh in cfgs:
        runs(c, name, "life", U, scale(9, 50), scale(3, 12), spec="NodesTrace", probe=5, walk=0, scan=0, write=0,
             clear=1, erng=2, shape=sh, cost=300)
    runs(c, "r8x8", "matrix", 400, -1, 1, spec="NodesTrace", probe=5, walk=0, scan=0, write=0, shape=60, cost=100)
    runs(c, "r8x8", "defaults", 1, 1, 1, spec="NodesTrace")
    tall(c, "r8x8", 1400, 3, spec="NodesTrace", probe=2, walk=0, scan=0, write=0, cost=100, shape=2)
    paths(c, "r8x8", 8, 8, 420, spec="NodesTrace", probe=5, walk=0, scan=0, write=0, shape=1)
    paths(c, "r9x9", 9, 9, 420, spec="NodesTrace", probe=5, walk=0, scan=0, write=0, shape=1, keep=scale(8, 80))
    for L, I, top, ids in scale([(4, 4, 15, 28), (8, 4, 19, 14), (5, 5, 17, 20), (16, 4, 26, 10)],
                                [(4, 4, 22, 32), (8, 4, 28, 18), (4, 6, 21, 28), (4, 8, 20, 28), (16, 4, 40, 12),
                                 (7, 7, 26, 16), (5, 5, 24, 24)]):
        btree_model(c, L, I, top, ids, timeout=800, searches=False)
    mistakes(c, {12: "Soundness", 13: "Soundness", 20: "Soundness", 22: "Soundness"})
    for L, I, mode in ((8, 8, "Binary"), (9, 8, "Linear"), (64, 64, "Binary"), (600, 520, "Binary")):
        big(c, "big%d" % L, "SeqKeys<int, CntLess>", "std::int64_t", L, I, mode, n=30, shapes=500, costs=20)


def c07(c):
    cfgs = [
        (tree(c, "a8x8", "RegKeys", "RegObj", 8, 8, alloc=rec("RegKeys"), no=3), 150),
        (tree(c, "a9x8", "RegKeys", "RegObj", 9, 8, "Linear", alloc=rec("RegKeys", "false"), no=3, flags=SAN), 150),
        (tree(c, "a16x9", STR, "RegObj", 16, 9, alloc=rec(STR), no=4), 300),
        (tree(c, "a8x24", "RegKeys", "Big<64, 64>", 8, 24, alloc=rec("RegKeys", "false"), no=3), 260),
    ]
    for name, U in cfgs:
        no = 4 if name == "a16x9" else 3
        runs(c, name, "objects", U, scale(120, 500), scale(4, 16), NO=no, spec="NodesTrace", clear=3, erng=2,
             probe=10, walk=10, scan=2, shape=20)
        runs(c, name, "life", U * 2, scale(6, 40), scale(2, 8), NO=no, spec="NodesTrace", clear=3, erng=3, probe=5,
             walk=5, scan=2, shape=20)
    paths(c, "a8x8", 8, 8, 420, spec="NodesTrace", NO=3, probe=5, walk=5, scan=2, shape=1, keep=scale(10, 100))
    tall(c, "a8x8", 1300, 4, NO=3, spec="NodesTrace", probe=2, walk=2, scan=0, shape=1)
    mistakes(c, {3: "Soundness", 6: "Soundness", 11: "Soundness", 14: "Soundness", 21: "Soundness"})
    big(c, "big8x8", SEQ32, "std::string", 8, 8, n=50, shapes=500, objects=4)
    big(c, "big600", SEQ32, "std::string", 600, 520, n=50, shapes=500, objects=4)


# ------------------------------------------------------------- C08, C09, C13, C14
def c08(c):
    cfgs = [
        (tree(c, "std8x8", SEQ32, "int", 8, 8, no=3), 150),
        (tree(c, "huge8x8", SEQ32, "std::string", 8, 8, alloc="HugeA", no=3, flags=SAN), 150),
        (tree(c, "two8x9", STR, "std::string", 8, 9, alloc="TwoPoolA", no=3), 150),
        (tree(c, "multi9x8", SEQ64D, "Tok", 9, 8, alloc="MultiA", no=3), 150),
        (tree(c, "huge16x8", TENS, "Tok", 16, 8, "Linear", alloc="HugeA", no=4), 300),
        (tree(c, "std64x64", num("std::int32_t"), "Big<24>", 64, 64, "SIMD", no=3, flags=AVX), 700),
    ]
    for name, U in cfgs:
        no = 4 if name == "huge16x8" else 3
        runs(c, name, "objects", U, scale(110, 500), scale(4, 16), NO=no, clear=2, erng=2, probe=60,
             walk=60)
    tall(c, "std8x8", 1400, 3, NO=3, probe=10, walk=10)
    tall(c, "huge8x8", 1200, 2, NO=3, probe=10, walk=10)
    big(c, "big8x8", SEQ32, "std::int64_t", 8, 8, n=50, objects=8, alloc="StdA")
    big(c, "bigh64", STR, "std::string", 64, 64, n=30, objects=8, alloc="HugeA")
    big(c, "bigm8x8", SEQ32, "Fat", 8, 8, n=30, objects=8, alloc="MultiA")


def c09(c):
    cfgs = [
        (tree(c, "ci8x8", CI, "std::string", 8, 8), 300),
        (tree(c, "tens8x8", TENS, "int", 8, 8, flags=SAN), 300),
        (tree(c, "tensg9x11", TENSG, "int", 9, 11, "Linear"), 400),
        (tree(c, "noeq8x8", NOEQ, "Big<40>", 8, 8, "Linear"), 300),
        (tree(c, "odd13x8", ODD, "int", 13, 8), 500),
        (tree(c, "desc16x16", SEQ64D, "int", 16, 16), 1200),
    ]
    for name, U in cfgs:
        runs(c, name, "life", U, scale(9, 50), scale(3, 12), probe=300, bounds=150, walk=80, erng=3, clear=2,
             loops=1)
        runs(c, name, "objects", 120, 40, 1)
    dense_equiv(c)


def c13(c):
    cfgs = [
        (tree(c, "tok8x8", SEQ32, "Tok", 8, 8, no=3), 300),
        (tree(c, "tok17x9", STR, "Tok", 17, 9, no=3, flags=SAN), 500),
        (tree(c, "tok32x16", SEQ64D, "Tok", 32, 16, "Linear", no=2, alloc="HugeA"), 1200),
        (tree(c, "str9x8", STR, "std::string", 9, 8, no=3), 300),
        (tree(c, "tokc8x9", SEQ32, "TokC", 8, 9, no=3), 300),
        (tree(c, "big8x8", SEQ32, "Big<200>", 8, 8, no=2), 300),
        (tree(c, "al16x8", SEQ32, "Big<192, 64>", 16, 8, no=2, alloc="TwoPoolA"), 500),
        (tree(c, "al8x8", SEQ32, "Big<128, 128>", 8, 8, no=2, alloc="MultiA"), 300),
    ]
    for name, U in cfgs:
        runs(c, name, "life", U, scale(8, 50), scale(3, 12), probe=100, scan=20, erng=3, clear=3, loops=1,
             NO=3, write=300)
        runs(c, name, "objects", 120, 60, scale(1, 6), NO=3)
    dense_values(c)


def c14(c):
    cfgs = [
        (tree(c, "str8x8", STR, "std::string", 8, 8), 420),
        (tree(c, "san8x9", STR, "std::string", 8, 9, flags=SAN), 420),
        (tree(c, "int16x8", SEQ32, "int", 16, 8, "Linear"), 900),
        (tree(c, "tok9x8", CI, "Tok", 9, 8), 420),
        (tree(c, "big13x8", TENS, "Big<72>", 13, 8), 600),
    ]
    for name, U in cfgs:
        runs(c, name, "life", U, scale(10, 60), scale(3, 12), alias=800, probe=40, scan=15, ioa=20)
        runs(c, name, "matrix", 150, -1, 1, alias=900, probe=20)
    dense_alias(c)


def c15(c):
    cfgs = [
        (tree(c, "tok8x8", SEQ32, "Tok", 8, 8, alloc=rec(SEQ32), no=3), 220),
        (tree(c, "reg9x8", STR, "RegF", 9, 8, "Linear", alloc=rec(STR, "false"), no=3, flags=SAN), 220),
        (tree(c, "tok16x9", TENS, "Tok", 16, 9, alloc=rec(TENS), no=2), 420),
        (tree(c, "reg8x24", SEQ64D, "RegF", 8, 24, alloc=rec(SEQ64D), no=3), 320),
        (tree(c, "tok33x8", num("std::uint32_t"), "Tok", 33, 8, "SIMD", alloc=rec(num("std::uint32_t")), no=2, flags=AVX), 900),
    ]
    for name, U in cfgs:
        runs(c, name, "faults", U, scale(30, 150), scale(3, 16), NO=2 if name in ("tok16x9", "tok33x8") else 3,
             spec="NodesTrace", shape=20, probe=20, walk=20, scan=25, erng=1)
    n = dense(c, "dense", (SEQ32, "Tok", 8, 5, "Binary"), (STR, "RegF", 6, 9, "Linear"),
              (num("std::int64_t", "std::greater"), "Tok", 17, 3, "SIMD"), flags=AVX + SAN)
    druns(c, n, "faults", 40, scale(250, 1500), scale(3, 12))


# ---------------------------------------------------------------- dense_map
def dense(c, name, *cfgs, flags=(), opt="-O1"):
    """Build the dense_map driver for configurations (keys, value, CA, CB, mode)."""
    flags = tuple(flags) + release(c)
    ts = ", ".join("DConfig<%s, %s, %d, %d, SearchMode::%s>" % (km, v, a, b, m)
                   for km, v, a, b, m in cfgs)
    c.build(name, "int main(int c, char** v) { return dense_main<%s>(c, v); }" % ts,
            flags=flags, headers=("drv_dense.hpp",), opt=opt)
    return name


def druns(c, name, prog, U, n, seeds, timeout=60, alias=0, file=None, after=None):
    for s in range(seeds):
        for x in file or [None]:
            a = ["-prog", prog, "-U", U, "-n", n, "-seed", seed(c.prop, name, prog, s), "-alias", alias]
            if x:
                a += ["-file", x]
            c.trace(name, a, U=U, NO=4, spec="DMapTrace", timeout=timeout, after=after)


def nums(s):
    return [int(x) for x in s.replace(",", " ").split()]


def render_dense(x):
    """<<"X", <<contents, ...>>, <<"op", args>>>> to a program line."""
    body, op, args = x
    objs = re.findall(r"<<([0-9, ]*)>>", body)
    out = [str(len(objs))]
    for o in objs:
        ks = nums(o)
        out += [str(len(ks))] + [str(k) for k in ks]
    a = nums(args)
    return " ".join(out + [op] + [str(v) for v in a])


DENSE_PAT = r'(?s)<<\s*"X",\s*<<((?:\s*<<[0-9, ]*>>,?)+)\s*>>,\s*<<\s*"(\w+)"((?:,\s*\d+)*)\s*>>\s*>>'


def dense_cfg(spec, caps, U, no, vals, emit=None):
    return ("SPECIFICATION %s\nCONSTANTS\n U = %d\n NO = %d\n CAPS <- %s\n VALS = %s\nVIEW View\n"
            "INVARIANTS NoErr Coupled DTypeOK\nCHECK_DEADLOCK FALSE\n" % (spec, U, no, caps, vals)
            + ("ACTION_CONSTRAINT %s\n" % emit if emit else ""))


def dense_mistakes(c, spec, caps, U, no, wrong):
    for name, inv in wrong.items():
        c.model("DenseMC", dense_cfg(spec, caps, U, no, "{2}") + "CONSTANT %s <- Bad%s\n" % (name, name),
                "dense-mistake-" + name, workers=1, expect=inv)


def c10(c):
    types = ["std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t",
             "std::uint32_t", "std::int64_t", "std::uint64_t", "float", "double"]
    for t in types:
        w = {"8": 1, "16": 2, "32": 4, "64": 8, "float": 4, "double": 8}[re.sub(r"\D", "", t) or t]
        top = {1: 100, 2: 70, 4: 40, 8: 24}[w]
        cfgs = [(num(t, o), "int", top, 3, m) for o in ("std::less", "std::greater")
                for m in ("Binary", "Linear", "SIMD")]
        short = re.sub(r"std::|_t", "", t)
        for b, fl in (("vec", AVX), ("scl", ("-mno-avx", "-msse2"))):
            n = dense(c, short + b, *cfgs, flags=fl)
            druns(c, n, "sizes", 256 if w == 1 else scale(120, 400), scale(2, 12), scale(1, 4), timeout=200)
    # whole trees, vectorised descent through internal nodes
    for i, (t, o, L, I) in enumerate([("std::int8_t", "std::less", 16, 35), ("std::uint16_t", "std::greater", 40, 24),
                                      ("float", "std::less", 24, 16), ("std::uint64_t", "std::greater", 11, 12),
                                      ("double", "std::greater", 9, 8), ("std::int32_t", "std::less", 64, 64)]):
        n = tree(c, "tree%d" % i, num(t, o), "int", L, I, "SIMD", flags=AVX)
        runs(c, n, "life", 250 if "int8" in t else 700, scale(5, 40), scale(1, 8), probe=500, bounds=300)
    for t, U in (("std::int32_t", 90000), ("std::uint16_t", 60000), ("double", 90000)):
        short = re.sub(r"std::|_t", "", t)
        for o in ("less", "greater"):
            km = "SeqKeys<%s, std::%s<%s>>" % (t, o, t)
            big_dense(c, "big" + short + o, km, "std::int64_t", 1000, 300, "SIMD", n=200, looks=30, flags=AVX)
        big_dense(c, "wide" + short, km, "std::int64_t", min(U, 70000), 300, "SIMD", U=U, n=60, looks=30, flags=AVX)
    big(c, "big64", SEQ32, "std::int64_t", 64, 64, "SIMD", n=30, objects=0, looks=100, flags=AVX)


def c11(c):
    cfgs = [
        (dense(c, "d4", (SEQ32, "int", 4, 3, "Binary"), (STR, "std::string", 5, 6, "Linear"),
               (num("std::int32_t"), "Big<24>", 7, 1, "SIMD"), flags=SAN), 14),
        (dense(c, "d17", (TENS, "Tok", 8, 9, "Linear"), (num("float"), "int", 17, 9, "SIMD"),
               (SEQ64D, "std::string", 16, 2, "Binary")), 40),
        (dense(c, "d64", (num("std::uint8_t", "std::greater"), "int", 64, 48, "SIMD"),
               (num("double", "std::greater"), "Tok", 33, 20, "SIMD"),
               (CI, "Big<72>", 40, 24, "Binary"), flags=AVX), 150),
    ]
    for n, U in cfgs:
        druns(c, n, "life", U, scale(500, 3000), scale(3, 12))
        druns(c, n, "objects", U, scale(150, 800), scale(1, 6))
    n = dense(c, "d300", (SEQ32, "int", 300, 280, "Binary"), (num("std::uint16_t"), "Big<24>", 520, 300, "SIMD"), flags=AVX)
    druns(c, n, "life", 700, scale(400, 2000), scale(2, 8))
    m = c.model("DenseMC", dense_cfg("SpecSingle", "C4", 6, 1, "{2}", "Emit"), "dense4", workers=1)
    prog, f = c.programs(m, "dense4", DENSE_PAT, render_dense, keep=scale(7000, None))
    n = dense(c, "replay4", (SEQ32, "int", 4, 3, "Binary"))
    n2 = dense(c, "replay4v", (num("std::int64_t", "std::greater"), "Tok", 4, 3, "SIMD"), flags=AVX)
    for x in (n, n2):
        druns(c, x, "replay", 6, 0, 1, file=prog, after=f, timeout=200)
    dense_mistakes(c, "SpecSingle", "C4", 6, 1, {"InsArr": "Coupled", "DelArr": "Coupled", "UbIdx": "NoErr",
                                                 "Has": "NoErr", "SetVal": "NoErr", "LbIdx": "NoErr"})
    for mode in ("Binary", "Linear", "SIMD"):
        big_dense(c, "big" + mode, SEQ32, "std::string", 1000, 300, mode, n=300, moves=0, flags=AVX)
    big_dense(c, "wide", SEQ64D, "std::int64_t", 70000, 66000, U=140000, n=200, moves=0)


def c12(c):
    cfgs = [
        (dense(c, "d4", (SEQ32, "int", 4, 3, "Binary"), (STR, "std::string", 5, 6, "Linear"),
               (num("std::int32_t"), "Big<24>", 7, 1, "SIMD"), flags=SAN), 14),
        (dense(c, "d16", (TENS, "Tok", 8, 9, "Linear"), (num("float"), "int", 17, 12, "SIMD"),
               (SEQ64D, "std::string", 16, 4, "Binary")), 40),
        (dense(c, "d64", (num("std::uint8_t", "std::greater"), "int", 64, 48, "SIMD"),
               (num("double"), "Tok", 33, 20, "SIMD")), 150),
    ]
    for n, U in cfgs:
        druns(c, n, "moves", U, scale(50, 800), scale(3, 12))
        druns(c, n, "objects", U, scale(150, 800), scale(1, 6))
    for caps, a, b in (("C34", 3, 4), ("C22", 2, 2)) + ((("C43", 4, 3),) if THOROUGH else ()):
        U = 6 if a != b else 5
        m = c.model("DenseMC", dense_cfg("SpecDouble", caps, U, 2, "{2}", "EmitDouble"), "dense" + caps, workers=1)
        prog, f = c.programs(m, "dense" + caps, DENSE_PAT, render_dense, keep=scale(6000, None))
        n = dense(c, "replay" + caps, (SEQ32, "int", a, b, "Binary"), (STR, "Tok", a, b, "Linear"))
        druns(c, n, "replay", U, 0, 1, file=prog, after=f, timeout=200)
    dense_mistakes(c, "SpecDouble", "C34", 5, 2, {"Split2": "NoErr", "Prefix2": "Coupled", "Suffix2": "Coupled"})
    big_dense(c, "big", SEQ32, "std::string", 1000, 300, n=250, moves=12)
    big_dense(c, "wide", SEQ64D, "std::int64_t", 70000, 66000, U=140000, n=150, moves=12)


def dense_equiv(c):
    n = dense(c, "dense", (CI, "int", 8, 5, "Binary"), (TENSG, "std::string", 12, 9, "Linear"),
              (NOEQ, "Big<24>", 6, 7, "Binary"), (ODD, "int", 9, 16, "Linear"))
    druns(c, n, "life", 24, scale(400, 3000), scale(3, 12))


def dense_values(c):
    n = dense(c, "dense", (SEQ32, "Tok", 8, 5, "Binary"), (STR, "Tok", 12, 9, "Linear"),
              (SEQ64D, "std::string", 6, 7, "Binary"), (SEQ32, "Big<192, 64>", 5, 4, "Binary"),
              (SEQ32, "TokC", 9, 6, "Binary"), flags=SAN)
    druns(c, n, "life", 24, scale(300, 3000), scale(2, 12))
    druns(c, n, "objects", 24, scale(200, 1500), scale(2, 12))


def dense_alias(c):
    n = dense(c, "dense", (STR, "std::string", 8, 5, "Binary"), (CI, "Tok", 12, 9, "Linear"),
              (SEQ32, "int", 9, 16, "Binary"), flags=SAN)
    druns(c, n, "life", 24, scale(500, 3000), scale(3, 12), alias=700)


# ------------------------------------------------------------ large containers
def big(c, name, km, val, L, I, mode="Binary", U=90000, n=60, seeds=1, alloc=None, flags=(), opt="-O1", **args):
    """Trees of up to U elements; nodes are only looked at with the allocator BigA."""
    alloc = alloc or "BigA<%s>" % km
    flags = tuple(flags) + release(c)
    c.build(name, "int main(int c, char** v) { return big_tree_main<Config<%s, %s, %d, %d, SearchMode::%s, %s, 3>>(c, v); }"
            % (km, val, L, I, mode, alloc), flags=flags, headers=("drv_big.hpp",), opt=opt)
    bruns(c, name, U, n, seeds, 3, args)


def bruns(c, name, U, n, seeds, NO, args):
    a = []
    for k, v in args.items():
        a += ["-" + k, v]
    for s in range(scale(seeds, 4 * seeds)):
        c.trace(name, ["-U", U, "-n", scale(n, 4 * n), "-seed", seed(c.prop, name, "big", s)] + a,
                U=U, NO=NO, spec="BigTrace", timeout=scale(120, 400))


def big_dense(c, name, km, val, A, B, mode="Binary", U=1500, n=300, seeds=1, flags=(), opt="-O1", **args):
    flags = tuple(flags) + release(c)
    c.build(name, "int main(int c, char** v) { return big_dense_main<DConfig<%s, %s, %d, %d, SearchMode::%s>>(c, v); }"
            % (km, val, A, B, mode), flags=flags, headers=("drv_big.hpp",), opt=opt)
    bruns(c, name, U, n, seeds, 4, args)


def big_model(c):
    """The operators on runs mean what those on explicit maps mean."""
    for U, G in scale([(6, 2)], [(7, 2), (5, 3)]):
        c.model("BigMC", "SPECIFICATION Spec\nCONSTANTS\n U = %d\n G = %d\nINVARIANTS Same Queries Updates Parts\n"
                "CHECK_DEADLOCK FALSE\n" % (U, G), "big%d_%d" % (U, G), workers=2)


# -------------------------------------------------------------------- pools
WRAP = ("-Wl,--wrap=mmap,--wrap=mmap64,--wrap=munmap,--wrap=madvise",)
STATS = ("-DALLOCATOR_STATS",)
PCONST = {"HUGE": 2097152, "LIMIT": 1073741824, "UNIT": 1}
VCONST = {"HUGE": 32, "LIMIT": 1073741824, "UNIT": 65536}  # in units of 64 KB


def pool(c, name, flags=()):
    c.build(name, "int main(int c, char** v) { return pool_main(c, v); }", flags=tuple(flags) + WRAP + (NDEBUG if "STATS" in repr(flags) else ()),
            headers=("drv_pool.hpp",))
    return name


def pruns(c, name, prog, seeds, timeout=60, after=None, file=None, **kw):
    for s in range(seeds):
        for f in file or [None]:
            a = ["-prog", prog, "-seed", seed(c.prop, name, prog, s, repr(sorted(kw.items())))]
            for k, v in kw.items():
                a += ["-" + k, v]
            if f:
                a += ["-file", f]
            c.trace(name, a, spec="PoolTrace", consts=VCONST if kw.get("unit") == 65536 else PCONST, timeout=timeout, after=after)


def vast(c, name, seeds, kinds, n=450, **kw):
    """Regions, blocks and counts of more bytes than 32 bits can say."""
    for k in kinds:
        pruns(c, name, "mix", scale(seeds, 4 * seeds), kinds=k, n=n, unit=65536, blocks=24, **kw)


def render_pool(x):
    """The history TLC printed (calls with the system's answers) as a program."""
    t = eval(x.replace('\\"', '"').replace("<<", "(").replace(">>", ",)").replace(",,)", ",)").replace("(,)", "()"))
    out, blocks = [], {}
    k = 0
    for e in t:
        if e[0] == "f":
            out += ["f", str(blocks[e[1], e[2]])]
            continue
        ms = e[1] if e[0] == "n" else e[3]
        out += [e[0]] + ([str(e[1]), str(e[2])] if e[0] == "a" else []) + [str(len(ms))]
        for m in ms:
            out += [str(m[2]), str(m[4])]
        if e[0] == "a":
            if e[4][0] == "ok":
                blocks[e[4][1], e[4][2]] = k
            k += 1
    return " ".join(out)


POOL_PAT = r'"X(<<.*>>)"\n'


def pool_model(c, builds, want, keep, maxblk, maxreg=2, sizes="{1,2}", aligns="{1,2}"):
    cfg = ("SPECIFICATION MSpec\nCONSTANTS\n HUGE = 4\n LIMIT = 1000\n UNIT = 1\n SIZES = %s\n ALIGNS = %s\n FIRST = 3\n"
           " STEP = 3\n WANT = %d\n MAXREG = %d\n MAXBLK = %d\nVIEW View\nINVARIANTS Sound Bounded Answered\n"
           "PROPERTY HandedOut\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n" % (sizes, aligns, want, maxreg, maxblk))
    name = "pool%d%d%d" % (want, maxreg, maxblk)
    m = c.model("PoolMC", cfg, name, workers=1, timeout=800)
    prog, f = c.programs(m, name, POOL_PAT, render_pool, keep=keep)
    for b in builds:
        pruns(c, b, "replay", 1, file=prog, after=f, want=want, first=3, step=3, unit=524288 if want else 4096,
              timeout=200)


def pool_mistakes(c, wrong, want=0):
    for name, (good, inv) in wrong.items():
        c.model("PoolMC", "SPECIFICATION MSpec\nCONSTANTS\n HUGE = 4\n LIMIT = 1000\n UNIT = 1\n SIZES = {1,2}\n ALIGNS = {1,2}\n"
                " FIRST = 3\n STEP = 3\n WANT = %d\n MAXREG = 2\n MAXBLK = 3\n %s <- %s\nVIEW View\n"
                "INVARIANTS Sound Bounded Answered\nPROPERTY HandedOut\nCHECK_DEADLOCK FALSE\n" % (want, good, name),
                "pool-mistake-" + name, workers=1, timeout=300, expect=inv)


def c16(c):
    n, s = pool(c, "pool"), pool(c, "poolstats", STATS + ("-O2",))
    for b in (n, s):
        pruns(c, b, "mix", scale(6, 30), kinds="PMHST", n=900, reps=scale(3, 10), fault=4, newfault=1)
        pruns(c, b, "mix", scale(4, 16), kinds="P", n=2000, reps=scale(2, 8), blocks=140, fault=3)
        pruns(c, b, "mix", scale(2, 8), kinds="M", n=2000, reps=2, blocks=120, fault=3)
    pruns(c, n, "trees", scale(2, 10), n=1500, fault=0)
    pruns(c, n, "stl", scale(2, 10), n=1200, fault=0)
    pool_model(c, [n], 0, scale(2500, None), scale(3, 4))
    pool_mistakes(c, {"BadRestFits": ("RestFits", "Sound"), "BadReusable": ("Reusable", "HandedOut"),
                      "BadReuse": ("Reuse", "Sound"), "BadTakeRest": ("TakeRest", "Sound")})
    vast(c, n, 2, ("PHMST", "P"), fault=4, newfault=1)


def c17(c):
    n = pool(c, "poolstats", STATS)
    pruns(c, n, "unnamed", scale(2, 6))
    for k in ("P", "H", "M", "PT"):
        pruns(c, n, "mix", scale(5, 20), kinds=k, n=2500, reps=scale(2, 6), blocks=50, fault=2)
    pool_model(c, [n], 0, scale(2500, None), scale(3, 4))
    pool_mistakes(c, {"BadReusable2": ("Reusable", "Bounded"), "BadGrow": ("Grow", "Answered")})
    if THOROUGH:
        pool_model(c, [n], 0, 20000, 4, maxreg=3)
    vast(c, n, 2, ("P", "PHMST"))


def c18(c):
    n, s = pool(c, "pool"), pool(c, "poolstats", STATS)
    for b in (n, s):
        for k in ("P", "PMHST", "HT", "MS"):
            pruns(c, b, "mix", scale(3, 12), kinds=k, n=700, reps=scale(3, 10), blocks=40, fault=40, newfault=6)
    pruns(c, n, "trees", scale(4, 20), n=1500, fault=25)
    pruns(c, n, "stl", scale(3, 20), n=1200, fault=25)
    pool_model(c, [s], 1, scale(700, 8000), scale(3, 4))
    vast(c, n, 2, ("PHMST", "P"), fault=40, newfault=6)


def c19(c):
    s = pool(c, "poolstats", STATS)
    for k in ("P", "PMHST", "HT", "MS", "H"):
        pruns(c, s, "mix", scale(4, 16), kinds=k, n=1200, reps=scale(3, 10), blocks=60, fault=15, newfault=3)
    pruns(c, pool(c, "pool"), "mix", 2, kinds="PMHST", n=500, reps=2)
    pool_model(c, [s], 0, scale(2500, None), scale(3, 4))
    pool_mistakes(c, {"BadCountAlloc": ("CountAlloc", "Sound")})
    vast(c, s, 2, ("PHMST", "P"), fault=10)


def c20(c):
    n, s = pool(c, "pool"), pool(c, "poolstats", STATS)
    pruns(c, n, "classes", 1, upto=scale(140000, 1000000), timeout=200)
    for b in (n, s):
        pruns(c, b, "sizes", scale(2, 6))
        pruns(c, b, "mix", scale(4, 20), kinds="MS", n=1500, reps=scale(3, 10), blocks=80, fault=8, newfault=2)
    vast(c, n, 2, ("MS",), fault=8)


def c21(c):
    n, s = pool(c, "pool"), pool(c, "poolstats", STATS)
    for b in (n, s):
        for k in ("H", "MS", "PT", "PMHST"):
            pruns(c, b, "mix", scale(3, 12), kinds=k, n=900, reps=scale(3, 10), blocks=40, handles=45, fault=6, newfault=2)
        pruns(c, b, "trees", scale(2, 10), n=1500, fault=0)
        pruns(c, b, "stl", scale(2, 10), n=1200, fault=5)
        pruns(c, b, "unnamed", scale(2, 6))
    vast(c, n, 2, ("HT", "MS"), handles=45)


# ------------------------------------------------------------------ readers
def c22(c):
    cfgs = [
        (tree(c, "g8x8", SEQ32, "int", 8, 8, alloc="GuardA", no=2), 300),
        (tree(c, "g9x8", STR, "std::string", 9, 8, "Linear", alloc="GuardA", no=2), 300),
        (tree(c, "g40x24", num("std::int64_t", "std::greater"), "Big<40>", 40, 24, "SIMD", alloc="GuardA", no=2, flags=AVX), 900),
        (tree(c, "g16x16", TENS, "int", 16, 16, alloc="GuardA", no=2), 500),
    ]
    for name, U in cfgs:
        runs(c, name, "readers", U, scale(14, 60), scale(2, 12), NO=2, bounds=100, walk=300)
    dc = [(SEQ32, "int", 8, 5, "SIMD"), (STR, "std::string", 16, 9, "Binary"),
          (num("float"), "Big<24>", 33, 20, "SIMD"), (CI, "int", 12, 7, "Linear")]
    druns(c, dense(c, "dense", *dc, flags=AVX), "readers", 40, scale(20, 100), scale(2, 12))
    # every interleaving of readers in the model, and a variant that is not safe
    for hint in (False, True):
        cfg = ("CONSTANTS\nLC = 4\nIC = 4\nMaxN = 40\nMaxId = 16\nWrong = 0\nReaders = {%s}\nHINT = %s\nSizes = {%s}\n"
               "SPECIFICATION RSpec\nINVARIANTS Answers Soundness\n%sCHECK_DEADLOCK FALSE\n"
               % ("r1, r2", str(hint).upper(), scale("3, 6, 13", "3, 6, 13, 20, 26"),
                  "" if hint else "PROPERTY Silent\n"))
        c.model("Readers", cfg, "Readers-hint" if hint else "Readers", 800, 2, expect="Answers" if hint else None)
    if THOROUGH:
        c.model("Readers", cfg.replace("r1, r2", "r1, r2, r3").replace("HINT = TRUE", "HINT = FALSE")
                .replace("3, 6, 13, 20, 26", "6, 9"), "Readers-3", 800, 4)
    # the same under the thread sanitizer, which sees stores to any shared memory
    if not c.sanitizer_works("thread"):
        c.assumptions.append("the thread sanitizer does not run here: only stores into the containers' own memory are seen")
        return
    ts = ("-fsanitize=thread",)
    for name, km, v, L, I, m, fl, U in (("r8x8", SEQ32, "int", 8, 8, "Binary", ts, 300),
                                        ("r16x9", STR, "std::string", 16, 9, "Linear", ts, 400),
                                        ("r33x17", num("std::int32_t"), "int", 33, 17, "SIMD", ts + AVX, 700)):
        tree(c, name, km, v, L, I, m, alloc="GuardA", no=2, flags=fl)
        for s in range(scale(2, 10)):
            c.trace(name, ["-prog", "readers", "-U", U, "-n", scale(10, 50), "-seed", seed(c.prop, name, s), "-guard", 0]
                    + mixargs(bounds=100, walk=300), U=U, NO=2)
    n = dense(c, "densets", *dc, flags=AVX + ts)
    for s in range(scale(2, 10)):
        c.trace(n, ["-prog", "readers", "-U", 40, "-n", scale(20, 100), "-seed", seed(c.prop, n, s), "-guard", 0],
                U=40, NO=4, spec="DMapTrace")


PROPS = {k[0].upper() + k[1:]: v for k, v in list(globals().items())
         if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
LEVELS = {"C15": "fault_enumeration"}

if __name__ == "__main__":
    p = sys.argv[1]
    chk = Check(p, LEVELS.get(p, "model_checking"))
    PROPS[p](chk)
    chk.finish()
