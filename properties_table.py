LAP = ["-llapack", "-lblas"]
BASE = ["-std=c++17", "-DTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"]
SAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
import os
REPO = os.environ.get("TOON_REPO", "/repo")
CONFIGS = {
    # fast build: bounds checks on, uninitialised storage poisoned with NaN
    "std": {"cc": "g++", "flags": ["-O1"] + BASE, "libs": LAP},
    # the same, unoptimised: for harnesses whose cost is compiling the many type combinations
    "dbg": {"cc": "clang++", "flags": ["-O0"] + BASE, "libs": LAP},
    # address + undefined behaviour sanitizers
    "san": {"cc": "g++", "flags": ["-O1"] + BASE + SAN, "libs": LAP},
    # what a release user gets: no debug macros, full optimisation
    "rel": {"cc": "g++", "flags": ["-O3", "-std=c++17", "-DTOON_USE_LAPACK"], "libs": LAP},
    # no debug macros, unoptimised (compiles quickly)
    "plain": {"cc": "clang++", "flags": ["-O0", "-std=c++17", "-DTOON_USE_LAPACK"], "libs": LAP},
    # the other compiler
    "clang": {"cc": "clang++", "flags": ["-O2"] + BASE, "libs": LAP},
    # no pre-filling macro (the check adds its own)
    "noinit": {"cc": "g++", "flags": ["-O1", "-std=c++17", "-DTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS"], "libs": LAP},
    "noinitclang": {"cc": "clang++", "flags": ["-O1", "-std=c++17", "-DTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS"], "libs": LAP},
    "noinitsan": {"cc": "g++", "flags": ["-O1", "-std=c++17", "-DTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS"] + SAN, "libs": LAP},
    # data races between threads ("optional": left out, and said so, where a trivial program built like this does not run)
    "tsan": {"cc": "clang++", "flags": ["-O1", "-g1", "-fsanitize=thread", "-pthread"] + BASE, "libs": LAP, "optional": 1},
    "thr": {"cc": "g++", "flags": ["-O1", "-pthread"] + BASE, "libs": LAP},
    # without LAPACK
    "nolapack": {"cc": "g++", "flags": ["-O1", "-std=c++17", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"], "libs": []},
}
def parts(f, n): return [(f, ["-DPART=%d" % i]) for i in range(n)]
TABLE = {}
TABLE["V01"] = {
    "rule": "a case is non-trivial when both operands are non-zero and different, so that a wrong index, sign, order or stride changes the result; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v01.cc", 11), "cases": (400000, 3000000)},
        {"name": "std", "config": "std", "src": parts("v01.cc", 11), "cases": (0, 20000000), "quick": 0},
        {"name": "rel", "config": "rel", "src": parts("v01.cc", 11), "cases": (0, 10000000), "quick": 0},
        {"name": "clang", "config": "clang", "src": parts("v01.cc", 11), "cases": (0, 5000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v01.cc", 11), "cases": (0, 3000000), "quick": 0},
    ],
}
TABLE["V02"] = {
    "rule": "a case is non-trivial when the view reached has at least two elements; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v02.cc", 9), "cases": (600000, 3000000)},
        {"name": "san", "config": "san", "src": parts("v02.cc", 9), "cases": (0, 3000000), "quick": 0},
        {"name": "rel", "config": "rel", "src": parts("v02.cc", 9), "cases": (0, 6000000), "quick": 0},
    ],
}
TABLE["V03"] = {
    "rule": "a history is non-trivial when it assigned at least one object or part of one to another; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "san", "config": "san", "src": parts("v03.cc", 4), "cases": (300000, 4000000)},
        {"name": "rel", "config": "rel", "src": parts("v03.cc", 4), "cases": (0, 2000000), "quick": 0},
        {"name": "clang", "config": "clang", "src": parts("v03.cc", 4), "cases": (0, 2000000), "quick": 0},
    ],
}
TABLE["V04"] = {
    "rule": "a case is non-trivial when the generated call is invalid and therefore must abort; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v04.cc", 5), "cases": (1500000, 20000000)},
        {"name": "rel", "config": "rel", "src": parts("v04.cc", 5), "cases": (500000, 20000000)},
        {"name": "san", "config": "san", "src": parts("v04.cc", 5), "cases": (0, 1000000), "quick": 0},
    ],
}
TABLE["V05"] = {
    "rule": "a case is non-trivial when more than one value is placed (all values of a case differ); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v05.cc", 8), "cases": (2000000, 5000000)},
        {"name": "rel", "config": "rel", "src": parts("v05.cc", 8), "cases": (0, 5000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v05.cc", 8), "cases": (0, 2000000), "quick": 0},
    ],
}
TABLE["V06"] = {
    "rule": "a case is non-trivial when the object the constant is applied to has at least one element (contents and factors are generated, so the result differs from the operand); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v06.cc", 6), "cases": (1000000, 10000000)},
        {"name": "rel", "config": "rel", "src": parts("v06.cc", 6), "cases": (0, 5000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v06.cc", 6), "cases": (0, 2000000), "quick": 0},
    ],
}
TABLE["V07"] = {
    "rule": "a case is non-trivial when the diagonal has at least two different entries; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v07.cc", 5), "cases": (600000, 6000000)},
        {"name": "rel", "config": "rel", "src": parts("v07.cc", 5), "cases": (0, 5000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v07.cc", 5), "cases": (0, 2000000), "quick": 0},
    ],
}
TABLE["V08"] = {
    "rule": "a case is non-trivial when it streams several objects, or a vector/matrix of more than one row or element; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v08.cc", 4), "cases": (600000, 2000000)},
        {"name": "rel", "config": "rel", "src": parts("v08.cc", 4), "cases": (0, 2000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v08.cc", 4), "cases": (0, 500000), "quick": 0},
    ],
}
TABLE["V09"] = {
    "rule": "a case is non-trivial when it makes at least two writes, or wraps more than one element; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "san", "config": "san", "src": parts("v09.cc", 4), "cases": (300000, 5000000)},
        {"name": "rel", "config": "rel", "src": parts("v09.cc", 4), "cases": (0, 3000000), "quick": 0},
        {"name": "clang", "config": "clang", "src": parts("v09.cc", 4), "cases": (0, 3000000), "quick": 0},
    ],
}
TABLE["V10"] = {
    "rule": "a case is non-trivial when the vector or matrix has at least two elements, or holds special values, or the operation has a defined result (inverse, cross product); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v10.cc", 4), "cases": (1000000, 5000000)},
        {"name": "rel", "config": "rel", "src": parts("v10.cc", 4), "cases": (0, 5000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v10.cc", 4), "cases": (0, 2000000), "quick": 0},
    ],
}
TABLE["V11"] = {
    "rule": "a case is non-trivial when it creates an object whose elements are not all initialised, runs a history of more than two steps, or computes with matrices larger than 1x1; distinct = distinct lists of generator choices, counted per build mode",
    "builds": [{"name": n, "config": c, "src": [("v11.cc", d)], "cases": (q, 2000000)} for n, c, d, q in (
        ("nan", "noinit", ["-DTOON_INITIALIZE_NAN"], 600000),
        ("qnan", "noinit", ["-DTOON_INITIALIZE_QNAN"], 30000),
        ("snan", "noinit", ["-DTOON_INITIALIZE_SNAN"], 600000),
        ("val", "noinit", ["-DTOON_INITIALIZE_VAL=42"], 600000),
        ("random", "noinit", ["-DTOON_INITIALIZE_RANDOM"], 600000),
        ("none", "noinit", [], 600000),
        ("clang", "noinitclang", ["-DTOON_INITIALIZE_RANDOM"], 300000))]
     + [{"name": "san-" + d, "config": "noinitsan", "src": [("v11.cc", ["-DTOON_INITIALIZE_" + d])], "cases": (0, 500000), "quick": 0} for d in ("NAN", "VAL=42", "RANDOM")],
}
TABLE["V13"] = {
    "rule": "a case is non-trivial when the sizes of the generated call's operands do not fit, so that it must abort; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "dbg", "config": "dbg", "src": parts("v13.cc", 3), "cases": (300000, 5000000)},
        {"name": "plain", "config": "plain", "src": parts("v13.cc", 3), "cases": (600000, 5000000)},
        {"name": "rel", "config": "rel", "src": parts("v13.cc", 3), "cases": (0, 3000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("v13.cc", 3), "cases": (0, 300000), "quick": 0},
    ],
}
TABLE["V14"] = {
    "rule": "a case is non-trivial when an operation on objects of more than one element was measured; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "plain", "config": "plain", "src": parts("v14.cc", 3), "cases": (300000, 3000000)},
        {"name": "dbg", "config": "dbg", "src": parts("v14.cc", 3), "cases": (0, 3000000), "quick": 0},
    ],
}
TABLE["N01"] = {
    "rule": "a case is non-trivial when the matrix is larger than 1x1 and its determinant exceeds ten times the tolerance of the comparison; distinct = distinct lists of generator choices, counted per build",
    "builds": [{"name": n, "config": c, "src": [("n01.cc", ["-DPART=%d" % i] + d) for i in (0, 1)], "cases": q} | ({} if q[0] else {"quick": 0}) for n, c, d, q in (
        ("std", "std", ["-DTOON_DETERMINANT_LAPACK=4"], (400000, 6000000)),
        ("nolapack", "nolapack", [], (250000, 4000000)),
        ("rel", "rel", [], (0, 6000000)),
        ("san", "san", ["-DTOON_DETERMINANT_LAPACK=4"], (0, 1000000)))],
}
TABLE["N02"] = {
    "rule": "a case is non-trivial when the system is larger than 1x1 and far enough from singular to be solved, or its sizes are mismatched and must be rejected; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n02.cc", 3), "cases": (500000, 8000000)},
        {"name": "rel", "config": "rel", "src": parts("n02.cc", 3), "cases": (0, 8000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n02.cc", 3), "cases": (0, 1500000), "quick": 0},
    ],
}
TABLE["N04"] = {
    "rule": "a case is non-trivial when the matrix is larger than 1x1 and far enough from singular for its solutions and inverse to be compared; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n04.cc", 4), "cases": (800000, 8000000)},
        {"name": "rel", "config": "rel", "src": parts("n04.cc", 4), "cases": (0, 4000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n04.cc", 4), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["N03"] = {
    "rule": "a case is non-trivial when the matrix is larger than 1x1 and definite enough for its condition number, or is exactly singular or indefinite and must be recognised; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n03.cc", 4), "cases": (400000, 6000000)},
        {"name": "rel", "config": "rel", "src": parts("n03.cc", 4), "cases": (0, 4000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n03.cc", 4), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["N05"] = {
    "rule": "a case is non-trivial when the matrix has more than one row and is not zero; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n05.cc", 2), "cases": (250000, 8000000)},
        {"name": "rel", "config": "rel", "src": parts("n05.cc", 2), "cases": (0, 4000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n05.cc", 2), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["N06"] = {
    "rule": "a case is non-trivial when the matrix has at least two rows and columns and is not zero; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n06.cc", 4), "cases": (250000, 6000000)},
        {"name": "rel", "config": "rel", "src": parts("n06.cc", 4), "cases": (0, 4000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n06.cc", 4), "cases": (0, 600000), "quick": 0},
    ],
}
TABLE["N07"] = {
    "rule": "a case is non-trivial when the matrix has at least two rows and columns and is not zero; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n07.cc", 4), "cases": (400000, 8000000)},
        {"name": "rel", "config": "rel", "src": parts("n07.cc", 4), "cases": (0, 6000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n07.cc", 4), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["N08"] = {
    "rule": "a case is non-trivial when the matrix has at least two rows and is not zero; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n08.cc", 4), "cases": (300000, 6000000)},
        {"name": "rel", "config": "rel", "src": parts("n08.cc", 4), "cases": (0, 6000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n08.cc", 4), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["N09"] = {
    "rule": "a case is non-trivial when the matrix has at least two rows and the exponent is not zero (or the matrix is not the identity); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("n09.cc", 4), "cases": (600000, 6000000)},
        {"name": "rel", "config": "rel", "src": parts("n09.cc", 4), "cases": (0, 6000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("n09.cc", 4), "cases": (0, 600000), "quick": 0},
    ],
}
GRULE = "a case is non-trivial when the element or exponent rotates, a history has more than two steps, or the operands are not the identity; distinct = distinct lists of generator choices"
TABLE["G01"] = {
    "rule": GRULE,
    "builds": [
        {"name": "std", "config": "std", "src": parts("g01.cc", 3), "cases": (3000000, 12000000)},
        {"name": "rel", "config": "rel", "src": parts("g01.cc", 3), "cases": (0, 6000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g01.cc", 3), "cases": (0, 800000), "quick": 0},
    ],
}
TABLE["G02"] = {
    "rule": GRULE,
    "builds": [
        {"name": "std", "config": "std", "src": parts("g02.cc", 3), "cases": (2000000, 12000000)},
        {"name": "rel", "config": "rel", "src": parts("g02.cc", 3), "cases": (0, 8000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g02.cc", 3), "cases": (0, 1500000), "quick": 0},
    ],
}
TABLE["G03"] = {
    "rule": GRULE,
    "builds": [
        {"name": "std", "config": "std", "src": parts("g03.cc", 3), "cases": (2000000, 12000000)},
        {"name": "rel", "config": "rel", "src": parts("g03.cc", 3), "cases": (0, 8000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g03.cc", 3), "cases": (0, 1200000), "quick": 0},
    ],
}
TABLE["G05"] = {
    "rule": GRULE,
    "builds": [
        {"name": "std", "config": "std", "src": parts("g05.cc", 3), "cases": (1500000, 10000000)},
        {"name": "rel", "config": "rel", "src": parts("g05.cc", 3), "cases": (0, 8000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g05.cc", 3), "cases": (0, 1000000), "quick": 0},
    ],
}
TABLE["G04"] = {
    "rule": GRULE,
    "builds": [
        {"name": "std", "config": "std", "src": parts("g04.cc", 3), "cases": (1500000, 10000000)},
        {"name": "rel", "config": "rel", "src": parts("g04.cc", 3), "cases": (0, 8000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g04.cc", 3), "cases": (0, 1000000), "quick": 0},
    ],
}
TABLE["G06"] = {
    "rule": "a case is non-trivial when the exponent is not zero, the determinant is not already one, or the operands are not the identity; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("g06.cc", 4), "cases": (3000000, 10000000)},
        {"name": "rel", "config": "rel", "src": parts("g06.cc", 4), "cases": (0, 4000000), "quick": 0},
        {"name": "san", "config": "san", "src": parts("g06.cc", 4), "cases": (0, 400000), "quick": 0},
    ],
}
TABLE["N10"] = {
    "rule": "a history is non-trivial when an object was computed again, assigned to, moved or swapped (for kinds that cannot be computed again: when two objects exist); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "san", "config": "san", "src": parts("n10.cc", 4), "cases": (40000, 600000)},
        {"name": "std", "config": "std", "src": parts("n10.cc", 4), "cases": (200000, 3000000)},
    ],
}
TABLE["E01"] = {
    "rule": "a case is non-trivial when it solved a system of more than one unknown and compared the solution; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("e01.cc", 4), "cases": (300000, 10000000)},
        {"name": "san", "config": "san", "src": parts("e01.cc", 4), "cases": (0, 100000), "quick": 0},
    ],
}

TABLE["E02"] = {
    "rule": "a case is non-trivial when it evaluated the functions away from zero, or accumulated at least two reweighted measurements; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("e02.cc", 3), "cases": (800000, 20000000)},
        {"name": "san", "config": "san", "src": parts("e02.cc", 3), "cases": (0, 200000), "quick": 0},
    ],
}

TABLE["F01"] = {
    "rule": "a case is non-trivial when some derivative compared is not zero; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("f01.cc", 1), "cases": (40000, 400000)},
        {"name": "san", "config": "san", "src": parts("f01.cc", 1), "cases": (0, 20000), "quick": 0},
    ],
}

TABLE["F02"] = {
    "rule": "a case is non-trivial when it compared derivatives of something of more than one element; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("f02.cc", 4), "cases": (400000, 10000000)},
        {"name": "san", "config": "san", "src": parts("f02.cc", 4), "cases": (0, 200000), "quick": 0},
    ],
}

TABLE["O03"] = {
    "rule": "a case is non-trivial when the middle of the bracket is not the minimum already; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("o03.cc", 1), "cases": (8000000, 200000000)},
        {"name": "san", "config": "san", "src": parts("o03.cc", 1), "cases": (0, 4000000), "quick": 0},
    ],
}

TABLE["O01"] = {
    "rule": "a case is non-trivial when it took at least two steps on a function that is not constant, or converged in more than five steps; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("o01.cc", 1), "cases": (600000, 20000000)},
        {"name": "san", "config": "san", "src": parts("o01.cc", 1), "cases": (0, 400000), "quick": 0},
    ],
}

TABLE["O02"] = {
    "rule": "a case is non-trivial when it took at least two iterations; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "std", "config": "std", "src": parts("o02.cc", 1), "cases": (600000, 20000000)},
        {"name": "san", "config": "san", "src": parts("o02.cc", 1), "cases": (0, 400000), "quick": 0},
    ],
}
TABLE["V12"] = {
    "rule": "every generated program counts (up to ten statements on lines of their own, in those of the kind 'wrong' each with a mistake that must be rejected by itself, in those of the kind 'right' all correct); distinct = distinct lists of generator choices",
    "builds": [
        {"name": "clang", "config": "std", "src": [("v12.cc", ['-DTOON_DIR="%s"' % REPO])], "cases": (700, 12000)},
        {"name": "gcc", "config": "std", "src": [("v12.cc", ['-DTOON_DIR="%s"' % REPO, "-DUSE_GCC"])], "cases": (0, 1500), "quick": 0},
    ],
}

TABLE["V15"] = {
    "rule": "a case is non-trivial when computations ran in at least two threads, or inside one another, or again after others; distinct = distinct lists of generator choices",
    "builds": [
        {"name": "tsan", "config": "tsan", "src": parts("v15.cc", 6), "cases": (20000, 400000)},
        {"name": "thr", "config": "thr", "src": parts("v15.cc", 6), "cases": (60000, 1500000)},
    ],
}
