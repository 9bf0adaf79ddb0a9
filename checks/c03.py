import functools
import itertools
import random

from hypothesis import strategies as st

from sudokutools.analyze import find_conflicts, is_solved, is_unique
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C03"
RULE = ("A case is a sudoku (as for C01: unique, ambiguous, contradictory, conflicting, complete, "
        "wrongly complete, arbitrary numbers) with a subset of coordinates. is_unique, is_solved and "
        "find_conflicts are compared with an independent search and a unit-wise scan. Non-trivial: "
        "the sudoku has conflicts, or is complete, or has empty fields and at most 10 completions.")
ASSUMPTIONS = ["uniqueness is not checked if the reference search needs more than 4000 nodes"]


def check(case, ctx):
    # the same text with other boxes, right before
    gens.with_twin(case, lambda c: check(c, ctx))
    w, h = case["w"], case["h"]
    n = w * h
    nums = sut.unpack(case["nums"])
    try:
        sols = ref.solutions(w, h, nums, limit=2, max_nodes=4000)
    except ref.Limit as e:
        sols = None

    def use(s):
        list(find_conflicts(s))
        is_solved(s)
        # others may take too long
        if sols is not None and case["used"] in (1, 2) or sols and case["used"] == 6:
            is_unique(s)
    s = sut.make_used(w, h, nums, None, case["used"], use, sols and sols[0])
    want = ref.conflicts(w, h, nums)

    got = [((a[0], a[1]), (b[0], b[1]), v) for a, b, v in find_conflicts(s)]
    ctx.require(len(got) == len(set(got)), "find_conflicts yields a pair twice: %s", got)
    ctx.require(set(got) == want, "find_conflicts: %s instead of %s", sorted(got), sorted(want))

    coords = [(i // n, i % n) for i in case["coords"] if i < n * n]
    if coords:
        got = [((a[0], a[1]), (b[0], b[1]), v) for a, b, v in find_conflicts(s, *coords)]
        part = {x for x in want if x[0] in coords}
        ctx.require(len(got) == len(set(got)), "find_conflicts with coordinates yields a pair twice")
        ctx.require(set(got) == part, "find_conflicts at %s: %s instead of %s", coords,
                    sorted(got), sorted(part))
        ctx.event("conflicts at coordinates: %s" % ("some" if part else "none"))

    solved = ref.is_complete_valid(w, h, nums)
    got = is_solved(s)
    ctx.require(got is solved, "is_solved is %r", got)

    if sols is not None:
        got = is_unique(s)
        ctx.require(got is (len(sols) == 1), "is_unique is %r, but there are %s completions", got,
                    ("no", "exactly one", "several")[len(sols)])
        ctx.event("completions: %s" % ("0", "1", "2+")[len(sols)])
    ctx.event("kind: " + case["kind"])
    ctx.event("conflicts: %s" % ("0" if not want else "1" if len(want) == 2 else "several"))
    ctx.event("solved: %s" % solved)
    ctx.nontrivial(bool(want) or 0 not in nums or sols is not None)
    ctx.require(sut.flat(s) == nums, "the sudoku has been changed")


@st.composite
def cases(draw, sizes, arbitrary=False):
    w, h = draw(sizes)
    n = w * h
    if arbitrary:
        kind, nums = "arbitrary", draw(gens.any_numbers(w, h))
    else:
        kind, nums = draw(gens.puzzle(w, h))
    coords = draw(st.lists(st.integers(0, n * n - 1), max_size=4, unique=True))
    if draw(st.integers(0, 2)) == 0:
        m = draw(gens.bits(n * n))
        coords = [i for i in range(n * n) if m >> i & 1]
    return {"w": w, "h": h, "kind": kind, "nums": sut.pack(nums), "coords": coords,
            "twin": draw(st.integers(0, 2)) == 0}


@st.composite
def single_conflict(draw):
    """A complete or nearly complete grid with one wrong number or two exchanged."""
    w, h = draw(gens.WEIGHTED_SIZES)
    n = w * h
    g = draw(gens.grid(w, h))
    i = draw(st.integers(0, n * n - 1))
    g[i] = draw(st.integers(1, n))
    for _ in range(draw(st.integers(0, 2))):
        g[draw(st.integers(0, n * n - 1))] = 0
    coords = draw(st.lists(st.integers(0, n * n - 1), max_size=3, unique=True))
    if draw(st.booleans()) and i not in coords:
        coords.append(i)
    return {"w": w, "h": h, "kind": "one conflict", "nums": sut.pack(g), "coords": coords}


def multisets(n):
    """Lists of n numbers 1..n, not all different, with the sum (and maybe more) of 1..n."""
    if n not in _MULTISETS:
        rng = random.Random(n)
        want = list(range(1, n + 1))
        product = functools.reduce(lambda a, b: a * b, want)
        found = {"sum": [], "sum, product": [], "sum, squares": [], "product": []}
        every = itertools.combinations_with_replacement(want, n) if n <= 9 else (
            rng.choices(want, k=n) for _ in range(20000))
        for m in every:
            if len(set(m)) == n:
                continue
            total = sum(m) == sum(want)
            prod = functools.reduce(lambda a, b: a * b, m) == product
            if total:
                found["sum"].append(list(m))
            if total and prod:
                found["sum, product"].append(list(m))
            if prod:
                found["product"].append(list(m))
            if total and sum(v * v for v in m) == sum(v * v for v in want):
                found["sum, squares"].append(list(m))
        _MULTISETS[n] = {k: v for k, v in found.items() if v}
    return _MULTISETS[n]


_MULTISETS = {}


@st.composite
def balanced(draw):
    """Complete grids: all rows, columns and boxes have the right sum, but repeat a number."""
    w, h = draw(gens.sizes([(3, 3), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (1, 4), (5, 1), (2, 5), (3, 4)]))
    kinds = multisets(w * h)
    kind = draw(st.sampled_from(sorted(kinds)))
    m = draw(st.sampled_from(kinds[kind]))
    nums = [m[v - 1] for v in draw(gens.grid(w, h))]
    return {"w": w, "h": h, "kind": "balanced: " + kind, "nums": sut.pack(nums), "coords": []}


def used(cases):
    return gens.used(cases, (1, 2, 3, 4, 5, 6))


PARTS = [
    Part("balanced", used(balanced()), check, 500, 4000),
    Part("mixed", used(cases(gens.WEIGHTED_SIZES)), check, 15000, 100000),
    Part("arbitrary", used(cases(gens.WEIGHTED_SIZES, arbitrary=True)), check, 5000, 40000),
    Part("one conflict", used(single_conflict()), check, 7500, 40000),
    Part("large", used(cases(gens.sizes(gens.LARGE, gens.HUGE))), check, 750, 4000),
    Part("more", used(cases(gens.sizes(gens.MORE))), check, 150, 1500),
    Part("titan", used(gens.titan()), check, 32, 300),
]
