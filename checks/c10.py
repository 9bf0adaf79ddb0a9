import random

from hypothesis import strategies as st

from sudokutools.generate import generate
from vlib import ref, sut
from vlib.engine import Part

PROPERTY = "C10"
RULE = ("A case is (random seed, box size, symmetry, minimum count, or invalid arguments); the random "
        "generator is seeded before generate() is called. The result is checked for size, count, exactly one "
        "completion (reference search), validity of the numbers and invariance of its pattern under the "
        "symmetry group. Non-trivial: the result has empty fields.")
ASSUMPTIONS = ["the random choices sampled are those reached from random.seed(0..2**31)"]


def check(case, ctx):
    w, h, sym, mc = case["w"], case["h"], case["symmetry"], case["min_count"]
    n = w * h
    random.seed(case["seed"])
    kw = {}
    if mc is not None:
        kw["min_count"] = mc
    if sym != "default":
        kw["symmetry"] = sym
    if (w, h) != (3, 3) or case["seed"] % 2:
        kw["box_size"] = [w, h] if case["aslist"] else (w, h)
    symname = None if sym == "default" else sym
    bad = (mc or 0) > n * n or symname not in ref.SYMMETRIES
    try:
        s = generate(**kw)
    except ValueError:
        ctx.require(bad, "generate(%r) raises ValueError", kw)
        ctx.event("ValueError")
        return
    ctx.require(not bad, "generate(%r) does not raise ValueError", kw)
    ctx.require(sut.size(s) == (w, h), "wrong box size %s", sut.size(s))
    nums = sut.flat(s)
    ctx.require(all(0 <= v <= n for v in nums), "numbers out of range")
    count = sum(1 for v in nums if v)
    ctx.require(count >= (mc or 0), "only %d fields are filled, %d were requested", count, mc or 0)
    filled = {(i // n, i % n) for i, v in enumerate(nums) if v}
    f = ref.SYMMETRIES[symname]
    for cell in filled:
        for other in f(n, *cell):
            ctx.require(other in filled, "%s is filled, but not %s (symmetry %s)", cell, other, symname)
    try:
        k = len(ref.solutions(w, h, nums, limit=2, max_nodes=200000))
        ctx.require(k == 1, "the generated sudoku has %s completions", ("no", "", "several")[k])
    except ref.Limit:
        ctx.event("uniqueness not decided")
    ctx.event("symmetry: %s" % symname)
    ctx.event("size: %dx%d" % (w, h))
    ctx.event("min_count reached exactly: %s" % (count == mc))
    ctx.nontrivial(count < n * n)
    # the result belongs to the caller
    sut.spoil(s)
    if n <= 4 and "again" not in case:
        check(dict(case, again=True), ctx)


@st.composite
def cases(draw, sizes):
    w, h = draw(sizes)
    n2 = (w * h) ** 2
    sym = draw(st.sampled_from([None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy",
                                "default"]))
    which = draw(st.integers(0, 9))
    mc = None
    if which >= 8:
        if draw(st.booleans()):
            sym = draw(st.sampled_from(["", "rotate", "mirror", "Rotate-90", "rotate-270", "none", 90]))
        else:
            mc = n2 + draw(st.sampled_from([1, 1, 2, 50]))
    elif which >= 2:
        mc = draw(st.integers(0, n2))
        if which == 2:
            mc = n2
        elif which == 3:
            mc = -1
    return {"w": w, "h": h, "symmetry": sym, "min_count": mc, "seed": draw(st.integers(0, 2 ** 31)),
            "aslist": draw(st.booleans())}


@st.composite
def dense(draw):
    """Large sudokus, most fields are filled."""
    w, h = draw(st.sampled_from([(3, 4), (4, 3), (2, 6), (6, 2), (1, 12), (13, 1), (2, 7), (5, 3), (4, 4)]))
    n2 = (w * h) ** 2
    return {"w": w, "h": h, "seed": draw(st.integers(0, 2 ** 31)), "aslist": draw(st.booleans()),
            "symmetry": draw(st.sampled_from([None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"])),
            "min_count": n2 - draw(st.integers(0, 30)) if draw(st.integers(0, 5)) else n2 + draw(st.integers(1, 3))}


PARTS = [
    Part("dense", dense(), check, 240, 3000),
    Part("small", cases(st.sampled_from([(2, 2), (2, 3), (3, 2), (2, 2), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1),
                                         (1, 4), (4, 1)])), check, 12000, 80000),
    Part("medium", cases(st.sampled_from([(2, 4), (4, 2)])), check, 1000, 8000),
    Part("standard", cases(st.just((3, 3))), check, 960, 10000),
    Part("large", cases(st.sampled_from([(2, 5), (5, 2)])), check, 96, 1500),
]
