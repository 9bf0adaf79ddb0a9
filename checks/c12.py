import random

from hypothesis import strategies as st

from sudokutools.generate import create_solution
from vlib import ref, sut
from vlib.engine import Part

PROPERTY = "C12"
RULE = ("A case is a random seed and a sequence of box sizes, for each of which a solution is created in the "
        "same process; results are changed in between. Every result must be complete and valid for its box "
        "size and independent of all others. Non-trivial: n >= 2.")
ASSUMPTIONS = ["the random choices sampled are those reached from random.seed(0..2**31)"]


def check(case, ctx):
    random.seed(case["seed"])
    held = []
    for w, h, aslist, change in case["calls"]:
        n = w * h
        if (w, h) == (3, 3) and aslist:
            s = create_solution()
        else:
            s = create_solution(box_size=[w, h] if aslist else (w, h))
        ctx.require(sut.size(s) == (w, h), "wrong box size %s", sut.size(s))
        nums = sut.flat(s)
        ctx.require(ref.is_complete_valid(w, h, nums), "not a valid solution: %s", nums)
        for other, was in held:
            ctx.require(other is not s, "the same object is returned twice")
        held.append([s, nums])
        if change:
            s[0, 0] = 0
            s.set_candidates(0, 0, (1,))
            held[-1][1] = [0] + nums[1:]
        for other, was in held:
            ctx.require(sut.flat(other) == was, "an earlier result has changed")
        ctx.event("size: %dx%d" % (w, h))
        ctx.nontrivial(n > 1)


@st.composite
def cases(draw, sizes, most):
    calls = draw(st.lists(st.tuples(sizes, st.booleans(), st.booleans()).map(
        lambda x: [x[0][0], x[0][1], x[1], x[2]]), min_size=1, max_size=most))
    return {"seed": draw(st.integers(0, 2 ** 31)), "calls": calls}


PARTS = [
    Part("small", cases(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (5, 1),
                                         (1, 3), (3, 1), (2, 4), (4, 2), (4, 1), (1, 4)]), 4), check, 20000, 60000),
    Part("large", cases(st.sampled_from([(2, 5), (5, 2), (3, 4), (4, 3), (2, 6), (6, 2), (1, 11), (12, 1)]), 1),
         check, 1200, 4000),
    Part("huge", cases(st.sampled_from([(4, 4), (3, 5), (5, 3), (2, 7), (7, 2), (2, 8), (8, 2), (3, 6), (6, 3),
                                        (2, 9), (9, 2), (4, 5), (5, 4), (1, 17), (18, 1)]), 1), check, 240, 2000),
]
