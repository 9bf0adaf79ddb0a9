from hypothesis import strategies as st

from sudokutools.solve import calc_candidates, init_candidates
from sudokutools.solvers import CalculateCandidates
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C04"
RULE = ("A case is a sudoku of any kind and size (consistent or not) with arbitrary old candidates. "
        "calc_candidates of every field, init_candidates (full and filled_only) and the "
        "CalculateCandidates step are compared with a unit-wise computation. Non-trivial: at least "
        "one filled and one empty field.")
ASSUMPTIONS = []


def use(s):
    for r, c in s:
        calc_candidates(s, r, c)


def check(case, ctx):
    # the same text with other boxes, right before
    gens.with_twin(case, lambda c: check(c, ctx))
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    n = g.n
    nums = sut.unpack(case["nums"])
    old = [frozenset(sut.values(m)) for m in case["cands"]]
    possible = ref.candidates(w, h, nums)
    want = [frozenset(possible[cell]) for cell in g.cells]

    s = sut.make_used(w, h, nums, case["cands"], case["used"], use)
    for i, (r, c) in enumerate(g.cells):
        got = calc_candidates(s, r, c)
        ctx.require(set(got) == want[i] and len(got) == len(want[i]),
                    "calc_candidates at (%d, %d): %s instead of %s", r, c, sorted(got), sorted(want[i]))
        # the result belongs to the caller
        if isinstance(got, set):
            got.clear()
    ctx.require(sut.full(s) == ((w, h), nums, old), "calc_candidates changes the sudoku")

    init_candidates(s)
    ctx.require(sut.flat(s) == nums, "init_candidates changes numbers")
    ctx.require(sut.cands(s) == want, "init_candidates sets wrong candidates")

    s = sut.make_used(w, h, nums, case["cands"], case["used"], init_candidates)
    for i, cell in enumerate(g.cells):
        s.set_candidates(cell[0], cell[1], old[i])
    init_candidates(s, filled_only=True)
    ctx.require(sut.flat(s) == nums, "init_candidates(filled_only) changes numbers")
    expect = [want[i] if nums[i] else old[i] for i in range(n * n)]
    ctx.require(sut.cands(s) == expect, "init_candidates(filled_only) sets wrong candidates")

    # the step: only for fields which have no candidates
    s = sut.make_used(w, h, nums, case["cands"], case["used"], lambda s: list(CalculateCandidates.find(s)))
    steps = [sut.step(x) for x in CalculateCandidates.find(s)]
    expect = sorted(((cell,), tuple(sorted(want[i]))) for i, cell in enumerate(g.cells) if not old[i])
    ctx.require(sorted((a, v) for _, c, a, v in steps) == expect, "CalculateCandidates finds wrong steps")
    ctx.require(sut.full(s) == ((w, h), nums, old), "CalculateCandidates.find changes the sudoku")
    CalculateCandidates.apply_all(s)
    ctx.require(sut.flat(s) == nums, "CalculateCandidates changes numbers")
    ctx.require(sut.cands(s) == [o or want[i] for i, o in enumerate(old)],
                "CalculateCandidates sets wrong candidates")
    ctx.event("kind: " + case["kind"])
    ctx.event("size: %dx%d" % (w, h))
    ctx.event("fields without possible number: %s" % any(not x for x in want))
    ctx.nontrivial(any(nums) and not all(nums))


@st.composite
def cases(draw, sizes):
    w, h = draw(sizes)
    n = w * h
    if draw(st.integers(0, 2)) == 0:
        kind, nums = "arbitrary", draw(gens.any_numbers(w, h))
    else:
        kind, nums = draw(gens.puzzle(w, h, kinds=("unique", "drop", "corrupt", "conflict", "dense",
                                                   "sparse", "badcomplete", "latin")))
    which = draw(st.integers(0, 2))
    if which == 0:
        cands = [0] * (n * n)
    elif which == 1:
        m = draw(gens.bits(n * n * n))
        cands = [m >> (i * n) & ((1 << n) - 1) for i in range(n * n)]
    else:
        m = draw(gens.bits(n * n * n, 7))
        k = draw(gens.bits(n * n))
        cands = [m >> (i * n) & ((1 << n) - 1) if k >> i & 1 else 0 for i in range(n * n)]
    return {"w": w, "h": h, "kind": kind, "nums": sut.pack(nums), "cands": cands,
            "twin": draw(st.integers(0, 2)) == 0}


PARTS = [
    Part("mixed", gens.used(cases(gens.WEIGHTED_SIZES)), check, 15000, 100000),
    Part("large", gens.used(cases(gens.sizes(gens.LARGE, gens.HUGE))), check, 600, 4000),
    Part("more", gens.used(cases(gens.sizes(gens.MORE))), check, 150, 1500),
    Part("titan", gens.used(gens.titan()), check, 240, 1600),
]
