from hypothesis import strategies as st

from sudokutools import solvers
from sudokutools.analyze import rate, score
from vlib import gens, ref, sut, tech
from vlib.engine import Part

PROPERTY = "C09"
RULE = ("A case is a solvable sudoku: minimal unique ones of every difficulty under random symmetries, with "
        "random extra givens, ambiguous, nearly complete and complete ones. rate() is compared with the "
        "least level of techniques which suffices in an independent logical solver (which applies all "
        "patterns at once), score() with the sum of levels over reported steps. Non-trivial: the rating is "
        "at least 2.")
ASSUMPTIONS = ["relies on the techniques being confluent (removing candidates never loses progress of the "
               "same level), which the reference solver shares"]


def twin(case, ctx):
    """The same text with other boxes (often without solution)."""
    s = sut.make(case["w"], case["h"], case["nums"], case["cands"])
    points, rating = score(s), rate(s)
    steps = []
    solvers.solve(s, steps.append)
    levels = [tech.LEVEL[type(x).__name__] for x in steps]
    ctx.require(points == sum(levels), "score() is %r, the sum over all steps is %d", points, sum(levels))
    ctx.require(rating == max(levels + [0]), "rate() is %r, the highest level reported is %d",
                rating, max(levels + [0]))


def check(case, ctx):
    # the same text with other boxes, right before
    gens.with_twin(case, lambda c: twin(c, ctx))
    w, h = case["w"], case["h"]
    nums = sut.unpack(case["nums"])
    sol = None
    if case.get("used") == 6:
        try:
            sol = ref.solutions(w, h, nums, limit=1, max_nodes=5000)[0]
        except ref.Limit:
            ctx.event("no solution known")
    s = sut.make_used(w, h, nums, case["cands"], case.get("used"), lambda s: (rate(s), score(s)), sol)
    base = sut.full(s)
    got = rate(s)
    want = ref.logic_level(w, h, nums)
    ctx.require(got == want, "rate() is %r, but the easiest sufficient level is %d", got, want)
    points = score(s)
    steps = []
    solvers.solve(s, steps.append)
    names = [type(x).__name__ for x in steps]
    for n in names:
        ctx.require(n in tech.LEVEL, "unknown step %s", n)
    want_points = sum(tech.LEVEL[n] for n in names)
    ctx.require(points == want_points, "score() is %r, the sum over all steps is %d", points, want_points)
    empty = nums.count(0)
    ctx.require(points >= got and points >= empty, "score %r is below the rating %r or %d empty fields",
                points, got, empty)
    ctx.require((points == 0) == (empty == 0), "score is %r with %d empty fields", points, empty)
    ctx.require((got == 0) == (empty == 0), "rating is %r with %d empty fields", got, empty)
    ctx.require(rate(s) == got and score(s) == points, "rating or score differ when repeated")
    ctx.require(sut.full(s) == base, "rating changes the sudoku")
    ctx.event("rating %d" % got)
    ctx.nontrivial(got >= 2)


@st.composite
def cases(draw, sizes, kinds=("level", "level", "level", "drop", "dense", "complete", "unique")):
    w, h = draw(sizes)
    n = w * h
    kind = draw(st.sampled_from(kinds))
    if kind == "level" and gens.has_minimal(w, h):
        g, p = draw(gens.minimal(w, h))
        extra = draw(gens.bits(n * n, draw(st.sampled_from([0, 0, 0, 1, 1, 2]))))
        nums = [g[i] if extra >> i & 1 else v for i, v in enumerate(p)]
    else:
        nums = draw(gens.puzzle(w, h, kinds=(kind if kind != "level" else "unique",)))[1]
    cands = [0] * (n * n)
    if draw(st.integers(0, 3)) == 0:
        m = draw(gens.bits(n * n * n))
        cands = [m >> (i * n) & ((1 << n) - 1) for i in range(n * n)]
    return {"w": w, "h": h, "nums": sut.pack(nums), "cands": cands, "twin": draw(st.integers(0, 2)) == 0}


SIZES = gens.weighted((8, (3, 3)), (2, (2, 4)), (2, (4, 2)), (1, (2, 3)), (1, (3, 2)), (1, (2, 2)),
                      (1, (2, 5)), (1, (5, 2)), (1, (1, 4)), (1, (3, 1)))

PARTS = [
    Part("sudokus", gens.used(cases(SIZES), (6, 1)), check, 4500, 60000),
    # ten and twelve numbers, also such which need fishes
    Part("large", cases(gens.sizes(gens.LARGE), ("level", "level", "level", "level", "drop", "dense")),
         check, 320, 6000),
    Part("huge", cases(gens.sizes(gens.HUGE), ("dense", "dense", "unique", "complete")), check, 160, 2000),
]
