from hypothesis import strategies as st

from sudokutools.solve import bruteforce, dlx
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C01"
RULE = ("A case is a sudoku (box size, numbers): minimal unique sudokus under random "
        "symmetries with random extra givens, with givens removed, changed or made "
        "conflicting, sparse, complete and completely filled but wrong grids; sizes from 1x1 "
        "boxes to 4x4 boxes. Oracle: an independent bitmask search. Non-trivial: at least "
        "one empty field, and the reference search needed at least two nodes or the givens "
        "are contradictory.")
ASSUMPTIONS = ["completions beyond the first 400 (`many`: 9000) are not enumerated: then only a prefix of "
               "30 is checked for validity and distinctness",
               "sudokus for which the reference search needs more than 4000 nodes are skipped"]
LIMIT = 400
PREFIX = 30


def consume(solver, w, h, nums, sols, ctx, exact, used=0):
    s = sut.make_used(w, h, nums, None, used if sols else 0, lambda s: next(solver(s), None), sols and sols[0])
    seen = set()
    for sol in solver(s):
        size = sut.size(sol)
        ctx.require(size == (w, h), "%s: solution has box size %s", solver.__name__, size)
        t = tuple(sut.flat(sol))
        ctx.require(all(not v or v == x for v, x in zip(nums, t)),
                    "%s: a given number has been changed: %s", solver.__name__, t)
        ctx.require(ref.is_complete_valid(w, h, t), "%s: invalid solution %s", solver.__name__, t)
        ctx.require(t not in seen, "%s: solution yielded twice: %s", solver.__name__, t)
        seen.add(t)
        # the solution belongs to the caller
        sol[0, 0] = 0
        if not exact and len(seen) >= PREFIX:
            break
    want = len(sols) if exact else PREFIX
    ctx.require(len(seen) == want, "%s: %d solutions instead of %d", solver.__name__, len(seen), want)
    if exact:
        ctx.require(seen == set(sols), "%s: wrong set of solutions", solver.__name__)


def check_many(case, ctx):
    """Hundreds or thousands of completions, all of them enumerated."""
    w, h = case["w"], case["h"]
    nums = sut.unpack(case["nums"])
    try:
        sols, _ = ref.search(w, h, nums, limit=9001, max_nodes=60000)
    except ref.Limit:
        ctx.event("skipped: too hard for the reference")
        return
    if len(sols) > 9000:
        ctx.event("skipped: too many")
        return
    ctx.event("size: %dx%d" % (w, h))
    ctx.event("solutions: " + ("up to 400" if len(sols) <= 400 else "up to 2000" if len(sols) <= 2000 else "2001+"))
    ctx.nontrivial(len(sols) > 400)
    consume(bruteforce if case["brute"] else dlx, w, h, nums, sols, ctx, True)


@st.composite
def ambiguous(draw):
    w, h = draw(gens.sizes([(2, 3), (3, 2), (2, 4), (3, 3), (1, 5), (2, 3), (4, 2), (3, 3), (5, 1), (2, 5)]))
    nums = list(draw(gens.grid(w, h)))
    order = draw(st.permutations(range(len(nums))))
    want = draw(st.integers(2, 9)) * 500
    k, step = 0, max(1, len(nums) // 18)
    while k < len(order):
        more = list(nums)
        for i in order[k:k + step]:
            more[i] = 0
        try:
            count = len(ref.search(w, h, more, limit=9001, max_nodes=60000)[0])
        except ref.Limit:
            break
        if count > 9000:
            break
        nums = more
        k += step
        if count >= want:
            break
    return {"w": w, "h": h, "nums": sut.pack(nums), "brute": draw(st.booleans())}


def check(case, ctx):
    # the same text with other boxes, right before
    gens.with_twin(case, lambda c: check(c, ctx))
    w, h = case["w"], case["h"]
    nums = sut.unpack(case["nums"])
    try:
        sols, nodes = ref.search(w, h, nums, limit=LIMIT + 1, max_nodes=4000)
    except ref.Limit as e:
        if len(e.found) < PREFIX or w * h > 10:
            ctx.event("skipped: too hard for the reference")
            return
        # easy, but too many: check the first ones
        sols, nodes = e.found + [None] * LIMIT, 4000
    exact = len(sols) <= LIMIT
    ctx.event("kind: " + case["kind"])
    ctx.event("size: %dx%d" % (w, h))
    ctx.event("solutions: " + ("0" if not sols else "1" if len(sols) == 1 else
                               "2-10" if len(sols) <= 10 else "11+" if exact else "many"))
    ctx.nontrivial(0 in nums and (nodes > 1 or not sols))
    consume(dlx, w, h, nums, sols, ctx, exact, case.get("used"))
    if nodes <= 1200:
        ctx.event("bruteforce")
        consume(bruteforce, w, h, nums, sols, ctx, exact, nodes <= 50 and case.get("used"))
    if case.get("twin") and len(sols) <= 3:
        ctx.event("solved again")
        consume(dlx, w, h, nums, sols, ctx, exact)
        if nodes <= 50:
            consume(bruteforce, w, h, nums, sols, ctx, exact)


@st.composite
def puzzles(draw, sizes, **kw):
    w, h = draw(sizes)
    kind, nums = draw(gens.puzzle(w, h, **kw))
    return {"w": w, "h": h, "kind": kind, "nums": sut.pack(nums), "twin": draw(st.booleans())}


@st.composite
def arbitrary(draw):
    w, h = draw(gens.sizes(gens.DEGENERATE, gens.SMALL))
    return {"w": w, "h": h, "kind": "arbitrary", "nums": sut.pack(draw(gens.any_numbers(w, h)))}


BIG = gens.weighted((3, (3, 4)), (3, (4, 3)), (2, (2, 6)), (2, (6, 2)), (2, (4, 4)), (1, (3, 5)), (1, (5, 3)),
                    (3, (2, 5)), (3, (5, 2)))

PARTS = [
    Part("many", ambiguous(), check_many, 64, 800),
    Part("mixed", gens.used(puzzles(gens.WEIGHTED_SIZES), (1, 6)), check, 12000, 60000),
    Part("tiny", gens.used(puzzles(
        gens.sizes(gens.TINY, gens.DEGENERATE, gens.SMALL),
        kinds=("sparse", "dense", "unique", "drop", "badcomplete", "latin", "conflict")), (1, 2, 6)),
         check, 7200, 40000),
    Part("arbitrary", arbitrary(), check, 4800, 24000),
    Part("large", puzzles(BIG, kinds=("dense", "complete", "unique", "corrupt", "badcomplete", "latin")),
         check, 720, 4000),
    Part("more", puzzles(gens.sizes(gens.MORE), kinds=("dense", "complete", "unique", "corrupt", "badcomplete",
                                                       "latin")), check, 80, 600),
    Part("titan", gens.titan(("complete", "few empty", "few empty", "unit empty", "one wrong", "exchanged")),
         check, 40, 400),
]
