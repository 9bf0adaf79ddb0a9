from hypothesis import strategies as st

from sudokutools import solvers
from vlib import gens, ref, sut, tech
from vlib.engine import Part

PROPERTY = "C08"
RULE = ("A case is a sudoku of any kind (unique of every difficulty level, ambiguous, without solution, "
        "conflicting, complete) with arbitrary old candidates. The result of solve() is compared with the "
        "completions found by the reference, the reported steps are replayed on a copy, and at the first "
        "guess no other pattern may exist. Non-trivial: more than singles are needed, or the sudoku is not "
        "unique.")
ASSUMPTIONS = ["sudokus for which the reference needs more than 6000 search nodes are skipped"]


def check(case, ctx):
    # the same text with other boxes, right before
    gens.with_twin(case, lambda c: check(c, ctx))
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    nums = sut.unpack(case["nums"])
    try:
        sols = ref.solutions(w, h, nums, limit=2, max_nodes=6000)
    except ref.Limit as e:
        sols = e.found
        if not sols:
            ctx.event("skipped: too hard")
            return
        sols = sols + [None]
    s = sut.make_used(w, h, nums, case["cands"], case.get("used") if sols else 0, solvers.solve, sols and sols[0])
    base = sut.full(s)
    steps = []

    def report(step):
        # what a report function returns does not matter
        steps.append(step)
        return [None, True, step, steps][sum(nums) % 4]
    result = solvers.solve(s, report)
    ctx.require(sut.full(s) == base, "solve changes the sudoku")
    got = sut.flat(result)
    ctx.require(sut.size(result) == (w, h), "solve returns another size")
    ctx.require(all(not a or a == b for a, b in zip(nums, got)), "solve changes a given number")
    if sols:
        ctx.require(ref.is_complete_valid(w, h, got), "solve returns no valid solution: %s", got)
        if len(sols) == 1:
            ctx.require(tuple(got) == sols[0], "solve returns another solution")
    # the result belongs to the caller
    sut.spoil(result)
    # without a report function: the same
    ctx.require(sut.flat(solvers.solve(s)) == got, "solve without report returns another result")

    # replay
    names = [type(x).__name__ for x in steps]
    copy = s.copy()
    for i, step in enumerate(steps):
        before = sut.flat(copy)
        step.apply(copy)
        after = sut.flat(copy)
        for a, b, given in zip(before, after, nums):
            ctx.require(not given or b == given, "step %d (%s) changes a given number", i, step)
    ctx.require(sut.flat(copy) == got, "the reported steps do not lead to the result")

    # guessing only if nothing else is possible
    if "Bruteforce" in names:
        state = s.copy()
        for cell in state.filled():
            state.set_candidates(cell[0], cell[1], {state[cell]})
        fresh = []
        other = solvers.solve(s, fresh.append)
        first = names.index("Bruteforce")
        for step in fresh[:first]:
            step.apply(state)
        m, c = sut.nummap(state), sut.candmap(state)
        for name in tech.NAMES:
            ctx.require(not tech.has_pattern(name, g, m, c),
                        "guessing (step %d), although there is a %s", first, name)
        ctx.event("guess with other steps before" if any(
            n not in ("CalculateCandidates", "Bruteforce") for n in names) else "guess only")
    ctx.event("kind: " + case["kind"])
    ctx.event("completions: %s" % ("0", "1", "2+")[len(sols)])
    hard = set(names) - {"CalculateCandidates", "NakedSingle", "HiddenSingle"}
    for n in set(names):
        ctx.event("uses " + n)
    ctx.nontrivial(bool(hard) or len(sols) != 1)


@st.composite
def cases(draw, sizes, kinds):
    w, h = draw(sizes)
    n = w * h
    kind = draw(st.sampled_from(kinds))
    if kind == "level" and gens.has_minimal(w, h):
        nums = draw(gens.unique(w, h, draw(st.sampled_from(gens.levels_for(w, h)))))[1]
    else:
        kind, nums = draw(gens.puzzle(w, h, kinds=(kind if kind != "level" else "unique",)))
    if draw(st.booleans()):
        m = draw(gens.bits(n * n * n))
        cands = [m >> (i * n) & ((1 << n) - 1) for i in range(n * n)]
    else:
        cands = [0] * (n * n)
    return {"w": w, "h": h, "kind": kind, "nums": sut.pack(nums), "cands": cands,
            "twin": draw(st.integers(0, 3)) == 0}


PARTS = [
    Part("solvable", gens.used(cases(
        gens.WEIGHTED_SIZES, ("level", "level", "unique", "drop", "dense", "complete")), (1, 6)),
         check, 5000, 60000),
    Part("any", cases(gens.WEIGHTED_SIZES, ("corrupt", "conflict", "badcomplete", "latin", "drop", "sparse")),
         check, 3125, 40000),
    Part("levels", cases(gens.sizes(gens.LARGE), ("level",)), check, 240, 4000),
    Part("large", cases(gens.sizes(gens.LARGE, gens.HUGE), ("unique", "unique", "drop", "dense", "corrupt")),
         check, 160, 3000),
    Part("more", cases(gens.sizes(gens.MORE), ("unique", "drop", "dense", "corrupt")), check, 48, 800),
]
