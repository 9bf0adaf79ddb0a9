from hypothesis import strategies as st

from sudokutools.analyze import find_conflicts, is_solved, is_unique
from sudokutools.solve import calc_candidates, dlx
from vlib import gens, ref, sut, tech
from vlib.engine import Part

PROPERTY = "C27"
RULE = ("A case is a sudoku or a candidate state containing a solution, and a random symmetry (relabelling, "
        "row and column permutations inside and of bands, transposition). Answers for the transformed input "
        "must be the transformed answers. Non-trivial: the symmetry is not the identity and the sudoku has "
        "empty fields.")
ASSUMPTIONS = ["at most 40 completions are enumerated"]
LIMIT = 40


def identity(tr):
    return not tr["t"] and all(l == sorted(l) for l in (tr["d"], tr["r"], tr["c"]))


def check_numbers(case, ctx):
    w, h, tr = case["w"], case["h"], case["tr"]
    nums = sut.unpack(case["nums"])
    tw, th = gens.tsize(w, h, tr)
    cell = gens.tcell_map(w, h, tr)
    digit = lambda v: tr["d"][v - 1]
    tn = gens.tnums(w, h, nums, tr)
    a, b = sut.make(w, h, nums), sut.make(tw, th, tn)
    ctx.require(is_solved(a) == is_solved(b), "is_solved differs")
    ca = {(cell[x], cell[y], digit(v)) for x, y, v in find_conflicts(a)}
    ctx.require(ca == set(find_conflicts(b)), "conflicts differ")
    for (r, c), (r2, c2) in cell.items():
        x = {digit(v) for v in calc_candidates(a, r, c)}
        ctx.require(x == set(calc_candidates(b, r2, c2)), "candidates of (%d, %d) and (%d, %d) differ", r, c, r2, c2)
    try:
        ref.solutions(w, h, nums, limit=LIMIT + 1, max_nodes=5000)
    except ref.Limit:
        ctx.event("completions not compared")
        return

    def some(s):
        out = []
        for x in dlx(s):
            out.append(tuple(sut.flat(x)))
            if len(out) > LIMIT:
                break
        return out
    sa, sb = some(a), some(b)
    ctx.require(len(sa) == len(sb), "%d and %d completions", len(sa), len(sb))
    if len(sa) <= LIMIT:
        ctx.require({tuple(gens.tnums(w, h, x, tr)) for x in sa} == set(sb), "completions differ")
    ctx.require(is_unique(a) == is_unique(b), "is_unique differs")
    ctx.event("completions: %s" % ("0", "1", "2+")[min(2, len(sa))])
    ctx.event("transposed: %s" % tr["t"])
    ctx.nontrivial(not identity(tr) and 0 in nums)


def check_steps(case, ctx):
    w, h, tr = case["w"], case["h"], case["tr"]
    n = w * h
    nums = sut.unpack(case["nums"])
    tw, th = gens.tsize(w, h, tr)
    cell = gens.tcell_map(w, h, tr)
    digit = lambda v: tr["d"][v - 1]
    tc = [0] * (n * n)
    for (r, c), (r2, c2) in cell.items():
        tc[r2 * n + c2] = sut.mask(digit(v) for v in sut.values(case["cands"][r * n + c]))
    a = sut.make(w, h, nums, case["cands"])
    b = sut.make(tw, th, gens.tnums(w, h, nums, tr), tc)
    steps = 0
    for name in tech.NAMES:
        fa = {(tuple(sorted(cell[x] for x in clues)), tuple(sorted(cell[x] for x in aff)),
               tuple(sorted(digit(v) for v in vals))) for _, clues, aff, vals in tech.find(name, a)}
        fb = {(tuple(sorted(clues)), tuple(sorted(aff)), tuple(sorted(vals)))
              for _, clues, aff, vals in tech.find(name, b)}
        ctx.require(fa == fb, "%s: only in the first %s, only in the transformed %s", name,
                    sorted(fa - fb)[:2], sorted(fb - fa)[:2])
        if fa:
            ctx.event(name)
            steps += 1
    ctx.nontrivial(not identity(tr) and steps)


@st.composite
def number_cases(draw, sizes):
    w, h = draw(sizes)
    kind, nums = draw(gens.puzzle(w, h))
    return {"w": w, "h": h, "nums": sut.pack(nums), "tr": draw(gens.transform(w, h))}


@st.composite
def step_cases(draw, sizes):
    w, h = draw(sizes)
    case = draw(gens.state(w, h))
    case["tr"] = draw(gens.transform(w, h))
    return case


PARTS = [
    Part("numbers", number_cases(gens.WEIGHTED_SIZES), check_numbers, 6000, 40000),
    Part("steps", step_cases(gens.STATE_SIZES), check_steps, 6000, 40000),
    Part("large numbers", number_cases(gens.sizes(gens.LARGE, gens.HUGE)), check_numbers, 1000, 8000),
    Part("large steps", step_cases(gens.sizes(gens.LARGE, gens.HUGE)), check_steps, 1000, 8000),
]
