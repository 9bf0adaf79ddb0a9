from hypothesis import strategies as st

from sudokutools import solvers
from vlib import gens, ref, sut, tech
from vlib.engine import Part

PROPERTY = "C07"
RULE = ("A case is a candidate state containing a solution (as for C05). The steps of every technique and "
        "of hints() are compared with all occurrences of the pattern found by an independent search over "
        "all units, subsets and lines. Non-trivial: the state has at least one pattern other than a single.")
ASSUMPTIONS = ["states contain a solution, and filled fields have their number as only candidate"]


def check(case, ctx):
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    s = sut.make_used(w, h, case["nums"], case["cands"], case["used"], lambda s: list(solvers.hints(s)))
    base = sut.full(s)
    nums, cands = sut.nummap(s), sut.candmap(s)
    every = []
    more = 0
    for name in tech.NAMES:
        steps = tech.find(name, s)
        ctx.require(all(x[0] == name for x in steps), "%s yields steps of another class", name)
        count = tech.compare(name, g, nums, cands, steps)
        if count:
            ctx.event(name + ": " + ("1" if count == 1 else "2+"))
            more += name not in ("NakedSingle", "HiddenSingle")
        every.extend(steps)
    hints = [sut.step(x) for x in solvers.hints(s)]
    ctx.require(sorted(hints) == sorted(every), "hints: missing %s, additional %s",
                sorted(set(every) - set(hints))[:3], sorted(set(hints) - set(every))[:3])
    ctx.require(sut.full(s) == base, "finding steps changes the sudoku")
    ctx.nontrivial(more)


@st.composite
def cases(draw, sizes, plants=None):
    w, h = draw(sizes)
    return draw(gens.state(w, h, plants))


PARTS = [
    Part("planted", gens.used(cases(gens.STATE_SIZES, plants=2)), check, 8000, 60000),
    Part("mixed", gens.used(cases(gens.STATE_SIZES)), check, 6000, 40000),
    Part("large", gens.used(cases(gens.sizes(gens.LARGE, gens.HUGE))), check, 1000, 8000),
]
