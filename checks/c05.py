from hypothesis import strategies as st

from sudokutools import solvers
from vlib import gens, sut, tech
from vlib.engine import Part

PROPERTY = "C05"
RULE = ("A case is a candidate state containing a known solution (from unique and ambiguous sudokus, "
        "or arbitrary candidates; random and planted eliminations) and a sequence of techniques, each "
        "applied while finding, all at once after collecting, in another order, only in part, or by "
        "apply_all. After every applied step the solution must still be contained. Non-trivial: at "
        "least one step has been applied that is not a single.")
ASSUMPTIONS = []


def contained(s, sol, ctx, what):
    nums = sut.flat(s)
    for i, (v, m) in enumerate(zip(nums, sut.cands(s))):
        ctx.require(v in (0, sol[i]), "%s sets field %d to %d, the solution is %d", what, i, v, sol[i])
        ctx.require(sol[i] in m, "%s removes the solution %d from field %d", what, sol[i], i)


def check(case, ctx):
    w, h = case["w"], case["h"]
    sol = sut.unpack(case["sol"])
    s = sut.make_used(w, h, case["nums"], case["cands"], case["used"], lambda s: list(solvers.hints(s)))
    applied = 0
    for t, mode, order in case["ops"]:
        name = tech.NAMES[t % len(tech.NAMES)]
        cls = tech.cls(name)
        count = 0
        if mode == 0:      # while finding, as solve() does
            for step in cls.find(s):
                step.apply(s)
                count += 1
                contained(s, sol, ctx, repr(step))
        elif mode in (1, 2, 3):
            steps = list(cls.find(s))
            if mode == 2:
                steps = [steps[i % len(steps)] for i in order] if steps else []
            elif mode == 3:
                steps = steps[::-1]
            for step in steps:
                step.apply(s)
                count += 1
                contained(s, sol, ctx, repr(step))
        elif mode == 4:
            before = sut.full(s)
            cls.apply_all(s)
            contained(s, sol, ctx, name + ".apply_all")
            count = before != sut.full(s)
        elif mode == 5:    # only the first one
            for step in cls.find(s):
                step.apply(s)
                count += 1
                contained(s, sol, ctx, repr(step))
                break
        else:              # all hints of all techniques, collected
            for step in list(solvers.hints(s)):
                step.apply(s)
                contained(s, sol, ctx, repr(step))
                ctx.event("hint applied: " + type(step).__name__)
                count += type(step).__name__ not in ("NakedSingle", "HiddenSingle")
        if count:
            ctx.event("applied: " + (name if mode < 6 else "hints"))
            applied += mode >= 6 or t >= 2
    ctx.nontrivial(applied)


@st.composite
def cases(draw, sizes):
    w, h = draw(sizes)
    case = draw(gens.state(w, h))
    case["ops"] = draw(st.lists(st.tuples(
        st.integers(0, len(tech.NAMES) - 1), st.integers(0, 6),
        st.lists(st.integers(0, 20), min_size=1, max_size=4)).map(list), min_size=1, max_size=12))
    return case


@st.composite
def sweeps(draw, sizes):
    """All techniques once or twice in a random order, one mode."""
    w, h = draw(sizes)
    case = draw(gens.state(w, h))
    mode = draw(st.integers(0, 5))
    order = draw(st.lists(st.integers(0, 20), min_size=1, max_size=6))
    ops = [[t, mode, order] for t in draw(st.permutations(range(2, len(tech.NAMES))))]
    case["ops"] = ops
    return case


PARTS = [
    Part("sequences", gens.used(cases(gens.STATE_SIZES)), check, 12000, 60000),
    Part("sweeps", gens.used(sweeps(gens.STATE_SIZES)), check, 7500, 40000),
    Part("large", gens.used(sweeps(gens.sizes(gens.LARGE, gens.HUGE))), check, 1000, 12000),
]
