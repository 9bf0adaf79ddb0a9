import random

from hypothesis import strategies as st

from vlib import gens, ref, sut, tech
from vlib.engine import Part

PROPERTY = "C06"
RULE = ("A case is a candidate state containing a solution (as for C05) and a sequence of techniques. "
        "Every step found is applied to a copy of the state it was found in, every step of a pass which "
        "applies steps while finding them is compared with the state right before, and in some cases steps are "
        "found first and applied in another order (also previewed steps); the change of the "
        "sudoku must be exactly the announced one. Non-trivial: at least one elimination step.")
ASSUMPTIONS = []


def verify(name, step, before, after, ctx, late=False):
    """before, after: (nums, cands) dicts."""
    n_, clues, affected, values = sut.step(step)
    g = before[2]
    bn, bc = before[:2]
    an, ac = after[:2]
    if name in ("NakedSingle", "HiddenSingle", "Bruteforce"):
        ctx.require(len(affected) == 1 and len(values) == 1, "%s: malformed", step)
        cell, v = affected[0], values[0]
        ctx.require(late or not bn[cell], "%s sets a filled field", step)
        want_n = dict(bn)
        want_n[cell] = v
        want_c = dict(bc)
        want_c[cell] = frozenset([v])
        for p in g.peers[cell]:
            want_c[p] = bc[p] - {v}
    else:
        ctx.require(len(affected) > 0, "%s affects no field", step)
        ctx.require(len(set(affected)) == len(affected), "%s lists a field twice", step)
        want_n = bn
        want_c = dict(bc)
        for cell in affected:
            if name.startswith("Hidden"):
                want_c[cell] = bc[cell] & set(values)
            else:
                want_c[cell] = bc[cell] - set(values)
            ctx.require(late or want_c[cell] != bc[cell], "%s changes nothing at %s, which it lists as affected",
                        step, cell)
    ctx.require(an == want_n, "%s: wrong numbers: %s", step,
                {c: (an[c], want_n[c]) for c in an if an[c] != want_n[c]})
    ctx.require(ac == want_c, "%s: wrong candidates (got, expected): %s", step,
                {c: (sorted(ac[c]), sorted(want_c[c])) for c in ac if ac[c] != want_c[c]})


def snap(s, g):
    return sut.nummap(s), sut.candmap(s), g


def check(case, ctx):
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    s = sut.make(w, h, case["nums"], case["cands"])
    elim = 0
    for t, inline in case["ops"]:
        name = (tech.NAMES + ["Bruteforce"])[t]
        cls = tech.cls(name)
        base = snap(s, g)
        steps = list(cls.find(s))
        ctx.require(snap(s, g) == base, "%s.find changes the sudoku", name)
        for step in steps[:12]:
            ctx.event("fresh: " + name)
            elim += name not in ("NakedSingle", "HiddenSingle", "Bruteforce")
            c = s.copy(include_candidates=True)
            step.apply(c)
            verify(name, step, base, snap(c, g), ctx)
            # a second time on another copy: the same change
            c2 = s.copy(include_candidates=True)
            step.apply(c2)
            ctx.require(sut.full(c2) == sut.full(c), "%s: applied to an equal sudoku differs", step)
            ctx.require(snap(s, g) == base, "%s: applied to a copy changes the original", step)
        if case.get("late") is not None and name != "Bruteforce":
            # found first, applied one after another
            c = s.copy(include_candidates=True)
            steps = list(cls.find(s))
            random.Random(case["late"]).shuffle(steps)
            before = snap(c, g)
            for step in steps[:12]:
                step.apply(c)
                after = snap(c, g)
                verify(name, step, before, after, ctx, late=True)
                before = after
                ctx.event("late: " + name)
            ctx.require(snap(s, g) == base, "%s: applied to a copy changes the original", name)
        if inline:
            before = base
            for step in cls.find(s):
                step.apply(s)
                after = snap(s, g)
                verify(name, step, before, after, ctx)
                before = after
                ctx.event("inline: " + name)
    ctx.nontrivial(elim)


@st.composite
def cases(draw, sizes):
    w, h = draw(sizes)
    case = draw(gens.state(w, h))
    ops = [[t, draw(st.booleans())] for t in draw(st.permutations(range(len(tech.NAMES))))]
    ops = ops[:draw(st.integers(1, len(ops)))]
    if draw(st.integers(0, 3)) == 0:
        ops.append([len(tech.NAMES), True])
    case["ops"] = ops
    case["late"] = draw(st.one_of(st.none(), st.integers(0, 1000)))
    return case


PARTS = [
    Part("states", cases(gens.STATE_SIZES), check, 12000, 60000),
    Part("large", cases(gens.sizes(gens.LARGE, gens.HUGE)), check, 1000, 12000),
]
