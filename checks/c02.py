from hypothesis import strategies as st

from sudokutools import analyze, solve, solvers
from sudokutools.sudoku import view
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C02"
RULE = ("A case is a history: one to three sudokus (mixed sizes and kinds, with arbitrary "
        "candidates) and a sequence of operations - start enumerations with dlx or bruteforce, "
        "advance or drain any of them in any order, change any result or copy handed out, and "
        "call solving, analysing, rating, hinting, copying, printing or encoding functions - or edit a "
        "sudoku and go on; a sudoku may be followed by one with the same text, but other boxes. After "
        "every operation all sudokus of the caller and all results are compared with their model. "
        "Non-trivial: at least two enumerations or calls on two sudokus, or an enumeration advanced "
        "after a result was changed.")
ASSUMPTIONS = ["sudokus with more than 60 completions are only enumerated in part"]
LIMIT = 60


class World(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.sudokus = []
        self.models = []
        self.sols = []
        self.first = {}
        for s in case["sudokus"]:
            obj = sut.make(s["w"], s["h"], s["nums"], s["cands"])
            self.sudokus.append(obj)
            self.models.append(((s["w"], s["h"]), sut.unpack(s["nums"]),
                                [frozenset(sut.values(m)) for m in s["cands"]]))
            self.sols.append(self.solutions(s["w"], s["h"], sut.unpack(s["nums"])))
        self.enums = []      # [generator, sudoku index, seen set, finished]
        self.results = []    # [object, model]

    @staticmethod
    def solutions(w, h, nums):
        return ref.solutions(w, h, nums, limit=LIMIT + 1, max_nodes=6000)

    def edit(self, i, k, v, m):
        """The caller changes a sudoku (while no enumeration is running on it)."""
        if any(e[1] == i and not e[3] for e in self.enums):
            return False
        (w, h), nums, cands = self.models[i]
        n = w * h
        k, v = k % (n * n), v % (n + 1)
        new = list(nums)
        new[k] = v
        try:
            sols = self.solutions(w, h, new)
        except ref.Limit:
            return False
        cell = divmod(k, n)
        self.sudokus[i][cell] = v
        nums[k] = v
        if m is not None:
            cands[k] = frozenset(x for x in sut.values(m) if x <= n)
            self.sudokus[i].set_candidates(cell[0], cell[1], cands[k])
        self.sols[i] = sols
        self.first = {key: a for key, a in self.first.items() if key[1] != i}
        return True

    def hold(self, obj):
        self.results.append([obj, sut.full(obj)])

    def compare(self, what):
        for i, (s, m) in enumerate(zip(self.sudokus, self.models)):
            got = sut.full(s)
            self.ctx.require(got[:2] == m[:2], "%s changed the numbers of sudoku %d", what, i)
            self.ctx.require(got == m, "%s changed the candidates of sudoku %d", what, i)
        for i, (obj, m) in enumerate(self.results):
            self.ctx.require(sut.full(obj) == m, "%s changed result %d", what, i)

    def advance(self, k):
        e = self.enums[k]
        gen, i, seen, finished = e
        if finished:
            return False
        sols = self.sols[i]
        exact = len(sols) <= LIMIT
        try:
            sol = next(gen)
        except StopIteration:
            e[3] = True
            self.ctx.require(exact and seen == set(sols),
                             "enumeration of sudoku %d ended after %d completions, there are %d",
                             i, len(seen), len(sols))
            return False
        t = tuple(sut.flat(sol))
        (w, h), nums, _ = self.models[i]
        self.ctx.require(sut.size(sol) == (w, h), "wrong size")
        self.ctx.require(ref.is_complete_valid(w, h, t) and
                         all(not v or v == x for v, x in zip(nums, t)),
                         "enumeration of sudoku %d yields an invalid completion", i)
        self.ctx.require(t not in seen, "enumeration of sudoku %d repeats a completion", i)
        seen.add(t)
        self.hold(sol)
        return True


def steps_of(s):
    steps = []
    solvers.solve(s, steps.append)
    return steps


def call(world, name, i):
    ctx = world.ctx
    s = world.sudokus[i]
    (w, h), nums, cands = world.models[i]
    sols = world.sols[i]
    if name == "is_unique":
        got = analyze.is_unique(s)
        ctx.require(got == (len(sols) == 1), "is_unique of sudoku %d is %r", i, got)
        return
    if name == "is_solved":
        got = analyze.is_solved(s)
        ctx.require(got == ref.is_complete_valid(w, h, nums), "is_solved is %r", got)
        return
    if name == "conflicts":
        got = sorted(analyze.find_conflicts(s))
        ctx.require(got == sorted(ref.conflicts(w, h, nums)), "find_conflicts is wrong")
        return
    if name == "calc":
        got = []
        for r, c in ref.geo(w, h).cells:
            x = solve.calc_candidates(s, r, c)
            got.append(frozenset(x))
            if isinstance(x, set):
                x.clear()        # results are the caller's
        want = ref.candidates(w, h, nums)
        ctx.require(got == [want[cell] for cell in ref.geo(w, h).cells], "calc_candidates is wrong")
        return
    if name == "surrounding":
        for r, c in ref.geo(w, h).cells:
            x = s.surrounding_of(r, c, include=False)
            ctx.require(set(x) == ref.geo(w, h).peers[(r, c)], "surrounding_of is wrong")
            if isinstance(x, list):
                x.reverse()
                x.pop() if x else None
        return
    if name == "copy" or name == "copy_candidates":
        c = s.copy(include_candidates=(name == "copy_candidates"))
        ctx.require(sut.flat(c) == nums, "copy differs")
        if name == "copy_candidates":
            ctx.require(sut.cands(c) == cands, "candidates of the copy differ")
        world.hold(c)
        return
    if name == "solve":
        steps = []
        r = solvers.solve(s, steps.append)
        got = (sut.flat(r), [sut.step(x) for x in steps])
        if sols:
            ctx.require(ref.is_complete_valid(w, h, got[0]), "solve returns an invalid sudoku")
        world.hold(r)
    elif name == "rate":
        got = analyze.rate(s)
        want = max([analyze.RATINGS[type(x)] for x in steps_of(s)] + [0])
        ctx.require(got == want, "rate is %r, %r by the steps reported", got, want)
    elif name == "score":
        got = analyze.score(s)
        want = sum(analyze.RATINGS[type(x)] for x in steps_of(s))
        ctx.require(got == want, "score is %r, %r by the steps reported", got, want)
    elif name == "hints":
        got = sorted(sut.step(x) for x in solvers.hints(s))
    elif name == "view":
        got = view(s)
    elif name == "str":
        got = str(s)
    elif name == "encode":
        got = s.encode(include_candidates=True)
    elif name == "iterate":
        got = (list(s), list(s.empty()), list(s.filled()), s.count(), len(s), list(s.diff(s)), s == s)
    else:
        raise KeyError(name)
    # the same answer every time
    key = (name, i)
    if key in world.first:
        ctx.require(world.first[key] == got, "%s of sudoku %d differs when repeated", name, i)
    else:
        world.first[key] = got


CALLS = ["is_unique", "is_solved", "conflicts", "calc", "copy", "copy_candidates", "solve", "rate",
         "score", "hints", "view", "str", "encode", "iterate", "surrounding"]


def check(case, ctx):
    try:
        world = World(case, ctx)
    except ref.Limit:
        ctx.event("skipped: too hard")
        return
    changed = False
    advanced_after = False
    used = set()
    for op in case["ops"]:
        name = op[0]
        if name == "start":
            i = op[1] % len(world.sudokus)
            f = solve.dlx if op[2] else solve.bruteforce
            world.enums.append([f(world.sudokus[i]), i, set(), False])
            used.add(i)
        elif name in ("next", "drain"):
            if not world.enums:
                continue
            k = op[1] % len(world.enums)
            if changed and not world.enums[k][3]:
                advanced_after = True
            todo = 1 if name == "next" else (
                LIMIT + 1 if len(world.sols[world.enums[k][1]]) <= LIMIT else 3)
            while todo and world.advance(k):
                todo -= 1
        elif name == "mutate":
            if not world.results:
                continue
            obj, m = world.results[op[1] % len(world.results)]
            (w, h), nums, cands = m
            n = w * h
            i = op[2] % (n * n)
            v = op[3] % (n + 1)
            obj[i // n, i % n] = v
            cs = frozenset(x for x in sut.values(op[4]) if x <= n)
            obj.set_candidates(i // n, i % n, cs)
            nums[i] = v
            cands[i] = cs
            changed = True
        elif name == "edit":
            if world.edit(op[1] % len(world.sudokus), op[2], op[3], op[4]):
                ctx.event("edited")
        elif name == "call":
            i = op[1] % len(world.sudokus)
            call(world, CALLS[op[2] % len(CALLS)], i)
            used.add(i)
        world.compare("%r" % (op,))
    ctx.event("enumerations: %d" % min(3, len(world.enums)))
    ctx.event("results: %s" % ("0" if not world.results else "1+"))
    ctx.event("advanced after change: %s" % advanced_after)
    ctx.nontrivial(len(world.enums) >= 2 or len(used) >= 2 or advanced_after)


@st.composite
def sudoku(draw, sizes):
    w, h = draw(sizes)
    n = w * h
    if draw(st.integers(0, 3)) == 0 and n > 1:
        s = draw(gens.state(w, h))
        return {"w": w, "h": h, "nums": s["nums"], "cands": s["cands"]}
    kind, nums = draw(gens.puzzle(w, h, kinds=("unique", "drop", "drop", "corrupt", "conflict",
                                               "complete", "badcomplete", "dense")))
    which = draw(st.integers(0, 3))
    if which == 0:
        cands = [0] * (n * n)
    elif which == 1:
        c = ref.candidates(w, h, nums)
        cands = [sut.mask(c[cell]) for cell in ref.geo(w, h).cells]
    elif which == 2:
        cands = [1 << (v - 1) if v else 0 for v in nums]
    else:
        m = draw(gens.bits(n * n * n))
        cands = [m >> (i * n) & ((1 << n) - 1) for i in range(n * n)]
    return {"w": w, "h": h, "nums": sut.pack(nums), "cands": cands}


IDX = st.integers(0, 5)
OP = st.one_of(
    st.tuples(st.just("start"), IDX, st.booleans()),
    st.tuples(st.just("next"), IDX),
    st.tuples(st.just("next"), IDX),
    st.tuples(st.just("drain"), IDX),
    st.tuples(st.just("mutate"), IDX, st.integers(0, 99), st.integers(0, 9), st.integers(0, 511)),
    st.tuples(st.just("edit"), IDX, st.integers(0, 99), st.integers(0, 9),
              st.one_of(st.none(), st.integers(0, 511))),
    st.tuples(st.just("call"), IDX, st.integers(0, len(CALLS) - 1)),
    st.tuples(st.just("call"), IDX, st.integers(0, len(CALLS) - 1)),
).map(list)


@st.composite
def histories(draw, sizes, max_ops):
    k = draw(st.integers(1, 3))
    sudokus = [draw(sudoku(sizes)) for _ in range(k)]
    first = sudokus[0]
    if first["w"] != first["h"] and draw(st.booleans()):
        sudokus.append(dict(first, w=first["h"], h=first["w"]))
    ops = [["start", i, draw(st.booleans())]
           for i in draw(st.lists(IDX, max_size=3))]
    if ops and draw(st.booleans()):
        ops.append(["next", draw(IDX)])
        ops.append(["mutate", 0, draw(st.integers(0, 99)), draw(st.integers(0, 9)), 0])
        ops.append(["next", ops[-2][1]])
    ops += draw(st.lists(OP, min_size=1, max_size=max_ops))
    return {"sudokus": sudokus, "ops": ops}


PARTS = [
    Part("small", histories(gens.sizes([(2, 2), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (1, 2), (1, 1)]), 14),
         check, 12500, 60000),
    Part("mixed", histories(gens.sizes([(2, 2), (3, 3), (3, 3), (2, 4), (4, 2), (2, 5), (3, 2)]), 12),
         check, 6000, 30000),
]
