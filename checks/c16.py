import itertools

from hypothesis import strategies as st

from sudokutools.sudoku import Sudoku
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C16"
RULE = ("A case is a history of operations on a growing set of sudokus (mixed sizes): write numbers and "
        "candidates (from lists, sets, generators which are changed afterwards), remove candidates, copy, "
        "compare, iterate. After every operation every sudoku is compared field by field with a table "
        "model. Non-trivial: at least one copy or two sudokus, and at least two writes.")
ASSUMPTIONS = ["sudokus with the same number of fields but different box shapes are not compared with =="]


class Foreign(object):
    def __getitem__(self, key):
        raise KeyError(key)


class Small(object):
    def __getitem__(self, key):
        raise IndexError(key)


class Pair(object):
    """Any object which can be accessed by other[row, col]."""

    def __init__(self, nums, n):
        self.nums, self.n = nums, n

    def __getitem__(self, key):
        return self.nums[key[0] * self.n + key[1]]


def iterable(kind, vals):
    if kind == 0:
        return list(vals)
    if kind == 1:
        return set(vals)
    if kind == 2:
        return tuple(vals)
    if kind == 3:
        return frozenset(vals)
    if kind == 4:
        return (v for v in list(vals))
    return dict.fromkeys(vals, 0)


def spoil(obj):
    """Change the object passed in afterwards."""
    if isinstance(obj, list):
        obj.append(99)
        obj[:1] = []
    elif isinstance(obj, set):
        obj.clear()
        obj.add(98)
    elif isinstance(obj, dict):
        obj.clear()


def check(case, ctx):
    pool, models = [], []

    def add(w, h, nums, cands, obj):
        pool.append(obj)
        models.append([w, h, list(nums), list(cands)])

    def compare(what):
        for i, (s, m) in enumerate(zip(pool, models)):
            w, h, nums, cands = m
            n = w * h
            ctx.require(sut.size(s) == (w, h), "%s: size of sudoku %d", what, i)
            ctx.require(sut.flat(s) == nums, "%s: numbers of sudoku %d", what, i)
            ctx.require(sut.cands(s) == cands, "%s: candidates of sudoku %d", what, i)

    for w, h, how in case["new"]:
        n = w * h
        if how == 0 and (w, h) == (3, 3):
            s = Sudoku()
        elif how == 1:
            size = [w, h]
            s = Sudoku(size)
            size[:] = [7, 7]
        else:
            s = Sudoku(box_size=(w, h))
        add(w, h, [0] * (n * n), [frozenset()] * (n * n), s)
    compare("new")
    writes = copies = 0
    for op in case["ops"]:
        name, k = op[0], op[1] % len(pool)
        s, m = pool[k], models[k]
        w, h, nums, cands = m
        n = w * h
        i = op[2] % (n * n)
        r, c = i // n, i % n
        if name == "set":
            v = op[3] % (n + 1)
            if op[4] % 2:
                s[r, c] = v
            else:
                s.set_number(r, c, v)
            nums[i] = v
            writes += 1
        elif name == "fill":
            # many writes at once
            for j in range(n * n):
                if (j + op[3]) % (1 + op[4] % 5) == 0:
                    s[j // n, j % n] = 1 + (j * (op[3] + 1)) % n
                    nums[j] = 1 + (j * (op[3] + 1)) % n
            writes += 1
        elif name == "cands":
            vals = [v for v in sut.values(op[3]) if v <= n]
            obj = iterable(op[4], vals)
            s.set_candidates(r, c, obj)
            cands[i] = frozenset(vals)
            spoil(obj)
            writes += 1
        elif name == "share":
            # the same object for two fields
            vals = {v for v in sut.values(op[3]) if v <= n}
            j = op[4] % (n * n)
            s.set_candidates(r, c, vals)
            s.set_candidates(j // n, j % n, vals)
            vals.add(1)
            vals.discard(2)
            cands[i] = cands[j] = frozenset(v for v in sut.values(op[3]) if v <= n)
            s.remove_candidates(r, c, [1])
            cands[i] = cands[i] - {1}
            if i == j:
                cands[j] = cands[i]
        elif name == "remove":
            vals = [v for v in sut.values(op[3]) if v <= n + 2]
            obj = iterable(op[4], vals)
            s.remove_candidates(r, c, obj)
            cands[i] = cands[i] - set(vals)
            spoil(obj)
            writes += 1
        elif name == "read":
            ctx.require(s[r, c] == nums[i] and s.get_number(r, c) == nums[i], "reading (%d, %d)", r, c)
            x = s.get_candidates(r, c)
            ctx.require(set(x) == set(cands[i]), "candidates of (%d, %d)", r, c)
            if isinstance(x, set):
                x.add(77)
            for key in ((n, c), (r, n), (n + 3, 0)):
                try:
                    s[key]
                except IndexError:
                    pass
                else:
                    ctx.fail("reading %s raises no IndexError" % (key,))
                try:
                    s[key] = 1
                except IndexError:
                    pass
                else:
                    ctx.fail("writing %s raises no IndexError" % (key,))
        elif name == "copy":
            incl = bool(op[3] % 2)
            t = s.copy(include_candidates=incl) if incl or op[4] % 2 else s.copy()
            ctx.require(t is not s, "copy returns the same object")
            ctx.require(t == s and s == t and not (t != s), "a copy is not equal")
            add(w, h, nums, cands if incl else [frozenset()] * (n * n), t)
            copies += 1
        elif name == "iterate":
            cells = ref.geo(w, h).cells
            ctx.require(list(s) == cells, "iteration")
            ctx.require(list(s.empty()) == [x for x, v in zip(cells, nums) if not v], "empty()")
            ctx.require(list(s.filled()) == [x for x, v in zip(cells, nums) if v], "filled()")
            ctx.require(s.count() == sum(1 for v in nums if v), "count()")
            ctx.require(len(s) == n * n, "len()")
            ctx.require(tuple(s.indices) == tuple(range(n)) and tuple(s.numbers) == tuple(range(1, n + 1)),
                        "indices or numbers")
        elif name == "nested":
            # several iterators of the same sudokus, used alternately
            cells = ref.geo(w, h).cells
            ctx.require([(x, y) for x in s for y in itertools.islice(s, 3)] == [(x, y) for x in cells for y in cells[:3]],
                        "nested iteration")
            o = op[3] % len(pool)
            t, (w2, h2, nums2, cands2) = pool[o], models[o]
            cells2 = ref.geo(w2, h2).cells
            its = [(iter(s), cells), (s.empty(), [x for x, v in zip(cells, nums) if not v]),
                   (s.filled(), [x for x, v in zip(cells, nums) if v]), (iter(s), cells),
                   (iter(t), cells2), (t.empty(), [x for x, v in zip(cells2, nums2) if not v]),
                   (t.filled(), [x for x, v in zip(cells2, nums2) if v]), (s.empty(), None), (s.filled(), None)]
            if (w, h) == (w2, h2):
                d = [x for x, a, b in zip(cells, nums, nums2) if a != b]
                its += [(s.diff(t), d), (t.diff(s), d)]
            its = [(iter(a), b) for a, b in its]
            got = [[] for x in its]
            alive = list(range(len(its)))
            step = op[4]
            while alive:
                step += 1
                j = alive[step * (1 + op[4]) % len(alive)]
                try:
                    got[j].append(next(its[j][0]))
                except StopIteration:
                    alive.remove(j)
                else:
                    if step % 7 == 0:
                        # some reading in between
                        s.count(), s == t, list(s.empty()), len(s)
            for j, (a, b) in enumerate(its):
                if b is None:
                    b = its[1][1] if j == 7 else its[2][1]
                ctx.require(got[j] == b, "iterators used alternately: %s instead of %s", got[j], b)
        elif name == "compare":
            o = op[3] % len(pool)
            t, (w2, h2, nums2, cands2) = pool[o], models[o]
            if (w, h) == (w2, h2):
                same = nums == nums2
                ctx.require((s == t) is same and (t == s) is same and (s != t) is not same, "== of %d and %d", k, o)
                ctx.require(bool(s.equals(t)) is same, "equals of %d and %d", k, o)
                ctx.require(bool(s.equals(t, candidates=True)) is (same and cands == cands2),
                            "equals with candidates of %d and %d", k, o)
                d = list(s.diff(t))
                want = [x for x, a, b in zip(ref.geo(w, h).cells, nums, nums2) if a != b]
                ctx.require(d == want, "diff of %d and %d: %s", k, o, d)
                ctx.event("compared: %s" % ("equal" if same else "different"))
            elif n != w2 * h2:
                ctx.require(s != t and t != s and not (s == t) and not (t == s), "sudokus of different size are equal")
                ctx.event("compared: other size")
        elif name == "foreign":
            for x in (None, 5, "12", [], [[1]], {}, object(), Foreign(), Small(), 1.5, {(0, 0): nums[0]} if n > 1 else {}):
                ctx.require(not (s == x) and s != x, "equal to %r", x)
            x = Pair(nums, n)
            ctx.require(s == x, "not equal to an object with the same fields")
            d = {cell: v for cell, v in zip(ref.geo(w, h).cells, nums)}
            ctx.require(s == d and list(s.diff(d)) == [], "not equal to a dict with the same fields")
            d[(r, c)] = nums[i] + 1
            ctx.require(s != d and list(s.diff(d)) == [(r, c)], "equal to a dict with another number")
        compare("%s" % op)
    ctx.event("sudokus: %d" % min(len(pool), 5))
    ctx.nontrivial(writes >= 2 and (copies or len(pool) > 1))


IDX = st.integers(0, 80)
K = st.integers(0, 5)
VALS = st.integers(0, 1023)
OP = st.one_of(
    st.tuples(st.just("set"), K, IDX, st.integers(0, 12), st.integers(0, 1)),
    st.tuples(st.just("fill"), K, IDX, st.integers(0, 12), st.integers(0, 4)),
    st.tuples(st.just("cands"), K, IDX, VALS, st.integers(0, 5)),
    st.tuples(st.just("cands"), K, IDX, VALS, st.integers(0, 5)),
    st.tuples(st.just("share"), K, IDX, VALS, IDX),
    st.tuples(st.just("remove"), K, IDX, VALS, st.integers(0, 5)),
    st.tuples(st.just("read"), K, IDX, st.just(0), st.just(0)),
    st.tuples(st.just("copy"), K, IDX, st.integers(0, 1), st.integers(0, 1)),
    st.tuples(st.just("iterate"), K, IDX, st.just(0), st.just(0)),
    st.tuples(st.just("compare"), K, IDX, K, st.just(0)),
    st.tuples(st.just("nested"), K, IDX, K, st.integers(0, 4)),
    st.tuples(st.just("compare"), K, IDX, K, st.just(0)),
    st.tuples(st.just("foreign"), K, IDX, st.just(0), st.just(0)),
).map(list)


@st.composite
def histories(draw):
    new = draw(st.lists(st.tuples(st.sampled_from([(2, 2), (2, 3), (3, 3), (1, 2), (1, 1), (3, 1), (3, 2), (2, 5)]),
                                  st.integers(0, 2)).map(lambda x: [x[0][0], x[0][1], x[1]]),
                        min_size=1, max_size=3))
    if draw(st.integers(0, 2)) == 0:
        new.append(new[0])
    return {"new": new, "ops": draw(st.lists(OP, min_size=3, max_size=20))}


PARTS = [Part("histories", histories(), check, 36000, 100000)]
