"""Hypothesis strategies.  All cases are plain JSON values."""
import json
import os
import random

from hypothesis import strategies as st

from vlib import ref
from vlib.sut import DIGITS, mask, pack, unpack

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "data", "bank.json")) as _f:
    BANK = json.load(_f)

#: sizes by kind
TINY = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]
DEGENERATE = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (1, 5), (5, 1)]
SMALL = [(2, 2), (2, 3), (3, 2)]
MEDIUM = [(2, 4), (4, 2), (3, 3)]
LARGE = [(2, 5), (5, 2), (3, 4), (4, 3)]
HUGE = [(2, 6), (6, 2), (4, 4), (3, 5), (5, 3)]
#: numbers of three digits
HUNDRED = [(10, 10), (4, 25), (25, 4), (11, 10), (1, 100), (101, 1), (2, 51)]
#: not in the bank
MORE = [(1, 10), (12, 1), (2, 7), (8, 2), (3, 6), (6, 3), (1, 17), (2, 9), (5, 5), (7, 3)]

#: more numbers than bits of a machine word
TITAN = [(6, 6), (5, 7), (7, 5), (2, 17), (17, 2), (1, 33), (33, 1), (3, 11), (11, 3), (8, 8), (5, 13)]


def sizes(*groups, **kw):
    """Sample sizes; weights: later groups shrink towards earlier ones."""
    flat = []
    for g in groups:
        flat.extend(g)
    return st.sampled_from(flat)


def weighted(*pairs):
    """weighted((3, x), (1, y)): x three times as often as y."""
    out = []
    for k, v in pairs:
        out.extend([v] * k)
    return st.sampled_from(out)


WEIGHTED_SIZES = weighted(
    (2, (2, 2)), (2, (2, 3)), (2, (3, 2)), (2, (2, 4)), (2, (4, 2)), (6, (3, 3)),
    (1, (2, 5)), (1, (5, 2)), (1, (1, 3)), (1, (3, 1)), (1, (1, 1)), (1, (1, 4)),
    (1, (4, 1)), (1, (3, 4)), (1, (4, 3)), (1, (1, 5)), (1, (5, 1)), (1, (1, 2)), (1, (2, 1)))


@st.composite
def line_perm(draw, group, count):
    """Permutation of group*count lines which keeps bands of `group` lines."""
    out = []
    for b in draw(st.permutations(range(count))):
        inner = draw(st.permutations(range(group))) if group > 1 else [0]
        out.extend(b * group + i for i in inner)
    return out


@st.composite
def transform(draw, w, h, trans=None):
    """A symmetry of the sudokus with this box size.

    {"t": transpose?, "d": digit permutation, "r": row order, "c": column order};
    rows and columns are permuted first, then (if t) the grid is transposed to
    box size (h, w)."""
    n = w * h
    t = draw(st.booleans()) if trans is None else trans
    return {"t": t, "d": list(draw(st.permutations(range(1, n + 1)))),
            "r": draw(line_perm(h, w)), "c": draw(line_perm(w, h))}


def tcell_map(w, h, tr):
    """dict: old cell -> new cell"""
    n = w * h
    rinv = {old: new for new, old in enumerate(tr["r"])}
    cinv = {old: new for new, old in enumerate(tr["c"])}
    out = {}
    for r in range(n):
        for c in range(n):
            a, b = rinv[r], cinv[c]
            out[(r, c)] = (b, a) if tr["t"] else (a, b)
    return out


def tsize(w, h, tr):
    return (h, w) if tr["t"] else (w, h)


def tnums(w, h, nums, tr):
    n = w * h
    out = [0] * (n * n)
    for (r, c), (a, b) in tcell_map(w, h, tr).items():
        v = nums[r * n + c]
        out[a * n + b] = tr["d"][v - 1] if v else 0
    return out


def _bank(kind, w, h):
    """Entries for (w, h), plus the transposed ones of (h, w)."""
    out = [(x, False) for x in BANK[kind].get("%d,%d" % (w, h), [])]
    if w != h:
        out += [(x, True) for x in BANK[kind].get("%d,%d" % (h, w), [])]
    if kind == "grids" and not out:
        n = w * h
        out.append((pack([(w * (r % h) + r // h + c) % n + 1 for r in range(n) for c in range(n)]), False))
    return out


@st.composite
def grid(draw, w, h):
    """A complete valid grid (flat list)."""
    x, t = draw(st.sampled_from(_bank("grids", w, h)))
    a, b = (h, w) if t else (w, h)
    tr = draw(transform(a, b, trans=t))
    return tnums(a, b, unpack(x), tr)


def random_grid(w, h, rng):
    """A complete valid grid, using a random.Random."""
    x, t = rng.choice(_bank("grids", w, h))
    a, b = (h, w) if t else (w, h)
    n = a * b

    def lines(group, count):
        return [k * group + i for k in rng.sample(range(count), count) for i in rng.sample(range(group), group)]
    return tnums(a, b, unpack(x), {"t": t, "d": rng.sample(range(1, n + 1), n), "r": lines(b, a), "c": lines(a, b)})


def sparse(w, h, seed):
    """(numbers, candidate masks) of a large sudoku; few fields are filled or have candidates."""
    n = w * h
    rng = random.Random(seed)
    nums, cands = [0] * (n * n), [0] * (n * n)
    for _ in range(rng.choice([0, 1, 5, n, 3 * n])):
        nums[rng.randrange(n * n)] = rng.choice([1, 9, 10, 99, 100, n, rng.randint(1, n)])
    for _ in range(rng.choice([0, 1, 5, n, 3 * n])):
        cands[rng.randrange(n * n)] = sum(1 << (v - 1) for v in rng.sample(range(1, n + 1), rng.randint(1, 4)))
    return nums, cands


@st.composite
def titan(draw, kinds=("complete", "few empty", "few empty", "unit empty", "one wrong", "exchanged", "sparse")):
    """A case with numbers (and candidates) of a very large sudoku."""
    w, h = draw(sizes(TITAN))
    kind = draw(st.sampled_from(kinds))
    n = w * h
    rng = random.Random(draw(st.integers(0, 10 ** 9)))
    nums, cands = sparse(w, h, rng.random())
    if kind != "sparse":
        def lines(group, count):
            return [k * group + i for k in rng.sample(range(count), count) for i in rng.sample(range(group), group)]
        base = [(w * (r % h) + r // h + c) % n + 1 for r in range(n) for c in range(n)]
        nums = tnums(w, h, base, {"t": False, "d": rng.sample(range(1, n + 1), n), "r": lines(h, w),
                                  "c": lines(w, h)})
    if kind == "few empty":
        for i in rng.sample(range(n * n), rng.choice([1, 2, 10, n])):
            nums[i] = 0
    elif kind == "unit empty":
        for r, c in rng.choice(ref.geo(w, h).units)[2]:
            nums[r * n + c] = 0
    elif kind == "one wrong":
        nums[rng.randrange(n * n)] = rng.choice([1, 32, 33, n, rng.randint(1, n)])
        nums[rng.randrange(n * n)] = 0
    elif kind == "exchanged":
        i, j = rng.sample(range(n * n), 2)
        nums[i], nums[j] = nums[j], nums[i]
        if rng.random() < 0.5:
            for i in rng.sample(range(n * n), 3):
                nums[i] = 0
    return {"w": w, "h": h, "kind": "titan: " + kind, "nums": nums, "cands": cands,
            "coords": rng.sample(range(n * n), rng.choice([0, 0, 1, 3]))}


@st.composite
def bits(draw, n, density=None):
    """An n bit mask: none set (0), few (1) ... about half (4, 5) ... most (8)."""
    if density is None:
        density = draw(st.integers(0, 8))
    if density == 0 or n == 0:
        return 0
    # not st.integers(): wide ranges are sampled far from uniformly there
    k = (n + 7) // 8
    raw = st.binary(min_size=k, max_size=k)
    full = (1 << n) - 1
    m = int.from_bytes(draw(raw), "little") & full
    if density <= 4:
        for _ in range(4 - density):
            m &= int.from_bytes(draw(raw), "little")
    else:
        for _ in range(density - 5):
            m |= int.from_bytes(draw(raw), "little") & full
    return m


def levels_for(w, h):
    return sorted({x[2] for x, t in _bank("puzzles", w, h)}, key=lambda v: (v is None, v))


@st.composite
def minimal(draw, w, h, level=None):
    """(grid, puzzle): a minimal (or nearly) unique sudoku, flat lists."""
    entries = _bank("puzzles", w, h)
    lv = draw(st.sampled_from(levels_for(w, h))) if level is None else level
    entries = [e for e in entries if e[0][2] == lv]
    x, t = draw(st.sampled_from(entries))
    a, b = (h, w) if t else (w, h)
    tr = draw(transform(a, b, trans=t))
    return tnums(a, b, unpack(x[0]), tr), tnums(a, b, unpack(x[1]), tr)


def has_minimal(w, h):
    return bool(_bank("puzzles", w, h))


@st.composite
def unique(draw, w, h, level=None):
    """(grid, puzzle) with exactly one completion."""
    if not has_minimal(w, h):
        g = draw(grid(w, h))
        n = w * h
        # leave at most a few fields empty, none of them exchangeable
        p = list(g)
        if n > 1 or draw(st.booleans()):
            p[draw(st.integers(0, n * n - 1))] = 0
        return g, p
    g, p = draw(minimal(w, h, level))
    extra = draw(bits(len(g), draw(st.sampled_from([0, 0, 1, 2, 3, 4, 6]))))
    p = [g[i] if extra >> i & 1 else v for i, v in enumerate(p)]
    return g, p


@st.composite
def puzzle(draw, w, h, kinds=("unique", "drop", "corrupt", "conflict", "complete",
                              "badcomplete", "latin", "sparse", "dense")):
    """Flat list of a sudoku of some kind, solvable or not."""
    n = w * h
    kind = draw(st.sampled_from(kinds))
    if kind == "unique":
        return kind, draw(unique(w, h))[1]
    if kind == "drop":            # probably several completions
        g, p = draw(unique(w, h))
        filled = [i for i, v in enumerate(p) if v]
        for _ in range(draw(st.integers(1, 3))):
            if filled:
                i = draw(st.sampled_from(filled))
                p[i] = 0
        return kind, p
    if kind == "corrupt":         # probably no completion, maybe no conflict
        g, p = draw(unique(w, h))
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, n * n - 1))
            used = {p[j] for j in ref.geo(w, h).peer_idx[i]}
            free = [v for v in range(1, n + 1) if v not in used]
            p[i] = draw(st.sampled_from(free or [draw(st.integers(1, n))]))
        return kind, p
    if kind == "conflict":
        g, p = draw(unique(w, h))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, n * n - 1))
            p[i] = draw(st.integers(0, n))
        return kind, p
    if kind == "complete":
        return kind, draw(grid(w, h))
    if kind == "badcomplete":     # all fields filled, but with conflicts
        g = draw(grid(w, h))
        if n > 1:
            if draw(st.booleans()):
                i = draw(st.integers(0, n * n - 1))
                g[i] = draw(st.integers(1, n))
            else:
                i = draw(st.integers(0, n * n - 1))
                j = draw(st.integers(0, n * n - 1))
                g[i], g[j] = g[j], g[i]
        return kind, g
    if kind == "latin":           # (nearly) complete, conflicts in boxes only
        g = draw(grid(w, h))
        rows = draw(st.permutations(range(n)))
        cols = draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n))
        g = [g[r * n + c] for r in rows for c in cols]
        for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
            g[draw(st.integers(0, n * n - 1))] = 0
        return kind, g
    if kind == "sparse":
        g = draw(grid(w, h))
        m = draw(bits(n * n, draw(st.sampled_from([0, 1, 1, 2]))))
        return kind, [v if m >> i & 1 else 0 for i, v in enumerate(g)]
    if kind == "dense":
        g = draw(grid(w, h))
        m = draw(bits(n * n, draw(st.sampled_from([3, 4, 5, 6, 7]))))
        return kind, [v if m >> i & 1 else 0 for i, v in enumerate(g)]
    raise ValueError(kind)


def with_twin(case, check):
    """Check the same text with exchanged box dimensions first, if asked to."""
    if case.get("twin") and case["w"] != case["h"]:
        check(dict(case, w=case["h"], h=case["w"], twin=False))


def used(cases, hows=(1, 2, 3, 4, 5)):
    """Adds what an object, which is used in the case, contained before (0: a new object)."""
    return st.builds(lambda case, how: dict(case, used=how), cases,
                     st.sampled_from([0] * (2 * len(hows)) + list(hows)))


@st.composite
def any_numbers(draw, w, h):
    """Arbitrary numbers 0..n, no structure."""
    n = w * h
    full = draw(st.booleans())
    m = draw(bits(n * n))
    vals = draw(st.lists(st.integers(0, n), min_size=n * n, max_size=n * n)) \
        if n <= 4 or full else None
    if vals is None:
        g = draw(grid(w, h))
        vals = g
    return [v if m >> i & 1 else 0 for i, v in enumerate(vals)]


# -- candidate states ----------------------------------------------------------

@st.composite
def state(draw, w, h, plants=None):
    """A candidate state which contains a solution.

    {"w","h","nums","cands","sol"}: filled fields have their number as only
    candidate; candidates of empty fields contain the number of the solution.
    Patterns are planted by removing candidates which are not in the solution.
    """
    g = ref.geo(w, h)
    n = g.n
    fullmask = (1 << n) - 1
    kind = draw(st.sampled_from(["puzzle", "puzzle", "grid", "free"]))
    if kind == "puzzle" and has_minimal(w, h):
        sol, nums = draw(unique(w, h))
    else:
        sol = draw(grid(w, h))
        m = draw(bits(n * n, draw(st.sampled_from([0, 1, 2, 3, 4, 5]))))
        nums = [v if m >> i & 1 else 0 for i, v in enumerate(sol)]
    if kind == "free":
        # candidates which do not follow from the numbers
        base = [1 << (v - 1) if nums[i] else fullmask for i, v in enumerate(sol)]
    else:
        c = ref.candidates(w, h, nums)
        base = [mask(c[cell]) for cell in g.cells]
    solm = [1 << (v - 1) for v in sol]
    # random eliminations
    dens = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5]))
    if dens:
        kill = draw(bits(n * n * n, dens))
        for i in range(n * n):
            if not nums[i]:
                base[i] &= ~(kill >> (i * n) & fullmask) | solm[i]
    # planted patterns
    empty = [not v for v in nums]
    count = draw(st.integers(0, 3)) if plants is None else plants
    for _ in range(count):
        what = draw(st.sampled_from(["naked", "hidden", "box", "line", "fish", "fish"]))
        k = draw(st.integers(2, 5))
        if what in ("naked", "hidden"):
            unit = draw(st.sampled_from(g.units))[2]
            cells = [r * n + c for r, c in unit if empty[r * n + c]]
            if len(cells) < k:
                continue
            chosen = draw(st.permutations(cells))[:k]
            vals = 0
            for i in chosen:
                vals |= solm[i]
            if what == "naked":
                for i in chosen:
                    base[i] = (base[i] & vals) | solm[i]
                    if draw(st.booleans()):
                        base[i] = vals
            else:
                for i in cells:
                    if i not in chosen:
                        base[i] &= ~vals | solm[i]
                    elif draw(st.booleans()):
                        base[i] |= vals
        elif what in ("box", "line"):
            v = draw(st.integers(1, n))
            at = [i for i in range(n * n) if sol[i] == v and empty[i]]
            if not at:
                continue
            i = draw(st.sampled_from(at))
            r, c = i // n, i % n
            line = draw(st.sampled_from([g.rows[r], g.cols[c]]))
            box = g.boxes[g.box_of_idx[i]]
            keep, strip = (line, box) if what == "box" else (box, line)
            both = [a * n + b for a, b in line if (a, b) in box and empty[a * n + b]]
            bit = 1 << (v - 1)
            for a, b in strip:
                j = a * n + b
                if (a, b) not in keep and empty[j]:
                    base[j] &= ~bit | solm[j]
            for j in draw(st.permutations(both))[:k - 1]:
                base[j] |= bit
        else:
            v = draw(st.integers(1, n))
            k = min(k, 4)
            at = [i for i in range(n * n) if sol[i] == v and empty[i]]
            if len(at) < k:
                continue
            chosen = draw(st.permutations(at))[:k]
            rows = sorted(i // n for i in chosen)
            cols = sorted(i % n for i in chosen)
            bit = 1 << (v - 1)
            by_row = draw(st.booleans())
            for a in range(n):
                for b in range(n):
                    j = a * n + b
                    if not empty[j]:
                        continue
                    inbase, incover = (a in rows, b in cols) if by_row else (b in cols, a in rows)
                    if inbase and not incover:
                        base[j] &= ~bit | solm[j]
            for a in rows:
                for b in cols:
                    j = a * n + b
                    if empty[j] and draw(st.integers(0, 3)):
                        base[j] |= bit
    return {"w": w, "h": h, "nums": pack(nums), "cands": base, "sol": pack(sol)}


STATE_SIZES = weighted(
    (2, (2, 2)), (3, (2, 3)), (3, (3, 2)), (3, (2, 4)), (3, (4, 2)), (8, (3, 3)),
    (1, (2, 5)), (1, (5, 2)), (1, (1, 3)), (1, (3, 1)), (1, (1, 4)), (1, (4, 1)),
    (1, (3, 4)), (1, (4, 3)), (1, (1, 5)), (1, (5, 1)))


@st.composite
def sized(draw, size_strategy, make):
    w, h = draw(size_strategy)
    return draw(make(w, h))
