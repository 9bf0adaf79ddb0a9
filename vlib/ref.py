"""Independent reference model.

Nothing in this file imports sudokutools.  Everything is written from the
definitions in the documentation (README, docstrings), with other data
structures and algorithms than the code under test, so that agreement is
evidence.
"""
from functools import lru_cache
from itertools import combinations


class Geo(object):
    """Geometry of a sudoku with boxes of w columns and h rows."""

    def __init__(self, w, h):
        self.w, self.h, self.n = w, h, w * h
        n = self.n
        self.cells = [(r, c) for r in range(n) for c in range(n)]
        self.rows = [[(r, c) for c in range(n)] for r in range(n)]
        self.cols = [[(r, c) for r in range(n)] for c in range(n)]
        # There are n // w == h boxes next to each other and n // h == w
        # boxes on top of each other; boxes are numbered line by line.
        self.boxes = []
        for br in range(w):
            for bc in range(h):
                self.boxes.append([(br * h + i, bc * w + j)
                                   for i in range(h) for j in range(w)])
        self.box_index = {}
        for b, cells in enumerate(self.boxes):
            for p, cell in enumerate(cells):
                self.box_index[cell] = (b, p)
        self.parts = [[cells[p] for cells in self.boxes] for p in range(n)]
        self.units = []
        for kind, units in (("r", self.rows), ("c", self.cols), ("b", self.boxes)):
            for i, u in enumerate(units):
                self.units.append((kind, i, u))
        self.peers = {}
        for (r, c) in self.cells:
            b = self.box_index[(r, c)][0]
            s = set(self.rows[r]) | set(self.cols[c]) | set(self.boxes[b])
            s.discard((r, c))
            self.peers[(r, c)] = s
        # index based, for the solver
        self.peer_idx = [[a * n + b for a, b in sorted(self.peers[cell])]
                         for cell in self.cells]
        self.box_of_idx = [self.box_index[cell][0] for cell in self.cells]


@lru_cache(maxsize=None)
def geo(w, h):
    return Geo(w, h)


class Limit(Exception):
    """The reference search exceeded its node budget."""

    def __init__(self, found=()):
        Exception.__init__(self)
        self.found = list(found)


def solutions(w, h, nums, limit=None, max_nodes=None):
    """All completions of nums (flat list), as a list of tuples."""
    return search(w, h, nums, limit, max_nodes)[0]


def search(w, h, nums, limit=None, max_nodes=None):
    """(completions of nums as a list of tuples, number of search nodes).

    Stops after `limit` solutions.  Raises Limit after max_nodes nodes.
    Bitmask backtracking with minimum-remaining-values selection and hidden
    single detection - no exact cover involved.
    """
    g = geo(w, h)
    n = g.n
    full = (1 << n) - 1
    rows, cols, boxes = [full] * n, [full] * n, [full] * n
    grid = list(nums)
    empties = []
    for i, v in enumerate(grid):
        if not v:
            empties.append(i)
            continue
        if not 1 <= v <= n:
            return [], 0
        bit = 1 << (v - 1)
        r, c, b = i // n, i % n, g.box_of_idx[i]
        if not (rows[r] & bit and cols[c] & bit and boxes[b] & bit):
            return [], 0
        rows[r] ^= bit
        cols[c] ^= bit
        boxes[b] ^= bit
    found = []
    boxof = g.box_of_idx
    nodes = [0]

    def rec(empties):
        nodes[0] += 1
        if max_nodes is not None and nodes[0] > max_nodes:
            raise Limit(found)
        if not empties:
            found.append(tuple(grid))
            return limit is not None and len(found) >= limit
        best, bestm, bestc = -1, 0, n + 1
        for k, i in enumerate(empties):
            m = rows[i // n] & cols[i % n] & boxes[boxof[i]]
            cnt = bin(m).count("1")
            if cnt < bestc:
                best, bestm, bestc = k, m, cnt
                if cnt <= 1:
                    break
        if bestc == 0:
            return False
        i = empties[best]
        rest = empties[:best] + empties[best + 1:]
        r, c, b = i // n, i % n, boxof[i]
        m = bestm
        while m:
            bit = m & -m
            m ^= bit
            grid[i] = bit.bit_length()
            rows[r] ^= bit
            cols[c] ^= bit
            boxes[b] ^= bit
            stop = rec(rest)
            rows[r] ^= bit
            cols[c] ^= bit
            boxes[b] ^= bit
            if stop:
                return True
        grid[i] = 0
        return False

    rec(empties)
    return found, nodes[0]


def candidates(w, h, nums):
    """Candidates of each cell from the numbers only (dict cell -> set)."""
    g = geo(w, h)
    n = g.n
    out = {}
    for (r, c) in g.cells:
        v = nums[r * n + c]
        if v:
            out[(r, c)] = {v}
        else:
            used = {nums[a * n + b] for a, b in g.peers[(r, c)]}
            out[(r, c)] = set(range(1, n + 1)) - used
    return out


def conflicts(w, h, nums):
    """Set of (cell, other cell, value), in both directions."""
    g = geo(w, h)
    n = g.n
    out = set()
    for _, _, unit in g.units:
        where = {}
        for (r, c) in unit:
            v = nums[r * n + c]
            if v:
                where.setdefault(v, []).append((r, c))
        for v, cells in where.items():
            for a in cells:
                for b in cells:
                    if a != b:
                        out.add((a, b, v))
    return out


def is_complete_valid(w, h, nums):
    g = geo(w, h)
    n = g.n
    want = set(range(1, n + 1))
    return all({nums[r * n + c] for r, c in u} == want for _, _, u in g.units)


# -- solving techniques -----------------------------------------------------
#
# State: nums: dict cell -> int, cands: dict cell -> frozenset.
# All patterns are reported as tuples (clues, values, affected), where clues
# and affected are sorted tuples of cells and values a sorted tuple.

TUPLE_N = {"Pair": 2, "Triple": 3, "Quad": 4, "Quint": 5}
FISH_N = {"XWing": 2, "Swordfish": 3, "Jellyfish": 4}


def _t(x):
    return tuple(sorted(x))


def naked_singles(g, nums, cands):
    out = set()
    for cell in g.cells:
        if not nums[cell] and len(cands[cell]) == 1:
            (v,) = cands[cell]
            out.add((cell, v))
    return out


def hidden_singles(g, nums, cands):
    """(cell, value), value possible only at this cell in one of its units."""
    out = set()
    for _, _, unit in g.units:
        for v in range(1, g.n + 1):
            places = [cell for cell in unit if v in cands[cell]]
            if len(places) == 1 and not nums[places[0]]:
                out.add((places[0], v))
    return out


def naked_tuples(g, nums, cands, k):
    """dict (clues, values) -> set of possible affected tuples (per unit)."""
    out = {}
    for _, _, unit in g.units:
        pool = [cell for cell in unit if 2 <= len(cands[cell]) <= k]
        for fields in _subsets_by_union(pool, lambda c: cands[c], k):
            vals = frozenset().union(*[cands[c] for c in fields])
            aff = _t(c for c in unit if c not in fields and cands[c] & vals)
            if aff:
                out.setdefault((_t(fields), _t(vals)), set()).add(aff)
    return out


def hidden_tuples(g, nums, cands, k):
    """set of (unit cells, values, affected)."""
    out = set()
    for _, _, unit in g.units:
        places = {}
        for v in range(1, g.n + 1):
            p = frozenset(c for c in unit if v in cands[c])
            if 2 <= len(p) <= k:
                places[v] = p
        for vals in _subsets_by_union(sorted(places), lambda v: places[v], k):
            cells = frozenset().union(*[places[v] for v in vals])
            aff = _t(c for c in cells if cands[c] - set(vals))
            if aff:
                out.add((_t(unit), _t(vals), aff))
    return out


def _subsets_by_union(items, f, k):
    """k-subsets of items, whose union of f(item) has at most k elements."""
    items = list(items)

    def rec(start, chosen, union):
        if len(chosen) == k:
            yield tuple(chosen)
            return
        for i in range(start, len(items)):
            u = union | f(items[i])
            if len(u) <= k:
                for x in rec(i + 1, chosen + [items[i]], u):
                    yield x

    return rec(0, [], frozenset())


def pointing_tuples(g, nums, cands, k):
    """set of (clues, values, affected): box/line interactions of k fields."""
    out = set()
    for kind, _, unit in g.units:
        for v in range(1, g.n + 1):
            places = [c for c in unit if v in cands[c]]
            if len(places) != k:
                continue
            others = []
            if kind == "b":
                if len({r for r, c in places}) == 1:
                    others.append(g.rows[places[0][0]])
                elif len({c for r, c in places}) == 1:
                    others.append(g.cols[places[0][1]])
            else:
                if len({g.box_index[c][0] for c in places}) == 1:
                    others.append(g.boxes[g.box_index[places[0]][0]])
            for other in others:
                aff = _t(c for c in other if c not in places and v in cands[c])
                if aff:
                    out.add((_t(places), (v,), aff))
    return out


def fishes(g, nums, cands, k):
    """set of (clues, values, affected)."""
    out = set()
    for axis in (0, 1):
        lines = g.rows if axis == 0 else g.cols
        for v in range(1, g.n + 1):
            pos = {}
            for i, line in enumerate(lines):
                p = frozenset(c[1 - axis] for c in line if v in cands[c])
                if 2 <= len(p) <= k:
                    pos[i] = p
            for base in _subsets_by_union(sorted(pos), lambda i: pos[i], k):
                cover = frozenset().union(*[pos[i] for i in base])
                if any(sum(1 for i in base if x in pos[i]) < 2 for x in cover):
                    continue

                def cell(b, x):
                    return (b, x) if axis == 0 else (x, b)

                clues = _t(cell(b, x) for b in base for x in pos[b])
                aff = _t(cell(b, x) for b in range(g.n) if b not in base
                         for x in cover if v in cands[cell(b, x)])
                if aff:
                    out.add((clues, (v,), aff))
    return out


LEVELS = [
    # (rating, [(kind, k)])
    (1, [("ns", 0), ("hs", 0)]),
    (2, [("nt", 2), ("ht", 2), ("nt", 3), ("ht", 3)]),
    (3, [("nt", 4), ("ht", 4), ("nt", 5), ("ht", 5)]),
    (4, [("pt", 2), ("pt", 3)]),
    (5, [("fi", 2)]),
    (6, [("fi", 3)]),
    (7, [("fi", 4)]),
]


def place(g, nums, cands, cell, v):
    nums[cell] = v
    cands[cell] = frozenset([v])
    for p in g.peers[cell]:
        if v in cands[p]:
            cands[p] = cands[p] - {v}


def logic_step(g, nums, cands, kind, k):
    """Apply all currently available steps of one kind; True if any."""
    if kind in ("ns", "hs"):
        f = naked_singles if kind == "ns" else hidden_singles
        found = f(g, nums, cands)
        for cell, v in sorted(found):
            if not nums[cell]:
                place(g, nums, cands, cell, v)
        return bool(found)
    elim = {}
    if kind == "nt":
        for (clues, vals), affs in naked_tuples(g, nums, cands, k).items():
            for aff in affs:
                for c in aff:
                    elim.setdefault(c, set()).update(vals)
    elif kind == "ht":
        for unit, vals, aff in hidden_tuples(g, nums, cands, k):
            for c in aff:
                elim.setdefault(c, set()).update(cands[c] - set(vals))
    else:
        f = pointing_tuples if kind == "pt" else fishes
        for clues, vals, aff in f(g, nums, cands, k):
            for c in aff:
                elim.setdefault(c, set()).update(vals)
    for c, vals in elim.items():
        cands[c] = cands[c] - vals
    return bool(elim)


def logic_level(w, h, flat):
    """Least rating of the techniques which suffice to solve a (solvable)
    sudoku; 0 if complete, 10 if guessing is required."""
    g = geo(w, h)
    n = g.n
    nums = {(r, c): flat[r * n + c] for r, c in g.cells}
    cands = {k: frozenset(v) for k, v in candidates(w, h, flat).items()}
    if all(nums.values()):
        return 0
    used = 0
    while True:
        for rating, kinds in LEVELS:
            hit = False
            for kind, k in kinds:
                if logic_step(g, nums, cands, kind, k):
                    hit = True
                    break
            if hit:
                used = max(used, rating)
                break
        else:
            break
        if all(nums.values()):
            return used
    return 10


# -- symmetries -------------------------------------------------------------

SYMMETRIES = {
    None: lambda n, r, c: [(r, c)],
    "rotate-90": lambda n, r, c: [
        (r, c), (c, n - 1 - r), (n - 1 - r, n - 1 - c), (n - 1 - c, r)],
    "rotate-180": lambda n, r, c: [(r, c), (n - 1 - r, n - 1 - c)],
    "mirror-x": lambda n, r, c: [(r, c), (n - 1 - r, c)],
    "mirror-y": lambda n, r, c: [(r, c), (r, n - 1 - c)],
    "mirror-xy": lambda n, r, c: [
        (r, c), (n - 1 - r, c), (r, n - 1 - c), (n - 1 - r, n - 1 - c)],
}
