"""Builds data/bank.json: solved grids and minimal unique sudokus per size.

Only uses the reference model (vlib.ref).  The result is committed; checks
never run this script.  Usage: python3-vt tools/mkbank.py
"""
import json
import os
import random
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import ref  # noqa: E402

DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def s(nums):
    return "".join(DIGITS[v] for v in nums)


def random_grid(w, h, rng):
    g = ref.geo(w, h)
    n = g.n
    while True:
        nums = [0] * (n * n)
        # random diagonal-ish seeding: fill one box and a few random cells
        vals = list(range(1, n + 1))
        rng.shuffle(vals)
        for cell, v in zip(rng.choice(g.boxes), vals):
            nums[cell[0] * n + cell[1]] = v
        cells = list(range(n * n))
        rng.shuffle(cells)
        for i in cells[:n * n // 6]:
            if nums[i]:
                continue
            used = {nums[j] for j in g.peer_idx[i]}
            free = [v for v in vals if v not in used]
            if free:
                nums[i] = rng.choice(free)
        perm = vals[:]
        rng.shuffle(perm)
        try:
            sols = ref.solutions(w, h, nums, limit=3, max_nodes=20000)
        except ref.Limit:
            continue
        if sols:
            sol = rng.choice(sols)
            return [perm[v - 1] for v in sol]


def minimal(w, h, grid, rng, keep=0):
    n = w * h
    nums = list(grid)
    cells = list(range(n * n))
    rng.shuffle(cells)
    for i in cells[:n * n - keep]:
        old, nums[i] = nums[i], 0
        try:
            ok = len(ref.solutions(w, h, nums, limit=2, max_nodes=30000)) == 1
        except ref.Limit:
            ok = False
        if not ok:
            nums[i] = old
    return nums


def job(a):
    kind, w, h, seed, keep = a
    rng = random.Random("%s-%d-%d-%d" % (kind, w, h, seed))
    grid = random_grid(w, h, rng)
    if kind == "grid":
        return kind, w, h, s(grid), None, None
    p = minimal(w, h, grid, rng, keep)
    level = ref.logic_level(w, h, p) if w * h <= 10 else None
    return kind, w, h, s(grid), s(p), level


def main():
    jobs = []
    for n in range(1, 6):
        jobs += [("grid", 1, n, i, 0) for i in range(3)]
        jobs += [("grid", n, 1, i, 0) for i in range(3)] if n > 1 else []
    for (w, h), k in {(2, 2): 25, (2, 3): 25, (3, 2): 25, (2, 4): 25, (4, 2): 25,
                      (3, 3): 60, (2, 5): 12, (5, 2): 12, (3, 4): 8, (4, 3): 8,
                      (2, 6): 4, (6, 2): 4, (4, 4): 6, (5, 5): 2,
                      (3, 5): 3, (5, 3): 3}.items():
        jobs += [("grid", w, h, i, 0) for i in range(k)]
    for n in range(2, 6):
        jobs += [("puzzle", 1, n, i, 0) for i in range(3)]
        jobs += [("puzzle", n, 1, i, 0) for i in range(3)]
    for (w, h), k in {(2, 2): 30, (2, 3): 30, (3, 2): 30, (2, 4): 40, (4, 2): 40,
                      (3, 3): 900, (2, 5): 14, (5, 2): 14}.items():
        jobs += [("puzzle", w, h, i, 0) for i in range(k)]
    for (w, h), k, keep in [((3, 4), 8, 50), ((4, 3), 8, 50), ((4, 4), 5, 130)]:
        jobs += [("puzzle", w, h, i, keep) for i in range(k)]
    out = {"grids": {}, "puzzles": {}}
    percls = {}
    with Pool(8) as pool:
        for kind, w, h, grid, p, level in pool.imap(job, jobs, chunksize=1):
            key = "%d,%d" % (w, h)
            if kind == "grid":
                out["grids"].setdefault(key, []).append(grid)
                continue
            # at most 40 sudokus of each difficulty
            c = percls.setdefault((key, level), [0])
            c[0] += 1
            if c[0] <= 40:
                out["puzzles"].setdefault(key, []).append([grid, p, level])
    print({k: v[0] for k, v in percls.items()})
    with open(os.path.join(HERE, "data", "bank.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
