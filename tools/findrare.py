"""Searches 9x9 sudokus whose difficulty is a rare level (3, 5, 6, 7) and
appends them to data/bank.json.  Usage: python3-vt tools/findrare.py FROM TO"""
import json, os, sys
from multiprocessing import Pool
import mkbank

def main():
    a, b = int(sys.argv[1]), int(sys.argv[2])
    found = []
    with Pool(8) as pool:
        for kind, w, h, grid, p, level in pool.imap_unordered(
                mkbank.job, [("puzzle", 3, 3, i, 0) for i in range(a, b)], chunksize=50):
            if level in (3, 5, 6, 7):
                found.append([grid, p, level])
    found.sort()
    path = os.path.join(mkbank.HERE, "data", "bank.json")
    with open(path) as f:
        bank = json.load(f)
    have = {x[1] for x in bank["puzzles"]["3,3"]}
    bank["puzzles"]["3,3"] += [x for x in found if x[1] not in have]
    with open(path, "w") as f:
        json.dump(bank, f, indent=0, sort_keys=True)
        f.write("\n")
    print(sorted(x[2] for x in found))

main()
