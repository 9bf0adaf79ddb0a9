"""Adds the puzzles of a file to the bank: lines [[w, h], level, "1,0,..."].

Usage: python3-vt tools/addpuzzles.py FILE
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.mkbank import s  # noqa: E402
from vlib import ref  # noqa: E402


def main():
    path = os.path.join(HERE, "data", "bank.json")
    with open(path) as f:
        bank = json.load(f)
    with open(sys.argv[1]) as f:
        lines = [json.loads(line) for line in f]
    for (w, h), level, text in lines:
        nums = [int(x) for x in text.split(",")]
        sols = ref.solutions(w, h, nums, limit=2)
        assert len(sols) == 1 and ref.logic_level(w, h, nums) == level
        entry = [s(sols[0]), s(nums), level]
        entries = bank["puzzles"].setdefault("%d,%d" % (w, h), [])
        if entry not in entries:
            entries.append(entry)
    with open(path, "w") as f:
        json.dump(bank, f, indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
