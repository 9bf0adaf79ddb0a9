"""setup_cmd: loads all checks and the puzzle bank, tests the reference model
against itself (independent of the code under test)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import engine, nota, ref  # noqa: E402

engine.add_repo_to_path()
from vlib.gens import BANK  # noqa: E402
from vlib.sut import unpack  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
claimed = [c["property"] for c in manifest["checks"]]
listed = claimed + [x["property"] for x in manifest["not_applicable"]]
assert sorted(listed) == sorted(ids), "MANIFEST and properties.jsonl differ"
for prop in claimed:
    mod = engine.load_check(prop)
    assert mod.PROPERTY == prop and mod.PARTS
count = 0
for key, entries in BANK["puzzles"].items():
    w, h = map(int, key.split(","))
    for g, p, level in entries[::7]:
        sols = ref.solutions(w, h, unpack(p), limit=2)
        assert len(sols) == 1 and list(sols[0]) == unpack(g), (key, p)
        count += 1
for key, entries in BANK["grids"].items():
    w, h = map(int, key.split(","))
    assert all(ref.is_complete_valid(w, h, unpack(g)) for g in entries), key
assert len(ref.solutions(2, 2, [0] * 16)) == 288
assert nota.parse("r1c1, b2p12", 3, 3) == {(0, 0), (0, 3), (0, 4)}
print("ok: %d checks, %d puzzles verified" % (len(claimed), count))
