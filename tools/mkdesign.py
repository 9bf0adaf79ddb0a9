"""Updates the number of cases in DESIGN.md and its table of planted bugs."""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("VERIF_REPO", "/repo")]


def main():
    counts = {}
    for i in range(1, 100):
        if os.path.exists(os.path.join(ROOT, "checks", "c%02d.py" % i)):
            m = importlib.import_module("checks.c%02d" % i)
            counts["C%02d" % i] = (sum(p.quick for p in m.PARTS), sum(p.thorough for p in m.PARTS))
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        lines = f.read().split("\n")
    for k, line in enumerate(lines):
        m = re.match(r"\| (C\d\d(?:, C\d\d)*) \|", line)
        if m and line.count("|") >= 5:
            cells = line.rstrip("|").split("|")
            cells[-1] = " " + "; ".join("%d / %d" % counts[c] for c in m.group(1).split(", ")) + " "
            lines[k] = "|".join(cells) + "|"
    text = "\n".join(lines)
    rows = ["| bug | property | needs | remark |", "|---|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", name, "meta.json")) as f:
            meta = json.load(f)
        rows.append("| %s | %s | %s | %s |" % (name, meta["property"], meta["needs"].replace("|", "/"),
                                               REMARKS.get(name, "")))
    a = text.index("| bug | property |")
    b = text.find("\n\n", a)
    text = text[:a] + "\n".join(rows) + (text[b:] if b > 0 else "\n")
    with open(path, "w") as f:
        f.write(text)


REMARKS = {
    "c04-shared-result": "missed at first; results are now emptied before the next call",
    "c01-memo": "missed at first; solutions are now emptied, and the sudoku solved again",
    "c11-memo": "missed at first; results are now emptied, and the template used again",
    "c20-memo-action": "missed at first; decoded actions are now spoiled and the text decoded again",
    "c04-used-attr": "missed at first; objects which had another content before (`gens.used`)",
    "c15-width-attr": "missed at first; objects which had another content before (`gens.used`)",
    "c03-solved-sum": "missed at first (grids with right sums are never met by chance); part 'balanced'",
    "c06-preview-actions": "missed at first (steps were always applied in the order found)",
    "c11-seventeen": "missed at first (no pattern was known to be feasible); part 'likely'",
    "c12-pattern-large": "missed at first (boxes up to 7x2 only)",
    "c14-empty-replace": "missed at first (digits were not used as empty marker)",
    "c15-hundred": "missed at first (less than a hundred numbers); parts 'hundred' of C13, C15, C18, C20",
    "c16-shared-iterator": "missed at first (iterators were used one after another); operation 'nested'",
    "c18-space-nsep": "missed at first (separators of numbers had no white space)",
    "c21-equals-arg": "missed at first (no equal signs within arguments)",
    "c23-prompt-print": "missed at first (no Ctrl-C while the prompt is written)",
    "c14-letters-large": "missed at first (illegal characters only inserted, never instead of a number)",
    "c22-loop-int": "missed at first (up to 5 rounds); part 'long'",
    "c22-loop-keeps": "missed at first (up to 6 commands in a loop); part 'long'",
    "c24-splitlines": "missed at first (no control characters in comments of scripts)",
    "c04-mask32": "missed at first (up to 25 numbers); parts 'titan' of C01, C03, C04",
    "c11-ones": "missed at first (templates up to 9 numbers only); part 'large' of C11",
    "c24-exit-skips": "missed at first (no empty commands); part 'any text'",
    "c22-loop-hundred": "missed at first (up to 60 rounds); part 'long' now up to 5000",
    "c25-history-cap": "missed at first (up to 30 steps); part 'long histories'",
}

if __name__ == "__main__":
    main()
