from hypothesis import strategies as st

from sudokutools.sudoku import view
from vlib import gens, ref, sut
from vlib.engine import Part
from checks.c13 import content, content_big

PROPERTY = "C15"
RULE = ("A case is a sudoku with arbitrary numbers and candidates and view options. The printed grid is "
        "parsed: equal line widths, one cell of equal width per field, borders and rules exactly between "
        "boxes, cell contents as expected. Non-trivial: at least one number and one empty field.")
ASSUMPTIONS = []


def parse(text, w, h, ctx):
    """Returns the cells of a printed grid; checks the layout."""
    n = w * h
    lines = text.split("\n")
    ctx.require(len(lines) == n + w - 1, "%d lines instead of %d", len(lines), n + w - 1)
    length = len(lines[0])
    for i, l in enumerate(lines):
        ctx.require(len(l) == length, "line %d has %d characters instead of %d:\n%s", i, len(l), length, text)
    # n cells, joined by a space; h stacks, separated by '| ' in addition
    inner = length - (n - 1) - 2 * (h - 1)
    ctx.require(inner > 0 and inner % n == 0, "no cells of equal width:\n%s", text)
    width = inner // n
    starts = [c * (width + 1) + 2 * (c // w) for c in range(n)]
    bars = {starts[c] - 2 for c in range(w, n, w)}
    cellpos = set()
    for x in starts:
        cellpos.update(range(x, x + width))
    out = {}
    r = 0
    for i, l in enumerate(lines):
        if i % (h + 1) == h:
            want = "".join("+" if x in bars else "-" for x in range(length))
            ctx.require(l == want, "rule %r should be %r", l, want)
            continue
        for x, ch in enumerate(l):
            if x in cellpos:
                continue
            ctx.require(ch == ("|" if x in bars else " "), "%r at column %d:\n%s", ch, x, text)
        for c in range(n):
            out[(r, c)] = l[starts[c]:starts[c] + width]
        r += 1
    return out, width


def check(case, ctx):
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    n = g.n
    if "seed" in case:
        case = dict(case)
        case["nums"], case["cands"] = gens.sparse(w, h, case["seed"])
    nums = sut.unpack(case["nums"])
    kw = case["options"]
    s = sut.make_used(w, h, nums, case["cands"], case["used"], lambda s: (view(s, **kw), view(s), str(s)))
    base = sut.full(s)
    text = view(s, **kw)
    incl = kw.get("include_candidates", True)
    sep = kw.get("number_sep")
    if sep is None:
        sep = "," if n > 9 else ""
    prefix = kw.get("candidate_prefix", "*")
    right = kw.get("align_right", True)
    for text, incl, right in ((text, incl, right), (str(s), False, True)):
        cells, width = parse(text, w, h, ctx)
        for i, cell in enumerate(g.cells):
            if nums[i]:
                want = str(nums[i])
            elif incl:
                want = prefix + sep.join(str(v) for v in sut.values(case["cands"][i]))
            else:
                want = ""
            want = want.rjust(width) if right else want.ljust(width)
            ctx.require(cells[cell] == want, "field %s is printed as %r instead of %r:\n%s", cell, cells[cell],
                        want, text)
    ctx.require(sut.full(s) == base, "printing changes the sudoku")
    ctx.event("size: %dx%d" % (w, h))
    ctx.event("candidates: %s" % kw.get("include_candidates", True))
    ctx.nontrivial(any(nums) and not all(nums))


@st.composite
def cases(draw, sizes, big=False):
    w, h = draw(sizes)
    nums, cands = draw(content_big(w, h) if big else content(w, h))
    return {"w": w, "h": h, "nums": nums, "cands": cands, "options": draw(options())}


@st.composite
def hundred(draw):
    w, h = draw(gens.sizes(gens.HUNDRED))
    return {"w": w, "h": h, "seed": draw(st.integers(0, 2 ** 31)), "options": draw(options())}


@st.composite
def options(draw):
    opt = {}
    if draw(st.booleans()):
        opt["include_candidates"] = draw(st.booleans())
    if draw(st.booleans()):
        opt["number_sep"] = draw(st.sampled_from([None, "", ",", "/", ", ", "--"]))
    if draw(st.booleans()):
        opt["candidate_prefix"] = draw(st.sampled_from(["*", "", "::", "?", "cand="]))
    if draw(st.booleans()):
        opt["align_right"] = draw(st.booleans())
    return opt


PARTS = [
    Part("mixed", gens.used(cases(gens.weighted((4, (3, 3)), (2, (2, 2)), (2, (2, 3)), (2, (3, 2)), (2, (2, 4)), (2, (4, 2)),
                                      (1, (1, 1)), (1, (1, 2)), (1, (2, 1)), (1, (1, 3)), (1, (3, 1)), (1, (1, 4)),
                                      (1, (5, 1)), (1, (1, 5)), (2, (2, 5)), (2, (5, 2)), (1, (3, 4)), (1, (4, 3))))),
         check, 36000, 100000),
    Part("large", gens.used(cases(st.sampled_from([(4, 4), (1, 10), (10, 1), (5, 5), (2, 7), (7, 2), (3, 5), (6, 3)]), True)),
         check, 2400, 8000),
    Part("hundred", gens.used(hundred()), check, 48, 1000),
]
