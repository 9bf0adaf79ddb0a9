from hypothesis import strategies as st

from sudokutools.sudoku import Sudoku
from vlib import gens, sut
from vlib.engine import Part

PROPERTY = "C13"
RULE = ("A case is a sudoku with arbitrary numbers and candidate sets (any size), separators and whether "
        "candidates are included. decode(encode(s)) must have the same box size, numbers and candidates. "
        "Non-trivial: at least one number and, if included, at least one non-empty candidate set.")
ASSUMPTIONS = ["separators contain no digits and, if candidates are included, neither ',' nor '|'"]


def check(case, ctx):
    w, h = case["w"], case["h"]
    if "seed" in case:
        case = dict(case)
        case["nums"], case["cands"] = gens.sparse(w, h, case["seed"])
    incl = case["candidates"]
    s = sut.make_used(w, h, case["nums"], case["cands"], case["used"], lambda s: s.encode(
        row_sep=case["row_sep"], col_sep=case["col_sep"], include_candidates=incl))
    base = sut.full(s)
    text = s.encode(row_sep=case["row_sep"], col_sep=case["col_sep"], include_candidates=incl) \
        if case["row_sep"] or case["col_sep"] else s.encode(include_candidates=incl)
    ctx.require(isinstance(text, str), "encode returns %r", text)
    ctx.require(sut.full(s) == base, "encode changes the sudoku")
    kw = {}
    if case["number_sep"] is not None:
        kw["number_sep"] = case["number_sep"]
    if case["box_size"]:
        kw["box_size"] = (w, h)
    try:
        d = Sudoku.decode(text, **kw)
    except Exception as e:
        ctx.fail("decode of encoded text %r raises %s: %s" % (text, type(e).__name__, e))
    ctx.require(sut.size(d) == (w, h), "box size is %s", sut.size(d))
    ctx.require(sut.flat(d) == base[1], "numbers differ: %r", text)
    want = base[2] if incl else [frozenset()] * len(base[2])
    ctx.require(sut.cands(d) == want, "candidates differ: %r", text)
    # encoding again gives the same text
    again = d.encode(row_sep=case["row_sep"], col_sep=case["col_sep"], include_candidates=incl)
    ctx.require(again == text, "encoding the decoded sudoku gives %r instead of %r", again, text)
    ctx.event("numbers: " + ("1..9" if w * h <= 9 else "two digits" if w * h < 100 else "three digits"))
    ctx.event("separated: %s" % (case["number_sep"] is not None))
    ctx.event("candidates: %s" % incl)
    ctx.event("size inferred: %s" % (not case["box_size"]))
    ctx.nontrivial(any(base[1]) and (not incl or any(base[2])))


@st.composite
def content(draw, w, h):
    n = w * h
    full = (1 << n) - 1
    which = draw(st.integers(0, 3))
    if which == 0:
        nums = draw(gens.puzzle(w, h, kinds=("unique", "dense", "complete")))[1] if (w, h) in SOLVABLE \
            else [0] * (n * n)
    else:
        m = draw(gens.bits(n * n))
        vals = draw(st.binary(min_size=n * n, max_size=n * n))
        nums = [1 + v % n if m >> i & 1 else 0 for i, v in enumerate(vals)]
    c = draw(gens.bits(n * n * n))
    k = draw(gens.bits(n * n, draw(st.sampled_from([3, 4, 5, 8, 8]))))
    cands = [c >> (i * n) & full if k >> i & 1 else 0 for i in range(n * n)]
    if draw(st.integers(0, 3)) == 0:
        cands = [1 << (v - 1) if v else x for v, x in zip(nums, cands)]
    return sut.pack(nums), cands


SOLVABLE = {tuple(int(x) for x in k.split(",")) for k in gens.BANK["grids"]}
WS = st.text(alphabet=" \t\n\r\x0b\x0c", max_size=3)
SEPS = ["-", ";", ":", " ", "\t", "/", "_.", "x", " - ", "; ", "\n", "é", "--", " /", "  "]


@st.composite
def plain(draw):
    w, h = draw(gens.weighted((4, (3, 3)), (2, (2, 2)), (2, (2, 3)), (2, (3, 2)), (1, (2, 4)), (1, (4, 2)),
                              (1, (1, 1)), (1, (1, 3)), (1, (3, 1)), (1, (1, 9)), (1, (9, 1)), (1, (1, 4))))
    nums, cands = draw(content(w, h))
    return {"w": w, "h": h, "nums": nums, "cands": cands, "row_sep": draw(WS), "col_sep": draw(WS),
            "number_sep": None, "candidates": draw(st.booleans()),
            "box_size": w != h or draw(st.booleans())}


@st.composite
def separated(draw):
    w, h = draw(gens.weighted((2, (3, 3)), (2, (2, 2)), (1, (2, 3)), (1, (3, 2)), (2, (2, 5)), (2, (5, 2)),
                              (2, (3, 4)), (1, (4, 3)), (2, (4, 4)), (1, (1, 10)), (1, (1, 1)), (1, (5, 5)),
                              (1, (2, 1)), (1, (11, 1)), (1, (6, 3))))
    nums, cands = draw(content(w, h)) if w * h <= 16 else draw(content_big(w, h))
    incl = draw(st.booleans())
    sep = draw(st.sampled_from(SEPS if incl else SEPS + [",", "|-"[1:], ", "]))
    row_sep = draw(st.sampled_from([sep, "\n", sep + "\n", "\n" + sep, " \n "]))
    return {"w": w, "h": h, "nums": nums, "cands": cands, "row_sep": row_sep, "col_sep": sep,
            "number_sep": sep, "candidates": incl, "box_size": w != h or draw(st.booleans())}


@st.composite
def hundred(draw):
    w, h = draw(gens.sizes(gens.HUNDRED))
    incl = draw(st.booleans())
    sep = draw(st.sampled_from(SEPS if incl else SEPS + [","]))
    return {"w": w, "h": h, "seed": draw(st.integers(0, 2 ** 31)), "row_sep": sep, "col_sep": sep,
            "number_sep": sep, "candidates": incl, "box_size": w != h or draw(st.booleans())}


@st.composite
def content_big(draw, w, h):
    n = w * h
    vals = draw(st.binary(min_size=n * n, max_size=n * n))
    m = draw(gens.bits(n * n, 5))
    c = draw(gens.bits(n * n * n, 3))
    return (sut.pack([1 + v % n if m >> i & 1 else 0 for i, v in enumerate(vals)]),
            [c >> (i * n) & ((1 << n) - 1) for i in range(n * n)])


PARTS = [
    Part("plain", gens.used(plain()), check, 30000, 100000),
    Part("separated", gens.used(separated()), check, 15000, 60000),
    Part("hundred", gens.used(hundred()), check, 120, 2000),
]
