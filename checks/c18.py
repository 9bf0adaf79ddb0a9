from hypothesis import strategies as st

from sudokutools import notation
from vlib import gens, nota, ref
from vlib.engine import Part

PROPERTY = "C18"
RULE = ("A case is a set of fields (scattered, rectangular, unions of rows, columns, boxes, parts), given as "
        "list with repetitions in some order, a box size and separators. It is encoded in each mode, decoded "
        "by the code and by a reference parser. In 'invalid' some coordinate is outside or a box dimension "
        "is invalid. Non-trivial: at least two fields, or invalid.")
ASSUMPTIONS = ["separators do not contain digits or the letters r, c, b, p"]


def check(case, ctx):
    w, h = case["w"], case["h"]
    size = {"width": w, "height": h}
    kw = dict(size)
    if case["sep"] is not None:
        kw["sep"] = case["sep"]
    if case["nsep"] is not None:
        kw["nsep"] = case["nsep"]
    coords = [tuple(x) for x in case["coords"]]
    want = tuple(sorted(set(coords)))
    texts = {}
    for mode in (None, False, True):
        t = notation.encode(coords, use_boxes=mode, **kw)
        texts[mode] = t
        got = notation.decode(t, **kw)
        ctx.require(isinstance(got, tuple) and got == want,
                    "mode %s: %r decodes to %s instead of %s", mode, t, got, want)
        if not set(" \t") & set((case["sep"] or "") + (case["nsep"] or "")):
            p = nota.parse(t, w, h, case["sep"] or ",", case["nsep"] or "")
            ctx.require(p == set(want), "mode %s: %r means %s", mode, t, p and sorted(p))
        for other in (list(reversed(coords)), set(coords), tuple(coords) + tuple(coords),
                      (x for x in sorted(coords)), frozenset(coords)):
            t2 = notation.encode(other, use_boxes=mode, **kw)
            ctx.require(t2 == t, "mode %s: %r and %r for the same fields", mode, t, t2)
    ctx.require(notation.encode(coords, **kw) == texts[None], "automatic mode is not the default")
    ctx.require(texts[None] in (texts[False], texts[True]), "automatic mode returns something else")
    ctx.require(len(texts[None]) == min(len(texts[False]), len(texts[True])),
                "automatic mode returns %r, shorter: %r", texts[None],
                min(texts[False], texts[True], key=len))
    ctx.require("b" not in texts[False] and "p" not in texts[False], "boxes used: %r", texts[False])
    ctx.require("r" not in texts[True] and "c" not in texts[True], "boxes not used: %r", texts[True])
    if (w, h) == (3, 3) and case["sep"] is None and case["nsep"] is None:
        ctx.require(notation.encode(coords) == texts[None], "default size")
        ctx.require(notation.decode(texts[None]) == want, "default size")
    ctx.event("kind: " + case["kind"])
    ctx.event("automatic: " + ("boxes" if "b" in texts[None] else "rows"))
    ctx.event("numbers > 9: %s" % (w * h > 9))
    ctx.nontrivial(len(want) > 1)


def check_invalid(case, ctx):
    w, h = case["w"], case["h"]
    coords = [tuple(x) for x in case["coords"]]
    mode = case["mode"]
    try:
        t = notation.encode(coords, width=w, height=h, use_boxes=mode)
    except ValueError:
        pass
    else:
        ctx.fail("encode(%s, width=%s, height=%s) returns %r" % (coords, w, h, t))
    if case["dims"]:
        try:
            t = notation.decode("r1c1", width=w, height=h)
        except ValueError:
            pass
        else:
            ctx.fail("decode with width=%s, height=%s returns %r" % (w, h, t))
    ctx.event("dimension" if case["dims"] else "coordinates")
    ctx.nontrivial()


SIZES = st.one_of(
    gens.weighted((6, (3, 3)), (2, (2, 2)), (2, (2, 3)), (2, (3, 2)), (1, (4, 2)), (1, (2, 4)),
                  (1, (2, 5)), (1, (5, 2)), (1, (4, 3)), (1, (3, 4)), (1, (4, 4))),
    st.tuples(st.integers(1, 5), st.integers(1, 5)))


@st.composite
def fields(draw, w, h):
    g = ref.geo(w, h)
    n = g.n
    kind = draw(st.sampled_from(["few", "scattered", "rectangle", "units", "boxes", "all but"]))
    idx = st.integers(0, n - 1)
    if kind == "few":
        cells = draw(st.lists(st.tuples(idx, idx), min_size=1, max_size=6))
    elif kind == "scattered":
        m = draw(gens.bits(n * n))
        cells = [g.cells[i] for i in range(n * n) if m >> i & 1]
    elif kind == "rectangle":
        cells = []
        for _ in range(draw(st.integers(1, 3))):
            rs = draw(st.sets(idx, min_size=1, max_size=4))
            cs = draw(st.sets(idx, min_size=1, max_size=4))
            cells += [(r, c) for r in rs for c in cs]
    elif kind == "units":
        cells = []
        for _ in range(draw(st.integers(1, 3))):
            a = draw(st.sampled_from([g.rows, g.cols, g.boxes, g.parts]))[draw(idx)]
            b = draw(st.sampled_from([g.rows, g.cols, g.boxes, g.parts, [g.cells] * n]))[draw(idx)]
            cells += sorted(set(a) & set(b))
    elif kind == "boxes":
        bs = draw(st.sets(idx, min_size=1, max_size=4))
        ps = draw(st.sets(idx, min_size=1, max_size=n))
        cells = [g.boxes[b][p] for b in sorted(bs) for p in sorted(ps)]
    else:
        gone = set(draw(st.lists(st.tuples(idx, idx), max_size=3)))
        cells = [x for x in g.cells if x not in gone]
    if not cells:
        cells = [draw(st.tuples(idx, idx))]
    return kind, cells


@st.composite
def cases(draw):
    w, h = draw(SIZES)
    kind, cells = draw(fields(w, h))
    if len(cells) <= 40:
        cells = list(draw(st.permutations(cells)))
        cells += draw(st.lists(st.sampled_from(cells), max_size=3))
    sep = draw(st.one_of(st.none(), st.none(), st.sampled_from([",", ";", "|", " ", "::", ", "])))
    nsep = draw(st.one_of(st.none(), st.none(), st.sampled_from(["", ",", "-", "/", "--", " ", "\t", ", "])))
    return {"w": w, "h": h, "coords": [list(x) for x in cells], "kind": kind, "sep": sep, "nsep": nsep}


@st.composite
def few(draw, sizes):
    """Few fields of large sudokus."""
    w, h = draw(sizes)
    n = w * h
    idx = st.one_of(st.integers(0, n - 1), st.sampled_from([0, 8, 9, 98, 99, n - 1]))
    rs = draw(st.lists(idx, min_size=1, max_size=5))
    cells = [[r, c] for r in rs for c in draw(st.lists(idx, min_size=1, max_size=5))]
    if draw(st.booleans()):
        cs = draw(st.lists(idx, min_size=1, max_size=5))
        cells = [[r, c] for r in rs for c in cs]
    return w, h, cells


@st.composite
def hundred(draw):
    w, h, cells = draw(few(gens.sizes(gens.HUNDRED)))
    return {"w": w, "h": h, "coords": cells, "kind": "few", "sep": draw(st.sampled_from([None, ";", ", "])),
            "nsep": draw(st.sampled_from([None, "-", " "]))}


@st.composite
def invalid(draw):
    w, h = draw(SIZES)
    n = w * h
    cells = [list(x) for x in draw(fields(w, h))[1][:20]]
    dims = draw(st.integers(0, 2)) == 0
    if dims:
        cells = [[0, 0]]
        bad = draw(st.sampled_from([0, -1, -3, 0.5, 2.5, 1.5, -2.5, 3.25]))
        other = draw(st.sampled_from([1, 2, 3, 4, 0, -1, -3, 2.5]))
        w, h = draw(st.sampled_from([(bad, other), (other, bad)]))
    else:
        out = draw(st.one_of(st.sampled_from([-1, n, n + 1, -n]), st.integers(-30, -1), st.integers(n, 40 + n)))
        ok = draw(st.integers(0, n - 1))
        cells.insert(draw(st.integers(0, len(cells))),
                     draw(st.sampled_from([[out, ok], [ok, out], [out, out]])))
    return {"w": w, "h": h, "coords": cells, "dims": dims, "mode": draw(st.sampled_from([None, True, False]))}


PARTS = [
    Part("roundtrip", cases(), check, 30000, 150000, guided=0.1),
    Part("hundred", hundred(), check, 800, 8000),
    Part("invalid", invalid(), check_invalid, 10000, 20000),
]
