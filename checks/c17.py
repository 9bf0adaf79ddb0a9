from hypothesis import strategies as st

from sudokutools import coordinates as co
from sudokutools.sudoku import Sudoku
from vlib import ref, sut
from vlib.engine import Part

PROPERTY = "C17"
RULE = ("A case is a box size and a field (or an index outside the sudoku); sizes up to 8x8 boxes, some larger. All group "
        "functions and the methods of Sudoku are compared with groups built from the definition. Lists "
        "returned are changed by the caller and asked for again. Non-trivial: box width and height differ, "
        "or an index outside.")
ASSUMPTIONS = ["the order within a group is not checked"]


def same(got, want, ctx, what):
    got = [tuple(x) for x in got]
    ctx.require(len(got) == len(set(got)), "%s lists a field twice: %s", what, got)
    ctx.require(set(got) == set(want), "%s: %s instead of %s", what, sorted(got), sorted(want))


def check(case, ctx):
    w, h, r, c = case["w"], case["h"], case["r"], case["c"]
    g = ref.geo(w, h)
    n = g.n
    r, c = r % n, c % n
    s = Sudoku(box_size=(w, h))
    box, part = g.box_index[(r, c)]
    default = (w, h) == (3, 3) and case["default"]
    size = {} if default else {"width": w, "height": h}
    ctx.require(co.box_at(r, c, **size) == box, "box_at(%d, %d)", r, c)
    ctx.require(s.box_at(r, c) == box, "Sudoku.box_at(%d, %d)", r, c)
    for _ in range(2):      # the second time after changing the results
        for incl in (True, False, None):
            kw = {} if incl is None else {"include": incl}
            me = set() if incl is False else {(r, c)}
            for name, want in (("row_of", g.rows[r]), ("column_of", g.cols[c]), ("box_of", g.boxes[box]),
                               ("surrounding_of", g.peers[(r, c)])):
                want = (set(want) - {(r, c)}) | me
                a = getattr(co, name)(r, c, **dict(size, **kw))
                b = getattr(s, name)(r, c, **kw)
                same(a, want, ctx, "coordinates.%s(%d, %d, %s)" % (name, r, c, kw))
                same(b, want, ctx, "Sudoku.%s(%d, %d, %s)" % (name, r, c, kw))
                for l in (a, b):
                    if isinstance(l, list):
                        l.append((n, n))
                        del l[0]
        i = case["index"] % n
        for name, groups in (("the_row", g.rows), ("the_column", g.cols), ("the_box", g.boxes),
                             ("the_part", g.parts)):
            a = getattr(co, name)(i, **size)
            same(a, groups[i], ctx, "%s(%d)" % (name, i))
            if isinstance(a, list):
                del a[0]
    ctx.event("shape: " + ("square" if w == h else "wide" if w > h else "high"))
    ctx.nontrivial(w != h)


def check_partition(case, ctx):
    w, h = case["w"], case["h"]
    g = ref.geo(w, h)
    n = g.n
    s = Sudoku(box_size=(w, h))
    for name in ("the_row", "the_column", "the_box", "the_part"):
        cells = []
        for i in range(n):
            group = getattr(co, name)(i, width=w, height=h)
            ctx.require(len(group) == n, "%s(%d) has %d fields", name, i, len(group))
            cells.extend(group)
        ctx.require(sorted(cells) == g.cells, "%s groups do not cover every field once", name)
    for (r, c) in g.cells:
        b = co.box_at(r, c, width=w, height=h)
        ctx.require((r, c) in co.the_box(b, width=w, height=h), "(%d, %d) is not in its box %d", r, c, b)
        ctx.require(b == s.box_at(r, c) == g.box_index[(r, c)][0], "box of (%d, %d)", r, c)
        same(s.box_of(r, c), co.the_box(b, width=w, height=h), ctx, "box_of(%d, %d)" % (r, c))
    ctx.event("size: %dx%d" % (w, h))
    ctx.nontrivial(w != h)


def check_errors(case, ctx):
    w, h = case["w"], case["h"]
    n = w * h
    i = case["index"]
    default = (w, h) == (3, 3) and case["default"]
    size = {} if default else {"width": w, "height": h}
    for name in ("the_row", "the_column", "the_box", "the_part"):
        try:
            got = getattr(co, name)(i, **size)
        except ValueError:
            ctx.require(not 0 <= i < n, "%s(%d) raises ValueError", name, i)
        else:
            ctx.require(0 <= i < n, "%s(%d) returns %s", name, i, got)
    ctx.event("inside: %s" % (0 <= i < n))
    ctx.nontrivial(not 0 <= i < n)


DIM = st.integers(1, 8)


@st.composite
def fields(draw):
    w, h = draw(st.one_of(st.tuples(DIM, DIM), st.sampled_from([(3, 3), (2, 3), (3, 2), (10, 10), (11, 9), (4, 25), (13, 1)])))
    n = w * h
    return {"w": w, "h": h, "r": draw(st.integers(0, n - 1)), "c": draw(st.integers(0, n - 1)),
            "index": draw(st.integers(0, n - 1)), "default": draw(st.booleans())}


@st.composite
def outside(draw):
    w, h = draw(st.one_of(st.tuples(DIM, DIM), st.just((3, 3))))
    n = w * h
    i = draw(st.one_of(st.integers(-2 * n - 3, 3 * n), st.sampled_from([-1, n - 1, n, n + 1, 0])))
    return {"w": w, "h": h, "index": i, "default": draw(st.booleans())}


PARTS = [
    Part("fields", fields(), check, 32000, 100000),
    Part("partition", st.tuples(st.integers(1, 6), st.integers(1, 6)).map(lambda x: {"w": x[0], "h": x[1]}),
         check_partition, 240, 400),
    Part("outside", outside(), check_errors, 12000, 20000),
]
