from hypothesis import strategies as st

from sudokutools.sudoku import Sudoku
from vlib import gens, sut
from vlib.engine import Part

PROPERTY = "C14"
RULE = ("A case is a list of numbers and candidate lists together with the way they are written: empty "
        "character, separators, whitespace between fields and lists, box size given or not, possibly one "
        "illegal character or a wrong number of fields. The text is built from these and decoded. "
        "Non-trivial: whitespace, candidates, another empty character or an error is involved.")
ASSUMPTIONS = ["the empty character differs from the separators"]
WHITE = " \t\n\r\x0b\x0c"


def infer(count):
    """Expected box size for a number of fields, None if there is none."""
    n = 1
    while n * n < count:
        n += 1
    if n * n != count:
        return None
    for k in range(1, n + 1):
        if k * k == n:
            return k, k
    for k in range(2, n):
        if n % k == 0:
            return k, n // k
    return None


def build(case):
    tokens = [case["empty"] if v == 0 else str(v) for v in case["nums"]]
    if case.get("replace"):
        tokens[case["replace"][0] % len(tokens)] = case["replace"][1]
    gaps = case["gaps"]
    nsep = case["number_sep"]
    out = [gaps[0]]
    for i, t in enumerate(tokens):
        if i:
            gap = gaps[i % len(gaps)]
            if nsep:
                half = len(gap) // 2
                gap = gap[:half] + nsep + gap[half:]
            out.append(gap)
        out.append(t)
    out.append(gaps[-1])
    text = "".join(out)
    # what follows the last field (up to the candidates) may be ignored
    last = len(text) - len(gaps[-1]) - len(tokens[-1])
    places = list(range(last + 1))
    if case["lists"] is not None:
        lists = []
        for i, l in enumerate(case["lists"]):
            # ignored whitespace between candidates as well
            gap = gaps[(i + 1) % len(gaps)][:1]
            if nsep:
                lists.append((gap + nsep).join(str(v) for v in l) if l else gap)
            else:
                lists.append(gap.join(str(v) for v in l) + gap)
        first = len(text) + 1
        text += case["sudoku_sep"] + case["candidate_sep"].join(lists)
        places.extend(range(first, len(text) + 1))
    return text, places


def decode(case, text):
    kw = {}
    if case["empty"] != "0" or case["explicit"]:
        kw["empty"] = case["empty"]
    if case["number_sep"]:
        kw["number_sep"] = case["number_sep"]
    if case["sudoku_sep"] != "|":
        kw["sudoku_sep"] = case["sudoku_sep"]
    if case["candidate_sep"] != ",":
        kw["candidate_sep"] = case["candidate_sep"]
    if case["box_size"]:
        kw["box_size"] = tuple(case["box_size"])
    return Sudoku.decode(text, **kw)


def check(case, ctx):
    text, places = build(case)
    n2 = len(case["nums"])
    size = tuple(case["box_size"]) if case["box_size"] else infer(n2)
    bad = case.get("bad")
    if bad:
        pos, char = bad
        pos = places[pos % len(places)]
        text = text[:pos] + char + text[pos:]
    bad = bad or case.get("replace")
    try:
        s = decode(case, text)
    except ValueError as e:
        ctx.require(size is None or bad, "%r raises ValueError: %s", text, e)
        ctx.event("ValueError: " + ("illegal character" if bad else "number of fields"))
        ctx.nontrivial()
        return
    ctx.require(not bad, "%r contains an illegal character, but is accepted", text)
    ctx.require(size is not None, "%d fields are accepted (box size %s)", n2, sut.size(s))
    ctx.require(sut.size(s) == size, "box size is %s, should be %s", sut.size(s), size)
    ctx.require(sut.flat(s) == case["nums"], "%r: wrong numbers %s", text, sut.flat(s))
    want = [frozenset()] * n2
    for i, l in enumerate(case["lists"] or []):
        want[i] = frozenset(l)
    ctx.require(sut.cands(s) == want, "%r: wrong candidates", text)
    ctx.event("empty: " + ("default" if case["empty"] == "0" else "digit" if case["empty"] in "123456789" else "white" if case["empty"] in WHITE
                           else "ascii" if ord(case["empty"]) < 128 else "other"))
    ctx.event("size inferred: %s" % (not case["box_size"]))
    ctx.event("candidates: %s" % ("no" if case["lists"] is None else
                                  "all" if len(case["lists"]) == n2 else "some"))
    ctx.event("whitespace: %s" % any(case["gaps"]))
    ctx.nontrivial(any(case["gaps"]) or case["lists"] is not None or case["empty"] != "0")


@st.composite
def cases(draw, sep):
    if sep:
        w, h = draw(gens.weighted((2, (3, 3)), (2, (2, 2)), (1, (2, 3)), (1, (3, 2)), (2, (2, 5)), (1, (5, 2)),
                                  (1, (3, 4)), (1, (4, 3)), (1, (1, 2)), (1, (1, 1)), (1, (4, 4)), (1, (2, 6))))
    else:
        w, h = draw(gens.weighted((3, (3, 3)), (3, (2, 2)), (2, (2, 3)), (2, (3, 2)), (1, (2, 4)), (1, (4, 2)),
                                  (1, (1, 1)), (1, (1, 3)), (1, (3, 1)), (1, (1, 5)), (1, (2, 5)), (1, (4, 4)),
                                  (1, (4, 3))))
    n = w * h
    m = draw(gens.bits(n * n))
    vals = draw(st.binary(min_size=n * n, max_size=n * n))
    # without separator only numbers up to 9 can be written, however large the sudoku is
    top = n if sep else min(n, 9)
    nums = [1 + v % top if m >> i & 1 else 0 for i, v in enumerate(vals)]
    case = {"nums": nums, "explicit": draw(st.booleans()), "number_sep": None,
            "sudoku_sep": "|", "candidate_sep": ",", "lists": None}
    if draw(st.integers(0, 3)) == 0:
        case["sudoku_sep"], case["candidate_sep"] = draw(st.sampled_from(
            [("/", ";"), ("#", ":"), ("|", ";"), ("!", ","), ("=", "|")]))
    if sep:
        case["number_sep"] = draw(st.sampled_from(["-", " ", ":", "\t", "--", "x", "\n"]))
        if case["number_sep"][0] in case["candidate_sep"] + case["sudoku_sep"]:
            case["number_sep"] = "-"
    taken = case["sudoku_sep"] + case["candidate_sep"] + (case["number_sep"] or "") + "123456789"
    empties = ["0", ".", "_", "x", "*", "?", " ", "\t", "\n", "\x0b", "□", "é", "\u4e00", "|", ",", "O", "+"]
    empty = draw(st.one_of(st.just("0"), st.sampled_from([e for e in empties if e not in taken])))
    case["empty"] = empty
    if not draw(st.integers(0, 9)):
        # a digit: this number cannot be written then
        case["empty"] = empty = draw(st.sampled_from("123456789"))
        case["nums"] = [0 if v == int(empty) else v for v in nums]
    white = "".join(c for c in WHITE if c != empty and c not in taken)
    case["gaps"] = draw(st.lists(st.text(alphabet=white, max_size=3), min_size=1, max_size=7)) \
        if draw(st.integers(0, 3)) else [""]
    if draw(st.booleans()):
        k = draw(st.integers(1, n * n)) if draw(st.booleans()) else n * n
        k = min(k, 30) if draw(st.booleans()) else k
        lists = []
        raw = draw(st.binary(min_size=k * 4, max_size=k * 4))
        for i in range(k):
            b = raw[4 * i:4 * i + 4]
            lists.append([1 + x % top for x in b[:b[0] % 5]])
        # an entirely empty candidate part is the same as none
        case["lists"] = lists
    case["box_size"] = [w, h] if w != h or draw(st.booleans()) else None
    if draw(st.integers(0, 5)) == 0:
        bad = [c for c in "abcdefXYZ$%&()äß²€~@gGoOl" if c != empty and c not in taken]
        case[draw(st.sampled_from(["bad", "replace"]))] = [draw(st.integers(0, 2000)), draw(st.sampled_from(bad))]
    return case


@st.composite
def counts(draw):
    """Without box size: any number of fields."""
    k = draw(st.one_of(st.integers(1, 130), st.sampled_from([i * i for i in range(1, 17)])))
    vals = draw(st.binary(min_size=k, max_size=k))
    sep = draw(st.sampled_from([None, " ", "-"]))
    case = {"nums": [v % 2 for v in vals], "explicit": False, "number_sep": sep, "sudoku_sep": "|",
            "candidate_sep": ",", "lists": None, "empty": draw(st.sampled_from(["0", "."])),
            "gaps": draw(st.lists(st.sampled_from(["", "\n", "\t"]), min_size=1, max_size=4)), "box_size": None}
    if draw(st.integers(0, 3)) == 0:
        case["lists"] = [[1]]
    return case


PARTS = [
    Part("plain", cases(False), check, 30000, 100000, guided=0.1),
    Part("separated", cases(True), check, 15000, 60000, guided=0.1),
    Part("counts", counts(), check, 15000, 40000),
]
