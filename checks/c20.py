import re

from hypothesis import strategies as st

from checks.c18 import SIZES, few, fields
from sudokutools import notation
from sudokutools.actions import RemoveCandidates, SetNumber
from vlib import gens, nota, sut
from vlib.engine import Part

PROPERTY = "C20"
RULE = ("A case is an action (kind, fields, numbers) and a sudoku with arbitrary numbers and candidates. The "
        "action is encoded, decoded and applied; other notations of it are decoded. 'text': well-formed and "
        "mutated action texts, compared with a reference parser. Non-trivial: several fields or several "
        "candidates or more than nine numbers.")
ASSUMPTIONS = ["texts in which a number of the action is not plain ASCII digits or not one of 1..n may be accepted or rejected"]


def content(action, ctx):
    coords = [tuple(x) for x in action.coordinates]
    ctx.require(len(coords) == len(set(coords)), "repeated coordinates %s", coords)
    if isinstance(action, SetNumber):
        return "set", frozenset(coords), frozenset([action.number])
    ctx.require(isinstance(action, RemoveCandidates), "unknown action %r", action)
    return "remove", frozenset(coords), frozenset(action.candidates)


def spoil(action):
    """Change everything about the action that can be changed."""
    for name in ("coordinates", "candidates"):
        try:
            getattr(getattr(action, name, None), "clear", int)()
            setattr(action, name, ())
        except (AttributeError, TypeError):
            pass
    try:
        action.number = 0
    except (AttributeError, TypeError):
        pass


def make(case):
    coords = [tuple(x) for x in case["coords"]]
    if case["what"] == "set":
        return SetNumber(coords, case["values"][0])
    return RemoveCandidates(coords, case["container"] and set(case["values"]) or list(case["values"]))


def check(case, ctx):
    w, h = case["w"], case["h"]
    n = w * h
    if "seed" in case:
        case = dict(case)
        case["nums"], case["cands"] = gens.sparse(w, h, case["seed"])
    size = {} if (w, h) == (3, 3) and case["default"] else {"width": w, "height": h}
    coords = frozenset(tuple(x) for x in case["coords"])
    vals = frozenset(case["values"][:1] if case["what"] == "set" else case["values"])
    want = (case["what"], coords, vals)
    text = notation.encode_action(make(case), **size)
    nsep = "," if n > 9 else ""
    texts = [text, " %s\n" % text]
    where = nota.row_text(sorted(coords), w, h)
    if case["what"] == "set":
        texts.append("%s=%d" % (where, case["values"][0]))
        texts.append("%s = %d" % (where, case["values"][0]))
    else:
        cand = nsep.join(str(v) for v in case["values"])
        texts += ["%s<>%s" % (where, cand), "-%s %s" % (cand, where)]
    for t in texts:
        action = notation.decode_action(t, **size)
        got = content(action, ctx)
        ctx.require(got == want, "%r decodes to %s instead of %s", t, got, want)
        s = sut.make(w, h, case["nums"], case["cands"])
        action(s)
        nums, cands = list(sut.unpack(case["nums"])), [set(sut.values(m)) for m in case["cands"]]
        for (r, c) in coords:
            i = r * n + c
            if case["what"] == "set":
                nums[i] = case["values"][0]
                cands[i] = set(vals)
            else:
                cands[i] -= vals
        ctx.require(sut.flat(s) == nums, "%r: numbers %s instead of %s", t, sut.flat(s), nums)
        ctx.require(sut.cands(s) == [frozenset(x) for x in cands], "%r: wrong candidates", t)
        # once more changes nothing
        if case["what"] == "remove":
            action(s)
            ctx.require(sut.cands(s) == [frozenset(x) for x in cands], "%r: wrong candidates", t)
        # the action belongs to the caller
        spoil(action)
        again = content(notation.decode_action(t, **size), ctx)
        ctx.require(again == want, "%r decodes to %s instead of %s the second time", t, again, want)
    # the action itself, also applied to another sudoku
    s = sut.make(w, h, [0] * (n * n), [0] * (n * n))
    s2 = sut.make(w, h, case["nums"], case["cands"])
    action = make(case)
    action(s)
    action(s2)
    if case["what"] == "set":
        ctx.require([i for i, v in enumerate(sut.flat(s)) if v] == sorted(r * n + c for r, c in coords),
                    "action sets other fields")
        s.remove_candidates(min(coords)[0], min(coords)[1], vals)
        ctx.require(all((case["values"][0] in s.get_candidates(*x)) == (x != min(coords)) for x in coords),
                    "fields share their candidates")
    ctx.event("kind: " + case["what"])
    ctx.event("numbers > 9: %s" % (n > 9))
    ctx.nontrivial(len(coords) > 1 or len(vals) > 1 or n > 9)


@st.composite
def cases(draw):
    w, h = draw(SIZES)
    n = w * h
    _, cells = draw(fields(w, h))
    cells = sorted(set(cells))[:30]
    what = draw(st.sampled_from(["set", "remove", "remove"]))
    values = draw(st.lists(st.integers(1, n), min_size=1, max_size=5, unique=True))
    vals = draw(st.binary(min_size=n * n, max_size=n * n))
    m = draw(gens.bits(n * n))
    nums = sut.pack([1 + v % n if m >> i & 1 else 0 for i, v in enumerate(vals)])
    k = (n + 7) // 8
    raw = draw(st.binary(min_size=k * n * n, max_size=k * n * n))
    cands = [int.from_bytes(raw[k * i:k * i + k], "little") & ((1 << n) - 1) for i in range(n * n)]
    return {"w": w, "h": h, "coords": [list(x) for x in draw(st.permutations(cells))], "what": what,
            "values": values, "nums": nums, "cands": cands, "default": draw(st.booleans()),
            "container": draw(st.booleans())}


@st.composite
def hundred(draw):
    w, h, cells = draw(few(gens.sizes([(10, 10), (4, 25), (25, 4), (101, 1)])))
    n = w * h
    cells = sorted(set(map(tuple, cells)))
    values = draw(st.lists(st.one_of(st.integers(1, n), st.sampled_from([1, 10, 99, 100])), min_size=1, max_size=5,
                           unique=True))
    return {"w": w, "h": h, "coords": [list(x) for x in draw(st.permutations(cells))],
            "what": draw(st.sampled_from(["set", "remove"])), "values": values, "default": False,
            "container": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31))}


# -- texts ----------------------------------------------------------------------

def parse(text, w, h):
    """(kind, fields, numbers), None if text is no action, or 'maybe'."""
    n = w * h
    text = text.strip(nota.SPACE)
    if text.startswith("-"):
        m = re.fullmatch("-([^ ]*) (.*)", text, re.S)
        if not m:
            return None
        what, nums, where = "remove", m.group(1), m.group(2)
    elif "<>" in text:
        where, nums = text.split("<>", 1)
        what = "remove"
    elif "=" in text:
        where, nums = text.split("=", 1)
        what = "set"
    else:
        return None
    cells = nota.parse(where, w, h)
    if cells is None:
        return None
    # Whitespace within coordinates is ignored, around candidates it isn't specified.
    if what == "remove" and nums != nums.strip(nota.SPACE):
        return "maybe"
    nums = nums.strip(nota.SPACE)
    one = "[0-9]+" if what == "set" or n > 9 else "[0-9]"
    if what == "set":
        ok = re.fullmatch(one, nums)
        vals = [nums]
    else:
        ok = re.fullmatch("%s(?:%s%s)*" % (one, "," if n > 9 else "", one), nums)
        vals = nums.split(",") if n > 9 else list(nums)
    if not ok:
        # empty candidate lists, signs, inner spaces: not specified
        if not nums and what == "remove" or re.search(r"[\s+_-]", nums):
            return "maybe"
        if any(c.isdecimal() and c not in "0123456789" for c in nums):
            return "maybe"
        return None
    vals = frozenset(int(v) for v in vals)
    if not all(1 <= v <= n for v in vals):
        return "maybe"
    return what, frozenset(cells), vals


def check_text(case, ctx):
    w, h, text = case["w"], case["h"], case["text"]
    want = parse(text, w, h)
    if any(c.isspace() and c not in nota.SPACE for c in text) or re.search("(?<![0-9])0[0-9]", text):
        want = "maybe"
    try:
        action = notation.decode_action(text, width=w, height=h)
    except ValueError:
        ctx.require(want in (None, "maybe"), "%r raises ValueError, should be %s", text, want)
        ctx.event("no action")
        ctx.nontrivial()
        return
    ctx.require(want is not None, "%r is no action, but decodes to %s", text, action)
    if want != "maybe":
        got = content(action, ctx)
        ctx.require(got == want, "%r decodes to %s instead of %s", text, got, want)
        ctx.event(want[0])
        ctx.nontrivial(len(want[1]) > 1 or len(want[2]) > 1)


ALPHABET = "rcbp0123456789,,  -=<>+_.xé"


@st.composite
def texts(draw):
    w, h = draw(SIZES)
    n = w * h
    nsep = "," if n > 9 else ""
    if draw(st.integers(0, 4)) == 0:
        return {"w": w, "h": h, "text": draw(st.one_of(
            st.text(alphabet="rc12-=<> ", max_size=12), st.text(alphabet=ALPHABET, max_size=12),
            st.text(max_size=8)))}
    parts = []
    for q in draw(st.sampled_from(["rc", "r", "bp", "cr", "b", "rb"])):
        nums = draw(st.lists(st.integers(1, n), min_size=1, max_size=3))
        parts.append(q + nsep.join(map(str, nums)))
    where = "".join(parts)
    nums = draw(st.lists(st.integers(1, n), min_size=1, max_size=4))
    cand = nsep.join(map(str, nums))
    text = draw(st.sampled_from(["%s=%d" % (where, nums[0]), "%s<>%s" % (where, cand),
                                 "-%s %s" % (cand, where), "  %s<>%s " % (where, cand)]))
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        i = draw(st.integers(0, len(text)))
        k = draw(st.integers(0, 3))
        c = draw(st.sampled_from(ALPHABET))
        text = text[:i] + ["", c, c, text[max(0, i - 3):i]][k] + text[i + (k != 1 and k != 3):]
    return {"w": w, "h": h, "text": text}


PARTS = [
    Part("actions", cases(), check, 16000, 80000, guided=0.05),
    Part("hundred", hundred(), check, 60, 1000),
    Part("text", texts(), check_text, 24000, 200000, guided=0.1),
]
