import re

from hypothesis import strategies as st

from sudokutools import notation
from vlib import gens, nota, ref
from vlib.engine import Part

PROPERTY = "C19"
RULE = ("A case is a text and a box size. 'groups': well-formed texts built from groups of qualifiers with "
        "random order, numbers and whitespace; 'mutated': such texts after a few deletions, insertions, "
        "duplications or replacements; 'text': arbitrary text. A reference parser decides whether the text "
        "is well-formed and what it means. Non-trivial: several groups or qualifiers, or malformed.")
ASSUMPTIONS = ["numbers with leading zeros and whitespace other than ASCII may be accepted or rejected"]


def check(case, ctx):
    w, h, text = case["w"], case["h"], case["text"]
    sep, nsep = case.get("sep"), case.get("nsep")
    kw = {"width": w, "height": h}
    if (w, h) == (3, 3) and len(text) % 2:
        kw = {}
    if sep is not None:
        kw["sep"] = sep
    if nsep is not None:
        kw["nsep"] = nsep
    want = nota.parse(text, w, h, sep or ",", nsep or "")
    try:
        got = notation.decode(text, **kw)
    except ValueError as e:
        got = None
    if got is None:
        ctx.require(want is None or re.search("(?<![0-9])0[0-9]", nota.strip(text)),
                    "%r raises ValueError, should be %s", text, want and sorted(want))
        ctx.event("malformed")
        ctx.nontrivial()
        return
    if want is None:
        # other kinds of whitespace
        plain = "".join(text.split())
        if plain != nota.strip(text):
            want = nota.parse(plain, w, h, sep or ",", nsep or "")
    ctx.require(want is not None, "%r is malformed, but decodes to %s", text, got)
    ctx.require(isinstance(got, tuple) and got == tuple(sorted(want)),
                "%r decodes to %s instead of %s", text, got, sorted(want))
    groups = case.get("groups", 0)
    ctx.event("groups: %s" % (groups or "?"))
    ctx.event("fields: %s" % ("none" if not want else "some"))
    ctx.nontrivial(groups > 1 or len(re.findall("[rcbp]", text)) > 1)


SIZES = st.one_of(
    gens.weighted((6, (3, 3)), (2, (2, 2)), (2, (2, 3)), (2, (3, 2)), (1, (4, 2)), (1, (2, 4)),
                  (2, (2, 5)), (2, (5, 2)), (1, (4, 3)), (1, (3, 4)), (1, (4, 4))),
    st.tuples(st.integers(1, 5), st.integers(1, 5)))
GAP = st.sampled_from(["", "", "", "", " ", "\t", "\n", "  "])


@st.composite
def wellformed(draw):
    w, h = draw(SIZES)
    n = w * h
    sep = draw(st.one_of(st.none(), st.none(), st.sampled_from([",", ";", "|", "::"])))
    nsep = draw(st.one_of(st.none(), st.none(), st.sampled_from(["", ",", "-", "/"])))
    ns = nsep or ("," if n > 9 else "")
    count = draw(st.sampled_from([1, 1, 2, 2, 3, 5]))
    groups = []
    for _ in range(count):
        k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
        quals = draw(st.permutations("rcbp"))[:k]
        g = []
        for q in quals:
            nums = draw(st.lists(st.integers(1, n), min_size=1, max_size=draw(st.sampled_from([1, 3, 6]))))
            g.append(q)
            g.append(ns.join(str(x) for x in nums))
        groups.append("".join(g))
    text = (sep or ",").join(groups)
    if draw(st.booleans()):
        gaps = draw(st.lists(GAP, min_size=1, max_size=8))
        text = "".join(gaps[i % len(gaps)] + c for i, c in enumerate(text)) + gaps[0]
    return {"w": w, "h": h, "text": text, "groups": count, "sep": sep, "nsep": nsep}


ALPHABET = "rcbp0123456789,,;  -/|=<>RCxz.\t²٣é"


@st.composite
def mutated(draw):
    case = draw(wellformed())
    text = case["text"]
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        i = draw(st.integers(0, len(text)))
        what = draw(st.integers(0, 4))
        if what == 0:
            text = text[:i] + text[i + 1:]
        elif what == 1:
            text = text[:i] + draw(st.sampled_from(ALPHABET)) + text[i:]
        elif what == 2:
            text = text[:i] + draw(st.sampled_from(ALPHABET)) + text[i + 1:]
        elif what == 3:
            j = draw(st.integers(i, min(len(text), i + 4)))
            text = text[:j] + text[i:j] + text[j:]
        else:
            n = case["w"] * case["h"]
            bad = str(draw(st.sampled_from([0, n + 1, n + 2, 10 * n, 99])))
            text = text[:i] + bad + text[i + 1:]
    case["text"] = text
    del case["groups"]
    return case


@st.composite
def anytext(draw):
    w, h = draw(SIZES)
    text = draw(st.one_of(st.text(alphabet="rcbp123456789,", max_size=12),
                          st.text(alphabet=ALPHABET, max_size=12),
                          st.text(max_size=10)))
    return {"w": w, "h": h, "text": text}


PARTS = [
    Part("groups", wellformed(), check, 20000, 100000, guided=0.1),
    Part("mutated", mutated(), check, 24000, 200000, guided=0.1),
    Part("text", anytext(), check, 24000, 200000, guided=0.1),
]
