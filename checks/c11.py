import random

from hypothesis import strategies as st

from sudokutools.generate import create_solution, generate_from_template
from vlib import gens, ref, sut
from vlib.engine import Part

PROPERTY = "C11"
RULE = ("A case is a template (pattern of a minimal unique sudoku plus random further fields, a random "
        "pattern, an empty or nearly full one, or one with an exchangeable rectangle), the number of tries "
        "and a random seed. The result is checked for size, exactly the template's pattern, exactly one "
        "completion; RuntimeError must be raised for zero tries and for patterns admitting no unique "
        "sudoku; it must not be raised after 400 tries for patterns which at least a fourth of sampled complete "
        "grids turn into a unique sudoku. Non-trivial: a result with empty fields, or an impossible pattern.")
ASSUMPTIONS = ["that a pattern is impossible is known from an exchangeable pair of fully empty lines or from "
               "fewer than n-1 numbers"]


def likely(case, template, ctx):
    """Would nearly any series of this many tries succeed?"""
    if case["kind"] != "likely":
        return False
    w, h = case["w"], case["h"]
    rng = random.Random(case["seed"] + 1)
    state = random.getstate()
    random.seed(case["seed"] + 2)
    try:
        good = [0, 0]
        for i in range(40):
            for j, grid in enumerate((gens.random_grid(w, h, rng), sut.flat(create_solution(box_size=(w, h))))):
                nums = [v if template[k] else 0 for k, v in enumerate(grid)]
                good[j] += len(ref.solutions(w, h, nums, limit=2, max_nodes=20000)) == 1
    except ref.Limit:
        return False
    finally:
        random.setstate(state)
    return min(good) >= 10


def check(case, ctx):
    w, h = case["w"], case["h"]
    n = w * h
    template = sut.make(w, h, case["template"], case.get("cands"))
    base = sut.full(template)
    tries = case["tries"]
    if tries is not None and tries < 0:
        # as many as needed
        if likely(case, base[1], ctx):
            ctx.event("negative number of tries")
        else:
            tries = 400
    random.seed(case["seed"])
    try:
        if tries is None:
            s = generate_from_template(template)
        else:
            s = generate_from_template(template, tries=tries)
    except RuntimeError as e:
        if isinstance(e, RecursionError):
            raise
        if likely(case, base[1], ctx):
            ctx.fail("RuntimeError after %s tries, although many complete grids with this pattern are unique "
                     "sudokus" % tries)
        ctx.event("RuntimeError (%s)" % case["kind"])
        ctx.require(sut.full(template) == base, "the template has been changed")
        # a full or nearly full template always succeeds at the first try
        if case["kind"] == "full" and case["tries"] != 0:
            ctx.fail("RuntimeError for a full template")
        ctx.nontrivial(case["kind"] == "impossible")
        return
    ctx.require(case["tries"] != 0, "a result although no try is allowed")
    ctx.require(case["kind"] != "impossible", "a result for a pattern which admits no unique sudoku")
    ctx.require(sut.full(template) == base, "the template has been changed")
    ctx.require(s is not template, "the template itself is returned")
    ctx.require(sut.size(s) == (w, h), "wrong box size %s", sut.size(s))
    nums = sut.flat(s)
    ctx.require([bool(v) for v in nums] == [bool(v) for v in base[1]], "the pattern differs from the template")
    ctx.require(all(0 <= v <= n for v in nums), "numbers out of range")
    try:
        k = len(ref.solutions(w, h, nums, limit=2, max_nodes=100000))
        ctx.require(k == 1, "the generated sudoku has %s completions", ("no", "", "several")[k])
    except ref.Limit:
        ctx.event("uniqueness not decided")
    ctx.event("result (%s)" % case["kind"])
    ctx.nontrivial(0 in nums)
    # the result belongs to the caller
    sut.spoil(s)
    ctx.require(sut.full(template) == base, "the template has been changed")
    if n <= 4 and "again" not in case:
        check(dict(case, again=True), ctx)


@st.composite
def cases(draw, sizes, max_tries):
    w, h = draw(sizes)
    g = ref.geo(w, h)
    n = g.n
    kind = draw(st.sampled_from(["minimal", "minimal", "minimal", "sparse", "full", "impossible", "zero"]))
    tries = draw(st.one_of(st.integers(1, max_tries), st.just(max_tries)))
    marks = draw(gens.bits(n * n, 4))
    if kind in ("minimal", "zero"):
        full, p = draw(gens.unique(w, h))
        pattern = [bool(v) for v in p]
        if kind == "zero":
            tries = 0
        elif draw(st.booleans()):
            m = draw(gens.bits(n * n, draw(st.sampled_from([4, 5, 6]))))
            pattern = [v or bool(m >> i & 1) for i, v in enumerate(pattern)]
    elif kind == "sparse":
        m = draw(gens.bits(n * n, draw(st.sampled_from([3, 4, 5, 6, 7]))))
        pattern = [bool(m >> i & 1) for i in range(n * n)]
        tries = min(tries, 3)
    elif kind == "full":
        pattern = [True] * (n * n)
        if n > 1:
            for i in draw(st.lists(st.integers(0, n * n - 1), max_size=1)):
                pattern[i] = False
    else:
        tries = min(tries, 3)
        pattern = [True] * (n * n)
        if n < 2:
            pattern, kind, tries = [True], "full", 1
        else:
            # two empty lines in the same band (or stack): they can be exchanged
            if h > 1 and (w == 1 or draw(st.booleans())):
                band = draw(st.integers(0, w - 1))
                for r in draw(st.permutations(range(h)))[:2]:
                    for c in range(n):
                        pattern[(band * h + r) * n + c] = False
            else:
                stack = draw(st.integers(0, h - 1))
                for c in draw(st.permutations(range(w)))[:2]:
                    for r in range(n):
                        pattern[r * n + stack * w + c] = False
    if draw(st.integers(0, 4)) == 0 and kind == "minimal":
        tries = None
    return build(w, h, kind, pattern, tries, marks, draw(st.integers(0, 2 ** 31)), draw(st.booleans()))


def build(w, h, kind, pattern, tries, marks, seed, cands):
    n = w * h
    # every non-zero value marks a field; also conflicting ones
    template = [(1 + (i + (marks >> i & 1)) % n if marks >> (i // 2) & 1 else 1) if v else 0
                for i, v in enumerate(pattern)]
    case = {"w": w, "h": h, "kind": kind, "template": sut.pack(template), "tries": tries, "seed": seed}
    if cands:
        case["cands"] = [1] * (n * n)
    return case


@st.composite
def likely_cases(draw, sizes):
    """Patterns which most complete grids turn into a unique sudoku."""
    w, h = draw(sizes)
    n = w * h
    full, p = draw(gens.unique(w, h))
    m = draw(gens.bits(n * n, draw(st.sampled_from([0, 1, 2, 3, 4]))))
    pattern = [bool(v) or bool(m >> i & 1) for i, v in enumerate(p)]
    # enough tries: always found
    rng = random.Random(draw(st.integers(0, 2 ** 31)))
    good = 0
    try:
        for i in range(12):
            grid = gens.random_grid(w, h, rng)
            good += len(ref.solutions(w, h, [v if pattern[k] else 0 for k, v in enumerate(grid)], limit=2,
                                      max_nodes=20000)) == 1
    except ref.Limit:
        good = 0
    tries = draw(st.sampled_from([400, 400, -1, -7])) if good >= 4 else 2
    return build(w, h, "likely" if tries != 2 else "minimal", pattern, tries, draw(gens.bits(n * n, 4)),
                 draw(st.integers(0, 2 ** 31)), draw(st.booleans()))


@st.composite
def large_cases(draw):
    """More than nine numbers, mostly filled."""
    w, h = draw(st.sampled_from([(2, 5), (5, 2), (3, 4), (4, 3), (2, 6), (6, 2), (1, 10), (11, 1), (4, 4), (3, 5)]))
    n = w * h
    kind = draw(st.sampled_from(["full", "full", "sparse", "zero", "impossible"]))
    rng = random.Random(draw(st.integers(0, 2 ** 31)))
    empty = []
    if kind == "full":
        empty = [rng.randrange(n * n)]
    elif kind == "impossible":
        # two fully empty lines of a band or stack
        if h > 1:
            r = rng.randrange(w) * h
            empty = [i for i in range(r * n, (r + 2) * n)]
        else:
            empty = [i for i in range(n * n) if i % n < 2]
    else:
        empty = rng.sample(range(n * n), rng.randint(1, 3 * n))
    pattern = [i not in empty for i in range(n * n)]
    return build(w, h, kind, pattern, 0 if kind == "zero" else draw(st.integers(1, 3)),
                 rng.getrandbits(n * n), rng.randrange(2 ** 31), draw(st.booleans()))


#: patterns (2x3 boxes) which about one in 200 to 600 complete grids turns into a unique sudoku
RARE = ["004000000500020006006050000000010003", "400600000030000000000250100000030004",
        "500000000043000200060000003001020000", "500000002000000650000100000003060004",
        "501000000620000000000060000003204000", "000000000560310000200003000004000200",
        "360000000000000014000002000030014000", "120000000043000000002000400006005000",
        "350000000000006000200030064000000010", "000020000540000006600003010000000400",
        "040005000000000210000100003000020006", "030405000000106000000000050003600000",
        "000300000040300020005006000000062000"]


def check_patient(case, ctx):
    """A negative number of tries: go on for hundreds of tries."""
    pattern = [v != "0" for v in case["template"]]
    random.seed(case["seed"] + 1)
    for _ in range(4000):
        nums = [v if p else 0 for v, p in zip(sut.flat(create_solution(box_size=(2, 3))), pattern)]
        if len(ref.solutions(2, 3, nums, limit=2, max_nodes=20000)) == 1:
            break
    else:
        ctx.event("skipped: no such sudoku found")
        return
    random.seed(case["seed"])
    template = sut.make(2, 3, case["template"])
    try:
        s = generate_from_template(template, tries=case["tries"])
    except RuntimeError as e:
        ctx.fail("tries=%d: %s" % (case["tries"], e))
    nums = sut.flat(s)
    ctx.require(sut.size(s) == (2, 3), "wrong box size %s", sut.size(s))
    ctx.require([bool(v) for v in nums] == pattern, "the pattern differs from the template")
    ctx.require(len(ref.solutions(2, 3, nums, limit=2, max_nodes=100000)) == 1, "not unique")
    ctx.nontrivial()


@st.composite
def patient(draw):
    return {"w": 2, "h": 3, "template": draw(st.sampled_from(RARE)), "tries": draw(st.sampled_from([-1, -1, -100])),
            "seed": draw(st.integers(0, 2 ** 31))}


PARTS = [
    Part("patient", patient(), check_patient, 32, 600),
    Part("small", cases(st.sampled_from([(2, 2), (2, 3), (3, 2), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1)]), 30),
         check, 4500, 60000),
    Part("standard", cases(st.sampled_from([(3, 3), (3, 3), (2, 4), (4, 2)]), 8), check, 1200, 16000),
    Part("likely", likely_cases(st.sampled_from([(2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)])),
         check, 500, 8000),
    Part("large", large_cases(), check, 400, 4800),
]
