import re

from hypothesis import strategies as st

from vlib import gens, shelldrive, sut
from vlib.engine import Part

PROPERTY = "C22"
RULE = ("A case is a program (commands and loops), a layout (how commands are put on lines: semicolons, "
        "continuations, indentation, comments, blank lines) and possibly an exit or a misused loop command "
        "somewhere. The output of this script is compared with that of the plain script: loops unrolled, one "
        "command per line, ending at exit. Probes at the end of both print the whole state. Part 'long': loops of up to 5000 rounds, bodies and scripts of up to 2100 commands. "
        "Non-trivial: a "
        "loop with at least two rounds and a command, or at least two kinds of layout.")
ASSUMPTIONS = ["one space between the arguments of a command, no '#' or ';' inside of arguments, at least one "
               "command between two semicolons", "lines of a continued command start with no significant space"]
UNIFORM = st.binary(min_size=1, max_size=1).map(lambda b: b[0])
PROBES = ['encode include_candidates=True col_sep="-" row_sep="-"', "print", "stack"]


def flatten(items):
    out = []
    for x in items:
        if isinstance(x, str):
            out.append(("c", x))
        else:
            out.append(("b", "loop %d" % x[0]))
            out.extend(("c", y) for y in x[1])
            out.append(("e", "loop end"))
    return out


def unroll(tokens):
    """Plain commands; what is inside a loop which does not end is dropped."""
    out, body, n = [], None, 0
    for kind, text in tokens:
        if kind == "m":
            continue
        if kind == "b":
            body, n = [], int(text.split()[1])
        elif kind == "e":
            out.extend(body * n)
            body = None
        elif body is None:
            out.append(text)
        else:
            body.append(text)
    return out


def arrange(commands, layout, ctx):
    """The text of the script."""
    pos = [0]
    kinds = set()

    def pick(k):
        pos[0] += 1
        return layout[(pos[0] - 1) % len(layout)] % k

    def gap():
        return ["", " ", "\t", "   "][pick(4)] if plain else ""

    plain = len(layout) > 1
    lines = []
    for c in commands:
        if lines and plain and pick(3) == 0:
            lines[-1] += ["; ", ";", " ;  ", "\t; "][pick(4)] + c
            kinds.add("semicolon")
        else:
            lines.append(c)
    out = []
    for line in lines:
        pieces = [line]
        if plain and pick(4) == 0:
            for _ in range(1 + pick(3)):
                last = pieces.pop()
                at = 1 + pick(max(1, len(last) - 1))
                while at < len(last) and last[at].isspace():
                    at += 1
                if at >= len(last):
                    pieces.append(last)
                    break
                pieces += [last[:at], last[at:]]
                kinds.add("continuation")
        for i, piece in enumerate(pieces):
            text = gap() + piece
            if i < len(pieces) - 1:
                text += "\\"
            if plain and pick(5) == 0:
                text += ["#", " # set 0 0 1", "  # foo; exit", "# bar \\", " #loop 2"][pick(5)]
                kinds.add("comment")
            else:
                text += gap()
            out.append(text)
        if plain and pick(5) == 0:
            out.append(["", "   ", "# exit", "  # loop 5 \\", "\t"][pick(5)])
            kinds.add("blank or comment line")
    for k in sorted(kinds):
        ctx.event("layout: " + k)
    ctx.nontrivial(len(kinds) > 1)
    return "".join(x + "\n" for x in out)


def lines_of(text, chop):
    lines = text.splitlines(True)
    if chop and lines:
        lines[-1] = lines[-1].rstrip("\n")
    return lines


def clean(text, interactive):
    if interactive:
        text = re.sub(r"(loop \d+)?> ", "", text)
        # intro
        text = text.split("\n", 2)[-1]
    return shelldrive.canonical(text)


def errors(res):
    return [l for l in res.err.splitlines() if l.strip()]


def check(case, ctx):
    inter = case["interactive"]
    tokens = flatten([case["start"]] + case["items"])
    depth, misuse, cut = 0, 0, False
    out = []
    inside = []
    for i, tok in enumerate(tokens):
        if tok[0] == "b" or inside and tok[0] == "c" and inside[-1] == i - 1:
            inside.append(i)

    def place(at):
        # every second one inside a loop, if there is one
        if at % 2 and inside:
            return inside[at // 2 % len(inside)]
        return at // 2 % len(tokens)

    for i, tok in enumerate(tokens):
        out.append(tok)
        depth += {"b": 1, "e": -1}.get(tok[0], 0)
        for at, text in case["misuse"]:
            if place(at) == i and not cut:
                text = (["loop 2", "loop 0", "loop 3", "loop -1", "loop foo"] if depth else
                        ["loop end", "loop 0", "loop -7", "loop foo", "loop"])[text % 5]
                out.append(("m", text))
                misuse += 1
                cut = cut or not inter
                ctx.event("misuse " + ("inside" if depth else "outside"))
        if case["exit"] is not None and place(case["exit"]) == i and not cut:
            ctx.event("exit " + ("inside" if depth else "outside"))
            ctx.nontrivial()
            out.append(("x", "exit"))
            cut = True
    tokens = out
    # what counts ends at exit or the first error
    upto = tokens
    for i, tok in enumerate(tokens):
        if tok[0] == "x" or tok[0] == "m" and not inter:
            upto = tokens[:i]
            break
    plain = unroll(upto)
    probes = [] if cut else PROBES + ["pop", "print"] * 2 if inter else PROBES
    text = arrange([t for k, t in tokens] + ([] if cut else probes), case["layout"], ctx)
    end = ["exit"] if upto is not tokens and cut and any(k == "x" for k, t in tokens) else []
    want = shelldrive.run_lines([x + "\n" for x in plain + probes + end], inter)
    got = shelldrive.run_lines(lines_of(text, case["chop"]), inter)
    show = "script:\n%s" % text
    failed = want.status is not None        # a command failed before
    status = want.status
    if not failed and cut and not any(k == "x" for k, t in tokens):
        status = 1
    ctx.require(got.status == status, "%sexit status %s instead of %s: %s", show, got.status, status, got.err)
    a, b = clean(want.out, inter), clean(got.out, inter)
    ctx.require(a == b, "%soutput:\n%s\ninstead of:\n%s", show, b, a)
    ea, eb = errors(want), errors(got)
    more = 0 if failed else misuse
    ctx.require(len(eb) == len(ea) + more, "%serrors: %s instead of %s (and %d)", show, eb, ea, more)
    if not misuse:
        ctx.require(ea == eb, "%serrors: %s instead of %s", show, eb, ea)
    ctx.event("interactive: %s" % inter)
    ctx.event("command failed: %s" % bool(ea))
    loops = [x for x in case["items"] if not isinstance(x, str)]
    ctx.nontrivial(any(n > 1 and body for n, body in loops))


@st.composite
def cases(draw, special):
    w, h = draw(gens.weighted((3, (2, 2)), (2, (2, 3)), (2, (3, 2)), (2, (3, 3))))
    n = w * h
    nums = sut.pack(draw(gens.unique(w, h))[1])
    cell = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(lambda x: "%d %d" % x)
    val = st.integers(0, n)
    vals = st.lists(st.integers(1, n), min_size=1, max_size=3).map(lambda x: "[%s]" % ",".join(map(str, x)))
    simple = [st.tuples(st.just("get"), cell), st.tuples(st.just("get_candidates"), cell),
              st.tuples(st.just("set_candidates"), cell, vals), st.tuples(st.just("remove_candidates"), cell, vals),
              st.just(("init_candidates",)), st.just(("encode",)), st.just(("encode",)), st.just(("print",)),
              st.just(("view",)), st.just(("view", "include_candidates=False")), st.just(("push",)), st.just(("push",)),
              st.just(("push",)), st.just(("pop",)), st.just(("pop", "0")), st.just(("pop", "position=1")),
              st.just(("stack",)), st.just(("decode", '"%s"' % nums, "box_size=(%d,%d)" % (w, h)))]
    if n < 9 or draw(st.booleans()):
        simple += [st.tuples(st.just("set"), cell, val.map(str))] * 3
        if n < 9:
            simple += [st.just(("solve",))] * 2
    else:
        simple += [st.just(("solve",))] * 2
    if draw(st.integers(0, 4)) == 0:
        simple += [st.sampled_from([("set", "99", "0", "1"), ("decode", '"123"'), ("pop", "77"),
                                    ("get", "0")])]
    one = st.one_of(simple).map(" ".join)
    inter = draw(st.booleans())
    loop = st.tuples(st.sampled_from([1, 2, 2, 3, 3, 5]), st.lists(one, max_size=6)).map(list)
    items = draw(st.lists(st.one_of(one, loop) if special else st.one_of(one, one, loop), min_size=1, max_size=10))
    if draw(st.integers(0, 3)):
        items = ["push"] * draw(st.integers(3, 12)) + items
    start = 'decode "%s" box_size=(%d,%d)' % (nums, w, h)
    layout = list(draw(st.binary(min_size=2, max_size=40))) if draw(st.integers(0, 5)) else [0]
    case = {"start": start, "items": items, "layout": layout, "interactive": inter, "chop": draw(st.booleans()),
            "exit": None, "misuse": []}
    if special:
        if draw(st.booleans()):
            case["exit"] = draw(UNIFORM)
        if case["exit"] is None or draw(st.booleans()):
            case["misuse"] = draw(st.lists(st.tuples(UNIFORM, st.integers(0, 4)).map(list),
                                           min_size=1, max_size=3))
    return case


@st.composite
def long_cases(draw):
    """Many rounds, many commands."""
    case = draw(cases(draw(st.booleans())))
    n = int(case["start"][-2])
    a, b, c = draw(st.lists(st.integers(0, n - 1), min_size=3, max_size=3))
    one = st.one_of(st.sampled_from(["set %d %d %d" % (a, b, c + 1), "set_candidates %d %d [%d]" % (b, c, a + 1),
                                     "push", "push", "push", "pop", "stack", "get %d %d" % (a, b)]))
    size = st.sampled_from([10, 30, 99, 100, 101, 128, 130, 200, 256, 300, 513, 1001, 1100, 2100])
    items = []
    kinds = draw(st.lists(st.sampled_from(["rounds", "body", "plain"]), min_size=1, max_size=3))
    for kind in kinds:
        if kind == "rounds":
            rounds = draw(st.sampled_from([10, 99, 100, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1200, 1500, 2500, 5000]))
            body = draw(st.lists(st.sampled_from(["push", "get %d %d" % (a, b), "set %d %d %d" % (a, b, c + 1)]),
                                 min_size=1, max_size=2))
            items.append([rounds, body])
        else:
            k = draw(size)
            few = draw(st.lists(one, min_size=1, max_size=5))
            body = [few[i % len(few)] for i in range(k)]
            if draw(st.booleans()):
                body[k // 2] = draw(one)
            # enough to pop
            need = low = 0
            for x in body:
                need += {"push": 1, "pop": -1}.get(x, 0)
                low = min(low, need)
            rounds = draw(st.integers(1, 3)) if kind == "body" else 1
            if rounds > 1 and need < 0:
                low += need * (rounds - 1)
            items += ["push"] * -low
            if kind == "body":
                items.append([rounds, body])
            else:
                items += body
    # further ones of the usual kind
    case["items"] = (items + case["items"]) if draw(st.booleans()) else (case["items"][:3] + items + [[2, ["push"]]])
    return case


PARTS = [
    Part("long", long_cases(), check, 1600, 10000),
    Part("layout", cases(False), check, 10000, 100000, guided=0.03),
    Part("special", cases(True), check, 7500, 60000),
]
