import re

from hypothesis import strategies as st

from vlib import gens, shelldrive, shellmodel, sut
from vlib.engine import Part
from vlib.shellmodel import FAILS, PROBE

PROPERTY = "C23"
RULE = ("'first error': a script for a non-interactive shell with one or more failing commands (also inside of "
        "loops and joined by semicolons); output, error and status are compared with those of the script "
        "before the failure. 'continue': the same for interactive shells, which have to go on. 'interrupt': "
        "Ctrl-C is injected while lines are read or output is written. 'lines': mutated and arbitrary lines, "
        "with state probes around those without side effects. Non-trivial: something fails or is interrupted.")
ASSUMPTIONS = ["failing commands are those with invalid names, arguments, positions or impossible tasks"]
PROBES = [PROBE, "print", "stack"]


def strip(text, interactive):
    if interactive:
        text = re.sub(r"(loop \d+)?> ", "", text)
        text = text.split("\n", 2)[-1]
    return shelldrive.canonical(text)


def check_first(case, ctx):
    good, fail, later = case["good"], case["fail"], case["later"]
    want = shelldrive.run_lines([x + "\n" for x in good])
    ctx.require(want.status is None and not want.err, "%s fails: %s", good, want.err)
    form = case["form"]
    if form == "lines":
        lines = good + [fail] + later
    elif form == "line":
        lines = good + ["; ".join([fail] + later)] + later
    elif form == "joined":
        lines = ["; ".join(good + [fail])] + later
    else:
        # commands in a loop fail when they are executed (or defined)
        lines = ["loop 1"] + good + ["loop end", "loop 3", fail] + later + ["loop end"] + later
    tail = iter(lines)
    read = []

    def next_line():
        x = next(tail, "")
        read.append(x)
        return x + "\n" if x else ""

    got = shelldrive.run_shell(next_line, False)
    ctx.require(got.status == 1, "%s: exit status %s", lines, got.status)
    ctx.require(shelldrive.canonical(got.out) == shelldrive.canonical(want.out),
                "%s: output %r instead of %r", lines, got.out, want.out)
    ctx.require(got.err.strip() and got.err.endswith("\n"), "no error message")
    ctx.require(len(re.findall(r"(?m)^Error", got.err)) <= 1, "several error messages: %r", got.err)
    if form == "lines":
        ctx.require(len(read) == len(good) + 1, "lines after the error are read")
    ctx.event("form: " + form)
    ctx.event("fails: " + fail.split(" ")[0])
    ctx.nontrivial()


def check_continue(case, ctx):
    """Interactive: failing commands do not matter."""
    commands = [c for c, bad in case["commands"]]
    good = [c for c, bad in case["commands"] if not bad]
    n = len(commands) - len(good)
    want = shelldrive.run_lines([x + "\n" for x in good + PROBES + ["pop", PROBE] * 2], True)
    out = []
    for c, bad in case["commands"]:
        if case["join"] and out and bad != out[-1][1]:
            out[-1] = (out[-1][0] + "; " + c, bad)
        else:
            out.append((c, bad))
    got = shelldrive.run_lines([x + "\n" for x, _ in out] + [x + "\n" for x in PROBES + ["pop", PROBE] * 2], True,
                               pass_mode=case["join"])
    ctx.require(got.status is None, "%s: exit status %s", commands, got.status)
    a, b = strip(want.out, True), strip(got.out, True)
    ctx.require(a == b, "%s: output %r instead of %r", commands, b, a)
    ea = len([x for x in want.err.splitlines() if x.startswith("Error")])
    eb = len([x for x in got.err.splitlines() if x.startswith("Error")])
    ctx.require(eb == ea + n, "%s: %d errors instead of %d: %r", commands, eb, ea + n, got.err)
    for c, bad in case["commands"]:
        if bad:
            ctx.event("fails: " + c.split(" ")[0])
    ctx.nontrivial(n)


def check_many(case, ctx):
    """Interactive: any number of errors."""
    lines = [case["start"]]
    fails = 0
    for i in range(case["n"]):
        lines.append(case["fails"][i % len(case["fails"])])
        fails += 1
        if i % 9 == 0:
            lines.append(case["between"])
    good = [x for x in lines if x == case["start"] or x == case["between"]]
    want = shelldrive.run_lines([x + "\n" for x in good + PROBES], True)
    got = shelldrive.run_lines([x + "\n" for x in lines + PROBES], True)
    ctx.require(got.status is None, "%d errors: exit status %s", fails, got.status)
    ctx.require(strip(want.out, True) == strip(got.out, True), "%d errors: output differs: %r", fails, got.out[-300:])
    n = len([x for x in got.err.splitlines() if x.startswith("Error")])
    ctx.require(n == fails, "%d errors, but %d messages", fails, n)
    ctx.event("errors: %d+" % (fails // 50 * 50))
    ctx.nontrivial()


def check_interrupt(case, ctx):
    """case: commands, and where KeyboardInterrupt is raised."""
    inter = case["interactive"]
    commands = case["commands"]
    at = case["at"] % (len(commands) + 1)
    where = case["where"]
    partial = case["partial"]
    chunks = shelldrive.Chunks()
    lines = commands[:at]
    script = list(lines)
    if partial and where == "read":
        script.append(partial + " \\")
    mark = len(script)
    rest = commands[at:] + PROBES + ["pop", PROBE, "pop", PROBE]
    state = {"i": 0, "fired": False, "armed": False}

    def hook(s):
        if where == "prompt" and inter and s and state["i"] == mark and not state["fired"] and s.endswith("> "):
            # the prompt is being written
            state["times"] = state.get("times", 0) + 1
            state["fired"] = state["times"] >= case["times"]
            raise KeyboardInterrupt()
        if state["armed"] and s:
            state["armed"] = False
            state["fired"] = True
            raise KeyboardInterrupt()

    chunks.out.hook = hook

    def next_line():
        i = state["i"]
        if i == mark and not state["fired"]:
            if where in ("read", "prompt"):
                # several times in a row
                state["times"] = state.get("times", 0) + 1
                state["fired"] = state["times"] >= case["times"] or not inter
                raise KeyboardInterrupt()
            if where == "write":
                # while this command writes its result
                state["i"] += 1
                state["armed"] = True
                script.append(case["writer"])
                return case["writer"] + "\n"
            if where == "loop":
                k = state.setdefault("k", 0)
                part = ["loop 3", case["writer"], "loop end"]
                state["k"] += 1
                if k == 2:
                    state["i"] += 1
                    script.append("loop")
                    state["armed"] = True
                return part[k] + "\n"
        state["i"] += 1
        every = script + rest
        return every[i] + "\n" if i < len(every) else ""

    res = shelldrive.run_shell(next_line, inter, out=chunks.out)
    ctx.require(state["fired"], "the shell ends before: %s", res.err)
    ctx.event("interrupt: %s, interactive: %s" % (where, inter))
    ctx.nontrivial()
    if not inter:
        ctx.require(res.status == 2, "exit status is %s", res.status)
        before = shelldrive.run_lines([x + "\n" for x in lines])
        ctx.require(res.out.strip() == before.out.strip(), "output %r instead of %r", res.out, before.out)
        return
    ctx.require(res.status is None, "interactive shell ends with status %s", res.status)
    want = shelldrive.run_lines([x + "\n" for x in commands + PROBES + ["pop", PROBE, "pop", PROBE]], True)
    # what is printed after the interrupt
    a = strip(want.out, True).split("\n")
    b = [x for x in strip(res.out, True).split("\n") if "exit" not in x]
    tail = shelldrive.run_lines([x + "\n" for x in commands[:at]], True)
    k = len(strip(tail.out, True).rstrip("\n").split("\n")) if strip(tail.out, True).strip() else 0
    a = [x for x in a if x][k:]
    b = [x for x in b if x]
    ctx.require(b[-len(a):] == a if a else True, "after Ctrl-C: %s instead of %s", b[-len(a):], a)
    ctx.require(res.err == want.err, "errors %r instead of %r", res.err, want.err)


def harmless(line):
    """No huge sudokus, loops or endless searches."""
    if re.search("gener|loop|solve", line) and not re.fullmatch(r"[a-z ]*", line):
        if not (re.fullmatch(r"loop \d", line)):
            return False
    if "generate_from" in line:
        return False
    if len(re.findall("[0-9]", line)) > 2 and "new" in line:
        return False
    return not re.search(r"\*\*|<<", line)


def check_lines(case, ctx):
    lines = [x for x in case["lines"] if harmless(x) and "\n" not in x and "\r" not in x]
    start = ["decode \"%s\" box_size=(2,2)" % case["nums"], "push"] if case["nums"] else []
    it = iter(start + lines)
    res = shelldrive.run_shell(lambda: next((x + "\n" for x in it), ""), case["interactive"])
    if case["interactive"]:
        ctx.require(res.status is None, "%r: interactive shell ends with status %s", lines, res.status)
    else:
        ctx.require(res.status in (None, 1), "%r: exit status %s", lines, res.status)
        ctx.require((res.status == 1) == bool(res.err), "%r: status %s, but %r", lines, res.status, res.err)
    ctx.require("Traceback" not in res.err + res.out, "%r: traceback: %r", lines, res.err)
    ctx.event("error: %s" % bool(res.err))
    ctx.nontrivial(res.err)


# -- generators -------------------------------------------------------------------

@st.composite
def good_commands(draw, maximum, quiet=False):
    w, h = draw(gens.weighted((2, (2, 2)), (1, (2, 3)), (1, (3, 3))))
    n = w * h
    nums = sut.pack(draw(gens.unique(w, h))[1])
    cell = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(lambda x: "%d %d" % x)
    vals = st.lists(st.integers(1, n), min_size=1, max_size=3).map(lambda x: "[%s]" % ",".join(map(str, x)))
    simple = [st.tuples(st.just("set"), cell, st.integers(0, n).map(str)),
              st.tuples(st.just("set_candidates"), cell, vals), st.tuples(st.just("remove_candidates"), cell, vals),
              st.just(("init_candidates",)), st.just(("push",)), st.just(("push",)), st.just(("pop",))]
    if not quiet:
        simple += [st.tuples(st.just("get"), cell), st.tuples(st.just("get_candidates"), cell),
                   st.just(("encode",)), st.just(("print",)), st.just(("view",)), st.just(("stack",))]
    one = st.one_of(simple).map(" ".join)
    cmds = draw(st.lists(one, max_size=maximum))
    depth, out = 0, []
    for c in cmds:
        if c == "pop" and not depth:
            continue
        depth += {"push": 1, "pop": -1}.get(c, 0)
        out.append(c)
    return ['decode "%s" box_size=(%d,%d)' % (nums, w, h)] + out


# "loop 0" etc. depend on the context
PLAINFAILS = [f for f in FAILS if f not in ("exit 1",)]
# fail when executed, not when parsed
ALWAYS = [f for f in PLAINFAILS if not f.startswith("loop")]


@st.composite
def first(draw):
    form = draw(st.sampled_from(["lines", "lines", "line", "joined", "loop"]))
    good = draw(good_commands(8))
    later = draw(st.lists(st.sampled_from(["print", "encode", "push", "stack", "set 0 0 1", "foo", "pop", "help",
                                           "set 99 9 9", "get 0 0"]), max_size=4))
    fail = draw(st.sampled_from(ALWAYS if form == "loop" else PLAINFAILS))
    if fail == "pop 99":
        fail = draw(st.sampled_from(["pop 99", "pop 17", "pop -1", "pop x", "loop end" if form != "loop" else "pop y"]))
    return {"form": form, "good": good, "fail": fail, "later": later}


@st.composite
def mixed(draw):
    good = draw(good_commands(10))
    out = []
    for c in good:
        out.append([c, False])
        for f in draw(st.lists(st.sampled_from(PLAINFAILS + ["exit 1"]), max_size=2)):
            out.append([f, True])
    return {"commands": out, "join": draw(st.booleans())}


@st.composite
def interrupts(draw):
    cmds = draw(good_commands(8))
    return {"interactive": draw(st.sampled_from([True, True, False])), "commands": cmds,
            "at": draw(st.binary(min_size=1, max_size=1).map(lambda b: b[0])),
            "times": draw(st.sampled_from([1, 1, 2, 3, 12])),
            "where": draw(st.sampled_from(["read", "read", "write", "loop", "prompt"])),
            "writer": draw(st.sampled_from(["print", "encode", "stack", "get 0 0", "view", "help"])),
            "partial": draw(st.sampled_from([None, "set 0 0 1", "set", "push", "solve", "new (2,2)", "loop 3",
                                             "foo", "pop", "init_candidates"]))}


WORDS = ["new", "decode", "get", "set", "set_candidates", "get_candidates", "remove_candidates",
         "init_candidates", "encode", "print", "view", "solve", "loop", "stack", "push", "pop", "help", "exit",
         "end", "loop end", "generate", "clear"]
ARGS = ["0", "1", "3", "(2,2)", "[1,2]", "{1}", "{}", "()", '"x"', "''", "None", "True", "1.5", "1e999", "-1", "end",
        "set", "push", "box_size=(2,2)", "box_size=3", "col_sep=1", "row_sep=\"-\"", "position=0", "position=\"a\"",
        "=", "a=", "=1", "a=b=c", "sudoku=1", "self=0", "include_candidates=1", "filled_only=[]", "{[]:1}", "{{}}",
        "[[]", "((", "0x10", "1j", "b'1'", "\\", "\\\\", "\"", "'", "1_0", "\u00b2", "\u0663", "\x00", "lambda:0",
        "[0]*9", "f''", "...", "nan", "*", "**", "**{}", "n=2", "n=0", "command=1", "verbose=0", "number_sep=\"-\"",
        "candidate_prefix=1", "align_right=0", "-" * 50 + "1", "(" * 120 + ")" * 120, "(" * 300, "-" * 3000 + "1",
        "[" * 2000, "1" * 5000, "\"" + "a" * 200 + "\"", "{1:[],[]:1}", "{1,[]}", "'\\x'", "'\\N{foo}'", "\ud800"]


@st.composite
def anylines(draw):
    line = st.one_of(
        st.tuples(st.sampled_from(WORDS), st.lists(st.sampled_from(ARGS), max_size=3)).map(
            lambda x: " ".join([x[0]] + x[1])),
        st.tuples(st.sampled_from(WORDS), st.text(max_size=6)).map(" ".join),
        st.tuples(st.sampled_from(FAILS), st.sampled_from([";", "; ", " ;", ";;", " ", "  ", "#", "\\", "=", "\t"]),
                  st.sampled_from(["", "print", "exit 1", "foo", "stack"])).map("".join),
        st.text(max_size=12), st.text(alphabet="getsinpu 0123=[](){}'\"\\;#,.-", max_size=14))
    lines = draw(st.lists(line, min_size=1, max_size=6))
    return {"lines": lines, "interactive": draw(st.sampled_from([True, True, False])),
            "nums": draw(st.sampled_from(["", "1234341221434321", "1000000000000000"]))}


PARTS = [
    Part("first error", first(), check_first, 4500, 60000),
    Part("continue", mixed(), check_continue, 2250, 40000),
    Part("many errors", st.fixed_dictionaries({
        "start": st.sampled_from(['decode "1234341221434321"', "new (2,3)", "set 1 1 5"]),
        "between": st.sampled_from(["push", "print", "set 0 1 2", "get 0 0", "init_candidates"]),
        "fails": st.lists(st.sampled_from(PLAINFAILS).filter(lambda f: f not in ("pop 99", "loop end")),
                          min_size=1, max_size=4),
        "n": st.integers(1, 300)}), check_many, 160, 3000),
    Part("interrupt", interrupts(), check_interrupt, 3750, 50000),
    Part("lines", anylines(), check_lines, 9000, 300000, guided=0.15),
]
