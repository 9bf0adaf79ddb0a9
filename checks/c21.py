import sys

from hypothesis import strategies as st

from vlib import shelldrive, shellmodel, sut
from vlib.engine import Part
from vlib.shellmodel import Adopt, Failed, Model, Table

PROPERTY = "C21"
RULE = ("A case is a sequence of shell commands, some of them followed by a probe (encode with candidates, "
        "print, stack). The shell gets them line by line; after every line its output is compared with a "
        "model of the current sudoku and the stack. At the end the stack is emptied and compared. Part 'deep' pushes up "
        "to 140 sudokus. Failing "
        "commands occur in interactive shells only. Non-trivial: a sudoku was pushed and popped, or a "
        "command failed, with at least two changes.")
ASSUMPTIONS = ["numbers and candidates are in range; which completion of an ambiguous sudoku solve picks is free"]


def check(case, ctx):
    model = Model()
    chunks = shelldrive.Chunks()
    inter = case["interactive"]
    todo = []               # (kind, command)
    for cmd, probe in case["commands"]:
        todo.append(("cmd", cmd))
        if probe:
            todo.append(("probe", None))
    todo.append(("probe", None))
    todo.append(("drain", None))
    state = {"errors": 0, "count": {}}

    # generator of (line, function checking its output)
    def script():
        yield None, lambda text, err: ctx.require(bool(text) == inter and not err, "introduction %r %r", text, err)
        for kind, cmd in todo:
            if kind == "cmd":
                line = model.render(cmd)
                try:
                    exp = model.run(cmd)
                except Failed:
                    exp = None
                state["count"][cmd[0]] = state["count"].get(cmd[0], 0) + 1
                if exp is None and not inter:
                    # errors end such a shell
                    continue
                if isinstance(exp, Adopt) and exp.fails and not inter:
                    continue
                if exp is None:
                    state["errors"] += 1
                    ctx.event("failing: " + (cmd[1] if cmd[0] == "fail" else cmd[0]).split(" ")[0])
                    yield line, failed(line)
                elif isinstance(exp, Adopt):
                    flag = []
                    yield line, adopted(line, exp, flag)
                    if not flag:
                        yield shellmodel.PROBE, adopting(line, exp)
                else:
                    yield line, printed(line, exp)
            elif kind == "probe":
                yield shellmodel.PROBE, probed
                yield "print", printed("print", model.run(["print"]))
                yield "stack", printed("stack", model.run(["stack"]))
            else:
                while model.stack:
                    model.run(["pop", None])
                    yield "pop", printed("pop", lambda text: text == "")
                    yield shellmodel.PROBE, probed

    def failed(line):
        def f(text, err):
            ctx.require(err.endswith("\n") and err.strip(), "%r: no error message", line)
            ctx.require(not text, "%r fails, but prints %r", line, text)
        return f

    def printed(line, exp):
        def f(text, err):
            ctx.require(not err, "%r: unexpected error %r", line, err)
            ctx.require(exp(text), "%r prints %r", line, text)
        return f

    def adopted(line, exp, flag):
        def f(text, err):
            ctx.require(not text, "%r prints %r", line, text)
            ctx.require(not err or exp.fails, "%r: unexpected error %r", line, err)
            if err:
                flag.append(1)
        return f

    def adopting(line, exp):
        def f(text, err):
            ctx.require(not err, "unexpected error %r", err)
            nums, cands = shellmodel.parse_probe(model, text)
            ctx.require(len(nums) == (exp.w * exp.h) ** 2, "%r: wrong size: %r", line, text)
            new = Table(exp.w, exp.h, nums, cands)
            problem = exp.cond(new)
            ctx.require(not problem, "%r: %s: %r", line, problem, text)
            model.cur = new
        return f

    def probed(text, err):
        ctx.require(not err, "unexpected error %r", err)
        nums, cands = shellmodel.parse_probe(model, text)
        ctx.require(nums == model.cur.nums, "numbers are %s instead of %s", nums, model.cur.nums)
        ctx.require(cands == model.cur.cands, "candidates are %s instead of %s",
                    [sorted(c) for c in cands], [sorted(c) for c in model.cur.cands])

    lines = script()
    pending = [next(lines)[1]]
    errpos = [0]

    def next_line():
        text = chunks.take()
        err = sys.stderr.getvalue()
        err, errpos[0] = err[errpos[0]:], len(err)
        if inter:
            text, prompt = shelldrive.strip_prompt(text)
            ctx.require(prompt == "> ", "prompt is %r", prompt)
        pending[0](text, err)
        try:
            line, pending[0] = next(lines)
        except StopIteration:
            pending[0] = lambda text, err: ctx.fail("input is read after exit")
            state["done"] = True
            return "exit\n"
        return line + "\n"

    res = shelldrive.run_shell(next_line, inter, out=chunks.out)
    ctx.require(state.get("done"), "the shell ends early (status %s): %r", res.status, res.err)
    ctx.require(res.status is None, "exit status %s", res.status)
    ctx.require(not chunks.take(), "output after exit")
    count = state["count"]
    for k, v in count.items():
        ctx.event("command: " + k, v)
    ctx.event("interactive: %s" % inter)
    changes = sum(count.get(k, 0) for k in ("new", "decode", "set", "set_candidates", "remove_candidates",
                                            "init_candidates", "solve", "pop", "generate"))
    ctx.nontrivial(changes > 1 and (state["errors"] or count.get("push") and count.get("pop")))


@st.composite
def cases(draw, fails):
    inter = True if fails else draw(st.booleans())
    cmds = draw(st.lists(st.tuples(shellmodel.commands(fails=fails, random=draw(st.integers(0, 3)) == 0),
                                   st.booleans()),
                         **draw(st.sampled_from([{"min_size": 1, "max_size": 5}, {"min_size": 8, "max_size": 16},
                                                 {"min_size": 8, "max_size": 16}, {"min_size": 20, "max_size": 40}]))))
    if draw(st.integers(0, 3)):
        cmds.insert(0, (["decode", 3, 3, sut.pack(draw(shellmodel.gens.unique(3, 3))[1]), None, 0], False))
    probes = draw(st.sampled_from([0, 1, 2]))
    return {"interactive": inter,
            "commands": [[c, bool(p) if probes == 2 else bool(probes)] for c, p in cmds]}


@st.composite
def deep(draw):
    """Many sudokus on the stack, all different."""
    case = draw(cases(draw(st.booleans())))
    few = draw(st.lists(shellmodel.commands(creating=False), min_size=1, max_size=5))
    few = [c for c in few if c[0] != "solve"]           # takes long
    count = draw(st.sampled_from([17, 33, 65, 80, 101, 128, 140]))
    size = draw(shellmodel.SIZES)
    out = [["new", size[0], size[1], 1]]
    for k in range(count):
        i = k % 30
        out += [["set", i, k // 7 % 30, 1 + k % 9], ["set_candidates", k // 3 % 30, i, [k % 30, k // 30], 0]][k % 2:][:1]
        out.append(["push"])
        if few and k % 11 == 10:
            out.append(few[k // 11 % len(few)])
    pops = draw(st.lists(st.integers(0, count), max_size=10))
    for k in pops:
        out.append(["pop", k if k < count // 2 or case["interactive"] else None, True])
        out.append(["stack"])
    # this one may succeed here
    last = [[["pop", 99, False] if c == ["fail", "pop 99"] else c, p] for c, p in case["commands"]]
    case["commands"] = [[c, i % 29 == 28] for i, c in enumerate(out)] + last
    return case


PARTS = [
    Part("deep", deep(), check, 150, 2000),
    Part("plain", cases(False), check, 5000, 40000),
    Part("failing", cases(True), check, 5000, 40000),
]
