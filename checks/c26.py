import random

from hypothesis import strategies as st

from checks.c20 import parse
from vlib import gamemodel, ref, sut
from vlib.engine import Part

PROPERTY = "C26"
RULE = ("A case is a sudoku, settings (automatic candidates, automatic removal, automatic setting) and a sequence "
        "of actions, many of them wrong or conflicting, and of commands hint, check, conflicts, candidates, "
        "settings, undo, redo. Everything the game shell prints is compared with what the model of the state and "
        "the reference (solution, conflicts) say; the set of hints is that of hints(). 'lines' plays arbitrary "
        "and mutated lines, 'new games' solves generated sudokus move by move. "
        "Non-trivial: there are conflicts, wrong fields, hints or automatic changes.")
ASSUMPTIONS = ["numbers and candidates of actions are in 1..9", "hints after returning to the state of the last hint "
               "may continue or start anew"]


def check(case, ctx):
    count = {}

    def steps(game):
        hints = gamemodel.Hints()
        yield "settings", gamemodel.settings_shown("settings", dict(DEFAULTS, **case["settings"]))
        for step in case["steps"]:
            kind = step[0]
            before = game.current()
            if kind == "undo":
                line = "undo"
                f = gamemodel.quiet(line) if game.index else gamemodel.message(line)
                game.index = max(0, game.index - 1)
            elif kind == "redo":
                line = "redo"
                f = gamemodel.quiet(line) if game.index + 1 < len(game.history) else gamemodel.message(line)
                game.index = min(len(game.history) - 1, game.index + 1)
            elif kind == "do" or kind == "solve":
                line = step[1]
                if kind == "solve":
                    # a right number
                    i = step[1] % 81
                    line = "%s=%d" % (gamemodel.cell_name(i), game.solution[i])
                    step = ["do", line, "set", [[i // 9, i % 9]], [game.solution[i]]]
                removed, put = game.action(step[2], [tuple(x) for x in step[3]], step[4])
                f = gamemodel.autofeedback(line, removed, put)
                ctx.event("automatic removals", len(removed))
                ctx.event("automatic numbers", len(put))
                ctx.nontrivial(removed or put)
            elif kind == "candidates":
                line = "candidates"
                game.candidates()
                f = gamemodel.quiet(line)
            elif kind == "settings":
                line, f = "settings", gamemodel.settings_shown("settings", dict(DEFAULTS, **case["settings"]))
            elif kind == "check":
                line = "check"
                want = [(i, v) for i, v in enumerate(game.current()[0]) if v and v != game.solution[i]]
                f = gamemodel.wrong_fields(line, want)
                ctx.event("check: wrong fields", len(want))
                ctx.nontrivial(want)
            elif kind == "conflicts":
                line = "conflicts"
                want = {(frozenset((a[0] * 9 + a[1], b[0] * 9 + b[1])), v)
                        for a, b, v in ref.conflicts(3, 3, game.current()[0])}
                f = gamemodel.conflict_pairs(line, want)
                ctx.event("conflicts: pairs", len(want))
                ctx.nontrivial(want)
            else:
                line = "hint"
                for _ in range(step[1]):
                    yield line, hints.expect(line, game, ctx)
                ctx.nontrivial()
                continue
            if game.current() is not before:
                hints.changed()
            yield line, f
        count["done"] = 1

    gamemodel.play(case["nums"], case["settings"], steps, ctx)
    ctx.require(count.get("done"), "the game ends early")


def check_lines(case, ctx):
    count = {}

    def steps(game):
        for line in case["lines"]:
            words = line.split()
            if not words:
                yield line, gamemodel.quiet(line)
                continue
            if words[0] in gamemodel.COMMANDS:
                continue
            want = parse(line, 3, 3)
            if want == "maybe" or any(c.isspace() and c not in " \t\n\r\x0b\x0c" for c in line):
                continue
            if want is None:
                ctx.event("invalid")
                ctx.nontrivial()
                yield line, gamemodel.message(line)
            else:
                kind, cells, vals = want
                removed, put = game.action(kind, cells, vals)
                ctx.event("action")
                yield line, gamemodel.autofeedback(line, removed, put)
        count["done"] = 1

    gamemodel.play(case["nums"], case["settings"], steps, ctx)
    ctx.require(count.get("done"), "the game ends early")


def check_new(case, ctx):
    """Real new games, solved move by move."""
    count = {}
    rng = random.Random(case["order"])

    def steps(game):
        for _ in range(2 if case["hint"] else 0):
            yield "hint", lambda text: None
        todo = [i for i, v in enumerate(game.current()[0]) if not v]
        rng.shuffle(todo)
        ctx.event("empty fields", len(todo))
        ctx.nontrivial(todo)
        while todo:
            i = todo.pop()
            nums = game.current()[0]
            if nums[i]:
                continue
            wrong = rng.random() < 0.15
            v = game.solution[i] % 9 + 1 if wrong else game.solution[i]
            if wrong:
                todo.insert(0, i)
            line = "%s=%d" % (gamemodel.cell_name(i), v)
            removed, put = game.action("set", [(i // 9, i % 9)], [v])
            yield line, gamemodel.autofeedback(line, removed, put)
            if rng.random() < 0.2 or not todo:
                want = [(k, x) for k, x in enumerate(game.current()[0]) if x and x != game.solution[k]]
                yield "check", gamemodel.wrong_fields("check", want)
            if wrong:
                game.index -= 1
                yield "undo", gamemodel.quiet("undo")
        yield "settings", gamemodel.settings_shown("settings", dict(DEFAULTS, **case["settings"]))
        count["done"] = 1

    gamemodel.play(None, case["settings"], steps, ctx, seed=case["seed"])
    ctx.require(count.get("done"), "the game ends early")


@st.composite
def new_games(draw):
    settings = draw(gamemodel.settings())
    settings["autoset"] = False
    return {"settings": settings, "seed": draw(st.integers(0, 2 ** 31)), "order": draw(st.integers(0, 2 ** 31)),
            "hint": draw(st.booleans())}


DEFAULTS = {"autocandidates": True, "autocheck": False, "autoconflicts": True, "autoremove": True, "autoset": False,
            "dim": (3, 3), "rating": (1, 10)}


@st.composite
def cases(draw):
    act = gamemodel.actions()
    one = st.one_of(
        act, act, gamemodel.BYTE.map(lambda i: ["solve", i]), gamemodel.BYTE.map(lambda i: ["solve", i]),
        st.just(["undo"]), st.just(["redo"]), st.just(["candidates"]), st.just(["settings"]),
        st.just(["check"]), st.just(["conflicts"]), st.just(["check"]), st.just(["conflicts"]),
        st.sampled_from([1, 1, 2, 3, 40]).map(lambda n: ["hint", n]))
    steps = draw(st.lists(one, **draw(st.sampled_from([{"min_size": 1, "max_size": 6}, {"min_size": 6, "max_size": 20}]))))
    return {"nums": draw(gamemodel.sudokus()), "settings": draw(gamemodel.settings()),
            "steps": steps + [["check"], ["conflicts"]]}


@st.composite
def lines(draw):
    out = []
    for _ in range(draw(st.integers(1, 12))):
        text = draw(st.one_of(gamemodel.actions().map(lambda a: a[1]), st.text(max_size=8)))
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            i = draw(st.integers(0, len(text)))
            k = draw(st.integers(0, 2))
            c = draw(st.sampled_from("rcbp0123456789,  -=<>x"))
            text = text[:i] + ["", c, c][k] + text[i + (k != 1):]
        out.append(text.replace("\n", ""))
    return {"nums": draw(gamemodel.sudokus()), "settings": draw(gamemodel.settings()), "lines": out}


PARTS = [
    Part("feedback", cases(), check, 1920, 24000),
    Part("lines", lines(), check_lines, 1280, 20000),
    Part("new games", new_games(), check_new, 96, 3000),
]
