from hypothesis import strategies as st

from vlib import gamemodel
from vlib.engine import Part

PROPERTY = "C25"
RULE = ("A case is a sudoku, settings and a sequence of actions, undo, redo, candidates, commands without effect "
        "and invalid or empty lines. The game shell is played with it; after every line the grid shown (numbers "
        "and candidates) is compared with a model keeping all states. Part 'long histories': 20 to 150 "
        "changes in a row. Non-trivial: a change is undone and redone "
        "or discarded.")
ASSUMPTIONS = ["numbers and candidates of actions are in 1..9", "candidates of filled fields are not displayed, "
               "they are only compared through their effects"]


def check(case, ctx):
    count = {}

    def steps(game):
        yield "settings", gamemodel.message("settings")
        changes = undone = 0
        for step in case["steps"]:
            kind = step[0]
            before = game.index, len(game.history)
            if kind == "undo":
                line = "undo"
                if game.index == 0:
                    f = gamemodel.message(line)
                    ctx.event("nothing to undo")
                else:
                    game.index -= 1
                    f = gamemodel.quiet(line)
                    ctx.event("undo")
                    undone += 1
            elif kind == "redo":
                line = "redo"
                if game.index + 1 == len(game.history):
                    f = gamemodel.message(line)
                    ctx.event("nothing to redo")
                else:
                    game.index += 1
                    f = gamemodel.quiet(line)
                    ctx.event("redo")
                    ctx.nontrivial(undone > 1)
            elif kind == "do":
                line = step[1]
                removed, put = game.action(step[2], [tuple(x) for x in step[3]], step[4])
                f = gamemodel.autofeedback(line, removed, put)
            elif kind == "candidates":
                line = "candidates"
                game.candidates()
                f = gamemodel.quiet(line)
            elif kind == "effectless":
                line, f = step[1], lambda text: None
            elif kind == "empty":
                line, f = step[1], gamemodel.quiet("")
            else:
                line, f = step[1], gamemodel.message(step[1])
                ctx.event("invalid")
            if kind in ("do", "candidates"):
                changed = (game.index, len(game.history)) != before
                ctx.event("change" if changed else "change without effect")
                if changed and before[0] + 1 < before[1]:
                    ctx.event("change discards states")
                    ctx.nontrivial()
            yield line, f
        # all the way back and forth
        for k in range(game.index):
            game.index -= 1
            yield "undo", gamemodel.quiet("undo")
        yield "undo", gamemodel.message("undo")
        for k in range(len(game.history) - 1):
            game.index += 1
            yield "redo", gamemodel.quiet("redo")
        yield "redo", gamemodel.message("redo")
        count["done"] = 1

    gamemodel.play(case["nums"], case["settings"], steps, ctx)
    ctx.require(count.get("done"), "the game ends early")
    ctx.nontrivial(len(case["steps"]) > 12)


INVALID = ["foo", "r1c1", "r1c1=", "r1c1=x", "r0c1=5", "r1c1<5", "r10c1=5", "=5", "<>5", "r1c1<>x", "r1c1 5",
           "-5", "-x r1c1", "- ", "Undo", "undoo", "quit", "r1=c1", "r1c=5", "r1c1=5=6", "b1r1b2=3", "\u00e9", "?",
           "r1c1=5 r2c2=6", "candidate", "r1c1<>=5", "exit", "help"]


@st.composite
def cases(draw):
    act = gamemodel.actions()
    # actions in few fields lead to more interaction
    few = draw(st.lists(act, min_size=1, max_size=4))
    one = st.one_of(
        act, act, st.sampled_from(few), st.sampled_from(few), st.just(["undo"]), st.just(["undo"]), st.just(["undo"]),
        st.just(["redo"]), st.just(["redo"]), st.just(["candidates"]),
        st.sampled_from(["settings", "check", "conflicts", "hint"]).map(lambda x: ["effectless", x]),
        st.sampled_from(["", " ", "\t  "]).map(lambda x: ["empty", x]),
        st.sampled_from(INVALID).map(lambda x: ["invalid", x]))
    steps = draw(st.lists(one, **draw(st.sampled_from([{"min_size": 1, "max_size": 6}, {"min_size": 12, "max_size": 30},
                                                       {"min_size": 8, "max_size": 30}]))))
    return {"nums": draw(gamemodel.sudokus()), "settings": draw(gamemodel.settings()), "steps": steps}


@st.composite
def long_cases(draw):
    """Many changes in a row, then far back, and some more."""
    case = draw(cases())
    # changes in any case: numbers set in turn
    cells = draw(st.lists(gamemodel.BYTE.map(lambda i: i % 81), min_size=1, max_size=4))
    more = draw(st.lists(gamemodel.actions(), min_size=1, max_size=12))
    count = draw(st.sampled_from([20, 33, 40, 51, 64, 70, 101, 130, 150]))
    many = []
    for k in range(count):
        i = cells[k % len(cells)]
        v = k // len(cells) % 9 + 1
        many.append(["do", "r%dc%d=%d" % (i // 9 + 1, i % 9 + 1, v), "set", [[i // 9, i % 9]], [v]])
        if k % 4 == 3:
            many.append(more[k // 4 % len(more)])
        if k % 16 == 15:
            many.append(["candidates"])
    back = draw(st.integers(0, count + 5))
    forth = draw(st.integers(0, back))
    case["steps"] = case["steps"][:5] + many + [["undo"]] * back + [["redo"]] * forth + case["steps"][5:12]
    return case


PARTS = [Part("histories", cases(), check, 6000, 30000),
         Part("long histories", long_cases(), check, 120, 3000)]
