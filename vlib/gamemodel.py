"""Drives the game shell and compares it with a model of game and history."""
import builtins
import contextlib
import io
import random
import re
from collections import Counter

from hypothesis import strategies as st

import sudokutools.generate
from sudokutools import shell
from sudokutools.analyze import rate
from sudokutools.solvers import hints
from sudokutools.sudoku import view
from vlib import gens, nota, ref, sut
from vlib.engine import Violation

W = H = 3
N = 9
G = ref.geo(W, H)
COMMANDS = ("hint", "candidates", "conflicts", "settings", "check", "undo", "redo")


class Stop(BaseException):
    """Ends the game from inside of input()."""


class Game(object):
    """Numbers and candidates (lists), settings, history."""

    def __init__(self, nums, settings):
        self.settings = settings
        nums = list(nums)
        cands = [frozenset()] * (N * N)
        c = ref.candidates(W, H, nums)
        for i, x in enumerate(G.cells):
            if nums[i] or settings["autocandidates"]:
                cands[i] = frozenset(c[x])
        self.solution = ref.solutions(W, H, nums, limit=1)[0]
        state = [nums, cands]
        if settings["autocandidates"]:
            self.autofill(state)
        self.history = [state]
        self.index = 0

    def current(self):
        return self.history[self.index]

    def autofill(self, state):
        """Changes state; returns (removed, set): sets of (field, number)."""
        nums, cands = state
        removed, put = set(), set()
        while True:
            more = False
            if self.settings["autoremove"]:
                for i in range(N * N):
                    if nums[i]:
                        for j in G.peer_idx[i]:
                            if nums[i] in cands[j]:
                                cands[j] = cands[j] - {nums[i]}
                                removed.add((j, nums[i]))
                                more = True
            if self.settings["autoset"]:
                for i in range(N * N):
                    if not nums[i] and len(cands[i]) == 1:
                        nums[i] = min(cands[i])
                        put.add((i, nums[i]))
                        more = True
            if not more:
                return removed, put

    def change(self, state):
        if state != self.current():
            self.history[self.index + 1:] = [state]
            self.index += 1

    def action(self, kind, cells, vals):
        nums, cands = [list(x) for x in self.current()]
        for (r, c) in cells:
            i = r * N + c
            if kind == "set":
                nums[i] = min(vals)
                cands[i] = frozenset(vals)
            else:
                cands[i] = cands[i] - frozenset(vals)
        state = [nums, cands]
        out = self.autofill(state)
        self.change(state)
        return out

    def candidates(self):
        nums, cands = [list(x) for x in self.current()]
        c = ref.candidates(W, H, nums)
        self.change([nums, [frozenset(c[x]) for x in G.cells]])

    def make(self):
        nums, cands = self.current()
        s = sut.make(W, H, nums)
        for i, c in enumerate(cands):
            s.set_candidates(i // N, i % N, c)
        return s


def read_grid(chunk, ctx):
    """(numbers, candidates) shown at the end of the text; candidates of filled fields: None."""
    from checks.c15 import parse
    lines = chunk.rstrip().rstrip(">").rstrip("\n ").split("\n")[-(N + 2):]
    size = max(len(x) for x in lines)
    cells, _ = parse("\n".join(x.ljust(size) for x in lines), W, H, ctx)
    nums, cands = [], []
    for x in G.cells:
        text = cells[x].strip()
        ctx.require(re.fullmatch(r"[1-9]|\*[1-9]*", text), "field %r:\n%s", text, chunk)
        nums.append(0 if text[0] == "*" else int(text))
        cands.append(frozenset(int(v) for v in text[1:]) if text[0] == "*" else None)
    return nums, cands


def new_game(chunk, settings, ctx):
    """Model of the game with a new sudoku."""
    nums, cands = read_grid(chunk, ctx)
    # (automatically set numbers are solved)
    sols = ref.solutions(W, H, nums, limit=2)
    ctx.require(len(sols) == 1, "a new game with %s completions:\n%s", ("no", 1, "several")[len(sols)], chunk)
    m = re.search(r"(\d+) ?/ ?10", chunk)
    if m and not (settings["autocandidates"] and settings["autoset"]):
        want = rate(sut.make(W, H, nums))
        ctx.require(int(m.group(1)) == want, "rating is %d:\n%s", want, chunk)
        ctx.event("rating: %d" % want)
    return Game(nums, settings)


def play(nums, settings, steps, ctx, seed=None):
    """nums: the sudoku the game starts with; None: whatever it generates.

    steps: iterator of (line, function(feedback)), where the function is
    called with what is printed for this line, after model is up to date.
    The iterator is advanced after the previous line has been checked."""
    start = sut.make(W, H, nums) if nums else None
    out = io.StringIO()
    state = {"pos": 0, "check": None, "problem": None, "game": None}
    if nums:
        state["game"] = Game(sut.unpack(nums), settings)
        state["script"] = steps(state["game"])

    def fake_input(prompt=""):
        out.write(str(prompt))
        text = out.getvalue()
        chunk, state["pos"] = text[state["pos"]:], len(text)
        try:
            if state["game"] is None:
                state["game"] = new_game(chunk, settings, ctx)
                state["script"] = steps(state["game"])
            grid = view(state["game"].make())
            at = chunk.rfind(grid)
            if at < 0 or chunk[at + len(grid):].strip() not in ("", ">") or at and chunk[at - 1] != "\n":
                raise Violation("the game shows:\n%s\nexpected:\n%s" % (chunk, grid))
            if state["check"]:
                state["check"](chunk[:at])
            line, state["check"] = next(state["script"])
        except Violation as e:
            state["problem"] = e
            raise Stop()
        except StopIteration:
            raise Stop()
        return line

    with contextlib.ExitStack() as stack:
        def patch(obj, name, value):
            if hasattr(obj, name):
                stack.callback(setattr, obj, name, getattr(obj, name))
                setattr(obj, name, value)

        def fake_generate(*args, **kwargs):
            return start.copy()
        patch(builtins, "input", fake_input)
        if nums:
            patch(shell, "generate", fake_generate)
            patch(sudokutools.generate, "generate", fake_generate)
        else:
            random.seed(seed)
        stack.enter_context(contextlib.redirect_stdout(out))
        try:
            game = shell.GameShell()
            game.settings.update(settings)
            game.run()
        except Stop:
            pass
    if state["problem"]:
        raise state["problem"]
    return state["game"]


# -- checking functions of single lines ----------------------------------------------

def quiet(line):
    def f(text):
        if text.strip():
            raise Violation("%r prints %r" % (line, text))
    return f


def message(line):
    def f(text):
        if not text.strip():
            raise Violation("%r: no message" % line)
    return f


def autofeedback(line, removed, put):
    """autoremove: r1c2,r2c1<>5 and autoset: r1c1=5"""
    def f(text):
        gone, done = Counter(), Counter()
        for x in text.splitlines():
            if not x.strip():
                continue
            m = re.fullmatch(r"autoremove: ([^<>= ]+)<>([0-9])", x)
            if m:
                for r, c in nota.parse(m.group(1), W, H) or ():
                    gone[r * N + c, int(m.group(2))] += 1
                continue
            m = re.fullmatch(r"autoset: ([^<>= ]+)=([0-9])", x)
            if m:
                for r, c in nota.parse(m.group(1), W, H) or ():
                    done[r * N + c, int(m.group(2))] += 1
                continue
            raise Violation("%r prints %r" % (line, text))
        if set(gone) != removed:
            raise Violation("%r: removed %s, but reported %s" % (line, sorted(removed), sorted(gone)))
        if set(done) != put:
            raise Violation("%r: set %s, but reported %s" % (line, sorted(put), sorted(done)))
    return f


def cell_name(i):
    return "r%dc%d" % (i // N + 1, i % N + 1)


def cells_of(name, line, text):
    p = nota.parse(name, W, H)
    if p is None or len(p) != 1:
        raise Violation("%r prints %r" % (line, text))
    (r, c), = p
    return r * N + c


def wrong_fields(line, want):
    def f(text):
        got = Counter()
        for x in text.splitlines():
            if x.strip():
                m = re.fullmatch(r"\[F\] ?(\S+) = (\d+)", x)
                if not m:
                    raise Violation("%r prints %r" % (line, text))
                got[cells_of(m.group(1), line, text), int(m.group(2))] += 1
        if got != Counter(want):
            raise Violation("%r lists %s instead of %s" % (line, sorted(got.elements()), sorted(want)))
    return f


def conflict_pairs(line, want):
    def f(text):
        got = Counter()
        for x in text.splitlines():
            if x.strip():
                m = re.fullmatch(r"\[F\] ?(\S+) = (\S+) = (\d+)", x)
                if not m:
                    raise Violation("%r prints %r" % (line, text))
                a, b = (cells_of(m.group(k), line, text) for k in (1, 2))
                got[frozenset((a, b)), int(m.group(3))] += 1
        if got != Counter(want):
            raise Violation("%r lists %s instead of %s" % (
                line, sorted((sorted(k), v) for k, v in got.elements()),
                sorted((sorted(k), v) for k, v in want)))
    return f


def settings_shown(line, settings):
    def f(text):
        got = {}
        for x in text.splitlines():
            if x.strip():
                m = re.fullmatch(r"(\w+) = (.*?)\s*(#.*)?", x)
                if not m or m.group(1) in got:
                    raise Violation("%r prints %r" % (line, text))
                got[m.group(1)] = m.group(2)
        if got != {k: str(v) for k, v in settings.items()}:
            raise Violation("%r shows %s instead of %s" % (line, got, settings))
    return f


class Hints(object):
    """Which hints may come next."""

    def __init__(self):
        self.state = None       # state of the last hint
        self.left = None        # Counter of hints to come; None: not known
        self.since = 0          # changes since the last hint

    def changed(self):
        self.since += 1

    def expect(self, line, game, ctx):
        state = (tuple(game.current()[0]), tuple(game.current()[1]))
        if self.state is None or state != self.state:
            # start anew
            self.left = Counter(str(x) for x in hints(game.make()))
            ctx.event("hints: start")
        elif self.since:
            # back to the state of the last hint: both would be fine
            self.left = None
        self.state, self.since = state, 0
        everything = set(str(x) for x in hints(game.make())) if self.left is None else None

        def f(text):
            text = text.rstrip("\n")
            if everything is not None:
                if text not in everything and not text.startswith("No more"):
                    raise Violation("hint %r is not available" % text)
                return
            if not sum(self.left.values()):
                if not text.strip() or text in everything_now:
                    raise Violation("no more hints expected: %r" % text)
                ctx.event("hints: all seen")
                return
            if not self.left.get(text):
                raise Violation("hint %r is not available (any more), but %s" % (
                    text, sorted(self.left.elements())))
            self.left[text] -= 1
            ctx.event("hints: one")
        everything_now = set(str(x) for x in hints(game.make()))
        return f


@st.composite
def sudokus(draw):
    """Mostly easy ones, rating them takes time."""
    g, p = draw(gens.minimal(W, H, draw(st.sampled_from([1, 1, 1, 2, 4]))))
    extra = draw(gens.bits(N * N, draw(st.sampled_from([0, 1, 2, 4, 5, 7]))))
    return sut.pack([g[i] if extra >> i & 1 else v for i, v in enumerate(p)])


@st.composite
def settings(draw):
    kind = draw(st.integers(0, 2))
    out = {"autocandidates": True, "autoremove": True, "autoset": False}
    if kind:
        out = {k: draw(st.booleans()) for k in sorted(out)}
    return out


BYTE = st.binary(min_size=1, max_size=1).map(lambda b: b[0])


@st.composite
def actions(draw):
    """(text, kind, fields, numbers); texts are well-formed."""
    what = draw(st.sampled_from(["set", "set", "remove"]))
    form = draw(st.sampled_from(["one", "one", "one", "few", "unit"]))
    if form == "one":
        i = draw(BYTE) % 81
        cells = {(i // 9, i % 9)}
        where = draw(st.sampled_from(["r%dc%d" % (i // 9 + 1, i % 9 + 1), "c%dr%d" % (i % 9 + 1, i // 9 + 1)]))
    elif form == "few":
        idx = draw(st.lists(BYTE, min_size=1, max_size=3))
        cells = {(i % 81 // 9, i % 9) for i in idx}
        where = ",".join("r%dc%d" % (r + 1, c + 1) for r, c in sorted(cells))
    else:
        q, k = draw(st.sampled_from("rcb")), draw(st.integers(1, 9))
        j = draw(st.sampled_from("1234")) if draw(st.booleans()) else "12"
        q2 = draw(st.sampled_from([x for x in "rcbp" if x != q]))
        where = "%s%d%s%s" % (q, k, q2, j)
        cells = nota.parse(where, W, H)
    vals = sorted(draw(st.sets(st.integers(1, 9), min_size=1, max_size=1 if what == "set" else 3)))
    if what == "set":
        text = "%s=%d" % (where, vals[0])
    else:
        body = "".join(map(str, vals))
        text = draw(st.sampled_from(["%s<>%s" % (where, body), "-%s %s" % (body, where)]))
    return ["do", text, what, [list(x) for x in sorted(cells)], vals]
