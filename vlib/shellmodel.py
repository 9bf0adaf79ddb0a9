"""Model of the shell: a current sudoku and a stack, both plain tables.

Commands are JSON lists [name, ...]; render() writes them as text, Model.run()
carries them out and says what the shell should print.
"""
import re

from hypothesis import strategies as st

from sudokutools.solve import bruteforce
from sudokutools.sudoku import view
from vlib import gens, ref, sut
from vlib.engine import Violation

PROBE = 'encode include_candidates=True col_sep="-" row_sep="-"'


class Table(object):
    def __init__(self, w, h, nums=None, cands=None):
        self.w, self.h, self.n = w, h, w * h
        k = self.n * self.n
        self.nums = list(nums) if nums else [0] * k
        self.cands = [frozenset(c) for c in cands] if cands else [frozenset()] * k

    def copy(self):
        return Table(self.w, self.h, self.nums, self.cands)

    def make(self):
        s = sut.make(self.w, self.h, self.nums)
        for i, c in enumerate(self.cands):
            s.set_candidates(i // self.n, i % self.n, c)
        return s

    def __eq__(self, other):
        return (self.w, self.h, self.nums, self.cands) == (other.w, other.h, other.nums, other.cands)

    def probe_text(self):
        """Sorted text as printed by PROBE."""
        return "%s|%s" % ("-".join(map(str, self.nums)),
                          ",".join("-".join(map(str, sorted(c))) for c in self.cands))


def parse_encoded(text, sep):
    """(numbers, candidates or None) of an encoded sudoku."""
    try:
        text = text.strip("\n")
        nums, _, rest = text.partition("|")
        items = nums.split(sep) if sep else list(nums)
        nums = [int(x) for x in items]
        cands = None
        if _:
            cands = []
            for part in rest.split(","):
                items = [x for x in part.split(sep) if x] if sep else list(part)
                cands.append(frozenset(int(x) for x in items))
        return nums, cands
    except ValueError:
        return None, None


class Failed(Exception):
    """The command fails: an error message, no change."""


class Adopt(object):
    """The new state is only known up to some condition."""

    def __init__(self, w, h, cond, fails=False):
        self.w, self.h, self.cond, self.fails = w, h, cond, fails


def solvable(t):
    """Number of completions: 0, 1, 2 (several), None if too hard."""
    if t.n > 9 and t.nums.count(0) > t.n * t.n // 2:
        return None, None
    try:
        sols = ref.solutions(t.w, t.h, t.nums, limit=2, max_nodes=2000)
    except ref.Limit:
        return None, None
    return len(sols), sols[0] if sols else None


class Model(object):
    def __init__(self):
        self.cur = Table(3, 3)
        self.stack = []

    def state(self):
        return self.cur.copy(), [t.copy() for t in self.stack]

    def run(self, cmd):
        """Returns a function checking the printed text, an Adopt object, or
        raises Failed."""
        name, t = cmd[0], self.cur
        n = t.n

        def cell():
            return (cmd[1] % n) * n + cmd[2] % n

        if name == "new":
            self.cur = Table(cmd[1], cmd[2])
        elif name == "decode":
            w, h, nums, cands = cmd[1:5]
            self.cur = Table(w, h, sut.unpack(nums), [sut.values(m) for m in cands] if cands else None)
        elif name == "set":
            t.nums[cell()] = cmd[3] % (n + 1)
        elif name == "get":
            v = t.nums[cell()]
            return lambda text: text.strip() == str(v)
        elif name == "set_candidates":
            t.cands[cell()] = frozenset(1 + v % n for v in cmd[3])
        elif name == "remove_candidates":
            t.cands[cell()] -= frozenset(1 + v % n for v in cmd[3])
        elif name == "get_candidates":
            want = sorted(t.cands[cell()])
            return lambda text: sorted(int(x) for x in re.findall(r"\d+", text)) == want and \
                text.endswith("\n") and text.count("\n") == 1
        elif name == "init_candidates":
            c = ref.candidates(t.w, t.h, t.nums)
            for i, x in enumerate(ref.geo(t.w, t.h).cells):
                if t.nums[i] or not cmd[1]:
                    t.cands[i] = frozenset(c[x])
        elif name == "encode":
            sep, withc = self.encode_args(cmd)
            nums, cands = list(t.nums), list(t.cands)

            def check(text):
                if text.count("\n") != 1 or not text.endswith("\n"):
                    return False
                a, b = parse_encoded(text, sep)
                return a == nums and b == (cands if withc else None)
            return check
        elif name == "print":
            want = str(t.make()) + "\n"
            return lambda text: text == want
        elif name == "view":
            kw = {"candidate_prefix": cmd[2], "align_right": False} if len(cmd) > 2 and cmd[2] else {}
            want = view(t.make(), include_candidates=bool(cmd[1]), **kw) + "\n"
            return lambda text: text == want
        elif name == "solve":
            count, sol = solvable(t)
            if count is None:
                return self.run(["stack"])
            if count == 0:
                raise Failed()
            result = next(bruteforce(t.make()))
            rc = sut.cands(result)

            def cond(new):
                if not ref.is_complete_valid(new.w, new.h, new.nums):
                    return "no solution"
                if any(a and a != b for a, b in zip(t.nums, new.nums)):
                    return "another number"
                if count == 1 and tuple(new.nums) != sol:
                    return "another solution"
                if new.nums == sut.flat(result) and new.cands != rc:
                    return "other candidates than bruteforce()"
            return Adopt(t.w, t.h, cond)
        elif name == "generate":
            w, h, count, sym = cmd[1:5]

            def cond(new):
                if sum(1 for v in new.nums if v) < count:
                    return "not enough numbers"
                if len(ref.solutions(w, h, new.nums, limit=2)) != 1:
                    return "not unique"
            return Adopt(w, h, cond)
        elif name == "generate_from_template":
            if n > 6:
                return self.run(["stack"])

            def cond(new):
                if [bool(v) for v in new.nums] != [bool(v) for v in t.nums]:
                    return "does not match the template"
                if len(ref.solutions(t.w, t.h, new.nums, limit=2)) != 1:
                    return "not unique"
            return Adopt(t.w, t.h, cond, fails=True)
        elif name == "push":
            self.stack.append(t.copy())
        elif name == "pop":
            if not self.stack:
                raise Failed()
            i = cmd[1]
            if i is None:
                i = len(self.stack) - 1
            if not 0 <= i < len(self.stack):
                raise Failed()
            self.cur = self.stack.pop(i)
        elif name == "stack":
            k = len(self.stack)
            return lambda text: re.findall(r"\d+", text) == [str(k)] and text.endswith("\n")
        elif name == "help":
            return lambda text: cmd[1] in text and text.endswith("\n")
        elif name == "fail":
            raise Failed()
        else:
            raise RuntimeError(name)
        return lambda text: text == ""

    def encode_args(self, cmd):
        sep, withc = cmd[1:3]
        if self.cur.n > 9:
            sep = sep or "-"
        return sep, withc

    def solve_skipped(self):
        return solvable(self.cur)[0] is None

    def render(self, cmd):
        """Text of the command (without changing the model)."""
        name, n = cmd[0], self.cur.n

        def cell(kw=False):
            r, c = cmd[1] % n, cmd[2] % n
            return "%d %d" % (r, c)

        if name == "new":
            w, h, form = cmd[1:4]
            if (w, h) == (3, 3) and form == 2:
                return "new"
            return ("new box_size=(%d,%d)" if form == 1 else "new (%d,%d)") % (w, h)
        if name == "decode":
            return decode_text(*cmd[1:])
        if name == "set":
            return "set %s %d" % (cell(), cmd[3] % (n + 1))
        if name in ("get", "get_candidates"):
            return "%s %s" % (name, cell())
        if name in ("set_candidates", "remove_candidates"):
            vals = [1 + v % n for v in cmd[3]]
            body = ",".join(map(str, vals))
            forms = ["[%s]" % body, "(%s,)" % body if vals else "()", "{%s}" % body if vals else "()"]
            return "%s %s %s" % (name, cell(), forms[cmd[4] % 3])
        if name == "init_candidates":
            return "init_candidates" + (" filled_only=True" if cmd[1] else
                                        "" if cmd[2] else " filled_only=False")
        if name == "encode":
            sep, withc = self.encode_args(cmd)
            return "encode" + (' row_sep="%s" col_sep="%s"' % (sep, sep) if sep else "") + \
                (" include_candidates=True" if withc else "")
        if name == "view":
            return "view" + ("" if cmd[1] else " include_candidates=False") + \
                (" align_right=False candidate_prefix='%s'" % cmd[2] if len(cmd) > 2 and cmd[2] else "")
        if name == "solve":
            return "stack" if self.solve_skipped() else "solve"
        if name == "generate_from_template" and n > 6:
            return "stack"
        if name == "generate":
            w, h, count, sym = cmd[1:5]
            out = "generate"
            if (w, h) != (3, 3):
                out += " box_size=(%d,%d)" % (w, h)
            if count:
                out += " min_count=%d" % count
            if sym:
                out += ' symmetry="%s"' % sym
            return out
        if name == "pop":
            return "pop" + ("" if cmd[1] is None else
                            " position=%d" % cmd[1] if cmd[2] else " %d" % cmd[1])
        if name == "help":
            return "help %s" % cmd[1]
        if name == "fail":
            return cmd[1]
        return name


def decode_text(w, h, nums, cands, form):
    n = w * h
    nums = sut.unpack(nums)
    sep = "-" if n > 9 or form % 2 else None
    empty = ["0", ".", "_"][form % 3]
    if form > 17:
        # values with equal signs inside are given by name
        empty = "="
    text = (sep or "").join(empty if v == 0 else str(v) for v in nums)
    if cands:
        text += "|" + ",".join((sep or "").join(str(v) for v in sut.values(m)) for m in cands)
    q = "'" if form % 5 == 0 else '"'
    out = "decode %s%s%s%s" % ("s=" if "=" in text or form == 13 else "", q, text, q)
    if sep:
        out += " number_sep='%s'" % sep
    if empty != "0":
        out += ' empty="%s"' % empty
    if w != h or form % 7 == 0:
        out += " box_size=(%d,%d)" % (w, h)
    return out


FAILS = [
    "foo", "Set 0 0 1", "encode 1 2 3 4 5 6 7 8", "set", "set 0", "set 0 0", "set 0 0 1 2 3",
    "get 999 0", "get 0 999", "set 999 0 1", "set 0 999 1", "set_candidates 0 999 [1]",
    "set_candidates 0 0 5", "remove_candidates 0 0 7", "remove_candidates 999 0 [1]", "get_candidates 0 999",
    "get a b", "set 0 0 x", "set 0 0 [1", "get 0 0 row=", "set_candidates 0 0 {[]:1}", "view nothing=3",
    'decode "12"', 'decode "abcd"', 'decode "00000"', 'decode "0000" box_size=3', "decode 5", "decode",
    "pop 99", "pop -1", "pop x", "pop 1 2 3", "push 1", "stack 1", "exit 1", "help foo", "help 3",
    "loop 0", "loop -1", "loop", "loop end", "loop x", "loop 1 2", 'generate symmetry="foo"',
    "generate min_count=100", "new (2,2) 3 4", "new box=3", "init_candidates 1 2 3", "solve 1", "print 1",
    "sudoku", "end", "get sudoku=1", "get 0 0 shell=1", "set_candidates 0 0 [[1]]",
    "generate_from_template tries=0",
]

HELPS = ["new", "decode", "get", "set", "encode", "print", "view", "solve", "loop", "push", "pop", "exit",
         "init_candidates", "generate", "stack", "help", "clear"]

SIZES = gens.weighted((3, (2, 2)), (2, (2, 3)), (2, (3, 2)), (3, (3, 3)), (1, (2, 5)), (1, (1, 3)),
                      (1, (4, 2)), (1, (5, 2)))
IDX = st.integers(0, 29)


@st.composite
def commands(draw, fails=False, random=False, creating=True):
    """One command."""
    names = ["set", "set", "set", "get", "set_candidates", "set_candidates", "get_candidates",
             "remove_candidates", "remove_candidates", "init_candidates", "encode", "encode", "print",
             "view", "push", "push", "push", "pop", "pop", "stack", "solve", "solve", "help"]
    if creating:
        names += ["new", "decode", "decode", "decode"]
    if fails:
        names += ["fail", "fail", "badpop"]
    if random:
        names += ["generate", "generate_from_template"]
    name = draw(st.sampled_from(names))
    if name == "new":
        w, h = draw(SIZES)
        return [name, w, h, draw(st.integers(0, 2))]
    if name == "decode":
        w, h = draw(SIZES)
        kind, nums = draw(gens.puzzle(w, h, kinds=("unique", "unique", "unique", "drop", "complete", "corrupt",
                                                   "dense")))
        cands = None
        if draw(st.integers(0, 2)) == 0:
            k = (w * h + 7) // 8
            raw = draw(st.binary(min_size=k * len(nums), max_size=k * len(nums)))
            cands = [int.from_bytes(raw[k * i:k * i + k], "little") & ((1 << (w * h)) - 1)
                     for i in range(len(nums))]
            cands = cands if any(cands) else None
        return [name, w, h, sut.pack(nums), cands, draw(st.integers(0, 20))]
    if name == "set":
        return [name, draw(IDX), draw(IDX), draw(IDX)]
    if name in ("get", "get_candidates"):
        return [name, draw(IDX), draw(IDX)]
    if name in ("set_candidates", "remove_candidates"):
        return [name, draw(IDX), draw(IDX), draw(st.lists(IDX, max_size=4)), draw(st.integers(0, 2))]
    if name == "init_candidates":
        return [name, draw(st.booleans()), draw(st.booleans())]
    if name == "encode":
        return [name, draw(st.sampled_from([None, None, "-", ":", "=", "=="])),
                draw(st.booleans())]
    if name == "view":
        return [name, draw(st.booleans()), draw(st.sampled_from([None, None, "=", "a=b", "+="]))]
    if name == "pop":
        return [name, None if draw(st.booleans()) else draw(st.integers(0, 3)), draw(st.booleans())]
    if name == "badpop":
        return ["pop", draw(st.sampled_from([5, 50, 99])), draw(st.booleans())]
    if name == "help":
        return [name, draw(st.sampled_from(HELPS))]
    if name == "fail":
        return [name, draw(st.sampled_from(FAILS))]
    if name == "generate":
        w, h = draw(gens.weighted((3, (2, 2)), (1, (2, 3)), (1, (3, 2))))
        return [name, w, h, draw(st.integers(0, w * h * w * h)),
                draw(st.sampled_from([None, None, "rotate-180", "mirror-x", "mirror-xy"]))]
    return [name]


def parse_probe(model, text):
    nums, cands = parse_encoded(text, "-")
    if nums is None or cands is None:
        raise Violation("encode prints %r" % text)
    return nums, cands
