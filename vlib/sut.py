"""Thin adapter to the code under test: build and read sudokus through the
public interface only, turning malformed results into violations."""
from sudokutools.sudoku import Sudoku

from vlib import ref
from vlib.engine import Violation

DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def unpack(text):
    """'0A1' -> [0, 10, 1]"""
    if isinstance(text, list):
        return list(text)
    return [DIGITS.index(c) for c in text]


def pack(nums):
    return "".join(DIGITS[v] for v in nums)


def make(w, h, nums, cands=None):
    """nums: packed text or flat list; cands: flat list of bit masks."""
    if isinstance(nums, str):
        nums = unpack(nums)
    s = Sudoku(box_size=(w, h))
    n = w * h
    for i, v in enumerate(nums):
        s[i // n, i % n] = v
    if cands is not None:
        for i, m in enumerate(cands):
            s.set_candidates(i // n, i % n, values(m))
    return s


def other_content(w, h, nums, cands, how, sol=None):
    """Another content for a sudoku, similar to the given one."""
    n = w * h
    nums, cands = list(nums), list(cands)
    full = (1 << n) - 1

    def turn(v):
        return v and v % n + 1

    def turn_mask(m):
        return (m << 1 | m >> n - 1) & full
    if how == 1:        # other numbers
        return [turn(v) for v in nums], [turn_mask(m) for m in cands]
    if how == 2:        # upside down
        return nums[::-1], cands[::-1]
    if how == 3:        # two fields exchanged
        filled = [i for i, v in enumerate(nums) if v]
        i = filled[len(filled) // 2] if filled else 0
        j = nums.index(0) if 0 in nums else n * n - 1 - i
        nums[i], nums[j] = nums[j], nums[i]
        k = [k for k, m in enumerate(cands) if m != cands[i]]
        if k:
            k = k[len(k) // 2]
            cands[i], cands[k] = cands[k], cands[i]
        return nums, cands
    if how == 4:        # the lines in another order
        return nums[n:] + nums[:n], cands[n:] + cands[:n]
    if how == 5:        # another number in one field, other candidates in another one
        i = next((i for i, v in enumerate(nums) if v), 0)
        nums[i] = turn(nums[i])
        k = max(range(n * n), key=lambda k: bin(cands[k]).count("1"))
        cands[k] = turn_mask(cands[k])
        return nums, cands
    if how == 6 and sol:    # other fields of the solution filled
        count = sum(1 for v in nums if v)
        return [v if i < count else 0 for i, v in enumerate(sol)], cands
    return nums, cands


HOWS = {1: "other numbers", 2: "upside down", 3: "fields exchanged", 4: "lines in another order", 5: "one field",
        6: "other fields filled"}


def make_used(w, h, nums, cands, how, use, sol=None):
    """Like make(), but the object had another content when use(object) was called.

    use() may raise no exception and must leave the object as it is."""
    if not how:
        return make(w, h, nums, cands)
    if isinstance(nums, str):
        nums = unpack(nums)
    if cands is None:
        cands = [0] * len(nums)
    n = w * h
    oldnums, oldcands = other_content(w, h, nums, cands, how, sol)
    s = make(w, h, oldnums, oldcands)
    use(s)
    for i in range(n * n):
        if oldnums[i] != nums[i]:
            s[i // n, i % n] = nums[i]
        if oldcands[i] != cands[i]:
            s.set_candidates(i // n, i % n, values(cands[i]))
    return s


def values(mask):
    out = []
    v = 1
    while mask:
        if mask & 1:
            out.append(v)
        mask >>= 1
        v += 1
    return out


def mask(vals):
    m = 0
    for v in vals:
        m |= 1 << (v - 1)
    return m


def size(s):
    try:
        w, h = s.box_width, s.box_height
    except AttributeError:
        raise Violation("not a sudoku: %r" % (s,))
    if tuple(s.box_size) != (w, h):
        raise Violation("box_size is %r, but box_width, box_height are %r, %r" % (s.box_size, w, h))
    return w, h


def flat(s):
    """All numbers, row by row."""
    w, h = size(s)
    n = w * h
    return [s[r, c] for r in range(n) for c in range(n)]


def cands(s):
    """All candidates, row by row, as frozensets."""
    w, h = size(s)
    n = w * h
    out = []
    for r in range(n):
        for c in range(n):
            v = s.get_candidates(r, c)
            try:
                out.append(frozenset(v))
            except TypeError:
                raise Violation("candidates of (%d, %d) are %r" % (r, c, v))
    return out


def full(s):
    return size(s), flat(s), cands(s)


def candmap(s):
    w, h = size(s)
    return dict(zip(ref.geo(w, h).cells, cands(s)))


def nummap(s):
    w, h = size(s)
    return dict(zip(ref.geo(w, h).cells, flat(s)))


def step(x):
    """(class name, clues, affected, values) of a solve step."""
    try:
        def cells(l):
            return tuple((int(r), int(c)) for r, c in l)
        return (type(x).__name__, cells(x.clues), cells(x.affected),
                tuple(int(v) for v in x.values))
    except (AttributeError, TypeError, ValueError) as e:
        raise Violation("not a solve step: %r (%s)" % (x, e))


def spoil(s):
    """Empty a sudoku, which has been returned, as it belongs to the caller."""
    w, h = size(s)
    for i in range(w * h):
        for j in range(w * h):
            s[i, j] = 0
            s.set_candidates(i, j, ())
