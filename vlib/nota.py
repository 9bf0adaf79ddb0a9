"""Reference model of the coordinate and action notation."""
import re

from vlib import ref

SPACE = " \t\n\r\x0b\x0c"


def strip(text):
    return "".join(c for c in text if c not in SPACE)


def parse(text, w, h, sep=",", nsep=""):
    """Set of fields described by text, or None if text is malformed.

    sep and nsep contain no whitespace.  Works by splitting with regular
    expressions instead of reading characters one after another.
    """
    g = ref.geo(w, h)
    n = g.n
    nsep = nsep or ("," if n > 9 else "")
    text = strip(text)
    if nsep:
        number = r"[0-9]+(?:%s[0-9]+)*" % re.escape(nsep)
    else:
        number = r"[0-9]+"
    group = r"(?:[rcbp]%s)+" % number
    if not re.fullmatch(r"%s(?:%s%s)*" % (group, re.escape(sep), group), text):
        return None
    units = {"r": g.rows, "c": g.cols, "b": g.boxes, "p": g.parts}
    out = set()
    for part in re.split("%s(?=[rcbp])" % re.escape(sep), text):
        cells = None
        seen = set()
        for q, nums in re.findall(r"([rcbp])([^rcbp]+)", part):
            if q in seen:
                return None
            seen.add(q)
            nums = nums.split(nsep) if nsep else list(nums)
            nums = [int(x) for x in nums]
            if not all(1 <= x <= n for x in nums):
                return None
            here = set()
            for x in nums:
                here.update(units[q][x - 1])
            cells = here if cells is None else cells & here
        out |= cells
    return out


def row_text(cells, w, h):
    """One notation of the cells: no attempt to be short."""
    return ",".join("r%dc%d" % (r + 1, c + 1) for r, c in cells)
