"""Drives the shells of the code under test in this process."""
import contextlib
import io
import re

from sudokutools import shell
from vlib.engine import Violation


class In(io.TextIOBase):
    """Input file which asks a function for every line ("" is EOF)."""

    def __init__(self, fn, tty=False):
        io.TextIOBase.__init__(self)
        self.fn, self.tty = fn, tty

    def readable(self):
        return True

    def isatty(self):
        return self.tty

    def readline(self, size=-1):
        return self.fn()


class Out(io.StringIO):
    """Output file with an optional function called on every write."""
    hook = None

    def write(self, s):
        if self.hook:
            self.hook(s)
        return io.StringIO.write(self, s)


class Result(object):
    """out, err: all output; status: None (run() returned) or exit status."""

    def __init__(self):
        self.out, self.err, self.stray, self.status = "", "", "", None


def run_shell(next_line, interactive, out=None, pass_mode=True):
    """Run a Shell; next_line() returns lines with line end, "" at the end.

    next_line may raise KeyboardInterrupt.  Violations raised in it are
    raised here again, whatever the shell does with them.
    """
    out = out or Out()
    err, stray = io.StringIO(), io.StringIO()
    problem = []

    def fn():
        if problem:
            return ""
        try:
            return next_line()
        except Violation as e:
            problem.append(e)
            return ""

    res = Result()
    inp = In(fn, interactive)
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(stray):
        try:
            sh = shell.Shell(interactive=interactive if pass_mode else None, infile=inp, outfile=out)
            sh.run()
        except SystemExit as e:
            res.status = 0 if e.code is None else e.code
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            if problem:
                raise problem[0]
            raise Violation("%s escapes from the shell: %s" % (type(e).__name__, e)) from e
    if problem:
        raise problem[0]
    res.out, res.err, res.stray = out.getvalue(), err.getvalue(), stray.getvalue()
    return res


def run_lines(lines, interactive=False, **kw):
    it = iter(lines)
    return run_shell(lambda: next(it, ""), interactive, **kw)


class Chunks(object):
    """Output since the last call, for incremental checks."""

    def __init__(self):
        self.out = Out()
        self.pos = 0

    def take(self):
        text = self.out.getvalue()
        new, self.pos = text[self.pos:], len(text)
        return new


PROMPT = re.compile(r"(?:loop \d+)?> \Z")


def strip_prompt(text):
    """(text without the prompt at its end, prompt or None)"""
    m = PROMPT.search(text)
    if not m:
        return text, None
    return text[:m.start()], m.group(0)


def canonical(text):
    """Output with printed sets in a fixed order."""
    out = []
    for line in text.split("\n"):
        if re.match(r"(frozenset|set)?[({\[]", line):
            line = "{%s}" % ", ".join(sorted(re.findall(r"\d+", line)))
        out.append(line)
    return "\n".join(out)
