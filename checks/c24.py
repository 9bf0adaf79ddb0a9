import atexit
import os
import pty
import re
import shutil
import subprocess
import sys
import tempfile
import termios

from hypothesis import strategies as st

from checks.c22 import arrange
from checks.c23 import PLAINFAILS, good_commands
from vlib import engine, shelldrive
from vlib.engine import Part, Violation

PROPERTY = "C24"
RULE = ("A case is a list of commands, possibly with failing ones, exit and loops. It is run by real processes "
        "as script file, on standard input and with -c; in other cases as file with an additional -c, as "
        "missing file or on a terminal (pty), or it is any text, laid out freely and possibly faulty. Output and status are compared with each other and with the "
        "shell run in this process. Non-trivial: there is output, or a failing command.")
ASSUMPTIONS = ["python -m sudokutools is used, the entry point installed by setup.py calls the same function"]
STATE = {}


def workdir():
    if "dir" not in STATE:
        here = os.getcwd()
        inside = os.path.basename(here).startswith("verif-")
        STATE["dir"] = tempfile.mkdtemp(prefix="verif-cli-", dir=here if inside else None)
        atexit.register(shutil.rmtree, STATE["dir"], True)
        STATE["n"] = 0
    return STATE["dir"]


def run(args, stdin=b"", **kw):
    d = workdir()
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=os.path.realpath(engine.REPO), PYTHONPYCACHEPREFIX=os.path.join(d, "cache"),
               LC_ALL="C.UTF-8", PYTHONHASHSEED=str(STATE["n"] % 5))
    STATE["n"] += 1
    cmd = [sys.executable, "-m", "sudokutools"] + args
    try:
        if "tty" in kw:
            p = subprocess.run(cmd, stdin=kw["tty"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=d, env=env, timeout=100, start_new_session=True)
        else:
            p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=d, env=env, timeout=100, start_new_session=True)
    except subprocess.TimeoutExpired:
        raise Violation("%s does not end" % args)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


# names for script files, which look like something else
NAMES = ["script.txt", "a b", "~x", "$HOME", "%s", "*.txt", "[a]", "\u00e9.sdk", "x;y", "stack", "a#b", "{0}", "b\\n", "-",
         "./-c", "@script", "nul\tl", "'q'", "file:x", "x.gz", "x.py"]


def script_file(text, name=None):
    if name is None:
        path = os.path.join(workdir(), "script%d" % STATE["n"])
    else:
        path = os.path.join(workdir(), name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path if name is None else name


def check(case, ctx):
    cmds = case["commands"]
    lines = list(cmds)
    # comments and empty lines, which -c cannot have
    for i, comment in case["notes"]:
        i = i % (len(lines) + 1)
        lines.insert(i, comment)
    text = "".join(x + "\n" for x in lines)
    if case["chop"]:
        text = text[:-1]
    ref = shelldrive.run_lines([x + "\n" for x in cmds])
    status = ref.status or 0
    ctx.require(status in (0, 1), "shell ends with status %s", status)
    want = shelldrive.canonical(ref.out)
    path = script_file(text, case["file"])
    runs = [("file", [path], b"print\n"), ("standard input", [], text.encode("utf-8")),
            ("-c", ["-c", case["sep"].join(cmds)], b"print\n")]
    if case["both"]:
        other = case["other"]
        runs.append(("file and -c", [path, "-c", other] if case["both"] == 1 else ["-c", other, path], b""))
    errs = []
    for name, args, data in runs:
        rc, out, err = run(args, data)
        ctx.require(rc == status, "%s: status %s instead of %s: %s", name, rc, status, err)
        ctx.require(shelldrive.canonical(out) == want, "%s: output %r instead of %r", name, out, want)
        ctx.require(bool(err.strip()) == bool(status), "%s: status %s, but error output %r", name, rc, err)
        ctx.require("Traceback" not in err, "%s: %s", name, err)
        errs.append(err)
        ctx.event("mode: " + name)
    ctx.require(len(set(errs)) == 1, "different error messages: %s", errs)
    ctx.event("status: %d" % status)
    ctx.nontrivial(status or want)


MESSY = ["", " ", ";", ";;", "stack;", ";stack", "stack;;stack", "stack; ;stack", "exit;", "exit;foo", "exit;;",
         "set  0 0 1", "encode ", "view candidate_prefix='a b'", "view candidate_prefix='#'", "print;#", "\\",
         "stack \\", "loop", "loop 2;loop 3", "loop 0", "loop 2;;stack", "loop end", "loop 2;exit;stack", "help loop;",
         "stack\ttab", "\u00a0stack", "view number_sep='\u00e9' ; exit", "get 0 0 0", "x=1", "push x=1", "help foo",
         "view candidate_prefix='\\x41'", "view candidate_prefix='\\ '", "a\\;b", "\\;stack", "stack\\ ;stack",
         "view candidate_prefix='\\\\'", "print\\", "$HOME", "~", "%s", "*"]


def check_layout(case, ctx):
    """Any text: the same as file and on standard input, a single line also with -c."""
    cmds = list(case["commands"])
    for i, line in case["messy"]:
        cmds.insert(i % (len(cmds) + 1), line)
    single = case["sep"] is not None
    text = case["sep"].join(cmds) if single else arrange(cmds, case["layout"], ctx)
    if case["chop"]:
        text = text.rstrip("\n")
    ref = shelldrive.run_lines(re.findall(r"[^\n]*\n|[^\n]+", text))
    status = ref.status or 0
    want = shelldrive.canonical(ref.out)
    runs = [("file", [script_file(text)], b"print\n"), ("standard input", [], text.encode("utf-8"))]
    # no comments and continued lines with -c
    if single and text.strip() and not re.search(r"[#\n]|\\\s*\Z", text):
        runs.append(("-c", ["-c", text], b"print\n"))
    errs = []
    for name, args, data in runs:
        rc, out, err = run(args, data)
        ctx.require(rc == status, "%s: status %s instead of %s: %s", name, rc, status, err)
        ctx.require(shelldrive.canonical(out) == want, "%s: output %r instead of %r", name, out, want)
        ctx.require(bool(err.strip()) == bool(status), "%s: status %s, but error output %r", name, rc, err)
        errs.append(err)
        ctx.event("any text: " + name)
    ctx.require(len(set(errs)) == 1, "different error messages: %s", errs)
    ctx.event("any text: status %d" % status)
    ctx.nontrivial(status or want)


def check_missing(case, ctx):
    d = workdir()
    os.makedirs(os.path.join(d, "folder"), exist_ok=True)
    name = {"missing": "nothing-here.txt", "dir": "folder", "deep": "no/such/folder/x", "abs": d + "/nope",
            "file/x": "script/x"}[case["name"]]
    args = [name]
    if case["c"]:
        args += ["-c", "print; foo"]
    rc, out, err = run(args, b"print\nencode\n")
    ctx.require(rc == 1, "missing file: status %s", rc)
    ctx.require(not out, "missing file: output %r", out)
    ctx.require(err.strip() and "Traceback" not in err, "missing file: error output %r", err)
    ctx.event("missing: " + case["name"])
    ctx.nontrivial()


def check_tty(case, ctx):
    cmds = case["commands"]
    text = "".join(x + "\n" for x in cmds)
    mode = case["mode"]
    if len(text) > 3000:        # terminals buffer 4096 bytes
        return
    master, slave = pty.openpty()
    try:
        attr = termios.tcgetattr(slave)
        attr[3] &= ~termios.ECHO
        termios.tcsetattr(slave, termios.TCSANOW, attr)
        if mode == "shell":
            data = text + ("exit\n" if case["exit"] else "\x04")
            ref = shelldrive.run_lines(text.splitlines(True) + ["exit\n"] * case["exit"], True)
            args = []
        else:
            data = "encode\n\x04"
            ref = shelldrive.run_lines(text.splitlines(True), False)
            args = [script_file(text)] if mode == "file" else ["-c", ";".join(cmds)]
        os.write(master, data.encode("ascii"))
        rc, out, err = run(args, tty=slave)
    finally:
        os.close(master)
        os.close(slave)
    ctx.require(rc == (ref.status or 0), "%s with terminal: status %s: %s", mode, rc, err)
    ctx.require(shelldrive.canonical(out) == shelldrive.canonical(ref.out),
                "%s with terminal: output %r instead of %r", mode, out, ref.out)
    ctx.require(bool(err) == bool(ref.err), "%s with terminal: error output %r", mode, err)
    if mode == "shell":
        # intro and prompts are shown
        plain = shelldrive.run_lines((text + "exit\n").splitlines(True), False)
        ctx.require(out.count("> ") >= len(cmds), "prompts: %r", out)
        if plain.status is None:
            rest = re.sub(r"(loop \d+)?> ", "", out).split("\n", 2)[-1]
            if not case["exit"]:
                rest = rest[:-1]
            ctx.require(shelldrive.canonical(rest) == shelldrive.canonical(plain.out),
                        "interactive %r, not interactive %r", rest, plain.out)
    else:
        ctx.require("> " not in out and "sudokutools shell" not in out, "%s: prompt or introduction: %r", mode, out)
    ctx.event("terminal: " + mode)
    ctx.nontrivial()


@st.composite
def scripts(draw, ascii_only=False):
    cmds = draw(good_commands(8))
    if draw(st.booleans()):
        cmds.append("solve" if len(cmds[0]) < 70 else "encode")
        cmds.append("print")
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(1, len(cmds)))
        j = draw(st.integers(i, len(cmds)))
        cmds = cmds[:i] + ["loop %d" % draw(st.integers(1, 3))] + cmds[i:j] + ["loop end"] + cmds[j:]
    if draw(st.integers(0, 2)) == 0:
        cmds.insert(draw(st.integers(0, len(cmds))), draw(st.sampled_from(PLAINFAILS)))
    if draw(st.integers(0, 2)) == 0:
        cmds.insert(draw(st.integers(0, len(cmds))), "exit")
    if not ascii_only and draw(st.integers(0, 3)) == 0:
        cmds.insert(draw(st.integers(1, len(cmds))), 'view candidate_prefix="%s"' % draw(st.sampled_from(
            ["\u00e9", "\u2028", "a\x0cb", "\x1c-", "\x85", "\U0001f600"])))
    return cmds


@st.composite
def cases(draw):
    notes = draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(
        ["", "  ", "# note", "#", "# \x0cset 0 0 1", "#\x0bprint", "# \u2028foo", "#\x85exit", "\t# \x1cexit", "\x0c"])
    ).map(list), max_size=4)) if draw(st.booleans()) else []
    return {"commands": draw(scripts()), "notes": notes, "chop": draw(st.booleans()),
            "sep": draw(st.sampled_from(["; ", ";", " ; ", ";  "])),
            "file": draw(st.one_of(st.none(), st.sampled_from(NAMES))), "both": draw(st.sampled_from([0, 0, 1, 2])),
            "other": draw(st.sampled_from(["foo", "print", "exit", "stack; stack", "pop"]))}


@st.composite
def layouts(draw):
    return {"commands": draw(scripts()), "chop": draw(st.booleans()),
            "messy": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(MESSY)).map(list), max_size=3)),
            "layout": draw(st.lists(st.integers(0, 255), min_size=1, max_size=30)),
            "sep": draw(st.sampled_from([None, None, "; ", ";", " ;;", "; ;"]))}


@st.composite
def ttys(draw):
    cmds = [c for c in draw(scripts(ascii_only=True)) if c != "exit"]
    return {"commands": cmds, "exit": draw(st.booleans()),
            "mode": draw(st.sampled_from(["shell", "shell", "file", "-c"]))}


PARTS = [
    Part("modes", cases(), check, 800, 6000, guided=0),
    Part("any text", layouts(), check_layout, 400, 4000, guided=0),
    Part("missing", st.fixed_dictionaries({
        "name": st.sampled_from(["missing", "dir", "deep", "abs", "file/x"]), "c": st.booleans()}),
        check_missing, 24, 48, guided=0),
    Part("terminal", ttys(), check_tty, 192, 2000, guided=0),
]
