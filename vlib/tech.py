"""Techniques of the code under test next to those of the reference."""
from sudokutools import solvers

from vlib import ref, sut
from vlib.engine import Violation

NAMES = ["NakedSingle", "HiddenSingle", "NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple",
         "NakedQuad", "HiddenQuad", "NakedQuint", "HiddenQuint", "PointingPair", "PointingTriple",
         "XWing", "Swordfish", "Jellyfish"]
K = {"Pair": 2, "Triple": 3, "Quad": 4, "Quint": 5, "XWing": 2, "Swordfish": 3, "Jellyfish": 4}
LEVEL = {"CalculateCandidates": 0, "NakedSingle": 1, "HiddenSingle": 1, "NakedPair": 2, "HiddenPair": 2,
         "NakedTriple": 2, "HiddenTriple": 2, "NakedQuad": 3, "HiddenQuad": 3, "NakedQuint": 3,
         "HiddenQuint": 3, "PointingPair": 4, "PointingTriple": 4, "XWing": 5, "Swordfish": 6,
         "Jellyfish": 7, "Bruteforce": 10}


def cls(name):
    return getattr(solvers, name)


def k_of(name):
    for suffix, k in K.items():
        if name.endswith(suffix):
            return k
    return 1


def find(name, s):
    """All steps, normalized to (name, clues, affected, values)."""
    return [sut.step(x) for x in cls(name).find(s)]


def has_pattern(name, g, nums, cands):
    """Does the reference know a step of this technique?"""
    k = k_of(name)
    if name == "NakedSingle":
        return bool(ref.naked_singles(g, nums, cands))
    if name == "HiddenSingle":
        return bool(ref.hidden_singles(g, nums, cands))
    if name.startswith("Naked"):
        return bool(ref.naked_tuples(g, nums, cands, k))
    if name.startswith("Hidden"):
        return bool(ref.hidden_tuples(g, nums, cands, k))
    if name.startswith("Pointing"):
        return bool(ref.pointing_tuples(g, nums, cands, k))
    return bool(ref.fishes(g, nums, cands, k))


def compare(name, g, nums, cands, steps):
    """Compare steps (normalized) with all patterns; returns number of patterns."""
    k = k_of(name)
    for n_, clues, affected, values in steps:
        if not values or not affected:
            raise Violation("%s step without values or affected fields" % name)
    if len(set(steps)) != len(steps) and not (name.startswith("Hidden") and 1 in (g.w, g.h)):
        raise Violation("%s: a step is yielded twice: %s" % (name, sorted(steps)))
    if name in ("NakedSingle", "HiddenSingle"):
        f = ref.naked_singles if name == "NakedSingle" else ref.hidden_singles
        want = f(g, nums, cands)
        got = set()
        for _, clues, affected, values in steps:
            if len(values) != 1 or len(affected) != 1 or affected != clues:
                raise Violation("%s: malformed step %s" % (name, (clues, affected, values)))
            got.add((affected[0], values[0]))
    elif name.startswith("Naked"):
        pats = ref.naked_tuples(g, nums, cands, k)
        want = set(pats)
        got = set()
        for _, clues, affected, values in steps:
            key = (tuple(sorted(clues)), tuple(sorted(values)))
            got.add(key)
            if key in pats and tuple(sorted(affected)) not in pats[key]:
                raise Violation("%s: clues %s, values %s affect %s, not %s" % (
                    name, clues, values, sorted(pats[key]), affected))
    else:
        f = (ref.hidden_tuples if name.startswith("Hidden") else
             ref.pointing_tuples if name.startswith("Pointing") else ref.fishes)
        want = f(g, nums, cands, k)
        got = {(tuple(sorted(c)), tuple(sorted(v)), tuple(sorted(a))) for _, c, a, v in steps}
    if got != want:
        raise Violation("%s: missing steps %s; wrong steps %s" % (
            name, sorted(want - got)[:3], sorted(got - want)[:3]))
    return len(want)
