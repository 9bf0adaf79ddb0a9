"""Writes MANIFEST.json (run in /verif)."""
import json

TECH = {
    "C01": "property-based testing: generated sudokus, differential against an independent reference solver",
    "C02": "stateful property-based testing: generated call histories with snapshots and interleaved iterators",
    "C03": "property-based testing: differential against definitions (conflicts, completions)",
    "C04": "property-based testing: differential against the definition of candidates",
    "C05": "property-based testing: generated candidate states with known solution, invariant over step histories",
    "C06": "property-based testing: state before and after each step compared with its announcement",
    "C07": "property-based testing: planted patterns, differential against brute-force pattern search",
    "C08": "property-based testing: reference solver as oracle, replay of reported steps, line budget for termination",
    "C09": "property-based testing: reference logic solver as oracle for ratings, recomputed scores",
    "C10": "property-based testing: generated arguments and random states, validity predicate with reference solver",
    "C11": "property-based testing: generated templates and random states, validity predicate with reference solver",
    "C12": "property-based testing: generated box sizes and random states, validity predicate",
    "C13": "property-based testing: round-trip",
    "C14": "property-based testing: texts generated from structure, expected meaning by construction",
    "C15": "property-based testing: printed grid read back by an independent parser",
    "C16": "stateful property-based testing: histories of operations against a table model",
    "C17": "property-based testing: differential against groups built from the definition",
    "C18": "property-based testing: round-trip, metamorphic (order, repetition), reference parser",
    "C19": "grammar-based and mutational fuzzing: differential against a reference parser",
    "C20": "property-based testing and mutational fuzzing: round-trip, reference parser, table model",
    "C21": "stateful property-based testing: command histories against a model of sudoku and stack",
    "C22": "metamorphic property-based testing: random layouts of scripts against their plain form",
    "C23": "fault injection and fuzzing: failing commands, interrupts and arbitrary lines at generated positions",
    "C24": "differential property-based testing with real processes: file, standard input, -c, terminal",
    "C25": "stateful property-based testing: game histories against a model with all states",
    "C26": "stateful property-based testing: feedback of the game against model and reference solver",
    "C27": "metamorphic property-based testing: symmetry transformations of sudokus and candidate states",
}
NOTE = {
    "default": "Sampled, not exhaustive: no violation in the generated cases (counts, classes and samples in the "
               "evidence file). Trusts the reference model in vlib/ref.py, which shares no code with the package.",
    "C13": "Sampled, not exhaustive. Round-trip only; what texts mean is C14.",
    "C22": "Sampled, not exhaustive. Relates scripts with each other; what single commands do is C21.",
    "C24": "Sampled with real processes, a few hundred scripts per quick run; the in-process shell is the reference.",
    "C25": "Sampled, not exhaustive. The generator of new sudokus is replaced by given sudokus.",
    "C26": "Sampled, not exhaustive. The generator of new sudokus is replaced by given sudokus.",
}

checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt run.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE.get(p, NOTE["default"]),
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3-vt tools/selftest.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Seeds from VERIF_SEED. See DESIGN.md.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
