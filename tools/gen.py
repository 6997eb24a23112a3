"""Writes properties.jsonl and MANIFEST.json from the tables below."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from specs.families import MEMBERS  # noqa: E402

RULES = ["noqx/rule/common.py", "noqx/rule/helper.py"]
FAM = {
    "L01": (
        "Loop puzzles with clues in cells: answers are exactly the rule-abiding loops",
        "a single closed loop (directed where the type says so) that never crosses or branches and satisfies every clue, "
        "shaded-cell rule and given line or cross of the type",
        ["noqx/rule/loop.py", "noqx/rule/reachable.py", "noqx/rule/neighbor.py"],
    ),
    "L02": (
        "Loop puzzles with rooms: answers are exactly the rule-abiding loops",
        "a single closed loop that satisfies the type's conditions on how rooms are entered, left and crossed, every clue, "
        "and every given line or cross",
        ["noqx/rule/loop.py", "noqx/rule/reachable.py", "noqx/rule/helper.py"],
    ),
    "L03": (
        "Bridges, pipes and paths: answers are exactly the rule-abiding networks",
        "the network of paths, bridges or pipes the type describes (connections of the clue cells, crossings where allowed) with every "
        "clue and given line kept",
        ["noqx/rule/loop.py", "noqx/rule/reachable.py"],
    ),
    "N01": (
        "Number puzzles on lines: answers are exactly the rule-abiding fillings",
        "the numbers or letters in cells satisfy the row, column, sum, comparison, visibility and neighbour conditions of the type, "
        "use only the admissible values, and keep every given",
        ["noqx/rule/variety.py", "noqx/rule/common.py"],
    ),
    "N02": (
        "Number puzzles on rooms: answers are exactly the rule-abiding fillings",
        "the numbers in cells satisfy the room, distance, adjacency and connectivity conditions of the type, use only the admissible "
        "values, and keep every given",
        ["noqx/rule/variety.py", "noqx/rule/reachable.py", "noqx/rule/neighbor.py"],
    ),
    "R01": (
        "Division puzzles with clues: answers are exactly the rule-abiding divisions",
        "the board is cut completely into regions (no border inside a region) whose shape, size and contents satisfy the clues, and every "
        "given border is kept",
        ["noqx/rule/common.py", "noqx/rule/reachable.py", "noqx/rule/shape.py"],
    ),
    "R02": (
        "Division into given sizes or shapes: answers are exactly the allowed divisions",
        "the board is cut completely into regions of the sizes or shapes the type prescribes (in every rotation and reflection), with the "
        "type's neighbour conditions, every clue and every given border kept",
        ["noqx/rule/shape.py", "noqx/rule/reachable.py", "noqx/rule/neighbor.py"],
    ),
    "S01": (
        "Shading with connected unshaded cells: answers are exactly the valid shadings",
        "the shading satisfies the adjacency, connectivity, room and clue conditions of the type, and keeps every given coloured cell",
        ["noqx/rule/reachable.py", "noqx/rule/neighbor.py", "noqx/rule/shape.py"],
    ),
    "S02": (
        "Walls, seas and caves: answers are exactly the valid shadings",
        "the shaded and unshaded cells form the walls, islands, caves or areas the type prescribes (connectivity, no 2x2 blocks, sizes, "
        "views), and every given coloured cell is kept",
        ["noqx/rule/reachable.py", "noqx/rule/neighbor.py", "noqx/rule/shape.py"],
    ),
    "S03": (
        "Shaded pieces and rooms: answers are exactly the valid shadings",
        "the shaded cells form the pieces the type prescribes (dominoes, tetrominoes, blocks, rectangles, a snake) in rooms or around "
        "clues, and every given coloured cell is kept",
        ["noqx/rule/shape.py", "noqx/rule/reachable.py", "noqx/rule/neighbor.py"],
    ),
    "S04": (
        "Shading by counts: answers are exactly the valid shadings",
        "the shading satisfies the counts, runs and views given on the lines, cells and rooms, and keeps every given coloured cell",
        ["noqx/rule/common.py", "noqx/rule/neighbor.py", "noqx/rule/helper.py"],
    ),
    "V01": (
        "Object placement: answers are exactly the rule-abiding placements",
        "the objects (lights, ships, magnets, mines, stars, tents, slants, triangles, pieces) satisfy the counting, adjacency, lighting "
        "and shape conditions of the type, and every given object or helper mark is kept",
        ["noqx/rule/neighbor.py", "noqx/rule/shape.py", "noqx/rule/common.py"],
    ),
    "V02": (
        "Two-colour and block fillings: answers are exactly the rule-abiding fillings",
        "the fillings satisfy the balance, run, symmetry and shape conditions of the type, and keep every given",
        ["noqx/rule/shape.py", "noqx/rule/reachable.py", "noqx/rule/variety.py"],
    ),
}

OTHER = []
try:
    from other_props import OTHER  # noqa: F401,E402
except ImportError:
    pass

NA = []
try:
    from other_props import NA  # noqa: F401,E402,F811
except ImportError:
    pass


def covered():
    """Puzzle types with a specification, by family."""
    import re

    have = set()
    d = os.path.join(ROOT, "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                have |= set(re.findall(r'^    name = "(\w+)"', fh.read(), re.M))
    return {k: [p for p in v if p in have] for k, v in MEMBERS.items()}


def main():
    props, checks = [], []
    for k, names in covered().items():
        title, what, files = FAM[k]
        props.append(
            {
                "id": k,
                "title": title,
                "statement": (
                    f"For every drawing of a puzzle of the types {', '.join(names)}, the solver's displayed answers are exactly those in "
                    f"which {what}: no displayed answer breaks a rule or contradicts a given, and no rule-abiding answer is missed. "
                    "No answer is produced twice. A well-formed drawing is never refused or crashed on, and what the type "
                    "declares invalid is refused with an error message."
                ),
                "quantifier": {
                    "over": ["inputs"],
                    "text": "all boards, room layouts, clue positions and values, given marks and parameters, and all answers",
                },
                "why_tests_cant": (
                    "The tests solve one or two published examples per type and compare with the one stored answer; a rule that is "
                    "dropped, weakened or misplaced on other layouts, clue values, border cells or givens leaves them unchanged."
                ),
                "anchors": {
                    "files": [f"solver/{p}.py" for p in names] + files,
                    "mechanism": [
                        {"name": "program generated from the drawing", "where": "solver/<type>.py: solve()"},
                        *[{"name": "rule library", "where": f} for f in files],
                    ],
                    "observe_at": ["noqx/manager.py: generate_program / store_solution", "noqx/clingo.py: run_solver"],
                },
            }
        )
        checks.append(
            {
                "property": k,
                "quick_cmd": f"./check {k} --tier quick",
                "thorough_cmd": f"./check {k} --tier thorough",
                "technique": (
                    "symbolic execution of the real solver modules (symbolic element places and values), stable-model circuit of the "
                    "generated program, SAT/SMT queries against a rule specification"
                ),
                "level": "other",
                "level_note": (
                    "bounded: every drawing of the stated element kinds on the boards listed in the evidence (2x2 to 4x4, thorough: "
                    "larger) and every answer on them; counterexamples replayed on the real code"
                ),
            }
        )
    for o in OTHER:
        props.append({k: o[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
        if "technique" in o:
            k = o["id"]
            checks.append(
                {
                    "property": k,
                    "quick_cmd": f"./check {k} --tier quick",
                    "thorough_cmd": f"./check {k} --tier thorough",
                    "technique": o["technique"],
                    "level": "other",
                    "level_note": o["level_note"],
                }
            )
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}, f, indent=1)
        f.write("\n")


main()
