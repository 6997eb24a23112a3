"""Writes the fixed entries of known_findings.json (findings are added by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, "known_findings.json")
FIXED = [
    ("S01", "9e3c3cd", "aquapelago: a cell with a number could be left unshaded"),
    ("L01", "21248cf", "firefly: the bends of other lines through the same cells were counted for a number"),
    ("L01", "321b1f4", "firefly: without any number in a firefly the lines did not have to be connected"),
    ("S01", "34e2c88", "heyawake, heyablock: an edge marked with a helper cross counted as a room border"),
    ("S03", "34e2c88", "hinge: an edge marked with a helper cross counted as a room border"),
    ("S01", "f2b13fe", "mannequin: distances longer than the bound of the path search were not found"),
    ("L01", "17a9dda", "nagare: a wind blowing straight off the board made the program unsolvable or raised"),
    ("R02", "4d23e4c", "ncells: region size 0 was accepted and every division without checks was returned"),
    ("S02", "c3a8413", "lightshadow: a gray clue cell was left unshaded"),
    ("L03", "b432dc2", "numlin: closed loops that belong to no clue were accepted"),
    ("V02", "4d8d937", "binairo: on boards that are not square the halves of a column were counted with the row length"),
    ("N01", "fd8df27", "sudoku: on boards other than 9x9 the second diagonal was not a diagonal"),
    ("N01", "29a7317", "sudoku: boards of sizes without boxes raised an internal error"),
    ("L01", "2b44612", "tapaloop, tapa: tables at module level grew with every solve, so clues were decoded with the sizes of earlier calls"),
    ("V01", "7a8300a", "tents: an answer was listed once per matching of tents and trees"),
    ("V01", "f8a66de", "battleship: a fleet drawn in another style than the default was refused"),
    ("V01", "81535e7", "battleship: a middle part at the border of the board was refused"),
    ("L02", "3b47d98", "country: walls drawn on the right or bottom side of the board forced the road through the cells there"),
    ("R01", "54e3ac0", "triplace: a clue for a run of one cell to its right was checked against the wrong border"),
]
old = [e for e in json.load(open(P)) if e.get("status") != "fixed"]
out = old + [{"status": "fixed", "line": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]
json.dump(out, open(P, "w"), indent=1)
open(P, "a").write("\n")
