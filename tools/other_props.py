"""Properties besides the rule families."""

FUNCS = "noqx/puzzle/penpa.py"


def q(over, text):
    return {"over": over, "text": text}


OTHER = [
    {
        "id": "D01",
        "title": "Drawings are read as they were drawn",
        "statement": (
            "A drawing sent by the Penpa editor is read as exactly what is drawn: the board size without its margins, and every surface colour, "
            "number, letter, arrow clue, corner and side number, multi-number clue, symbol, edge, line and helper cross at the place "
            "(cell, corner or edge, counted from the board's first cell, also in the margins) and with the value that was drawn, for boards of any size with "
            "any margins. Nothing else is read; candidates are left out. Where the solution layer and the problem layer hold something at the same place, "
            "the problem layer counts. Boards that are not made of squares are refused."
        ),
        "quantifier": q(["inputs"], "all board sizes and margins, all elements and their places, alone and in pairs"),
        "why_tests_cant": "The tests decode a few published drawings, nearly all without margins; an index computed with the wrong side, margin or category shows on other boards and places only.",
        "anchors": {
            "files": ["noqx/puzzle/penpa.py", "noqx/puzzle/__init__.py", "noqx/manager.py"],
            "mechanism": [
                {"name": "reading of the layers", "where": "noqx/puzzle/penpa.py: PenpaPuzzle.decode, _unpack_board, _unpack_*"},
                {"name": "point index to cell, corner or edge", "where": "noqx/puzzle/penpa.py: index_to_coord, category_to_direction"},
            ],
            "observe_at": ["noqx/manager.py: prepare_puzzle"],
        },
        "technique": "symbolic execution of the real decoder on drawings with elements at symbolic places; z3 decides that the entries read are the ones drawn",
        "level_note": "bounded: 36 board sizes and margins up to 10x10 (thorough: about 1100, up to 36 wide), every cell of board and margin for each element and for pairs of elements; counterexamples replayed on the real code",
    },
    {
        "id": "D02",
        "title": "Answers are returned as the given drawing with exactly the answer added",
        "statement": (
            "Each answer found is returned as the drawing that was sent, unchanged but for its solution layer, which holds in addition exactly one mark "
            "per part of the answer, of the right kind, value and place: shaded and gray cells, numbers and letters, triangles and other symbols, "
            "borders, diagonals, line segments, bridges. What the problem layer already holds at a place is not drawn over (bridges and the circles of nondango "
            "aside), and what the solution layer already held stays. Several answers do not mix. Ships are drawn with the part that fits their neighbours; numbers "
            "that stand for letters are shown as letters."
        ),
        "quantifier": q(["inputs"], "all board sizes and margins, all answers, all marks already drawn at the same or other places"),
        "why_tests_cant": "The tests compare with stored answers of published puzzles, nearly all without margins and without marks under the answer.",
        "anchors": {
            "files": ["noqx/manager.py", "noqx/puzzle/penpa.py", "noqx/clingo.py", "solver/battleship.py", "solver/easyasabc.py", "solver/news.py"],
            "mechanism": [
                {"name": "answer atoms to marks", "where": "noqx/manager.py: store_solution"},
                {"name": "marks to the solution layer", "where": "noqx/puzzle/penpa.py: encode, _pack_*, coord_to_index"},
                {"name": "puzzle specific marks", "where": "solver/*.py: refine"},
            ],
            "observe_at": ["noqx/clingo.py: run_solver"],
        },
        "technique": "symbolic execution of the real run_solver, store_solution and encoder on models with symbolic places and numbers; z3 decides that the returned layers are the expected ones",
        "level_note": "bounded: 36 board sizes and margins (thorough: about 1100), answers of up to two parts and up to three answers with every place, marks already drawn at every place, ships alone and in pairs on one board; clingo itself is replaced by a stand-in giving the models; counterexamples replayed on the real code",
    },
    {
        "id": "H01",
        "title": "What was solved before does not matter",
        "statement": (
            "The program generated for a drawing depends on that drawing and its parameters only: solving (or failing to solve) other drawings before, of the same or "
            "another type, any number of times and in any order, leaves no trace, and solving the same drawing again gives the same program."
        ),
        "quantifier": q(["histories", "inputs"], "all drawings of every puzzle type solved before, valid or refused"),
        "why_tests_cant": "The tests solve each published example once in a new process; state left behind by one drawing shows with the next one only.",
        "anchors": {
            "files": ["noqx/manager.py", "noqx/rule/helper.py", "solver/tapa.py", "solver/tapaloop.py"],
            "mechanism": [
                {"name": "one solver object per type, reset on every call", "where": "noqx/manager.py: modules, Solver.reset, generate_program"},
                {"name": "tables at module level", "where": "solver/*.py"},
            ],
            "observe_at": ["noqx/manager.py: generate_program"],
        },
        "technique": "symbolic execution of every real solver module on symbolic drawings, twice and interleaved with the published examples; the symbolic programs must be identical on every feasible path",
        "level_note": "bounded: for each of the 133 types every drawing of one small scenario as the history of the same drawing, of the type's published example (after each) and of all types' examples (after all); histories of two drawings; counterexamples replayed in a new process",
    },
    {
        "id": "R03",
        "title": "Rooms are the parts the walls cut the board into",
        "statement": (
            "Whatever edges are drawn or crossed out on the board, its rooms are exactly the maximal sets of cells connected without passing a drawn edge: every "
            "cell is in exactly one room, helper crosses are no walls, the outer border need not be drawn, and each room is given a clue cell that lies in it if and only if it holds one, "
            "whatever cell the search starts from."
        ),
        "quantifier": q(["inputs", "schedules"], "all sets of walls and crosses, all clue cells, all start cells"),
        "why_tests_cant": "The published examples have ordinary rooms only and the start cells are random: a room that is cut or merged from some start cell or by crosses does not show.",
        "anchors": {
            "files": ["noqx/rule/helper.py"],
            "mechanism": [{"name": "search from random start cells", "where": "noqx/rule/helper.py: full_bfs"}],
            "observe_at": ["noqx/rule/helper.py: full_bfs"],
        },
        "technique": "symbolic execution of the real full_bfs with one symbolic wall variable per inner edge; z3 decides that the rooms are the connected parts",
        "level_note": "bounded: every set of walls on boards up to 2x4 and 4x2 (crosses too on 1x4, 4x1, 2x2; thorough: 3x3, 2x5, 5x2), the first start cell any or the two outermost cells, the others in order or in reverse; counterexamples replayed on the real code",
    },
    {
        "id": "T01",
        "title": "Time limit and number of answers are respected",
        "statement": (
            "A request whose handling takes the configured time limit or longer ends with a TimeoutError and never with an incomplete list of answers; one that takes less "
            "returns every answer found, in the order found. The search is asked for no more than the configured number of answers, runs with the configured number of threads, "
            "and is cancelled when the time limit is reached."
        ),
        "quantifier": q(["schedules", "inputs"], "all clock readings, time limits, answer limits, thread counts and numbers of answers found"),
        "why_tests_cant": "The tests force one timeout with a limit of zero; the comparison at the limit and the settings passed on are not seen.",
        "anchors": {
            "files": ["noqx/clingo.py"],
            "mechanism": [
                {"name": "time measured around the whole request", "where": "noqx/clingo.py: run_solver"},
                {"name": "settings, waiting and cancelling", "where": "noqx/clingo.py: ClingoSolver.solve"},
            ],
            "observe_at": ["noqx/clingo.py: run_solver"],
        },
        "technique": "symbolic execution of the real run_solver with a symbolic clock and symbolic settings, clingo replaced by a recording stand-in; z3 decides the outcome on every path",
        "level_note": "bounded: up to 11 answers found (thorough: 39), every clock reading and setting; that clingo honours its settings is assumed; counterexamples replayed on the real code",
    },
    {
        "id": "A01",
        "title": "Requests are answered with the status that fits the outcome",
        "statement": (
            "The solve endpoint answers a solved drawing with its answers, a drawing the type declares invalid with status 400 and the message, a timeout with 504, and anything else "
            "with 500, and keeps serving afterwards."
        ),
        "quantifier": q(["inputs"], "all requests"),
        "why_tests_cant": "A request can carry any drawing and parameters.",
        "anchors": {
            "files": ["main.py"],
            "mechanism": [{"name": "exceptions to status codes", "where": "main.py: solver_api"}],
            "observe_at": ["main.py: solver_api"],
        },
    },
    {
        "id": "W01",
        "title": "The editor page sends what is drawn and shows every answer",
        "statement": (
            "The page sends the drawing and the chosen parameters of the selected type, steps through the answers returned without losing one, and the deployed (browser only) version "
            "gives the same answers as the server."
        ),
        "quantifier": q(["inputs", "schedules"], "all drawings, parameters and sequences of button presses"),
        "why_tests_cant": "There are no tests of the page.",
        "anchors": {
            "files": ["penpa-edit/app.js", "penpa-edit/clingo.web.js", "penpa-edit/prepare_deployment.js", "main_deploy.py"],
            "mechanism": [{"name": "page script", "where": "penpa-edit/app.js"}],
            "observe_at": ["penpa-edit/app.js"],
        },
    },
]

NA = [
    {
        "property": "A01",
        "reason": "The endpoint is one try statement over three exception classes inside an asynchronous web framework: its outcomes are finite and are reached by plain tests; there is no value for a solver to decide over.",
    },
    {
        "property": "W01",
        "reason": "Browser JavaScript working on the DOM and on a WebAssembly solver in a worker; no symbolic executor for it is installed, and main_deploy.py imports pyscript, which only exists in the browser.",
    },
]
