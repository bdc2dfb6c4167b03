"""What is built and run for each property."""

GRID = [("grid0", "gridfuzz.cpp", ["-DGEOM=0"]), ("grid1", "gridfuzz.cpp", ["-DGEOM=1"]), ("grid2", "gridfuzz.cpp", ["-DGEOM=2"])]
CASE = "A case is a generated grid (length, periodicity, neighborhood, maximum refinement level, partitioning method, datatypes) and a " \
    "generated history of 6 to 31 operations executed by all processes; it is non-trivial if "


# memory errors and undefined behavior are also looked for by thorough runs, &v[0] of empty vectors is harmless
SANITIZE = ["-g1", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fsanitize=address,undefined", "-fno-sanitize=null", "-fno-sanitize-recover=undefined"]


def grid(rule, slots=None, quick=45, thorough=900, binaries=GRID):
    return {
        "binaries": binaries, "geom": True, "slots": slots or PARALLEL,
        "quick_s": quick, "thorough_s": thorough, "rule": CASE + rule + ".",
        "thorough_binaries": [("asan%d" % i, binaries[i][1], binaries[i][2] + SANITIZE) for i in (0, 1)],
        "thorough_slots": [[(2, "asan1"), (3, "asan0"), (1, "asan1")]],
    }


# (number of processes, binary) that each slot goes through
PARALLEL = [
    [(2, "grid1"), (2, "grid2"), (2, "grid0"), (4, "grid1")],
    [(3, "grid0"), (3, "grid1"), (3, "grid2")],
    [(1, "grid2"), (4, "grid1"), (2, "grid1"), (5, "grid0"), (7, "grid2")],
]


def mapping(rule, quick=15):
    return {
        "binaries": [("mapfuzz", "mapfuzz.cpp", []), ("mapasan", "mapfuzz.cpp", SANITIZE)], "mpi": False,
        "slots": [[(1, "mapfuzz")]] * 7 + [[(1, "mapasan")]], "slice": 600, "count": 10**9,
        "quick_s": quick, "thorough_s": 600, "rule": rule,
    }


PROPS = {
    "C01": mapping("A case is a generated grid length and maximum refinement level and 5 to 34 generated queries."),
    "C02": mapping("A case is a generated grid, topology and cartesian or no geometry and 5 to 34 generated queries."),
    "C03": mapping("A case is a generated grid, topology and stretched geometry and 5 to 34 generated queries."),
    "C04": grid("on more than one process the grid has cells of several refinement levels or cells were moved between processes"),
    "C05": grid("cells of at least three refinement levels exist simultaneously"),
    "C06": grid("on more than one process cells of several refinement levels exist when neighbors are compared"),
    "C07": grid("at least one cell was refined or unrefined"),
    "C08": grid("at least one cell's data was transferred to another process by an update"),
    "C09": grid("load balancing moved at least one cell to another process"),
    "C10": grid("load balancing moved at least one cell to another process"),
    "C11": grid("a file was saved and loaded on more than one process or with cells of several refinement levels"),
    "C12": grid("the process has both cells on and not on the process boundary"),
    "C13": grid("results were computed from neighbor data on more than one process"),
    "C14": grid("on more than one process or with cells of several refinement levels the grid was copied", binaries=[
        (n, f, flags + ["-DCOPIES"]) for n, f, flags in GRID]),
    "C17": grid("on more than one process the partitioner's view of at least one cell was compared"),
    "C18": grid("on more than one process cells of several refinement levels exist when queries are made"),
    "C19": grid("the grid was created and has several cells or processes"),
    "C20": grid("at least one cell was refined or its data was transferred to another process", binaries=[
        (n, f, flags + ["-DDCCRG_NO_LB"]) for n, f, flags in GRID]),
    "C21": grid("on more than one process cells of several refinement levels exist or data was transferred or moved", binaries=[
        (n, f, flags + ["-DDEBUG"]) for n, f, flags in GRID]),
    "C22": dict(grid("data was transferred, loaded, copied or moved between processes or cells were refined", binaries=[
        ("asan0", "gridfuzz.cpp", ["-DGEOM=0"] + SANITIZE), ("asan1", "gridfuzz.cpp", ["-DGEOM=1", "-DCOPIES"] + SANITIZE)],
        slots=[[(2, "asan1"), (3, "asan1")], [(3, "asan0"), (1, "asan1"), (2, "asan0")], [(4, "asan1"), (2, "asan1"), (1, "asan0")]], quick=60),
        thorough_binaries=[], thorough_slots=[], case_timeout=150),
    "C23": grid("messages were sent between processes by at least one operation"),
    "C24": dict(grid("at least one file operation was made to fail or a file was damaged before loading it", binaries=[
        (n, f, flags + ["-DFAULTS"]) for n, f, flags in GRID], slots=[
        [(1, "grid1"), (1, "grid2"), (1, "grid0")], [(1, "grid2"), (2, "grid0"), (1, "grid1")],
        [(2, "grid1"), (3, "grid2"), (4, "grid1")]])),
    "C15": {
        "binaries": [("helpers", "helpers.cpp", [])], "quick_s": 25, "thorough_s": 300, "count": 10**9,
        "slots": [[(2, "helpers"), (5, "helpers"), (6, "helpers")], [(3, "helpers"), (4, "helpers"), (1, "helpers")]],
        "rule": "A case is a generated communicator (all or a random part of processes in random order) and a generated sequence of calls "
                "by its processes; it is non-trivial if the communicator has more than one process.",
    },
    "C16": {
        "binaries": [("cell%d" % i, "cellfuzz.cpp", ["-O0", "-DPART=%d" % i] + (["-DUSE_COMPLEX"] if i == 5 else [])) for i in range(6)],
        "quick_s": 30, "thorough_s": 600, "slice": 5,
        "slots": [[(2, "cell%d" % i) for i in range(6)], [(3, "cell%d" % i) for i in (3, 4, 5, 0, 1, 2)], [(2, "cell2"), (1, "cell5"), (4, "cell4"), (1, "cell2")]],
        "rule": "A case is a generated grid of one of the supported kinds of cell data and a generated history of at most 12 operations; "
                "it is non-trivial if data was transferred between processes or loaded from a file.",
    },
}
