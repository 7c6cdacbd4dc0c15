"""Which harness decides which property, and what its cases are."""
SKIP = ["--vskip=unequal,lifetime,app"]


def SWEEP(harness, share, **k):
    return dict({"harness": harness, "prop": "all", "share": share, "sweep": True, "args": SKIP + ["--vrepeat=8"]}, **k)


PROPS = {
    "C01": {
        "technique": "runtime monitoring: differential oracle (global banded solve) over random problems under ASan/UBSan",
        "jobs": [{"harness": "hps", "share": 2.5}],
        "rule": "A case is a random rectangle, cells per patch, uniform depth, constant or variable coefficients, load, "
                "Dirichlet data and patch solver; every cell is compared with one global banded solve. Non-trivial: "
                "more than one patch.",
    },
    "C02": {
        "technique": "runtime monitoring: exact-solution, residual and continuity monitors on recorded leaf data, ASan/UBSan",
        "jobs": [{"harness": "hps", "share": 2.5}],
        "rule": "A case is a random problem on a mesh refined by a random criterion. Non-trivial: leaves of at least "
                "two sizes.",
    },
    "C03": {
        "technique": "runtime monitoring: boundary-condition monitors and reference elimination on recorded data, ASan/UBSan",
        "jobs": [{"harness": "hps2", "share": 2.5}],
        "rule": "A case is a random problem and mesh with 1-3 solves under random Dirichlet/Neumann/Robin mixtures, also "
                "varying along a side. Distinct: by generated problem and conditions.",
        "assumptions": ["mixtures are dissipative (well posed): lambda <= 0 and a*b of outward sign"],
    },
    "C04": {
        "technique": "runtime monitoring: each step of a random solve history compared with a fresh solver; linearity monitor",
        "jobs": [{"harness": "hps2", "share": 2.5}],
        "rule": "A case is a random history of builds, upwards and solve stages on one solver (or four runs for linearity). "
                "Non-trivial: at least two solves in the history.",
    },
    "C05": {
        "technique": "runtime monitoring: differential runs with options on/off and switched mid-way, operators and solutions compared",
        "jobs": [{"harness": "hps2", "share": 2.5}],
        "rule": "A case is a random constant-coefficient problem run under every admissible option setting. Non-trivial: more than one leaf.",
    },
    "C07": {
        "technique": "runtime monitoring: every node's operator compared with a reference elimination and with the solver's own derivatives",
        "jobs": [{"harness": "hps2", "share": 2.5}],
        "rule": "A case is a random problem and mesh (all nodes checked) or a solver alone on a random rectangle.",
    },
    "C08": {
        "technique": "runtime monitoring: invariants of merged and split families over random synthetic child operators",
        "jobs": [{"harness": "hps2", "share": 2.5}],
        "rule": "A case is a family of four synthetic children (random maps, data, sizes), merged, perhaps merged again, and split.",
    },
    "C06": {
        "technique": "runtime monitoring: residual of every returned leaf solution under an independent discretisation, ASan/UBSan",
        "jobs": [{"harness": "patch", "share": 2.5}, {"harness": "patch", "prop": "C06x", "single": True}],
        "rule": "A case is a random rectangle, patch size, coefficients (both solvers), load and boundary data, solved by one leaf "
                "solve and one particular-data solve. Distinct: by generated problem.",
    },
    "C09": {
        "technique": "runtime monitoring: leaf set after refinement compared with a reference model of minimal 2:1 closure, 1-5 ranks, ASan/UBSan",
        "jobs": [{"harness": "mesh", "share": 5}] + [{"harness": "mesh", "np": n, "share": 1} for n in (2, 3, 5)],
        "rule": "A case is a random rectangle, criterion, level bounds and patch size, refined once or twice. Non-trivial: leaves of at least two sizes.",
    },
    "C10": {
        "technique": "runtime monitoring: online monitor of the callback sequence of every traversal against the tree's own nodes, 1-5 ranks, ASan/UBSan",
        "jobs": [{"harness": "mesh", "share": 6}] + [{"harness": "mesh", "np": n, "share": 1.5} for n in (2, 3, 5)],
        "rule": "A case is a random tree (one or two forests alive) and a random sequence of traversals with pruning callbacks that write data. "
                "Non-trivial: more than one leaf.",
    },
    "C11": {
        "technique": "runtime monitoring: geometric invariants of every node of random trees, before and after builds, 1-5 ranks, ASan/UBSan",
        "jobs": [{"harness": "mesh", "share": 6}] + [{"harness": "mesh", "np": n, "share": 1.5} for n in (2, 3, 5)],
        "rule": "A case is a random rectangle and tree, every node checked; or a built tree of patches. Non-trivial: more than one leaf.",
    },
    "C12": {
        "technique": "runtime monitoring: runs on 1-7 ranks with interposed random message delays compared with a reference elimination, ASan/UBSan, progress watchdog",
        "jobs": [{"harness": "par", "np": n, "share": s} for n, s in ((1, 1), (2, 1.5), (3, 1.5), (4, 1), (5, 1), (7, 0.7))],
        "rule": "A case is a random problem and mesh (sometimes fewer leaves than ranks) solved on all ranks of one run under random delays. "
                "Non-trivial: more than one leaf.",
    },
    "C13": {
        "technique": "runtime monitoring: payload equality, reference reductions and left-over message probes under random delays, 1-7 ranks, ASan/UBSan",
        "jobs": [{"harness": "par", "np": n, "share": 2} for n in (1, 2, 3, 4, 7)],
        "rule": "A case is a random sequence of messages of random types and sizes (from empty) on random communicators. Distinct: by generated sequence.",
    },
    "C14": {
        "technique": "runtime monitoring: every operation compared with its definition on std::vector under ASan/UBSan",
        "jobs": [{"harness": "linalg", "share": 25}],
        "rule": "A case is a random vector and a batch of operations on it (all operations visited in turn). Non-trivial: not empty.",
        "assumptions": ["finite values; index sets no longer than the vector"],
    },
    "C15": {
        "technique": "runtime monitoring: every operation compared with its definition on std::vector under ASan/UBSan",
        "jobs": [{"harness": "linalg", "share": 25}],
        "rule": "A case is a random matrix of random shape and a batch of operations, or a well-conditioned system with one or many right-hand sides.",
        "assumptions": ["matrices with at least one row and column"],
    },
    "C16": {
        "technique": "runtime monitoring: rejected-or-served oracle at and around the bounds, object compared before and after, ASan/UBSan/libstdc++ assertions",
        "jobs": [{"harness": "linalg", "share": 25}],
        "rule": "A case is a random object and a batch of invalid accesses (each must throw and change nothing) and valid ones at the bounds.",
    },
    "C17": {
        "technique": "runtime monitoring: transfer matrices and interpolants evaluated against exact linear data under ASan/UBSan",
        "jobs": [{"harness": "linalg", "share": 25}],
        "rule": "A case is a random size and data for the side transfers, or random increasing nodes, values and query points.",
    },
    "C18": {
        "technique": "runtime monitoring: option histories against a reference model of the documented typing rules, random and hostile text under ASan/UBSan",
        "jobs": [{"harness": "options", "share": 15}],
        "rule": "A case is a random history of settings by code, INI files and command lines read back after every step, or arbitrary bytes as a file or arguments. "
                "Distinct: by generated text.",
    },
    "C19": {
        "technique": "runtime monitoring: written files read back by an independent strict XML reader and compared with the mesh and fields, 1-3 ranks, ASan/UBSan",
        "jobs": [{"harness": "vtk", "share": 8}] + [{"harness": "vtk", "np": n, "share": 3} for n in (2, 3)],
        "rule": "A case is a random rectangle, mesh, set of fields and names, refined and written one or more times; or one of the writers alone under a random "
                "sequence of additions and writes. Non-trivial: a mesh of more than one leaf, or a random sequence.",
    },
    "C20": {
        "technique": "runtime monitoring: distributed objects read back on every rank against a serial model, random copy/assign/destroy histories, 1-5 ranks, ASan/UBSan",
        "jobs": [{"harness": "petsc", "np": n, "share": 15} for n in (1, 2, 3, 5)],
        "rule": "A case is a random distribution and history of writes, products, copies, assignments and destructions on one communicator. Distinct: by generated history.",
    },
    "C21": {
        "technique": "runtime monitoring: every harness's cases repeated under ASan/UBSan with heap and file accounting, filled fresh memory, valgrind memcheck, 1-5 ranks, progress watchdog",
        "jobs": [{"harness": "memory", "slices": 4}] + [{"harness": "memory", "np": n, "share": 0.6} for n in (2, 3)] +
                [SWEEP(h, s, slices=12) for h, s in (("hps", .12), ("hps2", .12), ("patch", .1))] +
                [SWEEP(h, s, slices=4) for h, s in (("linalg", .1), ("mesh", .15), ("petsc", 1), ("options", .3), ("vtk", .3), ("services", .1))] +
                [SWEEP(h, s, np=n) for n in (2, 3, 5) for h, s in (("par", .1), ("mesh", .05), ("petsc", .5), ("vtk", .2))] +
                [SWEEP(h, s, single=True, variant="plain", args=SKIP) for h, s in (("hps2", .04), ("linalg", .01), ("patch", .02), ("mesh", .02), ("options", .01), ("vtk", .02))] +
                [SWEEP(h, s, np=2, variant="plain", args=SKIP) for h, s in (("par", .05), ("mesh", .02), ("petsc", .05))],
        "rule": "A case is one of the cases of the other properties, run at least eight times over with the memory and files in use compared after each, or once under "
                "valgrind; or objects kept alive through at least eight rounds of the same use. Only memory, crash, progress and growth reports count here.",
        "assumptions": ["the user frees the forest a refinement made, as the library leaves it to the user"],
    },
    "C22": {
        "technique": "runtime monitoring: raced first uses under ThreadSanitizer and ASan/UBSan, timer readings bracketed by clock readings, caches and log against models",
        "jobs": [{"harness": "services", "variant": "tsan", "slices": 3}, {"harness": "services", "slices": 3},
                 {"harness": "services", "prop": "C22L", "slices": 4}] + [{"harness": "par", "np": n} for n in (1, 2, 5)],
        "rule": "A case is a random number of threads racing for a fresh singleton under random pauses; a random history of timer, cache or log operations; a random "
                "sequence of solver stages; or one life of the application object. Distinct: by generated history.",
    },
}
