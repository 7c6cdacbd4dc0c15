"""Writes /verif/properties.jsonl (run after editing; the file itself is committed)."""
import json, pathlib
R = []
def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    R.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
HPS = "src/HPSAlgorithm.hpp"
FVS = "src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"
FVP = "src/Patches/FiniteVolume/FiniteVolumePatch.cpp"
FVG = "src/Patches/FiniteVolume/FiniteVolumeGrid.cpp"
NF = "src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp"
QT = "src/Quadtree.hpp"
NOHPS = ("The existing tests never build a mesh, a quadtree or a solver: they sample a few fixed vectors, matrices, "
         "grids and index sets, so nothing of this is reached.")
P("C01", "A uniform-mesh solve equals one global discretisation of the PDE",
  "On a uniformly refined mesh, the value produced in every cell equals, to rounding, the solution of the single "
  "cell-centred five-point discretisation of  alpha div(beta grad u) + lambda u = f  on the whole rectangle with the "
  "same coefficients, load and Dirichlet data. This holds for every rectangle, patch size, depth of refinement, both "
  "patch solvers (the constant-coefficient one included), and whether load and boundary data are given as functions of "
  "position or filled in patch by patch.",
  ["inputs", "configurations"], "all rectangles, patch sizes, uniform depths, coefficient functions, loads and boundary data",
  NOHPS, [HPS, FVS, FVP, FVG, NF, QT, "src/Mesh.hpp"],
  [("leaf operators, 4-to-1 merges up, 1-to-4 splits down", HPS), ("five-point and FISHPACK leaf solves", FVS)],
  [("u", "solution on a leaf's cells", FVP)], ["leaf solution vectors after the solve stage"])
P("C02", "Adaptive-mesh solutions are consistent, continuous and second order",
  "On any adaptively refined mesh, bilinear solutions are reproduced to rounding; every leaf's values satisfy the "
  "discretised PDE with the boundary data the leaf was given; two sibling leaves carry one common value and one common "
  "flux along the side they share. Halving the cell size of every patch on the same mesh shrinks the error on smooth "
  "solutions at second order.",
  ["inputs", "configurations"], "all meshes a refinement criterion can produce, coefficients, loads and boundary data",
  NOHPS, [HPS, FVS, FVP, "src/Patches/FiniteVolume/FiniteVolume.hpp", NF],
  [("coarsening of finer children before a merge, uncoarsening after a split", HPS), ("side restriction and prolongation", "src/Patches/FiniteVolume/FiniteVolume.hpp")],
  [("n_coarsens", "how often a patch's data were halved for its parent", FVP)], ["leaf solution and boundary vectors"])
P("C03", "Dirichlet, Neumann, Robin and mixed boundary conditions are honoured",
  "For a boundary condition  a u + b d = r  given point by point (d is the derivative along the axis crossing that side), "
  "the computed solution satisfies it at every boundary point of the domain, whatever mixture of a and b is used on "
  "the four sides. The boundary function is asked at exactly the root patch's boundary points, with each point's "
  "side and coordinates; two conditions that describe the same solution give the same answer.",
  ["inputs", "configurations"], "all mixtures of Dirichlet, Neumann and Robin data that leave the problem well posed",
  NOHPS, [HPS, FVS], [("root boundary system (A + B T) g = r - B h", HPS)],
  [("g, h, T of the root", "boundary values, particular derivatives, boundary-to-derivative map", FVP)],
  ["boundary function calls, root vectors, leaf solutions"])
P("C04", "Factor once, solve many: results do not depend on the solve history",
  "After one build, any sequence of upwards and solve stages with new loads and new boundary data (values or conditions) gives, at each "
  "step, the answer a freshly made solver gives for that step's data; repeating the build changes nothing. The answer is linear in "
  "load and boundary data together.",
  ["histories", "inputs"], "all sequences of builds, upwards stages and solve stages on one solver, uniform and adaptive meshes",
  NOHPS, [HPS, FVP], [("build stage keeps T and S; upwards recomputes h and w; solve recomputes g and u", HPS)],
  [("T, S, X, H, h, w, g, u, f", "per-patch operators and data that persist between stages", FVP)], ["leaf solutions after each step"])
P("C05", "The cached-operator and homogeneous-load options do not change answers",
  "Where their preconditions hold, the performance options are transparent: with constant coefficients, re-using "
  "operators across patches gives the same solution and operators as computing each patch's own, on uniform and adaptive meshes alike; "
  "with a zero load, declaring the load homogeneous gives the same solution as not declaring it.",
  ["configurations", "inputs", "histories"], "all settings of the two options, meshes and boundary data, in any order within one process",
  NOHPS, [HPS, FVS, "src/DataCache.hpp", "src/EllipticForestApp.cpp"],
  [("operator cache keyed by name", HPS), ("homogeneous-rhs shortcut", HPS)], (), ["leaf solutions and operators"])
P("C06", "Patch solvers solve their discretisation",
  "A leaf solve returns cell values whose five-point residual is zero to rounding for the given boundary data, load and "
  "coefficient functions, on any rectangle and patch size; the constant-coefficient solver returns the "
  "same values as the variable-coefficient one given the same constants. The homogeneous particular data it derives equals the boundary "
  "derivatives of the solution with zero boundary values.",
  ["inputs"], "all patch sizes, rectangles, coefficient functions, loads and boundary data",
  NOHPS, [FVS, FVG], [("matrix assembly with ghost reflection at the sides", FVS), ("marshalling to the FISHPACK routine", FVS)],
  (), ["solver's return values"])
P("C07", "The boundary-to-derivative map agrees with the solve it summarises",
  "For every patch, leaf or merged, multiplying its boundary-to-derivative map by boundary values and adding its "
  "particular data gives exactly the boundary derivatives of the solution with those boundary values and that load. Constant boundary "
  "data give zero derivatives when lambda is zero.",
  ["inputs", "configurations"], "all patches, coefficients, boundary data and loads",
  NOHPS, [FVS, HPS], [("column-by-column construction of T", FVS), ("merged T of the four children", HPS)],
  [("T, h", "map and particular data", FVP)], ["operators of leaves and merged nodes"])
P("C08", "Merging four patches and splitting back are exact inverse eliminations",
  "Merging four children eliminates exactly the unknowns on their shared sides: for any child maps, the parent's map and particular data, "
  "applied to any parent boundary values, give the child derivatives on the outer sides, and the split returns child boundary "
  "values that agree on shared sides and make the derivatives there equal. Outer boundary values of the children are the "
  "parent's, each in its place.",
  ["inputs"], "all child maps and particular data (symmetric or not), sizes, coarsening patterns of the children and parent data",
  NOHPS, [HPS], [("interface systems, index permutations and block assembly", HPS)],
  [("X, H, S, T, w, h", "interface solution operators and data", FVP)], ["patch operators before and after a merge; child boundary vectors after a split"])
P("C09", "Mesh refinement follows the criterion exactly and keeps 2:1 balance",
  "Refining a mesh by a criterion gives the smallest 2:1-balanced (faces and corners) quadtree containing the tree made by starting from the uniform minimum level "
  "and splitting, again and again, every quadrant below the maximum level where the criterion holds at one of its cell centres; the leaves tile "
  "the domain exactly and no leaf leaves the level bounds. On several ranks the leaf counts of any two ranks differ by at most one. Each leaf's patch has the requested cell counts and the rectangle of its quadrant.",
  ["inputs", "configurations"], "all criteria, level bounds, rectangles, patch sizes",
  NOHPS, ["src/Mesh.hpp", QT, NF, FVG], [("level-by-level refinement, balance, partition", "src/Mesh.hpp")],
  (), ["leaf set and patch grids"])
P("C10", "Quadtree traversals visit every node once, in order, with consistent data",
  "Pre-order, post-order, merge and split traversals visit exactly the nodes of the tree (merges and splits exactly the families), each once; a "
  "parent is visited before its children going down and after them going up, siblings in order, and pruning a node going down skips exactly its subtree. Callbacks get the node or the "
  "parent with its four children in lower-left, lower-right, upper-left, upper-right order, and what one callback writes the later ones see.",
  ["inputs", "histories"], "all trees, sequences of traversals in any order and callback behaviours",
  NOHPS, [QT, "src/QuadNode.hpp"], [("recursive search over the forest with pre/post callbacks", QT)],
  [("node map", "path to node", QT)], ["callback sequence"])
P("C11", "Node paths, levels, leaf flags and rectangles agree with each other",
  "Every node's path spells its position: its length gives the level, its digits the child taken at each level, and the patch "
  "rectangle and cell spacing are those obtained by halving the root rectangle along the path, children tiling their parent. A parent patch formed by merging four children covers the union of their rectangles "
  "with twice the cell counts of the coarsest child; every other patch has the root patch's counts.",
  ["inputs", "configurations"], "all trees and rectangles, grids and points inside them",
  "The tests check one fixed grid's spacing and points; no node or patch is ever created by them.",
  [QT, NF, FVG, "src/QuadNode.hpp"], [("path and patch construction from quadrant coordinates", QT)],
  (), ["nodes, grids"])
P("C12", "Results do not depend on the number of MPI ranks",
  "For any number of ranks, the mesh has the same leaves, each leaf is owned by exactly one rank, every stage completes on every rank, and the solution on each leaf "
  "equals the one-rank solution to rounding. Data held by several ranks (ancestors shared between ranks) are the same on all of them.",
  ["configurations", "schedules", "inputs"], "all rank counts, partitions, meshes, message timings and problems",
  "Tests run on one rank, or exchange fixed-size values between two; no mesh or solve is run in parallel.",
  [QT, HPS, "src/Mesh.hpp", "src/MPI.hpp", "src/MPI.cpp", FVP], [("per-family communicators and owner broadcasts", QT), ("patch serialisation", FVP)],
  [("pfirst, plast", "ranks sharing a node", "src/QuadNode.hpp")], ["leaf solutions gathered over ranks"])
P("C13", "Message-passing wrappers deliver every value unchanged to the right ranks",
  "Sending, receiving, broadcasting, gathering and reducing through the wrappers delivers exactly the data the MPI operation promises, for scalars, "
  "strings, numeric vectors and matrices, nodes, and (broadcast only) grids and patches, including empty ones, from any root and on any communicator of any size. Receivers need not know "
  "lengths beforehand and values already held by a receiver do not leak into the result.",
  ["inputs", "configurations", "schedules"], "all payload types, sizes from zero up, roots, communicators",
  "Tests send a few fixed payloads between at most a handful of ranks, never empty or of differing size.",
  ["src/MPI.hpp", "src/MPI.cpp", "src/Vector.hpp", "src/Matrix.hpp", FVG, FVP, "src/QuadNode.hpp"],
  [("type traits and per-type overloads", "src/MPI.hpp")], (), ["received objects"])
P("C14", "Vector operations compute what linear algebra says",
  "Element access, ranges, sub-vectors by index set, segment writes, append, concatenation, permutation by block indices, sums, differences, scaling, dot products, norms, "
  "minima and maxima agree with their mathematical definitions for all sizes and finite values, and operations that return a new vector leave their operands unchanged.",
  ["inputs"], "all sizes, values, index sets and ranges", "Tests use one or two fixed short vectors per operation.",
  ["src/Vector.hpp"], [("Vector template", "src/Vector.hpp")], (), ["return values and operands"])
P("C15", "Matrix operations and solves compute what linear algebra says",
  "Row, column, block, range and index-set access and assignment, block diagonal and identity construction, transposition, sums, "
  "differences, scaling, matrix-vector and matrix-matrix products and linear solves (one or many right-hand sides) agree with "
  "their mathematical definitions for all non-empty shapes, square or not, and leave their operands unchanged unless they are assignments.",
  ["inputs"], "all shapes, values, index sets, well-conditioned systems", "Tests use fixed small matrices, nearly all square.",
  ["src/Matrix.hpp"], [("Matrix template over BLAS/LAPACK", "src/Matrix.hpp")], (), ["return values and operands"])
P("C16", "Invalid accesses and mismatched sizes are rejected, valid ones never",
  "Reading or writing a vector or matrix outside its bounds, combining operands whose sizes do not fit, malformed ranges and solving singular systems raise an exception "
  "and leave the object as it was; every access inside the bounds succeeds. No out-of-bounds memory is touched either way.",
  ["inputs"], "all sizes and indices around and beyond the bounds", "Tests try no invalid access at all, or one far outside.",
  ["src/Vector.hpp", "src/Matrix.hpp"], [("range checks in accessors and operators", "src/Matrix.hpp")], (), ["exceptions raised, objects afterwards, sanitizer"])
P("C17", "Grid transfers and interpolation are exact on the data they promise",
  "Restricting side data averages pairs of fine cells, prolonging reproduces linear side data exactly, and restriction after prolongation keeps linear data. The piecewise "
  "linear interpolant reproduces its nodes, and linear data everywhere, on any increasing nodes, and lies on the segment between the two neighbouring nodes in between.",
  ["inputs"], "all sizes, nodes, values and query points", "Tests interpolate one or two functions on one fixed grid.",
  ["src/Patches/FiniteVolume/FiniteVolume.hpp", "src/SpecialMatrices.hpp", "src/Interpolation.hpp"], [("interpolation matrices", "src/SpecialMatrices.hpp")], (), ["matrices and interpolated values"])
P("C18", "Options reach the program with the type and value the user wrote",
  "Options given by code, by an INI file or on the command line are reported back with the value written: booleans, integers and real numbers of either sign and any notation "
  "as such, anything else as the same text, an option without a value as empty text; later settings replace earlier ones, whichever way they were made; blank lines, lines starting with a semicolon "
  "and sections are understood, and no text crashes the parser.",
  ["inputs", "histories"], "all option names and values, INI files and argument lists", "No test reads an INI file or a command line.",
  ["src/Options.cpp", "src/InputParser.cpp", "src/EllipticForestApp.cpp"], [("value classification", "src/Options.cpp")], (), ["option values after parsing"])
P("C19", "VTK output describes the mesh and its fields faithfully",
  "The files written for a mesh are well-formed, every piece named by the index exists and holds that rank's leaves, and points, cells, offsets and types describe exactly the mesh's cells; "
  "each attached field's numbers are the function or leaf data at those cells to the printed precision. Writing again, "
  "to the same or another name or after refining again, gives the same faithful description.",
  ["inputs", "histories", "configurations"], "all meshes, fields, file names, rank counts and repeated writes", "Tests write one small file and read nothing back.",
  ["src/VTK.hpp", "src/VTK.cpp", "src/XMLTree.cpp", "src/Mesh.hpp"], [("XML nodes, unstructured grid writer", "src/VTK.cpp")], (), ["parsed output files"])
P("C20", "Distributed vectors and matrices behave like their serial counterparts",
  "Distributed vectors and matrices hold what was written to them: values set one by one, in blocks or from a serial object, inserted or added, on any "
  "communicator and number of ranks, are read back unchanged by the owner of the row; global and local sizes, types, products, identities and sub-matrices by index sets are those of the "
  "serial counterpart. Copies refer to the same distributed object and stay valid whatever is destroyed or assigned first; it is freed exactly once.",
  ["inputs", "configurations", "histories"], "all sizes, row distributions, rank counts and values", "Tests check a couple of fixed operations at one size.",
  ["src/Vector.hpp", "src/Matrix.hpp"], [("wrappers over PETSc", "src/Vector.hpp")], (), ["values read back on every rank"])
P("C21", "No valid use touches invalid memory or has undefined behaviour",
  "Whatever valid meshes, problems, option settings, files, messages and rank counts the library is used with, it performs no out-of-bounds, freed or "
  "uninitialised access, no undefined arithmetic or conversion, no invalid container use, and does not crash or hang. Solving, "
  "writing output and refining again repeatedly keeps memory bounded.",
  ["inputs", "histories", "configurations", "schedules"], "all valid uses of the library, on one or several ranks",
  "Tests run uninstrumented on a few inputs; an access past a buffer passes silently.",
  ["src"], [("manual index arithmetic, raw buffers for LAPACK, PETSc, MPI and p4est callbacks", "src")], (), ["sanitizer reports and process endings"])
P("C22", "Process-wide services are single, thread-safe where promised, and accurate",
  "A singleton is constructed exactly once however many threads ask first, and nobody sees it half made; the application object is the one made in main as long as that lives, and "
  "a destroyed one is never handed out. A timer's reading is the sum of its intervals from a start to the next stop since it was added or restarted, never negative and never counting stopped time; a stage's timer reads that "
  "stage's last run. A named cache returns for each name exactly the object last stored under it. Each logged message comes out whole, once, formatted and marked with its rank, head-only messages on the head rank alone.",
  ["schedules", "histories", "inputs"], "all interleavings of first use from several threads; all sequences of timer and cache operations",
  "Tests use one thread and one start/stop pair.",
  ["src/GenericSingleton.hpp", "src/EllipticForestApp.hpp", "src/EllipticForestApp.cpp", "src/Timer.hpp", "src/DataCache.hpp", "src/Logger.hpp", "src/Logger.cpp"],
  [("static instances", "src/GenericSingleton.hpp"), ("timer", "src/Timer.hpp"), ("cache", "src/DataCache.hpp")], (), ["instance addresses, timer readings, cache contents"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(r) + "\n" for r in R))
