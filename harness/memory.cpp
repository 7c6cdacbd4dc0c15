/* C21: objects that stay alive through many rounds of the same valid use: the memory and files in use must stay bounded.
 * (What a whole case leaves behind is watched by --vrepeat in every harness.) */
#include "efx.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
using namespace efx;
namespace fs = std::filesystem;
namespace EM = EllipticForest::MPI;
static int RANK = 0, SIZE = 1;

static void rounds(Case &c, const std::string &what, std::function<void()> round, int n = 8) {
    std::vector<size_t> bytes(4 * n), files(4 * n);
    int k = 0;
    bool b = true, f = true;
    for (int more = 1; more; k++) {
        round();
        bytes[k] = vh::Main::bytesInUse();
        files[k] = vh::Main::filesOpen();
        if (k + 1 < n) continue;
        b = f = true;
        for (int i = k; i > 3; i--) { b = b && bytes[i] > bytes[i - 1]; f = f && files[i] > files[i - 1]; }
        int suspect = b || f;
        MPI_Allreduce(&suspect, &more, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        if (k + 1 == 4 * n) more = 0;
    }
    k--;
    c.check(!(b && k + 1 == 4 * n), "leak:memory-of-live-objects", [&] { return what + ": " + std::to_string((bytes[k] - bytes[3]) / (k - 3)) + " bytes in each of " + std::to_string(k) + " rounds"; });
    c.check(!(f && k + 1 == 4 * n), "leak:files-of-live-objects", [&] { return what + ": " + std::to_string(files[k] - files[3]) + " files in " + std::to_string(k) + " rounds"; });
    c.count("rounds watched", k + 1);
}
static void freeForest(p4est_t *&forest) {
    if (!forest) return;
    auto *conn = forest->connectivity;
    p4est_destroy(forest);
    p4est_connectivity_destroy(conn);
    forest = nullptr;
}
static void solving(Case &c) {
    Rng &r = c.rng;
    int maxl = r.integer(0, 2);
    Problem p = randomProblem(r, c.key, r.pick({3, 4}), r.integer(0, maxl), maxl, r.pick({POISSON, HELMHOLTZ, VARIABLE}), false);
    if (p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2) > 0) p.pde.lambda = constant(0);
    bool cache = p.coefs != VARIABLE && r.chance(0.4);
    options(cache, false);
    Setup s(p);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    Fn g = wave(r, 0, 1, p.size());
    int what = r.integer(0, 3), byPatch = r.integer(0, 1);
    c.key << what << byPatch << (cache ? " cache" : "");
    hps.setupStage();
    hps.buildStage();
    auto upwards = [&] {
        if (!byPatch) hps.upwardsStage([&](double x, double y) { return p.pde.f(x, y); });
        else hps.upwardsStage([&](FiniteVolumePatch &q) {
            auto &gr = q.grid();
            q.vectorF() = Vector<double>(gr.nx() * gr.ny());
            for (int i = 0; i < (int)gr.nx(); i++) for (int j = 0; j < (int)gr.ny(); j++) q.vectorF()[j + i * gr.ny()] = p.pde.f(gr(0, i), gr(1, j));
        });
    };
    auto solve = [&] {
        if (!byPatch) hps.solveStage([&](int, double x, double y, double *a, double *b) { *a = 1; *b = 0; return g(x, y); });
        else hps.solveStage([&](FiniteVolumePatch &q) { q.vectorG() = fromVec(sample(ref::Grid{p.box, (int)q.grid().nx(), (int)q.grid().ny()}, dirichlet(g)).r); });
    };
    rounds(c, "solver", [&] {
        if (what == 0) { hps.setupStage(); hps.buildStage(); upwards(); solve(); }
        else if (what == 1) { upwards(); solve(); }
        else { if (what == 3) hps.buildStage(); upwards(); for (int k = 0; k < 3; k++) solve(); }
    });
    // a new algorithm object on the same mesh each time, and traversals only
    rounds(c, "algorithms on one mesh", [&] { HPS again(MPI_COMM_WORLD, s.mesh, s.solver); again.buildStage(); });
    rounds(c, "traversals", [&] { for (int k = 0; k < 3; k++) s.mesh.quadtree.traversePreOrder([](Node<FiniteVolumePatch> *) { return 1; }); s.mesh.iteratePatches([](FiniteVolumePatch &) {}); s.mesh.quadtree.traversePostOrder([](Node<FiniteVolumePatch> *) { return 1; }); });
    options(false, false);
}
static void meshing(Case &c) {
    Rng &r = c.rng;
    int nx = r.integer(2, 5), maxl = r.integer(0, 3), minl = r.integer(0, maxl);
    FiniteVolumeGrid grid(MPI_COMM_WORLD, nx, 0., 1., nx, 0., 1.);
    FiniteVolumePatch root(MPI_COMM_WORLD, grid);
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    double rad = r.real(0.1, 0.6);
    bool remesh = r.chance(0.6), write = r.chance(0.7), named = r.chance(0.5);
    c.key << nx << " levels " << minl << "-" << maxl << (remesh ? " remesh" : "") << (write ? " write" : "") << vh::shortnum(rad);
    Mesh<FiniteVolumePatch> mesh;
    p4est_t *forest = nullptr;
    auto refine = [&] {
        p4est_t *old = forest;
        mesh.refineByFunction([=](double x, double y) { return std::hypot(x - .4, y - .6) < rad; }, 0, minl, maxl, root, factory);
        freeForest(old);
        forest = mesh.quadtree.p4est;
    };
    refine();
    std::string base = c.m.scratch + "/m" + std::to_string(c.index);
    Vector<double> mine;
    int n = 0;
    rounds(c, "mesh", [&] {
        if (remesh) refine();
        mesh.clearMeshFunctions();
        mesh.addMeshFunction([](double x, double y) { return x + y; }, "sum");
        size_t cells = 0;
        mesh.iterateCells([&](double, double) { cells++; });
        mine = Vector<double>(cells, 1.0);
        mine.name() = "mine";
        mesh.addMeshFunction(mine);
        if (write) mesh.toVTK(base, named ? (n++ % 3) : -1);
    });
    if (write && !remesh) rounds(c, "writing", [&] { mesh.toVTK(base); });
    mesh.quadtree = Quadtree<FiniteVolumePatch>{};
    freeForest(forest);
    MPI_Barrier(MPI_COMM_WORLD);
    if (RANK == 0)
        for (auto &e : fs::directory_iterator(c.m.scratch)) if (e.path().filename().string().rfind("m" + std::to_string(c.index), 0) == 0) fs::remove(e.path());
    MPI_Barrier(MPI_COMM_WORLD);
}
static void messages(Case &c) {
    Rng &r = c.rng;
    int n = r.pick({0, 1, 5, 300});
    c.key << n << " " << r.s % 100000;
    Vector<double> v(n, 1.0), w;
    Matrix<double> A(3, 4, 2.0), B;
    std::string text(n, 'x'), got;
    FiniteVolumeGrid grid(MPI_COMM_WORLD, 4, 0., 1., 5, 0., 1.);
    FiniteVolumePatch patch(MPI_COMM_WORLD, grid);
    patch.matrixT() = Matrix<double>(8, 8, 1.0);
    patch.vectorU() = v;
    rounds(c, "broadcasts", [&] {
        EM::broadcast(v, SIZE - 1, MPI_COMM_WORLD);
        EM::broadcast(A, 0, MPI_COMM_WORLD);
        EM::broadcast(text, 0, MPI_COMM_WORLD);
        EM::broadcast(patch, SIZE - 1, MPI_COMM_WORLD);
        EM::broadcast(grid, 0, MPI_COMM_WORLD);
    });
    if (SIZE > 1) rounds(c, "messages", [&] {
        EM::Status st;
        if (RANK == 0) { EM::send(v, 1, 3, MPI_COMM_WORLD); EM::send(A, 1, 4, MPI_COMM_WORLD); EM::send(text, 1, 5, MPI_COMM_WORLD); }
        if (RANK == 1) { EM::receive(w, 0, 3, MPI_COMM_WORLD, &st); EM::receive(B, 0, 4, MPI_COMM_WORLD, &st); EM::receive(got, 0, 5, MPI_COMM_WORLD, &st); }
    });
    rounds(c, "communicators", [&] {
        MPI_Comm sub = MPI_COMM_NULL;
        EM::communicatorSubsetRange(MPI_COMM_WORLD, 0, SIZE - 1, 7, &sub);
        if (sub != MPI_COMM_NULL) { EM::communicatorSetName(sub, "a name"); EM::communicatorGetName(sub); MPI_Comm_free(&sub); }
    });
}
static void algebra(Case &c) {
    Rng &r = c.rng;
    int n = r.integer(1, 30);
    c.key << n << " " << r.s % 100000;
    Matrix<double> A(n, n, 0.0), B(n, 2, 1.0), X;
    Vector<double> v(n, 1.0), x;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = r.real(-1, 1) + (i == j ? 3 * n : 0);
    Options o;
    DataCache<Matrix<double>> cache;
    rounds(c, "algebra", [&] {
        x = EllipticForest::solve(A, v);
        X = EllipticForest::solve(A, B);
        X = A * B;
        x = A * v;
        Matrix<double> t = A.T();
        A = t;
        v = v + x; v = v - x;
        try { A(n, n) = 1; } catch (const std::exception &) {}
        try { v[n] = 1; } catch (const std::exception &) {}
        o.setOption("name", std::string("a longer text than fits in place"));
        cache["key"] = A;
    });
}
static void distributed(Case &c) {
    Rng &r = c.rng;
    int n = r.integer(1, 40);
    c.key << n << " " << r.s % 100000;
    ParallelVector<double> v(MPI_COMM_WORLD, PETSC_DECIDE, n, VECSTANDARD), w(v);
    ParallelMatrix<double> A(MPI_COMM_WORLD, PETSC_DECIDE, PETSC_DECIDE, n, n, MATAIJ), B(A);
    rounds(c, "distributed", [&] {
        v.setValue(n / 2, 1.5, ADD_VALUES);
        v.beginAssembly();
        v.endAssembly();
        A.setValue(n / 2, n / 3, 1.0, ADD_VALUES);
        A.beginAssembly(MAT_FINAL_ASSEMBLY);
        A.endAssembly(MAT_FINAL_ASSEMBLY);
        ParallelVector<double> y(v), z(MPI_COMM_WORLD, PETSC_DECIDE, n, VECSTANDARD);
        w = z;
        w = v;
        B = ParallelMatrix<double>(A);
        ParallelMatrix<double> C(A);
    });
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK);
    MPI_Comm_size(MPI_COMM_WORLD, &SIZE);
    vh::Main m(argc, argv);
    m.mode("C21", "solving", 24, 200, solving);
    m.mode("C21", "meshing", 30, 300, meshing);
    m.mode("C21", "messages", 20, 100, messages);
    m.mode("C21", "algebra", 20, 100, algebra);
    m.mode("C21", "distributed", 20, 100, distributed);
    return m.run();
}
