/* Shared by the harnesses that drive /repo's solver: random problems, meshes, and how to run them. */
#ifndef EFX_HPP
#define EFX_HPP
#include <EllipticForest.hpp>
#include <HPSAlgorithm.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <Patches/FiniteVolume/FiniteVolumeNodeFactory.hpp>
#include <Patches/FiniteVolume/FiniteVolumePatch.hpp>
#include <Patches/FiniteVolume/FiniteVolumeGrid.hpp>
#include <Patches/FiniteVolume/FiniteVolumeSolver.hpp>
#include "vh.hpp"
#include "ref.hpp"

extern "C" int vt_hstcrt_calls;

namespace efx {
using namespace EllipticForest;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
using ref::Box;
using ref::Fn;
using ref::DVec;
using vh::Case;
using vh::Rng;

inline DVec toVec(const Vector<double> &v) { return v.data(); }
inline Vector<double> fromVec(const DVec &v) { return Vector<double>(std::vector<double>(v)); }

// A smooth random function  c0 + sum of two waves, |wave part| <= amp
struct Wave {
    double c0, a1, a2, kx1, ky1, p1, kx2, ky2, p2;
    double operator()(double x, double y) const {
        return c0 + a1 * std::sin(kx1 * x + ky1 * y + p1) + a2 * std::cos(kx2 * x - ky2 * y + p2);
    }
};
inline Wave wave(Rng &r, double c0, double amp, double len) {
    Wave w;
    w.c0 = c0;
    w.a1 = amp * r.real(0.2, 0.6);
    w.a2 = amp * r.real(0.05, 0.4);
    w.kx1 = r.real(-4, 4) / len; w.ky1 = r.real(-4, 4) / len; w.p1 = r.real(0, 6);
    w.kx2 = r.real(-6, 6) / len; w.ky2 = r.real(-6, 6) / len; w.p2 = r.real(0, 6);
    return w;
}

// 1 in the open rectangle (shrunk by a millionth), -1 elsewhere
inline double inside(const Box &q, double x, double y) {
    double ex = 1e-6 * (q.x1 - q.x0), ey = 1e-6 * (q.y1 - q.y0);
    return x > q.x0 + ex && x < q.x1 - ex && y > q.y0 + ey && y < q.y1 - ey ? 1.0 : -1.0;
}
enum Coefs { POISSON, HELMHOLTZ, VARIABLE };
struct Problem {
    Box box;
    int nx, minl, maxl;
    bool fishpack = false;
    Coefs coefs;
    ref::Pde pde;
    Fn g;                    // boundary values
    Fn crit;                 // refine where crit(x,y) > thr
    double thr = 0;
    double mag = 1;          // magnitude of load and boundary data (the equations are linear: nothing else changes)
    double size() const { return std::max(box.x1 - box.x0, box.y1 - box.y0); }
};
inline Box randomBox(Rng &r) {
    double s = r.pick({0.3, 1.0, 1.0, 1.0, 2.0, 20.0, 1e-3, 500.0});
    double aspect = r.pick({1.0, 1.0, 1.0, 0.6, 0.6, 1.7, 1.7, r.pick({0.12, 8.0})}), far = r.chance(0.06) ? 100 : 1;
    double x0 = r.pick({0.0, -1.0, r.real(-3, 3)}) * s * far, y0 = r.pick({0.0, -1.0, r.real(-3, 3)}) * s * far;
    return {x0, x0 + s, y0, y0 + s * aspect};
}
inline Fn constant(double v) { return [v](double, double) { return v; }; }
inline Fn times(double m, Fn f) { return [=](double x, double y) { return m * f(x, y); }; }
// (jumps lie a millionth beside the lines cells lie on, so that rounding cannot move a point across)
// Data of many shapes: smooth, exactly zero on some patches, constant, one spike, jumping, zero everywhere
inline Fn field(Rng &r, std::ostringstream &key, const Box &b, double c0, double amp) {
    double w = b.x1 - b.x0, h = b.y1 - b.y0, L = std::max(w, h);
    Wave base = wave(r, c0, amp, L);
    int kind = r.integer(0, 9), dir = r.integer(0, 3);
    double at = r.pick({0.25, 0.5, 0.5, 0.75}) + 1e-6, cx = b.x0 + w * r.real(0, 1), cy = b.y0 + h * r.real(0, 1), rad = L * r.real(0.02, 0.3);
    double a1 = r.real(-1, 1) * amp, a2 = r.real(-1, 1) * amp;
    if (kind < 5) return base;
    key << " data=" << kind;
    if (kind == 5 || kind == 6) return [=](double x, double y) { // zero beyond a line along the patches' sides
        double t = (dir < 2 ? (x - b.x0) / w : (y - b.y0) / h);
        return (dir % 2 ? t > at : t < at) ? 0.0 : base(x, y);
    };
    if (kind == 7) return constant(a1);
    if (kind == 8) return [=](double x, double y) { return std::hypot(x - cx, y - cy) < rad ? base(x, y) : 0.0; };
    return [=](double x, double y) { return (int)std::floor(4 * (x - b.x0) / w + 1e-6) + (int)std::floor(4 * (y - b.y0) / h + 1e-6) & 1 ? a1 : a2; };
}
inline const char *coefName(Coefs c) { return c == POISSON ? "poisson" : c == HELMHOLTZ ? "helmholtz" : "variable"; }

inline Problem randomProblem(Rng &r, std::ostringstream &key, int nx, int minl, int maxl, Coefs coefs, bool fishpack) {
    Problem p;
    p.box = randomBox(r);
    p.nx = nx; p.minl = minl; p.maxl = maxl; p.coefs = coefs; p.fishpack = fishpack;
    double L = p.size(), minL = std::min(p.box.x1 - p.box.x0, p.box.y1 - p.box.y0);
    double lam = 0;
    // lambda below the first Dirichlet eigenvalue (about 19.7/L^2): every subdomain problem is well posed
    if (coefs != POISSON) lam = r.chance(0.7) ? -r.real(0.1, 40) / (minL * minL) : r.real(0.1, 3) / (L * L);
    if (coefs == VARIABLE) {
        p.pde.alpha = wave(r, r.pick({1.0, 2.0, 0.5}), 0.3, L);
        p.pde.beta = wave(r, r.pick({1.0, 3.0}), 0.7, L);
        double l0 = std::min(lam, 0.0);
        Wave lw = wave(r, l0 - 1 / (L * L), 0.9 / (L * L), L);
        p.pde.lambda = lw;
        int shape = r.integer(0, 9);
        Box b = p.box;
        if (shape >= 6) key << "coefs=" << shape << " ";
        if (shape == 6) { // lambda vanishes at one point: the origin, a corner or the middle
            double px = r.pick({0.0, b.x0, b.x1, (b.x0 + b.x1) / 2}), py = r.pick({0.0, b.y0, b.y1, (b.y0 + b.y1) / 2}), q = 10 / (minL * minL);
            p.pde.lambda = [=](double x, double y) { double t = std::hypot(x - px, y - py) / L; return -q * t * t / (1 + t * t); };
        } else if (shape == 7) { // lambda vanishes on one half
            double mid = (b.x0 + b.x1) / 2 + 1e-6 * (b.x1 - b.x0);
            p.pde.lambda = [=](double x, double y) { return x < mid ? 0.0 : std::min(0.0, (double)lw(x, y)); };
        } else if (shape == 8) { // coefficients that jump, with none of the third kind
            Fn b0 = p.pde.beta, a0 = p.pde.alpha;
            double my = b.y0 + 0.300001 * (b.y1 - b.y0), jump = r.pick({10.0, 0.05}), ajump = r.pick({1.0, 3.0});
            p.pde.beta = [=](double x, double y) { return y < my ? b0(x, y) : jump * b0(x, y); };
            p.pde.alpha = [=](double x, double y) { return y < my ? a0(x, y) : ajump * a0(x, y); };
            p.pde.lambda = constant(0);
        } else if (shape == 9) { // the same equation with every sign turned
            Fn a0 = p.pde.alpha, l0 = p.pde.lambda;
            p.pde.alpha = times(-1, a0);
            if (lam <= 0) p.pde.lambda = times(-1, l0); else p.pde.lambda = constant(0);
        }
    } else {
        p.pde.alpha = constant(1);
        p.pde.beta = constant(1);
        p.pde.lambda = constant(coefs == POISSON ? 0 : lam);
    }
    p.mag = r.pick({1.0, 1.0, 1.0, 1.0, 1e-13, 1e8});
    if (p.mag != 1) key << "mag=" << p.mag << " ";
    p.pde.f = times(p.mag, field(r, key, p.box, r.real(-2, 2), r.pick({1.0, 10.0})));
    p.g = times(p.mag, field(r, key, p.box, r.real(-1, 1), r.pick({1.0, 5.0})));
    // refinement criterion: a disc, a ring, a stripe, a corner, or a wave
    double cx = r.real(p.box.x0, p.box.x1), cy = r.real(p.box.y0, p.box.y1), rad = r.real(0.1, 0.4) * L;
    int kind = r.integer(0, 5);
    double wx = p.box.x1 - p.box.x0, wy = p.box.y1 - p.box.y0;
    Wave cw = wave(r, 0, 1.5, L / 2);
    if (kind == 0) p.crit = [=](double x, double y) { return rad - std::hypot(x - cx, y - cy); };
    else if (kind == 1) p.crit = [=](double x, double y) { return 0.08 * L - std::fabs(rad - std::hypot(x - cx, y - cy)); };
    else if (kind == 2) { double t = r.real(0, 3.1); p.crit = [=](double x, double y) { return 0.05 * L - std::fabs((x - cx) * std::cos(t) + (y - cy) * std::sin(t)); }; }
    else if (kind == 3) { int c = r.integer(0, 3); Box b = p.box; p.crit = [=](double x, double y) { return 0.11 * L - std::max(c % 2 ? b.x1 - x : x - b.x0, c / 2 ? b.y1 - y : y - b.y0); }; }
    else if (kind == 5) { // one whole quadrant
        Box q = p.box.child(r.integer(0, 3));
        if (r.chance(0.4)) q = q.child(r.integer(0, 3));
        p.crit = [=](double x, double y) { return inside(q, x, y); };
    } else p.crit = cw;
    p.thr = kind == 4 ? r.real(0.2, 0.7) : 0.0;
    key << coefName(coefs) << (fishpack ? " fishpack" : " fivepoint") << " nx=" << nx << " levels=[" << minl << "," << maxl
        << "] box=[" << vh::shortnum(p.box.x0) << "," << vh::shortnum(p.box.x1) << "]x[" << vh::shortnum(p.box.y0) << ","
        << vh::shortnum(p.box.y1) << "] lambda(mid)=" << vh::shortnum(p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2))
        << " crit=" << kind << " cx=" << vh::shortnum(cx) << " cy=" << vh::shortnum(cy) << " rad=" << vh::shortnum(rad) << "; ";
    return p;
}

// One child of the root at level 5 throughout, its siblings graded: merged children three halvings apart
inline void steep(Problem &p, Rng &r, std::ostringstream &key) {
    int k = r.integer(0, 3);
    Box q = p.box.child(k);
    p.minl = r.integer(0, 1); p.maxl = 5; p.nx = r.pick({3, 4});
    p.crit = [=](double x, double y) { return inside(q, x, y); };
    p.thr = 0;
    key << " steep at " << k << " nx=" << p.nx << "; ";
}

// A chain of ever smaller quadrants into one corner: very deep, with few leaves
inline void chain(Problem &p, Rng &r, std::ostringstream &key, int depth, int ny = 0) {
    int k = r.integer(0, 3);
    Box b = p.box;
    if (!ny) ny = p.nx;
    p.minl = 0; p.maxl = depth;
    double w = (b.x1 - b.x0) / (2 * p.nx), h = (b.y1 - b.y0) / (2 * ny);
    // holds at the points nearest the corner of the corner's quadrants only, so every one of these is split
    p.crit = [=](double x, double y) {
        double u = (k % 2 ? b.x1 - x : x - b.x0) / w, v = (k / 2 ? b.y1 - y : y - b.y0) / h;
        if (u <= 0 || v <= 0) return -1.0;
        double l = std::log2(u), n = std::round(l);
        return std::fabs(l - n) < 1e-3 && n <= 0 && std::fabs(v / u - 1) < 1e-3 ? 1.0 : -1.0;
    };
    p.thr = 0;
    key << " chain to " << depth << " at " << k << "; ";
}

// Does the criterion hold at any of the nx x nx cell centres of a quadrant?
inline std::function<bool(const Box &)> wants(const Problem &p) {
    return [&p](const Box &b) {
        ref::Grid g{b, p.nx, p.nx};
        for (int i = 0; i < p.nx; i++) for (int j = 0; j < p.nx; j++) if (p.crit(g.x(i), g.y(j)) > p.thr) return true;
        return false;
    };
}

struct Setup { // one mesh with its solver; everything /repo keeps references to stays alive here
    Problem p;
    FiniteVolumeGrid grid;
    FiniteVolumePatch root;
    std::vector<std::unique_ptr<FiniteVolumePatch>> roots;
    FiniteVolumeNodeFactory factory;
    Mesh<FiniteVolumePatch> mesh;
    FiniteVolumeSolver solver;
    long criterionCalls = 0;
    explicit Setup(const Problem &pr)
        : p(pr), grid(MPI_COMM_WORLD, p.nx, p.box.x0, p.box.x1, p.nx, p.box.y0, p.box.y1), root(MPI_COMM_WORLD, grid),
          factory(MPI_COMM_WORLD), mesh{} {
        mesh.refineByFunction([this](double x, double y) { criterionCalls++; return p.crit(x, y) > p.thr; }, p.thr,
                              p.minl, p.maxl, root, factory);
        solver.solver_type = p.fishpack ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
        solver.alpha_function = p.pde.alpha;
        solver.beta_function = p.pde.beta;
        solver.lambda_function = p.pde.lambda;
    }
    static void release(p4est_t *f) {
        if (!f) return;
        auto *conn = f->connectivity;
        p4est_destroy(f);
        p4est_connectivity_destroy(conn);
    }
    ~Setup() { release(mesh.quadtree.p4est); }
    void remesh(const Problem &pr) { // the same objects, another mesh
        p4est_t *old = mesh.quadtree.p4est;
        p = pr;
        grid = FiniteVolumeGrid(MPI_COMM_WORLD, p.nx, p.box.x0, p.box.x1, p.nx, p.box.y0, p.box.y1);
        auto other = std::make_unique<FiniteVolumePatch>(MPI_COMM_WORLD, grid);
        mesh.refineByFunction([this](double x, double y) { criterionCalls++; return p.crit(x, y) > p.thr; }, p.thr,
                              p.minl, p.maxl, *other, factory);
        roots.push_back(std::move(other));
        release(old);
    }
    std::map<std::string, FiniteVolumePatch *> localLeaves() {
        std::map<std::string, FiniteVolumePatch *> m;
        mesh.quadtree.traversePreOrder([&](Node<FiniteVolumePatch> *n) {
            if (n->leaf) m[n->path] = &n->data;
            return 1;
        });
        return m;
    }
};
inline void options(bool cache, bool homogeneous) {
    auto &app = EllipticForestApp::getInstance();
    app.options.setOption("cache-operators", cache);
    app.options.setOption("homogeneous-rhs", homogeneous);
}
using Bc = std::function<double(int, double, double, double *, double *)>;
inline Bc dirichlet(Fn g) {
    return [g](int, double x, double y, double *a, double *b) { *a = 1; *b = 0; return g(x, y); };
}
inline std::map<std::string, DVec> solution(Setup &s) {
    std::map<std::string, DVec> m;
    for (auto &[path, patch] : s.localLeaves()) m[path] = toVec(patch->vectorU());
    return m;
}
inline void runAll(Setup &s, HPS &hps, const Fn &f, const Bc &bc) {
    hps.upwardsStage([&](double x, double y) { return f(x, y); });
    hps.solveStage([&](int side, double x, double y, double *a, double *b) { return bc(side, x, y, a, b); });
}
inline double maxAbs(const std::map<std::string, DVec> &m) {
    double v = 0;
    for (auto &[k, x] : m) v = std::max(v, ref::maxAbs(x));
    return v;
}
// Each rank's text, on every rank
inline std::vector<std::string> gatherTexts(const std::string &mine, MPI_Comm comm = MPI_COMM_WORLD) {
    int n = (int)mine.size(), size;
    MPI_Comm_size(comm, &size);
    std::vector<int> len(size), off(size);
    MPI_Allgather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, comm);
    int total = 0;
    for (int i = 0; i < size; i++) { off[i] = total; total += len[i]; }
    std::string all(total + 1, ' ');
    MPI_Allgatherv(mine.data(), n, MPI_CHAR, all.data(), len.data(), off.data(), MPI_CHAR, comm);
    std::vector<std::string> out;
    for (int i = 0; i < size; i++) out.push_back(all.substr(off[i], len[i]));
    return out;
}
inline std::vector<std::string> words(const std::string &text) {
    std::vector<std::string> out;
    std::istringstream in(text);
    for (std::string p; in >> p;) out.push_back(p);
    return out;
}
// Every leaf of the whole forest, from all ranks
inline std::set<std::string> gatherLeaves(Setup &s) {
    std::string mine;
    for (auto &[p, l] : s.localLeaves()) mine += p + " ";
    std::set<std::string> out;
    for (auto &t : gatherTexts(mine)) for (auto &w : words(t)) out.insert(w);
    return out;
}
// Ends the case on every rank when a monitor fired on any (a case must not end on one rank only)
inline void stopTogether(Case &c) {
    int bad = c.violations, any = 0;
    MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (any) throw vh::Stop();
}
// Boundary data of a boundary function sampled at the given grid (WESN)
struct BcData { DVec a, b, r; };
inline BcData sample(const ref::Grid &g, const Bc &bc) {
    BcData d;
    for (int side = 0; side < 4; side++) {
        int n = side < 2 ? g.ny : g.nx;
        for (int i = 0; i < n; i++) {
            double x = side == 0 ? g.b.x0 : side == 1 ? g.b.x1 : g.x(i), y = side == 2 ? g.b.y0 : side == 3 ? g.b.y1 : g.y(i);
            double a = 0, b = 0;
            d.r.push_back(bc(side, x, y, &a, &b));
            d.a.push_back(a);
            d.b.push_back(b);
        }
    }
    return d;
}

inline bool adaptiveMesh(const std::set<std::string> &leaves) {
    size_t a = 99, b = 0;
    for (auto &p : leaves) { a = std::min(a, p.size()); b = std::max(b, p.size()); }
    return a != b;
}
inline ref::Dense toDense(Matrix<double> &M) {
    ref::Dense D((int)M.nRows(), (int)M.nCols());
    for (int i = 0; i < D.r; i++) for (int j = 0; j < D.c; j++) D(i, j) = M(i, j);
    return D;
}
// A random dissipative mixture of conditions; `u`,`d` give the values the conditions are made from
inline Bc mixedBc(Rng &r, std::ostringstream &key, double L, Fn value, bool allDirichletAllowed) {
    int kind[4];
    double a0[4], b0[4];
    bool anchored = false;
    key << " bc=";
    for (int s = 0; s < 4; s++) {
        kind[s] = r.integer(allDirichletAllowed ? 0 : 1, 4); // 0,1 Dirichlet 2 Neumann 3 Robin 4 varying along the side
        if (kind[s] == 0) kind[s] = 1;
        a0[s] = r.real(0.3, 3);
        b0[s] = r.real(0.3, 3);
        if (r.chance(0.2)) { a0[s] = -a0[s]; b0[s] = -b0[s]; }
        if (kind[s] != 2) anchored = true;
    }
    if (!anchored) kind[r.integer(0, 3)] = 3;
    for (int s = 0; s < 4; s++) key << "-DNRV"[kind[s]] << vh::shortnum(a0[s]) << "/" << vh::shortnum(b0[s]) << " ";
    std::vector<int> k(kind, kind + 4);
    std::vector<double> A(a0, a0 + 4), B(b0, b0 + 4);
    return [=](int s, double x, double y, double *a, double *b) {
        double out = s % 2 ? 1 : -1; // outward direction along the axis
        double t = std::sin(7 * (x + y) / L);
        switch (k[s]) {
        case 1: *a = A[s]; *b = 0; break;
        case 2: *a = 0; *b = out * B[s] * L; break;
        case 3: *a = A[s]; *b = (A[s] > 0 ? 1 : -1) * std::fabs(B[s]) * out * L; break;
        default: // Dirichlet, Neumann and Robin points along one side
            if (t > 0.5) { *a = A[s]; *b = 0; }
            else if (t < -0.6) { *a = 0; *b = out * B[s] * L; }
            else { *a = std::fabs(A[s]); *b = out * std::fabs(B[s]) * (1 + t) * L; }
        }
        return value(x, y);
    };
}

struct Session { // MPI + PETSc + the app singleton, once per process
    std::unique_ptr<EllipticForestApp> app;
    Options initial; // as the application object sets them up
    Session(int &argc, char **&argv) {
        app.reset(new EllipticForestApp(&argc, &argv));
        initial = app->options;
        options(false, false);
    }
};
} // namespace efx
#endif
