/* Boundary conditions, solve histories, options, operators, merges: C03 C04 C05 C07 C08 (one process). */
#include "efx.hpp"
using namespace efx;
using ref::Dense;

static Problem anyProblem(Case &c, Coefs co, bool fish, int cap = 3) {
    Rng &r = c.rng;
    int maxl = std::min(cap, r.pick({0, 1, 2, 2, 3, 3})), minl = r.chance(0.3) ? maxl : r.integer(0, std::max(0, maxl - 1));
    int nx = maxl == 3 ? r.pick({3, 4, 5}) : r.pick({3, 4, 5, 6, 8});
    Problem p = randomProblem(r, c.key, nx, minl, maxl, co, fish);
    if (cap > 4 || r.chance(0.03)) steep(p, r, c.key);
    else if (r.chance(0.02)) chain(p, r, c.key, r.integer(4, 7));
    return p;
}
static Matrix<double> fromDense(const Dense &D) {
    Matrix<double> M(D.r, D.c, 0);
    for (int i = 0; i < D.r; i++) for (int j = 0; j < D.c; j++) M(i, j) = D(i, j);
    return M;
}
static Box boxOf(FiniteVolumeGrid &g) { return {g.xLower(), g.xUpper(), g.yLower(), g.yUpper()}; }

// ---- C03 ---------------------------------------------------------------------------------------------------------
static void mixedCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.15);
    Coefs co = fish ? r.pick({POISSON, HELMHOLTZ}) : r.pick({POISSON, HELMHOLTZ, VARIABLE, VARIABLE});
    Problem p = anyProblem(c, co, fish);
    double L = p.size();
    if (p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2) > 0) p.pde.lambda = constant(0);
    Setup s(p);
    auto leafSet = gatherLeaves(s);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    hps.buildStage();
    hps.upwardsStage([&](double x, double y) { return p.pde.f(x, y); });
    ref::RefTree t(p.box, p.nx, p.pde, leafSet);
    t.build();
    t.upwards(p.pde.f);
    int solves = r.integer(1, 3);
    for (int k = 0; k < solves; k++) {
        Bc bc = mixedBc(r, c.key, L, times(p.mag, field(r, c.key, p.box, r.real(-1, 1), 2)), true);
        ref::Grid G = t.rootGrid();
        std::vector<std::array<double, 3>> calls;
        hps.solveStage([&](int side, double x, double y, double *a, double *b) {
            calls.push_back({(double)side, x, y});
            return bc(side, x, y, a, b);
        });
        // asked exactly at the root's boundary points
        std::vector<std::array<double, 3>> want;
        for (int side = 0; side < 4; side++) for (int i = 0; i < G.nx; i++)
            want.push_back({(double)side, side == 0 ? G.b.x0 : side == 1 ? G.b.x1 : G.x(i), side == 2 ? G.b.y0 : side == 3 ? G.b.y1 : G.y(i)});
        auto find = [&](const std::array<double, 3> &q, const std::vector<std::array<double, 3>> &in) {
            for (auto &w : in) if (w[0] == q[0] && std::fabs(w[1] - q[1]) < 1e-9 * L && std::fabs(w[2] - q[2]) < 1e-9 * L) return true;
            return false;
        };
        for (auto &q : calls) if (!c.check(find(q, want), "bc:asked-off-boundary", [&] { return "side " + vh::num(q[0]) + " at " + vh::num(q[1]) + "," + vh::num(q[2]); })) return;
        for (auto &q : want) if (!c.check(find(q, calls), "bc:point-not-asked", [&] { return "side " + vh::num(q[0]) + " at " + vh::num(q[1]) + "," + vh::num(q[2]); })) return;
        BcData bd = sample(G, bc);
        DVec g = t.rootDirichlet(bd.a, bd.b, bd.r);
        t.down(g);
        auto &root = s.mesh.quadtree.root();
        double scale = std::max(1e-3 * p.mag, ref::maxAbs(g));
        t.eachLeaf([&](ref::RefNode &n) { scale = std::max(scale, ref::maxAbs(n.u)); });
        // the condition itself, with the flux the reference elimination derives from the computed boundary values
        DVec got = toVec(root.vectorG());
        if (!c.check((int)got.size() == 4 * G.nx, "bc:root-data-size")) return;
        DVec d = ref::mul(t.root->T, got);
        double Tn = 0;
        for (int i = 0; i < t.root->T.r; i++) { double q = 0; for (int j = 0; j < t.root->T.c; j++) q += std::fabs(t.root->T(i, j)); Tn = std::max(Tn, q); }
        for (size_t i = 0; i < got.size(); i++)
            if (!c.near(bd.a[i] * got[i] + bd.b[i] * (d[i] + t.root->h[i]), bd.r[i],
                        1e-9 * (std::fabs(bd.a[i]) * scale + std::fabs(bd.b[i]) * Tn * scale + std::fabs(bd.r[i])), "bc:not-satisfied",
                        "boundary point " + std::to_string(i))) return;
        auto leaves = s.localLeaves();
        double worst = 0;
        t.eachLeaf([&](ref::RefNode &n) {
            if (c.violations) return;
            c.nearAll(toVec(leaves[n.path]->vectorU()), n.u, 2e-8 * scale, "bc:solution-differs", "leaf " + n.path);
            for (size_t i = 0; i < n.u.size(); i++) worst = std::max(worst, std::fabs(n.u[i] - leaves[n.path]->vectorU()[i]) / scale);
        });
        c.maxof("largest relative difference with mixed conditions", worst);
        c.count("mixed-condition solves");
        if (c.violations) return;
        // on leaves at the domain's edge at root resolution, measured from the leaf's own values
        for (auto &[path, patch] : leaves) {
            ref::Grid lg{boxOf(patch->grid()), p.nx, p.nx};
            if (G.nx != p.nx << (path.size() - 1)) continue;
            DVec lb = toVec(patch->vectorG()), fl = ref::fluxes(lg, toVec(patch->vectorU()), lb);
            BcData ld = sample(lg, bc);
            double eps = 1e-9 * L;
            bool edge[4] = {std::fabs(lg.b.x0 - G.b.x0) < eps, std::fabs(lg.b.x1 - G.b.x1) < eps, std::fabs(lg.b.y0 - G.b.y0) < eps, std::fabs(lg.b.y1 - G.b.y1) < eps};
            for (int side = 0; side < 4; side++) if (edge[side] && leafSet.size() == (size_t)1 << (2 * (path.size() - 1)))
                for (int i = 0; i < p.nx; i++) {
                    int q = side * p.nx + i;
                    c.near(ld.a[q] * lb[q] + ld.b[q] * fl[q], ld.r[q], 1e-8 * (std::fabs(ld.a[q]) * scale + std::fabs(ld.b[q]) * Tn * scale + std::fabs(ld.r[q])),
                           "bc:leaf-edge", "leaf " + path + " side " + std::to_string(side));
                }
            c.stopIfViolated();
        }
        // another description of the same solution
        if (k == 0) {
            auto before = solution(s);
            DVec dd = ref::mul(t.root->T, got);
            for (size_t i = 0; i < dd.size(); i++) dd[i] += t.root->h[i];
            int kind2 = r.integer(0, 2);
            hps.solveStage([&](int side, double x, double y, double *a, double *b) {
                // index of this point
                int i = side < 2 ? (int)std::floor((y - G.b.y0) / G.dy()) : (int)std::floor((x - G.b.x0) / G.dx());
                int q = side * G.nx + i;
                double out = side % 2 ? 1 : -1;
                *a = 1.5; *b = 0;
                if (kind2 == 1 || (kind2 == 2 && side < 2)) { *a = 0.7; *b = out * 0.4 * L; }
                return *a * got[q] + *b * dd[q];
            });
            auto after = solution(s);
            for (auto &[path, u] : before) c.nearAll(after[path], u, 2e-8 * scale, "bc:description-dependent", "leaf " + path);
            c.stopIfViolated();
        }
    }
}

// ---- C04 ---------------------------------------------------------------------------------------------------------
static void historyCase(Case &c, bool cache = false) {
    Rng &r = c.rng;
    bool fish = r.chance(0.15);
    Coefs co = fish || cache ? r.pick({POISSON, HELMHOLTZ}) : r.pick({POISSON, HELMHOLTZ, VARIABLE});
    Problem p = anyProblem(c, co, fish);
    double L = p.size();
    if (p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2) > 0) p.pde.lambda = constant(0);
    options(cache, false);
    Setup s(p);
    // another solver, alive and used in between, must not be disturbed
    std::unique_ptr<Setup> s2;
    std::unique_ptr<HPS> hps2;
    std::map<std::string, DVec> want2;
    Bc bc2;
    if (r.chance(0.3)) {
        c.key << " beside ";
        Problem p2 = randomProblem(r, c.key, r.pick({3, 4, p.nx}), 0, 2, fish || cache ? POISSON : r.pick({POISSON, VARIABLE}), fish);
        if (r.chance(0.5)) p2.box = p.box;
        if (p2.pde.lambda((p2.box.x0 + p2.box.x1) / 2, (p2.box.y0 + p2.box.y1) / 2) > 0) p2.pde.lambda = constant(0);
        bc2 = mixedBc(r, c.key, p2.size(), times(p2.mag, field(r, c.key, p2.box, 1, 2)), false);
        s2 = std::make_unique<Setup>(p2);
        hps2 = std::make_unique<HPS>(MPI_COMM_WORLD, s2->mesh, s2->solver);
        hps2->buildStage();
        runAll(*s2, *hps2, p2.pde.f, bc2);
        want2 = solution(*s2);
        c.count("solvers used side by side");
    }
    auto hps = std::make_unique<HPS>(MPI_COMM_WORLD, s.mesh, s.solver);
    hps->setupStage();
    hps->buildStage();
    Fn f = p.pde.f;
    bool haveF = false;
    double stepMag = 1;
    int kindSeed = 0;
    std::vector<int> next; // operations to come, last first
    bool sameKinds = false;
    int steps = r.integer(4, c.m.thorough ? 14 : 8), solves = 0;
    c.key << " history:";
    for (int k = 0; k < steps || !solves || !next.empty(); k++) {
        int op = !haveF ? 1 : r.pick({0, 1, 1, 2, 2, 2, 2, 3, 4, 5});
        if (!next.empty()) { op = next.back(); next.pop_back(); }
        if (op == 0) { c.key << " rebuild"; hps->buildStage(); haveF = false; c.count("rebuilds"); continue; }
        if (op == 3) { // another solver object on the same mesh
            c.key << " newsolver";
            hps = std::make_unique<HPS>(MPI_COMM_WORLD, s.mesh, s.solver);
            hps->buildStage();
            haveF = false;
            c.count("rebuilds");
            continue;
        }
        if (op == 4 && !fish) { // new coefficients need a new build
            c.key << " recoef";
            if (co == VARIABLE) p.pde.beta = wave(r, 2, 0.7, L);
            else {
                p.pde.beta = constant(r.real(0.5, 3));
                if (co == HELMHOLTZ) p.pde.lambda = constant(-r.real(0.1, 40) / (L * L));
            }
            s.solver.beta_function = p.pde.beta;
            s.solver.lambda_function = p.pde.lambda;
            hps->buildStage();
            haveF = false;
            c.count("rebuilds");
            continue;
        }
        if (op == 5) { // the mesh object refined anew, some times over another domain
            std::ostringstream skip;
            Problem q = randomProblem(r, skip, p.nx, 0, 2, POISSON, fish);
            p.crit = q.crit; p.thr = q.thr; p.minl = r.integer(0, 1); p.maxl = r.integer(p.minl, 2);
            c.key << " remesh[" << p.minl << "," << p.maxl << "]";
            double w = p.box.x1 - p.box.x0;
            if (co != VARIABLE && r.chance(0.5)) { p.box = {p.box.x0, p.box.x0 + w / 2, p.box.y0, p.box.y0 + (p.box.y1 - p.box.y0) / 2}; c.key << "/2"; }
            s.remesh(p);
            hps->buildStage();
            haveF = false;
            c.count("meshes refined anew");
            continue;
        }
        if (op == 1 || op == 4) {
            stepMag = r.pick({1.0, 1.0, 1.0, 0.0, 1e-13, 1e8});
            f = times(stepMag, field(r, c.key, p.box, r.real(-2, 2), r.pick({1.0, 10.0})));
            bool patches = r.chance(0.4);
            int times = r.chance(0.2) ? 2 : 1;
            c.key << (patches ? " upwards-p" : " upwards-f") << (times == 2 ? "x2" : "");
            for (int q = 0; q < times; q++) {
                if (patches) hps->upwardsStage([&](FiniteVolumePatch &patch) {
                    auto &g = patch.grid();
                    Vector<double> v(g.nx() * g.ny());
                    for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) v[j + i * g.ny()] = f(g(0, i), g(1, j));
                    patch.vectorF() = v;
                });
                else hps->upwardsStage([&](double x, double y) { return f(x, y); });
            }
            haveF = true;
            c.count("upwards stages");
            continue;
        }
        double gmag = r.chance(0.5) ? stepMag : r.pick({1.0, 0.0, 1e-13});
        Fn gw = times(gmag, field(r, c.key, p.box, r.real(-1, 1), 3));
        bool mixed = sameKinds || r.chance(0.5);
        if (!kindSeed || (!sameKinds && r.chance(0.4))) kindSeed = 1 + r.integer(0, 1000000); // often other values for conditions of the same kinds
        Rng kinds(kindSeed);
        Bc bc = mixed ? mixedBc(kinds, c.key, p.size(), gw, false) : dirichlet(gw);
        // conditions of the same kinds again, on another operator
        if (!sameKinds && mixed && r.chance(0.4)) { next = {2, 1, fish ? 5 : r.pick({4, 4, 5})}; sameKinds = true; }
        else sameKinds = false;
        bool patches = !mixed && r.chance(0.4);
        c.key << (mixed ? " solve-m" : patches ? " solve-p" : " solve-f");
        int rootN = (int)s.mesh.quadtree.root().grid().nx();
        ref::Grid G{p.box, rootN, rootN};
        auto solve = [&](HPS &h) {
            if (patches) h.solveStage([&](FiniteVolumePatch &root) { root.vectorG() = fromVec(sample(G, bc).r); });
            else h.solveStage([&](int side, double x, double y, double *a, double *b) { return bc(side, x, y, a, b); });
        };
        solve(*hps);
        auto got = solution(s);
        solves++;
        c.count("solves in a history");
        options(false, false);
        Setup fresh(p);
        HPS fh(MPI_COMM_WORLD, fresh.mesh, fresh.solver);
        fh.setupStage();
        fh.buildStage();
        fh.upwardsStage([&](double x, double y) { return f(x, y); });
        solve(fh);
        auto want = solution(fresh);
        options(cache, false);
        if (s2) {
            if (r.chance(0.3)) hps2->upwardsStage([&](double x, double y) { return s2->p.pde.f(x, y); });
            hps2->solveStage([&](int side, double x, double y, double *a, double *b) { return bc2(side, x, y, a, b); });
            auto u2 = solution(*s2);
            for (auto &[path, u] : want2) if (!c.nearAll(u2[path], u, 1e-8 * std::max(1e-3 * s2->p.mag, maxAbs(want2)), "history:disturbed-by-another-solver", "step " + std::to_string(k) + " leaf " + path)) return;
        }
        double scale = std::max(1e-3 * std::max(stepMag, gmag), maxAbs(want));
        c.check(got.size() == want.size(), "history:leaf-count");
        for (auto &[path, u] : want) if (!c.nearAll(got[path], u, 1e-8 * scale, cache ? "options:cache-differs-from-fresh-solver" : "history:differs-from-fresh-solver", "step " + std::to_string(k) + " leaf " + path)) return;
        if (fresh.mesh.quadtree.root().vectorG().size() != s.mesh.quadtree.root().vectorG().size()) c.violate("history:root-size", "");
    }
    options(false, false);
    c.nontrivial = solves >= 2;
}
static void linearCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.2);
    Problem p = anyProblem(c, fish ? POISSON : r.pick({POISSON, HELMHOLTZ, VARIABLE}), fish);
    double L = p.size();
    options(false, false);
    Setup s(p);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.buildStage();
    Fn f1 = times(p.mag, field(r, c.key, p.box, 1, 3)), f2 = times(p.mag, field(r, c.key, p.box, -1, 5)), g1 = times(p.mag, field(r, c.key, p.box, 1, 1)), g2 = times(p.mag, field(r, c.key, p.box, 0, 2));
    double q = r.real(-3, 3);
    c.key << " factor " << vh::shortnum(q);
    auto run = [&](Fn f, Fn g) { runAll(s, hps, f, dirichlet(g)); return solution(s); };
    auto u1 = run(f1, g1), u2 = run(f2, g2);
    auto u3 = run([=](double x, double y) { return f1(x, y) + q * f2(x, y); }, [=](double x, double y) { return g1(x, y) + q * g2(x, y); });
    double scale = maxAbs(u1) + std::fabs(q) * maxAbs(u2) + 1e-3 * p.mag;
    for (auto &[path, u] : u3) for (size_t i = 0; i < u.size(); i++)
        if (!c.near(u[i], u1[path][i] + q * u2[path][i], 1e-8 * scale, "history:not-linear", "leaf " + path)) return;
    auto u0 = run(constant(0), constant(0));
    c.check(maxAbs(u0) <= 1e-10 * p.mag, "history:zero-data", [&] { return vh::num(maxAbs(u0)); });
}

// ---- C05 ---------------------------------------------------------------------------------------------------------
static void optionsCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.4);
    Problem p = anyProblem(c, r.pick({POISSON, HELMHOLTZ}), fish);
    double L = p.size();
    if (!fish && r.chance(0.5)) {
        double a = r.real(0.5, 2), b = r.real(0.5, 3);
        p.pde.alpha = constant(a); p.pde.beta = constant(b);
        c.key << " alpha=" << vh::shortnum(a) << " beta=" << vh::shortnum(b);
    }
    if (p.pde.lambda(0, 0) > 0) p.pde.lambda = constant(0);
    bool zero = r.chance(0.5);
    Fn f = zero ? constant(0) : p.pde.f;
    auto solveOnly = [](HPS &h, Bc bc) { h.solveStage([&](int side, double x, double y, double *a, double *b) { return bc(side, x, y, a, b); }); };
    auto runWith = [&](bool cache, bool homog, Bc bc, std::map<std::string, Dense> &Ts) {
        options(cache, homog);
        Setup s(p);
        HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
        hps.setupStage();
        hps.buildStage();
        if (c.rng.chance(0.2)) hps.buildStage(); // a second build with a filled cache
        if (homog && c.rng.chance(0.5)) solveOnly(hps, bc); else runAll(s, hps, f, bc);
        s.mesh.quadtree.traversePreOrder([&](Node<FiniteVolumePatch> *n) { Ts[n->path] = toDense(n->data.matrixT()); return 1; });
        return solution(s);
    };
    Fn gw = times(p.mag, field(r, c.key, p.box, r.real(-1, 1), 2));
    Bc bc = r.chance(0.5) ? dirichlet(gw) : mixedBc(r, c.key, L, gw, false);
    std::map<std::string, Dense> T0, T1;
    auto base = runWith(false, false, bc, T0);
    double scale = std::max(1e-3 * p.mag, maxAbs(base));
    c.nontrivial = base.size() > 1;
    std::vector<std::pair<bool, bool>> variants = {{true, false}};
    if (zero) { variants.push_back({false, true}); variants.push_back({true, true}); }
    for (auto [cache, homog] : variants) {
        T1.clear();
        auto u = runWith(cache, homog, bc, T1);
        c.count(std::string("runs with cache=") + (cache ? "1" : "0") + " homogeneous=" + (homog ? "1" : "0"));
        std::string tag = std::string(cache ? "cache" : "") + (homog ? "homogeneous" : "");
        for (auto &[path, v] : base) if (!c.nearAll(u[path], v, 1e-8 * scale, "options:" + tag + "-changes-solution", "leaf " + path)) break;
        for (auto &[path, T] : T0) {
            double ts = ref::maxAbs(T.a);
            if (!c.nearAll(T1[path].a, T.a, 1e-9 * ts, "options:" + tag + "-changes-operator", "node " + path)) break;
        }
    }
    options(false, false);
    c.stopIfViolated();
    // switching options between stages of one solver
    {
        Setup s(p);
        HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
        hps.buildStage();
        Fn f2 = times(p.mag, wave(r, 1, 5, L));
        runAll(s, hps, f2, bc); // leaves non-zero load data behind
        options(false, true);
        runAll(s, hps, constant(0), bc);
        auto h = solution(s);
        options(false, false);
        runAll(s, hps, constant(0), bc);
        auto n = solution(s);
        runAll(s, hps, f2, bc);
        auto again = solution(s);
        options(false, true);
        solveOnly(hps, bc);
        auto h2 = solution(s);
        options(false, false);
        double sc = std::max(1e-3 * p.mag, maxAbs(n));
        for (auto &[path, v] : n) {
            c.nearAll(h[path], v, 1e-8 * sc, "options:homogeneous-after-load", "leaf " + path);
            c.nearAll(h2[path], v, 1e-8 * sc, "options:homogeneous-after-load", "leaf " + path);
            c.stopIfViolated();
        }
        c.count("option switches", 4);
    }
}

static Session *theSession = nullptr;
// the program of the README: no option is set by the user
static void defaultsCase(Case &c) {
    Rng &r = c.rng;
    Problem p = anyProblem(c, r.pick({POISSON, HELMHOLTZ}), r.chance(0.5));
    auto run = [&] {
        Setup s(p);
        HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
        hps.setupStage();
        hps.buildStage();
        runAll(s, hps, p.pde.f, dirichlet(p.g));
        return solution(s);
    };
    options(false, false);
    auto want = run();
    EllipticForestApp::getInstance().options = theSession->initial;
    auto got = run();
    options(false, false);
    for (auto &[path, u] : want) if (!c.nearAll(got[path], u, 1e-10 * std::max(1e-3 * p.mag, maxAbs(want)), "options:defaults", "leaf " + path)) return;
}

// ---- C07 ---------------------------------------------------------------------------------------------------------
static void operatorCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.2);
    Coefs co = fish ? r.pick({POISSON, HELMHOLTZ}) : r.pick({POISSON, HELMHOLTZ, VARIABLE, VARIABLE});
    Problem p = anyProblem(c, co, fish);
    options(false, false);
    Setup s(p);
    auto leafSet = gatherLeaves(s);
    bool uniform = !adaptiveMesh(leafSet);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    hps.buildStage();
    std::map<std::string, DVec> leafH;
    hps.upwardsStage([&](double x, double y) { return p.pde.f(x, y); });
    ref::RefTree t(p.box, p.nx, p.pde, leafSet);
    t.build();
    t.upwards(p.pde.f);
    std::map<std::string, ref::RefNode *> refs;
    std::function<void(ref::RefNode &)> walk = [&](ref::RefNode &n) { refs[n.path] = &n; if (!n.leaf()) for (auto &k : n.kids) walk(*k); };
    walk(*t.root);
    std::vector<Node<FiniteVolumePatch> *> nodes;
    s.mesh.quadtree.traversePreOrder([&](Node<FiniteVolumePatch> *n) { nodes.push_back(n); return 1; });
    for (auto *n : nodes) {
        auto &patch = n->data;
        ref::RefNode *q = refs[n->path];
        Dense T = toDense(patch.matrixT());
        DVec h = toVec(patch.vectorH());
        // a child is kept at its own resolution or at the one it was merged at
        const Dense &W = T.r == q->T.r || n->path == "0" ? q->T : q->Tc;
        const DVec &hw = h.size() == q->h.size() || n->path == "0" ? q->h : q->hc;
        double ts = ref::maxAbs(W.a), hs = std::max(1e-3 * p.mag, ref::maxAbs(hw));
        c.count(n->leaf ? "leaf operators" : "merged operators");
        if (!c.check(T.r == W.r && T.c == W.c, "operator:size", [&] { return n->path; })) return;
        if (!c.nearAll(T.a, W.a, 1e-9 * ts, "operator:map-differs-from-reference", "node " + n->path)) return;
        if (!c.nearAll(h, hw, 1e-8 * hs, "operator:particular-data", "node " + n->path)) return;
        if ((int)h.size() != T.r) continue;
        if (co == POISSON) for (int i = 0; i < T.r; i++) {
            double sum = 0;
            for (int j = 0; j < T.c; j++) sum += T(i, j);
            if (!c.near(sum, 0, 1e-9 * ts, "operator:constant-data-has-derivative", "node " + n->path)) return;
        }
        int N = T.r / 4;
        DVec g(T.r);
        for (auto &v : g) v = p.mag * r.real(-2, 2);
        DVec lin = ref::mul(T, g);
        for (size_t i = 0; i < lin.size(); i++) lin[i] += h[i];
        if (n->leaf && N == p.nx) { // what the solver itself says about this patch
            Vector<double> gv = fromVec(g), f = patch.vectorF();
            DVec d = toVec(s.solver.mapD2N(patch.grid(), gv, f));
            if (!c.nearAll(d, lin, 1e-8 * (ts * p.mag + hs), "operator:affine-form", "leaf " + n->path)) return;
            ref::Grid lg{boxOf(patch.grid()), p.nx, p.nx};
            Vector<double> u = s.solver.solve(patch.grid(), gv, f);
            if (!c.nearAll(ref::fluxes(lg, toVec(u), g), d, 1e-8 * (ts * p.mag + hs), "operator:derivative-of-solution", "leaf " + n->path)) return;
        }
        if (uniform) { // a merged patch acts like one fine grid over its rectangle
            Box b = p.box;
            for (size_t k = 1; k < n->path.size(); k++) b = b.child(n->path[k] - '0');
            ref::Grid G{b, N, N};
            DVec f(N * N);
            for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) f[j + i * N] = p.pde.f(G.x(i), G.y(j));
            DVec u = ref::fvGlobal(G, p.pde, {g}, {f})[0];
            if (!c.nearAll(lin, ref::fluxes(G, u, g), 1e-8 * (ts * 3 * p.mag + hs), "operator:differs-from-fine-grid", "node " + n->path)) return;
        }
    }
}
static void leafOperatorCase(Case &c) { // non-square rectangles, sizes, solver alone
    Rng &r = c.rng;
    bool fish = r.chance(0.35);
    int nx = fish ? r.pick({3, 4, 5, 7, 8, 9, 12}) : r.pick({2, 3, 4, 5, 7, 8, 9, 12});
    Problem p = randomProblem(r, c.key, nx, 0, 0, fish ? r.pick({POISSON, HELMHOLTZ}) : VARIABLE, fish);
    FiniteVolumeSolver solver;
    solver.solver_type = fish ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
    solver.alpha_function = p.pde.alpha; solver.beta_function = p.pde.beta; solver.lambda_function = p.pde.lambda;
    FiniteVolumeGrid grid(MPI_COMM_SELF, nx, p.box.x0, p.box.x1, nx, p.box.y0, p.box.y1);
    Matrix<double> TM = solver.buildD2N(grid);
    Dense T = toDense(TM);
    c.check(T.r == 4 * nx && T.c == 4 * nx, "operator:size");
    c.stopIfViolated();
    double ts = ref::maxAbs(T.a);
    Vector<double> f(nx * nx);
    for (int i = 0; i < nx * nx; i++) f[i] = p.mag * r.real(-3, 3);
    Vector<double> h = solver.particularNeumannData(grid, f);
    ref::Grid G{p.box, nx, nx};
    for (int k = 0; k < 3; k++) {
        Vector<double> g(4 * nx);
        for (int i = 0; i < 4 * nx; i++) g[i] = p.mag * r.real(-2, 2);
        DVec lin = ref::mul(T, toVec(g));
        for (size_t i = 0; i < lin.size(); i++) lin[i] += h[i];
        Vector<double> u = solver.solve(grid, g, f), d = solver.mapD2N(grid, g, f);
        double sc = ts * 2 * p.mag + ref::maxAbs(toVec(h));
        c.nearAll(toVec(d), lin, 1e-9 * sc, "operator:affine-form");
        c.nearAll(ref::fluxes(G, toVec(u), toVec(g)), lin, 1e-9 * sc, "operator:derivative-of-solution");
        c.stopIfViolated();
    }
}

// ---- C08 ---------------------------------------------------------------------------------------------------------
struct Synth { FiniteVolumePatch patch; Dense T; DVec h; Box box; int n; };
static Dense randomMap(Rng &r, int n, double d) { // dominant so that every interface system is well conditioned
    Dense T(4 * n, 4 * n);
    double e = 0.8 * d / (4 * n);
    for (int i = 0; i < 4 * n; i++) for (int j = 0; j < 4 * n; j++) T(i, j) = e * r.real(-1, 1);
    for (int i = 0; i < 4 * n; i++) { int side = i / n; T(i, i) += (side == 0 || side == 2) ? -d : d; }
    return T;
}
static DVec coarseVec(DVec v, int n, int m) { for (; n > m; n /= 2) v = ref::mul(ref::fourSides(ref::restrictSide(n / 2)), v); return v; }
static DVec fineVec(DVec v, int m, int n) { for (; m < n; m *= 2) v = ref::mul(ref::fourSides(ref::prolongSide(2 * m)), v); return v; }
static Dense coarseMap(Dense T, int n, int m) {
    for (; n > m; n /= 2) T = ref::mul(ref::mul(ref::fourSides(ref::restrictSide(n / 2)), T), ref::fourSides(ref::prolongSide(n)));
    return T;
}
static double hMag = 1; // magnitude of the particular data and boundary values of a merge case
static void fill(Synth &s, Rng &r, int n, const Box &b, double d) {
    s.n = n; s.box = b;
    s.T = randomMap(r, n, d);
    s.h.resize(4 * n);
    bool none = r.chance(0.15);
    for (auto &v : s.h) v = none ? 0 : hMag * r.real(-3, 3);
    FiniteVolumeGrid g(MPI_COMM_SELF, n, b.x0, b.x1, n, b.y0, b.y1);
    s.patch.grid() = g;
    s.patch.matrixT() = fromDense(s.T);
    s.patch.vectorH() = fromVec(s.h);
}
// exterior pieces: {child, its side, parent's side, half}
static const int pieces[8][4] = {{0, 0, 0, 0}, {2, 0, 0, 1}, {1, 1, 1, 0}, {3, 1, 1, 1}, {0, 2, 2, 0}, {1, 2, 2, 1}, {2, 3, 3, 0}, {3, 3, 3, 1}};
struct Merged { Dense T; DVec h; int n; };
// checks one merged family: kids' own (T,h,n), the parent patch and boundary values `G` (size 4*2m) the parent was split with
static void monitorFamily(Case &c, const std::vector<Merged> &kids, FiniteVolumePatch *kp[4], const Dense &PT, const DVec &Ph, const DVec &G, double d) {
    int m = 1 << 30;
    for (auto &k : kids) m = std::min(m, k.n);
    std::vector<DVec> g(4), flux(4);
    double gs = hMag;
    for (int k = 0; k < 4; k++) {
        g[k] = toVec(kp[k]->vectorG());
        if (!c.check((int)g[k].size() == 4 * m, "split:child-data-size")) return;
        gs = std::max(gs, ref::maxAbs(g[k]));
        flux[k] = ref::mul(coarseMap(kids[k].T, kids[k].n, m), g[k]);
        DVec hc = coarseVec(kids[k].h, kids[k].n, m);
        for (int i = 0; i < 4 * m; i++) flux[k][i] += hc[i];
    }
    double tol = 1e-9 * (d * gs + hMag);
    for (auto &f : ref::RefTree::ifaces()) for (int i = 0; i < m; i++) {
        c.near(g[f.a][f.sa * m + i], g[f.b][f.sb * m + i], 1e-10 * gs, "split:shared-side-values-differ", std::to_string(f.a) + "/" + std::to_string(f.b));
        c.near(flux[f.a][f.sa * m + i], flux[f.b][f.sb * m + i], tol, "split:shared-side-derivatives-differ", std::to_string(f.a) + "/" + std::to_string(f.b));
    }
    c.stopIfViolated();
    DVec out = ref::mul(PT, G);
    for (size_t i = 0; i < out.size(); i++) out[i] += Ph[i];
    for (auto &q : pieces) for (int i = 0; i < m; i++) {
        int pos = q[2] * 2 * m + q[3] * m + i;
        c.near(g[q[0]][q[1] * m + i], G[pos], 1e-12 * gs, "split:outer-values-misplaced", "child " + std::to_string(q[0]) + " side " + std::to_string(q[1]));
        c.near(out[pos], flux[q[0]][q[1] * m + i], tol * 4, "merge:parent-map-wrong", "child " + std::to_string(q[0]) + " side " + std::to_string(q[1]));
    }
    c.count("families monitored");
    c.stopIfViolated();
}
static void mergeCase(Case &c) {
    Rng &r = c.rng;
    options(false, false);
    int n = r.pick({3, 3, 4, 5, 6, 8});
    int uneven = r.integer(0, 3); // 0: equal children; otherwise some finer by one or two halvings
    double d = r.pick({1.0, 5.0, 50.0, 1e5});
    hMag = r.pick({1.0, 1.0, 1.0, 1e-13, 1e7});
    c.key << "h~" << hMag;
    Problem dummy = randomProblem(r, c.key, 4, 0, 0, POISSON, false);
    Setup s(dummy);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    Box B = randomBox(r);
    bool two = r.chance(0.5); // merge the result once more, into a grandparent that may need it coarsened
    std::vector<std::unique_ptr<Synth>> kid;
    c.key << " n=" << n << " d=" << d << " finer:";
    Box tauBox = two ? B.child(r.integer(0, 3)) : B;
    int tauPos = 0;
    if (two) for (int k = 0; k < 4; k++) if (std::fabs(B.child(k).x0 - tauBox.x0) < 1e-12 && std::fabs(B.child(k).y0 - tauBox.y0) < 1e-12) tauPos = k;
    for (int k = 0; k < 4; k++) {
        int f = uneven == 0 || k == r.integer(0, 3) ? 0 : r.integer(0, uneven == 3 ? 3 : 1);
        while (n * (1 << f) > 24) f--;
        c.key << " " << f;
        kid.push_back(std::make_unique<Synth>());
        fill(*kid.back(), r, n << f, tauBox.child(k), d);
    }
    FiniteVolumePatch tau(MPI_COMM_SELF);
    auto P = [&](int k) -> FiniteVolumePatch & { return kid[k]->patch; };
    hps.merge4to1(tau, P(0), P(1), P(2), P(3));
    hps.upwards4to1(tau, P(0), P(1), P(2), P(3));
    int m = 1 << 30;
    for (auto &k : kid) m = std::min(m, k->n);
    auto checkPatch = [&](FiniteVolumePatch &q, const Box &b, int size, double eps) {
        auto &g = q.grid();
        c.check((int)g.nx() == size && (int)g.ny() == size, "merge:grid-size", [&] { return std::to_string(g.nx()) + " want " + std::to_string(size); });
        c.check(std::fabs(g.xLower() - b.x0) < eps && std::fabs(g.xUpper() - b.x1) < eps && std::fabs(g.yLower() - b.y0) < eps && std::fabs(g.yUpper() - b.y1) < eps, "merge:rectangle");
        c.check((int)q.matrixT().nRows() == 4 * size && (int)q.matrixT().nCols() == 4 * size && (int)q.vectorH().size() == 4 * size, "merge:operator-size");
        c.stopIfViolated();
    };
    double eps = 1e-9 * (B.x1 - B.x0);
    checkPatch(tau, tauBox, 2 * m, eps);
    Dense tauT = toDense(tau.matrixT());
    DVec tauH = toVec(tau.vectorH());
    std::vector<Merged> km;
    for (auto &k : kid) km.push_back({k->T, k->h, k->n});
    FiniteVolumePatch *kp[4] = {&P(0), &P(1), &P(2), &P(3)};
    if (!two) {
        int rounds = r.integer(1, 3);
        for (int q = 0; q < rounds; q++) {
            DVec G(8 * m);
            for (auto &v : G) v = hMag * r.real(-2, 2);
            tau.vectorG() = fromVec(G);
            hps.split1to4(tau, P(0), P(1), P(2), P(3));
            monitorFamily(c, km, kp, tauT, tauH, G, d);
            if (q + 1 < rounds) { // new loads, same operators
                for (int k = 0; k < 4; k++) {
                    for (auto &v : km[k].h) v = hMag * r.real(-3, 3);
                    P(k).vectorH() = fromVec(km[k].h);
                }
                hps.upwards4to1(tau, P(0), P(1), P(2), P(3));
                tauH = toVec(tau.vectorH());
            }
        }
        return;
    }
    int other = r.chance(0.6) && m >= 3 ? m : 2 * m; // siblings half as fine as tau, or equal
    c.key << " two-level siblings n=" << other << " at " << tauPos;
    std::vector<std::unique_ptr<Synth>> sib(4);
    FiniteVolumePatch *top[4];
    std::vector<Merged> tm(4);
    for (int k = 0; k < 4; k++) {
        if (k == tauPos) { top[k] = &tau; tm[k] = {tauT, tauH, 2 * m}; continue; }
        sib[k] = std::make_unique<Synth>();
        fill(*sib[k], r, other, B.child(k), d);
        top[k] = &sib[k]->patch;
        tm[k] = {sib[k]->T, sib[k]->h, other};
    }
    FiniteVolumePatch root(MPI_COMM_SELF);
    hps.merge4to1(root, *top[0], *top[1], *top[2], *top[3]);
    hps.upwards4to1(root, *top[0], *top[1], *top[2], *top[3]);
    int M = std::min(other, 2 * m);
    checkPatch(root, B, 2 * M, eps);
    DVec G(8 * M);
    for (auto &v : G) v = hMag * r.real(-2, 2);
    root.vectorG() = fromVec(G);
    hps.split1to4(root, *top[0], *top[1], *top[2], *top[3]);
    monitorFamily(c, tm, top, toDense(root.matrixT()), toVec(root.vectorH()), G, d);
    DVec tg = fineVec(toVec(tau.vectorG()), M, 2 * m); // documented transfer back to tau's own resolution
    hps.split1to4(tau, P(0), P(1), P(2), P(3));
    monitorFamily(c, km, kp, tauT, tauH, tg, d);
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    theSession = &session;
    vh::Main m(argc, argv);
    m.mode("C03", "mixed", 500, 8000, mixedCase);
    m.mode("C04", "history", 160, 3000, [](Case &c) { historyCase(c); });
    m.mode("C04", "linear", 100, 2000, linearCase);
    m.mode("C05", "options", 250, 4000, optionsCase);
    m.mode("C05", "cachehistory", 60, 1200, [](Case &c) { historyCase(c, true); });
    m.mode("C05", "defaults", 16, 100, defaultsCase);
    m.mode("C07", "operators", 400, 8000, operatorCase);
    m.mode("C07", "leafoperators", 800, 15000, leafOperatorCase);
    m.mode("C08", "merge", 2000, 40000, mergeCase);
    return m.run();
}
