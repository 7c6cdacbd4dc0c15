/* The HPS solver as a whole: C01 C02 C03 C04 C05 C08 (one process). */
#include "efx.hpp"
using namespace efx;

static Coefs pickCoefs(Rng &r) { return r.pick({POISSON, HELMHOLTZ, VARIABLE, VARIABLE}); }

// ---- C01: uniform mesh == one global discretisation --------------------------------------------------------------
static void uniformCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.25);
    Coefs co = fish ? r.pick({POISSON, HELMHOLTZ}) : pickCoefs(r);
    int level = r.pick({0, 1, 1, 2, 2, 2, 3, 3}), nx = level == 3 ? r.pick({3, 4, 6}) : r.pick({3, 4, 5, 6, 7, 8, 10});
    if (level < 2 && r.chance(0.05)) nx = r.pick({12, 16, 17, 20});
    if (c.m.thorough && r.chance(0.1)) { level = 4; nx = 4; }
    Problem p = randomProblem(r, c.key, nx, level, level, co, fish);
    Setup s(p);
    auto leaves = s.localLeaves();
    c.check((int)leaves.size() == (1 << (2 * level)), "uniform:leaf-count");
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    hps.buildStage();
    bool patchCallbacks = r.chance(0.4);
    c.key << (patchCallbacks ? "patch-callbacks" : "analytic");
    int n = nx << level;
    ref::Grid G{p.box, n, n};
    BcData bd = sample(G, dirichlet(p.g));
    if (patchCallbacks) {
        int visited = 0;
        hps.upwardsStage([&](FiniteVolumePatch &patch) {
            visited++;
            auto &g = patch.grid();
            patch.vectorF() = Vector<double>(g.nx() * g.ny());
            for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++)
                patch.vectorF()[j + i * g.ny()] = p.pde.f(g(0, i), g(1, j));
        });
        c.check(visited == (int)leaves.size(), "upwards:leaf-visits");
        int roots = 0;
        hps.solveStage([&](FiniteVolumePatch &root) {
            roots++;
            c.check(root.grid().nx() == (size_t)n, "root:grid-size");
            root.vectorG() = fromVec(bd.r);
        });
        c.check(roots == 1, "solve:root-callback-once");
    } else runAll(s, hps, p.pde.f, dirichlet(p.g));

    DVec F(n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) F[j + i * n] = p.pde.f(G.x(i), G.y(j));
    DVec u = ref::fvGlobal(G, p.pde, {bd.r}, {F})[0];
    double scale = std::max(1e-3 * p.mag, ref::maxAbs(u)), worst = 0;
    std::vector<int> seen(n * n, 0);
    for (auto &[path, patch] : leaves) {
        auto &g = patch->grid();
        int i0 = (int)std::lround((g.xLower() - p.box.x0) / G.dx()), j0 = (int)std::lround((g.yLower() - p.box.y0) / G.dy());
        if (!c.check(patch->vectorU().size() == (size_t)(nx * nx), "solution:size")) return;
        for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) {
            int k = (j0 + j) + (i0 + i) * n;
            seen[k]++;
            double e = std::fabs(patch->vectorU()[j + i * nx] - u[k]);
            worst = std::max(worst, e / scale);
            if (!c.near(patch->vectorU()[j + i * nx], u[k], 1e-8 * scale, "uniform:differs-from-global-solve",
                        "leaf " + path + " cell " + std::to_string(i) + "," + std::to_string(j))) return;
        }
    }
    for (int v : seen) if (!c.check(v == 1, "uniform:cell-cover")) return;
    c.maxof("largest relative difference from the global solve", worst);
    c.nontrivial = level > 0;
}

// ---- C02: adaptive meshes -----------------------------------------------------------------------------------------
static Problem adaptiveProblem(Case &c, Coefs co, bool fish, bool small = false) {
    Rng &r = c.rng;
    int maxl = r.pick({1, 2, 2, 3, 3, 3, 4}), minl = r.integer(0, std::max(0, maxl - 1));
    if (small && maxl > 3) maxl = 3;
    int nx = maxl >= 4 ? 4 : r.pick({3, 4, 4, 5, 6, 8});
    if (c.m.thorough && r.chance(0.15)) { maxl = 5; nx = 4; }
    Problem p = randomProblem(r, c.key, nx, minl, maxl, co, fish);
    if (r.chance(0.04)) steep(p, r, c.key);
    else if (r.chance(0.04)) chain(p, r, c.key, r.integer(5, 9));
    return p;
}
// bilinear solutions are inside the discretisation and inside both transfers: reproduced to rounding
static void bilinearCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.2);
    Problem p = adaptiveProblem(c, HELMHOLTZ, fish);
    double L = p.size();
    double A = r.real(-1, 1), B = r.real(-1, 1) / L, C = r.real(-1, 1) / L, D = r.real(-1, 1) / (L * L);
    Fn u = [=](double x, double y) { return A + B * x + C * y + D * x * y; };
    if (!fish && r.chance(0.5)) {
        p.pde.alpha = wave(r, 1, 0.4, L);
        Wave lw = wave(r, -2 / (L * L), 1.5 / (L * L), L);
        p.pde.lambda = lw;
        c.key << "variable alpha,lambda";
    }
    Fn lam = p.pde.lambda;
    Fn f = [=](double x, double y) { return lam(x, y) * u(x, y); };
    Setup s(p);
    auto leaves = gatherLeaves(s);
    c.nontrivial = adaptiveMesh(leaves);
    c.count("leaves", leaves.size());
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    hps.buildStage();
    // any of the boundary condition kinds: bilinear data satisfy them all
    int kind = r.integer(0, 2);
    double ux0 = p.box.x0;
    (void)ux0;
    Bc bc = [=](int side, double x, double y, double *a, double *b) {
        double d = side < 2 ? B + D * y : C + D * x;
        bool robin = kind == 2 || (kind == 1 && side % 2);
        *a = 1;
        *b = 0;
        if (robin) { // signs chosen so that the condition is dissipative
            double outward = (side == 0 || side == 2) ? -1 : 1;
            *a = 2.0 / L;
            *b = outward;
            if (kind == 1) *a = 0;
        }
        return *a * u(x, y) + *b * d;
    };
    c.key << " bc=" << kind;
    runAll(s, hps, f, bc);
    double scale = std::fabs(A) + (std::fabs(B) + std::fabs(C)) * 4 * L + std::fabs(D) * 16 * L * L, worst = 0;
    for (auto &[path, patch] : s.localLeaves()) {
        auto &g = patch->grid();
        for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) {
            double e = std::fabs(patch->vectorU()[j + i * g.ny()] - u(g(0, i), g(1, j)));
            worst = std::max(worst, e / scale);
            if (!c.near(patch->vectorU()[j + i * g.ny()], u(g(0, i), g(1, j)), 1e-8 * scale, "adaptive:bilinear-not-exact",
                        "leaf " + path)) return;
        }
    }
    c.maxof("largest relative error on bilinear solutions", worst);
}
// full differential run against the reference elimination, plus monitors on the recorded leaf data
static void compositeCase(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.2);
    Coefs co = fish ? r.pick({POISSON, HELMHOLTZ}) : pickCoefs(r);
    Problem p = adaptiveProblem(c, co, fish, true);
    Setup s(p);
    auto leafSet = gatherLeaves(s);
    c.nontrivial = adaptiveMesh(leafSet);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    hps.buildStage();
    runAll(s, hps, p.pde.f, dirichlet(p.g));
    ref::RefTree t(p.box, p.nx, p.pde, leafSet);
    t.build();
    t.upwards(p.pde.f);
    BcData bd = sample(t.rootGrid(), dirichlet(p.g));
    t.down(bd.r);
    auto leaves = s.localLeaves();
    double scale = 1e-3 * p.mag, worst = 0;
    t.eachLeaf([&](ref::RefNode &n) { scale = std::max(scale, ref::maxAbs(n.u)); });
    t.eachLeaf([&](ref::RefNode &n) {
        if (c.violations) return;
        auto *patch = leaves[n.path];
        c.nearAll(toVec(patch->vectorU()), n.u, 1e-8 * scale, "adaptive:differs-from-reference-elimination", "leaf " + n.path);
        for (size_t i = 0; i < n.u.size() && i < patch->vectorU().size(); i++) worst = std::max(worst, std::fabs(patch->vectorU()[i] - n.u[i]) / scale);
    });
    c.maxof("largest relative difference from the reference elimination", worst);
    if (c.violations) return;
    // monitors: each leaf satisfies the discrete PDE with the boundary data it was handed, and leaves of equal size
    // that are siblings carry the same value on the side they share.
    for (auto &[path, patch] : leaves) {
        ref::Grid g{{patch->grid().xLower(), patch->grid().xUpper(), patch->grid().yLower(), patch->grid().yUpper()}, p.nx, p.nx};
        DVec sc, f(p.nx * p.nx);
        for (int i = 0; i < p.nx; i++) for (int j = 0; j < p.nx; j++) f[j + i * p.nx] = p.pde.f(g.x(i), g.y(j));
        DVec res = ref::fvResidual(g, p.pde, toVec(patch->vectorU()), toVec(patch->vectorG()), f, &sc);
        for (size_t k = 0; k < res.size(); k++)
            if (!c.near(res[k] / sc[k], 0, 1e-8 * scale, "adaptive:leaf-residual", "leaf " + path)) return;
    }
    for (auto &[path, patch] : leaves) {
        if (path.size() < 2) continue;
        std::string parent = path.substr(0, path.size() - 1);
        for (auto &f : ref::RefTree::ifaces()) {
            auto A = leaves.find(parent + std::to_string(f.a)), B = leaves.find(parent + std::to_string(f.b));
            if (A == leaves.end() || B == leaves.end() || path != A->first) continue;
            DVec ga = toVec(A->second->vectorG()), gb = toVec(B->second->vectorG());
            auto gr = [&](FiniteVolumePatch *q) { return ref::Grid{{q->grid().xLower(), q->grid().xUpper(), q->grid().yLower(), q->grid().yUpper()}, p.nx, p.nx}; };
            DVec ha = ref::fluxes(gr(A->second), toVec(A->second->vectorU()), ga), hb = ref::fluxes(gr(B->second), toVec(B->second->vectorU()), gb);
            double hs = scale / std::min(gr(A->second).dx(), gr(A->second).dy());
            for (int i = 0; i < p.nx; i++) {
                c.near(ga[f.sa * p.nx + i], gb[f.sb * p.nx + i], 1e-9 * scale, "adaptive:interface-value-jump", A->first + "/" + B->first);
                c.near(ha[f.sa * p.nx + i], hb[f.sb * p.nx + i], 1e-8 * hs, "adaptive:interface-flux-jump", A->first + "/" + B->first);
            }
            c.count("interfaces monitored");
            c.stopIfViolated();
        }
    }
}
// refining every patch's cells twofold must shrink the error like a second order method
static void orderCase(Case &c) {
    Rng &r = c.rng;
    int maxl = r.pick({2, 3}), minl = r.integer(1, maxl - 1);
    auto mild = [](const Box &b) { double q = (b.y1 - b.y0) / (b.x1 - b.x0); return q > 0.5 && q < 2; }; // eight cells across a sliver are too few to tell an order
    Problem p;
    do {
        c.key.str("");
        p = randomProblem(r, c.key, 8, minl, maxl, r.pick({POISSON, HELMHOLTZ}), false);
    } while (!mild(p.box));
    double L = p.size();
    double kx = r.real(1, 3) / L, ky = r.real(1, 3) / L, ph = r.real(0, 6);
    double ox = p.box.x0;
    Fn u = [=](double x, double y) { return std::sin(kx * x + ph) * std::cos(ky * y) + std::exp(0.5 * (x - ox) / L); };
    Fn lam = p.pde.lambda;
    Fn f = [=](double x, double y) {
        return -(kx * kx + ky * ky) * std::sin(kx * x + ph) * std::cos(ky * y) + 0.25 / (L * L) * std::exp(0.5 * (x - ox) / L) + lam(x, y) * u(x, y);
    };
    // the same leaves for both resolutions: the criterion is decided by quadrants, not by cells
    Box box = p.box;
    Fn crit0 = p.crit; double thr = p.thr;
    double err[2];
    std::set<std::string> leafSets[2];
    for (int k = 0; k < 2; k++) {
        Problem q = p;
        q.nx = k ? 16 : 8;
        int fine = 1 << maxl;
        q.crit = [=](double x, double y) { // value at the centre of the level-maxl quadrant holding (x,y)
            double hx = (box.x1 - box.x0) / fine, hy = (box.y1 - box.y0) / fine;
            int i = std::min(fine - 1, (int)((x - box.x0) / hx)), j = std::min(fine - 1, (int)((y - box.y0) / hy));
            return crit0(box.x0 + (i + 0.5) * hx, box.y0 + (j + 0.5) * hy);
        };
        q.thr = thr;
        Setup s(q);
        leafSets[k] = gatherLeaves(s);
        HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
        hps.buildStage();
        runAll(s, hps, f, dirichlet(u));
        err[k] = 0;
        for (auto &[path, patch] : s.localLeaves()) {
            auto &g = patch->grid();
            for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++)
                err[k] = std::max(err[k], std::fabs(patch->vectorU()[j + i * g.ny()] - u(g(0, i), g(1, j))));
        }
    }
    c.check(leafSets[0] == leafSets[1], "order:same-mesh");
    c.nontrivial = adaptiveMesh(leafSets[0]);
    c.key << " err8=" << vh::shortnum(err[0]) << " err16=" << vh::shortnum(err[1]);
    c.maxof("error ratio 16/8 (second order: about 0.25)", err[1] / err[0]);
    c.check(err[0] < 0.05, "adaptive:inaccurate", [&] { return "max error at nx=8 is " + vh::num(err[0]); });
    c.check(err[1] < 0.45 * err[0], "adaptive:not-second-order", [&] { return "errors " + vh::num(err[0]) + " -> " + vh::num(err[1]); });
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    vh::Main m(argc, argv);
    m.mode("C01", "uniform", 240, 3000, uniformCase);
    m.mode("C02", "bilinear", 160, 2000, bilinearCase);
    m.mode("C02", "composite", 160, 2000, compositeCase);
    m.mode("C02", "order", 8, 100, orderCase);
    return m.run();
}
