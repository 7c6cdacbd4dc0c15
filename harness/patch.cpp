/* C06: the patch solvers alone.  Oracles: the five-point residual evaluated independently, the maximum principle, the
 * boundary derivatives of the returned cells, and the two solvers against each other.  The coefficient functions are
 * monitored too: what the solver asks for must lie in its patch. */
#include "efx.hpp"
#include <iostream>
using namespace efx;

struct Setting {
    Box box;
    int nx;
    ref::Pde pde;
    bool fish;
    double lambdaMax; // upper bound of lambda / (alpha scale): <= 0 gives a maximum principle
};
// A coefficient: constant, smooth, with a jump, or with steep contrast; always within [lo,hi]
static Fn positive(Rng &r, const Box &b, std::string &what) {
    double L = std::max(b.x1 - b.x0, b.y1 - b.y0), k = r.pick({0.01, 1.0, 1.0, 40.0});
    int kind = r.integer(0, 3);
    what += std::to_string(kind);
    if (kind == 0) return constant(k);
    if (kind == 1) { Wave w = wave(r, 1.0, 0.9, L); return [=](double x, double y) { return k * w(x, y); }; }
    double cx = b.x0 + L * r.real(0.1, 0.9), t = r.real(0, 3.1), j = r.pick({3.0, 100.0});
    if (kind == 2) return [=](double x, double y) { return (x - cx) * std::cos(t) + (y - b.y0 - 0.37 * L) * std::sin(t) > 0.0123 * L ? k * j : k; };
    double s = r.real(1, 3) / L;
    return [=](double x, double y) { return k * std::exp(s * ((x - b.x0) - 0.7 * (y - b.y0))); };
}
static Setting randomSetting(Rng &r, std::ostringstream &key, bool fish, int nx) {
    Setting s;
    s.box = randomBox(r);
    s.nx = nx;
    s.fish = fish;
    if (r.chance(0.3)) { // long thin rectangles
        double f = r.pick({0.05, 0.2, 6.0, 30.0});
        s.box.y1 = s.box.y0 + f * (s.box.x1 - s.box.x0);
    }
    double L = std::min(s.box.x1 - s.box.x0, s.box.y1 - s.box.y0);
    std::string what;
    s.lambdaMax = 0;
    if (fish) {
        double l = r.pick({0.0, -r.real(0.1, 50), r.real(0.1, 3)}) / (L * L);
        if (l > 0) s.lambdaMax = l;
        s.pde.alpha = s.pde.beta = constant(1);
        s.pde.lambda = constant(l);
        what = "lambda " + vh::shortnum(l);
    } else {
        s.pde.alpha = positive(r, s.box, what);
        s.pde.beta = positive(r, s.box, what);
        Fn l = positive(r, s.box, what);
        double sc = r.pick({0.0, 1.0, 20.0}) / (L * L);
        s.pde.lambda = [=](double x, double y) { return -sc * l(x, y); };
        what += " lambda scale " + vh::shortnum(sc);
    }
    key << (fish ? "fishpack" : "fivepoint") << " nx=" << nx << " box " << vh::shortnum(s.box.x1 - s.box.x0) << "x"
        << vh::shortnum(s.box.y1 - s.box.y0) << " coefs " << what << "; ";
    return s;
}
// Wraps a coefficient so that every point asked for is checked against the patch
static Fn watched(Case &c, Fn f, const Box &b, const char *name, long &calls) {
    double ex = 1e-9 * (std::fabs(b.x0) + std::fabs(b.x1)), ey = 1e-9 * (std::fabs(b.y0) + std::fabs(b.y1));
    return [=, &c, &calls](double x, double y) {
        calls++;
        if (x < b.x0 - ex || x > b.x1 + ex || y < b.y0 - ey || y > b.y1 + ey)
            c.violate(std::string("asked outside the patch:") + name, vh::num(x) + "," + vh::num(y));
        return f(x, y);
    };
}
static void apply(Case &c, FiniteVolumeSolver &sv, const Setting &s, long &calls) {
    sv.solver_type = s.fish ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
    sv.alpha_function = watched(c, s.pde.alpha, s.box, "alpha", calls);
    sv.beta_function = watched(c, s.pde.beta, s.box, "beta", calls);
    // the constant-coefficient solver takes its one lambda from wherever it likes
    sv.lambda_function = s.fish ? s.pde.lambda : watched(c, s.pde.lambda, s.box, "lambda", calls);
}
static FiniteVolumeGrid gridOf(const Setting &s) {
    return FiniteVolumeGrid(MPI_COMM_SELF, s.nx, s.box.x0, s.box.x1, s.nx, s.box.y0, s.box.y1);
}
static Vector<double> randomVec(Rng &r, int n, double a) { Vector<double> v((size_t)n); for (int i = 0; i < n; i++) v[i] = a * r.real(-1, 1); return v; }
static double spread(const DVec &v) { return v.empty() ? 0 : *std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end()); }

static void residualCase(Case &c) {
    Rng &r = c.rng;
    FiniteVolumeSolver solver; // one solver, several patches in a row: nothing may carry over
    int patches = r.integer(1, 3);
    std::vector<Setting> ss;
    long calls = 0;
    for (int k = 0; k < patches; k++) {
        bool fish = r.chance(0.3);
        int nx = fish ? r.pick({3, 4, 5, 6, 8, 9, 12}) : r.pick({2, 3, 4, 5, 6, 7, 8, 9, 12, 16});
        if (r.chance(0.02)) nx = r.pick({20, 31, 32, 33});
        Setting s = randomSetting(r, c.key, fish, nx);
        apply(c, solver, s, calls);
        FiniteVolumeGrid grid = gridOf(s);
        ref::Grid G{s.box, nx, nx};
        double mag = r.pick({1.0, 1.0, 1.0, 1e-13, 1e10}), quiet = r.chance(0.2) ? 0.0 : 1.0; // the equations are linear: all magnitudes are alike
        Vector<double> g = randomVec(r, 4 * nx, quiet * mag * r.pick({1.0, 1e3})), f = randomVec(r, nx * nx, mag * r.pick({0.0, 1.0, 1e3}));
        DVec g0 = toVec(g), f0 = toVec(f);
        Vector<double> u = solver.solve(grid, g, f);
        c.check((int)u.size() == nx * nx, "size");
        c.stopIfViolated();
        DVec scale, uv = toVec(u);
        DVec res = ref::fvResidual(G, s.pde, uv, g0, f0, &scale);
        double um = std::max(ref::maxAbs(uv), ref::maxAbs(g0));
        for (size_t i = 0; i < res.size(); i++) {
            c.near(res[i], 0, 1e-11 * (scale[i] * um + std::fabs(f0[i])) + 1e-300, "residual", "cell " + std::to_string(i));
            if (scale[i] * um > 0) c.maxof("largest relative residual", std::fabs(res[i]) / (scale[i] * um));
        }
        c.nearAll(toVec(g), g0, 0, "boundary data changed");
        c.nearAll(toVec(f), f0, 0, "load changed");
        Vector<double> u2 = solver.solve(grid, g, f);
        c.nearAll(toVec(u2), uv, 0, "second solve differs");
        // linearity in the data
        Vector<double> g2 = randomVec(r, 4 * nx, 1), f2 = randomVec(r, nx * nx, 1), gs(g), fs(f);
        for (size_t i = 0; i < gs.size(); i++) gs[i] = 2 * g[i] - g2[i];
        for (size_t i = 0; i < fs.size(); i++) fs[i] = 2 * f[i] - f2[i];
        Vector<double> ub = solver.solve(grid, g2, f2), us = solver.solve(grid, gs, fs);
        double m = 2 * um + ref::maxAbs(toVec(ub));
        double contrast = 0, low = 1e300;
        for (double x : scale) { contrast = std::max(contrast, x); low = std::min(low, x); }
        double tol = 1e-11 * m * std::max(1.0, contrast / low) * nx;
        for (int i = 0; i < nx * nx; i++) c.near(us[i], 2 * uv[i] - ub[i], tol, "linearity", "cell " + std::to_string(i));
        // boundary derivatives
        Vector<double> d = solver.mapD2N(grid, g, f);
        double hs = 2 / std::min(G.dx(), G.dy());
        c.nearAll(toVec(d), ref::fluxes(G, uv, g0), 1e-12 * hs * um, "boundary derivatives");
        Vector<double> zero(4 * nx, 0.0);
        Vector<double> uz = solver.solve(grid, zero, f), hpart = solver.particularNeumannData(grid, f);
        c.nearAll(toVec(hpart), ref::fluxes(G, toVec(uz), toVec(zero)), 1e-12 * hs * ref::maxAbs(toVec(uz)) + 1e-300, "homogeneous particular data");
        c.nearAll(toVec(f), f0, 0, "load changed");
        // maximum principle without a load: cells stay between the boundary extremes (and zero when lambda < 0)
        if (s.lambdaMax <= 0) {
            Vector<double> none(nx * nx, 0.0);
            DVec w = toVec(solver.solve(grid, g, none));
            double lo = std::min(0.0, *std::min_element(g0.begin(), g0.end())), hi = std::max(0.0, *std::max_element(g0.begin(), g0.end()));
            double e = 1e-10 * (hi - lo);
            for (double x : w) c.check(x >= lo - e && x <= hi + e, "maximum principle", [&] { return vh::num(x) + " outside " + vh::num(lo) + ".." + vh::num(hi); });
        }
        // a constant is reproduced when lambda vanishes
        bool zeroLambda = s.pde.lambda(s.box.x0 + 0.3 * (s.box.x1 - s.box.x0), s.box.y0 + 0.1 * (s.box.y1 - s.box.y0)) == 0;
        if (zeroLambda) {
            Vector<double> one(4 * nx, 3.5), none(nx * nx, 0.0);
            DVec w = toVec(solver.solve(grid, one, none));
            for (double x : w) c.near(x, 3.5, 1e-10 * std::max(1.0, contrast / low / 100), "constant");
        }
        c.stopIfViolated();
    }
    c.count("coefficient evaluations watched", calls);
}
static void agreeCase(Case &c) { // the two solvers on the same constants
    Rng &r = c.rng;
    int nx = r.pick({3, 4, 5, 6, 7, 8, 9, 12, 16});
    Setting s = randomSetting(r, c.key, true, nx);
    FiniteVolumeSolver a, b;
    long calls = 0;
    apply(c, a, s, calls);
    s.fish = false;
    apply(c, b, s, calls);
    FiniteVolumeGrid grid = gridOf(s);
    for (int k = 0; k < 2; k++) {
        double L = std::min(s.box.x1 - s.box.x0, s.box.y1 - s.box.y0);
        Vector<double> g = randomVec(r, 4 * nx, 1), f = randomVec(r, nx * nx, r.pick({0.0, 10.0, 10 / (L * L)}));
        int before = vt_hstcrt_calls;
        DVec ua = toVec(a.solve(grid, g, f));
        c.check(vt_hstcrt_calls == before + 1, "constant-coefficient solver not used");
        DVec ub = toVec(b.solve(grid, g, f));
        double aspect = std::max((s.box.x1 - s.box.x0) / (s.box.y1 - s.box.y0), (s.box.y1 - s.box.y0) / (s.box.x1 - s.box.x0));
        c.nearAll(ua, ub, 1e-10 * std::max(1.0, aspect) * (ref::maxAbs(ub) + 1), "solvers disagree");
        Vector<double> ha = a.particularNeumannData(grid, f), hb = b.particularNeumannData(grid, f);
        c.nearAll(toVec(ha), toVec(hb), 1e-9 * std::max(1.0, aspect) * (ref::maxAbs(toVec(hb)) + 1), "particular data disagree");
        Vector<double> da = a.mapD2N(grid, g, f), db = b.mapD2N(grid, g, f);
        c.nearAll(toVec(da), toVec(db), 1e-9 * std::max(1.0, aspect) * (ref::maxAbs(toVec(db)) + 1), "boundary derivatives disagree");
    }
    if (nx <= 6) {
        Matrix<double> Ta = a.buildD2N(grid), Tb = b.buildD2N(grid);
        c.nearAll(Ta.data(), Tb.data(), 1e-9 * (ref::maxAbs(Tb.data()) + 1), "operators disagree");
    }
}
static void orderCase(Case &c) { // one patch alone converges at second order to a smooth solution
    Rng &r = c.rng;
    Setting s = randomSetting(r, c.key, false, 8);
    s.box.y1 = s.box.y0 + r.real(0.7, 1.4) * (s.box.x1 - s.box.x0);
    double L = s.box.x1 - s.box.x0;
    // u = sin(px+..) cos(qy+..), beta = 2 + sin, alpha = 1, lambda = -1/L^2, load by hand
    double p = r.real(0.8, 2.5) / L, q = r.real(0.8, 2.5) / L, t = r.real(0, 6), bx = r.real(0.5, 1.5) / L, by = r.real(0.5, 1.5) / L;
    Fn u = [=](double x, double y) { return std::sin(p * x + t) * std::cos(q * y); };
    s.pde.alpha = constant(1);
    s.pde.beta = [=](double x, double y) { return 2 + std::sin(bx * x + by * y); };
    double lam = -1 / (L * L);
    s.pde.lambda = constant(lam);
    Fn f = [=](double x, double y) {
        double S = std::sin(p * x + t), C = std::cos(p * x + t), s2 = std::sin(q * y), c2 = std::cos(q * y), b = 2 + std::sin(bx * x + by * y),
               bc = std::cos(bx * x + by * y);
        return bx * bc * p * C * c2 + by * bc * (-q * S * s2) + b * (-(p * p + q * q) * S * c2) + lam * S * c2;
    };
    double err[2];
    for (int k = 0; k < 2; k++) {
        int nx = k ? 20 : 10;
        s.nx = nx;
        FiniteVolumeSolver sv;
        long calls = 0;
        apply(c, sv, s, calls);
        FiniteVolumeGrid grid = gridOf(s);
        ref::Grid G{s.box, nx, nx};
        Vector<double> g(4 * nx), fv(nx * nx);
        for (int i = 0; i < nx; i++) {
            g[i] = u(s.box.x0, G.y(i)); g[nx + i] = u(s.box.x1, G.y(i)); g[2 * nx + i] = u(G.x(i), s.box.y0); g[3 * nx + i] = u(G.x(i), s.box.y1);
            for (int j = 0; j < nx; j++) fv[j + i * nx] = f(G.x(i), G.y(j));
        }
        DVec w = toVec(sv.solve(grid, g, fv));
        err[k] = 0;
        for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) err[k] = std::max(err[k], std::fabs(w[j + i * nx] - u(G.x(i), G.y(j))));
    }
    c.maxof("largest error ratio fine/coarse", err[1] / err[0]);
    c.check(err[1] < 0.36 * err[0] || err[1] < 1e-5, "not second order", [&] { return vh::num(err[0]) + " then " + vh::num(err[1]); });
}
static void unequalCase(Case &c) { // patches with different cell counts in x and y
    Rng &r = c.rng;
    int nx = r.pick({3, 4, 6}), ny = r.pick({5, 8, 9});
    if (r.chance(0.5)) std::swap(nx, ny);
    Setting s = randomSetting(r, c.key, r.chance(0.3), nx);
    c.key << nx << "x" << ny;
    FiniteVolumeSolver solver;
    long calls = 0;
    apply(c, solver, s, calls);
    FiniteVolumeGrid grid(MPI_COMM_SELF, nx, s.box.x0, s.box.x1, ny, s.box.y0, s.box.y1);
    ref::Grid G{s.box, nx, ny};
    Vector<double> g = randomVec(r, 2 * (nx + ny), 1), f = randomVec(r, nx * ny, 1);
    DVec u = toVec(solver.solve(grid, g, f)), scale;
    c.check((int)u.size() == nx * ny, "unequal:size");
    c.stopIfViolated();
    DVec res = ref::fvResidual(G, s.pde, u, toVec(g), toVec(f), &scale);
    double um = std::max(ref::maxAbs(u), 1.0);
    for (size_t i = 0; i < res.size(); i++) { c.near(res[i], 0, 1e-11 * (scale[i] * um + std::fabs(f[i])), "unequal:residual"); c.stopIfViolated(); }
    Vector<double> d = solver.mapD2N(grid, g, f);
    c.nearAll(toVec(d), ref::fluxes(G, u, toVec(g)), 1e-10 * 2 / std::min(G.dx(), G.dy()) * um, "unequal:derivatives");
}

int main(int argc, char **argv) {
    int one = 1;
    Session session(one, argv);
    vh::Main m(argc, argv);
    std::cerr.setstate(std::ios::failbit);
    m.mode("C06", "residual", 1200, 20000, residualCase);
    m.mode("C06", "agree", 600, 10000, agreeCase);
    m.mode("C06", "order", 60, 600, orderCase);
    m.mode("C06x", "unequal", 40, 400, unequalCase);
    return m.run();
}
