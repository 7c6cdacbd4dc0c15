/* Reference models, written from the mathematics and independent of /repo's code.
 *
 *  - Dense: row-major dense matrix with LAPACK solve.
 *  - fvAssemble / fvGlobal: the cell-centred five-point discretisation of  alpha div(beta grad u) + lambda u = f  on
 *    a rectangle with Dirichlet data by ghost reflection (banded solve, so whole domains are affordable).
 *  - RefTree: a quadtree of patches.  Each node is eliminated by generic assembly of "every interface carries one
 *    value and one flux", with the documented coarse/fine transfer when siblings differ in resolution.
 *
 * Conventions (documented by /repo): cells index j + i*ny; boundary data W,E,S,N, each along increasing coordinate;
 * Neumann data are derivatives along the axis (du/dx on W,E; du/dy on S,N); children 0 LL, 1 LR, 2 UL, 3 UR.      */
#ifndef REF_HPP
#define REF_HPP
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

extern "C" {
void dgesv_(int *, int *, double *, int *, int *, double *, int *, int *);
void dgbsv_(int *, int *, int *, int *, double *, int *, int *, double *, int *, int *);
}

namespace ref {

using DVec = std::vector<double>;
using Fn = std::function<double(double, double)>;

struct Dense {
    int r = 0, c = 0;
    DVec a;
    Dense() {}
    Dense(int r, int c, double v = 0) : r(r), c(c), a((size_t)r * c, v) {}
    double &operator()(int i, int j) { return a[(size_t)i * c + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
};
inline Dense mul(const Dense &A, const Dense &B) {
    if (A.c != B.r) throw std::logic_error("ref::mul");
    Dense C(A.r, B.c);
    for (int i = 0; i < A.r; i++)
        for (int k = 0; k < A.c; k++) {
            double v = A(i, k);
            if (v == 0) continue;
            const double *b = &B.a[(size_t)k * B.c];
            double *c = &C.a[(size_t)i * C.c];
            for (int j = 0; j < B.c; j++) c[j] += v * b[j];
        }
    return C;
}
inline DVec mul(const Dense &A, const DVec &x) {
    if (A.c != (int)x.size()) throw std::logic_error("ref::mul vec");
    DVec y(A.r, 0.0);
    for (int i = 0; i < A.r; i++) {
        double s = 0;
        for (int j = 0; j < A.c; j++) s += A(i, j) * x[j];
        y[i] = s;
    }
    return y;
}
// Solves A X = B (B: n x m) with partial pivoting; returns X.
inline Dense solve(const Dense &A, const Dense &B) {
    int n = A.r, m = B.c, info = 0;
    if (n == 0 || m == 0) return Dense(n, m);
    DVec at((size_t)n * n), bt((size_t)n * m);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) at[(size_t)j * n + i] = A(i, j);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) bt[(size_t)j * n + i] = B(i, j);
    std::vector<int> p(n);
    dgesv_(&n, &m, at.data(), &n, p.data(), bt.data(), &n, &info);
    if (info) throw std::runtime_error("ref::solve singular");
    Dense X(n, m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) X(i, j) = bt[(size_t)j * n + i];
    return X;
}
inline DVec solve(const Dense &A, const DVec &b) {
    Dense B((int)b.size(), 1);
    B.a = b;
    return solve(A, B).a;
}
inline double maxAbs(const DVec &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

struct Pde { Fn alpha, beta, lambda, f; };

struct Box {
    double x0, x1, y0, y1;
    Box child(int k) const {
        double xm = (x0 + x1) / 2, ym = (y0 + y1) / 2;
        return {k % 2 ? xm : x0, k % 2 ? x1 : xm, k / 2 ? ym : y0, k / 2 ? y1 : ym};
    }
};
struct Grid {
    Box b; int nx, ny;
    double dx() const { return (b.x1 - b.x0) / nx; }
    double dy() const { return (b.y1 - b.y0) / ny; }
    double x(int i) const { return b.x0 + (i + 0.5) * dx(); }
    double y(int j) const { return b.y0 + (j + 0.5) * dy(); }
};
struct Stencil { double w, e, s, n, c; };
inline Stencil stencil(const Grid &g, const Pde &p, int i, int j) {
    double x = g.x(i), y = g.y(j), hx = g.dx(), hy = g.dy(), a = p.alpha(x, y);
    Stencil s;
    s.w = a * p.beta(x - hx / 2, y) / (hx * hx);
    s.e = a * p.beta(x + hx / 2, y) / (hx * hx);
    s.s = a * p.beta(x, y - hy / 2) / (hy * hy);
    s.n = a * p.beta(x, y + hy / 2) / (hy * hy);
    s.c = -(s.w + s.e + s.s + s.n) + p.lambda(x, y);
    return s;
}
// Residual of the discretisation at every cell, for cell values u, boundary data bd (WESN) and cell loads f.
inline DVec fvResidual(const Grid &g, const Pde &p, const DVec &u, const DVec &bd, const DVec &f, DVec *scale = nullptr) {
    int nx = g.nx, ny = g.ny;
    DVec r(nx * ny);
    if (scale) scale->assign(nx * ny, 0.0);
    auto U = [&](int i, int j) {
        if (i < 0) return 2 * bd[j] - u[j];
        if (i >= nx) return 2 * bd[ny + j] - u[j + (nx - 1) * ny];
        if (j < 0) return 2 * bd[2 * ny + i] - u[i * ny];
        if (j >= ny) return 2 * bd[2 * ny + nx + i] - u[ny - 1 + i * ny];
        return u[j + i * ny];
    };
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        Stencil s = stencil(g, p, i, j);
        r[j + i * ny] = s.w * U(i - 1, j) + s.e * U(i + 1, j) + s.s * U(i, j - 1) + s.n * U(i, j + 1) + s.c * U(i, j) -
                        f[j + i * ny];
        if (scale) (*scale)[j + i * ny] = std::fabs(s.w) + std::fabs(s.e) + std::fabs(s.s) + std::fabs(s.n) + std::fabs(s.c);
    }
    return r;
}
// Solves the discretisation on a rectangle for several right-hand sides (columns: boundary data + loads).
inline std::vector<DVec> fvGlobal(const Grid &g, const Pde &p, const std::vector<DVec> &bds, const std::vector<DVec> &fs) {
    int nx = g.nx, ny = g.ny, N = nx * ny, kl = ny, ku = ny, ld = 2 * kl + ku + 1, m = (int)bds.size(), info = 0;
    DVec ab((size_t)ld * N, 0.0), rhs((size_t)N * m);
    auto at = [&](int r, int c) -> double & { return ab[(size_t)c * ld + kl + ku + r - c]; };
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        int k = j + i * ny;
        Stencil s = stencil(g, p, i, j);
        double c = s.c;
        if (i > 0) at(k, k - ny) = s.w; else c -= s.w;
        if (i < nx - 1) at(k, k + ny) = s.e; else c -= s.e;
        if (j > 0) at(k, k - 1) = s.s; else c -= s.s;
        if (j < ny - 1) at(k, k + 1) = s.n; else c -= s.n;
        at(k, k) = c;
        for (int q = 0; q < m; q++) {
            const DVec &bd = bds[q];
            double f = fs[q][k];
            if (i == 0) f -= 2 * s.w * bd[j];
            if (i == nx - 1) f -= 2 * s.e * bd[ny + j];
            if (j == 0) f -= 2 * s.s * bd[2 * ny + i];
            if (j == ny - 1) f -= 2 * s.n * bd[2 * ny + nx + i];
            rhs[(size_t)q * N + k] = f;
        }
    }
    std::vector<int> piv(N);
    dgbsv_(&N, &kl, &ku, &m, ab.data(), &ld, piv.data(), rhs.data(), &N, &info);
    if (info) throw std::runtime_error("ref::fvGlobal singular");
    std::vector<DVec> out(m);
    for (int q = 0; q < m; q++) out[q].assign(rhs.begin() + (size_t)q * N, rhs.begin() + (size_t)(q + 1) * N);
    return out;
}
// Axis derivatives at the four sides (WESN) of cell values u with boundary data bd.
inline DVec fluxes(const Grid &g, const DVec &u, const DVec &bd) {
    int nx = g.nx, ny = g.ny;
    DVec h(2 * nx + 2 * ny);
    for (int j = 0; j < ny; j++) {
        h[j] = 2 * (u[j] - bd[j]) / g.dx();
        h[ny + j] = 2 * (bd[ny + j] - u[j + (nx - 1) * ny]) / g.dx();
    }
    for (int i = 0; i < nx; i++) {
        h[2 * ny + i] = 2 * (u[i * ny] - bd[2 * ny + i]) / g.dy();
        h[2 * ny + nx + i] = 2 * (bd[2 * ny + nx + i] - u[ny - 1 + i * ny]) / g.dy();
    }
    return h;
}
// Coarse value per pair of fine cells on a side: the mean.
inline Dense restrictSide(int ncoarse) {
    Dense F(ncoarse, 2 * ncoarse);
    for (int i = 0; i < ncoarse; i++) F(i, 2 * i) = F(i, 2 * i + 1) = 0.5;
    return F;
}
// Fine values from coarse ones on a side: linear between coarse centres, quadratic through three at the two ends.
inline Dense prolongSide(int nfine) {
    int nc = nfine / 2;
    Dense P(nfine, nc);
    auto lagrange = [&](int row, std::array<int, 3> nodes, double x) {
        for (int a = 0; a < 3; a++) {
            double w = 1;
            for (int b = 0; b < 3; b++) if (b != a) w *= (x - nodes[b]) / (double)(nodes[a] - nodes[b]);
            P(row, nodes[a]) += w;
        }
    };
    for (int i = 0; i < nfine; i++) {
        double x = (i + 0.5) / 2 - 0.5; // position in units of coarse cells, coarse centre k at k
        if (i == 0) lagrange(i, {0, 1, 2}, x);
        else if (i == nfine - 1) lagrange(i, {nc - 3, nc - 2, nc - 1}, x);
        else {
            int k = (int)std::floor(x);
            P(i, k) += 1 - (x - k);
            P(i, k + 1) += x - k;
        }
    }
    return P;
}
inline Dense fourSides(const Dense &A) {
    Dense B(4 * A.r, 4 * A.c);
    for (int s = 0; s < 4; s++) for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++)
        B(s * A.r + i, s * A.c + j) = A(i, j);
    return B;
}

struct RefNode {
    std::string path;
    Box box;
    int level = 0;
    std::array<std::unique_ptr<RefNode>, 4> kids;
    bool leaf() const { return !kids[0]; }
    // operator of this node at its own resolution n and as its parent uses it (nc = n halved `halvings` times)
    int n = 0, nc = 0, halvings = 0;
    Dense T, Tc, S;          // S: own boundary (8m) -> interior interface values (4m)
    DVec h, hc, w, g, u, f;   // h: particular Neumann data; w: particular interface values
    Dense Mii;               // interface system
};

struct RefTree {
    std::unique_ptr<RefNode> root;
    int nx;
    Pde pde;
    RefTree(const Box &b, int nx, const Pde &p, const std::set<std::string> &leaves) : nx(nx), pde(p) {
        root.reset(new RefNode);
        root->path = "0";
        root->box = b;
        grow(*root, leaves);
    }
    void grow(RefNode &n, const std::set<std::string> &leaves) {
        if (leaves.count(n.path)) return;
        if (n.level > 20) throw std::logic_error("RefTree: leaves do not tile");
        for (int k = 0; k < 4; k++) {
            n.kids[k].reset(new RefNode);
            n.kids[k]->path = n.path + std::to_string(k);
            n.kids[k]->box = n.box.child(k);
            n.kids[k]->level = n.level + 1;
            grow(*n.kids[k], leaves);
        }
    }
    Grid grid(const RefNode &n) const { return {n.box, nx, nx}; }
    template <class F> void eachLeaf(F fn) { eachLeaf(*root, fn); }
    template <class F> void eachLeaf(RefNode &n, F fn) {
        if (n.leaf()) { fn(n); return; }
        for (auto &k : n.kids) eachLeaf(*k, fn);
    }
    // Interface k of a family joins side `sa` of child `a` (lower/left) with side `sb` of child `b`.
    struct Iface { int a, sa, b, sb; };
    static const std::array<Iface, 4> &ifaces() {
        static const std::array<Iface, 4> v = {{{0, 3, 2, 2}, {1, 3, 3, 2}, {0, 1, 1, 0}, {2, 1, 3, 0}}};
        return v;
    }
    // Global unknown of (child, side, index): exterior 0..8m-1 (W lower half, W upper, E.., S left, S right, N..),
    // interface k at 8m + k*m.
    static int dof(int child, int side, int idx, int m) {
        for (int k = 0; k < 4; k++) {
            const Iface &f = ifaces()[k];
            if ((f.a == child && f.sa == side) || (f.b == child && f.sb == side)) return 8 * m + k * m + idx;
        }
        int half = side < 2 ? child / 2 : child % 2;
        return side * 2 * m + half * m + idx;
    }
    void build() { build(*root); }
    void build(RefNode &n) {
        if (n.leaf()) {
            n.n = nx;
            Grid g = grid(n);
            int M = 4 * nx;
            std::vector<DVec> bds(M, DVec(M, 0.0)), fs(M, DVec(nx * nx, 0.0));
            for (int k = 0; k < M; k++) bds[k][k] = 1;
            auto us = fvGlobal(g, pde, bds, fs);
            n.T = Dense(M, M);
            for (int k = 0; k < M; k++) {
                DVec h = fluxes(g, us[k], bds[k]);
                for (int r = 0; r < M; r++) n.T(r, k) = h[r];
            }
            return;
        }
        int m = 1 << 30;
        for (auto &k : n.kids) { build(*k); m = std::min(m, k->n); }
        for (auto &k : n.kids) {
            k->nc = k->n;
            k->Tc = k->T;
            k->halvings = 0;
            while (k->nc > m) {
                Dense F = fourSides(restrictSide(k->nc / 2)), P = fourSides(prolongSide(k->nc));
                k->Tc = mul(mul(F, k->Tc), P);
                k->nc /= 2;
                k->halvings++;
            }
            if (k->nc != m) throw std::logic_error("RefTree: sizes");
        }
        n.n = 2 * m;
        // flux equality on each interface: sum over its two children of (+a, -b) T_child g_child = -(h_a - h_b)
        n.Mii = Dense(4 * m, 4 * m);
        Dense Mie(4 * m, 8 * m);
        for (int q = 0; q < 4; q++) {
            const Iface &f = ifaces()[q];
            for (int pass = 0; pass < 2; pass++) {
                int c = pass ? f.b : f.a, s = pass ? f.sb : f.sa;
                double sg = pass ? -1 : 1;
                const Dense &T = n.kids[c]->Tc;
                for (int i = 0; i < m; i++) for (int s2 = 0; s2 < 4; s2++) for (int j = 0; j < m; j++) {
                    int col = dof(c, s2, j, m);
                    double v = sg * T(s * m + i, s2 * m + j);
                    if (col >= 8 * m) n.Mii(q * m + i, col - 8 * m) += v;
                    else Mie(q * m + i, col) += v;
                }
            }
        }
        for (double &v : Mie.a) v = -v;
        n.S = solve(n.Mii, Mie);
        n.T = Dense(8 * m, 8 * m);
        for (int c = 0; c < 4; c++) for (int s = 0; s < 4; s++) for (int i = 0; i < m; i++) {
            int row = dof(c, s, i, m);
            if (row >= 8 * m) continue;
            for (int s2 = 0; s2 < 4; s2++) for (int j = 0; j < m; j++) {
                int col = dof(c, s2, j, m);
                double v = n.kids[c]->Tc(s * m + i, s2 * m + j);
                if (col < 8 * m) n.T(row, col) += v;
                else for (int e = 0; e < 8 * m; e++) n.T(row, e) += v * n.S(col - 8 * m, e);
            }
        }
    }
    // fn gives the load at a cell centre
    void upwards(const Fn &f) { upwards(*root, f); }
    void upwards(RefNode &n, const Fn &f) {
        if (n.leaf()) {
            Grid g = grid(n);
            n.f.assign(nx * nx, 0.0);
            for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) n.f[j + i * nx] = f(g.x(i), g.y(j));
            DVec zero(4 * nx, 0.0);
            n.h = fluxes(g, fvGlobal(g, pde, {zero}, {n.f})[0], zero);
            return;
        }
        int m = n.n / 2;
        for (auto &k : n.kids) {
            upwards(*k, f);
            k->hc = k->h;
            for (int i = 0, s = k->n; i < k->halvings; i++, s /= 2) k->hc = mul(fourSides(restrictSide(s / 2)), k->hc);
        }
        DVec d(4 * m);
        for (int q = 0; q < 4; q++) {
            const Iface &f2 = ifaces()[q];
            for (int i = 0; i < m; i++)
                d[q * m + i] = n.kids[f2.b]->hc[f2.sb * m + i] - n.kids[f2.a]->hc[f2.sa * m + i];
        }
        n.w = solve(n.Mii, d);
        n.h.assign(8 * m, 0.0);
        for (int c = 0; c < 4; c++) for (int s = 0; s < 4; s++) for (int i = 0; i < m; i++) {
            int row = dof(c, s, i, m);
            if (row >= 8 * m) continue;
            double v = n.kids[c]->hc[s * m + i];
            for (int s2 = 0; s2 < 4; s2++) for (int j = 0; j < m; j++) {
                int col = dof(c, s2, j, m);
                if (col >= 8 * m) v += n.kids[c]->Tc(s * m + i, s2 * m + j) * n.w[col - 8 * m];
            }
            n.h[row] += v;
        }
    }
    // Root boundary values for  a u + b du/daxis = r  given at the root's boundary points (WESN)
    DVec rootDirichlet(const DVec &a, const DVec &b, const DVec &r) {
        int M = 4 * root->n;
        Dense A(M, M);
        DVec rhs(M);
        for (int i = 0; i < M; i++) {
            for (int j = 0; j < M; j++) A(i, j) = b[i] * root->T(i, j);
            A(i, i) += a[i];
            rhs[i] = r[i] - b[i] * root->h[i];
        }
        return solve(A, rhs);
    }
    void down(const DVec &g) { root->g = g; down(*root); }
    void down(RefNode &n) {
        if (n.leaf()) {
            n.u = fvGlobal(grid(n), pde, {n.g}, {n.f})[0];
            return;
        }
        DVec g = n.g;
        int m = n.n / 2;
        // n.g is at resolution n.n (its own); g arrives already prolonged by the parent
        DVec gi = mul(n.S, g);
        for (int i = 0; i < 4 * m; i++) gi[i] += n.w[i];
        for (int c = 0; c < 4; c++) {
            RefNode &k = *n.kids[c];
            DVec kg(4 * m);
            for (int s = 0; s < 4; s++) for (int i = 0; i < m; i++) {
                int q = dof(c, s, i, m);
                kg[s * m + i] = q < 8 * m ? g[q] : gi[q - 8 * m];
            }
            for (int s = m; s < k.n; s *= 2) kg = mul(fourSides(prolongSide(2 * s)), kg);
            k.g = kg;
            down(k);
        }
    }
    Grid rootGrid() const { return {root->box, root->n, root->n}; }
};

// The leaves that refining where `want(box)` holds, between the levels, and then closing under corner 2:1 balance
// must produce (minimal closure), as paths.
inline std::set<std::string> refineLeaves(const Box &domain, int minl, int maxl,
                                          const std::function<bool(const Box &)> &want) {
    std::map<std::pair<int, std::pair<int, int>>, std::string> leaves; // (level,(ix,iy)) -> path
    std::function<void(const Box &, int, int, int, const std::string &)> go = [&](const Box &b, int l, int ix, int iy,
                                                                                 const std::string &p) {
        if (l < minl || (l < maxl && want(b))) {
            for (int k = 0; k < 4; k++)
                go(b.child(k), l + 1, 2 * ix + k % 2, 2 * iy + k / 2, p + std::to_string(k));
        } else leaves[{l, {ix, iy}}] = p;
    };
    go(domain, 0, 0, 0, "0");
    bool again = true;
    while (again) {
        again = false;
        auto now = leaves;
        for (auto &[key, path] : now) {
            int l = key.first, ix = key.second.first, iy = key.second.second;
            for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
                int jx = ix + dx, jy = iy + dy;
                if (jx < 0 || jy < 0 || jx >= (1 << l) || jy >= (1 << l)) continue;
                for (int a = l - 2; a >= 0; a--) { // a leaf two or more levels coarser next to this one: split it
                    auto it = leaves.find({a, {jx >> (l - a), jy >> (l - a)}});
                    if (it == leaves.end()) continue;
                    auto [k2, p2] = *it;
                    leaves.erase(it);
                    for (int k = 0; k < 4; k++)
                        leaves[{k2.first + 1, {2 * k2.second.first + k % 2, 2 * k2.second.second + k / 2}}] =
                            p2 + std::to_string(k);
                    again = true;
                    break;
                }
            }
        }
    }
    std::set<std::string> out;
    for (auto &[k, p] : leaves) out.insert(p);
    return out;
}

} // namespace ref
#endif
