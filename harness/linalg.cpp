/* C14 vectors, C15 matrices, C16 rejection of invalid use, C17 grid transfers and interpolation.
 * Oracle: the textbook definitions, written on std::vector; element types double, float and int. */
#include <EllipticForest.hpp>
#include <Interpolation.hpp>
#include <SpecialMatrices.hpp>
#include <algorithm>
#include <iostream>
#include <numeric>
#include "vh.hpp"

using namespace EllipticForest;
using vh::Case;
using vh::Rng;

template <class T> T value(Rng &r) {
    if constexpr (std::is_integral_v<T>) return (T)r.integer(-1000, 1000);
    else {
        double m = r.pick({1e-8, 1.0, 1.0, 1.0, 1e8});
        double v = r.real(-1, 1) * m;
        if (r.chance(0.05)) v = 0;
        return (T)v;
    }
}
template <class T> std::vector<T> values(Rng &r, size_t n) {
    std::vector<T> v(n);
    for (auto &x : v) x = value<T>(r);
    return v;
}
// now and then far larger, around the powers of two
inline int large(Rng &r) { return r.pick({63, 64, 65, 100, 127, 128, 129, 256, 257, 511, 513, 1000, 1024, 1025, 2050}); }
inline int randomSize(Rng &r) { return r.chance(0.03) ? large(r) : r.pick({0, 1, 2, 3, 5, 8, 13, r.integer(1, 40), r.integer(1, 40), r.integer(1, 40)}); }
template <class T> double eps() { return std::is_integral_v<T> ? 0 : std::numeric_limits<T>::epsilon(); }
inline std::vector<int> permutation(Rng &r, int n) {
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.integer(0, i)]);
    return p;
}
inline std::vector<int> blockSizes(Rng &r, int n) { // sizes adding up to n, some of them zero
    std::vector<int> s;
    while (n > 0) {
        int k = r.integer(0, std::max(1, n / 2 + 1));
        if (k > n) k = n;
        s.push_back(k);
        n -= k;
    }
    if (s.empty()) s.push_back(0);
    return s;
}

// ---------------------------------------------------------------------------------------------------- C14
template <class T> struct VecModel { Vector<T> v; std::vector<T> m; };

template <class T> void same(Case &c, const Vector<T> &got, const std::vector<T> &want, const std::string &sig) {
    c.check(got.size() == got.data().size(), sig + ":inner-size", [&] { return std::to_string(got.size()) + " " + std::to_string(got.data().size()); });
    c.nearAll(got.data(), want, 0, sig);
}
template <class T> void vectorCase(Case &c) {
    Rng &r = c.rng;
    int n = randomSize(r);
    c.key << "n=" << n << " type " << sizeof(T) << std::is_integral_v<T> << ";";
    c.nontrivial = n > 0;
    std::vector<T> m = values<T>(r, n);
    Vector<T> v;
    switch (r.integer(0, 3)) {
    case 0: v = Vector<T>(m); break;
    case 1: { Vector<T> w(n); for (int i = 0; i < n; i++) w[i] = m[i]; v = w; break; }
    case 2: { T k = value<T>(r); v = Vector<T>((size_t)n, k); m.assign(n, k); break; }
    case 3: { T a = value<T>(r), b = value<T>(r); v = Vector<T>({a, b}); m = {a, b}; n = 2; break; }
    }
    same(c, v, m, "construct");
    { Vector<T> z((size_t)n); same(c, z, std::vector<T>(n, T(0)), "construct-zero"); }
    auto peer = [&](int k) { VecModel<T> p; p.m = values<T>(r, k); p.v = Vector<T>(p.m); return p; };
    for (int step = 0; step < 12; step++) {
        int op = r.integer(0, 20);
        c.key << op << ",";
        n = (int)m.size();
        c.count("vector operations");
        if (std::any_of(m.begin(), m.end(), [](T x) { return std::fabs((double)x) > 1e30; })) break; // about to overflow
        if (op == 0 && n) { // element access, all forms, read and write
            int i = r.integer(0, n - 1);
            c.check(v.getEntry(i) == m[i] && v[i] == m[i] && v(i) == m[i] && const_cast<const Vector<T> &>(v)[i] == m[i] &&
                        v.dataPointer()[i] == m[i], "access");
            T x = value<T>(r), y = value<T>(r), z = value<T>(r);
            v[i] = x; c.check(v.getEntry(i) == x, "write[]");
            v(i) = y; c.check(v.getEntry(i) == y, "write()");
            v.dataNoConst()[i] = z; c.check(v.getEntry(i) == z, "writeData");
            m[i] = z;
        } else if (op == 1 && n) {
            int a = r.integer(0, n - 1), b = r.integer(a, n - 1);
            std::vector<T> want(m.begin() + a, m.begin() + b + 1);
            same(c, v.getRange(a, b), want, "getRange");
            same(c, v((size_t)a, (size_t)b), want, "range()");
        } else if (op == 2) {
            int a = r.integer(0, n), k = r.integer(0, n - a);
            same(c, v.getSegment(a, k), std::vector<T>(m.begin() + a, m.begin() + a + k), "getSegment");
        } else if (op == 3) {
            int a = r.integer(0, n), k = r.integer(0, n - a);
            auto p = peer(k);
            v.setSegment(a, p.v);
            std::copy(p.m.begin(), p.m.end(), m.begin() + a);
            same(c, p.v, p.m, "setSegment-operand");
        } else if (op == 4 && n < 200) {
            auto p = peer(randomSize(r));
            v.append(p.v);
            m.insert(m.end(), p.m.begin(), p.m.end());
            same(c, p.v, p.m, "append-operand");
        } else if (op == 5) {
            auto p = permutation(r, n);
            p.resize(r.integer(0, n));
            for (auto &i : p) if (r.chance(0.2)) i = r.integer(0, n - 1); // repeated indices too
            std::vector<T> want;
            for (int i : p) want.push_back(m[i]);
            Vector<int> I(p);
            same(c, v.getFromIndexSet(I), want, "indexSet");
            same(c, v(I), want, "indexSet()");
        } else if (op == 6) {
            auto s = blockSizes(r, n);
            auto p = permutation(r, (int)s.size());
            std::vector<T> want;
            for (int b : p) {
                int off = std::accumulate(s.begin(), s.begin() + b, 0);
                want.insert(want.end(), m.begin() + off, m.begin() + off + s[b]);
            }
            same(c, v.blockPermute(Vector<int>(p), Vector<int>(s)), want, "blockPermute");
        } else if (op == 7) {
            auto p = peer(n);
            std::vector<T> s(n), d(n);
            for (int i = 0; i < n; i++) { s[i] = m[i] + p.m[i]; d[i] = m[i] - p.m[i]; }
            same(c, v + p.v, s, "v+w");
            same(c, v - p.v, d, "v-w");
            same(c, p.v, p.m, "v+-w-operand");
        } else if (op == 8) {
            auto p = peer(n);
            if (r.chance(0.5)) { v += p.v; for (int i = 0; i < n; i++) m[i] += p.m[i]; }
            else { v -= p.v; for (int i = 0; i < n; i++) m[i] -= p.m[i]; }
            same(c, p.v, p.m, "v+=w-operand");
        } else if (op == 9) {
            T k = value<T>(r);
            std::vector<T> s(n), d(n);
            for (int i = 0; i < n; i++) { s[i] = m[i] + k; d[i] = m[i] - k; }
            same(c, v + k, s, "v+k");
            same(c, v - k, d, "v-k");
        } else if (op == 10) {
            T k = value<T>(r);
            if (r.chance(0.5)) { v += k; for (auto &x : m) x += k; }
            else { v -= k; for (auto &x : m) x -= k; }
        } else if (op == 11) {
            T k = (T)(std::is_integral_v<T> ? r.integer(-2, 2) : r.real(-2, 2));
            std::vector<T> w(n);
            for (int i = 0; i < n; i++) w[i] = k * m[i];
            same(c, k * v, w, "k*v");
            bool small = true;
            for (auto x : m) small = small && std::fabs((double)x) < 1e8;
            if (small) { v *= k; m = w; }
        } else if (op == 12) {
            T k = (T)(std::is_integral_v<T> ? r.pick({-3, 2, 7}) : (T)r.pick({-0.3, 2.0, 7.7}));
            v /= k;
            for (auto &x : m) x /= k;
        } else if (op == 13) {
            std::vector<T> w(n);
            for (int i = 0; i < n; i++) w[i] = -m[i];
            same(c, -v, w, "-v");
        } else if (op == 14) {
            auto p = peer(n);
            bool small = true;
            for (auto x : m) small = small && std::fabs((double)x) < 1e6;
            if (std::is_integral_v<T> && !small) continue;
            double want = 0, mag = 0;
            for (int i = 0; i < n; i++) { want += (double)m[i] * p.m[i]; mag += std::fabs((double)m[i] * p.m[i]); }
            if (std::is_integral_v<T> && mag > 1e9) continue;
            T got = v * p.v;
            c.near((double)got, want, eps<T>() * (n + 4) * mag + 1e-300, "dot");
            same(c, p.v, p.m, "dot-operand");
        } else if (op == 15) {
            auto p = peer(n);
            std::vector<T> prod(n), quo(n);
            bool fits = true;
            for (int i = 0; i < n; i++) {
                if (p.m[i] == T(0)) { p.m[i] = T(3); p.v[i] = T(3); }
                fits = fits && std::fabs((double)m[i] * p.m[i]) < 1e9;
            }
            if (std::is_integral_v<T> && !fits) continue;
            for (int i = 0; i < n; i++) { prod[i] = m[i] * p.m[i]; quo[i] = m[i] / p.m[i]; }
            same(c, EllipticForest::operator*<T>(v, p.v), prod, "entrywise*");
            same(c, v / p.v, quo, "entrywise/");
            same(c, p.v, p.m, "entrywise-operand");
        } else if (op == 16) {
            auto p = peer(n);
            double inf = 0, two = 0;
            for (int i = 0; i < n; i++) { double d = (double)(T)(m[i] - p.m[i]); inf = std::max(inf, std::fabs(d)); two += d * d; }
            c.near(vectorInfNorm(v, p.v), inf, 0, "infNorm");
            c.near(vectorL2Norm(v, p.v), std::sqrt(two), 1e-14 * (n + 4) * std::sqrt(two), "l2Norm");
            c.near(vectorInfNorm(v, v), 0, 0, "infNorm-self");
            same(c, p.v, p.m, "norm-operand");
        } else if (op == 17) {
            int k = r.integer(0, 4);
            std::vector<Vector<T>> parts;
            std::vector<T> want;
            for (int i = 0; i < k; i++) { auto p = peer(randomSize(r)); parts.push_back(p.v); want.insert(want.end(), p.m.begin(), p.m.end()); }
            same(c, concatenate(parts), want, "concatenate");
            std::vector<T> w2 = m;
            auto p = peer(randomSize(r));
            w2.insert(w2.end(), p.m.begin(), p.m.end());
            w2.insert(w2.end(), m.begin(), m.end());
            same(c, concatenate({v, p.v, v}), w2, "concatenate-list");
        } else if (op == 18 && n) {
            double lo = *std::min_element(m.begin(), m.end()), hi = *std::max_element(m.begin(), m.end());
            double tol = std::is_integral_v<T> ? 0 : 1.0;
            c.near(std::stod(v.getRangeMin()), lo, tol * (1e-6 + 1e-5 * std::fabs(lo)), "rangeMin");
            c.near(std::stod(v.getRangeMax()), hi, tol * (1e-6 + 1e-5 * std::fabs(hi)), "rangeMax");
        } else if (op == 19) { // copies are independent
            Vector<T> w(v), u;
            u = v;
            const Vector<T> &cr = v;
            Vector<T> x(cr);
            for (int i = 0; i < n; i++) { w[i] = T(1); u[i] = T(2); x[i] = T(5); }
            u = u;
            same(c, u, std::vector<T>(n, T(2)), "self-assign");
        } else if (op == 20 && n && n < 200) { // the vector as its own operand
            int i = r.integer(0, n - 1);
            T k = m[i];
            bool small = true;
            for (auto x : m) small = small && std::fabs((double)x) < 3e4;
            switch (r.integer(0, 8)) {
            case 4: if (small) { v += v; for (auto &x : m) x += x; } break;
            case 5: v += v[i]; for (auto &x : m) x += k; break;   // an entry of the vector as the scalar
            case 6: v -= v[i]; for (auto &x : m) x -= k; break;
            case 7: if (small) { v *= v[i]; for (auto &x : m) x *= k; } break;
            case 8: if (k != T(0)) { v /= v[i]; for (auto &x : m) x /= k; } break;
            case 0: v.append(v); { auto k = m; m.insert(m.end(), k.begin(), k.end()); } break;
            case 1: v -= v; for (auto &x : m) x -= x; break;
            case 2: v.setSegment(0, v); break;
            case 3: { std::vector<T> z(n); for (int i = 0; i < n; i++) z[i] = m[i] - m[i]; same(c, v - v, z, "v-v"); } break;
            }
        }
        same(c, v, m, "state after op " + std::to_string(op));
        c.stopIfViolated();
    }
}
void rangeCase(Case &c) {
    Rng &r = c.rng;
    int a = r.integer(-30, 30), b = r.integer(a - 1, a + 60);
    c.key << a << ".." << b;
    std::vector<int> want;
    for (int i = a; i <= b; i++) want.push_back(i);
    c.nearAll(vectorRange(a, b).data(), want, 0, "vectorRange");
}

// ---------------------------------------------------------------------------------------------------- C15
template <class T> struct M { // the definition: rows of a plain array
    int r = 0, c = 0;
    std::vector<T> d;
    M() {}
    M(int r, int c) : r(r), c(c), d((size_t)r * c) {}
    T &operator()(int i, int j) { return d[(size_t)i * c + j]; }
    T operator()(int i, int j) const { return d[(size_t)i * c + j]; }
    Matrix<T> mat() const { return Matrix<T>(r, c, d); }
};
template <class T> M<T> randomM(Rng &rng, int r, int c) {
    M<T> m(r, c);
    for (auto &x : m.d) x = value<T>(rng);
    return m;
}
template <class T> void same(Case &c, Matrix<T> got, const M<T> &want, const std::string &sig, double tol = 0) {
    c.check((int)got.nrows() == want.r && (int)got.ncols() == want.c && got.nRows() == got.nrows() && got.nCols() == got.ncols(),
            sig + ":shape", [&] {
                return std::to_string(got.nrows()) + "x" + std::to_string(got.ncols()) + " want " + std::to_string(want.r) + "x" +
                       std::to_string(want.c);
            });
    c.nearAll(got.data(), want.d, tol, sig);
}
inline int dim(Rng &r) { return r.chance(0.015) ? r.pick({31, 32, 33, 48, 63, 64, 65, 80, 100, 128, 130}) : r.pick({1, 2, 3, 4, r.integer(1, 16), r.integer(1, 16)}); }

template <class T> void matrixCase(Case &c) {
    Rng &r = c.rng;
    int nr = dim(r), nc = r.chance(0.3) ? nr : dim(r);
    M<T> m = randomM<T>(r, nr, nc);
    Matrix<T> A;
    c.key << nr << "x" << nc << " type " << sizeof(T) << std::is_integral_v<T> << ";";
    c.nontrivial = nr * nc > 1;
    switch (r.integer(0, 3)) {
    case 0: A = m.mat(); break;
    case 1: { Matrix<T> B(nr, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) B(i, j) = m(i, j); A = B; break; }
    case 2: { T k = value<T>(r); A = Matrix<T>(nr, nc, k); for (auto &x : m.d) x = k; break; }
    case 3: { Matrix<T> B(m.mat()); A = B; B(0, 0) = B(0, 0) + T(1); break; }
    }
    same(c, A, m, "construct");
    for (int step = 0; step < 10; step++) {
        int op = r.integer(0, 15);
        c.key << op << ",";
        c.count("matrix operations");
        if (op == 0) {
            int i = r.integer(0, nr - 1), j = r.integer(0, nc - 1);
            c.check(A(i, j) == m(i, j) && A.getEntry(i, j) == m(i, j) && A.dataPointer()[i * nc + j] == m(i, j), "access");
            T x = value<T>(r);
            A(i, j) = x;
            m(i, j) = x;
        } else if (op == 1) {
            int i = r.integer(0, nr - 1);
            std::vector<T> want;
            for (int j = 0; j < nc; j++) want.push_back(m(i, j));
            c.nearAll(A.getRow(i).data(), want, 0, "getRow");
        } else if (op == 2) {
            int j = r.integer(0, nc - 1);
            std::vector<T> want;
            for (int i = 0; i < nr; i++) want.push_back(m(i, j));
            c.nearAll(A.getCol(j).data(), want, 0, "getCol");
        } else if (op == 3) {
            int a = r.integer(0, nr - 1), b = r.integer(a, nr - 1), e = r.integer(0, nc - 1), f = r.integer(e, nc - 1);
            M<T> w(b - a + 1, f - e + 1);
            for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) w(i, j) = m(a + i, e + j);
            same(c, A(a, b, e, f), w, "range");
            same(c, A.getBlock(a, e, w.r, w.c), w, "getBlock");
        } else if (op == 4) {
            auto I = permutation(r, nr), J = permutation(r, nc);
            I.resize(r.integer(1, nr)); J.resize(r.integer(1, nc));
            if (r.chance(0.3)) for (auto &i : I) i = r.integer(0, nr - 1);
            M<T> w((int)I.size(), (int)J.size());
            for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) w(i, j) = m(I[i], J[j]);
            same(c, A.getFromIndexSet(Vector<int>(I), Vector<int>(J)), w, "indexSet");
            same(c, A(Vector<int>(I), Vector<int>(J)), w, "indexSet()");
        } else if (op == 5) {
            if (r.chance(0.5)) {
                int i = r.integer(0, nr - 1);
                auto d = values<T>(r, nc);
                Vector<T> v(d);
                A.setRow(i, v);
                for (int j = 0; j < nc; j++) m(i, j) = d[j];
                c.nearAll(v.data(), d, 0, "setRow-operand");
            } else {
                int j = r.integer(0, nc - 1);
                auto d = values<T>(r, nr);
                Vector<T> v(d);
                A.setColumn(j, v);
                for (int i = 0; i < nr; i++) m(i, j) = d[i];
                c.nearAll(v.data(), d, 0, "setColumn-operand");
            }
        } else if (op == 6) {
            int a = r.integer(0, nr - 1), e = r.integer(0, nc - 1);
            M<T> w = randomM<T>(r, r.integer(1, nr - a), r.integer(1, nc - e));
            Matrix<T> W = w.mat();
            A.setBlock(a, e, W);
            for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) m(a + i, e + j) = w(i, j);
            same(c, W, w, "setBlock-operand");
        } else if (op == 7) {
            auto R = blockSizes(r, nr), C = blockSizes(r, nc);
            auto I = permutation(r, (int)R.size()), J = permutation(r, (int)C.size());
            std::vector<int> gi, gj;
            for (int b : I) { int o = std::accumulate(R.begin(), R.begin() + b, 0); for (int k = 0; k < R[b]; k++) gi.push_back(o + k); }
            for (int b : J) { int o = std::accumulate(C.begin(), C.begin() + b, 0); for (int k = 0; k < C[b]; k++) gj.push_back(o + k); }
            M<T> w(nr, nc);
            for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w(i, j) = m(gi[i], gj[j]);
            same(c, A.blockPermute(Vector<int>(I), Vector<int>(J), Vector<int>(R), Vector<int>(C)), w, "blockPermute");
        } else if (op == 8) {
            M<T> w(nc, nr);
            for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w(j, i) = m(i, j);
            same(c, A.T(), w, "transpose");
        } else if (op == 9) {
            M<T> p = randomM<T>(r, nr, nc), s(nr, nc), d(nr, nc);
            Matrix<T> P = p.mat();
            for (size_t i = 0; i < m.d.size(); i++) { s.d[i] = m.d[i] + p.d[i]; d.d[i] = m.d[i] - p.d[i]; }
            same(c, A + P, s, "A+B");
            same(c, A - P, d, "A-B");
            if (r.chance(0.5)) { A += P; m = s; } else { A -= P; m = d; }
            same(c, P, p, "A+-B-operand");
        } else if (op == 10) {
            T k = value<T>(r);
            if (r.chance(0.5)) { A += k; for (auto &x : m.d) x += k; } else { A -= k; for (auto &x : m.d) x -= k; }
        } else if (op == 11) {
            T k = (T)(std::is_integral_v<T> ? r.integer(-2, 2) : r.real(-2, 2));
            bool small = true;
            for (auto x : m.d) small = small && std::fabs((double)x) < 1e8;
            if (!small) continue;
            M<T> w = m;
            for (auto &x : w.d) x = k * x;
            same(c, k * A, w, "k*A");
            if (r.chance(0.7)) { A *= k; m = w; }
        } else if (op == 12) {
            M<T> w = m;
            for (auto &x : w.d) x = -x;
            same(c, -A, w, "-A");
        } else if (op == 13) {
            M<T> p = randomM<T>(r, nr, nc);
            Matrix<T> P = p.mat();
            double inf = 0;
            for (size_t i = 0; i < m.d.size(); i++) inf = std::max(inf, std::fabs((double)(T)(m.d[i] - p.d[i])));
            c.near(matrixInfNorm(A, P), inf, 0, "infNorm");
        } else if (op == 14) {
            Matrix<T> B(A), D;
            D = A;
            B(0, 0) = T(77); D(nr - 1, nc - 1) = T(78);
            D = D;
            c.check(D(nr - 1, nc - 1) == T(78), "self-assign");
        } else if (op == 15) { // the matrix, or an entry of it, as the operand
            T k = m(nr / 2, nc / 2);
            bool small = true;
            for (auto x : m.d) small = small && std::fabs((double)x) < 3e4;
            switch (r.integer(0, 5)) {
            case 0: if (small) { A += A; for (auto &x : m.d) x += x; } break;
            case 1: A -= A; for (auto &x : m.d) x -= x; break;
            case 2: A += A(nr / 2, nc / 2); for (auto &x : m.d) x += k; break;
            case 3: A -= A(nr / 2, nc / 2); for (auto &x : m.d) x -= k; break;
            case 4: if (small) { A *= A(nr / 2, nc / 2); for (auto &x : m.d) x *= k; } break;
            case 5: A.setBlock(0, 0, A); break;
            }
        }
        same(c, A, m, "state after op " + std::to_string(op));
        c.stopIfViolated();
    }
}
void productCase(Case &c) {
    Rng &r = c.rng;
    int a = dim(r), b = dim(r), d = dim(r);
    c.key << a << "x" << b << " * " << b << "x" << d;
    c.nontrivial = a * b * d > 1;
    auto fill = [&](int i, int j) { M<double> m(i, j); for (auto &x : m.d) x = r.real(-2, 2); return m; };
    M<double> ma = fill(a, b), mb = fill(b, d), want(a, d);
    std::vector<double> x(b), y(a);
    for (auto &v : x) v = r.real(-2, 2);
    for (int i = 0; i < a; i++) {
        for (int k = 0; k < b; k++) { y[i] += ma(i, k) * x[k]; for (int j = 0; j < d; j++) want(i, j) += ma(i, k) * mb(k, j); }
    }
    Matrix<double> A = ma.mat(), B = mb.mat();
    Vector<double> X(x);
    double tol = 1e-14 * (b + 2) * 8;
    same(c, A * B, want, "A*B", tol);
    c.nearAll((A * X).data(), y, tol, "A*x");
    same(c, A, ma, "product-left-operand");
    same(c, B, mb, "product-right-operand");
    c.nearAll(X.data(), x, 0, "product-vector-operand");
    if (a == b) { // an operand used twice
        M<double> sq(a, a);
        for (int i = 0; i < a; i++) for (int k = 0; k < a; k++) for (int j = 0; j < a; j++) sq(i, j) += ma(i, k) * ma(k, j);
        same(c, A * A, sq, "A*A", tol);
    }
}
void solveCase(Case &c) {
    Rng &r = c.rng;
    int n = dim(r), k = dim(r);
    c.key << n << " unknowns, " << k << " right-hand sides";
    c.nontrivial = n > 1;
    // well conditioned and not symmetric, sometimes needing row exchanges: a permuted, scaled, diagonally dominant matrix
    M<double> m(n, n);
    auto p = permutation(r, n);
    double s = r.pick({1.0, 1.0, 1e-6, 1e6, 1e-14, 1e-40, 1e30});
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        m(i, j) = s * (j == p[i] ? r.pick({-1, 1}) * (n + r.real(0.1, 2)) : r.real(-1, 1));
    M<double> b(n, k);
    for (auto &x : b.d) x = r.real(-3, 3);
    Matrix<double> A = m.mat(), B = b.mat();
    Matrix<double> X = solve(A, B);
    c.check((int)X.nrows() == n && (int)X.ncols() == k, "solve:shape");
    c.stopIfViolated();
    for (int j = 0; j < k; j++) {
        Vector<double> rhs(n);
        for (int i = 0; i < n; i++) rhs[i] = b(i, j);
        Vector<double> x = solve(A, rhs);
        for (int i = 0; i < n; i++) {
            double one = -b(i, j), many = -b(i, j);
            for (int l = 0; l < n; l++) { one += m(i, l) * x[l]; many += m(i, l) * X(l, j); }
            c.near(one, 0, 1e-12 * (n + 1), "solve-residual");
            c.near(many, 0, 1e-12 * (n + 1), "solve-many-residual");
            c.near(rhs[i], b(i, j), 0, "solve-rhs-operand");
        }
    }
    same(c, A, m, "solve-matrix-operand");
    same(c, B, b, "solve-many-operand");
}
void specialCase(Case &c) {
    Rng &r = c.rng;
    int k = r.integer(1, 5), rows = 0, cols = 0;
    std::vector<Matrix<double>> parts;
    std::vector<M<double>> ms;
    for (int i = 0; i < k; i++) {
        M<double> m = randomM<double>(r, dim(r), dim(r));
        ms.push_back(m);
        parts.push_back(m.mat());
        rows += m.r; cols += m.c;
        c.key << m.r << "x" << m.c << " ";
    }
    M<double> want(rows, cols);
    int ro = 0, co = 0;
    for (auto &m : ms) {
        for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) want(ro + i, co + j) = m(i, j);
        ro += m.r; co += m.c;
    }
    same(c, blockDiagonalMatrix(parts), want, "blockDiagonal");
    int n = dim(r);
    M<double> id(n, n), dg(n, n);
    auto d = values<double>(r, n);
    for (int i = 0; i < n; i++) { id(i, i) = 1; dg(i, i) = d[i]; }
    same<double>(c, IdentityMatrix<double>(n), id, "identity");
    same<double>(c, DiagonalMatrix<double>(Vector<double>(d)), dg, "diagonal");
}

// ---------------------------------------------------------------------------------------------------- C16
template <class T> void badVector(Case &c) {
    Rng &r = c.rng;
    int n = randomSize(r);
    auto m = values<T>(r, n);
    Vector<T> v(m);
    c.key << "n=" << n << ";";
    auto reject = [&](const std::string &sig, std::function<void()> f) {
        c.throws<std::exception>(f, "accepted:" + sig, "n=" + std::to_string(n));
        c.nearAll(v.data(), m, 0, "changed-by:" + sig);
        c.check(v.size() == m.size(), "size-changed-by:" + sig);
    };
    const Vector<T> &cv = v;
    volatile T sink;
    for (int step = 0; step < 10 && !c.violations; step++) {
        int op = r.integer(0, 16);
        // just past the end, a bit further, far away, negative
        size_t out = r.pick<size_t>({(size_t)n, (size_t)n, (size_t)n + 1, (size_t)n + r.integer(1, 50), (size_t)-1, (size_t)-r.integer(1, 9)});
        c.key << op << "@" << (long)(out - n) << ",";
        switch (op) {
        case 0: reject("getEntry", [&] { sink = v.getEntry(out); }); break;
        case 1: reject("operator[]", [&] { sink = v[out]; }); break;
        case 2: reject("const operator[]", [&] { sink = cv[out]; }); break;
        case 3: reject("operator()", [&] { sink = v(out); }); break;
        case 4: reject("write", [&] { v[out] = T(9); }); break;
        case 5: { size_t a = n ? r.integer(0, n - 1) : 0; reject("getRange", [&] { v.getRange(a, out); }); reject("range()", [&] { v(a, out); }); break; }
        case 6: if (n > 2) { size_t a = r.integer(2, n - 1), b = r.integer(0, (int)a - 2);
                    reject("reversed getRange", [&] { v.getRange(a, b); }); reject("reversed range()", [&] { v(a, b); }); } break;
        case 7: { size_t a = r.integer(0, n); size_t k = n - a + r.integer(1, 9); reject("getSegment", [&] { v.getSegment(a, k); }); break; }
        case 8: reject("getSegment start", [&] { v.getSegment(out, r.pick({1, 2, 5, 20})); }); break;
        case 9: { size_t a = r.integer(0, n); Vector<T> w(n - a + r.integer(1, 9), T(1)); reject("setSegment", [&] { v.setSegment(a, w); }); break; }
        case 10: { Vector<T> w((size_t)r.integer(1, 9), T(1)); reject("setSegment start", [&] { v.setSegment(out, w); }); break; }
        case 11: if (n) {
                auto p = permutation(r, n);
                p[r.integer(0, n - 1)] = r.pick({n, n, n + 1, n + 7, -1, -5});
                reject("indexSet", [&] { v.getFromIndexSet(Vector<int>(p)); });
                reject("indexSet()", [&] { v(Vector<int>(p)); });
            } break;
        case 12: { auto s = blockSizes(r, n); auto p = permutation(r, (int)s.size()); s[r.integer(0, (int)s.size() - 1)] += r.integer(1, 5);
                reject("blockPermute sizes", [&] { v.blockPermute(Vector<int>(p), Vector<int>(s)); }); break; }
        case 13: if (n) { auto s = blockSizes(r, n); auto p = permutation(r, (int)s.size());
                p[r.integer(0, (int)p.size() - 1)] = (int)s.size() + r.integer(0, 3);
                reject("blockPermute block", [&] { v.blockPermute(Vector<int>(p), Vector<int>(s)); }); } break;
        case 14: { Vector<T> w((size_t)(n + r.integer(1, 5)), T(1)), u((size_t)(n ? r.integer(0, n - 1) : 3), T(1));
                for (auto *o : {&w, &u}) {
                    reject("+=", [&] { v += *o; }); reject("-=", [&] { v -= *o; }); reject("+", [&] { v + *o; }); reject("-", [&] { v - *o; });
                } break; }
        case 15: { Vector<T> w((size_t)(n + r.pick({1, 3})), T(1));
                reject("dot", [&] { sink = v * w; }); reject("dot swapped", [&] { sink = w * v; });
                reject("entrywise*", [&] { EllipticForest::operator*<T>(v, w); }); reject("entrywise/", [&] { v / w; }); break; }
        case 16: { Vector<T> w((size_t)(n + r.pick({1, 3})), T(1));
                reject("infNorm", [&] { vectorInfNorm(v, w); }); reject("infNorm swapped", [&] { vectorInfNorm(w, v); });
                reject("l2Norm", [&] { vectorL2Norm(v, w); }); reject("l2Norm swapped", [&] { vectorL2Norm(w, v); }); break; }
        }
    }
}
void badMatrix(Case &c) {
    using T = double;
    Rng &r = c.rng;
    int nr = dim(r), nc = dim(r);
    M<T> m = randomM<T>(r, nr, nc);
    Matrix<T> A = m.mat();
    c.key << nr << "x" << nc << ";";
    auto reject = [&](const std::string &sig, std::function<void()> f) {
        c.throws<std::exception>(f, "accepted:" + sig, std::to_string(nr) + "x" + std::to_string(nc));
        same(c, A, m, "changed-by:" + sig);
    };
    volatile T sink;
    for (int step = 0; step < 10 && !c.violations; step++) {
        int op = r.integer(0, 17);
        auto past = [&](int n) { return r.pick<size_t>({(size_t)n, (size_t)n, (size_t)n + 1, (size_t)n + 13, (size_t)-1, (size_t)-2}); };
        size_t bi = past(nr), bj = past(nc), i = r.integer(0, nr - 1), j = r.integer(0, nc - 1);
        c.key << op << ",";
        switch (op) {
        case 0: reject("row index", [&] { sink = A(bi, j); }); reject("getEntry row", [&] { sink = A.getEntry(bi, j); }); break;
        case 1: reject("column index", [&] { sink = A(i, bj); }); reject("getEntry column", [&] { sink = A.getEntry(i, bj); }); break;
        case 2: reject("write row", [&] { A(bi, j) = 3; }); reject("write column", [&] { A(i, bj) = 3; }); break;
        case 3: reject("getRow", [&] { A.getRow(bi); }); reject("getCol", [&] { A.getCol(bj); }); break;
        case 4: if (bi < 1000) reject("range rows", [&] { A(i, bi, 0, j); }); if (bj < 1000) reject("range columns", [&] { A(0, i, j, bj); }); break;
        case 5: if (nr > 2) { size_t a = r.integer(2, nr - 1), b = r.integer(0, (int)a - 2); reject("reversed rows", [&] { A(a, b, 0, nc - 1); }); }
            if (nc > 2) { size_t a = r.integer(2, nc - 1), b = r.integer(0, (int)a - 2); reject("reversed columns", [&] { A(0, nr - 1, a, b); }); } break;
        case 6: { auto I = permutation(r, nr); auto J = permutation(r, nc); I[r.integer(0, nr - 1)] = r.pick({nr, nr + 3, -1});
                reject("index set rows", [&] { A.getFromIndexSet(Vector<int>(I), Vector<int>(J)); }); break; }
        case 7: { auto I = permutation(r, nr); auto J = permutation(r, nc); J[r.integer(0, nc - 1)] = r.pick({nc, nc + 3, -1});
                reject("index set columns", [&] { A.getFromIndexSet(Vector<int>(I), Vector<int>(J)); }); break; }
        case 8: { Vector<T> v((size_t)nc, 1.0), w((size_t)(nc + r.pick({1, 4, -1})), 1.0);
                reject("setRow index", [&] { A.setRow(bi, v); }); reject("setRow size", [&] { A.setRow(i, w); }); break; }
        case 9: { Vector<T> v((size_t)nr, 1.0), w((size_t)(nr + r.pick({1, 4, -1})), 1.0);
                reject("setColumn index", [&] { A.setColumn(bj, v); }); reject("setColumn size", [&] { A.setColumn(j, w); }); break; }
        case 10: reject("getBlock rows", [&] { A.getBlock(i, j, nr - i + r.integer(1, 4), 1); });
            reject("getBlock columns", [&] { A.getBlock(i, j, 1, nc - j + r.integer(1, 4)); });
            reject("getBlock start", [&] { A.getBlock(bi, j, r.pick({1, 3}), 1); }); break;
        case 11: { Matrix<T> W(nr - i + r.integer(1, 4), 1, 5.0), Z(1, nc - j + r.integer(1, 4), 5.0), O(1, 1, 5.0);
                reject("setBlock rows", [&] { A.setBlock(i, j, W); }); reject("setBlock columns", [&] { A.setBlock(i, j, Z); });
                reject("setBlock row start", [&] { A.setBlock(bi, j, O); }); reject("setBlock column start", [&] { A.setBlock(i, bj, O); }); break; }
        case 12: { Matrix<T> W(nr + 1, nc, 1.0), Z(nr, nc + 2, 1.0), Y(nc, nr, 1.0);
                for (auto *p : {&W, &Z, &Y}) {
                    if ((int)p->nrows() == nr && (int)p->ncols() == nc) continue;
                    reject("+=", [&] { A += *p; }); reject("-=", [&] { A -= *p; }); reject("+", [&] { A + *p; }); reject("-", [&] { *p - A; });
                    reject("infNorm", [&] { matrixInfNorm(A, *p); });
                } break; }
        case 13: { Vector<T> x((size_t)(nc + r.pick({1, -1})), 1.0); reject("A*x", [&] { A * x; });
                Matrix<T> B(nc + r.pick({1, 2}), dim(r), 1.0); reject("A*B", [&] { A * B; }); break; }
        case 14: if (nr != nc) { Vector<T> b((size_t)nr, 1.0); Matrix<T> B(nr, 2, 1.0);
                reject("solve not square", [&] { solve(A, b); }); reject("solve many not square", [&] { solve(A, B); }); } break;
        case 15: { int n = dim(r); Matrix<T> S = IdentityMatrix<T>(n); Vector<T> b((size_t)(n + r.pick({1, -1})), 1.0); Matrix<T> B(n + 1, 2, 1.0);
                reject("solve size", [&] { solve(S, b); }); reject("solve many size", [&] { solve(S, B); }); break; }
        case 16: { auto R = blockSizes(r, nr); auto C = blockSizes(r, nc); auto I = permutation(r, (int)R.size()); auto J = permutation(r, (int)C.size());
                (r.chance(0.5) ? R : C)[0] += 1 + r.integer(0, 2);
                reject("blockPermute", [&] { A.blockPermute(Vector<int>(I), Vector<int>(J), Vector<int>(R), Vector<int>(C)); }); break; }
        case 17: reject("construct", [&] { Matrix<T> W(nr, nc, std::vector<T>(nr * nc + r.pick({-1, 1, 3}))); }); break;
        }
    }
}
void singularCase(Case &c) {
    Rng &r = c.rng;
    int n = dim(r), k = dim(r);
    // exactly singular in floating point: a zero row, a zero column, two equal rows of small integers, or all zero
    int kind = r.integer(0, 3);
    M<double> m(n, n);
    for (auto &x : m.d) x = r.integer(-4, 4);
    int a = r.integer(0, n - 1), b = r.integer(0, n - 1);
    if (kind == 2 && (n < 2 || a == b)) kind = 0;
    if (kind == 2) { // two equal rows next to an identity: elimination stays exact
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j;
        for (int j = 0; j < n; j++) m(b, j) = m(a, j);
    } else
        for (int i = 0; i < n; i++) { if (kind == 0 || kind == 3) m(a, i) = 0; else m(i, a) = 0; }
    if (kind == 3) for (auto &x : m.d) x = 0;
    c.key << n << " kind " << kind << " " << a << "," << b;
    Matrix<double> A = m.mat(), B(n, k, 1.0);
    Vector<double> v((size_t)n, 1.0);
    c.throws<std::exception>([&] { solve(A, v); }, "accepted:singular");
    c.throws<std::exception>([&] { solve(A, B); }, "accepted:singular many");
    same(c, A, m, "changed-by:singular");
    c.nearAll(v.data(), std::vector<double>(n, 1.0), 0, "rhs-changed-by:singular");
    c.nearAll(B.data(), std::vector<double>((size_t)n * k, 1.0), 0, "rhs-changed-by:singular many");
}

// ---------------------------------------------------------------------------------------------------- C17
void transferCase(Case &c) {
    Rng &r = c.rng;
    int nc = r.chance(0.02) ? r.pick({64, 65, 100, 128, 129, 200, 256}) : r.pick({1, 2, 3, 4, 5, r.integer(1, 40), r.integer(1, 40)}), nf = 2 * nc;
    c.key << nc << " coarse cells";
    c.nontrivial = nc > 1;
    InterpolationMatrixFine2Coarse<double> R(nc);
    InterpolationMatrixCoarse2Fine<double> P(nf);
    c.check((int)R.nrows() == nc && (int)R.ncols() == nf && (int)P.nrows() == nf && (int)P.ncols() == nc, "shape");
    c.stopIfViolated();
    auto fine = values<double>(r, nf);
    Vector<double> F(fine);
    Vector<double> Cv = R * F;
    double scale = 0;
    for (double x : fine) scale = std::max(scale, std::fabs(x));
    for (int i = 0; i < nc; i++) c.near(Cv[i], 0.5 * (fine[2 * i] + fine[2 * i + 1]), 1e-15 * scale, "restriction");
    // linear data at cell centres (constant when there is a single coarse cell)
    double p = r.real(-3, 3), q = nc == 1 ? 0 : r.real(-5, 5), x0 = r.real(-3, 3), h = r.pick({0.01, 1.0, 3.0});
    Vector<double> lin(nc), want(nf);
    for (int i = 0; i < nc; i++) lin[i] = p + q * (x0 + (i + 0.5) * h);
    for (int i = 0; i < nf; i++) want[i] = p + q * (x0 + (i + 0.5) * h / 2);
    double mag = std::fabs(p) + std::fabs(q) * (std::fabs(x0) + nc * h);
    Vector<double> got = P * lin;
    c.nearAll(got, want, 1e-14 * mag, "prolongation of linear data");
    c.nearAll(R * got, lin, 1e-14 * mag, "restriction after prolongation");
    // locality: an inner fine cell depends on the two nearest coarse cells only, every row sums to one
    for (int i = 0; i < nf; i++) {
        double s = 0;
        for (int j = 0; j < nc; j++) s += P(i, j);
        c.near(s, 1, 1e-14, "prolongation row sum");
    }
}
void linearCase(Case &c) {
    Rng &r = c.rng;
    int n = r.chance(0.04) ? large(r) : r.pick({2, 3, 4, r.integer(2, 60), r.integer(2, 60)});
    bool descending = r.chance(0.2), uniform = r.chance(0.4);
    std::vector<double> xs(n), ys(n);
    double s = r.pick({1.0, 1e-3, 100.0}), x = r.real(-2, 2) * s;
    for (int i = 0; i < n; i++) { xs[i] = x; x += s * (uniform ? 0.5 : r.pick({0.001, 0.1, 1.0, r.real(0.01, 3)})); }
    if (descending) std::reverse(xs.begin(), xs.end());
    bool line = r.chance(0.3);
    double p = r.real(-2, 2), q = r.real(-2, 2);
    for (int i = 0; i < n; i++) ys[i] = line ? p + q * xs[i] : r.real(-4, 4);
    c.key << n << " nodes" << (descending ? " descending" : "") << (uniform ? " uniform" : "") << (line ? " line" : "");
    Vector<double> X(xs), Y(ys);
    LinearInterpolant f(X, Y);
    auto want = [&](double t) { // the segment that holds t, the outermost one outside
        int j = 0;
        for (int i = 0; i + 1 < n; i++) if (descending ? t <= xs[i] : t >= xs[i]) j = i;
        return ys[j] + (t - xs[j]) / (xs[j + 1] - xs[j]) * (ys[j + 1] - ys[j]);
    };
    double lo = std::min(xs[0], xs[n - 1]), hi = std::max(xs[0], xs[n - 1]);
    std::vector<double> q1;
    double t = lo;
    for (int k = 0; k < 60; k++) { // random, node, and slowly moving queries (the search remembers where it was)
        int how = r.integer(0, 3);
        if (how == 0) t = r.real(lo, hi);
        else if (how == 1) t = xs[r.integer(0, n - 1)];
        else if (how == 2) t = std::min(hi, t + (hi - lo) * r.real(0, 0.02));
        else t = std::max(lo, t - (hi - lo) * r.real(0, 0.02));
        q1.push_back(t);
        double w = want(t);
        c.near(f(t), w, 1e-11, "linear interpolant");
        if (line) c.near(f(t), p + q * t, 1e-11 * (1 + std::fabs(q) * (std::fabs(lo) + std::fabs(hi))), "line reproduced");
    }
    for (int i = 0; i < n; i++) c.near(f(xs[i]), ys[i], 1e-11, "node reproduced");
    LinearInterpolant g(X, Y);
    Vector<double> Q(q1);
    Vector<double> V = g(Q);
    for (size_t i = 0; i < q1.size(); i++) c.near(V[i], want(q1[i]), 1e-11, "vector of points");
    c.nearAll(X.data(), xs, 0, "nodes changed");
    c.nearAll(Y.data(), ys, 0, "data changed");
}

int main(int argc, char **argv) {
    MPI_Init(nullptr, nullptr);
    vh::Main m(argc, argv);
    std::cerr.setstate(std::ios::failbit); // the library reports each rejection there
    m.mode("C14", "doubles", 6000, 200000, vectorCase<double>);
    m.mode("C14", "floats", 2000, 50000, vectorCase<float>);
    m.mode("C14", "ints", 4000, 100000, vectorCase<int>);
    m.mode("C14", "range", 200, 2000, rangeCase);
    m.mode("C15", "doubles", 4000, 100000, matrixCase<double>);
    m.mode("C15", "ints", 2000, 50000, matrixCase<int>);
    m.mode("C15", "products", 2000, 50000, productCase);
    m.mode("C15", "solve", 2000, 50000, solveCase);
    m.mode("C15", "special", 800, 20000, specialCase);
    m.mode("C16", "vector", 4000, 100000, badVector<double>);
    m.mode("C16", "intvector", 2000, 50000, badVector<int>);
    m.mode("C16", "matrix", 4000, 100000, badMatrix);
    m.mode("C16", "singular", 800, 20000, singularCase);
    m.mode("C17", "transfer", 2000, 50000, transferCase);
    m.mode("C17", "linear", 2000, 50000, linearCase);
    int rc = m.run();
    MPI_Finalize();
    return rc;
}
