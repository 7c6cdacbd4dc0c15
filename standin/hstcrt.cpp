/* Stand-in for FISHPACK90's HSTCRT, which is not installed here: the Helmholtz equation
 *      d2u/dx2 + d2u/dy2 + ELMBDA u = F
 * on the staggered grid of an (A,B) x (C,D) rectangle, with u given on all four sides (MBDCND = NBDCND = 1, the
 * only case /repo uses).  Arguments, array layout (F(I,J) at F[(I-1) + (J-1)*IDIMF], J over the boundary arrays
 * BDA/BDB, I over BDC/BDD) and error codes follow FISHPACK's documentation.  Written from that documentation,
 * independently of /repo's own five-point solver: block elimination on a dense matrix by partial pivoting. */
#include <cmath>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>
#include <algorithm>

namespace {
struct LU { int n; std::vector<double> a; std::vector<int> p; };
LU factor(int n, std::vector<double> a) {
    LU f{n, std::move(a), std::vector<int>(n)};
    auto &A = f.a;
    for (int k = 0; k < n; k++) {
        int m = k;
        for (int i = k + 1; i < n; i++) if (std::fabs(A[i * n + k]) > std::fabs(A[m * n + k])) m = i;
        f.p[k] = m;
        if (m != k) for (int j = 0; j < n; j++) std::swap(A[k * n + j], A[m * n + j]);
        double d = A[k * n + k];
        for (int i = k + 1; i < n; i++) {
            if (A[i * n + k] == 0) continue;
            double l = A[i * n + k] /= d;
            for (int j = k + 1; j < n; j++) A[i * n + j] -= l * A[k * n + j];
        }
    }
    return f;
}
void backsolve(const LU &f, std::vector<double> &b) {
    int n = f.n;
    for (int k = 0; k < n; k++) if (f.p[k] != k) std::swap(b[k], b[f.p[k]]);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) b[i] -= f.a[i * n + j] * b[j];
    for (int i = n - 1; i >= 0; i--) {
        for (int j = i + 1; j < n; j++) b[i] -= f.a[i * n + j] * b[j];
        b[i] /= f.a[i * n + i];
    }
}
using Key = std::tuple<int, int, double, double, double>;
std::map<Key, LU> cache;
} // namespace

extern "C" int vt_hstcrt_calls;
int vt_hstcrt_calls = 0;

extern "C" void hstcrt_(double *A, double *B, int *M, int *MBDCND, double *BDA, double *BDB, double *C, double *D,
                        int *N, int *NBDCND, double *BDC, double *BDD, double *ELMBDA, double *F, int *IDIMF,
                        double *PERTRB, int *IERROR) {
    vt_hstcrt_calls++;
    *PERTRB = 0;
    *IERROR = 0;
    if (*A >= *B) { *IERROR = 1; return; }
    if (*MBDCND != 1) { *IERROR = 2; return; }
    if (*C >= *D) { *IERROR = 3; return; }
    if (*N <= 2) { *IERROR = 4; return; }
    if (*NBDCND != 1) { *IERROR = 5; return; }
    if (*ELMBDA > 0) *IERROR = 6; // a warning: the solution may not exist, but an attempt is made
    if (*IDIMF < *M) { *IERROR = 7; return; }
    if (*M <= 2) { *IERROR = 8; return; }
    int m = *M, n = *N, ld = *IDIMF;
    double dx = (*B - *A) / m, dy = (*D - *C) / n, wx = 1 / (dx * dx), wy = 1 / (dy * dy);
    auto id = [&](int i, int j) { return j * m + i; };
    Key key{m, n, dx, dy, *ELMBDA};
    auto it = cache.find(key);
    if (it == cache.end()) {
        if (cache.size() > 64) cache.clear();
        int S = m * n;
        std::vector<double> a((size_t)S * S, 0.0);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            double *row = &a[(size_t)id(i, j) * S];
            double c = *ELMBDA - 2 * wx - 2 * wy;
            if (i > 0) row[id(i - 1, j)] += wx; else c -= wx;
            if (i < m - 1) row[id(i + 1, j)] += wx; else c -= wx;
            if (j > 0) row[id(i, j - 1)] += wy; else c -= wy;
            if (j < n - 1) row[id(i, j + 1)] += wy; else c -= wy;
            row[id(i, j)] += c;
        }
        it = cache.emplace(key, factor(S, std::move(a))).first;
    }
    std::vector<double> b(m * n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double f = F[i + j * ld];
        if (i == 0) f -= 2 * wx * BDA[j];
        if (i == m - 1) f -= 2 * wx * BDB[j];
        if (j == 0) f -= 2 * wy * BDC[i];
        if (j == n - 1) f -= 2 * wy * BDD[i];
        b[id(i, j)] = f;
    }
    backsolve(it->second, b);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F[i + j * ld] = b[id(i, j)];
}
