/* Monitors on several ranks: C12 (results independent of the ranks), C13 (message-passing wrappers). */
#include "efx.hpp"
#include <atomic>
#include <fcntl.h>
using namespace efx;
namespace EM = EllipticForest::MPI;

static int RANK = 0, SIZE = 1;

// ---- delays: every MPI call of /repo (and p4est, PETSc) may be held up for a moment -----------------------------
static bool g_delays = false;
static long g_delayed = 0, g_calls = 0;
static uint64_t g_delayState = 1;
static void vt_delay() {
    g_calls++;
    if (!g_delays) return;
    g_delayState = vh::mix(g_delayState + 0x9e3779b97f4a7c15ull);
    if (g_delayState % 6 == 0) {
        g_delayed++;
        usleep((g_delayState >> 8) % 1500);
    }
}
#undef MPI_Send // PETSc's logging macros
#undef MPI_Recv
#undef MPI_Bcast
#undef MPI_Allreduce
#undef MPI_Allgather
#undef MPI_Allgatherv
#undef MPI_Comm_create_group
#undef MPI_Isend
#undef MPI_Irecv
#undef MPI_Barrier
#define VT_WRAP(name, params, args) \
    extern "C" int MPI_##name params { vt_delay(); return PMPI_##name args; }
VT_WRAP(Send, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c), (b, n, t, d, g, c))
VT_WRAP(Recv, (void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Status *st), (b, n, t, s, g, c, st))
VT_WRAP(Bcast, (void *b, int n, MPI_Datatype t, int r, MPI_Comm c), (b, n, t, r, c))
VT_WRAP(Allreduce, (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (a, b, n, t, o, c))
VT_WRAP(Allgather, (const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c), (a, n, t, b, m, u, c))
VT_WRAP(Allgatherv, (const void *a, int n, MPI_Datatype t, void *b, const int *m, const int *d, MPI_Datatype u, MPI_Comm c), (a, n, t, b, m, d, u, c))
VT_WRAP(Comm_create_group, (MPI_Comm c, MPI_Group g, int t, MPI_Comm *o), (c, g, t, o))
VT_WRAP(Isend, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r), (b, n, t, d, g, c, r))
VT_WRAP(Irecv, (void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request *r), (b, n, t, s, g, c, r))
VT_WRAP(Barrier, (MPI_Comm c), (c))
struct Delays {
    Case &c;
    Delays(Case &c, bool on) : c(c) {
        g_delays = on;
        g_delayState = vh::mix(vh::hashStr(c.id) + 977 * RANK);
        g_calls = g_delayed = 0;
    }
    ~Delays() {
        g_delays = false;
        c.count("MPI calls seen", g_calls);
        c.count("MPI calls delayed", g_delayed);
    }
};

// ---- C12 ---------------------------------------------------------------------------------------------------------
static void feed(uint64_t &h, double v) { h = vh::mix(h ^ (uint64_t)llround(v)); }
static std::string describe(FiniteVolumePatch &p) { // everything a shared node holds, as text of full-precision numbers
    std::ostringstream o;
    o.precision(17);
    o << p.n_coarsens << " " << p.grid().nx() << " " << p.grid().ny() << " " << p.grid().xLower() << " " << p.grid().yUpper() << " ";
    for (auto *m : {&p.matrixX(), &p.matrixH(), &p.matrixS(), &p.matrixT()}) {
        o << m->nRows() << " " << m->nCols() << " ";
        for (int i = 0; i < m->nRows(); i++) for (int j = 0; j < m->nCols(); j++) o << (*m)(i, j) << " ";
    }
    for (auto *v : {&p.vectorG(), &p.vectorH(), &p.vectorW()}) {
        o << v->size() << " ";
        for (int i = 0; i < v->size(); i++) o << (*v)[i] << " ";
    }
    return o.str();
}
static void sharedAgree(Case &c, Setup &s, const std::string &stage) {
    // the lowest rank of each shared node tells the others what it holds
    for (auto &[path, n] : s.mesh.quadtree.map) {
        if (!n) continue;
        int size;
        MPI_Comm_size(n->node_comm, &size);
        if (size < 2) continue;
        auto all = gatherTexts(describe(n->data), n->node_comm);
        c.count("shared nodes compared");
        std::vector<double> first;
        for (auto &w : words(all[0])) first.push_back(strtod(w.c_str(), nullptr));
        double scale = 1e-30;
        for (double v : first) scale = std::max(scale, std::fabs(v));
        for (int r = 1; r < size; r++) {
            std::vector<double> v;
            for (auto &w : words(all[r])) v.push_back(strtod(w.c_str(), nullptr));
            if (v.size() != first.size()) { c.violate("shared-node-differs", stage + ": node " + path + " has different shapes on its ranks"); break; }
            bool ok = true;
            for (size_t i = 0; ok && i < v.size(); i++) {
                ok = std::fabs(v[i] - first[i]) <= 1e-9 * scale;
                if (!ok) c.violate("shared-node-differs", stage + ": node " + path + ": " + vh::num(first[i]) + " and " + vh::num(v[i]) + " on its ranks 0 and " + std::to_string(r));
            }
            if (!ok) break;
        }
    }
}
static void parallelSolve(Case &c) {
    Rng &r = c.rng;
    bool fish = r.chance(0.15), homogeneous = r.chance(0.15);
    Coefs co = fish ? r.pick({POISSON, HELMHOLTZ}) : r.pick({POISSON, HELMHOLTZ, VARIABLE, VARIABLE});
    bool cache = co != VARIABLE && r.chance(0.3);
    int maxl = r.pick({0, 1, 2, 2, 3, 3}), minl = r.chance(0.3) ? maxl : r.integer(0, std::max(0, maxl - 1));
    Problem p = randomProblem(r, c.key, maxl == 3 ? r.pick({3, 4}) : r.pick({3, 4, 5, 6}), minl, maxl, co, fish);
    double L = p.size();
    if (p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2) > 0) p.pde.lambda = constant(0);
    if (homogeneous) p.pde.f = constant(0);
    bool delays = r.chance(0.5), byPatch = r.chance(0.3);
    int solves = r.integer(1, 3), builds = r.pick({1, 1, 2});
    c.key << "ranks=" << SIZE << (cache ? " cache" : "") << (homogeneous ? " homogeneous" : "") << (delays ? " delays" : "") << (byPatch ? " by-patch" : "");
    c.nontrivial = SIZE > 1 && maxl > 0;
    Delays d(c, delays);
    options(cache, homogeneous);
    Setup s(p);
    std::string mine;
    for (auto &[path, n] : s.mesh.quadtree.map) if (n && n->leaf) mine += path + " ";
    std::map<std::string, int> owner;
    auto texts = gatherTexts(mine);
    for (int k = 0; k < SIZE; k++) for (auto &w : words(texts[k])) {
        c.check(!owner.count(w), "leaf-on-two-ranks", [&] { return w; });
        owner[w] = k;
    }
    std::set<std::string> leaves;
    for (auto &[w, k] : owner) leaves.insert(w);
    auto want = ref::refineLeaves(p.box, minl, maxl, wants(p));
    c.check(leaves == want, "leaves-differ", [&] { return std::to_string(leaves.size()) + " leaves on " + std::to_string(SIZE) + " ranks, want " + std::to_string(want.size()); });
    stopTogether(c);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    hps.setupStage();
    for (int b = 0; b < builds; b++) hps.buildStage();
    sharedAgree(c, s, "build");
    stopTogether(c);
    ref::RefTree t(p.box, p.nx, p.pde, leaves);
    t.build();
    for (int k = 0; k < solves; k++) {
        Fn f = p.pde.f;
        if (k && !homogeneous) f = times(p.mag, field(r, c.key, p.box, r.real(-2, 2), 3));
        Fn g = times(p.mag, field(r, c.key, p.box, r.real(-1, 1), 2));
        Bc bc = byPatch ? dirichlet(g) : mixedBc(r, c.key, L, g, true);
        if (!homogeneous || r.chance(0.5)) {
            if (byPatch) hps.upwardsStage([&](FiniteVolumePatch &q) {
                auto &gr = q.grid();
                q.vectorF() = Vector<double>(gr.nx() * gr.ny());
                for (int i = 0; i < (int)gr.nx(); i++) for (int j = 0; j < (int)gr.ny(); j++) q.vectorF()[j + i * gr.ny()] = f(gr(0, i), gr(1, j));
            });
            else hps.upwardsStage([&](double x, double y) { return f(x, y); });
        }
        if (homogeneous) // leaf loads are still needed by the leaf solves
            for (auto &[path, q] : s.localLeaves()) q->vectorF() = Vector<double>(p.nx * p.nx, 0.0);
        sharedAgree(c, s, "upwards");
        ref::Grid G{p.box, 0, 0};
        t.upwards(f);
        G = t.rootGrid();
        BcData bd = sample(G, bc);
        if (byPatch) hps.solveStage([&](FiniteVolumePatch &q) { q.vectorG() = fromVec(bd.r); });
        else hps.solveStage([&](int side, double x, double y, double *a, double *b) { return bc(side, x, y, a, b); });
        sharedAgree(c, s, "solve");
        DVec rg = t.rootDirichlet(bd.a, bd.b, bd.r);
        t.down(rg);
        double scale = std::max(1e-3 * p.mag, ref::maxAbs(rg)), Tn = 0;
        std::map<std::string, DVec> ref;
        t.eachLeaf([&](ref::RefNode &n) { scale = std::max(scale, ref::maxAbs(n.u)); ref[n.path] = n.u; });
        auto mineLeaves = s.localLeaves();
        for (auto &[path, q] : mineLeaves) {
            DVec u = toVec(q->vectorU());
            c.count("leaf solutions compared");
            c.nearAll(u, ref[path], 1e-7 * scale, "solution-differs", "rank " + std::to_string(RANK) + " of " + std::to_string(SIZE) + " solve " + std::to_string(k) + " leaf " + path);
            double e = 0;
            for (size_t i = 0; i < u.size() && i < ref[path].size(); i++) e = std::max(e, std::fabs(u[i] - ref[path][i]) / scale);
            c.maxof("largest relative difference", e);
        }
        c.check((long)mineLeaves.size() == (long)words(mine).size(), "leaves-moved");
        stopTogether(c);
    }
    options(false, false);
}

// ---- C13 ---------------------------------------------------------------------------------------------------------
static uint64_t word(uint64_t salt, int a, int b) { return vh::mix(salt ^ vh::mix(a * 7919ull + b)); }
template <class T> static T value(uint64_t h) {
    if constexpr (std::is_same_v<T, bool>) return h & 1;
    else if constexpr (std::is_floating_point_v<T>) {
        int kind = h % 7;
        if (kind == 0) return std::numeric_limits<T>::max();
        if (kind == 1) return -std::numeric_limits<T>::min();
        if (kind == 2) return T(0) * -1;
        return (T)(int64_t)(h >> 3) / (T)1048576;
    } else return (T)h;
}
static std::vector<int> sizes() { return {0, 0, 1, 2, 3, 7, 64, 1000, 20000}; }
template <class T> static std::vector<T> values(uint64_t salt, int n) {
    std::vector<T> v(n);
    for (int i = 0; i < n; i++) v[i] = value<T>(word(salt, i, n));
    return v;
}
static std::string text(uint64_t salt, int n) {
    std::string s(n, ' ');
    for (int i = 0; i < n; i++) s[i] = (char)(word(salt, i, n) % 256); // any byte, zero included
    return s;
}
static Matrix<double> matrix(uint64_t salt, int m, int n) {
    return Matrix<double>(m, n, values<double>(salt, m * n));
}
static bool same(const Matrix<double> &A, const Matrix<double> &B) {
    auto &a = const_cast<Matrix<double> &>(A), &b = const_cast<Matrix<double> &>(B);
    if (a.nRows() != b.nRows() || a.nCols() != b.nCols()) return false;
    for (int i = 0; i < (int)a.nRows(); i++) for (int j = 0; j < (int)a.nCols(); j++) if (!(a(i, j) == b(i, j))) return false;
    return a.data().size() == b.data().size();
}
static bool same(const Vector<double> &a, const Vector<double> &b) { return a.data() == b.data() && const_cast<Vector<double> &>(a).size() == const_cast<Vector<double> &>(b).size(); }
static bool sameGrid(FiniteVolumeGrid &a, FiniteVolumeGrid &b) {
    return a.nx() == b.nx() && a.ny() == b.ny() && a.xLower() == b.xLower() && a.xUpper() == b.xUpper() && a.yLower() == b.yLower() && a.yUpper() == b.yUpper() && a.dx() == b.dx() && a.dy() == b.dy();
}
static FiniteVolumeGrid grid(uint64_t salt, MPI_Comm comm) {
    Rng r(salt);
    double x = r.real(-3, 3), y = r.real(-3, 3);
    return FiniteVolumeGrid(comm, r.integer(1, 30), x, x + r.real(0.1, 9), r.integer(1, 30), y, y + r.real(0.1, 9));
}
static FiniteVolumePatch patch(uint64_t salt, MPI_Comm comm) {
    Rng r(salt);
    FiniteVolumePatch p(comm, grid(salt, comm));
    p.n_coarsens = r.integer(0, 9);
    auto dim = [&] { return r.pick({0, 1, 2, 5, 16}); };
    for (auto *m : {&p.matrixX(), &p.matrixH(), &p.matrixS(), &p.matrixT()}) *m = matrix(r.next(), dim(), dim());
    for (auto *v : {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}) *v = Vector<double>(values<double>(r.next(), r.pick({0, 1, 4, 50})));
    return p;
}
static std::string patchDiff(FiniteVolumePatch &a, FiniteVolumePatch &b) {
    std::string d;
    if (a.n_coarsens != b.n_coarsens) d += "n_coarsens ";
    if (!sameGrid(a.grid(), b.grid())) d += "grid ";
    if (!same(a.matrixX(), b.matrixX())) d += "X ";
    if (!same(a.matrixH(), b.matrixH())) d += "H ";
    if (!same(a.matrixS(), b.matrixS())) d += "S ";
    if (!same(a.matrixT(), b.matrixT())) d += "T ";
    if (!same(a.vectorU(), b.vectorU())) d += "u ";
    if (!same(a.vectorG(), b.vectorG())) d += "g ";
    if (!same(a.vectorV(), b.vectorV())) d += "v ";
    if (!same(a.vectorF(), b.vectorF())) d += "f ";
    if (!same(a.vectorH(), b.vectorH())) d += "h ";
    if (!same(a.vectorW(), b.vectorW())) d += "w ";
    return d;
}
struct Group { // a communicator a case works on; null on ranks outside it
    MPI_Comm comm = MPI_COMM_NULL;
    bool owned = false;
    int rank = -1, size = 0;
    Group(Case &c) {
        Rng &r = c.rng;
        int kind = r.integer(0, 3);
        if (kind == 0 || SIZE == 1) { comm = MPI_COMM_WORLD; c.key << "world "; }
        else if (kind == 1) {
            std::vector<int> colour(SIZE);
            for (int &k : colour) k = r.integer(0, 1);
            bool reverse = r.chance(0.5);
            MPI_Comm_split(MPI_COMM_WORLD, colour[RANK], reverse ? -RANK : RANK, &comm);
            owned = true;
            c.key << "split ";
        } else {
            int a = r.integer(0, SIZE - 1), b = r.integer(a, SIZE - 1), tag = r.integer(0, 9);
            std::string name = "super" + std::to_string(r.integer(0, 99)), old = EM::communicatorGetName(MPI_COMM_WORLD);
            EM::communicatorSetName(MPI_COMM_WORLD, name);
            c.check(EM::communicatorGetName(MPI_COMM_WORLD) == name, "communicator-name");
            EM::communicatorSubsetRange(MPI_COMM_WORLD, a, b, tag, &comm);
            EM::communicatorSetName(MPI_COMM_WORLD, old);
            bool in = a <= RANK && RANK <= b;
            if (c.check((comm != MPI_COMM_NULL) == in, "subset-membership", [&] { return std::to_string(a) + ".." + std::to_string(b) + " rank " + std::to_string(RANK); }) && in) {
                int n, k;
                MPI_Comm_size(comm, &n);
                MPI_Comm_rank(comm, &k);
                c.check(n == b - a + 1 && k == RANK - a, "subset-order");
                c.check(EM::communicatorGetName(comm) == name + "_sub_range={" + std::to_string(a) + ":" + std::to_string(b) + "}", "subset-name", [&] { return EM::communicatorGetName(comm); });
            }
            owned = true;
            c.key << "range" << a << "-" << b << " ";
        }
        if (comm != MPI_COMM_NULL) { MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size); }
    }
    ~Group() { if (owned && comm != MPI_COMM_NULL) MPI_Comm_free(&comm); }
    explicit operator bool() const { return comm != MPI_COMM_NULL; }
};
// no message may be left over once every rank has finished a case
static void drained(Case &c, MPI_Comm comm) {
    MPI_Barrier(comm);
    int flag = 0;
    MPI_Status st;
    for (int i = 0; i < 3; i++) {
        MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &flag, &st);
        c.check(!flag, "message-left-over", [&] { return "rank " + std::to_string(RANK) + " from " + std::to_string(st.MPI_SOURCE) + " tag " + std::to_string(st.MPI_TAG); });
        if (flag) break;
    }
    MPI_Barrier(comm);
}
static std::string at(Group &g, int root) { return "rank " + std::to_string(g.rank) + " of " + std::to_string(g.size) + " root " + std::to_string(root); }
template <class T> static void scalarCase(Case &c, Group &g, uint64_t salt, const char *name) {
    using namespace EllipticForest;
    int root = salt % g.size, tag = (salt >> 8) % 1000;
    auto is = [&](T got, T want, const std::string &what) {
        c.count("scalars received");
        c.check(got == want, what, [&] { return std::string(name) + " " + at(g, root) + " got " + vh::num((double)got) + " want " + vh::num((double)want); });
    };
    T v = g.rank == root ? value<T>(word(salt, 1, 1)) : value<T>(word(salt, 2, g.rank));
    EM::broadcast(v, root, g.comm);
    is(v, value<T>(word(salt, 1, 1)), "broadcast-scalar");
    T s = value<T>(word(salt, 3, g.rank)), got{};
    if (g.size > 1) { // a chain of sends around the ring
        EM::Status st;
        int next = (g.rank + 1) % g.size, prev = (g.rank + g.size - 1) % g.size;
        if (g.rank == 0) { EM::send(s, next, tag, g.comm); EM::receive(got, prev, tag, g.comm, &st); }
        else { EM::receive(got, prev, tag, g.comm, &st); EM::send(s, next, tag, g.comm); }
        is(got, value<T>(word(salt, 3, prev)), "send-scalar");
        is(s, value<T>(word(salt, 3, g.rank)), "send-changed-argument");
        c.check(st.MPI_SOURCE == prev && st.MPI_TAG == tag, "receive-status");
    }
    if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<T, char> && !std::is_same_v<T, wchar_t>) {
        T small = (T)(word(salt, 4, g.rank) % 10), sum{}, mx{}, mn{}, ws{}, wm{}, wn = (T)100;
        for (int k = 0; k < g.size; k++) { T w = (T)(word(salt, 4, k) % 10); ws += w; wm = std::max(wm, w); wn = std::min(wn, w); }
        EM::allreduce(small, sum, MPI_SUM, g.comm);
        EM::allreduce(small, mx, MPI_MAX, g.comm);
        EM::allreduce(small, mn, MPI_MIN, g.comm);
        is(sum, ws, "allreduce-sum"); is(mx, wm, "allreduce-max"); is(mn, wn, "allreduce-min");
    }
    // one scalar from every rank, into the first element of an array
    if constexpr (!std::is_same_v<T, bool>) {
        std::vector<T> all(g.size + 1, (T)77);
        T one = value<T>(word(salt, 5, g.rank));
        EM::allgather<T>(one, all[0], 1, g.comm);
        for (int k = 0; k < g.size; k++) is(all[k], value<T>(word(salt, 5, k)), "allgather-scalar");
        std::vector<int> counts(g.size, 1), disp(g.size);
        for (int k = 0; k < g.size; k++) disp[k] = g.size - 1 - k;
        EM::allgatherv<T>(one, all[0], counts, disp, g.comm);
        for (int k = 0; k < g.size; k++) is(all[disp[k]], value<T>(word(salt, 5, k)), "allgatherv-scalar");
        is(all[g.size], (T)77, "allgather-past-end");
    }
}
static void scalars(Case &c) {
    Delays d(c, c.rng.chance(0.4));
    Group g(c);
    uint64_t salt = c.rng.next();
    c.key << salt;
    c.nontrivial = SIZE > 1;
    if (g) {
        scalarCase<char>(c, g, salt + 1, "char"); scalarCase<wchar_t>(c, g, salt + 2, "wchar_t"); scalarCase<short>(c, g, salt + 3, "short");
        scalarCase<int>(c, g, salt + 4, "int"); scalarCase<long>(c, g, salt + 5, "long"); scalarCase<signed char>(c, g, salt + 6, "signed char");
        scalarCase<unsigned char>(c, g, salt + 7, "unsigned char"); scalarCase<unsigned short>(c, g, salt + 8, "unsigned short");
        scalarCase<unsigned int>(c, g, salt + 9, "unsigned"); scalarCase<unsigned long>(c, g, salt + 10, "unsigned long");
        scalarCase<unsigned long long>(c, g, salt + 11, "unsigned long long"); scalarCase<float>(c, g, salt + 12, "float");
        scalarCase<double>(c, g, salt + 13, "double"); scalarCase<long double>(c, g, salt + 14, "long double"); scalarCase<bool>(c, g, salt + 15, "bool");
        drained(c, g.comm);
    }
    stopTogether(c);
}
// one payload type: what `make(salt)` builds is broadcast and sent; receivers hold something else before
template <class T, class Make, class Same> static void payload(Case &c, Group &g, const std::string &name, bool point, Make make, Same same) {
    Rng &r = c.rng;
    using namespace EllipticForest;
    uint64_t salt = r.next(), other = r.next();
    int root = r.integer(0, std::max(0, g.size - 1)), tag = r.integer(0, 500);
    bool prefilled = r.chance(0.7);
    if (!g) return;
    T want = make(salt);
    {
        T v = g.rank == root ? make(salt) : prefilled ? make(other + g.rank) : T();
        EM::broadcast(v, root, g.comm);
        c.count("payloads received");
        std::string d = same(v, want);
        c.check(d.empty(), "broadcast-" + name, [&] { return at(g, root) + ": " + d; });
    }
    if constexpr (!std::is_same_v<T, FiniteVolumeGrid> && !std::is_same_v<T, FiniteVolumePatch> && !std::is_same_v<T, Node<FiniteVolumePatch>>)
        if (point && g.size > 1) {
            int a = (salt >> 4) % g.size, b = (a + 1 + (salt >> 9) % (g.size - 1)) % g.size, n = 1 + (salt >> 20) % 3;
            // several objects one after the other on the same tag
            if (g.rank == a) for (int k = 0; k < n; k++) {
                T v = make(salt + k);
                EM::send(v, b, tag, g.comm);
                T w = make(salt + k);
                c.check(same(v, w).empty(), "send-changed-argument");
            }
            if (g.rank == b) for (int k = 0; k < n; k++) {
                T v = prefilled ? make(other + k) : T(), w = make(salt + k);
                EM::Status st;
                EM::receive(v, a, tag, g.comm, &st);
                c.count("payloads received");
                std::string d = same(v, w);
                c.check(d.empty(), "receive-" + name, [&] { return std::to_string(k) + " from " + std::to_string(a) + " to " + std::to_string(b) + ": " + d; });
            }
        }
    drained(c, g.comm);
}
template <class T> static std::string vecDiff(const std::vector<T> &a, const std::vector<T> &b) {
    if (a.size() != b.size()) return "size " + std::to_string(a.size()) + " want " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return "[" + std::to_string(i) + "] " + vh::num((double)a[i]) + " want " + vh::num((double)b[i]);
    return "";
}
static int sizeOf(uint64_t salt) { auto s = sizes(); return s[vh::mix(salt) % s.size()]; }
static void payloads(Case &c) {
    Rng &r = c.rng;
    Delays d(c, r.chance(0.4));
    Group g(c);
    c.nontrivial = SIZE > 1;
    auto sv = [](auto tag) { using T = decltype(tag); return [](uint64_t s) { return values<T>(s, sizeOf(s)); }; };
    for (int round = 0; round < 4; round++) {
        int kind = r.integer(0, 14);
        c.key << kind << " ";
        switch (kind) {
        case 0: payload<std::string>(c, g, "string", true, [](uint64_t s) { return text(s, sizeOf(s)); }, [](const std::string &a, const std::string &b) { return a == b ? std::string() : "length " + std::to_string(a.size()) + " want " + std::to_string(b.size()); }); break;
        case 1: payload<std::vector<double>>(c, g, "vector-double", true, sv(1.0), vecDiff<double>); break;
        case 2: payload<std::vector<int>>(c, g, "vector-int", true, sv(1), vecDiff<int>); break;
        case 3: payload<std::vector<char>>(c, g, "vector-char", true, sv('a'), vecDiff<char>); break;
        case 4: payload<std::vector<float>>(c, g, "vector-float", true, sv(1.0f), vecDiff<float>); break;
        case 5: payload<std::vector<long>>(c, g, "vector-long", true, sv(1l), vecDiff<long>); break;
        case 6: case 7: payload<Vector<double>>(c, g, "Vector", true, [](uint64_t s) { return Vector<double>(values<double>(s, sizeOf(s))); }, [](const Vector<double> &a, const Vector<double> &b) { return vecDiff(a.data(), b.data()) + (same(a, b) ? "" : " differs"); }); break;
        case 8: payload<Vector<int>>(c, g, "Vector-int", true, [](uint64_t s) { return Vector<int>(values<int>(s, sizeOf(s))); }, [](const Vector<int> &a, const Vector<int> &b) { return vecDiff(a.data(), b.data()); }); break;
        case 9: case 10: payload<Matrix<double>>(c, g, "Matrix", true, [](uint64_t s) { int dims[] = {0, 1, 2, 3, 17, 60}; return matrix(s, dims[vh::mix(s) % 6], dims[vh::mix(s + 1) % 6]); }, [](const Matrix<double> &a, const Matrix<double> &b) { return same(a, b) ? std::string() : std::string("differs"); }); break;
        case 11: { // grids have no default-comparable state; receivers hold another grid
            MPI_Comm cm = g ? g.comm : MPI_COMM_SELF;
            payload<FiniteVolumeGrid>(c, g, "grid", false, [cm](uint64_t s) { return grid(s, cm); }, [](FiniteVolumeGrid &a, FiniteVolumeGrid &b) { return sameGrid(a, b) ? std::string() : std::string("differs"); });
            break;
        }
        case 12: {
            MPI_Comm cm = g ? g.comm : MPI_COMM_SELF;
            payload<FiniteVolumePatch>(c, g, "patch", false, [cm](uint64_t s) { return patch(s, cm); }, patchDiff);
            break;
        }
        case 13: { // nodes carrying a patch
            MPI_Comm cm = g ? g.comm : MPI_COMM_SELF;
            using N = Node<FiniteVolumePatch>;
            payload<N>(c, g, "node", false, [cm](uint64_t s) {
                Rng q(s);
                N n(cm, patch(s, cm), text(s, q.integer(0, 40)), q.integer(0, 30), q.integer(0, 9), q.integer(0, 9));
                n.leaf = q.chance(0.5);
                return n;
            }, [](N &a, N &b) { return patchDiff(a.data, b.data) + (a.path == b.path && a.level == b.level && a.pfirst == b.pfirst && a.plast == b.plast && a.leaf == b.leaf ? "" : "metadata"); });
            break;
        }
        default: { // nodes carrying a vector, also point to point
            using N = Node<Vector<double>>;
            payload<N>(c, g, "node-vector", true, [](uint64_t s) {
                Rng q(s);
                N n(MPI_COMM_WORLD, Vector<double>(values<double>(s, sizeOf(s))), text(s, q.integer(0, 40)), q.integer(0, 30), q.integer(0, 9), q.integer(0, 9));
                n.leaf = q.chance(0.5);
                return n;
            }, [](N &a, N &b) { return std::string(same(a.data, b.data) ? "" : "data ") + (a.path == b.path && a.level == b.level && a.pfirst == b.pfirst && a.plast == b.plast && a.leaf == b.leaf ? "" : "metadata"); });
        }
        }
    }
    stopTogether(c);
}
// gathers and reductions of arrays
static void gathers(Case &c) {
    Rng &r = c.rng;
    using namespace EllipticForest;
    Delays d(c, r.chance(0.4));
    Group g(c);
    c.nontrivial = SIZE > 1;
    uint64_t salt = r.next();
    int n = r.pick({0, 1, 1, 2, 5, 33, 700});
    std::vector<int> counts(SIZE), gaps(SIZE);
    for (int &k : counts) k = r.pick({0, 0, 1, 2, 6, 40});
    for (int &k : gaps) k = r.pick({0, 0, 1, 3});
    bool reverse = r.chance(0.4);
    c.key << "n=" << n << " salt=" << salt;
    if (g) {
        auto mine = values<double>(word(salt, 0, g.rank), n);
        std::vector<double> all((size_t)n * g.size + 2, -5.5), want;
        for (int k = 0; k < g.size; k++) { auto v = values<double>(word(salt, 0, k), n); want.insert(want.end(), v.begin(), v.end()); }
        want.push_back(-5.5); want.push_back(-5.5);
        EM::allgather(mine, all, n, g.comm);
        c.check(vecDiff(all, want).empty(), "allgather-vector", [&] { return vecDiff(all, want); });
        Vector<double> V(mine), A((int)want.size(), -5.5);
        EM::allgather(V, A, n, g.comm);
        c.check(vecDiff(A.data(), want).empty(), "allgather-Vector", [&] { return vecDiff(A.data(), want); });
        c.check(vecDiff(V.data(), mine).empty(), "allgather-changed-argument");
        // different lengths, placed with gaps, in either order
        std::vector<int> cnt(counts.begin(), counts.begin() + g.size), dis(g.size);
        int pos = 0;
        for (int q = 0; q < g.size; q++) {
            int k = reverse ? g.size - 1 - q : q;
            dis[k] = pos + gaps[k];
            pos = dis[k] + cnt[k];
        }
        std::vector<double> all2(pos + 1, 9.25), want2(pos + 1, 9.25);
        for (int k = 0; k < g.size; k++) { auto v = values<double>(word(salt, 7, k), cnt[k]); std::copy(v.begin(), v.end(), want2.begin() + dis[k]); }
        auto mine2 = values<double>(word(salt, 7, g.rank), cnt[g.rank]);
        EM::allgatherv(mine2, all2, cnt, dis, g.comm);
        c.check(vecDiff(all2, want2).empty(), "allgatherv-vector", [&] { return vecDiff(all2, want2); });
        Vector<double> V2(mine2), A2(pos + 1, 9.25);
        EM::allgatherv(V2, A2, cnt, dis, g.comm);
        c.check(vecDiff(A2.data(), want2).empty(), "allgatherv-Vector", [&] { return vecDiff(A2.data(), want2); });
        std::vector<long> li(n), ls(n), lw(n, 0);
        for (int i = 0; i < n; i++) { li[i] = word(salt, i, g.rank) % 100000; for (int k = 0; k < g.size; k++) lw[i] += word(salt, i, k) % 100000; }
        EM::allreduce(li, ls, MPI_SUM, g.comm);
        c.check(vecDiff(ls, lw).empty(), "allreduce-vector", [&] { return vecDiff(ls, lw); });
        std::vector<double> di(n), dx(n), dw(n, -1e300);
        for (int i = 0; i < n; i++) { di[i] = value<double>(word(salt, i, 50 + g.rank)); for (int k = 0; k < g.size; k++) dw[i] = std::max(dw[i], value<double>(word(salt, i, 50 + k))); }
        EM::allreduce(di, dx, MPI_MAX, g.comm);
        c.check(vecDiff(dx, dw).empty(), "allreduce-vector", [&] { return vecDiff(dx, dw); });
        std::string ms = text(word(salt, 11, g.rank), n), as((size_t)n * g.size, '?'), ws;
        for (int k = 0; k < g.size; k++) ws += text(word(salt, 11, k), n);
        EM::allgather(ms, as, n, g.comm);
        c.check(as == ws, "allgather-string");
        c.count("gathers", 8);
        drained(c, g.comm);
    }
    stopTogether(c);
}

// ---- C22: stage timers and the log ---------------------------------------------------------------------------------
static double g_slept = 0;
static void nap() {
    double t = MPI_Wtime();
    usleep(1500);
    g_slept += MPI_Wtime() - t;
}
static void stageTimers(Case &c) {
    Rng &r = c.rng;
    int maxl = r.integer(0, 2);
    Problem p = randomProblem(r, c.key, 4, r.integer(0, maxl), maxl, r.pick({POISSON, VARIABLE}), false);
    if (p.pde.lambda((p.box.x0 + p.box.x1) / 2, (p.box.y0 + p.box.y1) / 2) > 0) p.pde.lambda = constant(0);
    Fn alpha = p.pde.alpha;
    int every = r.integer(20, 200), n = 0;
    p.pde.alpha = [&](double x, double y) { if (++n % every == 0) nap(); return alpha(x, y); };
    Delays d(c, r.chance(0.3));
    Setup s(p);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    auto &app = EllipticForestApp::getInstance();
    bool mixed = r.chance(0.5), zero = r.chance(0.3);
    options(false, zero);
    Fn g = wave(r, 0, 1, p.size());
    std::string built;
    int stages = r.integer(4, 9);
    for (int k = 0; k < stages; k++) {
        int what = k < 4 ? k : r.integer(0, 3);
        const char *name[] = {"setup-stage", "build-stage", "upwards-stage", "solve-stage"};
        c.key << what;
        g_slept = 0;
        double t = MPI_Wtime();
        if (what == 0) hps.setupStage();
        else if (what == 1) hps.buildStage();
        else if (what == 2) {
            auto load = [&](double x, double y) { if (++n % every == 0) nap(); return x + y; };
            if (mixed) hps.upwardsStage(load);
            else hps.upwardsStage([&](FiniteVolumePatch &q) {
                auto &gr = q.grid();
                q.vectorF() = Vector<double>(gr.nx() * gr.ny());
                for (int i = 0; i < (int)gr.nx(); i++) for (int j = 0; j < (int)gr.ny(); j++) q.vectorF()[j + i * gr.ny()] = load(gr(0, i), gr(1, j));
            });
            if (zero) for (auto &[path, q] : s.localLeaves()) q->vectorF() = Vector<double>(p.nx * p.nx, 0.0);
        } else {
            // the rank holding the root asks for the boundary data
            if (mixed) hps.solveStage([&](int, double x, double y, double *a, double *b) { if (++n % 7 == 0) nap(); *a = 1; *b = 0; return g(x, y); });
            else hps.solveStage([&](FiniteVolumePatch &q) { nap(); BcData bd = sample(ref::Grid{p.box, (int)q.grid().nx(), (int)q.grid().ny()}, dirichlet(g)); q.vectorG() = fromVec(bd.r); });
        }
        double wall = MPI_Wtime() - t, got = app.timers[name[what]].time(), low = g_slept;
        c.check(got >= low - 1e-4 && got <= wall + 1e-4, "stage-timer", [&] { return std::string(name[what]) + " reads " + vh::num(got) + ", callbacks took " + vh::num(low) + ", the stage " + vh::num(wall); });
        c.count("stages timed");
        stopTogether(c);
    }
    options(false, false);
}
static void logs(Case &c) {
    Rng &r = c.rng;
    auto &app = EllipticForestApp::getInstance();
    std::string path = c.m.scratch + "/out" + std::to_string(RANK), want;
    std::cout.flush();
    fflush(stdout);
    int old = dup(1), f = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(f, 1);
    for (int k = r.integer(1, 30); k > 0; k--) {
        bool head = r.chance(0.5), viaApp = r.chance(0.5);
        Logger own, &l = viaApp ? app.logger : own;
        std::string prefix = "[EllipticForest " + std::to_string(RANK) + "] ", line;
        std::string word(r.pick({0, 1, 5, 100, 600, 5000}), (char)r.integer('a', 'z'));
        int i = r.integer(-100000, 100000);
        double x = r.real(-1e6, 1e6);
        char b[128];
        switch (r.integer(0, 4)) {
        case 0:
            if (head) { if (viaApp && r.chance(0.5)) app.logHead(word); else l.logHead(word); }
            else { if (viaApp && r.chance(0.5)) app.log(word); else l.log(word); }
            line = word;
            break;
        case 1:
            if (head) { if (viaApp && r.chance(0.5)) app.logHead("i = %i, x = %24.16e", i, x); else l.logHead("i = %i, x = %24.16e", i, x); }
            else { if (viaApp && r.chance(0.5)) app.log("i = %i, x = %24.16e", i, x); else l.log("i = %i, x = %24.16e", i, x); }
            snprintf(b, sizeof b, "i = %i, x = %24.16e", i, x);
            line = b;
            break;
        case 2:
            if (head) l.logHead("<%s> %d%%", word.c_str(), i);
            else l.log("<%s> %d%%", word.c_str(), i);
            line = "<" + word + "> " + std::to_string(i) + "%";
            break;
        case 3: // all kinds of arguments, many of them
            if (head) app.logHead("%d %d %d %ld %c %g %s %d %f %f", i, i + 1, i + 2, (long)i * 100000, 'z', 0.5, "last", 7, 1.5, -2.25);
            else app.log("%d %d %d %ld %c %g %s %d %f %f", i, i + 1, i + 2, (long)i * 100000, 'z', 0.5, "last", 7, 1.5, -2.25);
            line = std::to_string(i) + " " + std::to_string(i + 1) + " " + std::to_string(i + 2) + " " + std::to_string((long)i * 100000) + " z 0.5 last 7 1.500000 -2.250000";
            break;
        default:
            if (head) l.logHead("");
            else l.log("");
        }
        if (!head || RANK == 0) want += prefix + line + "\n";
        c.count("messages logged");
    }
    fflush(stdout);
    dup2(old, 1);
    close(old);
    std::string got;
    lseek(f, 0, SEEK_SET);
    char b[65536];
    for (ssize_t n; (n = read(f, b, sizeof b)) > 0;) got.append(b, n);
    close(f);
    unlink(path.c_str());
    c.key << vh::hashStr(want) % 1000000007;
    c.check(got == want, "log", [&] { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; return "at byte " + std::to_string(i) + ": '" + got.substr(i, 60) + "' want '" + want.substr(i, 60) + "'"; });
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK);
    MPI_Comm_size(MPI_COMM_WORLD, &SIZE);
    vh::Main m(argc, argv);
    m.mode("C12", "solve", 60, 800, parallelSolve);
    m.mode("C13", "scalars", 60, 600, scalars);
    m.mode("C13", "payloads", 250, 3000, payloads);
    m.mode("C22", "stages", 20, 300, stageTimers);
    m.mode("C22", "logs", 100, 2000, logs);
    m.mode("C13", "gathers", 100, 1000, gathers);
    return m.run();
}
