/* C20: distributed vectors and matrices against serial models, on several ranks and communicators.
 * Every rank generates the same case; who writes which entry is drawn per entry, so writers and owners differ. */
#include "efx.hpp"
#include <SpecialMatrices.hpp>
#include <numeric>
#include <petscksp.h>
using namespace efx;

static int RANK = 0, SIZE = 1;

struct Group { // the communicator of a case: everyone, or a split of them (all ranks take part)
    MPI_Comm comm = MPI_COMM_WORLD;
    bool owned = false;
    int rank, size;
    Group(Case &c) {
        Rng &r = c.rng;
        int kind = r.integer(0, 3);
        if (kind == 0) comm = MPI_COMM_SELF, c.key << "self ";
        else if (kind == 1) {
            std::vector<int> colour(SIZE);
            for (int &k : colour) k = r.integer(0, 1);
            bool reverse = r.chance(0.5);
            MPI_Comm_split(MPI_COMM_WORLD, colour[RANK], reverse ? -RANK : RANK, &comm);
            owned = true;
            c.key << "split ";
        } else c.key << "world ";
        MPI_Comm_rank(comm, &rank);
        MPI_Comm_size(comm, &size);
    }
    ~Group() { if (owned) MPI_Comm_free(&comm); }
};
static std::vector<int> splitSizes(Rng &r, int n, int parts) { // local sizes, some of them zero
    std::vector<int> s(parts, 0);
    for (int i = 0; i < n; i++) s[r.integer(0, parts - 1)]++;
    return s;
}
static void ok(Case &c, PetscErrorCode e, const char *what) { c.check(e == 0, std::string("error-code:") + what, [&] { return std::to_string(e); }); }
static Vector<int> ints(const std::vector<int> &v) { Vector<int> x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
static Vector<double> reals(const std::vector<double> &v) { Vector<double> x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }

static void holds(Case &c, Vec v, const DVec &model, const std::string &sig) { // the entries this rank owns
    PetscInt a, b, n;
    VecGetSize(v, &n);
    if (!c.check(n == (int)model.size(), sig + ":size", [&] { return std::to_string(n) + " want " + std::to_string(model.size()); })) return;
    VecGetOwnershipRange(v, &a, &b);
    const double *p;
    VecGetArrayRead(v, &p);
    for (int i = a; i < b; i++) if (!c.near(p[i - a], model[i], 1e-12 * (1 + std::fabs(model[i])), sig, "entry " + std::to_string(i))) break;
    VecRestoreArrayRead(v, &p);
}

// ---- vectors ------------------------------------------------------------------------------------------------------
using PV = ParallelVector<double>;
struct Made { std::unique_ptr<PV> v; DVec model; };
static Made makeVector(Case &c, Group &g, int n, const std::vector<int> &local) {
    Rng &r = c.rng;
    Made m;
    m.model.assign(n, 0);
    int how = r.integer(0, 4);
    bool decide = r.chance(0.6);
    int ln = decide ? PETSC_DECIDE : local[g.rank];
    c.key << "v" << how << (decide ? "d " : " ");
    if (how < 2) {
        if (how == 0) m.v.reset(new PV(g.comm, ln, n));
        else m.v.reset(new PV(g.comm, ln, n, VECSTANDARD));
    } else if (how == 2) { // by hand
        m.v.reset(new PV(g.comm));
        ok(c, m.v->create(), "create");
        ok(c, m.v->setSizes(ln, n), "setSizes");
        ok(c, r.chance(0.5) ? m.v->setFromOptions() : m.v->setType(VECSTANDARD), "setType");
    } else { // from a serial one
        for (double &x : m.model) x = r.real(-5, 5);
        Vector<double> s = reals(m.model);
        if (how == 3) m.v.reset(new PV(g.comm, s));
        else m.v.reset(new PV(g.comm, s, VECSTANDARD));
        ok(c, m.v->beginAssembly(), "beginAssembly");
        ok(c, m.v->endAssembly(), "endAssembly");
        c.check(toVec(s) == m.model, "vector:serial-source-changed");
    }
    c.check(m.v->getComm() == g.comm && m.v->getRank() == g.rank && m.v->getSize() == g.size, "vector:communicator");
    if (!decide && how < 3) {
        PetscInt k;
        VecGetLocalSize(m.v->vec, &k);
        c.check(k == ln, "vector:local-size", [&] { return std::to_string(k) + " want " + std::to_string(ln); });
    }
    return m;
}
static void write(Case &c, Group &g, Made &m) {
    Rng &r = c.rng;
    int n = m.model.size();
    bool add = r.chance(0.4);
    bool all = r.chance(0.3); // every rank writes the same values (inserting) or a share (adding)
    std::vector<int> mine;
    DVec values;
    for (int i = 0; i < n; i++) {
        bool touch = r.chance(0.6);
        int writer = r.integer(0, g.size - 1);
        double v = r.real(-3, 3);
        if (!touch) continue;
        if (all || writer == g.rank) { mine.push_back(i); values.push_back(v); }
        if (add) m.model[i] += v * (all ? g.size : 1);
        else m.model[i] = v;
    }
    Rng own(c.rng.next() + 31 * g.rank); // each rank writes in its own order and pieces
    for (size_t i = mine.size(); i > 1; i--) { size_t j = own.integer(0, i - 1); std::swap(mine[i - 1], mine[j]); std::swap(values[i - 1], values[j]); }
    auto mode = add ? ADD_VALUES : INSERT_VALUES;
    size_t at = 0;
    while (at < mine.size()) {
        size_t k = std::min<size_t>(mine.size() - at, own.integer(1, 5));
        if (k == 1 && own.chance(0.7)) ok(c, m.v->setValue(mine[at], values[at], mode), "setValue");
        else ok(c, m.v->setValues(ints({mine.begin() + at, mine.begin() + at + k}), reals({values.begin() + at, values.begin() + at + k}), mode), "setValues");
        at += k;
    }
    ok(c, m.v->beginAssembly(), "beginAssembly");
    ok(c, m.v->endAssembly(), "endAssembly");
    c.count(add ? "entries added" : "entries inserted", mine.size());
}
static void vectors(Case &c) {
    Rng &r = c.rng;
    Group g(c);
    int n = r.chance(0.04) ? r.pick({64, 65, 128, 256, 300, r.integer(61, 700)}) : r.pick({1, 2, 3, 7, r.integer(1, 60)});
    auto local = splitSizes(r, n, g.size);
    c.key << "n=" << n << " ranks=" << g.size << " ";
    c.nontrivial = g.size > 1;
    std::vector<Made> vs;
    int k = r.integer(1, 3);
    for (int i = 0; i < k; i++) vs.push_back(makeVector(c, g, n, local));
    for (int step = r.integer(0, 3); step > 0; step--) write(c, g, vs[r.integer(0, k - 1)]);
    for (auto &m : vs) holds(c, m.v->vec, m.model, "vector");
    stopTogether(c);
    // copies: another name for the same distributed vector; usable and freed once, whatever is destroyed first
    std::vector<std::unique_ptr<PV>> copies;
    std::vector<int> of;
    for (int i = r.integer(0, 4); i > 0; i--) {
        int j = r.integer(0, k - 1);
        int how = r.integer(0, 2);
        if (how == 0) copies.emplace_back(new PV(*vs[j].v));
        else if (how == 1) { copies.emplace_back(new PV(g.comm)); *copies.back() = *vs[j].v; }
        else { // over a vector of its own
            auto other = makeVector(c, g, n, local);
            *other.v = *vs[j].v;
            copies.push_back(std::move(other.v));
            PV &self = *copies.back();
            self = self;
        }
        c.check(copies.back()->getComm() == g.comm, "vector:copy-communicator");
        of.push_back(j);
        c.count("vector copies");
    }
    std::vector<Vec> handles;
    for (auto &m : vs) { PetscObjectReference((PetscObject)m.v->vec); handles.push_back(m.v->vec); }
    std::vector<int> order(k + copies.size());
    std::iota(order.begin(), order.end(), 0);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.integer(0, i - 1)]);
    for (int d : order) {
        if (d < k) vs[d].v.reset();
        else copies[d - k].reset();
        for (size_t i = 0; i < copies.size(); i++) if (copies[i]) holds(c, copies[i]->vec, vs[of[i]].model, "vector:copy-after-destroying-another");
        for (auto &m : vs) if (m.v) holds(c, m.v->vec, m.model, "vector:after-destroying-a-copy");
        stopTogether(c);
    }
    for (size_t i = 0; i < handles.size(); i++) {
        PetscInt refs = 0;
        PetscObjectGetReference((PetscObject)handles[i], &refs);
        c.check(refs == 1, "vector:not-freed", [&] { return std::to_string(refs - 1) + " left over"; });
    }
    stopTogether(c);
    for (size_t i = 0; i < handles.size(); i++) {
        holds(c, handles[i], vs[i].model, "vector:handle");
        VecDestroy(&handles[i]);
    }
    stopTogether(c);
}

// ---- matrices -----------------------------------------------------------------------------------------------------
using PM = ParallelMatrix<double>;
struct Mod { int m = 0, n = 0; DVec a; double &operator()(int i, int j) { return a[(size_t)i * n + j]; } Mod() {} Mod(int m, int n) : m(m), n(n), a((size_t)m * n, 0) {} };
struct MadeM { std::unique_ptr<PM> p; Mod model; bool sized = true; };
static void assemble(Case &c, PM &p) {
    ok(c, p.beginAssembly(MAT_FINAL_ASSEMBLY), "beginAssembly");
    ok(c, p.endAssembly(MAT_FINAL_ASSEMBLY), "endAssembly");
}
static MadeM makeMatrix(Case &c, Group &g, int m, int n, const std::vector<int> &lr, const std::vector<int> &lc) {
    Rng &r = c.rng;
    MadeM x;
    x.model = Mod(m, n);
    int how = r.integer(0, 5);
    bool decide = r.chance(0.6);
    int a = decide ? PETSC_DECIDE : lr[g.rank], b = decide ? PETSC_DECIDE : lc[g.rank];
    const char *type = r.chance(0.5) ? MATDENSE : MATAIJ;
    c.key << "m" << how << (decide ? "d" : "") << type << " ";
    bool typed = true;
    if (how == 0) x.p.reset(new PM(g.comm, a, b, m, n)), typed = false;
    else if (how == 1) x.p.reset(new PM(g.comm, a, b, m, n, type));
    else if (how == 2) {
        x.p.reset(new PM(g.comm));
        ok(c, x.p->create(), "create");
        ok(c, x.p->setSizes(a, b, m, n), "setSizes");
        ok(c, x.p->setType(type), "setType");
    } else if (how == 3) { // takes over a PETSc matrix
        Mat A;
        MatCreate(g.comm, &A);
        MatSetSizes(A, a, b, m, n);
        MatSetType(A, type);
        MatSetUp(A);
        x.p.reset(new PM(g.comm, A));
    } else {
        Matrix<double> s(m, n);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) s(i, j) = x.model(i, j) = r.chance(0.2) ? 0 : r.real(-5, 5);
        if (how == 4) x.p.reset(new PM(g.comm, s)), typed = false;
        else x.p.reset(new PM(g.comm, s, type));
        assemble(c, *x.p);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.check(s(i, j) == x.model(i, j), "matrix:serial-source-changed");
    }
    x.sized = how != 2; // a matrix made by hand reports no sizes
    if (x.sized) {
        c.check(x.p->globalRows() == m && x.p->globalCols() == n, "matrix:global-size", [&] { return std::to_string(x.p->globalRows()) + "x" + std::to_string(x.p->globalCols()) + " want " + std::to_string(m) + "x" + std::to_string(n); });
        PetscInt k = -7, l = -7;
        MatSetUp(x.p->mat);
        MatGetLocalSize(x.p->mat, &k, &l);
        c.check(x.p->localRows() == k && x.p->localCols() == l, "matrix:local-size", [&] { return "made " + std::to_string(how) + ": says " + std::to_string(x.p->localRows()) + "x" + std::to_string(x.p->localCols()) + ", has " + std::to_string(k) + "x" + std::to_string(l); });
        if (!decide && how < 4) c.check(k == a && l == b, "matrix:local-size-as-asked");
    }
    if (typed) {
        MatType t;
        MatGetType(x.p->mat, &t);
        c.check(t && std::string(t).find(std::string(type) == MATDENSE ? "dense" : "aij") != std::string::npos, "matrix:type", [&] { return std::string(t ? t : "none"); });
    }
    MatSetOption(x.p->mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
    c.check(x.p->getComm() == g.comm && x.p->getRank() == g.rank && x.p->getSize() == g.size, "matrix:communicator");
    return x;
}
static std::vector<int> subset(Rng &r, int n, double p) {
    std::vector<int> s;
    for (int i = 0; i < n; i++) if (r.chance(p)) s.push_back(i);
    if (s.empty()) s.push_back(r.integer(0, n - 1));
    for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.integer(0, i - 1)]);
    return s;
}
static void writeM(Case &c, Group &g, MadeM &x) {
    Rng &r = c.rng;
    bool add = r.chance(0.4);
    auto mode = add ? ADD_VALUES : INSERT_VALUES;
    for (int blocks = r.integer(1, 4); blocks > 0; blocks--) { // one writer at a time: a block, a vector of values, or one entry
        int writer = r.integer(0, g.size - 1), how = r.integer(0, 2);
        auto R = subset(r, x.model.m, how == 2 ? 0 : 0.4), C = subset(r, x.model.n, how == 2 ? 0 : 0.4);
        if (how == 2) { R.resize(1); C.resize(1); }
        Matrix<double> b(R.size(), C.size());
        DVec flat;
        for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < C.size(); j++) {
            double v = r.real(-3, 3);
            b(i, j) = v;
            flat.push_back(v);
            if (add) x.model(R[i], C[j]) += v;
            else x.model(R[i], C[j]) = v;
        }
        if (writer == g.rank) {
            if (how == 0) ok(c, x.p->setValues(ints(R), ints(C), b, mode), "setValues");
            else if (how == 1) ok(c, x.p->setValues(ints(R), ints(C), reals(flat), mode), "setValues");
            else ok(c, x.p->setValue(R[0], C[0], flat[0], mode), "setValue");
            c.count("blocks written");
        }
        if (!add) assemble(c, *x.p); // order between ranks
    }
    assemble(c, *x.p);
}
static void readM(Case &c, PM &p, Mod &model, const std::string &sig) { // the rows this rank owns, in every form of reading
    PetscInt a, b, m, n;
    uint64_t salt = c.rng.next();
    MatGetSize(p.mat, &m, &n);
    if (!c.check(m == model.m && n == model.n, sig + ":size")) return;
    MatGetOwnershipRange(p.mat, &a, &b);
    if (a == b) return;
    Rng r(salt + a); // ranks read different things
    std::vector<int> R, C = subset(r, n, 0.6);
    for (int i : subset(r, b - a, 0.6)) R.push_back(a + i);
    Matrix<double> out(R.size(), C.size());
    ok(c, p.getValues(ints(R), ints(C), out), "getValues");
    Vector<double> flat((int)(R.size() * C.size()));
    ok(c, p.getValues(ints(R), ints(C), flat), "getValues");
    for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < C.size(); j++) {
        double w = model(R[i], C[j]), t = 1e-12 * (1 + std::fabs(w));
        std::string at = std::to_string(R[i]) + "," + std::to_string(C[j]);
        if (!c.near(out(i, j), w, t, sig + ":block", at) || !c.near(flat[i * C.size() + j], w, t, sig + ":flat", at)) return;
    }
    double v = -9e99;
    ok(c, p.getValue(R[0], C[0], v), "getValue");
    c.near(v, model(R[0], C[0]), 1e-12 * (1 + std::fabs(v)), sig + ":entry");
    for (int i = a; i < b; i++) for (int j = 0; j < n; j++) {
        double e = -9e99;
        PetscInt ii = i, jj = j;
        MatGetValues(p.mat, 1, &ii, 1, &jj, &e);
        if (!c.near(e, model(i, j), 1e-12 * (1 + std::fabs(model(i, j))), sig + ":held", std::to_string(i) + "," + std::to_string(j))) return;
    }
}
static void product(Case &c, Group &g, PM &p, Mod &model, const std::string &sig) {
    Rng &r = c.rng;
    DVec x(model.n), want(model.m, 0);
    for (double &v : x) v = r.real(-2, 2);
    for (int i = 0; i < model.m; i++) for (int j = 0; j < model.n; j++) want[i] += model(i, j) * x[j];
    Vec vx, vy;
    MatCreateVecs(p.mat, &vx, &vy);
    PetscInt lx;
    VecGetLocalSize(vx, &lx);
    PV px(g.comm, lx, model.n);
    if (g.rank == 0) { std::vector<int> idx(model.n); std::iota(idx.begin(), idx.end(), 0); ok(c, px.setValues(ints(idx), reals(x), INSERT_VALUES), "setValues"); }
    px.beginAssembly();
    px.endAssembly();
    ok(c, MatMult(p.mat, px.vec, vy), "MatMult");
    double s = 0;
    for (double v : want) s = std::max(s, std::fabs(v));
    PetscInt a, b;
    VecGetOwnershipRange(vy, &a, &b);
    const double *q;
    VecGetArrayRead(vy, &q);
    for (int i = a; i < b; i++) c.near(q[i - a], want[i], 1e-11 * (1 + s), sig);
    VecRestoreArrayRead(vy, &q);
    VecDestroy(&vx);
    VecDestroy(&vy);
    c.count("products");
}
static void matrices(Case &c) {
    Rng &r = c.rng;
    Group g(c);
    int big = r.chance(0.04) ? 80 : 25;
    int m = r.pick({1, 2, 5, r.integer(1, big)}), n = r.chance(0.3) ? m : r.pick({1, 2, 5, r.integer(1, big)});
    auto lr = splitSizes(r, m, g.size), lc = splitSizes(r, n, g.size);
    c.key << m << "x" << n << " ranks=" << g.size << " ";
    c.nontrivial = g.size > 1;
    MadeM x = makeMatrix(c, g, m, n, lr, lc);
    for (int step = r.integer(0, 3); step > 0; step--) writeM(c, g, x);
    assemble(c, *x.p);
    readM(c, *x.p, x.model, "matrix");
    stopTogether(c);
    product(c, g, *x.p, x.model, "matrix:product");
    stopTogether(c);
    if (r.chance(0.5)) { // part of it, rows and columns chosen from the ones each rank owns
        PetscInt a, b, p, q;
        MatGetOwnershipRange(x.p->mat, &a, &b);
        MatGetOwnershipRangeColumn(x.p->mat, &p, &q);
        std::vector<char> keepR(m), keepC(n);
        for (auto &k : keepR) k = r.chance(0.6);
        for (auto &k : keepC) k = r.chance(0.6);
        std::vector<int> R, C, mr, mc;
        for (int i = 0; i < m; i++) if (keepR[i]) { R.push_back(i); if (a <= i && i < b) mr.push_back(i); }
        for (int j = 0; j < n; j++) if (keepC[j]) { C.push_back(j); if (p <= j && j < q) mc.push_back(j); }
        if (!R.empty() && !C.empty()) {
            IS ir, ic;
            ISCreateGeneral(g.comm, mr.size(), mr.data(), PETSC_COPY_VALUES, &ir);
            ISCreateGeneral(g.comm, mc.size(), mc.data(), PETSC_COPY_VALUES, &ic);
            PM part(g.comm, *x.p, ir, ic);
            Mod pm(R.size(), C.size());
            for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < C.size(); j++) pm(i, j) = x.model(R[i], C[j]);
            c.check(part.globalRows() == pm.m && part.globalCols() == pm.n && part.localRows() == (int)mr.size() && part.localCols() == (int)mc.size(), "submatrix:size");
            readM(c, part, pm, "submatrix");
            ISDestroy(&ir);
            ISDestroy(&ic);
            c.count("submatrices");
            if (r.chance(0.5)) { x.p.reset(); readM(c, part, pm, "submatrix:after-destroying-the-source"); x.p.reset(new PM(g.comm)); *x.p = std::move(part); x.model = pm; x.sized = true; m = pm.m; n = pm.n; c.key << "sub "; }
        }
    }
    stopTogether(c);
    // copies, moves, and destruction in a random order
    Mat handle = x.p->mat;
    PetscObjectReference((PetscObject)handle);
    std::vector<Mat> replaced;
    std::vector<std::unique_ptr<PM>> ps;
    ps.push_back(std::move(x.p));
    for (int i = r.integer(0, 4); i > 0; i--) {
        int how = r.integer(0, 2), from = r.integer(0, (int)ps.size() - 1);
        if (how == 0) ps.emplace_back(new PM(*ps[from]));
        else {
            std::unique_ptr<PM> to;
            if (how == 1) to.reset(new PM(g.comm));
            else {
                int om = r.integer(1, 6), on = r.integer(1, 6);
                auto ol = splitSizes(r, om, g.size), oc = splitSizes(r, on, g.size);
                to = makeMatrix(c, g, om, on, ol, oc).p;
                assemble(c, *to);
            }
            if (to->mat) { PetscObjectReference((PetscObject)to->mat); replaced.push_back(to->mat); }
            *to = PM(*ps[from]);
            ps.push_back(std::move(to));
        }
        PM &q = *ps.back();
        PetscInt a, b;
        MatGetLocalSize(handle, &a, &b);
        if (x.sized) c.check(q.globalRows() == m && q.globalCols() == n && q.localRows() == a && q.localCols() == b && q.getComm() == g.comm, "matrix:copy-sizes", [&] { return std::to_string(q.globalRows()) + "x" + std::to_string(q.globalCols()) + " local " + std::to_string(q.localRows()) + "x" + std::to_string(q.localCols()) + " want " + std::to_string(m) + "x" + std::to_string(n) + " local " + std::to_string(a) + "x" + std::to_string(b); });
        c.count("matrix copies");
    }
    if (r.chance(0.3)) { PM &self = *ps[0], &same = self; self = std::move(same); }
    for (size_t left = ps.size(); left > 0; left--) {
        int d = r.integer(0, (int)ps.size() - 1);
        ps.erase(ps.begin() + d);
        for (auto &p : ps) readM(c, *p, x.model, "matrix:after-destroying-a-copy");
        stopTogether(c);
    }
    PetscInt refs = 0;
    PetscObjectGetReference((PetscObject)handle, &refs);
    c.check(refs == 1, "matrix:not-freed", [&] { return std::to_string(refs - 1) + " left over"; });
    stopTogether(c);
    PM last(g.comm, handle); // takes it over and frees it
    readM(c, last, x.model, "matrix:handle");
    for (Mat q : replaced) {
        PetscObjectGetReference((PetscObject)q, &refs);
        c.check(refs == 1, "matrix:replaced-not-freed", [&] { return std::to_string(refs - 1) + " left over"; });
        MatDestroy(&q);
    }
    stopTogether(c);
}
static void identity(Case &c) {
    Rng &r = c.rng;
    Group g(c);
    int n = r.chance(0.04) ? r.integer(41, 200) : r.pick({1, 2, 5, r.integer(1, 40)}), how = r.integer(0, 2);
    const char *type = r.chance(0.5) ? MATDENSE : MATAIJ;
    if (how == 0 && g.comm != MPI_COMM_WORLD) how = 1;
    c.key << "n=" << n << " how=" << how << type << " ranks=" << g.size;
    c.nontrivial = g.size > 1;
    std::unique_ptr<ParallelIdentityMatrix<double>> p;
    if (how == 0) p.reset(new ParallelIdentityMatrix<double>(n));
    else if (how == 1) p.reset(new ParallelIdentityMatrix<double>(g.comm, n));
    else p.reset(new ParallelIdentityMatrix<double>(g.comm, n, type));
    PetscInt a, b;
    MatGetLocalSize(p->mat, &a, &b);
    c.check(p->globalRows() == n && p->globalCols() == n && p->localRows() == a && p->localCols() == b, "identity:size");
    Mod model(n, n);
    for (int i = 0; i < n; i++) model(i, i) = 1;
    if (how == 2) {
        MatType t;
        MatGetType(p->mat, &t);
        c.check(t && std::string(t).find(std::string(type) == MATDENSE ? "dense" : "aij") != std::string::npos, "identity:type", [&] { return std::string(t ? t : "none"); });
        PetscBool done;
        MatAssembled(p->mat, &done);
        if (c.check(done == PETSC_TRUE, "identity:not-assembled")) readM(c, *p, model, "identity");
    }
    stopTogether(c);
    product(c, g, *p, model, "identity:product");
    stopTogether(c);
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK);
    MPI_Comm_size(MPI_COMM_WORLD, &SIZE);
    vh::Main m(argc, argv);
    PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
    m.mode("C20", "vectors", 300, 4000, vectors);
    m.mode("C20", "matrices", 300, 4000, matrices);
    m.mode("C20", "identity", 60, 600, identity);
    return m.run();
}
