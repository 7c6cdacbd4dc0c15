/* Monitors for C09 (refinement), C10 (traversals), C11 (paths, rectangles), on any number of ranks. */
#include "efx.hpp"
#include <algorithm>
using namespace efx;

static int RANK = 0, SIZE = 1;

// ---- forests --------------------------------------------------------------------------------------------------
// The path of a quadrant, from its coordinates alone
static std::string pathOf(const p4est_quadrant_t *q) {
    std::string p = "0";
    for (int l = 1; l <= q->level; l++) {
        int bit = P4EST_MAXLEVEL - l;
        p += (char)('0' + ((q->x >> bit) & 1) + 2 * ((q->y >> bit) & 1));
    }
    return p;
}
struct Forest { // a random forest of /repo's single-tree connectivity
    p4est_connectivity_t *conn;
    p4est_t *p4est;
    static inline uint64_t salt;
    static inline int deepest;
    static inline double chance;
    static inline std::string toward; // the path of a deep quadrant
    Forest(Case &c, const Box &b, int maxl) {
        auto &r = c.rng;
        conn = EllipticForest::p4est::p4est_connectivity_new_square_domain(b.x0, b.x1, b.y0, b.y1);
        int minl = r.integer(0, std::min(2, maxl));
        p4est = p4est_new_ext(MPI_COMM_WORLD, conn, 0, minl, 1, 0, NULL, NULL);
        salt = r.next();
        deepest = maxl;
        chance = r.real(0.15, 0.7);
        toward = "";
        if (r.chance(0.1)) { // one leaf far deeper than the others
            toward = "0";
            for (int k = r.integer(6, 17), in = r.integer(0, 3); k > 0; k--) toward += (char)('0' + (r.chance(0.5) ? in : r.integer(0, 3)));
            c.key << "toward " << toward << " ";
        }
        p4est_refine(p4est, 1, [](p4est_t *, p4est_topidx_t, p4est_quadrant_t *q) {
            if (!toward.empty() && q->level < (int)toward.size() - 1 && toward.compare(0, q->level + 1, pathOf(q)) == 0) return 1;
            if (q->level >= deepest) return 0;
            uint64_t h = vh::mix(salt ^ vh::mix(q->level * 1315423911ull + vh::mix((uint64_t)q->x * 2654435761ull ^ q->y)));
            return (h >> 11) * (1.0 / 9007199254740992.0) < chance ? 1 : 0;
        }, NULL);
        bool balanced = r.chance(0.5);
        if (balanced) p4est_balance(p4est, P4EST_CONNECT_CORNER, NULL);
        p4est_partition(p4est, 0, NULL);
        c.key << "forest min=" << minl << " max=" << maxl << " p=" << vh::shortnum(chance) << " salt=" << salt
              << (balanced ? " balanced" : "") << " leaves=" << p4est->global_num_quadrants << "; ";
    }
    ~Forest() { p4est_destroy(p4est); p4est_connectivity_destroy(conn); }
    Forest(const Forest &) = delete;
};
struct Shape { // the whole tree as every rank should see it
    std::vector<std::string> order;                       // pre-order
    std::map<std::string, std::set<int>> owners;          // node -> ranks with a leaf below it
    std::set<std::string> leaves;
    bool leaf(const std::string &p) const { return leaves.count(p) > 0; }
    bool mine(const std::string &p) const { auto i = owners.find(p); return i != owners.end() && i->second.count(RANK); }
};
static Shape shapeOf(p4est_t *p4est) {
    std::string text;
    if (p4est->local_num_quadrants > 0) {
        p4est_tree_t *t = p4est_tree_array_index(p4est->trees, 0);
        for (size_t i = 0; i < t->quadrants.elem_count; i++) text += pathOf(p4est_quadrant_array_index(&t->quadrants, i)) + " ";
    }
    Shape s;
    auto all = gatherTexts(text);
    for (int r = 0; r < (int)all.size(); r++)
        for (auto &w : words(all[r])) {
            s.leaves.insert(w);
            for (size_t n = 1; n <= w.size(); n++) s.owners[w.substr(0, n)].insert(r);
        }
    for (auto &[p, o] : s.owners) s.order.push_back(p); // lexicographic = pre-order
    return s;
}
static std::vector<std::string> postOrder(const Shape &s) {
    std::vector<std::string> out;
    std::function<void(const std::string &)> go = [&](const std::string &p) {
        if (!s.leaf(p)) for (char k = '0'; k < '4'; k++) go(p + k);
        out.push_back(p);
    };
    go("0");
    return out;
}
static uint64_t h2(uint64_t a, uint64_t b) { return vh::mix(a * 0x9e3779b97f4a7c15ull + vh::mix(b)); }
static double val(uint64_t h) { return (double)(int64_t)(h >> 12); } // exactly representable
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// ---- C10 -------------------------------------------------------------------------------------------------------
template <class T> struct Access;
template <> struct Access<double> {
    static double get(double &d) { return d; }
    static void set(double &d, double v) { d = v; }
};
template <> struct Access<FiniteVolumePatch> { // the payload travels in the vectors and the coarsening count
    static double get(FiniteVolumePatch &p) { return p.vectorG().size() ? p.vectorG()[p.vectorG().size() - 1] : 0; }
    static void set(FiniteVolumePatch &p, double v) {
        p.vectorG() = Vector<double>(1 + (int)(bits(v) % 5), v);
        p.matrixT() = Matrix<double>(2, 1 + (int)(bits(v) % 3), v / 2);
    }
};
struct DoubleFactory : public AbstractNodeFactory<double> {
    int created = 0;
    Node<double> *createNode(double d, std::string path, int level, int pf, int pl) override {
        created++;
        return new Node<double>(MPI_COMM_WORLD, d, path, level, pf, pl);
    }
    Node<double> *createChildNode(Node<double> *parent, int k, int pf, int pl) override {
        created++;
        return new Node<double>(MPI_COMM_WORLD, parent->data * 4 + k + 1, parent->path + std::to_string(k), parent->level + 1, pf, pl);
    }
    Node<double> *createParentNode(std::vector<Node<double> *> ch, int pf, int pl) override {
        return new Node<double>(MPI_COMM_WORLD, 0, ch[0]->path.substr(0, ch[0]->path.size() - 1), ch[0]->level - 1, pf, pl);
    }
};
static std::string joined(const std::vector<std::string> &v, size_t around) {
    std::string o;
    for (size_t i = around > 3 ? around - 3 : 0; i < v.size() && i < around + 4; i++) o += (i == around ? ">" : "") + v[i] + " ";
    return o;
}
static void sameSequence(Case &c, const std::vector<std::string> &got, const std::vector<std::string> &want, const std::string &sig) {
    c.count("callbacks observed", got.size());
    size_t n = 0;
    while (n < got.size() && n < want.size() && got[n] == want[n]) n++;
    c.check(n == got.size() && n == want.size(), sig, [&] {
        return "rank " + std::to_string(RANK) + " of " + std::to_string(SIZE) + ": visit " + std::to_string(n) + ": got [" + joined(got, n) + "] of " + std::to_string(got.size()) +
               ", want [" + joined(want, n) + "] of " + std::to_string(want.size());
    });
}
template <class T> struct Driver { // a quadtree, its shape, and the data every node should hold
    Quadtree<T> *tree;
    const Shape *shape;
    std::map<std::string, double> model;
    void resetModel(double d0) {
        model.clear();
        for (auto &p : shape->order) model[p] = d0;
    }
    bool pruned(const std::string &p, const std::set<std::string> &cut) { // below a pruned node?
        for (size_t n = 1; n < p.size(); n++) if (cut.count(p.substr(0, n))) return true;
        return false;
    }
    void node(Case &c, Node<T> *n, const std::string &sig) {
        c.check(n->level == (int)n->path.size() - 1 && n->leaf == shape->leaf(n->path), sig + ":node", [&] { return n->str(); });
        double got = Access<T>::get(n->data);
        c.check(bits(got) == bits(model[n->path]), sig + ":data", [&] {
            return "rank " + std::to_string(RANK) + " node " + n->path + " holds " + vh::num(got) + " not " + vh::num(model[n->path]);
        });
    }
    void operation(Case &c, int op, uint64_t salt, double cutChance) {
        static const char *names[] = {"pre-order", "pre-order-data", "post-order", "post-order-data", "merge", "split"};
        std::string sig = names[op];
        std::set<std::string> cut;
        if (op == 0 || op == 5)
            for (auto &p : shape->order)
                if ((h2(vh::hashStr(p), salt) >> 11) * (1.0 / 9007199254740992.0) < cutChance) cut.insert(p);
        bool post = op == 2 || op == 3 || op == 4;
        std::vector<std::string> want, got, base = post ? postOrder(*shape) : shape->order;
        // writes follow from what the node (or its family) holds at that moment
        auto fresh = [&](const std::string &p, double old) { return val(h2(bits(old) ^ salt, vh::hashStr(p))); };
        auto merged = [&](const std::array<double, 4> &k) {
            uint64_t h = salt;
            for (int i = 0; i < 4; i++) h = h2(h + i, bits(k[i]));
            return val(h);
        };
        auto next = model;
        for (auto &p : base) {
            if (!post && pruned(p, cut)) continue;
            if (shape->mine(p)) want.push_back(p);
            if (op < 4) { next[p] = fresh(p, model[p]); continue; }
            if (shape->leaf(p)) { next[p] = fresh(p, next[p]); continue; }
            if (op == 4) {
                std::array<double, 4> k;
                for (int i = 0; i < 4; i++) k[i] = next[p + std::to_string(i)];
                next[p] = merged(k);
            } else
                for (int i = 0; i < 4; i++) next[p + std::to_string(i)] = val(h2(bits(next[p]) + i, salt));
        }
        auto before = model;
        std::map<T *, std::string> byData;
        if (op == 1 || op == 3)
            for (auto &[p, n] : tree->map) if (n) byData[&n->data] = p;
        auto visitNode = [&](Node<T> *n) {
            got.push_back(n->path);
            node(c, n, sig);
            double v = fresh(n->path, Access<T>::get(n->data));
            Access<T>::set(n->data, v);
            model[n->path] = v;
            return cut.count(n->path) ? 0 : 1;
        };
        auto visitData = [&](T &d) {
            std::string p = byData.count(&d) ? byData[&d] : "?";
            got.push_back(p);
            double v = fresh(p, Access<T>::get(d));
            Access<T>::set(d, v);
        };
        auto visitFamily = [&](Node<T> *n, std::vector<Node<T> *> ch) {
            got.push_back(n->path);
            c.check(ch.size() == 4, sig + ":family-size");
            std::array<double, 4> k{};
            for (int i = 0; i < 4 && i < (int)ch.size(); i++) {
                std::string want = n->path + std::to_string(i);
                if (!c.check(ch[i] != nullptr && ch[i]->path == want, sig + ":children", [&] { return "child " + std::to_string(i) + " of " + n->path + " is " + (ch[i] ? ch[i]->path : "null"); })) return 1;
                k[i] = Access<T>::get(ch[i]->data);
                c.check(ch[i]->level == (int)want.size() - 1 && ch[i]->leaf == shape->leaf(want), sig + ":child-node", [&] { return ch[i]->str(); });
                if (op == 4)
                    c.check(bits(k[i]) == bits(next[want]), sig + ":child-data", [&] { return "rank " + std::to_string(RANK) + " child " + want + " holds " + vh::num(k[i]) + " not " + vh::num(next[want]); });
            }
            if (op == 4) {
                double v = merged(k);
                Access<T>::set(n->data, v);
            } else {
                double mine = Access<T>::get(n->data);
                for (int i = 0; i < 4; i++) {
                    double v = val(h2(bits(mine) + i, salt));
                    Access<T>::set(ch[i]->data, v);
                    model[ch[i]->path] = v;
                }
            }
            return cut.count(n->path) ? 0 : 1;
        };
        if (op == 0) tree->traversePreOrder(std::function<int(Node<T> *)>(visitNode));
        else if (op == 1) tree->traversePreOrder(std::function<void(T &)>(visitData));
        else if (op == 2) tree->traversePostOrder(std::function<int(Node<T> *)>(visitNode));
        else if (op == 3) tree->traversePostOrder(std::function<void(T &)>(visitData));
        else if (op == 4) tree->merge(visitNode, visitFamily);
        else tree->split(visitNode, visitFamily);
        sameSequence(c, got, want, sig + ":sequence");
        model = next;
        // what the callbacks wrote is what the nodes now hold, on every rank that has them
        for (auto &[p, n] : tree->map) {
            bool has = n != nullptr;
            c.check(has == shape->mine(p), "node-ownership", [&] { return "rank " + std::to_string(RANK) + " of " + std::to_string(SIZE) + " node " + p + (has ? " present" : " absent"); });
            if (has) node(c, n, sig + ":after");
        }
    }
};
template <class T> static void traversals(Case &c, T rootData, AbstractNodeFactory<T> &factory, double (*initial)(const std::string &, double)) {
    auto &r = c.rng;
    Box box = randomBox(r);
    Forest f(c, box, r.integer(0, 4));
    Shape shape = shapeOf(f.p4est);
    c.nontrivial = shape.leaves.size() > 1;
    int trees = r.chance(0.3) ? 2 : 1;
    std::vector<std::unique_ptr<Quadtree<T>>> qt;
    std::vector<Driver<T>> d(trees);
    for (int i = 0; i < trees; i++) {
        if (r.chance(0.5)) qt.emplace_back(new Quadtree<T>(MPI_COMM_WORLD, f.p4est, rootData, factory));
        else {
            qt.emplace_back(new Quadtree<T>());
            *qt.back() = Quadtree<T>(MPI_COMM_WORLD, f.p4est, rootData, factory);
        }
        d[i].tree = qt[i].get();
        d[i].shape = &shape;
        for (auto &p : shape.order) d[i].model[p] = initial(p, 0);
        // branches held wholly by another rank need not be known here
        for (auto &[p, n] : qt[i]->map) c.check(shape.owners.count(p) > 0, "map-keys", [&] { return p + " is not a node"; });
        for (auto &p : shape.order) c.check(!shape.mine(p) || qt[i]->map.count(p), "map-keys", [&] { return p + " is missing"; });
        if (shape.mine("0") ) {
            c.check(&qt[i]->root() == &qt[i]->map["0"]->data, "root");
            for (auto &[p, n] : qt[i]->map) {
                if (!n) continue;
                int size = 0, res = 0;
                MPI_Comm_size(n->node_comm, &size);
                c.check(size == (int)shape.owners[p].size(), "node-communicator", [&] { return p + " shared by " + std::to_string(size) + " ranks, want " + std::to_string(shape.owners[p].size()); });
                c.check(n->pfirst == *shape.owners[p].begin() && n->plast == *shape.owners[p].rbegin(), "node-ranks", [&] { return n->str(); });
                MPI_Comm_compare(n->node_comm, MPI_COMM_WORLD, &res);
            }
        }
    }
    stopTogether(c);
    int steps = r.integer(2, 7);
    for (int s = 0; s < steps; s++) {
        int which = r.integer(0, trees - 1), op = r.integer(0, 5);
        uint64_t salt = r.next();
        double cut = r.pick({0.0, 0.0, 0.1, 0.4});
        c.key << which << "abcdef"[op] << (cut > 0 ? "~" : "") << " ";
        d[which].operation(c, op, salt, cut);
        c.count(std::string("traversals"));
        stopTogether(c);
    }
    if (trees == 2 && r.chance(0.5)) { // the other tree outlives this one
        qt[1].reset();
        d[0].operation(c, r.integer(0, 5), r.next(), 0);
        stopTogether(c);
    }
}
static void traverseDoubles(Case &c) {
    DoubleFactory f;
    traversals<double>(c, 7.0, f, [](const std::string &p, double) { double v = 7; for (size_t i = 1; i < p.size(); i++) v = v * 4 + (p[i] - '0') + 1; return v; });
}
static void traversePatches(Case &c) {
    FiniteVolumeNodeFactory f(MPI_COMM_WORLD);
    FiniteVolumeGrid g(MPI_COMM_WORLD, 2, 0, 1, 3, 0, 1);
    FiniteVolumePatch p(MPI_COMM_WORLD, g);
    traversals<FiniteVolumePatch>(c, p, f, [](const std::string &, double) { return 0.0; });
}
// iteratePatches and iterateCells give this rank's leaves and cells in order
static void iterate(Case &c) {
    auto &r = c.rng;
    Box box = randomBox(r);
    Forest f(c, box, r.integer(0, 4));
    Shape shape = shapeOf(f.p4est);
    c.nontrivial = shape.leaves.size() > 1;
    int nx = r.integer(1, 5), ny = r.integer(1, 5);
    FiniteVolumeGrid g(MPI_COMM_WORLD, nx, box.x0, box.x1, ny, box.y0, box.y1);
    FiniteVolumePatch root(MPI_COMM_WORLD, g);
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    Mesh<FiniteVolumePatch> mesh(MPI_COMM_WORLD, f.p4est, root, factory);
    std::map<FiniteVolumePatch *, std::string> by;
    std::vector<std::string> want, got;
    for (auto &p : shape.order) if (shape.leaf(p) && shape.mine(p)) { want.push_back(p); by[&mesh.quadtree.map[p]->data] = p; }
    mesh.iteratePatches([&](FiniteVolumePatch &p) { got.push_back(by.count(&p) ? by[&p] : "?"); });
    sameSequence(c, got, want, "iteratePatches");
    DVec wx, gx;
    for (auto &p : want) {
        Box b = box;
        for (size_t i = 1; i < p.size(); i++) b = b.child(p[i] - '0');
        ref::Grid gr{b, nx, ny};
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { wx.push_back(gr.x(i)); wx.push_back(gr.y(j)); }
    }
    mesh.iterateCells([&](double x, double y) { gx.push_back(x); gx.push_back(y); });
    c.nearAll(gx, wx, 1e-12 * (std::fabs(box.x0) + std::fabs(box.x1) + std::fabs(box.y0) + std::fabs(box.y1)), "iterateCells");
    stopTogether(c);
}

// ---- C09 and C11: what every node's patch should be ------------------------------------------------------------
static void patchMatches(Case &c, FiniteVolumePatch &patch, const std::string &path, const Box &box, int nx, int ny, const std::string &sig) {
    Box b = box;
    for (size_t i = 1; i < path.size(); i++) b = b.child(path[i] - '0');
    auto &g = patch.grid();
    double tol = 1e-14 * (std::fabs(box.x0) + std::fabs(box.x1) + std::fabs(box.y0) + std::fabs(box.y1));
    auto where = [&] { return "rank " + std::to_string(RANK) + " " + path; };
    c.check((int)g.nx() == nx && (int)g.ny() == ny, sig + ":cells", [&] { return where() + ": " + std::to_string(g.nx()) + "x" + std::to_string(g.ny()); });
    c.near(g.xLower(), b.x0, tol, sig + ":rectangle", where()); c.near(g.xUpper(), b.x1, tol, sig + ":rectangle", where());
    c.near(g.yLower(), b.y0, tol, sig + ":rectangle", where()); c.near(g.yUpper(), b.y1, tol, sig + ":rectangle", where());
    c.near(g.dx(), (b.x1 - b.x0) / nx, 1e-13 * (b.x1 - b.x0) + tol / nx, sig + ":spacing", where());
    c.near(g.dy(), (b.y1 - b.y0) / ny, 1e-13 * (b.y1 - b.y0) + tol / ny, sig + ":spacing", where());
    for (int i = 0; i < nx; i++) c.near(g(0, i), b.x0 + (i + 0.5) * (b.x1 - b.x0) / nx, 2 * tol, sig + ":points", where());
    for (int j = 0; j < ny; j++) c.near(g(1, j), b.y0 + (j + 0.5) * (b.y1 - b.y0) / ny, 2 * tol, sig + ":points", where());
}
static void destroyForest(Mesh<FiniteVolumePatch> &m) {
    if (!m.quadtree.p4est) return;
    auto *conn = m.quadtree.p4est->connectivity;
    p4est_destroy(m.quadtree.p4est);
    p4est_connectivity_destroy(conn);
    m.quadtree.p4est = nullptr;
}
static void refinement(Case &c) {
    auto &r = c.rng;
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    int meshes = r.pick({1, 1, 2});
    std::vector<std::unique_ptr<Mesh<FiniteVolumePatch>>> ms;
    for (int i = 0; i < meshes; i++) { ms.emplace_back(new Mesh<FiniteVolumePatch>()); ms.back()->quadtree.p4est = nullptr; }
    std::vector<std::unique_ptr<FiniteVolumeGrid>> keepG;
    std::vector<std::unique_ptr<FiniteVolumePatch>> keepP;
    int rounds = r.pick({1, 2, 3});
    for (int round = 0; round < rounds; round++) {
        auto &mesh = *ms[r.integer(0, meshes - 1)];
        int minl = r.integer(0, 3), maxl = r.integer(minl, 6), nx = r.integer(1, 6), ny = r.chance(0.5) ? nx : r.integer(1, 6);
        Problem p = randomProblem(r, c.key, nx, minl, maxl, POISSON, false);
        int special = r.integer(0, 9);
        if (special == 0) p.crit = constant(-1), p.thr = 0;                       // never
        if (special == 1) { p.crit = constant(1), p.thr = 0; p.maxl = maxl = std::min(maxl, 4); } // always
        if (special == 2) { // one point: exactly the quadrants with a cell centre this close to it
            double x0 = r.real(p.box.x0, p.box.x1), y0 = r.real(p.box.y0, p.box.y1), e = 0.03 * p.size();
            p.crit = [=](double x, double y) { return e - std::fabs(x - x0) - std::fabs(y - y0); };
            p.thr = 0;
        }
        if (special == 3) { chain(p, r, c.key, r.integer(7, 18), ny); minl = p.minl; maxl = p.maxl; }
        c.key << "ny=" << ny << " special=" << special << "; ";
        keepG.emplace_back(new FiniteVolumeGrid(MPI_COMM_WORLD, nx, p.box.x0, p.box.x1, ny, p.box.y0, p.box.y1));
        keepP.emplace_back(new FiniteVolumePatch(MPI_COMM_WORLD, *keepG.back()));
        destroyForest(mesh);
        bool outside = false;
        mesh.refineByFunction([&](double x, double y) {
            if (x < p.box.x0 || x > p.box.x1 || y < p.box.y0 || y > p.box.y1) outside = true;
            return p.crit(x, y) > p.thr;
        }, p.thr, minl, maxl, *keepP.back(), factory);
        c.check(!outside, "criterion-outside-domain");
        auto want = ref::refineLeaves(p.box, minl, maxl, [&](const Box &b) {
            ref::Grid g{b, nx, ny};
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) if (p.crit(g.x(i), g.y(j)) > p.thr) return true;
            return false;
        });
        std::string mine;
        int n = 0;
        for (auto &[path, node] : mesh.quadtree.map)
            if (node && node->leaf) { mine += path + " "; n++; patchMatches(c, node->data, path, p.box, nx, ny, "leaf-patch"); }
        std::multiset<std::string> all;
        auto texts = gatherTexts(mine);
        std::vector<int> counts;
        for (auto &t : texts) { auto w = words(t); counts.push_back(w.size()); all.insert(w.begin(), w.end()); }
        std::set<std::string> leaves(all.begin(), all.end());
        c.check(leaves.size() == all.size(), "leaf-on-two-ranks");
        c.check(leaves == want, "leaves", [&] {
            std::string extra, missing;
            for (auto &l : leaves) if (!want.count(l)) { extra = l; break; }
            for (auto &l : want) if (!leaves.count(l)) { missing = l; break; }
            return std::to_string(leaves.size()) + " leaves, want " + std::to_string(want.size()) + "; not wanted: " + extra + "; missing: " + missing;
        });
        double area = 0, cells = 0;
        for (auto &l : leaves) {
            area += std::pow(0.25, l.size() - 1);
            c.check((int)l.size() - 1 >= minl && (int)l.size() - 1 <= maxl, "level-bounds", [&] { return l; });
        }
        c.near(area, 1.0, 1e-12, "tiling");
        c.check(*std::max_element(counts.begin(), counts.end()) - *std::min_element(counts.begin(), counts.end()) <= 1, "partition-uneven", [&] { return mine; });
        for (int k : counts) cells += k;
        c.count("leaves checked", n);
        c.count("meshes");
        c.maxof("leaves in a mesh", leaves.size());
        int levels = 0;
        std::set<size_t> ls;
        for (auto &l : leaves) ls.insert(l.size());
        levels = ls.size();
        c.maxof("leaf levels in a mesh", levels);
        if (levels < 2 && rounds == 1) c.nontrivial = false;
        stopTogether(c);
    }
    for (auto &m : ms) destroyForest(*m);
}
static void nodes(Case &c) {
    auto &r = c.rng;
    Box box = randomBox(r);
    Forest f(c, box, r.integer(0, 5));
    Shape shape = shapeOf(f.p4est);
    c.nontrivial = shape.leaves.size() > 1;
    int nx = r.integer(1, 7), ny = r.chance(0.4) ? nx : r.integer(1, 7);
    c.key << nx << "x" << ny;
    FiniteVolumeGrid g(MPI_COMM_WORLD, nx, box.x0, box.x1, ny, box.y0, box.y1);
    FiniteVolumePatch root(MPI_COMM_WORLD, g);
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    Quadtree<FiniteVolumePatch> q(MPI_COMM_WORLD, f.p4est, root, factory);
    if (f.p4est->local_num_quadrants > 0) {
        p4est_tree_t *t = p4est_tree_array_index(f.p4est->trees, 0);
        for (size_t i = 0; i < t->quadrants.elem_count; i++) {
            auto *qd = p4est_quadrant_array_index(&t->quadrants, i);
            std::string got = EllipticForest::p4est::p4est_quadrant_path(qd);
            c.check(got == pathOf(qd), "quadrant-path", [&] { return got + " for " + pathOf(qd); });
        }
    }
    for (int k = 0; k < 20; k++) { // any quadrant at all
        p4est_quadrant_t qd;
        int level = r.integer(0, 20);
        p4est_quadrant_set_morton(&qd, level, level ? r.next() % (1ull << (2 * level)) : 0);
        std::string got = EllipticForest::p4est::p4est_quadrant_path(&qd);
        c.check(got == pathOf(&qd), "quadrant-path", [&] { return got + " for " + pathOf(&qd); });
    }
    for (auto &p : shape.order) {
        bool has = q.map.count(p) && q.map[p];
        c.check(has == shape.mine(p), "ownership", [&] { return p + (has ? " present" : " absent"); });
        if (!has) continue;
        auto *n = q.map[p];
        c.count("nodes checked");
        c.check(n->path == p && n->level == (int)p.size() - 1, "path-level", [&] { return p + ": " + n->str(); });
        c.check(n->leaf == shape.leaf(p), "leaf-flag", [&] { return n->str(); });
        c.check(n->pfirst == *shape.owners[p].begin() && n->plast == *shape.owners[p].rbegin() && n->isOwned(), "ranks", [&] { return n->str(); });
        patchMatches(c, n->data, p, box, nx, ny, "patch");
        if (!n->leaf)
            for (int k = 0; k < 4; k++) { // the factory's child is the tree's child
                std::unique_ptr<Node<FiniteVolumePatch>> ch(factory.createChildNode(n, k, n->pfirst, n->plast));
                c.check(ch->path == p + std::to_string(k) && ch->level == n->level + 1 && ch->pfirst == n->pfirst && ch->plast == n->plast, "factory-child", [&] { return ch->str(); });
                patchMatches(c, ch->data, ch->path, box, nx, ny, "factory-child");
            }
    }
    if (shape.mine("0")) { // children made by hand from any node, and their parent again
        auto it = q.map.begin();
        std::advance(it, r.integer(0, (int)q.map.size() - 1));
        while (!it->second) it = it == q.map.begin() ? std::prev(q.map.end()) : std::prev(it);
        auto *n = it->second;
        std::vector<Node<FiniteVolumePatch> *> ch;
        for (int k = 0; k < 4; k++) ch.push_back(factory.createChildNode(n, k, k, k + 3));
        std::unique_ptr<Node<FiniteVolumePatch>> pa(factory.createParentNode(ch, 1, 2));
        c.check(pa->path == n->path && pa->level == n->level && pa->pfirst == 1 && pa->plast == 2, "factory-parent", [&] { return pa->str(); });
        auto &a = pa->data.grid(), &b = n->data.grid();
        c.check(a.xLower() == b.xLower() && a.xUpper() == b.xUpper() && a.yLower() == b.yLower() && a.yUpper() == b.yUpper(), "factory-parent:rectangle");
        for (auto *x : ch) delete x;
    }
    stopTogether(c);
}
// After a build, a parent's grid has twice the cells of its coarsest child over the same rectangle
static void builtSizes(Case &c) {
    auto &r = c.rng;
    int nx = r.integer(3, 6), minl = r.integer(0, 2), maxl = r.integer(minl, 4);
    Problem p = randomProblem(r, c.key, nx, minl, maxl, POISSON, false);
    Setup s(p);
    HPS hps(MPI_COMM_WORLD, s.mesh, s.solver);
    int builds = r.integer(1, 2);
    c.key << "builds=" << builds;
    for (int b = 0; b < builds; b++) hps.buildStage();
    auto leaves = gatherLeaves(s);
    std::set<size_t> ls;
    for (auto &l : leaves) ls.insert(l.size());
    c.nontrivial = leaves.size() > 1;
    std::function<int(const std::string &)> cells = [&](const std::string &q) -> int {
        if (leaves.count(q)) return nx;
        int m = 1 << 30;
        for (char k = '0'; k < '4'; k++) m = std::min(m, cells(q + k));
        return 2 * m;
    };
    for (auto &[path, n] : s.mesh.quadtree.map) {
        if (!n) continue;
        int want = cells(path);
        // a finer child keeps its own grid; only its operators are coarsened
        patchMatches(c, n->data, path, p.box, want, want, "built");
        c.count("built nodes checked");
    }
    stopTogether(c);
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK);
    MPI_Comm_size(MPI_COMM_WORLD, &SIZE);
    vh::Main m(argc, argv);
    m.mode("C09", "refinement", 400, 4000, refinement);
    m.mode("C10", "doubles", 500, 6000, traverseDoubles);
    m.mode("C10", "patches", 150, 1500, traversePatches);
    m.mode("C10", "iterate", 100, 1000, iterate);
    m.mode("C11", "nodes", 300, 3000, nodes);
    m.mode("C11", "built", 60, 600, builtSizes);
    return m.run();
}
