/* C19: what is written as VTK is read back with an independent strict XML reader and compared with the mesh and the fields. */
#include "efx.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
using namespace efx;
namespace fs = std::filesystem;

static int RANK = 0, SIZE = 1;

// ---- a small strict XML reader -------------------------------------------------------------------------------------
struct Xml {
    std::string name, text;
    std::map<std::string, std::string> attr;
    std::vector<Xml> kids;
    const Xml *kid(const std::string &n) const { for (auto &k : kids) if (k.name == n) return &k; return nullptr; }
    std::vector<const Xml *> all(const std::string &n) const { std::vector<const Xml *> v; for (auto &k : kids) if (k.name == n) v.push_back(&k); return v; }
    std::string at(const std::string &k) const { auto i = attr.find(k); return i == attr.end() ? "(none)" : i->second; }
};
struct Reader {
    const std::string &s;
    size_t i = 0;
    [[noreturn]] void bad(const std::string &why) { throw std::string(why + " at byte " + std::to_string(i) + ": '" + s.substr(i > 30 ? i - 30 : 0, 60) + "'"); }
    bool is(const char *p) { return s.compare(i, strlen(p), p) == 0; }
    void blank() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    std::string word() {
        size_t a = i;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '-' || s[i] == ':' || s[i] == '.')) i++;
        if (a == i || isdigit((unsigned char)s[a]) || s[a] == '-' || s[a] == '.') bad("no name");
        return s.substr(a, i - a);
    }
    std::string decoded(char until) {
        std::string o;
        while (true) {
            if (i >= s.size()) bad("unterminated text");
            char c = s[i];
            if (c == until) return o;
            if (c == '<') { bad("'<' in an attribute"); }
            if (c == '&') {
                size_t e = s.find(';', i);
                std::string n = e == std::string::npos ? "" : s.substr(i + 1, e - i - 1);
                if (n == "amp") o += '&';
                else if (n == "lt") o += '<';
                else if (n == "gt") o += '>';
                else if (n == "quot") o += '"';
                else if (n == "apos") o += '\'';
                else if (n.size() > 1 && n[0] == '#') o += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atoi(n.c_str() + 1));
                else bad("unknown entity");
                i = e + 1;
                continue;
            }
            o += c;
            i++;
        }
    }
    Xml element() {
        if (!is("<")) bad("no element");
        i++;
        Xml x;
        x.name = word();
        while (true) {
            size_t before = i;
            blank();
            if (is("/>")) { i += 2; return x; }
            if (is(">")) { i++; break; }
            if (before == i) bad("no blank before an attribute");
            std::string k = word();
            blank();
            if (!is("=")) bad("no = after an attribute");
            i++;
            blank();
            char q = i < s.size() ? s[i] : 0;
            if (q != '"' && q != '\'') bad("unquoted attribute");
            i++;
            std::string v = decoded(q);
            i++;
            if (!x.attr.emplace(k, v).second) bad("attribute " + k + " twice");
        }
        while (true) {
            size_t a = i;
            while (i < s.size() && s[i] != '<') { if (s[i] == '&') bad("entity in data"); i++; }
            x.text += s.substr(a, i - a);
            if (i >= s.size()) bad("unclosed " + x.name);
            if (is("<!--")) { size_t e = s.find("-->", i); if (e == std::string::npos) bad("unclosed comment"); i = e + 3; continue; }
            if (is("</")) {
                i += 2;
                if (word() != x.name) bad("wrong closing tag for " + x.name);
                blank();
                if (!is(">")) bad("closing tag");
                i++;
                return x;
            }
            x.kids.push_back(element());
        }
    }
    Xml file() {
        blank();
        if (is("<?xml")) { size_t e = s.find("?>", i); if (e == std::string::npos) bad("prolog"); i = e + 2; }
        blank();
        Xml x = element();
        blank();
        if (i != s.size()) bad("text after the root element");
        return x;
    }
};
static bool readXml(Case &c, const std::string &path, Xml &out) {
    std::ifstream f(path, std::ios::binary);
    if (!c.check((bool)f, "file-missing", [&] { return path; })) return false;
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    c.count("files read back");
    c.count("bytes read back", s.size());
    Reader r{s};
    try { out = r.file(); }
    catch (const std::string &why) { c.violate("not-well-formed", fs::path(path).filename().string() + ": " + why); return false; }
    return true;
}
static DVec numbers(Case &c, const Xml &a) {
    DVec v;
    const char *p = a.text.c_str();
    while (true) {
        while (isspace((unsigned char)*p)) p++;
        if (!*p) break;
        char *e;
        v.push_back(strtod(p, &e));
        if (e == p) { c.violate("not-a-number", a.at("Name") + ": " + std::string(p).substr(0, 30)); break; }
        p = e;
    }
    return v;
}
static const Xml *array(Case &c, const Xml *parent, const std::string &name, const std::string &sig) {
    const Xml *found = nullptr;
    if (parent) for (auto &k : parent->kids) if (k.name == "DataArray" && (name.empty() || k.at("Name") == name)) { c.check(!found, sig + ":twice", [&] { return name; }); found = &k; }
    c.check(found, sig + ":missing", [&] { return "'" + name + "'"; });
    if (found) c.check(found->at("format") == "ascii", sig + ":format");
    return found;
}
static const double REL = 1e-6; // "the printed precision": the arrays are declared as 32-bit reals
static void range(Case &c, const Xml &a, const DVec &v) {
    if (v.empty() || a.at("RangeMin") == "(none)") return;
    double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
    c.near(strtod(a.at("RangeMin").c_str(), nullptr), lo, REL * std::fabs(lo), "range-min", a.at("Name"));
    c.near(strtod(a.at("RangeMax").c_str(), nullptr), hi, REL * std::fabs(hi), "range-max", a.at("Name"));
}

// ---- meshes --------------------------------------------------------------------------------------------------------
struct Cell { double x0, x1, y0, y1, xc, yc; };
struct Field { std::string name; std::function<double(double, double)> f; std::shared_ptr<Vector<double>> mine; std::string type; };
using FiniteVolumeMesh = Mesh<FiniteVolumePatch>;
static std::vector<Cell> cellsOf(FiniteVolumeMesh &mesh) {
    std::vector<Cell> v;
    for (auto &[path, n] : mesh.quadtree.map) {
        if (!n || !n->leaf || n->pfirst > RANK || n->plast < RANK) continue;
        auto &g = n->data.grid();
        for (int i = 0; i < (int)g.nx(); i++)
            for (int j = 0; j < (int)g.ny(); j++)
                v.push_back({g.xLower() + i * g.dx(), g.xLower() + (i + 1) * g.dx(), g.yLower() + j * g.dy(), g.yLower() + (j + 1) * g.dy(), g(0, i), g(1, j)});
    }
    return v;
}
static void checkMeshFiles(Case &c, FiniteVolumeMesh &mesh, const std::string &base, int number, const std::vector<Field> &fields, const Box &box) {
    std::string stem = base + "-mesh", quad = base + "-quadtree";
    if (number != -1) { char b[32]; snprintf(b, 32, "-%04i", number); stem += b; quad += b; }
    MPI_Barrier(MPI_COMM_WORLD);
    auto cells = cellsOf(mesh);
    c.count("cells described", cells.size());
    char b[32];
    snprintf(b, 32, "_%04i.vtu", RANK);
    Xml x;
    if (readXml(c, stem + b, x)) {
        c.check(x.name == "VTKFile" && x.at("type") == "UnstructuredGrid", "vtu:root");
        const Xml *grid = x.kid("UnstructuredGrid"), *piece = grid ? grid->kid("Piece") : nullptr;
        c.check(x.kids.size() == 1 && piece && grid->kids.size() == 1, "vtu:structure", [&] { return std::to_string(x.kids.size()); });
        if (piece) {
            size_t n = cells.size();
            const Xml *pa = array(c, piece->kid("Points"), "", "vtu:points"), *ca = array(c, piece->kid("Cells"), "connectivity", "vtu:connectivity"),
                      *oa = array(c, piece->kid("Cells"), "offsets", "vtu:offsets"), *ta = array(c, piece->kid("Cells"), "types", "vtu:types");
            c.stopIfViolated();
            DVec pts = numbers(c, *pa), con = numbers(c, *ca), off = numbers(c, *oa), typ = numbers(c, *ta);
            c.check(pa->at("NumberOfComponents") == "3", "vtu:point-components");
            for (auto *a : {ca, oa, ta}) c.check(a->at("type").find("Int") != std::string::npos && a->at("NumberOfComponents") == "1", "vtu:integer-type", [&] { return a->at("Name") + " " + a->at("type"); });
            c.check(pa->at("type").find("Float") == 0, "vtu:point-type");
            size_t np = strtoul(piece->at("NumberOfPoints").c_str(), nullptr, 10);
            c.check(pts.size() == 3 * np, "vtu:point-count", [&] { return std::to_string(pts.size()) + " numbers, " + std::to_string(np) + " points"; });
            c.check(piece->at("NumberOfCells") == std::to_string(n), "vtu:cell-count", [&] { return piece->at("NumberOfCells") + " want " + std::to_string(n); });
            c.check(off.size() == n, "vtu:offset-count", [&] { return std::to_string(off.size()) + " want " + std::to_string(n); });
            c.check(typ.size() == n, "vtu:type-count", [&] { return std::to_string(typ.size()) + " want " + std::to_string(n); });
            c.check(con.size() == 4 * n, "vtu:connectivity-count", [&] { return std::to_string(con.size()) + " want " + std::to_string(4 * n); });
            range(c, *pa, pts);
            range(c, *ca, con);
            range(c, *oa, off);
            range(c, *ta, typ);
            c.stopIfViolated();
            // which of the leaves' cells each written cell is
            std::map<std::pair<long, long>, std::vector<size_t>> where;
            double hx = 1e300, hy = 1e300;
            for (auto &q : cells) { hx = std::min(hx, q.x1 - q.x0); hy = std::min(hy, q.y1 - q.y0); }
            auto slot = [&](double x, double y) { return std::make_pair(lround(2 * (x - box.x0) / hx), lround(2 * (y - box.y0) / hy)); };
            for (size_t k = 0; k < n; k++) where[slot(cells[k].x0, cells[k].y0)].push_back(k);
            std::vector<int> seen(n, 0), is(n, -1);
            double ax = std::max(std::fabs(box.x0), std::fabs(box.x1)), ay = std::max(std::fabs(box.y0), std::fabs(box.y1));
            for (size_t k = 0; k < n; k++) {
                c.check(off[k] == 4.0 * (k + 1), "vtu:offset", [&] { return std::to_string(k) + ": " + vh::num(off[k]); });
                c.check(typ[k] == 9, "vtu:type", [&] { return std::to_string(k) + ": " + vh::num(typ[k]); });
                double X[4], Y[4];
                for (int q = 0; q < 4; q++) {
                    double id = con[4 * k + q];
                    if (!c.check(id >= 0 && id < (double)np && id == std::floor(id), "vtu:connectivity", [&] { return vh::num(id); })) throw vh::Stop();
                    X[q] = pts[3 * (size_t)id];
                    Y[q] = pts[3 * (size_t)id + 1];
                    c.check(pts[3 * (size_t)id + 2] == 0, "vtu:z");
                }
                auto w = where.find(slot(X[0], Y[0]));
                int hit = -1;
                if (w != where.end()) for (size_t cand : w->second) if (!seen[cand]) { hit = cand; break; }
                if (!c.check(hit >= 0, "vtu:cell-of-no-leaf", [&] { return "cell " + std::to_string(k) + " at " + vh::num(X[0]) + "," + vh::num(Y[0]); })) throw vh::Stop();
                auto &q = cells[hit];
                double wx[4] = {q.x0, q.x1, q.x1, q.x0}, wy[4] = {q.y0, q.y0, q.y1, q.y1}; // a quadrilateral, counter-clockwise
                for (int z = 0; z < 4; z++) if (!c.near(X[z], wx[z], REL * ax, "vtu:corner-x") || !c.near(Y[z], wy[z], REL * ay, "vtu:corner-y")) throw vh::Stop();
                seen[hit]++;
                is[k] = hit;
            }
            // fields
            const Xml *cd = piece->kid("CellData");
            c.check((cd ? cd->kids.size() : 0) == fields.size(), "vtu:field-count", [&] { return std::to_string(cd ? cd->kids.size() : 0) + " want " + std::to_string(fields.size()); });
            c.check(!piece->kid("PointData") || piece->kid("PointData")->kids.empty(), "vtu:point-fields");
            c.stopIfViolated();
            for (size_t f = 0; f < fields.size(); f++) {
                const Xml &a = cd->kids[f];
                c.check(a.at("Name") == fields[f].name, "vtu:field-name", [&] { return "'" + a.at("Name") + "' want '" + fields[f].name + "'"; });
                c.check(a.at("NumberOfComponents") == "1" && a.at("type") == fields[f].type && a.at("format") == "ascii", "vtu:field-attributes", [&] { return a.at("type") + " " + a.at("NumberOfComponents"); });
                c.check(cd->at("Scalars").find(fields[f].name) != std::string::npos, "vtu:scalars");
                DVec v = numbers(c, a);
                if (!c.check(v.size() == n, "vtu:field-size", [&] { return std::to_string(v.size()) + " want " + std::to_string(n); })) throw vh::Stop();
                for (size_t k = 0; k < n; k++) {
                    double want = fields[f].f(cells[is[k]].xc, cells[is[k]].yc);
                    if (!c.near(v[k], want, REL * std::fabs(want), "vtu:field-value", "'" + fields[f].name + "' at " + vh::num(cells[is[k]].xc) + "," + vh::num(cells[is[k]].yc))) break;
                }
                range(c, a, v);
                c.count("field values read back", n);
            }
        }
    }
    // the index
    if (RANK == 0 && readXml(c, stem + ".pvtu", x)) {
        c.check(x.name == "VTKFile" && x.at("type") == "PUnstructuredGrid", "pvtu:root", [&] { return x.at("type"); });
        const Xml *grid = x.kid("PUnstructuredGrid");
        c.check(grid && x.kids.size() == 1, "pvtu:structure");
        if (grid) {
            auto pieces = grid->all("Piece");
            c.check((int)pieces.size() == SIZE, "pvtu:piece-count", [&] { return std::to_string(pieces.size()); });
            std::set<std::string> sources;
            for (auto *p : pieces) {
                std::string s = p->at("Source");
                sources.insert(s);
                fs::path full = fs::path(s).is_absolute() ? fs::path(s) : fs::path(stem).parent_path() / s; // relative to the index
                c.check(fs::exists(full), "pvtu:piece-missing", [&] { return s; });
            }
            for (int k = 0; k < SIZE; k++) {
                snprintf(b, 32, "_%04i.vtu", k);
                fs::path full = stem + b;
                bool named = false;
                for (auto &s : sources) named = named || fs::path(s).filename() == full.filename();
                c.check(named, "pvtu:piece-not-named", [&] { return full.filename().string(); });
            }
            const Xml *pp = grid->kid("PPoints");
            c.check(pp && pp->kids.size() == 1 && pp->kids[0].name == "PDataArray" && pp->kids[0].at("NumberOfComponents") == "3", "pvtu:points");
            const Xml *cd = grid->kid("PCellData");
            c.check((cd ? cd->kids.size() : 0) == fields.size(), "pvtu:field-count");
            if (cd && cd->kids.size() == fields.size())
                for (size_t f = 0; f < fields.size(); f++)
                    c.check(cd->kids[f].name == "PDataArray" && cd->kids[f].at("Name") == fields[f].name && cd->kids[f].at("type") == fields[f].type && cd->kids[f].at("NumberOfComponents") == "1", "pvtu:field", [&] { return cd->kids[f].at("Name"); });
        }
    }
    // the quadtree, written by p4est: one cell per leaf
    snprintf(b, 32, "_%04i.vtu", RANK);
    std::ifstream qf(quad + b, std::ios::binary);
    if (c.check((bool)qf, "quadtree:file-missing", [&] { return quad; })) {
        std::stringstream ss;
        ss << qf.rdbuf();
        std::string s = ss.str();
        size_t at = s.find("NumberOfCells=\"");
        long leaves = 0;
        for (auto &[path, n] : mesh.quadtree.map) if (n && n->leaf && n->pfirst <= RANK && RANK <= n->plast) leaves++;
        c.check(at != std::string::npos && atol(s.c_str() + at + 15) == leaves, "quadtree:cell-count");
    }
    if (RANK == 0) c.check(fs::exists(quad + ".pvtu"), "quadtree:index-missing");
    MPI_Barrier(MPI_COMM_WORLD);
}
static std::string oddName(Rng &r, bool file) {
    if (r.chance(0.5)) return r.pick({std::string("u_soln"), std::string("f_rhs"), std::string("poisson"), std::string("error")});
    std::string s;
    const char *chars = file ? "abcXYZ019_-. %&+=,d" : "abcXYZ019_-. %&<>\"'/=\xc3\xa9";
    for (int i = r.integer(1, 12); i > 0; i--) s += chars[r.integer(0, (int)strlen(chars) - 1)];
    if (s[0] == ' ' || s.back() == ' ' || s[0] == '-') s = "a" + s + "b";
    return s;
}
static void addFields(Case &c, FiniteVolumeMesh &mesh, std::vector<Field> &fields, const Box &box) {
    Rng &r = c.rng;
    for (int k = r.integer(0, 3); k > 0; k--) {
        Field f;
        f.name = oddName(r, false) + std::to_string(fields.size());
        double scale = r.pick({1.0, 1.0, 1e-9, 1e-30, 1e12, 1e200}), p = r.real(1, 5), q = r.real(1, 5), w = box.x1 - box.x0, v = box.y1 - box.y0;
        f.f = [=](double x, double y) { return scale * (std::sin(p * (x - box.x0) / w) + std::cos(q * (y - box.y0) / v) + 0.1); };
        f.type = "Float32";
        if (r.chance(0.5)) mesh.addMeshFunction(f.f, f.name);
        else {
            f.mine.reset(new Vector<double>());
            size_t n = cellsOf(mesh).size();
            *f.mine = Vector<double>(n);
            f.mine->name() = f.name;
            if (r.chance(0.3)) { f.type = "Float64"; f.mine->setType(f.type); }
            size_t at = 0;
            if (r.chance(0.5)) mesh.iterateCells([&](double x, double y) { (*f.mine)[at++] = f.f(x, y); });
            else mesh.iteratePatches([&](FiniteVolumePatch &patch) { // as the examples fill leaf data
                auto &g = patch.grid();
                for (int i = 0; i < (int)g.nx(); i++) for (int j = 0; j < (int)g.ny(); j++) (*f.mine)[at++] = f.f(g(0, i), g(1, j));
            });
            c.check(at == n, "cells-iterated", [&] { return std::to_string(at) + " want " + std::to_string(n); });
            if (r.chance(0.3)) f.mine = std::make_shared<Vector<double>>(*f.mine); // a copy carries its name along
            mesh.addMeshFunction(*f.mine);
        }
        fields.push_back(f);
    }
}
static void meshFiles(Case &c) {
    Rng &r = c.rng;
    double w = r.pick({1.0, 1.0, 1e-6, 3e5, r.real(0.1, 10)}), h = w * r.pick({1.0, 1.0, 0.3, 4.0});
    double x0 = w * r.pick({0.0, 0.0, -0.5, -1.0, 3.0}), y0 = h * r.pick({0.0, 0.0, -0.5, -1.0, 2.0});
    Box box{x0, x0 + w, y0, y0 + h};
    int most = r.chance(0.04) ? 24 : 6;
    int nx = r.integer(1, most), ny = r.chance(0.5) ? nx : r.integer(1, most);
    fs::path dir = fs::path(c.m.scratch) / ("case" + std::to_string(c.index));
    if (RANK == 0) fs::create_directories(dir / "sub dir");
    MPI_Barrier(MPI_COMM_WORLD);
    c.key << "box " << vh::shortnum(x0) << "," << vh::shortnum(w) << "x" << vh::shortnum(h) << " n=" << nx << "x" << ny << " ranks=" << SIZE;
    FiniteVolumeGrid grid(MPI_COMM_WORLD, nx, box.x0, box.x1, ny, box.y0, box.y1);
    FiniteVolumePatch root(MPI_COMM_WORLD, grid);
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    FiniteVolumeMesh mesh;
    std::vector<Field> fields;
    p4est_t *forest = nullptr;
    std::string base;
    int number = -1;
    c.nontrivial = false;
    auto freeForest = [&] {
        if (!forest) return;
        auto *conn = forest->connectivity;
        p4est_destroy(forest);
        p4est_connectivity_destroy(conn);
        forest = nullptr;
    };
    int refinements = r.pick({1, 1, 2, 3});
    for (int k = 0; k < refinements; k++) {
        int maxl = r.integer(0, 3), minl = r.integer(0, maxl);
        double cx = r.unit(), cy = r.unit(), rad = r.real(0.05, 0.6);
        if (nx <= 6 && ny <= 6 && r.chance(0.06)) { // one deep leaf
            maxl = r.integer(4, 9);
            minl = 0;
            rad = std::ldexp(1.0, -maxl);
        }
        mesh.clearMeshFunctions();
        fields.clear();
        p4est_t *old = forest;
        mesh.refineByFunction([=](double x, double y) { return std::hypot((x - box.x0) / w - cx, (y - box.y0) / h - cy) < rad; }, 0, minl, maxl, root, factory);
        forest = old;
        freeForest(); // the forest before belongs to the user
        forest = mesh.quadtree.p4est;
        if (forest->global_num_quadrants > 1) c.nontrivial = true;
        c.key << " leaves=" << forest->global_num_quadrants;
        for (int writes = r.integer(k + 1 < refinements ? 0 : 1, 3); writes > 0; writes--) {
            if (r.chance(0.7)) addFields(c, mesh, fields, box);
            if (r.chance(0.15)) { mesh.clearMeshFunctions(); fields.clear(); }
            if (base.empty() || r.chance(0.6)) {
                std::string leaf = oddName(r, true);
                if (r.chance(0.1)) leaf += std::string(150, 'n') + "q"; // a long name
                base = (r.chance(0.3) ? dir / "sub dir" : dir) / leaf;
                number = r.chance(0.5) ? -1 : r.pick({0, 7, 42, 9999, 12345});
            }
            bool relative = r.chance(0.3);
            if (relative) {
                MPI_Barrier(MPI_COMM_WORLD);
                fs::path here = fs::current_path();
                fs::current_path(dir);
                mesh.toVTK(fs::path(base).lexically_relative(dir).string(), number);
                fs::current_path(here);
            } else mesh.toVTK(base, number);
            c.key << " w" << number << (relative ? "r" : "");
            try { checkMeshFiles(c, mesh, base, number, fields, box); }
            catch (const vh::Stop &) { MPI_Barrier(MPI_COMM_WORLD); }
            c.count("mesh descriptions written");
            stopTogether(c);
        }
    }
    mesh.quadtree = Quadtree<FiniteVolumePatch>{};
    freeForest();
    MPI_Barrier(MPI_COMM_WORLD);
    if (RANK == 0) fs::remove_all(dir);
    MPI_Barrier(MPI_COMM_WORLD);
}

// ---- the writers by themselves -------------------------------------------------------------------------------------
struct Arr : public DataArrayNodeBase {
    std::string type, name, comps, data;
    std::string getType() override { return type; }
    std::string getName() override { return name; }
    std::string getNumberOfComponents() override { return comps; }
    std::string getFormat() override { return "ascii"; }
    std::string getRangeMin() override { return "-1"; }
    std::string getRangeMax() override { return "1"; }
    std::string getData() override { return data; }
};
static Arr randomArr(Rng &r, int k) {
    Arr a;
    a.type = r.pick({std::string("Float32"), std::string("Float64"), std::string("Int64"), std::string("UInt8")});
    a.name = oddName(r, false) + std::to_string(k);
    a.comps = std::to_string(r.integer(1, 3));
    for (int i = r.integer(0, 20); i > 0; i--) a.data += std::to_string(r.integer(-99, 99)) + " ";
    return a;
}
static std::string squeezed(const std::string &s) {
    std::istringstream in(s);
    std::string o, w;
    while (in >> w) o += w + " ";
    return o;
}
static void sameArr(Case &c, const Xml &x, Arr &a, bool data, const std::string &sig) {
    c.check(x.name == (data ? "DataArray" : "PDataArray"), sig + ":element", [&] { return x.name; });
    c.check(x.at("type") == a.type && x.at("Name") == a.name && x.at("NumberOfComponents") == a.comps && x.at("format") == "ascii", sig + ":attributes", [&] { return x.at("Name") + " want " + a.name; });
    if (data) c.check(squeezed(x.text) == squeezed(a.data), sig + ":data", [&] { return squeezed(x.text).substr(0, 60) + " want " + squeezed(a.data).substr(0, 60); });
    if (data) c.check(x.at("RangeMin") == "-1" && x.at("RangeMax") == "1", sig + ":range");
    c.check(x.kids.empty(), sig + ":children");
}
static void sameArrs(Case &c, const Xml *x, std::vector<Arr *> want, bool data, const std::string &sig) {
    size_t n = x ? x->kids.size() : 0;
    if (!c.check(n == want.size(), sig + ":count", [&] { return std::to_string(n) + " want " + std::to_string(want.size()); })) return;
    for (size_t i = 0; i < n; i++) sameArr(c, x->kids[i], *want[i], data, sig);
    if (x && n && (sig.find("cell-data") != std::string::npos || sig.find("point-data") != std::string::npos))
        for (auto *a : want) c.check(x->at("Scalars").find(a->name) != std::string::npos, sig + ":scalars");
}
struct RGrid : public RectilinearGridNodeBase {
    std::string whole, part;
    std::string getWholeExtent() override { return whole; }
    std::string getExtent() override { return part; }
};
struct UGrid : public UnstructuredGridNodeBase {
    Arr p, k, o, t;
    std::string np, nc;
    std::string getNumberOfPoints() override { return np; }
    std::string getNumberOfCells() override { return nc; }
    DataArrayNodeBase &getPoints() override { return p; }
    DataArrayNodeBase &getConnectivity() override { return k; }
    DataArrayNodeBase &getOffsets() override { return o; }
    DataArrayNodeBase &getTypes() override { return t; }
    void fill(Rng &r) {
        p = randomArr(r, 1); k = randomArr(r, 2); o = randomArr(r, 3); t = randomArr(r, 4);
        np = std::to_string(r.integer(0, 99)); nc = std::to_string(r.integer(0, 99));
    }
};
static void rectilinear(Case &c) {
    Rng &r = c.rng;
    RectilinearGridVTK w;
    std::string path = c.m.scratch + "/r" + std::to_string(RANK) + ".vtr";
    c.throws<std::invalid_argument>([&] { w.toVTK(path); }, "written-without-a-mesh");
    RGrid g;
    std::vector<std::unique_ptr<Arr>> store;
    std::vector<Arr *> coords(3, nullptr), cd, pd;
    auto make = [&] { store.emplace_back(new Arr(randomArr(r, store.size()))); return store.back().get(); };
    bool built = false;
    for (int step = r.integer(1, 6); step > 0 || !built; step--) {
        int what = built ? r.integer(0, 3) : 0;
        c.key << what;
        if (what == 0) {
            g.whole = "0 " + std::to_string(r.integer(1, 50)) + " 0 " + std::to_string(r.integer(1, 50)) + " 0 0";
            g.part = "0 " + std::to_string(r.integer(1, 50)) + " 0 1 0 0";
            for (auto &a : coords) a = r.chance(0.3) ? nullptr : make();
            w.buildMesh(g, coords[0], coords[1], coords[2]);
            built = true;
        } else if (what == 1) { cd.push_back(make()); w.addCellData(*cd.back()); }
        else if (what == 2) { pd.push_back(make()); w.addPointData(*pd.back()); }
        if (what == 0 || what == 3) {
            w.toVTK(path);
            Xml x;
            if (!readXml(c, path, x)) throw vh::Stop();
            const Xml *grid = x.kid("RectilinearGrid"), *piece = grid ? grid->kid("Piece") : nullptr;
            c.check(x.name == "VTKFile" && x.at("type") == "RectilinearGrid" && x.kids.size() == 1 && piece && grid->kids.size() == 1, "vtr:structure");
            if (!piece) throw vh::Stop();
            c.check(grid->at("WholeExtent") == g.whole && piece->at("Extent") == g.part, "vtr:extent");
            sameArrs(c, piece->kid("CellData"), cd, true, "vtr:cell-data");
            sameArrs(c, piece->kid("PointData"), pd, true, "vtr:point-data");
            const Xml *co = piece->kid("Coordinates");
            if (c.check(co && co->kids.size() == 3, "vtr:coordinates", [&] { return std::to_string(co ? co->kids.size() : 0); }))
                for (int k = 0; k < 3; k++) {
                    if (coords[k]) sameArr(c, co->kids[k], *coords[k], true, "vtr:coordinate");
                    else c.check(strtod(co->kids[k].text.c_str(), nullptr) == 0 && squeezed(co->kids[k].text).size() > 1, "vtr:empty-coordinate");
                }
        }
        c.stopIfViolated();
    }
}
static void unstructured(Case &c) {
    Rng &r = c.rng;
    bool parallel = r.chance(0.5);
    UnstructuredGridVTK w;
    PUnstructuredGridVTK pw(MPI_COMM_SELF), dw;
    bool self = SIZE > 1 || r.chance(0.5);
    PUnstructuredGridVTK &p = self ? pw : dw;
    std::string base = c.m.scratch + "/u" + std::to_string(RANK) + oddName(r, true).substr(0, 6) + "e", path = parallel ? base + "_0000.vtu" : base;
    UGrid g[2];
    g[0].fill(r);
    g[1].fill(r);
    int cur = -1;
    std::vector<std::unique_ptr<Arr>> store;
    std::vector<Arr *> cd, pd;
    auto make = [&] { store.emplace_back(new Arr(randomArr(r, store.size()))); return store.back().get(); };
    if (!parallel) c.throws<std::invalid_argument>([&] { w.toVTK(path); }, "written-without-a-mesh");
    c.key << (parallel ? "p" : "s");
    for (int step = r.integer(1, 7); step > 0 || cur < 0; step--) {
        int what = cur >= 0 ? r.integer(0, 3) : 0;
        c.key << what;
        if (what == 0) { cur = r.integer(0, 1); if (parallel) p.buildMesh(g[cur]); else w.buildMesh(g[cur]); }
        else if (what == 1) { cd.push_back(make()); if (parallel) p.addCellData(*cd.back()); else w.addCellData(*cd.back()); }
        else if (what == 2) { pd.push_back(make()); if (parallel) p.addPointData(*pd.back()); else w.addPointData(*pd.back()); }
        if (what == 0 || what == 3) {
            if (parallel) p.toVTK(base);
            else w.toVTK(path);
            Xml x;
            if (!readXml(c, path, x)) throw vh::Stop();
            const Xml *grid = x.kid("UnstructuredGrid"), *piece = grid ? grid->kid("Piece") : nullptr;
            c.check(x.name == "VTKFile" && x.at("type") == "UnstructuredGrid" && x.kids.size() == 1 && piece && grid->kids.size() == 1, "vtu:structure");
            if (!piece) throw vh::Stop();
            auto &q = g[cur];
            c.check(piece->at("NumberOfPoints") == q.np && piece->at("NumberOfCells") == q.nc, "vtu:counts");
            sameArrs(c, piece->kid("Points"), {&q.p}, true, "vtu:points");
            sameArrs(c, piece->kid("Cells"), {&q.k, &q.o, &q.t}, true, "vtu:cells-arrays");
            sameArrs(c, piece->kid("CellData"), cd, true, "vtu:cell-data");
            sameArrs(c, piece->kid("PointData"), pd, true, "vtu:point-data");
            if (parallel) {
                if (!readXml(c, base + ".pvtu", x)) throw vh::Stop();
                const Xml *pg = x.kid("PUnstructuredGrid");
                c.check(x.at("type") == "PUnstructuredGrid" && x.kids.size() == 1 && pg, "pvtu:structure", [&] { return x.at("type"); });
                if (!pg) throw vh::Stop();
                sameArrs(c, pg->kid("PPoints"), {&q.p}, false, "pvtu:points");
                sameArrs(c, pg->kid("PCellData"), cd, false, "pvtu:cell-data");
                sameArrs(c, pg->kid("PPointData"), pd, false, "pvtu:point-data");
                auto pieces = pg->all("Piece");
                c.check(pieces.size() == 1 && fs::exists(fs::path(base).parent_path() / pieces[0]->at("Source")), "pvtu:pieces", [&] { return pieces.empty() ? "none" : pieces[0]->at("Source"); });
            }
        }
        c.stopIfViolated();
    }
    for (auto s : {"", "_0000.vtu", ".pvtu"}) { std::error_code e; fs::remove(base + s, e); }
}
static void trees(Case &c) { // any tree of elements is written as it is
    Rng &r = c.rng;
    std::vector<std::unique_ptr<XMLNode>> store;
    int left = r.integer(1, 30);
    std::function<XMLNode *(int)> grow = [&](int depth) {
        XMLNode *n = new XMLNode("n" + std::to_string(store.size()));
        store.emplace_back(n);
        for (int k = r.integer(0, 3); k > 0; k--) n->addAttribute("a" + std::to_string(k), oddName(r, false));
        if (r.chance(0.5)) n->data = std::to_string(r.integer(0, 1000)) + " " + std::to_string(r.integer(0, 9));
        for (int k = r.integer(0, 3); k > 0 && left > 0 && depth < 6; k--) {
            left--;
            XMLNode *kid = grow(depth + 1);
            if (r.chance(0.5)) n->addChild(kid);
            else n->addChild(*kid);
        }
        return n;
    };
    XMLNode *root = grow(0);
    std::string path = c.m.scratch + "/t" + std::to_string(RANK) + ".xml";
    XMLTree(*root).write(path);
    Xml x;
    if (!readXml(c, path, x)) throw vh::Stop();
    long nodes = 0;
    std::function<void(const Xml &, const XMLNode &)> same = [&](const Xml &a, const XMLNode &b) {
        nodes++;
        c.check(a.name == b.name && squeezed(a.text) == squeezed(b.data) && a.attr.size() == b.attributes.size() && a.kids.size() == b.children.size(), "xml:node", [&] { return b.name; });
        c.stopIfViolated();
        for (auto &[k, v] : b.attributes) c.check(a.at(k) == v, "xml:attribute", [&] { return a.at(k) + " want " + v; });
        for (size_t i = 0; i < a.kids.size(); i++) same(a.kids[i], *b.children[i]);
    };
    same(x, *root);
    c.key << nodes << r.s % 100000;
    c.nontrivial = nodes > 1;
    c.count("XML nodes compared", nodes);
}

int main(int argc, char **argv) {
    Session session(argc, argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK);
    MPI_Comm_size(MPI_COMM_WORLD, &SIZE);

    vh::Main m(argc, argv);
    m.mode("C19", "mesh", 150, 1500, meshFiles);
    m.mode("C19", "rectilinear", 400, 4000, rectilinear);
    m.mode("C19", "unstructured", 400, 4000, unstructured);
    m.mode("C19", "trees", 400, 4000, trees);
    return m.run();
}
