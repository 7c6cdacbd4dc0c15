/* C18: options set by code, from INI files and on command lines, against a model of what the user wrote. */
#include "efx.hpp"
#include <fstream>
#include <optional>
#include <unistd.h>
using namespace efx;
using OT = Options::OptionTypes;

// What the user means by a text: the kinds that may be reported, most of the time one.
struct Meaning { std::vector<OT> any; };
static bool digits(const std::string &s, size_t &i) { size_t a = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; return i > a; }
static Meaning meaning(const std::string &s) {
    if (s == "true") return {{true}};
    if (s == "false") return {{false}};
    size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    bool whole = digits(s, i), point = false, frac = false, expo = false;
    if (whole && i == s.size()) {
        long double v = strtold(s.c_str(), nullptr);
        if (v >= INT_MIN && v <= INT_MAX) return {{(int)v}};
        return {{strtod(s.c_str(), nullptr), s}}; // no int holds it
    }
    if (i < s.size() && s[i] == '.') { point = true; i++; frac = digits(s, i); }
    if ((whole || frac) && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        size_t k = i + 1;
        if (k < s.size() && (s[k] == '-' || s[k] == '+')) k++;
        if (digits(s, k)) { expo = true; i = k; }
    }
    if ((whole || frac) && (point || expo) && i == s.size()) return {{strtod(s.c_str(), nullptr)}};
    // notations that some readers take for numbers
    char *end;
    double v = strtod(s.c_str(), &end);
    if (!s.empty() && !*end && !isspace((unsigned char)s[0])) return {{s, v}};
    return {{s}};
}
static std::string show(const OT &v) {
    static const char *names[] = {"text", "bool", "int", "real"};
    std::string o = names[v.index()];
    if (auto p = std::get_if<std::string>(&v)) o += " '" + *p + "'";
    else if (auto p = std::get_if<bool>(&v)) o += *p ? " true" : " false";
    else if (auto p = std::get_if<int>(&v)) o += " " + std::to_string(*p);
    else o += " " + vh::num(std::get<double>(v));
    return o;
}
static bool same(const OT &a, const OT &b) {
    if (a.index() != b.index()) return false;
    if (auto p = std::get_if<double>(&a)) { double q = std::get<double>(b); return *p == q || (*p != *p && q != q); }
    return a == b;
}
using Model = std::map<std::string, Meaning>;
static void agrees(Case &c, Options &o, const Model &m, const std::string &sig) {
    for (auto &[k, w] : m) {
        c.check(o.optionExists(k), sig + ":missing", [&] { return "'" + k + "'"; });
        auto it = o.optionsMap.find(k);
        if (it == o.optionsMap.end()) continue;
        bool ok = false;
        for (auto &x : w.any) ok = ok || same(it->second, x);
        static const char *kinds[] = {"text", "bool", "int", "real"};
        c.check(ok, sig + ":" + kinds[w.any[0].index()], [&] { return "'" + k + "' is " + show(it->second) + ", written " + show(w.any[0]); });
        OT got = o[k];
        c.check(same(got, it->second), sig + ":access");
        c.count(std::string("options read back as ") + kinds[it->second.index()]);
    }
    for (auto &[k, v] : o.optionsMap) c.check(m.count(k), sig + ":extra", [&] { return "'" + k + "' = " + show(v); });
    c.check(o.optionsMap.size() == m.size(), sig + ":count");
    c.stopIfViolated();
}
static std::string word(Rng &r, int lo, int hi, const char *chars) {
    std::string s;
    size_t n = strlen(chars);
    for (int i = r.integer(lo, hi); i > 0; i--) s += chars[r.integer(0, n - 1)];
    return s;
}
static std::string key(Rng &r) {
    if (r.chance(0.3)) return r.pick({std::string("nx"), std::string("min-level"), std::string("cache-operators"), std::string("homogeneous-rhs"), std::string("x-lower")});
    return word(r, 1, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + word(r, 0, 9, "abcdefghijklmnopqrstuvwxyz0123456789-_.:/");
}
static std::string number(Rng &r) { // a real number in some notation
    char b[400];
    double v = r.real(-10, 10) * std::pow(10.0, r.pick({0, 0, 1, 3, -3, -12, 20}));
    const char *f = r.pick({"%.17g", "%g", "%f", "%e", "%E", "%.3f", "%+.2e", "%.1f", "%.0e", "%#.0f"});
    snprintf(b, sizeof b, f, v);
    std::string s = b;
    if (r.chance(0.1)) s = r.pick({std::string(".5"), std::string("-.25"), std::string("5."), std::string("-0.0"), std::string("1e5"), std::string("1E-5"), std::string("+2.5"), std::string("0e0"), std::string("-7.e2"), std::string("00.10"), std::string("1e-400")});
    return s;
}
static std::string value(Rng &r, bool file) {
    std::string s;
    switch (r.integer(0, 5)) {
    case 0: return r.pick({std::string("true"), std::string("false")});
    case 1: case 2: {
        if (r.chance(0.2)) return r.pick({std::string("0"), std::string("-1"), std::string("+3"), std::string("007"), std::string("2147483647"), std::string("-2147483648"), std::string("2147483648"), std::string("99999999999999999999"), std::string("-0")});
        return std::to_string(r.integer(-100000, 100000));
    }
    case 3: case 4: return number(r);
    }
    if (r.chance(0.5)) {
        static const std::vector<std::string> odd = {"file.txt", "out/mesh.vtu", "1.2.3", "v2.0", "True", "FALSE", "yes", "-", "+", ".", "e5", "1e", "1e+", "1.0f", "0.5.", "1-2", "5 apples", "3.14 rad", "a=b", "=",
                                                     "hello world", "a  b\tc", "\"quoted text\"", "1,5", "12ab", "--x", "5-", "1.e", "[x]", "E", "-.", "..", "trueish", "t", "nofile", "caf\xc3\xa9", "truefalse", "\xc3\xa9t\xc3\xa9 2024"};
        return r.pick(odd);
    }
    s = word(r, 0, 12, "abcxyzABC0129 .-+eE=/:,_");
    if (file) { // blanks around a value in a file do not belong to it
        size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" ");
        s = a == std::string::npos ? "" : s.substr(a, b - a + 1);
    }
    return s;
}
static OT fromCode(Rng &r) {
    switch (r.integer(0, 3)) {
    case 0: return r.chance(0.5);
    case 1: return r.pick({0, -1, INT_MAX, INT_MIN, r.integer(-1000, 1000)});
    case 2: return r.real(-1, 1) * std::pow(10.0, r.integer(-300, 300));
    }
    return value(r, false);
}
static void writeFile(Rng &r, const std::string &path, Model &m, bool longFile) {
    std::ofstream f(path, std::ios::binary);
    bool crlf = r.chance(0.2);
    std::string eol = crlf ? "\r\n" : "\n";
    bool in = false;
    auto gap = [&] { return word(r, 0, 3, r.chance(0.8) ? " " : " \t"); };
    int lines = longFile ? r.integer(200, 1000) : r.integer(0, 25);
    if (r.chance(0.8)) { f << gap() << "[EllipticForest]" << gap() << eol; in = true; }
    for (int i = 0; i < lines; i++) {
        double u = r.unit();
        if (u < 0.08) f << gap() << eol;
        else if (u < 0.2) f << gap() << ";" << (r.chance(0.5) ? " nx = 99 " : "[EllipticForest]") << gap() << eol;
        else if (u < 0.28) {
            in = r.chance(0.5);
            f << gap() << (in ? std::string("[EllipticForest]") : "[" + r.pick({std::string("Other"), std::string("elliptic"), std::string("EllipticForest2"), std::string("")}) + "]") << gap() << eol;
        } else if (u < 0.31) f << "a line that says nothing" << eol;
        else {
            std::string k = key(r), v = value(r, true);
            f << gap() << k << gap() << "=" << gap() << v << gap();
            if (i + 1 < lines || r.chance(0.7)) f << eol;
            if (in) m[k] = meaning(v);
        }
    }
}
static void parseLine(Options &o, const std::vector<std::string> &args) {
    std::vector<std::string> store = args;
    store.insert(store.begin(), "program");
    std::vector<char *> argv;
    for (auto &s : store) argv.push_back(&s[0]);
    argv.push_back(nullptr);
    int argc = store.size();
    char **p = argv.data();
    InputParser parser(argc, p);
    parser.parse(o);
}
static std::vector<std::string> arguments(Rng &r, Model &m, int n) {
    std::vector<std::string> a;
    for (int i = 0; i < n; i++) {
        double u = r.unit();
        if (u < 0.1) a.push_back(r.pick({std::string("stray"), std::string("x=5"), std::string("file.ini"), std::string("")}));
        else {
            std::string k = key(r), dash = r.chance(0.6) ? "--" : "-";
            if (u < 0.25) { a.push_back(dash + k); m[k] = {{std::string("")}}; }
            else { std::string v = value(r, false); a.push_back(dash + k + "=" + v); m[k] = meaning(v); }
        }
    }
    return a;
}
static void history(Case &c) {
    Rng &r = c.rng;
    Options o;
    Model m;
    if (r.chance(0.3)) {
        std::map<std::string, OT> start;
        for (int i = r.integer(0, 4); i > 0; i--) { auto k = key(r); start[k] = fromCode(r); m[k] = {{start[k]}}; }
        o = Options(start);
        agrees(c, o, m, "constructed");
    }
    for (int step = r.integer(1, 6); step > 0; step--) {
        int what = r.integer(0, 4);
        c.key << what;
        if (what == 0) { auto k = key(r); auto v = fromCode(r); o.setOption(k, v); m[k] = {{v}}; agrees(c, o, m, "code"); }
        else if (what == 1) { auto k = key(r); auto v = fromCode(r); o[k] = v; m[k] = {{v}}; agrees(c, o, m, "code"); }
        else if (what == 2) {
            std::string path = c.m.scratch + "/" + (r.chance(0.1) ? "" : "options") + ".ini";
            writeFile(r, path, m, r.chance(0.05));
            c.key << "f" << c.rng.s % 1000;
            o.setFromFile(path);
            agrees(c, o, m, "file");
            c.count("files read");
        } else if (what == 3) {
            auto a = arguments(r, m, r.integer(0, 8));
            for (auto &s : a) c.key << " " << s;
            parseLine(o, a);
            agrees(c, o, m, "arguments");
            c.count("argument lists read");
        } else { // a copy is independent
            Options q = o;
            auto k = key(r);
            q[k] = 12345;
            q.setOption(k + "z", std::string("copy"));
            agrees(c, o, m, "copied-from");
            auto k2 = key(r);
            c.check(o.optionExists(k2) == (m.count(k2) > 0), "exists");
        }
    }
    std::ostringstream os; // every option is listed with its value
    os << o;
    std::string text = os.str();
    for (auto &[k, v] : o.optionsMap) {
        std::ostringstream w;
        w << "[EllipticForest]   " << k << " : ";
        std::visit([&](auto &&x) { w << x << std::endl; }, v);
        c.check(text.find(w.str()) != std::string::npos, "listing", [&] { return "no '" + w.str() + "' in '" + text.substr(0, 400) + "'"; });
    }
}
static void garbage(Case &c) { // any bytes: no crash, no exception, no memory error
    Rng &r = c.rng;
    std::string path = c.m.scratch + "/garbage.ini", bytes;
    static const char *chars = "[]=;.-+eE0123456789 \t\r\nabc";
    if (r.chance(0.7)) bytes = "[EllipticForest]\n";
    for (int i = r.integer(0, 200); i > 0; i--) bytes += r.chance(0.9) ? chars[r.integer(0, (int)strlen(chars) - 1)] : (char)r.integer(0, 255);
    std::ofstream(path, std::ios::binary) << bytes;
    c.key << vh::hashStr(bytes);
    Options o;
    o.setFromFile(path);
    c.count("options from arbitrary bytes", o.optionsMap.size());
    std::vector<std::string> a;
    for (int i = r.integer(0, 6); i > 0; i--) {
        std::string s = r.pick({std::string("-"), std::string("--"), std::string(""), std::string("---"), std::string("-=")});
        for (int k = r.integer(0, 12); k > 0; k--) { char b = r.chance(0.8) ? chars[r.integer(0, (int)strlen(chars) - 1)] : (char)r.integer(1, 255); s += b; }
        a.push_back(s);
    }
    parseLine(o, a);
    for (auto &[k, v] : o.optionsMap) c.check(v.index() < 4, "variant");
    std::string v; // one value by itself
    for (int k = r.integer(0, 10); k > 0; k--) v += chars[r.integer(0, (int)strlen(chars) - 1)];
    OT got = o.checkValue(v);
    bool ok = false;
    Meaning w = meaning(v);
    for (auto &x : w.any) ok = ok || same(got, x);
    c.check(ok, "value", [&] { return "'" + v + "' is " + show(got) + ", written " + show(w.any[0]); });
}
static void badFiles(Case &c) {
    Rng &r = c.rng;
    Options o;
    o["kept"] = 7;
    std::string name = r.pick({std::string("options.txt"), std::string("x"), std::string(""), std::string("in"), std::string("options.ini.bak"), std::string("ini.json"), word(r, 0, 6, "abcx.") + "q"});
    c.key << name;
    c.throws<std::invalid_argument>([&] { o.setFromFile(name); }, "wrong-format-accepted", name);
    Model m;
    m["kept"] = {{7}};
    agrees(c, o, m, "after-rejected-file");
    if (r.chance(0.5)) { // a file that is not there changes nothing
        try { o.setFromFile(c.m.scratch + "/missing/none.ini"); } catch (const std::exception &) {}
        agrees(c, o, m, "after-missing-file");
    }
}
static Model g_app;
static EllipticForestApp *g_theApp;
static void appOptions(Case &c) {
    Model m = g_app;
    if (!m.count("cache-operators")) m["cache-operators"] = {{false}};
    if (!m.count("homogeneous-rhs")) m["homogeneous-rhs"] = {{false}};
    Options o = g_theApp->options;
    for (auto it = o.optionsMap.begin(); it != o.optionsMap.end();) it = it->first.rfind("v", 0) == 0 && !m.count(it->first) ? o.optionsMap.erase(it) : std::next(it); // the harness's own
    agrees(c, o, m, "application");
    c.check(&EllipticForestApp::getInstance() == g_theApp, "application-instance");
    c.key << c.index;
}

int main(int argc, char **argv) {
    // the application object reads the command line it is given: the harness's own arguments and random ones
    std::vector<std::string> args(argv, argv + argc);
    int slice = 0, seed = 1;
    for (auto &s : args) { sscanf(s.c_str(), "--vslice=%d", &slice); sscanf(s.c_str(), "--vseed=%d", &seed); }
    Rng r(977 * seed + slice);
    for (auto &s : arguments(r, g_app, 12)) { // names PETSc takes for its own are not ours to try
        std::string k = s.substr(0, s.find('='));
        args.push_back(s);
    }
    std::vector<char *> av;
    for (auto &s : args) av.push_back(&s[0]);
    av.push_back(nullptr);
    int ac = args.size();
    char **ap = av.data();
    std::unique_ptr<EllipticForestApp> app(new EllipticForestApp(&ac, &ap));
    g_theApp = app.get();
    vh::Main m(argc, argv);
    m.mode("C18", "application", 8, 8, appOptions);
    m.mode("C18", "history", 4000, 100000, history);
    m.mode("C18", "garbage", 4000, 100000, garbage);
    m.mode("C18", "files", 400, 4000, badFiles);
    return m.run();
}
