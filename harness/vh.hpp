/* Common parts of the monitor harnesses: seeded generator, case bookkeeping, violation log.
 *
 * A harness registers "modes" (families of cases) for a property.  Every case is generated from (seed, mode, index)
 * alone, so it can be replayed by itself.  Records go to a JSON-lines file (one per rank) that the runner reads:
 *   {"t":"begin","c":"mode#i"}                     a case starts (flushed; attributes a crash)
 *   {"t":"end","c":..,"key":..,"nt":0/1}           it ended; key = fingerprint of what was generated
 *   {"t":"viol","c":..,"sig":..,"detail":..}       a monitor fired
 *   {"t":"obs","n":{..}}                           totals of what the monitors saw
 *   {"t":"sample",...}                             a case written out                                         */
#ifndef VH_HPP
#define VH_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <mpi.h>
#include <dirent.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vh {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    int integer(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool chance(double p) { return unit() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
};

inline std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
inline std::string shortnum(double x) { char b[40]; snprintf(b, 40, "%.6g", x); return b; }

struct Main;
struct Stop {}; // thrown to end a case after its first violation

struct Case {
    Main &m;
    std::string id;
    int index;
    Rng rng;
    std::ostringstream key; // what was generated
    bool nontrivial = true;
    int violations = 0;
    Case(Main &m, std::string id, int index, uint64_t seed) : m(m), id(id), index(index), rng(seed) {}
    void count(const std::string &what, long n = 1);
    void maxof(const std::string &what, double v);
    void violate(const std::string &sig, const std::string &detail);
    // The monitors' basic forms.  `detail` is only evaluated when the monitor fires.
    template <class F> bool check(bool ok, const std::string &sig, F detail) {
        count("checks");
        if (!ok) violate(sig, detail());
        return ok;
    }
    bool check(bool ok, const std::string &sig) { return check(ok, sig, [] { return std::string(); }); }
    bool near(double got, double want, double tol, const std::string &sig, const std::string &where = "") {
        count("values compared");
        double e = std::fabs(got - want);
        if (!(e <= tol || got == want)) { // NaN fails, equal infinities do not
            violate(sig, where + " got " + num(got) + " want " + num(want) + " tol " + shortnum(tol));
            return false;
        }
        return true;
    }
    template <class V, class W> bool nearAll(const V &got, const W &want, double tol, const std::string &sig,
                                             const std::string &where = "") {
        if ((size_t)got.size() != (size_t)want.size()) {
            violate(sig + ":size", where + " size " + std::to_string(got.size()) + " want " + std::to_string(want.size()));
            return false;
        }
        count("values compared", got.size());
        for (size_t i = 0; i < (size_t)got.size(); i++) {
            double e = std::fabs((double)got[i] - (double)want[i]);
            if (!(e <= tol || (double)got[i] == (double)want[i])) {
                violate(sig, where + " [" + std::to_string(i) + " of " + std::to_string(got.size()) + "] got " +
                                 num((double)got[i]) + " want " + num((double)want[i]) + " tol " + shortnum(tol));
                return false;
            }
        }
        return true;
    }
    template <class Ex, class F> bool throws(F f, const std::string &sig, const std::string &where = "") {
        count("rejections expected");
        try { f(); }
        catch (const Ex &) { return true; }
        catch (const std::exception &e) { violate(sig + ":wrong-exception", where + " threw " + e.what()); return false; }
        violate(sig, where + " did not throw");
        return false;
    }
    void stopIfViolated() { if (violations) throw Stop(); }
};

struct Mode { std::string prop, name; int quick, thorough; std::function<void(Case &)> fn; };

struct Main {
    std::vector<Mode> modes;
    std::string prop, only, scratch = "/tmp";
    uint64_t seed = 1;
    bool thorough = false;
    int rank = 0, size = 1;
    double share = 1.0; // factor on the number of cases
    int repeat = 0; // run every case this often and watch the memory in use
    std::string skip; // modes left out, separated by commas
    int slice = 0, slices = 1; // this process runs the cases whose running number is slice modulo slices
    FILE *out = stdout;
    std::map<std::string, long> counts;
    std::map<std::string, double> maxima;
    int samples = 0;

    Main(int argc, char **argv) {
        std::string path;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&](const char *p) { return a.substr(strlen(p)); };
            if (a.rfind("--vprop=", 0) == 0) prop = val("--vprop=");
            else if (a.rfind("--vonly=", 0) == 0) only = val("--vonly=");
            else if (a.rfind("--vseed=", 0) == 0) seed = std::stoull(val("--vseed="));
            else if (a.rfind("--vtier=", 0) == 0) thorough = val("--vtier=") == "thorough";
            else if (a.rfind("--vout=", 0) == 0) path = val("--vout=");
            else if (a.rfind("--vshare=", 0) == 0) share = std::stod(val("--vshare="));
            else if (a.rfind("--vrepeat=", 0) == 0) repeat = std::stoi(val("--vrepeat="));
            else if (a.rfind("--vskip=", 0) == 0) skip = "," + val("--vskip=") + ",";
            else if (a.rfind("--vscratch=", 0) == 0) scratch = val("--vscratch=");
            else if (a.rfind("--vslice=", 0) == 0) sscanf(val("--vslice=").c_str(), "%d/%d", &slice, &slices);
        }
        int init = 0;
        MPI_Initialized(&init);
        if (init) { MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size); }
        if (!path.empty()) {
            out = fopen((path + "." + std::to_string(rank)).c_str(), "w");
            if (!out) { perror(path.c_str()); exit(3); }
        }
    }
    void mode(std::string prop, std::string name, int quick, int thorough, std::function<void(Case &)> fn) {
        modes.push_back({prop, name, quick, thorough, fn});
    }
    void line(const std::string &s) { fputs(s.c_str(), out); fputc('\n', out); fflush(out); }
    static size_t bytesInUse() {
#if defined(__SANITIZE_ADDRESS__)
        return __sanitizer_get_current_allocated_bytes();
#else
        return 0;
#endif
    }
    static size_t filesOpen() {
        size_t n = 0;
        if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
        return n;
    }
    // The same case again and again: what it leaves behind must not add up.  Libraries may grow their caches once in a
    // while; a leak adds something every single time.
    void repeated(const Mode &m, Case &c) {
        int n = repeat;
        std::vector<size_t> bytes(4 * repeat + 1), files(4 * repeat + 1);
        std::string key;
        for (int k = 0, more = 1; more; k++) {
            {
                Case again(*this, c.id, c.index, 0);
                again.rng = c.rng;
                try { m.fn(again); }
                catch (const Stop &) {}
                if (k == 0) { key = again.key.str(); c.nontrivial = again.nontrivial; }
                c.violations += again.violations;
            }
            bytes[k] = bytesInUse();
            files[k] = filesOpen();
            if (k + 1 < n) continue;
            bool b = true, f = true;
            for (int i = k; i > k - n + 3; i--) { b = b && bytes[i] > bytes[i - 1]; f = f && files[i] > files[i - 1]; }
            int suspect = (b || f) && k + 1 < 4 * repeat;
            int initialised = 0;
            MPI_Initialized(&initialised);
            if (initialised && size > 1) { int any; MPI_Allreduce(&suspect, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); suspect = any; }
            if (suspect) n = k + 2; // look on until it stops growing, or has grown often enough
            else more = 0;
            if (!more && k + 1 == 4 * repeat && b) { c.key << key; c.violate("leak:memory", std::to_string((bytes[k] - bytes[3]) / (k - 3)) + " bytes each of " + std::to_string(k + 1) + " times"); }
            if (!more && k + 1 == 4 * repeat && f) { c.key << key; c.violate("leak:files", std::to_string(files[k] - files[3]) + " files after " + std::to_string(k + 1) + " times"); }
            if (!more) c.count("cases repeated");
        }
        if (c.key.str().empty()) c.key << key;
    }
    void runCase(const Mode &m, int i) {
        std::string id = m.name + "#" + std::to_string(i);
        Case c(*this, id, i, mix(seed ^ hashStr(m.prop + "/" + m.name)) + (uint64_t)i * 0x9e3779b97f4a7c15ull + (uint64_t)(size - 1) * 0x632be59bd9b4e019ull);
        line("{\"t\":\"begin\",\"c\":\"" + id + "\"}");
        try {
            if (repeat) repeated(m, c);
            else m.fn(c);
        }
        catch (const Stop &) {}
        catch (const std::exception &e) {
            std::string what = e.what();
            std::string head = what.substr(0, what.find('\n'));
            c.violate("exception:" + m.name, head);
            if (size > 1) { finish(); MPI_Abort(MPI_COMM_WORLD, 9); }
        }
        std::string key = c.key.str();
        line("{\"t\":\"end\",\"c\":\"" + id + "\",\"key\":\"" + std::to_string(hashStr(m.name + key)) + "\",\"nt\":" +
             (c.nontrivial ? "1" : "0") + "}");
        if (i < 2 && samples < 24) {
            samples++;
            line("{\"t\":\"sample\",\"c\":\"" + id + "\",\"text\":\"" + esc(key.substr(0, 400)) + "\"}");
        }
    }
    void finish() {
        std::string s = "{\"t\":\"obs\",\"n\":{";
        bool first = true;
        for (auto &[k, v] : counts) { s += (first ? "" : ",") + ("\"" + esc(k) + "\":") + std::to_string(v); first = false; }
        s += "},\"max\":{";
        first = true;
        for (auto &[k, v] : maxima) { s += (first ? "" : ",") + ("\"" + esc(k) + "\":\"") + shortnum(v) + "\""; first = false; }
        line(s + "}}");
    }
    int run() {
        bool any = false;
        long number = 0;
        for (auto &m : modes) {
            if (prop != "all" && m.prop != prop) continue;
            if (skip.find("," + m.name + ",") != std::string::npos) continue;
            int n = thorough ? m.thorough : m.quick;
            if (share != 1.0) n = std::max(1, (int)(n * share));
            for (int i = 0; i < n; i++) {
                if (!only.empty()) {
                    if (only != m.name + "#" + std::to_string(i)) continue;
                } else if (number++ % slices != slice) continue;
                any = true;
                runCase(m, i);
            }
        }
        finish();
        line("{\"t\":\"done\"}");
        fclose(out);
        if (!any) fprintf(stderr, "no case for property %s only '%s'\n", prop.c_str(), only.c_str());
        return 0;
    }
};

inline void Case::count(const std::string &what, long n) { m.counts[what] += n; }
inline void Case::maxof(const std::string &what, double v) {
    auto it = m.maxima.find(what);
    if (it == m.maxima.end() || !(it->second >= v)) m.maxima[what] = v;
}
inline void Case::violate(const std::string &sig, const std::string &detail) {
    violations++;
    if (violations > 8) return;
    m.line("{\"t\":\"viol\",\"c\":\"" + id + "\",\"sig\":\"" + esc(sig) + "\",\"detail\":\"" +
           esc((detail + " | case: " + key.str()).substr(0, 1500)) + "\"}");
}

} // namespace vh
#endif
