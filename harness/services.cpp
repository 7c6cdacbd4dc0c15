/* C22: process-wide services: first use from several threads, timers against bracketing clock readings, caches against
 * std::map, the life of the application object.  MPI is not started here except in the children of `lifetime`. */
#include "vh.hpp"
#include <EllipticForest.hpp>
#include <atomic>
#include <barrier>
#include <memory>
#include <set>
#include <sys/wait.h>
#include <thread>
using namespace EllipticForest;
using vh::Case;
using vh::Rng;
using Clock = std::chrono::steady_clock;

// ---- first use from several threads -------------------------------------------------------------------------------
static std::atomic<int> g_pauseMax{0};
static thread_local uint64_t t_state = 1;
static void hesitate() {
    t_state = vh::mix(t_state);
    int m = g_pauseMax.load(std::memory_order_relaxed);
    if (m == 0) return;
    uint64_t until = t_state % m;
    if (t_state & (1 << 20)) std::this_thread::yield();
    for (volatile uint64_t i = 0; i < until; i = i + 1) {}
    if (m > 20000 && (t_state & (7 << 24)) == 0) usleep(t_state % 300);
}
template <int N> struct Probe : public GenericSingleton<Probe<N>> {
    inline static std::atomic<int> made{0};
    long a = 0;
    std::vector<int> v;
    std::string text;
    long b = 0;
    Probe() {
        made++;
        a = 42;
        hesitate();
        v.assign(17, 3);
        hesitate();
        text = "a text too long for the small string buffer";
        hesitate();
        b = 43;
    }
    bool whole() const { return a == 42 && b == 43 && v.size() == 17 && v[16] == 3 && text.size() == 43; }
    static void reset() {
        delete GenericSingleton<Probe<N>>::actualClassPointer_;
        GenericSingleton<Probe<N>>::actualClassPointer_ = nullptr;
        made = 0;
    }
};
struct AppProbe : public EllipticForestApp {
    static EllipticForestApp *forget() { // what was made is kept alive (its destructor ends MPI)
        auto *p = actualClassPointer_;
        actualClassPointer_ = nullptr;
        return p;
    }
};
template <class F> static void together(int n, uint64_t seed, F f) {
    std::barrier start(n);
    std::vector<std::thread> ts;
    for (int k = 0; k < n; k++)
        ts.emplace_back([&, k] {
            t_state = vh::mix(seed + 1000 * k);
            start.arrive_and_wait();
            hesitate();
            f(k);
        });
    for (auto &t : ts) t.join();
}
template <int N> static void probeCase(Case &c, int threads, int asks) {
    std::vector<Probe<N> *> got(threads * asks, nullptr);
    std::vector<char> whole(threads * asks, 0);
    Probe<N>::reset();
    together(threads, c.rng.next(), [&](int k) {
        for (int i = 0; i < asks; i++) {
            Probe<N> &p = Probe<N>::getInstance();
            got[k * asks + i] = &p;
            whole[k * asks + i] = p.whole();
            hesitate();
        }
    });
    int made = Probe<N>::made;
    c.check(made == 1, "singleton:constructed", [&] { return std::to_string(made) + " times"; });
    std::set<void *> one(got.begin(), got.end());
    c.check(one.size() == 1 && got[0], "singleton:instances", [&] { return std::to_string(one.size()); });
    for (size_t i = 0; i < got.size(); i++) if (!c.check(whole[i], "singleton:seen-half-made")) break;
    c.count("first uses raced", threads);
    c.count("instances asked for", threads * asks);
}
static void singletonCase(Case &c) {
    int threads = c.rng.pick({2, 3, 4, 8, 12}), asks = c.rng.integer(1, 4);
    g_pauseMax = c.rng.pick({0, 100, 2000, 30000});
    c.key << threads << "x" << asks << "/" << g_pauseMax << " " << c.rng.s % 1000000;
    if (c.rng.chance(0.5)) probeCase<0>(c, threads, asks);
    else { // two services asked for at once do not disturb each other
        probeCase<1>(c, threads, asks);
        Probe<1> *first = &Probe<1>::getInstance();
        probeCase<2>(c, threads, asks);
        c.check(first == &Probe<1>::getInstance(), "singleton:replaced");
    }
    g_pauseMax = 0;
}
static void appCase(Case &c) {
    int threads = c.rng.pick({2, 4, 8});
    g_pauseMax = c.rng.pick({0, 500, 30000});
    c.key << "app " << threads << "/" << g_pauseMax << " " << c.rng.s % 1000000;
    static std::vector<EllipticForestApp *> keep;
    AppProbe::forget();
    std::vector<EllipticForestApp *> got(threads, nullptr);
    std::vector<int> usable(threads, 0);
    together(threads, c.rng.next(), [&](int k) {
        EllipticForestApp &a = EllipticForestApp::getInstance();
        got[k] = &a;
        usable[k] = std::get<bool>(a.options["cache-operators"]) == false && std::get<bool>(a.options["homogeneous-rhs"]) == false;
    });
    std::set<void *> one(got.begin(), got.end());
    c.check(one.size() == 1, "app:instances", [&] { return std::to_string(one.size()); });
    for (int u : usable) c.check(u, "app:seen-half-made");
    keep.push_back(got[0]);
    c.count("first uses raced", threads);
    g_pauseMax = 0;
}

// ---- the application object made in main ---------------------------------------------------------------------------
// What happens in a child: 0 = fine, otherwise the number of the monitor that fired
static int lifetimeChild(int shape, uint64_t seed) {
    Rng r(seed);
    std::vector<std::string> args = {"prog", "--n=7", "--name=abc"};
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    int argc = 3;
    char **av = argv.data();
    if (shape & 1) { MPI_Init(&argc, &av); } // the user may have started MPI
    for (int thrown = 0; thrown < 2; thrown++) {
        if (thrown && !(shape & 2)) break;
        if (thrown) { // a second look after the object is gone
            EllipticForestApp &a = EllipticForestApp::getInstance();
            a.addTimer("late");
            a.timers["late"].start();
            double t = a.timers["late"].stop();
            if (!(t >= 0)) return 11;
            if (a.timers.count("mine")) return 12; // a new object, not the destroyed one
            break;
        }
        auto app = std::make_unique<EllipticForestApp>(&argc, &av);
        if (&EllipticForestApp::getInstance() != app.get()) return 1;
        std::vector<EllipticForestApp *> got(6, nullptr);
        together(6, seed, [&](int k) { got[k] = &EllipticForestApp::getInstance(); });
        for (auto *g : got) if (g != app.get()) return 2;
        if (std::get<int>(app->options["n"]) != 7 || std::get<std::string>(app->options["name"]) != "abc") return 3;
        if (app->timers.count("app-lifetime") != 1) return 4;
        app->addTimer("mine");
        app->timers["mine"].start();
        usleep(2000);
        app->timers["mine"].stop();
        if (!(app->timers["mine"].time() >= 0.002)) return 5;
        if (app->timers.size() != 2) return 6;
        if (shape & 4) { // the user may end Petsc and MPI first
            PetscFinalize();
            int done = 0;
            MPI_Finalized(&done);
            if (!done) MPI_Finalize();
        }
        app.reset();
        int done = 0;
        MPI_Finalized(&done);
        if (!done) return 7; // it ends MPI
    }
    return 0;
}
static void lifetimeCase(Case &c) {
    int shape = c.index % 8;
    c.key << "shape " << shape;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        int rc = lifetimeChild(shape, c.rng.next());
        fflush(nullptr);
        _exit(rc ? 80 + rc : 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "lifetime", [&] {
        return "shape " + std::to_string(shape) + (WIFEXITED(st) ? " exit " + std::to_string(WEXITSTATUS(st)) : " signal " + std::to_string(WTERMSIG(st)));
    });
    c.count("application lives");
}

// ---- timers --------------------------------------------------------------------------------------------------------
static double since(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }
struct Model { // the readings a timer may show, given clock readings just before and after each call
    bool running = false;
    Clock::time_point s0, s1;
    double lo = 0, hi = 0;
};
static void spend(Rng &r) {
    int k = r.integer(0, 9);
    if (k == 0) usleep(r.integer(50, 1500));
    else if (k < 4) { auto t = Clock::now(); while (since(t, Clock::now()) < 1e-6 * r.integer(1, 60)) {} }
}
static void timerOps(Case &c, Rng &r, std::function<Timer &(int)> timer, std::vector<Model> &m, int steps, std::function<void(int)> readd = {}) {
    for (; steps > 0; steps--) {
        int k = r.integer(0, (int)m.size() - 1), what = r.integer(0, 11);
        Model &q = m[k];
        spend(r);
        auto a = Clock::now();
        if (what < 4) { // also starting a running timer: it measures from the later start
            timer(k).start();
            auto b = Clock::now();
            q.running = true;
            q.s0 = a;
            q.s1 = b;
            c.key << "s" << k;
        } else if (what < 8) {
            double d = timer(k).stop();
            auto b = Clock::now();
            double lo = q.running ? since(q.s1, a) : 0, hi = q.running ? since(q.s0, b) : 0;
            q.lo += lo;
            q.hi += hi;
            c.check(d >= lo - 1e-9 && d <= hi + 1e-9, q.running ? "timer:interval" : "timer:stopped-twice", [&] { return vh::num(d) + " not in " + vh::num(lo) + ".." + vh::num(hi); });
            q.running = false;
            c.key << "e" << k;
            c.count("intervals measured");
        } else if (what < 9 && !q.running) {
            timer(k).restart();
            q.lo = q.hi = 0;
            c.key << "r" << k;
        } else if (what == 9 && readd) {
            readd(k);
            q = Model();
            c.key << "a" << k;
        }
        for (int i = 0; i < (int)m.size(); i++) {
            if (m[i].running) continue; // whether a running interval already counts is left open
            double t = timer(i).time();
            c.check(t >= 0, "timer:negative", [&] { return vh::num(t); });
            c.check(t >= m[i].lo - 1e-8 && t <= m[i].hi + 1e-8, "timer:sum", [&] { return vh::num(t) + " not in " + vh::num(m[i].lo) + ".." + vh::num(m[i].hi) + " timer " + std::to_string(i); });
            c.check(timer(i).time() == t, "timer:reading-changes");
        }
        c.stopIfViolated();
    }
}
static void timerCase(Case &c) {
    Rng &r = c.rng;
    int n = r.integer(1, 4);
    if (r.chance(0.5)) {
        std::vector<Timer> ts(n);
        std::vector<Model> m(n);
        timerOps(c, r, [&](int k) -> Timer & { return ts[k]; }, m, r.integer(1, 40));
        std::vector<Timer> copy(ts); // copies go on by themselves
        std::vector<Model> mc(m);
        timerOps(c, r, [&](int k) -> Timer & { return copy[k]; }, mc, r.integer(1, 10));
        timerOps(c, r, [&](int k) -> Timer & { return ts[k]; }, m, r.integer(1, 10));
    } else {
        EllipticForestApp &a = EllipticForestApp::getInstance();
        auto name = [](int k) { return std::string("timer-") + char('a' + k); };
        for (int k = 0; k < n; k++) a.addTimer(name(k));
        std::vector<Model> m(n);
        timerOps(c, r, [&](int k) -> Timer & { return a.timers[name(k)]; }, m, r.integer(1, 40), [&](int k) { a.addTimer(name(k)); });
        c.check((int)a.timers.size() >= n, "timers:kept");
        a.timers.clear();
    }
}

// ---- caches --------------------------------------------------------------------------------------------------------
template <class T, class Make, class Same> static void cacheCase(Case &c, Make make, Same same) {
    Rng &r = c.rng;
    std::map<std::string, T> start, model;
    bool large = r.chance(0.02); // hundreds of names, some of them long
    int names = large ? r.integer(50, 900) : 12;
    auto name = [&] {
        if (r.chance(0.1)) return std::string();
        if (large && r.chance(0.05)) return std::string(r.integer(60, 300), 'k') + std::to_string(r.integer(0, 3));
        std::string s = r.pick({"T", "T_leaf_", "key", "a b", "\xc3\xa9"}) + std::to_string(r.integer(0, names));
        if (r.chance(0.1)) s += std::string("\0x", 2);
        return s;
    };
    for (int k = r.integer(0, 4); k > 0; k--) start[name()] = make();
    bool fromMap = r.chance(0.5);
    if (fromMap) model = start;
    DataCache<T> cache = fromMap ? DataCache<T>(start) : DataCache<T>();
    if (fromMap) for (auto &[k, v] : start) v = make(); // the cache holds its own objects
    std::map<std::string, T *> held;
    for (int step = large ? r.integer(100, 700) : r.integer(1, 60); step > 0; step--) {
        std::string k = name();
        switch (r.integer(0, 4)) {
        case 0: { T v = make(); cache[k] = v; model[k] = v; v = make(); c.key << "w"; break; }
        case 1: c.check(cache.contains(k) == (model.count(k) > 0), "cache:contains", [&] { return k; }); c.key << "?"; break;
        case 2: { bool had = model.count(k); T &v = cache[k]; c.check(same(v, model[k]), had ? "cache:object" : "cache:new-object", [&] { return k; }); held[k] = &v; c.key << "r"; break; }
        case 3: if (!held.empty()) { // a reference stays the object under its name
                auto &[n, p] = *held.begin();
                *p = make();
                model[n] = *p;
                c.check(&cache[n] == p, "cache:moved", [&] { return n; });
                c.key << "h";
            } break;
        default: if (r.chance(0.2)) { DataCache<T> copy(cache); T v = make(); copy[k] = v; c.check(same(copy[k], v), "cache:copy"); c.key << "c"; }
        }
        for (auto &[n, v] : model) c.check(cache.contains(n) && same(cache[n], v), "cache:object-of-another-name", [&] { return n + " after " + k; });
        c.stopIfViolated();
        c.count("cache steps");
    }
}
static void cacheAny(Case &c) {
    Rng &r = c.rng;
    auto eq = [](auto &a, auto &b) { return a == b; };
#ifdef __SANITIZE_THREAD__ // the numeric types need MPI, which is not instrumented
    int types = 1;
#else
    int types = 3;
#endif
    switch (r.integer(0, types)) {
    case 0: cacheCase<int>(c, [&] { return r.integer(-99, 99); }, eq); break;
    case 1: cacheCase<std::string>(c, [&] { return std::string(r.integer(0, 40), 'a' + r.integer(0, 25)); }, eq); break;
    case 2: cacheCase<Vector<double>>(c, [&] { Vector<double> v(r.integer(1, 9)); for (int i = 0; i < (int)v.size(); i++) v[i] = r.unit(); return v; },
                                      [](Vector<double> &a, Vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }); break;
    default: cacheCase<Matrix<double>>(c, [&] { Matrix<double> M(r.integer(1, 5), r.integer(1, 5), 0.0); for (int i = 0; i < (int)M.nRows(); i++) for (int j = 0; j < (int)M.nCols(); j++) M(i, j) = r.unit(); return M; },
                                       [](Matrix<double> &a, Matrix<double> &b) { if (a.nRows() != b.nRows() || a.nCols() != b.nCols()) return false; for (int i = 0; i < (int)a.nRows(); i++) for (int j = 0; j < (int)a.nCols(); j++) if (a(i, j) != b(i, j)) return false; return true; });
    }
}

int main(int argc, char **argv) {
    vh::Main m(argc, argv);
#ifndef __SANITIZE_THREAD__
    if (m.prop != "C22L") MPI_Init(&argc, &argv);
#endif
    m.mode("C22", "singleton", 1500, 30000, singletonCase);
    m.mode("C22", "app", 200, 1000, appCase);
    m.mode("C22", "timer", 300, 5000, timerCase);
    m.mode("C22", "cache", 2000, 50000, cacheAny);
    m.mode("C22L", "lifetime", 8, 8, lifetimeCase);
    return m.run();
}
