// Runs small concurrent programs on one Graph under a scheduler of its own. The library is compiled with
// -fsanitize=thread, but linked with the functions below in place of the sanitizer's: every memory access and every
// lock operation of a worker is a point at which the scheduler may let another worker go on. One worker runs at a time,
// so the order of calls, returns and effects is known, and any schedule can be had again from its seed.
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

#include "datastructures/graph/graph.hpp"

// ---------------------------------------------------------------- scheduler
namespace {
constexpr int MAXT = 8;
enum State { READY, BLOCKED, FINISHED };

struct Sched {
    int n = 0;
    State st[MAXT];
    void *waits[MAXT];
    int prio[MAXT];
    std::atomic<int> turn{-1};  // futex: who may run
    std::mt19937_64 rnd;
    int mode = 0;          // 0: switch with probability p, 1: priorities with change points
    double p = 0.1;
    std::vector<long> change;
    long step = 0;
    bool stuck = false;
    std::atomic<long> beat{0};
} S;

thread_local int me = -1;       // number of the worker while it runs an operation under the scheduler
thread_local int rank_ = -1;    // number of the worker
thread_local char *stack_lo = nullptr, *stack_hi = nullptr;

void futex_wait(std::atomic<int> *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int> *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }

void give(int t) {
    S.turn.store(t);
    futex_wake(&S.turn);
}
void await(int t) {
    for (int v = S.turn.load(); v != t; v = S.turn.load()) {
        futex_wait(&S.turn, v);
    }
}
// Who is next; -1 if nobody can go on
int pick(int cur) {
    int c[MAXT], k = 0;
    for (int t = 0; t < S.n; t++) {
        if (S.st[t] == READY) c[k++] = t;
    }
    if (k == 0) return -1;
    if (S.mode == 1) {
        for (size_t i = 0; i < S.change.size(); i++) {
            if (S.change[i] == S.step && cur >= 0) S.prio[cur] = -1 - static_cast<int>(i);
        }
        int best = c[0];
        for (int i = 1; i < k; i++) {
            if (S.prio[c[i]] > S.prio[best]) best = c[i];
        }
        return best;
    }
    bool cur_ready = cur >= 0 && S.st[cur] == READY;
    if (cur_ready && std::uniform_real_distribution<>(0, 1)(S.rnd) >= S.p) return cur;
    return c[S.rnd() % k];
}
void report_stuck();
void go_on(int next) {
    if (next == rank_) return;
    give(next);
    await(rank_);
}
void point() {
    if (me < 0) return;
    S.step++;
    S.beat.fetch_add(1, std::memory_order_relaxed);
    int t = rank_;
    if (S.step > 3000000) report_stuck();
    go_on(pick(t));
}
void access(void *a) {
    if (me < 0) return;
    auto c = static_cast<char *>(a);
    if (c >= stack_lo && c < stack_hi) return;
    point();
}

// ---------------------------------------------------------------- locks
struct Lock {
    int writer = -1;
    int depth = 0;
    std::multiset<int> readers;
};
std::map<void *, Lock> locks;

bool take(void *l, bool shared, bool recursive) {
    auto &k = locks[l];
    if (shared) {
        if (k.writer >= 0) return false;
        k.readers.insert(rank_);
        return true;
    }
    if (recursive && k.writer == rank_) {
        k.depth++;
        return true;
    }
    if (k.writer >= 0 || !k.readers.empty()) return false;
    k.writer = rank_;
    k.depth = 1;
    return true;
}
void acquire(void *l, bool shared, bool recursive = false) {
    point();
    while (!take(l, shared, recursive)) {
        S.st[rank_] = BLOCKED;
        S.waits[rank_] = l;
        int next = pick(rank_);
        if (next < 0) report_stuck();
        go_on(next);
    }
}
void release(void *l) {
    auto &k = locks[l];
    if (k.writer == rank_) {
        if (--k.depth == 0) k.writer = -1;
    } else {
        auto i = k.readers.find(rank_);
        if (i != k.readers.end()) k.readers.erase(i);
    }
    for (int t = 0; t < S.n; t++) {
        if (S.st[t] == BLOCKED && S.waits[t] == l) S.st[t] = READY;
    }
    point();
}
template <class F> F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace

#define REAL1(name, type) static auto f = real<int (*)(type *)>(#name)
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
    REAL1(pthread_rwlock_rdlock, pthread_rwlock_t);
    if (me < 0) return f(l);
    acquire(l, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
    REAL1(pthread_rwlock_wrlock, pthread_rwlock_t);
    if (me < 0) return f(l);
    acquire(l, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept {
    REAL1(pthread_rwlock_tryrdlock, pthread_rwlock_t);
    if (me < 0) return f(l);
    point();
    return take(l, true, false) ? 0 : EBUSY;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept {
    REAL1(pthread_rwlock_trywrlock, pthread_rwlock_t);
    if (me < 0) return f(l);
    point();
    return take(l, false, false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    REAL1(pthread_rwlock_unlock, pthread_rwlock_t);
    if (me < 0) return f(l);
    release(l);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *l) noexcept {
    REAL1(pthread_mutex_lock, pthread_mutex_t);
    if (me < 0) return f(l);
    acquire(l, false, (l->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *l) noexcept {
    REAL1(pthread_mutex_trylock, pthread_mutex_t);
    if (me < 0) return f(l);
    point();
    return take(l, false, (l->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *l) noexcept {
    REAL1(pthread_mutex_unlock, pthread_mutex_t);
    if (me < 0) return f(l);
    release(l);
    return 0;
}

// what the sanitizer's instrumentation calls
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long) { access(a); }
void __tsan_write_range(void *a, unsigned long) { access(a); }
#define ACCESS(n)                                                     \
    void __tsan_read##n(void *a) { access(a); }                       \
    void __tsan_write##n(void *a) { access(a); }                      \
    void __tsan_unaligned_read##n(void *a) { access(a); }             \
    void __tsan_unaligned_write##n(void *a) { access(a); }            \
    void __tsan_volatile_read##n(void *a) { access(a); }              \
    void __tsan_volatile_write##n(void *a) { access(a); }             \
    void __tsan_unaligned_volatile_read##n(void *a) { access(a); }    \
    void __tsan_unaligned_volatile_write##n(void *a) { access(a); }   \
    void __tsan_read_write##n(void *a) { access(a); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
#define ATOMIC(bits, T)                                                                                                     \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { access((void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                 \
        access((void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }        \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                                   \
        access((void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }        \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                       \
        access((void *)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- programs
struct Op {
    char k;    // a add both, A add directed, r remove both, R remove directed, h has edge, m crossing, n neighbours, v has vertex
    int a, b, x;
};
static std::vector<Polygon> polys_;
static std::vector<Coordinate> verts;
static std::unique_ptr<Graph> graph;
static std::vector<std::vector<Op>> prog;
static std::vector<Op> setup;
static std::vector<std::string> history;  // one worker runs at a time

static int number(const Coordinate &c) {
    for (size_t i = 0; i < verts.size(); i++) {
        if (verts[i] == c) return static_cast<int>(i) + 1;
    }
    return 0;
}
static std::string perform(const Op &o) {
    const auto &a = verts[o.a - 1];
    const auto &b = verts[o.b - 1];
    try {
        switch (o.k) {
        case 'a': graph->add_edge(a, b, o.x == 2); return "[]";
        case 'A': graph->add_directed_edge(a, b, o.x == 2); return "[]";
        case 'r': graph->remove_edge(a, b); return "[]";
        case 'R': graph->remove_directed_edge(a, b); return "[]";
        case 'h': return graph->has_edge(a, b) ? "[1]" : "[0]";
        case 'm': return graph->is_edge_meridian_crossing(a, b) ? "[1]" : "[0]";
        case 'v': return graph->has_vertex(a) ? "[1]" : "[0]";
        case 'n': {
            auto nb = graph->get_neighbors(a);
            int saved = me;
            me = -1;
            std::string s = "[";
            for (const auto &c : nb) s += (s.size() > 1 ? "," : "") + std::to_string(number(c));
            me = saved;
            return s + "]";
        }
        }
    } catch (const std::exception &e) {
        return "[-1]";
    }
    return "[-2]";
}
static std::string call(int t, int i, const Op &o) {
    std::ostringstream s;
    s << "{\"e\":\"call\",\"t\":" << t << ",\"i\":" << i << ",\"k\":\"" << o.k << "\",\"a\":" << o.a << ",\"b\":" << o.b
      << ",\"x\":" << o.x << ",\"v\":";
    return s.str();
}
static std::string ret(int t) { return "{\"e\":\"ret\",\"t\":" + std::to_string(t) + "}"; }

static std::string answer_history(bool stuck) {
    std::string s = "[";
    for (const auto &h : history) s += (s.size() > 1 ? "," : "") + h;
    if (stuck) {
        s += std::string(s.size() > 1 ? "," : "") + "{\"e\":\"stuck\"}";
    } else {
        s += std::string(s.size() > 1 ? "," : "") + "{\"e\":\"final\",\"edges\":[";
        bool first = true;
        for (size_t i = 1; i <= verts.size(); i++) {
            for (size_t j = 1; j <= verts.size(); j++) {
                if (i != j && graph->has_edge(verts[i - 1], verts[j - 1])) {
                    s += std::string(first ? "" : ",") + "[" + std::to_string(i) + "," + std::to_string(j) + "," +
                         (graph->is_edge_meridian_crossing(verts[i - 1], verts[j - 1]) ? "2" : "1") + "]";
                    first = false;
                }
            }
        }
        s += "],\"nb\":[";
        for (size_t i = 1; i <= verts.size(); i++) {
            auto nb = graph->get_neighbors(verts[i - 1]);
            s += (i > 1 ? ",[" : "[");
            for (size_t k = 0; k < nb.size(); k++) s += (k ? "," : "") + std::to_string(number(nb[k]));
            s += "]";
        }
        s += "]}";
    }
    return s + "]";
}

static uint64_t run_seed;
static std::map<std::string, uint64_t> seen;
static std::atomic<int> alive{0};
static std::atomic<int> done{0};  // futex

static void print_all(const std::string &extra) {
    std::string s = "{\"n\":[";
    bool first = true;
    for (const auto &h : seen) {
        s += std::string(first ? "" : ",") + "{\"seed\":" + std::to_string(h.second) + ",\"h\":" + h.first + "}";
        first = false;
    }
    if (!extra.empty()) {
        s += std::string(first ? "" : ",") + "{\"seed\":" + std::to_string(run_seed) + ",\"h\":" + extra + "}";
    }
    s += "],\"steps\":" + std::to_string(S.step) + "}\n";
    fputs(s.c_str(), stdout);
    fflush(stdout);
}
namespace {
void report_stuck() {
    me = -1;
    // results of the calls that have not returned are not known
    for (auto &h : history) {
        if (!h.empty() && h.back() == ':') h += "[-3]}";
    }
    print_all(answer_history(true));
    _exit(0);
}
} // namespace

static void worker(int t) {
    pthread_attr_t at;
    void *lo;
    size_t size;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &size);
    pthread_attr_destroy(&at);
    stack_lo = static_cast<char *>(lo);
    stack_hi = stack_lo + size;
    rank_ = t;
    await(t);
    me = t;
    for (size_t i = 0; i < prog[t].size(); i++) {
        point();
        me = -1;
        size_t at_event = history.size();
        history.push_back(call(t + 1, static_cast<int>(i), prog[t][i]));
        me = t;
        std::string v = perform(prog[t][i]);
        point();
        me = -1;
        history[at_event] += v + "}";
        history.push_back(ret(t + 1));
        me = t;
    }
    me = -1;
    S.st[t] = FINISHED;
    int left = 0;
    for (int u = 0; u < S.n; u++) left += S.st[u] != FINISHED;
    if (left == 0) {
        done.store(1);
        futex_wake(&done);
    } else {
        int next = pick(-1);
        if (next < 0) report_stuck();
        give(next);
    }
}

static void one(uint64_t seed, long horizon) {
    run_seed = seed;
    S.rnd.seed(seed * 7919 + 13);
    S.n = static_cast<int>(prog.size());
    S.step = 0;
    S.mode = static_cast<int>(S.rnd() % 2);
    const double ps[] = {0.5, 0.2, 0.05, 0.01};
    S.p = ps[S.rnd() % 4];
    for (int t = 0; t < S.n; t++) {
        S.st[t] = READY;
        S.prio[t] = 1 + static_cast<int>(S.rnd() % 1000);
    }
    S.change.clear();
    if (S.mode == 1) {
        size_t d = 1 + S.rnd() % 4;
        for (size_t i = 0; i < d; i++) S.change.push_back(static_cast<long>(S.rnd() % (horizon + 1)));
    }
    locks.clear();
    history.clear();
    graph = std::make_unique<Graph>(polys_);
    for (size_t i = 0; i < setup.size(); i++) {
        std::string v = perform(setup[i]);
        history.push_back(call(1, -1, setup[i]) + v + "}");
        history.push_back(ret(1));
    }
    done.store(0);
    S.turn.store(-1);
    std::vector<std::thread> ts;
    for (int t = 0; t < S.n; t++) ts.emplace_back(worker, t);
    give(static_cast<int>(S.rnd() % S.n));
    // The worker whose turn it is may wait for something the scheduler does not know of: let another one run then
    long beat = -1;
    int idle = 0;
    while (done.load() == 0) {
        timespec w{0, 200000000};
        syscall(SYS_futex, &done, FUTEX_WAIT_PRIVATE, 0, &w, nullptr, 0);
        if (done.load() != 0) break;
        long now = S.beat.load();
        if (now == beat) {
            if (++idle > 100) report_stuck();
            for (int k = 1; k <= S.n; k++) {
                int t = (S.turn.load() + k) % S.n;
                if (S.st[t] == READY && t != S.turn.load()) {
                    give(t);
                    break;
                }
            }
        } else {
            idle = 0;
        }
        beat = now;
    }
    for (auto &t : ts) t.join();
    auto h = answer_history(false);
    seen.emplace(h, seed);
}

static std::vector<Op> ops(std::istringstream &in) {
    std::vector<Op> r;
    std::string w;
    while (in >> w && w != "|") {
        Op o{};
        o.k = w[0];
        in >> o.a >> o.b >> o.x;
        r.push_back(o);
    }
    return r;
}

// run SEED RUNS NV | setup ops | ops of worker 1 | ...      with ops as "k a b x"
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string w;
        uint64_t seed;
        long runs;
        int nv;
        in >> w >> seed >> runs >> nv >> w;
        verts.clear();
        polys_.clear();
        std::vector<Coordinate> ring;
        // one convex polygon
        static const int X[] = {0, 30, 50, 60, 60, 50, 30, 0, -10}, Y[] = {0, 0, 10, 30, 50, 80, 90, 90, 50};
        for (int i = 0; i < nv; i++) ring.emplace_back(Coordinate(X[i] * 1000, Y[i] * 1000));
        polys_.emplace_back(Polygon(ring));
        verts = Graph(polys_).get_vertices();
        setup = ops(in);
        prog.clear();
        while (true) {
            auto p = ops(in);
            if (p.empty()) break;
            prog.push_back(p);
        }
        if (prog.empty() || prog.size() > MAXT || static_cast<int>(verts.size()) != nv) {
            fprintf(stderr, "bad program %s\n", line.c_str());
            return 3;
        }
        seen.clear();
        one(0, 0);  // only to see how long a run takes
        const long horizon = S.step + S.step / 4;
        for (long i = 0; i < runs; i++) one(seed + i, horizon);
        print_all("");
    }
    return 0;
}
