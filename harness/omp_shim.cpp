// A small OpenMP runtime on top of POSIX threads, which serves the calls that are emitted by GCC's `-fopenmp`.  It replaces
// libgomp for two reasons: ThreadSanitizer understands its synchronisation (fork and join of a team, critical sections), and
// the schedule can be perturbed (seed).  Iterations are handed out by relaxed atomics on purpose: handing out work must not
// order the iterations, otherwise data races between them would remain unnoticed.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <vector>

namespace {

    constexpr int MAX_LOOPS = 64;
    constexpr int MAX_LOG = 4096;

    struct Barrier {
        pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
        pthread_cond_t c = PTHREAD_COND_INITIALIZER;
        unsigned waiting = 0, round = 0;

        void wait(unsigned n) {
            pthread_mutex_lock(&m);
            unsigned r = round;
            if (++waiting == n) {
                waiting = 0;
                round++;
                pthread_cond_broadcast(&c);
            } else {
                while (r == round) pthread_cond_wait(&c, &m);
            }
            pthread_mutex_unlock(&m);
        }
    };

    struct Team {
        unsigned n = 1;
        uint64_t seed = 0;
        std::atomic<long> counters[MAX_LOOPS];
        std::atomic<int> singles[MAX_LOOPS];
        std::atomic<unsigned> ticket{0};
        std::atomic<unsigned char> owner[MAX_LOG];  // which thread was the i-th one to obtain work
        Barrier barrier;
    };

    struct Thread {
        Team* team = nullptr;
        unsigned id = 0;
        int loop = 0, single = 0;
        uint64_t rng = 0;
        // the current loop
        std::atomic<long>* counter = nullptr;
        long start = 0, incr = 1, chunk = 1, count = 0;
        int kind = 0;  // 0: static, 1: dynamic, 2: guided
        long next = 0;
        unsigned long long ustart = 0;
    };

    thread_local Thread* self = nullptr;
    Thread* current() {
        static thread_local Thread root;
        return self ? self : &root;
    }

    std::atomic<uint64_t> seed{0};
    std::atomic<int> level{0};
    std::atomic<uint64_t> regions{0}, shared{0}, chunks{0}, regionCounter{0};
    std::atomic<int> threadLimit{0};
    pthread_mutex_t globalMutex = PTHREAD_MUTEX_INITIALIZER, schedMutex = PTHREAD_MUTEX_INITIALIZER;
    uint64_t schedule = 1469598103934665603ULL;

    uint64_t mix(uint64_t x) {
        x += 0x9e3779b97f4a7c15ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }

    void perturb(Thread* t) {
        int l = level.load(std::memory_order_relaxed);
        if (!l) return;
        t->rng = mix(t->rng);
        unsigned r = t->rng % 16;
        if (r < 6) return;
        if (r < 11) {
            sched_yield();
        } else if (r < 14 || l < 2) {
            for (volatile unsigned k = 0; k < (t->rng >> 8) % 4000; k = k + 1) {}
        } else {
            struct timespec ts = {0, (long) ((t->rng >> 8) % 150000)};
            nanosleep(&ts, nullptr);
        }
    }

    int defaultThreads() {
        const char* e = std::getenv("OMP_NUM_THREADS");
        int n = e ? std::atoi(e) : 4;
        return n > 0 ? n : 4;
    }

    struct Arg {
        Thread t;
        void (*fn)(void*);
        void* data;
    };

    // Optionally waits for all threads of a team to be up, such that none of them is done before the others have been started.
    void begin(Thread* t) {
        if (level.load(std::memory_order_relaxed) && t->team->n > 1 && t->team->seed % 4) t->team->barrier.wait(t->team->n);
        perturb(t);
    }

    void* run(void* p) {
        Arg* a = (Arg*) p;
        self = &a->t;
        begin(&a->t);
        a->fn(a->data);
        self = nullptr;
        return nullptr;
    }

    bool fetch(Thread* t, long* a, long* b) {
        if (!t->counter) return false;
        perturb(t);
        long from, to;
        if (t->kind == 0) {
            if (t->chunk <= 0) {
                if (t->next++) return false;
                unsigned n = t->team ? t->team->n : 1;
                long q = t->count / n, r = t->count % n;
                from = t->id * q + (t->id < r ? t->id : r);
                to = from + q + (t->id < r ? 1 : 0);
            } else {
                unsigned n = t->team ? t->team->n : 1;
                from = (t->id + (t->next++) * (long) n) * t->chunk;
                to = from + t->chunk;
            }
        } else {
            from = t->counter->fetch_add(t->chunk, std::memory_order_relaxed);
            to = from + t->chunk;
        }
        if (to > t->count) to = t->count;
        if (from >= to) return false;
        if (t->team) {
            unsigned k = t->team->ticket.fetch_add(1, std::memory_order_relaxed);
            if (k < MAX_LOG) t->team->owner[k].store((unsigned char) t->id, std::memory_order_relaxed);
        }
        *a = from;
        *b = to;
        perturb(t);
        return true;
    }

    bool nextLong(long* a, long* b) {
        Thread* t = current();
        long x, y;
        if (!fetch(t, &x, &y)) return false;
        *a = t->start + x * t->incr;
        *b = t->start + y * t->incr;
        return true;
    }

    bool nextUll(unsigned long long* a, unsigned long long* b) {
        Thread* t = current();
        long x, y;
        if (!fetch(t, &x, &y)) return false;
        *a = t->ustart + (unsigned long long) (x * t->incr);
        *b = t->ustart + (unsigned long long) (y * t->incr);
        return true;
    }

    std::atomic<long> rootCounter{0};

    void prepare(int kind, long count, long incr, long chunk) {
        Thread* t = current();
        t->kind = kind;
        t->count = count;
        t->incr = incr;
        t->chunk = kind == 0 ? chunk : (chunk > 0 ? chunk : 1);
        t->next = 0;
        if (t->team) {
            if (t->loop >= MAX_LOOPS) std::abort();
            t->counter = &t->team->counters[t->loop++];
        } else {
            rootCounter.store(0, std::memory_order_relaxed);
            t->counter = &rootCounter;
        }
    }

    bool startLong(int kind, long start, long end, long incr, long chunk, long* a, long* b) {
        long count = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
        prepare(kind, count > 0 ? count : 0, incr, chunk);
        current()->start = start;
        return nextLong(a, b);
    }

    bool startUll(int kind, bool up, unsigned long long start, unsigned long long end, unsigned long long incr,
                  unsigned long long chunk, unsigned long long* a, unsigned long long* b) {
        long step = (long) incr;
        long count = up ? (start < end ? (long) ((end - start + incr - 1) / incr) : 0)
                        : (start > end ? (long) ((start - end - step - 1) / -step) : 0);
        prepare(kind, count, step, (long) chunk);
        current()->ustart = start;
        return nextUll(a, b);
    }
}

extern "C" {

    // ---- control by the harness ----
    void vomp_config(uint64_t s, int l, int limit) {
        seed = s;
        level = l;
        threadLimit = limit;
        regionCounter = 0;
        pthread_mutex_lock(&schedMutex);
        schedule = 1469598103934665603ULL;
        pthread_mutex_unlock(&schedMutex);
    }

    // regions, regions in which more than one thread did work, chunks, hash of the schedule since the last call of vomp_config
    void vomp_stats(uint64_t* out) {
        out[0] = regions;
        out[1] = shared;
        out[2] = chunks;
        pthread_mutex_lock(&schedMutex);
        out[3] = schedule;
        pthread_mutex_unlock(&schedMutex);
    }

    // ---- GCC's runtime interface ----
    void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
        if (n == 0) n = (unsigned) defaultThreads();
        int limit = threadLimit.load(std::memory_order_relaxed);
        if (limit > 0 && n > (unsigned) limit) n = (unsigned) limit;
        if (self) n = 1;  // nested regions are serialized
        if (n > 64) n = 64;
        Team* team = new Team();
        team->n = n;
        for (auto& c : team->counters) c.store(0, std::memory_order_relaxed);
        for (auto& c : team->singles) c.store(0, std::memory_order_relaxed);
        for (auto& c : team->owner) c.store(255, std::memory_order_relaxed);
        uint64_t r = regionCounter.fetch_add(1, std::memory_order_relaxed);
        team->seed = mix(seed.load() ^ mix(r));
        std::vector<Arg> args(n);
        std::vector<pthread_t> ids(n);
        for (unsigned i = 0; i < n; i++) {
            args[i].t.team = team;
            args[i].t.id = i;
            args[i].t.rng = mix(team->seed + i);
            args[i].fn = fn;
            args[i].data = data;
        }
        for (unsigned i = 1; i < n; i++) {
            if (pthread_create(&ids[i], nullptr, &run, &args[i]) != 0) std::abort();
        }
        Thread* outer = self;
        self = &args[0].t;
        begin(self);
        fn(data);
        self = outer;
        for (unsigned i = 1; i < n; i++) pthread_join(ids[i], nullptr);
        unsigned k = team->ticket.load();
        uint64_t h = 1469598103934665603ULL;
        bool multiple = false;
        for (unsigned i = 0; i < k && i < MAX_LOG; i++) {
            unsigned char o = team->owner[i].load(std::memory_order_relaxed);
            multiple |= o != team->owner[0].load(std::memory_order_relaxed);
            h = (h ^ o) * 1099511628211ULL;
        }
        if (n > 1) {
            regions++;
            chunks += k;
            if (multiple) shared++;
            pthread_mutex_lock(&schedMutex);
            schedule = (schedule ^ h) * 1099511628211ULL;
            pthread_mutex_unlock(&schedMutex);
        }
        delete team;
    }

#define LOOPS(NAME, KIND)                                                                                                  \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return startLong(KIND, s, e, i, c, a, b); } \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return nextLong(a, b); }                                              \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,           \
                                      unsigned long long c, unsigned long long* a, unsigned long long* b) {               \
        return startUll(KIND, up, s, e, i, c, a, b);                                                                       \
    }                                                                                                                      \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return nextUll(a, b); }
    LOOPS(static, 0)
    LOOPS(dynamic, 1)
    LOOPS(guided, 2)
    LOOPS(nonmonotonic_dynamic, 1)
    LOOPS(nonmonotonic_guided, 2)
#define RUNTIME(NAME)                                                                                                      \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return startLong(1, s, e, i, 1, a, b); }     \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return nextLong(a, b); }
    RUNTIME(runtime)
    RUNTIME(nonmonotonic_runtime)
    RUNTIME(maybe_nonmonotonic_runtime)

    struct LoopArg {
        void (*fn)(void*);
        void* data;
        int kind;
        long start, end, incr, chunk;
    };

    static void loopEntry(void* p) {
        LoopArg* l = (LoopArg*) p;
        Thread* t = current();
        long count = l->incr > 0 ? (l->end - l->start + l->incr - 1) / l->incr : (l->start - l->end - l->incr - 1) / -l->incr;
        prepare(l->kind, count > 0 ? count : 0, l->incr, l->chunk);
        t->start = l->start;
        l->fn(l->data);
    }

#define PARLOOP(NAME, KIND)                                                                                                \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) { \
        LoopArg l = {fn, data, KIND, s, e, i, c};                                                                          \
        GOMP_parallel(&loopEntry, &l, n, f);                                                                               \
    }
    PARLOOP(static, 0)
    PARLOOP(dynamic, 1)
    PARLOOP(guided, 2)
    PARLOOP(nonmonotonic_dynamic, 1)
    PARLOOP(nonmonotonic_guided, 2)
#define PARRT(NAME)                                                                                                        \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) {        \
        LoopArg l = {fn, data, 1, s, e, i, 1};                                                                             \
        GOMP_parallel(&loopEntry, &l, n, f);                                                                               \
    }
    PARRT(runtime)
    PARRT(nonmonotonic_runtime)
    PARRT(maybe_nonmonotonic_runtime)

    void GOMP_barrier() {
        Thread* t = current();
        if (t->team && t->team->n > 1) t->team->barrier.wait(t->team->n);
    }

    void GOMP_loop_end() {
        current()->counter = nullptr;
        GOMP_barrier();
    }

    void GOMP_loop_end_nowait() {
        current()->counter = nullptr;
    }

    void GOMP_critical_start() { pthread_mutex_lock(&globalMutex); }
    void GOMP_critical_end() { pthread_mutex_unlock(&globalMutex); }
    static pthread_mutex_t nameMutex = PTHREAD_MUTEX_INITIALIZER;
    void GOMP_critical_name_start(void**) { pthread_mutex_lock(&nameMutex); }
    void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&nameMutex); }
    static pthread_mutex_t atomicMutex = PTHREAD_MUTEX_INITIALIZER;
    void GOMP_atomic_start() { pthread_mutex_lock(&atomicMutex); }
    void GOMP_atomic_end() { pthread_mutex_unlock(&atomicMutex); }

    bool GOMP_single_start() {
        Thread* t = current();
        if (!t->team) return true;
        if (t->single >= MAX_LOOPS) std::abort();
        return t->team->singles[t->single++].exchange(1, std::memory_order_relaxed) == 0;
    }

    int omp_get_thread_num() { return (int) current()->id; }
    int omp_get_num_threads() { return current()->team ? (int) current()->team->n : 1; }
    int omp_get_max_threads() { return defaultThreads(); }
    int omp_get_num_procs() { return defaultThreads(); }
    int omp_get_thread_limit() { return 64; }
    int omp_in_parallel() { return current()->team && current()->team->n > 1; }
    int omp_get_level() { return self ? 1 : 0; }
    int omp_get_dynamic() { return 0; }
    int omp_get_nested() { return 0; }
    void omp_set_dynamic(int) {}
    void omp_set_nested(int) {}
    void omp_set_num_threads(int) {}
    void omp_set_max_active_levels(int) {}
    double omp_get_wtime() {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    typedef struct { pthread_mutex_t* m; } vlock;
    void omp_init_lock(vlock* l) {
        l->m = new pthread_mutex_t;
        pthread_mutex_init(l->m, nullptr);
    }
    void omp_destroy_lock(vlock* l) {
        pthread_mutex_destroy(l->m);
        delete l->m;
    }
    void omp_set_lock(vlock* l) { pthread_mutex_lock(l->m); }
    void omp_unset_lock(vlock* l) { pthread_mutex_unlock(l->m); }
    int omp_test_lock(vlock* l) { return pthread_mutex_trylock(l->m) == 0; }
}
