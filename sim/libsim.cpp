// Library simulator: application threads making maps from shared objects,
// one basic block at a time under a seeded scheduler, with planned failures.
//
// Fork server: a job is a few lines ending in "run"; the answer is
// "L <exit> <signal> <bytes>\n" and that many bytes of history.
#include "libmap.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdexcept>

namespace {
struct Job { uint64_t world = 1; std::vector<Task> tasks; int threads = 0; uint64_t sseed = 1; long period = 100, maxsw = -1; } J;

// ------------------------------------------------------------- scheduling
int const MAXT = 8;
sem_t sem[MAXT + 1];                 // last one: main
bool runnable[MAXT];
thread_local int me = -1;
long countdown;
uint64_t srng;
long steps, switches;
std::string sched;                   // "task@steps " per switch
uint64_t srnd() { srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17; return srng; }
void rearm() { countdown = J.maxsw >= 0 && switches >= J.maxsw ? -1 : 1 + (long) (srnd() % (uint64_t) (2 * J.period)); }
void pass(int to)
{
    int const self = me;
    me = -1;                         // library templates used here are not to be interrupted
    ++switches;
    char b[32];
    snprintf(b, sizeof b, "%d@%ld ", to, steps);
    if (sched.size() < 200000) sched += b;
    rearm();
    sem_post(&sem[to]);
    if (self >= 0 && !runnable[self]) return;
    while (sem_wait(&sem[self]) != 0) ;
    me = self;
}
int other()
{
    int c[MAXT], n = 0;
    for (int k = 0; k < MAXT; ++k) if (runnable[k] && k != me) c[n++] = k;
    return n ? c[srnd() % (uint64_t) n] : -1;
}
void yield_to_other()
{
    int const o = other();
    if (o < 0) { fprintf(stderr, "deadlock\n"); _exit(99); }
    pass(o);
}

// ----------------------------------------------------------------- faults
thread_local bool armed = false;
thread_local long allocs = 0, oom_at = -1;

struct Rec final : Hook {
    std::string log;
    long reads = 0, plane_reads = 0, throw_at = -1;
    char b[96];
    void read() override
    {
        if (reads++ == throw_at) throw std::runtime_error("planned");
        ++plane_reads;
    }
    void notify(std::size_t s, std::size_t c) override { armed = false; snprintf(b, sizeof b, "n %zu %zu %ld\n", s, c, plane_reads); log += b; armed = true; }
    void reset() override { armed = false; log += "r\n"; armed = true; }
    void plane_begin(int p) override { plane_reads = 0; snprintf(b, sizeof b, "p %d\n", p); log += b; }
    void plane_end(int p, bool ok, uint64_t h, bool m) override { snprintf(b, sizeof b, "e %d %d %016llx %d %ld\n", p, ok, (unsigned long long) h, m, plane_reads); log += b; }
    void arm(bool a) override { armed = a; }
};
World world;
Rec recs[MAXT];
uint64_t grids[MAXT];

void body(int k)
{
    Task const & t = J.tasks[k];
    recs[k].throw_at = t.throw_at;
    oom_at = t.oom_at;
    run_task(world, t, recs[k]);
    oom_at = -1;
    char b[64];
    snprintf(b, sizeof b, "a %ld\n", allocs);
    recs[k].log += b;
    grids[k] = make_grid(world, t);
}
void * thread_main(void * a)
{
    int const k = (int) (long) a;
    while (sem_wait(&sem[k]) != 0) ;
    me = k;
    body(k);
    int const o = other();
    runnable[k] = false;
    pass(o < 0 ? MAXT : o);
    return nullptr;
}
void child(int fd)
{
    if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(98);
    rlimit rl{20, 20};
    setrlimit(RLIMIT_CPU, &rl);
    world = make_world(J.world);
    if (J.threads) {
        srng = J.sseed * 0x9e3779b97f4a7c15ull + 0x1234567;
        pthread_t th[MAXT];
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        for (int k = 0; k <= MAXT; ++k) sem_init(&sem[k], 0, 0);
        for (std::size_t k = 0; k < J.tasks.size(); ++k) { runnable[k] = true; pthread_create(&th[k], &at, thread_main, (void *) k); }
        rearm();
        sem_post(&sem[0]);
        while (sem_wait(&sem[MAXT]) != 0) ;
        for (std::size_t k = 0; k < J.tasks.size(); ++k) pthread_join(th[k], nullptr);
    } else
        for (std::size_t k = 0; k < J.tasks.size(); ++k) { allocs = 0; body((int) k); }
    std::string out;
    for (std::size_t k = 0; k < J.tasks.size(); ++k) {
        char b[64];
        snprintf(b, sizeof b, "t %zu\n", k);
        out += b + recs[k].log;
        snprintf(b, sizeof b, "g %016llx\n", (unsigned long long) grids[k]);
        out += b;
    }
    if (J.threads) { char b[64]; snprintf(b, sizeof b, "s %ld %ld\n", steps, switches); out += b; out += "h " + sched + "\n"; }
    for (std::size_t o = 0; o < out.size(); ) { ssize_t n = write(fd, out.data() + o, out.size() - o); if (n <= 0) _exit(98); o += (std::size_t) n; }
    _exit(0);
}
}

extern "C" void __sanitizer_cov_trace_pc()
{
    if (me < 0) return;
    ++steps;
    if (countdown > 0 && --countdown == 0) {
        int const o = other();
        bool const a = armed; armed = false;
        if (o >= 0) pass(o); else rearm();
        armed = a;
    }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
    while (pthread_mutex_trylock(m) != 0) { if (me >= 0) yield_to_other(); else usleep(100); }
    return 0;
}
extern "C" int __cxa_guard_acquire(uint64_t * g)
{
    auto c = reinterpret_cast<volatile char *>(g);
    for (;;) {
        if (c[0]) return 0;
        if (!c[1]) { c[1] = 1; return 1; }
        if (me >= 0) yield_to_other();
    }
}
extern "C" void __cxa_guard_release(uint64_t * g) { auto c = reinterpret_cast<volatile char *>(g); c[0] = 1; c[1] = 0; }
extern "C" void __cxa_guard_abort(uint64_t * g) { reinterpret_cast<volatile char *>(g)[1] = 0; }
void * operator new(std::size_t n)
{
    if (armed && allocs++ == oom_at) throw std::bad_alloc();
    void * p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void * p) noexcept { free(p); }
void operator delete(void * p, std::size_t) noexcept { free(p); }

int main()
{
    char line[512];
    while (fgets(line, sizeof line, stdin)) {
        Task t;
        if (sscanf(line, "task %d %d %c %ld %ld %d %ld %ld", &t.proj, &t.img, &t.type, &t.samples, &t.lines, &t.planes, &t.throw_at, &t.oom_at) == 8) {
            if (J.tasks.size() < MAXT) J.tasks.push_back(t);
            continue;
        }
        if (sscanf(line, "world %lu", &J.world) == 1 || sscanf(line, "threads %d", &J.threads) == 1) continue;
        if (sscanf(line, "sched %lu %ld %ld", &J.sseed, &J.period, &J.maxsw) == 3) continue;
        if (strcmp(line, "run\n") != 0) continue;
        int p[2];
        if (pipe(p) != 0) return 1;
        pid_t const pid = fork();
        if (pid == 0) { close(p[0]); fclose(stdin); child(p[1]); }
        close(p[1]);
        std::string out;
        char buf[65536];
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, (std::size_t) n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        printf("L %d %d %zu\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, out.size());
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
        J = Job();
    }
    return 0;
}
