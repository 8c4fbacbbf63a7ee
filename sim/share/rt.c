// The scheduler of the threads that share documents (property C16).
//
// The library and the harness are compiled with the instrumentation of the thread sanitizer, but
// linked against this file instead of its runtime: every read, write, atomic operation and function
// entry of instrumented code is a point where the scheduler may hand the one token to another
// thread. Only the holder of the token runs, so a seed is an exactly repeatable execution.
// Compiled without instrumentation. Locks of std end in futex calls, which are answered here, too.
#define _GNU_SOURCE
#include <errno.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
#define MAXS 60000
#define BLOB (24u << 20)
enum { CALL, READ, WRITE, STATIC, ATOMIC, LOCK, STEP, FORCED, KINDS };
enum { STUCK = 91, DEADLOCK = 92 };

// What a simulated process leaves behind, in memory it shares with the one that forked it.
struct shm {
    uint64_t events, switches, hash, kinds[KINDS];
    struct { uint64_t at; uint64_t to; } sw[MAXS];
    uint64_t len;
    char blob[BLOB];
};
static struct shm *S;

static struct thr {
    sem_t sem;
    int done, stalled;
    uint32_t *wait;
    int timed;
    uint64_t op;
} T[MAXT];
static int count, cur, active;
static uint64_t next_at, limit, rnd, gap, hot_pm, stall_pm;
static int replay;
static uint64_t nrep, irep, *rep;
static sem_t finished;
static __thread int self = -1, inside;

extern char __data_start, _end;

static uint64_t rng(void) {
    rnd += 0x9e3779b97f4a7c15ull;
    uint64_t z = rnd;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void ahead(void) {
    // gaps of every length up to the mean's double, now and then far longer ones
    uint64_t g = 1 + rng() % (2 * gap);
    if (rng() % 16 == 0) g = 1 + rng() % 8;
    next_at = S->events + g;
}

static int runnable(int t) { return !T[t].done && !T[t].wait; }

// Another thread to run, -1 when there is none.
static int other(int me) {
    int c[MAXT], n = 0;
    for (int t = 0; t < count; t++)
        if (t != me && runnable(t) && !T[t].stalled) c[n++] = t;
    if (!n)
        for (int t = 0; t < count; t++)
            if (t != me && runnable(t)) { T[t].stalled = 0; c[n++] = t; }
    if (!n) return -1;
    return replay ? c[0] : c[rng() % n];
}

static void hash(uint64_t x) { S->hash = (S->hash ^ x) * 0x100000001b3ull; }

// Hand the token to `to` and wait for it (unless this thread is over).
static void hand(int me, int to, int over) {
    if (S->switches < MAXS) {
        S->sw[S->switches].at = S->events;
        S->sw[S->switches].to = to;
    }
    S->switches++;
    hash(me); hash(T[me].op); hash(to); hash(T[to].op);
    cur = to;
    sem_post(&T[to].sem);
    if (!over)
        while (sem_wait(&T[me].sem) != 0) {}
}

// What the replay file wants at this very event.
static int wanted(void) {
    while (irep < nrep && rep[2 * irep] < S->events) irep++;
    if (irep < nrep && rep[2 * irep] == S->events) return (int)rep[2 * irep++ + 1];
    return -1;
}

static void event(int kind) {
    int me = self, to = -1;
    S->events++;
    S->kinds[kind]++;
    if (S->events > limit) _exit(STUCK);
    if (replay) {
        to = wanted();
        if (to < 0 || to == me || to >= count || !runnable(to)) return;
    } else {
        int hot = kind == STATIC || kind == ATOMIC || kind == LOCK;
        if (S->events < next_at && !(hot && rng() % 1000 < hot_pm)) return;
        ahead();
        to = other(me);
        if (to < 0) return;
        if (rng() % 1000 < stall_pm) T[me].stalled = 1;
    }
    hand(me, to, 0);
}

static inline void point(int kind) {
    if (inside && active) event(kind);
}

static inline void access_(const void *p, int w) {
    if (!(inside && active)) return;
    const char *c = p;
    event(c >= &__data_start && c < &_end ? STATIC : w ? WRITE : READ);
}

// The thread cannot go on by itself: another one has to.
static void forced(int over) {
    int me = self, to;
    S->events++;
    S->kinds[FORCED]++;
    if (S->events > limit) _exit(STUCK);
    to = -1;
    if (replay) {
        to = wanted();
        if (to == me || to >= count || (to >= 0 && !runnable(to))) to = -1;
    }
    if (to < 0) to = other(me);
    if (to < 0) {
        if (over) {
            int left = 0;
            for (int t = 0; t < count; t++) left += !T[t].done;
            if (!left) { active = 0; sem_post(&finished); return; }
        }
        // everybody waits: a wait with a time limit ends now
        for (int t = 0; t < count; t++)
            if (!T[t].done && T[t].wait && T[t].timed) {
                T[t].wait = 0;
                if (t == me) return;
                to = t;
                break;
            }
        if (to < 0) {
            if (!over && !T[me].wait) return;
            _exit(DEADLOCK);
        }
    }
    hand(me, to, over);
}

// ---------------------------------------------------------------- for the harness

void *rt_shm(void) {
    void *p = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
void rt_use(void *p) {
    S = p;
    S->events = S->switches = S->len = 0;
    S->hash = 0xcbf29ce484222325ull;
    memset(S->kinds, 0, sizeof S->kinds);
}
uint64_t rt_events(void) { return S->events; }
uint64_t rt_switches(void) { return S->switches < MAXS ? S->switches : MAXS; }
uint64_t rt_hash(void) { return S->hash; }
uint64_t rt_kind(int i) { return S->kinds[i]; }
uint64_t rt_switch(uint64_t i, int which) { return which ? S->sw[i].to : S->sw[i].at; }
char *rt_blob(void) { return S->blob; }
uint64_t rt_len(void) { return S->len; }
uint64_t rt_cap(void) { return BLOB; }
void rt_set_len(uint64_t n) { S->len = n; }

void rt_begin(int n, uint64_t seed, uint64_t g, uint64_t hot, uint64_t stall, uint64_t lim, const uint64_t *r,
              uint64_t nr, int is_replay) {
    memset(T, 0, sizeof T);
    count = n;
    rnd = seed;
    gap = g ? g : 1;
    hot_pm = hot;
    stall_pm = stall;
    limit = lim;
    replay = is_replay;
    nrep = nr;
    irep = 0;
    rep = malloc(16 * nr + 16);
    if (nr) memcpy(rep, r, 16 * nr);
    for (int t = 0; t < n; t++) sem_init(&T[t].sem, 0, 0);
    sem_init(&finished, 0, 0);
}
// All threads exist: the first one to run gets the token.
void rt_go(int first) {
    active = 1;
    if (!replay) ahead();
    cur = first % count;
    sem_post(&T[cur].sem);
    while (sem_wait(&finished) != 0) {}
}
void rt_thread(int id) {
    self = id;
    while (sem_wait(&T[id].sem) != 0) {}
}
void rt_over(void) {
    inside = 0;
    T[self].done = 1;
    forced(1);
    self = -1;
}
int rt_inside(int v) {
    int old = inside;
    inside = v;
    return old;
}
// The thread goes on to its operation number n.
void rt_op(uint64_t n) {
    T[self].op = n;
    int old = inside;
    inside = 1;
    point(STEP);
    inside = old;
}
int rt_fork(void) { return fork(); }
// Waits for a child: its exit code, or 1000 + signal, 999 when it took more than `ms` and was killed.
int rt_wait(int pid, int ms) {
    extern int kill(int, int);
    int st = 0, us = 100, late = 0;
    long spent = 0;
    for (;;) {
        int r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (r < 0) return 998;
        struct timespec ts = {0, us * 1000};
        syscall(SYS_nanosleep, &ts, 0);
        spent += us;
        if (spent > 4000 && us < 1000) us = 1000;
        if (!late && spent / 1000 > ms) {
            kill(pid, 9);
            late = 1;
        }
    }
    if (late) return 999;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
void rt_exit(int code) { _exit(code); }

// ---------------------------------------------------------------- what std would ask the kernel

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

static long futex(uint32_t *addr, int op, uint32_t val, const void *timeout) {
    int cmd = op & 127;
    if (cmd == 0 || cmd == 9) { // FUTEX_WAIT, FUTEX_WAIT_BITSET
        S->kinds[LOCK]++;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        T[self].wait = addr;
        T[self].timed = timeout != 0;
        forced(0);
        T[self].wait = 0;
        return 0;
    }
    if (cmd == 1 || cmd == 10) { // FUTEX_WAKE, FUTEX_WAKE_BITSET
        int n = 0;
        for (int t = 0; t < count && n < (int)val; t++)
            if (T[t].wait == addr) { T[t].wait = 0; n++; }
        point(LOCK);
        return n;
    }
    return -ENOSYS;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (n == SYS_futex && active && self >= 0 && inside)
        r = futex((uint32_t *)a, (int)b, (uint32_t)c, (const void *)d);
    else
        r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) {
    if (active && self >= 0 && inside) forced(0);
    else raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return 0;
}
// The time and the keys of hash maps, the same in every execution of a schedule.
static uint64_t clk = 1000000000000ull, bytes = 0x5eed;
static uint64_t mix(uint64_t *s) {
    *s += 0x9e3779b97f4a7c15ull;
    uint64_t z = *s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
int clock_gettime(clockid_t k, struct timespec *t) {
    if (!(active && self >= 0 && inside)) return (int)raw(SYS_clock_gettime, k, (long)t, 0, 0, 0, 0);
    uint64_t s = S->events, x = mix(&s);
    clk += x % 64 == 0 ? (x >> 8) % 20000000000ull : x % 64 < 5 ? (x >> 8) % 20000000 : (x >> 8) % 2000;
    t->tv_sec = (time_t)(clk / 1000000000);
    t->tv_nsec = (long)(clk % 1000000000);
    point(LOCK);
    return 0;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    for (size_t i = 0; i < len; i += 8) {
        uint64_t x = mix(&bytes);
        memcpy((char *)buf + i, &x, len - i < 8 ? len - i : 8);
    }
    return (ssize_t)len;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (active && self >= 0 && inside) { forced(0); return 0; }
    long r = raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *rem) {
    if (active && self >= 0 && inside) { forced(0); return 0; }
    return (int)-raw(SYS_clock_nanosleep, k, fl, (long)t, (long)rem, 0, 0);
}

// ---------------------------------------------------------------- what the instrumentation calls

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; point(CALL); }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

#define RW(n)                                                        \
    void __tsan_read##n(void *p) { access_(p, 0); }                  \
    void __tsan_write##n(void *p) { access_(p, 1); }                 \
    void __tsan_unaligned_read##n(void *p) { access_(p, 0); }        \
    void __tsan_unaligned_write##n(void *p) { access_(p, 1); }       \
    void __tsan_volatile_read##n(void *p) { access_(p, 0); }         \
    void __tsan_volatile_write##n(void *p) { access_(p, 1); }        \
    void __tsan_unaligned_volatile_read##n(void *p) { access_(p, 0); }  \
    void __tsan_unaligned_volatile_write##n(void *p) { access_(p, 1); } \
    void __tsan_read_write##n(void *p) { access_(p, 1); }            \
    void __tsan_unaligned_read_write##n(void *p) { access_(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 1); }
void __tsan_vptr_read(void **p) { access_(p, 0); }
void __tsan_read_range(void *p, uint64_t n) { (void)n; access_(p, 0); }
void __tsan_write_range(void *p, uint64_t n) { (void)n; access_(p, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, 0); access_(d, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, 0); access_(d, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, 1); return memset(d, c, n); }

#define SC __ATOMIC_SEQ_CST
#define AT(n, t)                                                                                            \
    t __tsan_atomic##n##_load(const volatile t *a, int mo) { (void)mo; point(ATOMIC); return __atomic_load_n(a, SC); } \
    void __tsan_atomic##n##_store(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); __atomic_store_n(a, v, SC); } \
    t __tsan_atomic##n##_exchange(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_exchange_n(a, v, SC); } \
    t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_add(a, v, SC); } \
    t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_sub(a, v, SC); } \
    t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_and(a, v, SC); } \
    t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_or(a, v, SC); } \
    t __tsan_atomic##n##_fetch_xor(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_xor(a, v, SC); } \
    t __tsan_atomic##n##_fetch_nand(volatile t *a, t v, int mo) { (void)mo; point(ATOMIC); return __atomic_fetch_nand(a, v, SC); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *c, t v, int mo, int fm) {               \
        (void)mo; (void)fm; point(ATOMIC); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }         \
    int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *c, t v, int mo, int fm) {                 \
        (void)mo; (void)fm; point(ATOMIC); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }         \
    t __tsan_atomic##n##_compare_exchange_val(volatile t *a, t c, t v, int mo, int fm) {                     \
        (void)mo; (void)fm; point(ATOMIC); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(ATOMIC); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
