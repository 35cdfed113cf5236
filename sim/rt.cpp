// rt.cpp - runtime of the simulator: tapes, events, heap, scheduler.
// Compiled without sanitizer or coverage instrumentation.
#include "ctl.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <algorithm>
#include <cxxabi.h>
#include <link.h>
#include <string>
#include <vector>

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
int __asan_address_is_poisoned(void const volatile*);
extern char __data_start, _end;
}

namespace sim
{
thread_local int tl_lib = 0;
static thread_local int tl_task = -1;
static thread_local int tl_noyield = 0;
Ctl* ctl = nullptr;

// ---------------------------------------------------------------- choices
static u64 rng[NSTREAMS];
static u64 splitmix(u64& s)
{
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static bool nested_on = false;
void nested(u64 seed, const std::function<void()>& f)
{
    u64 keep[NSTREAMS];
    memcpy(keep, rng, sizeof keep);
    for (int i = 0; i < NSTREAMS; ++i) rng[i] = splitmix(seed);
    nested_on = true;
    f();
    nested_on = false;
    memcpy(rng, keep, sizeof keep);
}
u64 choose(Stream s, u64 n)
{
    if (n <= 1) return 0;
    if (n > 0xffffffffull) n = 0xffffffffull;
    if (nested_on) return splitmix(rng[s]) % n;
    const u32 i = ctl->tape_n[s];
    u64 v;
    if (i >= TCAP) return 0;             // same in a replay
    if (ctl->replay)
        v = i < ctl->in_n[s] ? ctl->in[s][i] % n : 0;
    else
        v = splitmix(rng[s]) % n;
    ctl->tape[s][i] = static_cast<u32>(v);
    ctl->tape_n[s] = i + 1;
    return v;
}

// ---------------------------------------------------------------- events
static void trace_text(const char* t, size_t n)
{
    if (ctl->trace_n + n < TRACECAP)
    {
        memcpy(ctl->tracebuf + ctl->trace_n, t, n);
        ctl->trace_n += static_cast<u32>(n);
    }
}
bool tracing() { return ctl && ctl->trace; }
static u64 strh(const char* s)
{
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ static_cast<u8>(*s)) * 1099511628211ull;
    return h;
}
void event(const char* kind, u64 a, u64 b, u64 c)
{
    ctl->ev_hash = mix(mix(mix(mix(ctl->ev_hash, strh(kind)), a), b), c);
    ++ctl->n_events;
    if (ctl->trace)
    {
        char buf[160];
        int n = snprintf(buf, sizeof buf, "t%d %s %llu %llu %llu\n", tl_task, kind,
            (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        trace_text(buf, static_cast<size_t>(n));
    }
}
void event_str(const char* kind, const std::string& s)
{
    Harness h_;
    u64 h = strh(kind);
    for (unsigned char ch : s) h = mix(h, ch);
    ctl->ev_hash = mix(ctl->ev_hash, h);
    ++ctl->n_events;
    if (ctl->trace)
    {
        std::string t = "t" + std::to_string(tl_task) + " " + kind + " " +
            printable(s.data(), s.size() < 2000 ? s.size() : 2000) + "\n";
        trace_text(t.data(), t.size());
    }
}
void sched_note(u64 v) { ctl->sched_hash = mix(ctl->sched_hash, v); }
void count(const char* name, u64 n)
{
    for (auto& c : ctl->ctr)
    {
        if (!c.name[0])
        {
            snprintf(c.name, sizeof c.name, "%s", name);
            c.n = n;
            return;
        }
        if (!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
    }
}
void nontrivial() { ctl->nontriv = 1; }
void violation(const char* sig, const char* f, ...)
{
    tl_lib = 0;
    va_list ap;
    va_start(ap, f);
    snprintf(ctl->sig, sizeof ctl->sig, "%s", sig);
    vsnprintf(ctl->msg, sizeof ctl->msg, f, ap);
    va_end(ap);
    ctl->status = ST_VIOLATION;
    _exit(3);
}
void discard(const char* why)
{
    tl_lib = 0;
    snprintf(ctl->msg, sizeof ctl->msg, "%s", why);
    ctl->status = ST_DISCARD;
    _exit(0);
}
void describe(const char* f, ...)
{
    if (!ctl->trace) return;
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(ctl->desc + ctl->desc_n, sizeof ctl->desc - ctl->desc_n, f, ap);
    va_end(ap);
    if (n > 0)
    {
        ctl->desc_n += static_cast<u32>(n);
        if (ctl->desc_n >= sizeof ctl->desc) ctl->desc_n = sizeof ctl->desc - 1;
    }
}
std::string printable(const char* p, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = static_cast<unsigned char>(p[i]);
        char b[8];
        if (c == '\\') r += "\\\\";
        else if (c >= 32 && c < 127) r += static_cast<char>(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// ---------------------------------------------------------------- scheduler
enum { MAXT = 16 };
struct Task
{
    pthread_t th;
    sem_t go;
    bool done, stalled;
    const std::function<void()>* fn;
};
static Task tasks_[MAXT];
static int ntasks = 0;
static bool multi = false;
static sem_t main_go;
static unsigned sched_exp = 8;
static long countdown = 0;
static u64 nsteps = 0, step_budget = ~0ull, soft_budget = ~0ull, step_stop = ~0ull;
static u64 blocked_spins = 0;

int self() { return tl_task; }
u64 steps() { return nsteps; }
static void budgets() { step_stop = step_budget < soft_budget ? step_budget : soft_budget; }
void set_step_budget(u64 n) { step_budget = nsteps + n; budgets(); }
void set_soft_budget(u64 n) { soft_budget = n ? nsteps + n : ~0ull; budgets(); }

static void draw_countdown()
{
    const u64 r = choose(SCHED, (u64(1) << sched_exp) + 1);
    countdown = r == 0 ? 300000 : static_cast<long>(r);
}
static int pick(bool others_only)
{
    int cand[MAXT], k = 0;
    for (int i = 0; i < ntasks; ++i)
        if (!tasks_[i].done && !(others_only && i == tl_task)) cand[k++] = i;
    if (k == 0) return -1;
    return cand[choose(SCHED, static_cast<u64>(k))];
}
static void switch_to(int next)
{
    const int me = tl_task;
    if (next == me) return;
    ctl->sched_hash = mix(mix(ctl->sched_hash, static_cast<u64>(next)), nsteps);
    event("switch", static_cast<u64>(me), static_cast<u64>(next), nsteps);
    sem_post(&tasks_[next].go);
    while (sem_wait(&tasks_[me].go) != 0) {}
}
static void preempt()
{
    const int old = tl_lib;
    tl_lib = 0;
    const int next = pick(true);
    draw_countdown();
    if (next >= 0)
    {
        ++ctl->preempts;
        count("preemption");
        switch_to(next);
    }
    tl_lib = old;
}
static inline void step_inl()
{
    if (!tl_lib) return;
    if (++nsteps > step_stop)
    {
        tl_lib = 0;
        if (nsteps > soft_budget) discard("too much work");
        violation("hang:step-budget", "no result within %llu steps",
            (unsigned long long)step_budget);
    }
    if (multi && !tl_noyield && --countdown <= 0) preempt();
}
void step() { step_inl(); }
void stall_point()
{
    if (multi && !tl_noyield) preempt();
}
static void blocked()
{
    // A lock is held by another task: hand the baton on.
    const int old = tl_lib;
    tl_lib = 0;
    if (++blocked_spins > 20000)
        violation("deadlock", "every task is blocked on a lock");
    const int next = pick(true);
    if (next < 0) violation("deadlock", "the only live task blocks on a lock it holds");
    switch_to(next);
    tl_lib = old;
}
static int ended_task = -1, next_task = -1;
static void* task_main(void* p)
{
    const int id = static_cast<int>(reinterpret_cast<long>(p));
    tl_task = id;
    while (sem_wait(&tasks_[id].go) != 0) {}
    try
    {
        (*tasks_[id].fn)();
    }
    catch (const std::exception& e)
    {
        tl_lib = 0;
        violation("task:uncaught-exception", "task %d: %s", id, e.what());
    }
    catch (...)
    {
        tl_lib = 0;
        violation("task:uncaught-exception", "task %d: unknown exception", id);
    }
    tl_lib = 0;
    tasks_[id].done = true;
    const int next = pick(true);
    draw_countdown();
    event("task-end", static_cast<u64>(id), nsteps);
    // The main thread passes the baton on once this thread and what belongs to
    // it are gone.
    ended_task = id;
    next_task = next;
    sem_post(&main_go);
    return nullptr;
}
static void ordered();
void run_tasks(const std::vector<std::function<void()>>& fns, unsigned exp)
{
    const int old = tl_lib;
    tl_lib = 0;
    ntasks = static_cast<int>(fns.size());
    sched_exp = exp;
    sem_init(&main_go, 0, 0);
    for (int i = 0; i < ntasks; ++i)
    {
        tasks_[i].done = false;
        tasks_[i].fn = &fns[static_cast<size_t>(i)];
        sem_init(&tasks_[i].go, 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 4 << 20);
        if (pthread_create(&tasks_[i].th, &at, task_main, reinterpret_cast<void*>(static_cast<long>(i))))
        {
            fprintf(stderr, "pthread_create failed\n");
            _exit(9);
        }
        pthread_attr_destroy(&at);
    }
    ordered();
    multi = true;
    draw_countdown();
    const int first = pick(false);
    sem_post(&tasks_[first].go);
    for (;;)
    {
        while (sem_wait(&main_go) != 0) {}
        pthread_join(tasks_[ended_task].th, nullptr);
        if (next_task < 0) break;
        sem_post(&tasks_[next_task].go);
    }
    multi = false;
    ntasks = 0;
    tl_lib = old;
}

// ---------------------------------------------------------------- conflicts
// Tasks that do not synchronise must not touch the same byte if one of them
// writes it.  Noted per 8-byte granule: one read and one write mask per task,
// with the task's epoch; a task that releases anything (atomic store, unlock,
// end of a guarded initialisation) starts a new epoch, which forgets what it
// did before, so properly ordered accesses are never reported.  Only the heap
// arena, the program's own data and the main thread's stack are looked at.
enum { RT = 4, RSLOTS = 1 << 19 };
struct Slot { u64 key; u8 rd[RT], wr[RT]; u32 ep[RT]; };
static Slot* slots = nullptr;
static bool races = false;
static u32 epoch[RT] = { 1, 1, 1, 1 };
static u64 main_lo = 0, main_hi = 0;
static u64 describe_addr(u64 a, u64& off);
static inline bool in_arena(const void* p);
static void own_stack(u64& lo, u64& hi)
{
    pthread_attr_t at;
    void* p = nullptr;
    size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &at)) return;
    pthread_attr_getstack(&at, &p, &sz);
    pthread_attr_destroy(&at);
    lo = reinterpret_cast<u64>(p);
    hi = lo + sz;
}
void track_races(bool on)
{
    if (on && !slots)
    {
        slots = static_cast<Slot*>(reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, sizeof(Slot) * RSLOTS, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
        own_stack(main_lo, main_hi);
    }
    races = on;
}
static Slot* slot(u64 g, bool make)
{
    for (u64 i = mix(7, g), n = 0; n < 64; ++i, ++n)
    {
        Slot& s = slots[i & (RSLOTS - 1)];
        if (s.key == g + 1) return &s;
        if (!s.key)
        {
            if (!make) return nullptr;
            s.key = g + 1;
            return &s;
        }
    }
    return nullptr;
}
static inline bool watched(u64 a)
{
    return in_arena(reinterpret_cast<void*>(a)) || (a >= reinterpret_cast<u64>(&__data_start) && a < reinterpret_cast<u64>(&_end)) ||
        (a >= main_lo && a < main_hi);
}
static void touch(u64 a, u64 n, bool write)
{
    const int me = tl_task;
    if (me < 0 || me >= RT || tl_noyield || !watched(a)) return;
    while (n)
    {
        const u64 o = a & 7, k = n < 8 - o ? n : 8 - o;
        const u8 m = static_cast<u8>(((1u << k) - 1) << o);
        if (Slot* s = slot(a >> 3, true))
        {
            for (int t = 0; t < RT; ++t)
                if (t != me && s->ep[t] == epoch[t] && ((write && (s->rd[t] & m)) || (s->wr[t] & m)))
                {
                    tl_lib = 0;
                    u64 off = 0;
                    const u64 seq = describe_addr(a, off);
                    if (seq) violation("data-race", "tasks %d and %d use byte %llu of heap block #%llu without synchronisation and at least one writes it",
                        t, me, (unsigned long long)off, (unsigned long long)seq);
                    violation("data-race", "tasks %d and %d use the same static or shared data without synchronisation and at least one writes it", t, me);
                }
            if (s->ep[me] != epoch[me]) { s->ep[me] = epoch[me]; s->rd[me] = s->wr[me] = 0; }
            (write ? s->wr : s->rd)[me] |= m;
        }
        a += k;
        n -= k;
    }
}
// what came before starting or after joining the tasks
static void ordered()
{
    for (auto& e : epoch) ++e;
}
static inline void released()
{
    if (multi && tl_task >= 0 && tl_task < RT) ++epoch[tl_task];
}
static void forget(u64 a, u64 n)
{
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3; ++g)
        if (Slot* s = slot(g, false)) { memset(s->rd, 0, RT); memset(s->wr, 0, RT); }
}
static inline void access_inl(const void* p, u64 n, bool write)
{
    if (!tl_lib) return;
    step_inl();
    if (races && multi && n) touch(reinterpret_cast<u64>(p), n, write);
}
static inline void ts_access(const void* p, u64 n, bool write)
{
    if (!tl_lib) return;
    if (n && (__asan_address_is_poisoned(p) || __asan_address_is_poisoned(static_cast<const char*>(p) + n - 1)))
    {
        tl_lib = 0;
        violation("memory-error", "a %s of %llu bytes outside any live block", write ? "write" : "read", (unsigned long long)n);
    }
    access_inl(p, n, write);
}

// ---------------------------------------------------------------- heap
// A private arena at a fixed address.  Blocks are surrounded by poisoned
// red zones and stay poisoned once freed (unless the reuse policy hands them
// out again), so out-of-bounds and use-after-free accesses by the library
// are reported by ASan's checks at the exact access.
static const u64 ARENA = 0x300000000000ull, ARENA_SIZE = u64(1) << 36;
struct Block { u64 magic; u64 size; u64 seq; u64 flags; };
enum { HDR = 32, RZ = 32 };
static const u64 MAGIC_LIVE = 0x5157a11ce5157a11ull, MAGIC_DEAD = 0xdeaddeaddeaddeadull;
static unsigned policy = 0;
static u64 prng_heap = 1;
static u8 fill_byte = 0xcd;
static u64 up[16], down;
static u64 poisoned_up[16], poisoned_down;
static HeapStats hs;
static u64 next_seq = 1;
static u64 heap_limit = 0, peak_req = 0;
static long fault_in = -1;
static bool fault_persistent = false, fault_fired = false, fault_armed = false;
enum { NCLS = 64 };
struct FreeNode { FreeNode* next; };
static FreeNode* freel[NCLS];

// Not through libc, whose calls a harness may be simulating.
static void* raw_mmap(void* a, size_t n, int prot, int flags, int fd, long off)
{
    return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
}
static void heap_init_map()
{
    void* p = raw_mmap(reinterpret_cast<void*>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(ARENA))
    {
        fprintf(stderr, "sim: cannot map the arena\n");
        _exit(9);
    }
}
static struct MapInit { MapInit() { heap_init_map(); } } map_init;

void set_heap_policy(unsigned p, u32 seed, u8 fill)
{
    policy = p;
    prng_heap = seed * 2654435761ull + 88172645463325252ull;
    fill_byte = fill;
    for (int i = 0; i < 16; ++i) up[i] = ARENA + (u64(i) << 32) + 4096;
    down = ARENA + ARENA_SIZE - 4096;
    for (int i = 0; i < 16; ++i) poisoned_up[i] = up[i];
    poisoned_down = down;
    memset(freel, 0, sizeof freel);
}
void switch_heap_policy(unsigned p, u32 seed, u8 fill)
{
    policy = p;
    prng_heap = seed * 2654435761ull + 88172645463325252ull;
    fill_byte = fill;
}
void setup_heap_policy()
{
    static const u8 fills[4] = { 0xcd, 0x00, 0xff, 0x01 };
    const unsigned p = static_cast<unsigned>(choose(FAULT, 6));
    const u32 s = static_cast<u32>(choose(FAULT, 1u << 20));
    const u8 f = fills[choose(FAULT, 4)];
    static const char* const names[6] = { "heap-ascending", "heap-descending", "heap-random-gaps",
        "heap-random-regions", "heap-lifo-reuse", "heap-fixed-stride" };
    count(names[p]);
    set_heap_policy(p, s, f);
}
HeapStats heap() { return hs; }
u64 heap_mark() { return next_seq; }
void arm_alloc_fault(u64 k, bool persistent)
{
    fault_in = static_cast<long>(k);
    fault_persistent = persistent;
    fault_fired = false;
    fault_armed = true;
}
bool disarm_alloc_fault()
{
    fault_armed = false;
    const bool f = fault_fired;
    fault_fired = false;
    return f;
}
void set_heap_limit(u64 b) { heap_limit = b; peak_req = 0; }
u64 heap_peak_request() { return peak_req; }

struct LiveRec { Block* b; };
static LiveRec* live_tab = nullptr;   // grown with mmap
static u64 live_n = 0, live_cap = 0;
static void live_add(Block* b)
{
    if (live_n == live_cap)
    {
        const u64 nc = live_cap ? live_cap * 2 : 1 << 14;
        void* p = raw_mmap(nullptr, nc * sizeof(LiveRec), PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (live_tab)
        {
            memcpy(p, live_tab, live_n * sizeof(LiveRec));
            syscall(SYS_munmap, live_tab, live_cap * sizeof(LiveRec));
        }
        live_tab = static_cast<LiveRec*>(p);
        live_cap = nc;
    }
    b->flags = live_n;
    live_tab[live_n++].b = b;
}
static void live_del(Block* b)
{
    const u64 i = b->flags;
    live_tab[i] = live_tab[--live_n];
    if (i != live_n)
    {
        Block* m = live_tab[i].b;
        m->flags = i;
    }
}
static u64 describe_addr(u64 a, u64& off)
{
    for (u64 i = 0; i < live_n; ++i)
    {
        Block* b = live_tab[i].b;
        const u64 u = reinterpret_cast<u64>(b) + HDR;
        __asan_unpoison_memory_region(b, HDR);
        const u64 sz = b->size, seq = b->seq;
        __asan_poison_memory_region(b, HDR);
        if (a >= u && a < u + sz) { off = a - u; return seq; }
    }
    return 0;
}
static u64 rnd() { return splitmix(prng_heap); }
static inline unsigned cls(u64 n) { u64 c = n / 16; return c < NCLS ? static_cast<unsigned>(c) : NCLS; }

static void* arena_alloc(u64 size, u64 align)
{
    u64 n = (size + 15) & ~u64(15);
    if (n == 0) n = 16;
    if (align < 16) align = 16;
    u64 user = 0;
    if (policy == 4 && align == 16 && cls(n) < NCLS && freel[cls(n)])
    {
        FreeNode* f = freel[cls(n)];
        __asan_unpoison_memory_region(f, n);
        freel[cls(n)] = f->next;
        user = reinterpret_cast<u64>(f);
    }
    else
    {
        const u64 total = HDR + n + RZ + (align > 16 ? align : 0);
        u64 base;
        if (policy == 1) { down -= total; base = down; }
        else
        {
            unsigned r = policy == 3 ? static_cast<unsigned>(rnd() % 14) : 0;
            if (policy == 2) up[r] += (rnd() % 64) * 16;
            base = up[r];
            u64 t = total;
            if (policy == 5) t = (t + 255) & ~u64(255);   // arithmetic progression
            up[r] += t;
        }
        // Memory not handed out yet is poisoned ahead of use.
        if (policy == 1)
        {
            if (base < poisoned_down + 4096)
            {
                const u64 to = (base & ~u64(4095)) - (256 << 10);
                __asan_poison_memory_region(reinterpret_cast<void*>(to), poisoned_down - to);
                poisoned_down = to;
            }
        }
        else
        {
            const unsigned r = static_cast<unsigned>((base - ARENA) >> 32);
            if (up[r] + 4096 > poisoned_up[r])
            {
                const u64 to = ((up[r] + 4095) & ~u64(4095)) + (256 << 10);
                __asan_poison_memory_region(reinterpret_cast<void*>(poisoned_up[r]),
                    to - poisoned_up[r]);
                poisoned_up[r] = to;
            }
        }
        user = base + HDR;
        if (align > 16) user = (user + align - 1) & ~(align - 1);
        __asan_unpoison_memory_region(reinterpret_cast<void*>(user - HDR), HDR);
        __asan_poison_memory_region(reinterpret_cast<void*>(user + n), RZ);
    }
    Block* b = reinterpret_cast<Block*>(user - HDR);
    __asan_unpoison_memory_region(b, HDR);
    b->magic = MAGIC_LIVE;
    b->size = size;
    b->seq = next_seq++;
    live_add(b);
    __asan_unpoison_memory_region(reinterpret_cast<void*>(user), size);
    memset(reinterpret_cast<void*>(user), fill_byte, size);
    if (n > size)
    {
        // partial granule at the end is poisoned by the partial unpoison above
        __asan_poison_memory_region(reinterpret_cast<void*>(user + ((size + 7) & ~u64(7))),
            n - ((size + 7) & ~u64(7)));
    }
    __asan_poison_memory_region(b, HDR);
    if (races && multi) forget(user, n);
    ++hs.live;
    hs.live_bytes += size;
    ++hs.allocs;
    return reinterpret_cast<void*>(user);
}
static void arena_free(void* p)
{
    Block* b = reinterpret_cast<Block*>(static_cast<char*>(p) - HDR);
    __asan_unpoison_memory_region(b, HDR);
    if (b->magic != MAGIC_LIVE)
        violation(b->magic == MAGIC_DEAD ? "heap:double-free" : "heap:bad-free",
            "operator delete of a block that is not live");
    b->magic = MAGIC_DEAD;
    live_del(b);
    const u64 size = b->size;
    u64 n = (size + 15) & ~u64(15);
    if (n == 0) n = 16;
    --hs.live;
    hs.live_bytes -= size;
    __asan_unpoison_memory_region(p, n);
    memset(p, 0xdd, n);
    if (policy == 4 && cls(n) < NCLS && (reinterpret_cast<u64>(p) & 15) == 0)
    {
        FreeNode* f = static_cast<FreeNode*>(p);
        f->next = freel[cls(n)];
        freel[cls(n)] = f;
    }
    __asan_poison_memory_region(p, n);
    __asan_poison_memory_region(b, HDR);
}
// Memory still referred to, directly or through other blocks, from a static
// or thread-local variable is a cache, not a leak.
namespace
{
struct Reach
{
    struct B { u64 at, size; Block* b; bool seen; };
    std::vector<B> bs;
    std::vector<size_t> todo;
    void scan(u64 from, u64 to)
    {
        for (from = (from + 7) & ~u64(7); from + 8 <= to; from += 8)
        {
            u64 v;
            memcpy(&v, reinterpret_cast<void*>(from), 8);
            if (v < ARENA || v >= ARENA + ARENA_SIZE) continue;
            auto i = std::upper_bound(bs.begin(), bs.end(), v, [](u64 x, const B& y) { return x < y.at; });
            if (i == bs.begin()) continue;
            --i;
            if (v >= i->at + std::max<u64>(i->size, 1) || i->seen) continue;
            i->seen = true;
            todo.push_back(static_cast<size_t>(i - bs.begin()));
        }
    }
    static int object(dl_phdr_info* info, size_t, void* self)
    {
        Reach& r = *static_cast<Reach*>(self);
        for (int i = 0; i < info->dlpi_phnum; ++i)
        {
            const auto& ph = info->dlpi_phdr[i];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
                r.scan(info->dlpi_addr + ph.p_vaddr, info->dlpi_addr + ph.p_vaddr + ph.p_memsz);
            if (ph.p_type == PT_TLS && info->dlpi_tls_data)
            {
                const u64 d = reinterpret_cast<u64>(info->dlpi_tls_data);
                r.scan(d, d + ph.p_memsz);
            }
        }
        return 0;
    }
    void mark()
    {
        for (u64 i = 0; i < live_n; ++i)
        {
            Block* b = live_tab[i].b;
            bs.push_back({ reinterpret_cast<u64>(b) + HDR, b->size, b, false });
        }
        std::sort(bs.begin(), bs.end(), [](const B& x, const B& y) { return x.at < y.at; });
        dl_iterate_phdr(object, this);
        while (!todo.empty())
        {
            const B x = bs[todo.back()];
            todo.pop_back();
            scan(x.at, x.at + x.size);
        }
    }
};
}
bool leaked(std::string& what, u64 mark)
{
    Harness h_;
    bool any = false;
    for (u64 i = 0; i < live_n && !any; ++i) any = live_tab[i].b->seq >= mark;
    if (!any) return false;
    Reach r;
    r.mark();
    u64 n = 0, bytes = 0, first = ~0ull, fs = 0;
    for (const auto& x : r.bs)
        if (!x.seen && x.b->seq >= mark)
        {
            ++n;
            bytes += x.size;
            if (x.b->seq < first) { first = x.b->seq; fs = x.size; }
        }
    if (!n) { count("cached-blocks"); return false; }
    what = fmt("%llu block(s), %llu bytes; first: allocation #%llu (+%llu) of %llu bytes",
        (unsigned long long)n, (unsigned long long)bytes, (unsigned long long)first,
        (unsigned long long)(first - mark), (unsigned long long)fs);
    return true;
}
static inline bool in_arena(const void* p)
{
    const u64 a = reinterpret_cast<u64>(p);
    return a >= ARENA && a < ARENA + ARENA_SIZE;
}
static void* lib_new(u64 size, u64 align)
{
    step_inl();
    if (size > peak_req) peak_req = size;
    if (fault_armed)
    {
        if (fault_in <= 0)
        {
            if (!fault_fired || fault_persistent)
            {
                fault_fired = true;
                const int old = tl_lib;
                tl_lib = 0;
                count("alloc-failure");
                event("alloc-fail", size, hs.allocs);
                tl_lib = old;
                throw std::bad_alloc();
            }
        }
        else --fault_in;
    }
    if ((heap_limit && size > heap_limit) || size > (u64(1) << 31))
    {
        const int old = tl_lib;
        tl_lib = 0;
        count("alloc-oversize-refused");
        event("alloc-refused", size);
        tl_lib = old;
        throw std::bad_alloc();
    }
    return arena_alloc(size, align);
}
static void* any_new(u64 size, u64 align)
{
    if (tl_lib) return lib_new(size, align);
    void* p = nullptr;
    if (align <= 16) p = malloc(size ? size : 1);
    else if (posix_memalign(&p, align, size ? size : 1)) p = nullptr;
    if (!p) throw std::bad_alloc();
    return p;
}
static void any_delete(void* p)
{
    if (!p) return;
    if (in_arena(p))
    {
        if (races && multi && tl_task >= 0) touch(reinterpret_cast<u64>(p), 1, true);
        arena_free(p);
        step_inl();
    }
    else free(p);
}

void begin_episode()
{
    for (int i = 0; i < NSTREAMS; ++i)
    {
        u64 s = ctl->seed;
        rng[i] = mix(splitmix(s), static_cast<u64>(i) * 7919 + 13);
    }
    set_heap_policy(0, 1, 0xcd);
    hs = HeapStats();
    next_seq = 1;
    nsteps = 0;
    set_step_budget(400000000ull);
    tl_lib = 0;
}

// ---------------------------------------------------------------- a copy of the process
bool apart(const std::function<std::string()>& f, std::string& result)
{
    Harness h_;
    result.clear();
    int fd[2];
    if (pipe(fd) != 0) return false;
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        const int null = open("/dev/null", O_WRONLY);
        if (null >= 0) dup2(null, 2);
        alarm(60);
        // what it records is its own
        void* own = mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (own == MAP_FAILED) _exit(4);
        memcpy(own, ctl, sizeof(Ctl));
        ctl = static_cast<Ctl*>(own);
        std::string r;
        try { r = f() + "."; } catch (...) { _exit(5); }
        for (size_t o = 0; o < r.size();)
        {
            const ssize_t k = write(fd[1], r.data() + o, r.size() - o);
            if (k <= 0) _exit(6);
            o += static_cast<size_t>(k);
        }
        _exit(0);
    }
    close(fd[1]);
    char buf[4096];
    for (;;)
    {
        const ssize_t k = pid < 0 ? 0 : read(fd[0], buf, sizeof buf);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        result.append(buf, static_cast<size_t>(k));
    }
    close(fd[0]);
    int st = 1;
    if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (pid <= 0 || st != 0 || result.empty()) return false;
    result.pop_back();
    return true;
}

// ---------------------------------------------------------------- coverage seam
static u32 nguards = 0;
u64 cov_guards() { return nguards; }
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    if (a == b || *a) return;
    for (; a < b; ++a) *a = ++sim::nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* gd)
{
    if (!sim::tl_lib) return;
    if (sim::ctl && *gd < sim::COVCAP) sim::ctl->cov[*gd] = 1;
    sim::step_inl();
}
// SCHED builds: thread-sanitizer instrumentation, of which these are the
// whole run time.  Every memory access and atomic operation of the library is
// a pre-emption point and goes to the conflict tracker.
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define LS(n) \
    void __tsan_read##n(void* p) { sim::ts_access(p, n, false); } \
    void __tsan_write##n(void* p) { sim::ts_access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { sim::ts_access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { sim::ts_access(p, n, true); } \
    void __tsan_read_write##n(void* p) { sim::ts_access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { sim::ts_access(p, n, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __tsan_read_range(void* p, size_t n) { sim::ts_access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { sim::ts_access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { sim::ts_access(p, 8, true); }
void __tsan_vptr_read(void** p) { sim::ts_access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    sim::ts_access(s, n, false);
    sim::ts_access(d, n, true);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    sim::ts_access(s, n, false);
    sim::ts_access(d, n, true);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    sim::ts_access(d, n, true);
    return memset(d, c, n);
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int) { sim::step_inl(); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { sim::step_inl(); sim::released(); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { sim::step_inl(); sim::released(); return __atomic_fetch_nand(p, v, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) \
    { sim::step_inl(); sim::released(); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
    { sim::step_inl(); sim::released(); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) \
    { sim::step_inl(); sim::released(); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sim::released(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// Locks the library might take: never block for real while holding the baton.
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!sim::multi || sim::tl_task < 0) return __real_pthread_mutex_lock(m);
    for (;;)
    {
        const int r = pthread_mutex_trylock(m);
        if (r != EBUSY) { sim::blocked_spins = 0; return r; }
        sim::blocked();
    }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!sim::multi || sim::tl_task < 0) return __real_pthread_rwlock_rdlock(m);
    for (;;)
    {
        const int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) { sim::blocked_spins = 0; return r; }
        sim::blocked();
    }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!sim::multi || sim::tl_task < 0) return __real_pthread_rwlock_wrlock(m);
    for (;;)
    {
        const int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) { sim::blocked_spins = 0; return r; }
        sim::blocked();
    }
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { sim::released(); return __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { sim::released(); return __real_pthread_rwlock_unlock(m); }
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    ++sim::tl_noyield;
    const int r = __real_pthread_once(o, f);
    --sim::tl_noyield;
    return r;
}
// Function-local statics: initialisation runs without pre-emption, because
// the C++ runtime makes every other thread wait for it anyway.
int __real___cxa_guard_acquire(long long*);
void __real___cxa_guard_release(long long*);
void __real___cxa_guard_abort(long long*);
int __wrap___cxa_guard_acquire(long long* gd)
{
    const int r = __real___cxa_guard_acquire(gd);
    if (r) ++sim::tl_noyield;
    return r;
}
void __wrap___cxa_guard_release(long long* gd)
{
    --sim::tl_noyield;
    sim::released();
    __real___cxa_guard_release(gd);
}
void __wrap___cxa_guard_abort(long long* gd)
{
    --sim::tl_noyield;
    __real___cxa_guard_abort(gd);
}
const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:"
        "allocator_may_return_null=1:handle_abort=0:handle_segv=1:"
        "symbolize=0:print_legend=0:print_full_thread_history=0:"
        "allow_user_poisoning=1:fast_unwind_on_fatal=1:malloc_context_size=0:"
        "quarantine_size_mb=1:thread_local_quarantine_size_kb=64";
}
}

void* operator new(std::size_t n) { return sim::any_new(n, 16); }
void* operator new[](std::size_t n) { return sim::any_new(n, 16); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try { return sim::any_new(n, 16); } catch (...) { return nullptr; }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    try { return sim::any_new(n, 16); } catch (...) { return nullptr; }
}
void* operator new(std::size_t n, std::align_val_t a) { return sim::any_new(n, static_cast<size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::any_new(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { sim::any_delete(p); }
void operator delete[](void* p) noexcept { sim::any_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sim::any_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::any_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::any_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::any_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::any_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::any_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::any_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::any_delete(p); }
