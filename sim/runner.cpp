// runner.cpp - explores episodes in parallel, minimises and replays failures.
#include "ctl.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <unordered_set>

namespace sim
{
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static const double EPISODE_WALL = 60;

struct Outcome
{
    enum Kind { OK, DISCARD, VIOL, ERROR } kind = OK;
    std::string sig, msg;
};

static std::string slurp_fd(int fd)
{
    std::string s;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    for (;;)
    {
        ssize_t n = read(fd, b, sizeof b);
        if (n <= 0) break;
        s.append(b, static_cast<size_t>(n));
        if (s.size() > 100000) break;
    }
    return s;
}

static Ctl* new_ctl()
{
    void* p = mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(9); }
    return static_cast<Ctl*>(p);
}
static void reset(Ctl* c)
{
    c->status = ST_RUNNING;
    c->sig[0] = c->msg[0] = c->desc[0] = 0;
    c->desc_n = 0;
    c->ev_hash = c->sched_hash = c->n_events = c->total_steps = c->preempts = 0;
    c->nontriv = 0;
    c->trace_n = 0;
    for (int i = 0; i < NSTREAMS; ++i) c->tape_n[i] = 0;
    memset(c->ctr, 0, sizeof c->ctr);
}

// Classify what a dying process said, without addresses or line numbers.
static void classify(const std::string& err, int st, std::string& sig, std::string& msg)
{
    size_t p;
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos)
    {
        std::string rest = err.substr(p + 25);
        size_t e = rest.find_first_of(" \n");
        sig = "memory:" + rest.substr(0, e);
        std::string acc;
        size_t q = err.find("\nREAD of size"), w = err.find("\nWRITE of size");
        if (q != std::string::npos) acc = ":read";
        if (w != std::string::npos && (q == std::string::npos || w < q)) acc = ":write";
        sig += acc;
    }
    else if ((p = err.find("Assertion `")) != std::string::npos)
    {
        size_t e = err.find('\n', p);
        sig = "assert:" + err.substr(p + 10, e == std::string::npos ? 80 : std::min<size_t>(e - p - 10, 80));
    }
    else if ((p = err.find("terminate called")) != std::string::npos)
        sig = "terminate";
    else if ((p = err.find("runtime error:")) != std::string::npos)
    {
        sig = "ubsan";
    }
    else if (WIFSIGNALED(st))
        sig = std::string("signal:") + std::to_string(WTERMSIG(st));
    else
        sig = "exit:" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    std::string m = err.substr(0, 3000);
    msg = "process died: " + m;
}

// Runs one episode in a child.  in[] of c must be set up when replay.
static Outcome run_child(Ctl* c, int errfd)
{
    Outcome o;
    reset(c);
    (void)!ftruncate(errfd, 0);
    lseek(errfd, 0, SEEK_SET);
    const pid_t pid = fork();
    if (pid < 0) { o.kind = Outcome::ERROR; o.msg = "fork failed"; return o; }
    if (pid == 0)
    {
        dup2(errfd, 2);
        rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        alarm(static_cast<unsigned>(EPISODE_WALL));
        ctl = c;
        begin_episode();
        try
        {
            episode();
        }
        catch (const std::exception& e)
        {
            violation("harness:escaped-exception", "%s", e.what());
        }
        c->total_steps = steps();
        c->status = ST_OK;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (c->status == ST_OK) { o.kind = Outcome::OK; return o; }
    if (c->status == ST_DISCARD) { o.kind = Outcome::DISCARD; o.msg = c->msg; return o; }
    o.kind = Outcome::VIOL;
    if (c->status == ST_VIOLATION) { o.sig = c->sig; o.msg = c->msg; return o; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
    {
        o.sig = "hang:wall";
        o.msg = "no result within the wall-clock limit";
        return o;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    {
        o.kind = Outcome::ERROR;
        o.msg = "episode process was killed from outside";
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9)
    {
        o.kind = Outcome::ERROR;
        o.msg = "simulator error: " + slurp_fd(errfd);
        return o;
    }
    classify(slurp_fd(errfd), st, o.sig, o.msg);
    return o;
}

struct Tapes { std::vector<u32> t[NSTREAMS]; };
static Tapes consumed(const Ctl* c)
{
    Tapes r;
    for (int i = 0; i < NSTREAMS; ++i) r.t[i].assign(c->tape[i], c->tape[i] + c->tape_n[i]);
    return r;
}
static void load_in(Ctl* c, const Tapes& t)
{
    c->replay = 1;
    for (int i = 0; i < NSTREAMS; ++i)
    {
        size_t n = std::min<size_t>(t.t[i].size(), TCAP);
        c->in_n[i] = static_cast<u32>(n);
        if (n) memcpy(c->in[i], t.t[i].data(), n * sizeof(u32));
    }
}
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        char b[8];
        if (ch == '"') r += "\\\"";
        else if (ch == '\\') r += "\\\\";
        else if (ch == '\n') r += "\\n";
        else if (ch == '\t') r += "\\t";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += static_cast<char>(ch);
    }
    return r;
}

struct Known { std::string sig, what; };
static std::vector<Known> load_known(const std::string& path, const std::string& prop)
{
    // lines: "finding: property=<id> sig=<sig> <what>"; "fixed: ..." suppresses nothing
    std::vector<Known> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l))
    {
        const std::string pre = "finding: property=" + prop + " sig=";
        if (l.compare(0, pre.size(), pre) == 0)
        {
            std::string rest = l.substr(pre.size());
            size_t sp = rest.find(' ');
            r.push_back({ rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1) });
        }
    }
    return r;
}

// per-worker aggregate, in shared memory
struct Agg
{
    u64 episodes, discards, nontriv, steps, events, preempts, known, errors, det_checks, det_bad;
    u64 distinct, distinct_sched;
    struct { char name[44]; u64 n; } ctr[NCTR];
    u64 known_n[32];
    char err[512];
};
struct Global
{
    volatile int stop;
    volatile int have;       // a violation was stored
    u64 seed;
    u64 index;
    char sig[200];
    char msg[8192];
    u32 tape_n[NSTREAMS];
    u32 tape[NSTREAMS][TCAP];
    u8 cov[COVCAP];
};

static u64 episode_seed(u64 base, u64 idx) { return mix(mix(0xabcdef, base), idx); }

static void add_ctr(Agg* a, const Ctl* c)
{
    for (auto& k : c->ctr)
    {
        if (!k.name[0]) break;
        for (auto& x : a->ctr)
        {
            if (!x.name[0]) memcpy(x.name, k.name, sizeof x.name);
            if (!strcmp(x.name, k.name)) { x.n += k.n; break; }
        }
    }
}

static void worker(unsigned w, unsigned jobs, u64 base, double deadline, u64 max_ep,
    Agg* a, Global* gl, const std::vector<Known>& known, int out_fd)
{
    Ctl* c = new_ctl();
    char tn[] = "/tmp/simerrXXXXXX";
    int efd = mkstemp(tn);
    unlink(tn);
    std::unordered_set<u64> seen, seen_s;
    for (u64 i = w; i < max_ep && !gl->stop && now() < deadline; i += jobs)
    {
        c->replay = 0;
        c->trace = 0;
        c->seed = episode_seed(base, i);
        Outcome o = run_child(c, efd);
        ++a->episodes;
        if (o.kind == Outcome::ERROR)
        {
            ++a->errors;
            snprintf(a->err, sizeof a->err, "%s", o.msg.c_str());
            gl->stop = 1;
            break;
        }
        a->steps += c->total_steps;
        a->events += c->n_events;
        a->preempts += c->preempts;
        add_ctr(a, c);
        if (o.kind == Outcome::DISCARD) { ++a->discards; continue; }
        if (o.kind == Outcome::VIOL)
        {
            bool k = false;
            for (size_t j = 0; j < known.size() && j < 32; ++j)
                if (known[j].sig == o.sig) { ++a->known_n[j]; k = true; break; }
            if (k) { ++a->known; continue; }
            if (__sync_bool_compare_and_swap(&gl->have, 0, 1))
            {
                gl->seed = c->seed;
                gl->index = i;
                snprintf(gl->sig, sizeof gl->sig, "%s", o.sig.c_str());
                snprintf(gl->msg, sizeof gl->msg, "%s", o.msg.c_str());
                for (int s = 0; s < NSTREAMS; ++s)
                {
                    gl->tape_n[s] = c->tape_n[s];
                    memcpy(gl->tape[s], c->tape[s], c->tape_n[s] * sizeof(u32));
                }
                gl->stop = 1;
            }
            break;
        }
        if (c->nontriv)
        {
            ++a->nontriv;
            if (seen.insert(c->ev_hash).second) ++a->distinct;
        }
        if (seen_s.insert(c->sched_hash).second) ++a->distinct_sched;
        // Same seed twice must be the same execution.
        if ((i / jobs) % 50 == 7)
        {
            const u64 h = c->ev_hash, ss = c->total_steps, se = c->sched_hash;
            Outcome o2 = run_child(c, efd);
            ++a->det_checks;
            if (o2.kind != Outcome::OK || c->ev_hash != h || c->total_steps != ss || c->sched_hash != se)
            {
                ++a->det_bad;
                snprintf(a->err, sizeof a->err, "episode %llu (seed %llu) is not repeatable",
                    (unsigned long long)i, (unsigned long long)c->seed);
                gl->stop = 1;
            }
        }
        for (u64 gidx = 0, n = cov_guards(); gidx <= n && gidx < COVCAP; ++gidx)
            if (c->cov[gidx]) gl->cov[gidx] = 1;
    }
    // distinct event hashes, merged by the parent
    std::vector<u64> v(seen.begin(), seen.end()), vs(seen_s.begin(), seen_s.end());
    u64 n[2] = { v.size(), vs.size() };
    (void)!write(out_fd, n, sizeof n);
    for (auto* vv : { &v, &vs })
    {
        const char* p = reinterpret_cast<const char*>(vv->data());
        size_t left = vv->size() * 8;
        while (left)
        {
            ssize_t k = write(out_fd, p, left);
            if (k <= 0) break;
            p += k;
            left -= static_cast<size_t>(k);
        }
    }
    _exit(0);
}

static bool read_full(int fd, void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n)
    {
        ssize_t k = read(fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= static_cast<size_t>(k);
    }
    return true;
}

struct Mini
{
    Ctl* c;
    int efd;
    std::string sig;
    double deadline;
    u64 tries = 0;
    Tapes best;
    // An attempt is kept only when the tapes really consumed got smaller in
    // (total length, then sum of values) - so the search terminates.
    static void cost(const Tapes& t, u64& len, u64& sum)
    {
        len = sum = 0;
        for (int s = 0; s < NSTREAMS; ++s)
        {
            len += t.t[s].size();
            for (u32 v : t.t[s]) sum += v;
        }
    }
    bool attempt(const Tapes& t)
    {
        if (now() > deadline) return false;
        ++tries;
        load_in(c, t);
        Outcome o = run_child(c, efd);
        if (o.kind != Outcome::VIOL || o.sig != sig) return false;
        Tapes cons = consumed(c);
        // drop trailing zeros: the tape reads as 0 beyond its end
        for (auto& v : cons.t) while (!v.empty() && v.back() == 0) v.pop_back();
        u64 l0, s0, l1, s1;
        cost(best, l0, s0);
        cost(cons, l1, s1);
        if (l1 < l0 || (l1 == l0 && s1 < s0)) { best = cons; return true; }
        return false;
    }
    void run()
    {
        for (auto& v : best.t) while (!v.empty() && v.back() == 0) v.pop_back();
        static const int order[NSTREAMS] = { SCHED, FAULT, IO, GEN };
        bool changed = true;
        while (changed && now() < deadline)
        {
            changed = false;
            for (int s : order)
            {
                // empty the tape
                if (!best.t[s].empty())
                {
                    Tapes t = best;
                    t.t[s].clear();
                    if (attempt(t)) changed = true;
                }
                // delete chunks
                for (size_t len = std::max<size_t>(best.t[s].size() / 2, 1); len >= 1 && now() < deadline; len /= 2)
                {
                    for (size_t i = 0; i < best.t[s].size() && now() < deadline;)
                    {
                        Tapes t = best;
                        size_t e = std::min(i + len, t.t[s].size());
                        t.t[s].erase(t.t[s].begin() + static_cast<long>(i), t.t[s].begin() + static_cast<long>(e));
                        if (attempt(t)) changed = true;
                        else i += len;
                    }
                }
                // zero chunks, then lower values
                for (size_t len = std::max<size_t>(best.t[s].size() / 2, 1); len >= 1 && now() < deadline; len /= 2)
                {
                    for (size_t i = 0; i < best.t[s].size() && now() < deadline; i += len)
                    {
                        Tapes t = best;
                        size_t e = std::min(i + len, t.t[s].size());
                        bool any = false;
                        for (size_t k = i; k < e; ++k) { if (t.t[s][k]) any = true; t.t[s][k] = 0; }
                        if (any && attempt(t)) changed = true;
                    }
                }
                for (size_t i = 0; i < best.t[s].size() && now() < deadline; ++i)
                {
                    while (i < best.t[s].size() && best.t[s][i] > 1 && now() < deadline)
                    {
                        Tapes t = best;
                        t.t[s][i] /= 2;
                        if (!attempt(t)) break;
                        changed = true;
                    }
                    if (i < best.t[s].size() && best.t[s][i] > 0)
                    {
                        Tapes t = best;
                        --t.t[s][i];
                        if (attempt(t)) changed = true;
                    }
                }
            }
        }
    }
};

static bool write_replay(const std::string& path, const Ctl* c, const Outcome& o, const Tapes& t,
    u64 base, u64 idx, u64 seed, const char* tier, const Tapes& orig, u64 tries)
{
    std::ofstream f(path);
    f << "{\n \"property\": \"" << info.property << "\",\n \"tier\": \"" << tier << "\",\n \"batch\": \"" << info.batch << "\",\n"
        << " \"base_seed\": " << base << ", \"episode\": " << idx << ", \"episode_seed\": \"" << seed << "\",\n"
        << " \"sig\": \"" << jesc(o.sig) << "\",\n \"message\": \"" << jesc(o.msg) << "\",\n"
        << " \"event_hash\": \"" << c->ev_hash << "\", \"steps\": " << c->total_steps << ",\n"
        << " \"minimise\": {\"attempts\": " << tries;
    static const char* nm[NSTREAMS] = { "gen", "sched", "fault", "io" };
    for (int s = 0; s < NSTREAMS; ++s)
        f << ", \"" << nm[s] << "\": \"" << orig.t[s].size() << "->" << t.t[s].size() << "\"";
    f << "},\n \"tapes\": {";
    for (int s = 0; s < NSTREAMS; ++s)
    {
        f << (s ? ",\n  " : "\n  ") << "\"" << nm[s] << "\": [";
        for (size_t i = 0; i < t.t[s].size(); ++i) f << (i ? "," : "") << t.t[s][i];
        f << "]";
    }
    f << "},\n \"scenario\": \"" << jesc(c->desc) << "\",\n \"trace\": [";
    std::string tr(c->tracebuf, c->trace_n);
    std::istringstream is(tr);
    std::string l;
    bool first = true;
    while (std::getline(is, l))
    {
        f << (first ? "\n  " : ",\n  ") << "\"" << jesc(l) << "\"";
        first = false;
    }
    f << "]\n}\n";
    return static_cast<bool>(f);
}

static bool read_replay(const std::string& path, Tapes& t, std::string& sig, u64& hash, u64& seed)
{
    std::ifstream f(path);
    if (!f) return false;
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    static const char* nm[NSTREAMS] = { "\"gen\": [", "\"sched\": [", "\"fault\": [", "\"io\": [" };
    size_t tp = s.find("\"tapes\"");
    if (tp == std::string::npos) return false;
    for (int i = 0; i < NSTREAMS; ++i)
    {
        size_t p = s.find(nm[i], tp);
        if (p == std::string::npos) return false;
        p += strlen(nm[i]);
        while (s[p] != ']')
        {
            char* e;
            t.t[i].push_back(static_cast<u32>(strtoul(&s[p], &e, 10)));
            p = static_cast<size_t>(e - s.data());
            if (s[p] == ',') ++p;
        }
    }
    auto field = [&](const char* k) {
        size_t p = s.find(k);
        if (p == std::string::npos) return std::string();
        p += strlen(k);
        std::string r;
        while (s[p] != '"') { if (s[p] == '\\') ++p; r += s[p++]; }
        return r;
    };
    sig = field("\"sig\": \"");
    hash = strtoull(field("\"event_hash\": \"").c_str(), nullptr, 10);
    seed = strtoull(field("\"episode_seed\": \"").c_str(), nullptr, 10);
    return true;
}

int runner_main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
    const u64 base = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    const std::string tier = get("--tier", "quick");
    const double seconds = atof(get("--seconds", "30").c_str());
    const unsigned jobs = static_cast<unsigned>(atoi(get("--jobs", "8").c_str()));
    const u64 max_ep = strtoull(get("--episodes", "1000000000").c_str(), nullptr, 10);
    const std::string evidence = get("--evidence", ""), rdir = get("--replay-dir", "/tmp");
    const std::vector<Known> known = load_known(get("--known", ""), info.property);
    const double t0 = now();

    // What the library does may be broken: then the episodes tell
    const pid_t wp = fork();
    if (wp == 0)
    {
        alarm(60);
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        try { warmup(); } catch (...) { _exit(3); }
        _exit(0);
    }
    int wst = -1;
    if (wp > 0) waitpid(wp, &wst, 0);
    if (wst == 0) warmup();
    else printf("warm-up failed (status %d) and is left out\n", wst);
    Ctl* c = new_ctl();
    char tn[] = "/tmp/simerrXXXXXX";
    int efd = mkstemp(tn);
    unlink(tn);

    if (opt.count("--replay"))
    {
        Tapes t;
        std::string sig;
        u64 hash = 0, seed = 0;
        if (!read_replay(opt["--replay"], t, sig, hash, seed)) { fprintf(stderr, "cannot read replay\n"); return 2; }
        c->seed = seed;
        c->trace = 1;
        load_in(c, t);
        Outcome o = run_child(c, efd);
        if (get("--print", "0") == "1")
        {
            printf("%s\n%.*s", c->desc, static_cast<int>(c->trace_n), c->tracebuf);
        }
        if (o.kind == Outcome::VIOL)
        {
            printf("replay: %s\n%s\nevent hash %s\n", o.sig.c_str(), o.msg.c_str(),
                c->ev_hash == hash ? "identical" : "DIFFERS");
            if (o.sig == sig && c->ev_hash == hash)
            {
                printf("VIOLATION property=%s replay=%s\n", info.property, opt["--replay"].c_str());
                return 1;
            }
            printf("replay: a different violation than recorded (%s)\n", sig.c_str());
            return 3;
        }
        printf("replay: the recorded violation does not occur\n");
        return o.kind == Outcome::ERROR ? 2 : 0;
    }
    if (opt.count("--index"))
    {
        c->seed = episode_seed(base, strtoull(opt["--index"].c_str(), nullptr, 10));
        c->trace = 1;
        c->replay = 0;
        Outcome o = run_child(c, efd);
        printf("%s\n%.*s", c->desc, static_cast<int>(c->trace_n), c->tracebuf);
        printf("kind %d sig %s msg %s\nsteps %llu hash %llx nontriv %d\n", o.kind, o.sig.c_str(), o.msg.c_str(),
            (unsigned long long)c->total_steps, (unsigned long long)c->ev_hash, c->nontriv);
        for (auto& k : c->ctr) if (k.name[0]) printf("  %s %llu\n", k.name, (unsigned long long)k.n);
        return 0;
    }

    Global* gl = static_cast<Global*>(mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    Agg* agg = static_cast<Agg*>(mmap(nullptr, sizeof(Agg) * jobs, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<int> fds;
    std::vector<pid_t> pids;
    fflush(stdout);
    for (unsigned w = 0; w < jobs; ++w)
    {
        int p[2];
        if (pipe(p)) { perror("pipe"); return 2; }
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0)
        {
            close(p[0]);
            worker(w, jobs, base, t0 + seconds, max_ep, &agg[w], gl, known, p[1]);
        }
        close(p[1]);
        fds.push_back(p[0]);
        pids.push_back(pid);
    }
    std::unordered_set<u64> all, alls;
    for (int fd : fds)
    {
        u64 n[2];
        if (read_full(fd, n, sizeof n))
        {
            std::vector<u64> v(n[0]), vs(n[1]);
            read_full(fd, v.data(), n[0] * 8);
            read_full(fd, vs.data(), n[1] * 8);
            all.insert(v.begin(), v.end());
            alls.insert(vs.begin(), vs.end());
        }
        close(fd);
    }
    bool worker_died = false;
    for (pid_t p : pids)
    {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_died = true;
    }
    const double explore_s = now() - t0;

    Agg tot;
    memset(&tot, 0, sizeof tot);
    std::map<std::string, u64> ctr;
    std::string err;
    for (unsigned w = 0; w < jobs; ++w)
    {
        Agg& a = agg[w];
        tot.episodes += a.episodes; tot.discards += a.discards; tot.nontriv += a.nontriv;
        tot.steps += a.steps; tot.events += a.events; tot.preempts += a.preempts;
        tot.known += a.known; tot.errors += a.errors; tot.det_checks += a.det_checks; tot.det_bad += a.det_bad;
        for (int j = 0; j < 32; ++j) tot.known_n[j] += a.known_n[j];
        for (auto& x : a.ctr) if (x.name[0]) ctr[x.name] += x.n;
        if (a.err[0]) err = a.err;
    }
    u64 cov = 0;
    for (u64 i = 1; i <= cov_guards() && i < COVCAP; ++i) cov += gl->cov[i];

    // samples: a few episodes of this run, written out
    std::vector<std::string> samples;
    if (!gl->have)
        for (u64 i = 0, got = 0; i < 200 && got < 4 && i < tot.episodes; ++i)
        {
            c->replay = 0;
            c->trace = 1;
            c->seed = episode_seed(base, i);
            Outcome o = run_child(c, efd);
            if (o.kind == Outcome::OK && c->nontriv)
            {
                samples.push_back("episode " + std::to_string(i) + ": " + std::string(c->desc).substr(0, 1500) +
                    " | trace: " + std::string(c->tracebuf, std::min<u32>(c->trace_n, 600)));
                ++got;
            }
        }

    int rc = 0;
    std::string vline;
    if (gl->have)
    {
        rc = 1;
        Mini m;
        m.c = c;
        m.efd = efd;
        m.sig = gl->sig;
        m.deadline = now() + atof(get("--minimise", "60").c_str());
        c->seed = gl->seed;
        c->trace = 0;
        for (int s = 0; s < NSTREAMS; ++s) m.best.t[s].assign(gl->tape[s], gl->tape[s] + gl->tape_n[s]);
        const Tapes orig = m.best;
        // Gate: the recorded tapes must reproduce the failure, twice, with
        // identical event hashes; otherwise this is an error of the check.
        load_in(c, m.best);
        Outcome o1 = run_child(c, efd);
        const u64 h1 = c->ev_hash;
        Outcome o2 = run_child(c, efd);
        if (o1.kind != Outcome::VIOL || o2.kind != Outcome::VIOL || o1.sig != gl->sig || o2.sig != gl->sig ||
            c->ev_hash != h1)
        {
            fprintf(stderr, "ERROR: a failure (%s) did not replay exactly: %s / %s\n%s\n", gl->sig,
                o1.sig.c_str(), o2.sig.c_str(), gl->msg);
            rc = 2;
        }
        else
        {
            m.run();
            c->trace = 1;
            load_in(c, m.best);
            Outcome of = run_child(c, efd);
            const u64 hf = c->ev_hash;
            Outcome of2 = run_child(c, efd);
            if (of.kind != Outcome::VIOL || of2.kind != Outcome::VIOL || c->ev_hash != hf || of.sig != of2.sig)
            {
                fprintf(stderr, "ERROR: the minimised failure did not replay exactly\n");
                rc = 2;
            }
            else
            {
                char path[4096];
                snprintf(path, sizeof path, "%s/%s-%s-%llu.json", rdir.c_str(), info.property, tier.c_str(),
                    (unsigned long long)gl->index);
                write_replay(path, c, of2, m.best, base, gl->index, gl->seed, tier.c_str(), orig, m.tries);
                printf("property %s: %s\n%s\nscenario: %s\n", info.property, of2.sig.c_str(), of2.msg.c_str(), c->desc);
                printf("seed %llu episode %llu, found after %.1f s; minimised in %llu runs\n",
                    (unsigned long long)base, (unsigned long long)gl->index, explore_s, (unsigned long long)m.tries);
                vline = std::string("VIOLATION property=") + info.property + " replay=" + path;
            }
        }
    }
    else if (tot.errors || tot.det_bad || worker_died || tot.episodes == 0)
    {
        fprintf(stderr, "ERROR: %s\n", err.empty() ? "worker died" : err.c_str());
        rc = 2;
    }
    else if (tot.nontriv == 0)
    {
        fprintf(stderr, "ERROR: no episode exercised the property\n");
        rc = 2;
    }

    const double wall = now() - t0;
    if (!evidence.empty())
    {
        std::ofstream f(evidence + ".tmp");
        f << "{\n \"property\": \"" << info.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << base
            << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << tot.episodes
            << ",\n  \"distinct_nontrivial\": " << all.size()
            << ",\n  \"nontrivial_runs\": " << tot.nontriv << ",\n  \"discarded_runs\": " << tot.discards
            << ",\n  \"rule\": \"" << jesc(info.rule) << "\",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            f << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
        if (samples.empty()) f << "\"" << jesc(vline) << "\"";
        f << "],\n  \"simulated_runs_per_hour\": " << static_cast<u64>(static_cast<double>(tot.episodes) / explore_s * 3600)
            << ",\n  \"simulated_time_steps\": " << tot.steps
            << ",\n  \"simulated_time_unit\": \"library basic blocks and simulator calls (the library has no clock)\""
            << ",\n  \"events\": " << tot.events
            << ",\n  \"preemptions\": " << tot.preempts
            << ",\n  \"distinct_schedules\": " << alls.size()
            << ",\n  \"distinct_measure\": \"" << jesc(info.measure) << "\""
            << ",\n  \"library_edges_reached\": " << cov << ", \"library_edges_instrumented\": " << cov_guards()
            << ",\n  \"injected\": {";
        bool first = true;
        for (auto& k : ctr) { f << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second; first = false; }
        f << "},\n  \"determinism_rechecks\": " << tot.det_checks
            << ",\n  \"known_finding_runs\": " << tot.known
            << ",\n  \"real_components\": \"" << jesc(info.real) << "\",\n  \"stub_components\": \"" << jesc(info.stub)
            << "\"\n },\n \"assumptions\": [";
        std::istringstream as(info.assumptions);
        std::string a1;
        first = true;
        while (std::getline(as, a1, ';')) { f << (first ? "" : ", ") << "\"" << jesc(a1) << "\""; first = false; }
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
        f.close();
        rename((evidence + ".tmp").c_str(), evidence.c_str());
    }
    printf("%s: %llu episodes (%llu nontrivial, %zu distinct, %llu discarded), %llu steps, %llu preemptions, "
        "%zu schedules, edges %llu/%llu, %.1f s\n", info.property, (unsigned long long)tot.episodes,
        (unsigned long long)tot.nontriv, all.size(), (unsigned long long)tot.discards,
        (unsigned long long)tot.steps, (unsigned long long)tot.preempts, alls.size(),
        (unsigned long long)cov, (unsigned long long)cov_guards(), wall);
    for (auto& k : ctr) printf("  %-40s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (size_t j = 0; j < known.size(); ++j)
        printf("KNOWN-FINDING: property=%s %s (seen %llu times in this run)\n", info.property, known[j].what.c_str(),
            (unsigned long long)(j < 32 ? tot.known_n[j] : 0));
    if (!vline.empty()) printf("%s\n", vline.c_str());
    fflush(stdout);
    return rc;
}
}

int main(int argc, char** argv) { return sim::runner_main(argc, argv); }
