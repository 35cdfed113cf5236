// WRAP: open open64 openat fstat fstat64 stat stat64 lseek lseek64 read pread mmap mmap64 munmap close
// P07: memory_file over a simulated kernel.
#include "sim.hpp"
#include <lexertl/memory_file.hpp>
#include <cerrno>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>

namespace kern
{
using sim::u64;
struct File { std::string bytes; bool dir = false; u64 gen = 0; };
struct Fd { std::string content; bool dir; int owner; size_t pos; };
struct Map { char* base; size_t pages; size_t left; int owner; std::set<size_t> gone; };
static bool active = false;
static std::map<std::string, File> files;
static std::map<int, Fd> fds;
static std::map<char*, Map> maps;
static int owner = -1;            // whose call is running
static unsigned fault_den = 0;    // one call in this many fails
static bool failed_open, failed_stat, failed_map, failed_unmap;
static std::set<int> leaked_ok;   // owners whose munmap was made to fail
static const size_t page = 4096;

static bool on() { return active && sim::tl_lib; }
static bool fail(const char* what)
{
    if (!fault_den || !sim::chance(sim::FAULT, 1, fault_den)) return false;
    sim::count(what);
    return true;
}
static int err(int e) { errno = e; return -1; }
static int do_open(const char* path)
{
    sim::Harness h;
    sim::step();
    sim::event_str("open", path ? path : "(null)");
    auto it = files.find(path);
    if (it == files.end()) { failed_open = true; sim::count("open:missing"); return err(ENOENT); }
    if (fail("fault:open"))
    {
        failed_open = true;
        static const int es[] = { EACCES, EINTR, EMFILE, ENFILE, EIO, ELOOP };
        return err(es[sim::choose(sim::FAULT, 6)]);
    }
    int n = 0;
    while (fds.count(n)) ++n;
    fds[n] = { it->second.bytes, it->second.dir, owner, 0 };
    sim::event("fd", n);
    return n;
}
static int do_close(int fd)
{
    sim::Harness h;
    sim::step();
    sim::event("close", fd);
    if (fd < 0) return err(EBADF);
    auto it = fds.find(fd);
    if (it == fds.end()) sim::violation("closes-unowned", "closed descriptor %d, which is not open", fd);
    if (it->second.owner != owner) sim::violation("closes-unowned", "closed descriptor %d, which belongs to someone else", fd);
    fds.erase(it);
    if (fail("fault:close")) return err(sim::choose(sim::FAULT, 2) ? EIO : EINTR);
    return 0;
}
template<typename S> static int do_stat(const Fd& f, S* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = f.dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = static_cast<off_t>(f.dir ? 4096 : f.content.size());
    st->st_blksize = 4096;
    st->st_nlink = 1;
    return 0;
}
template<typename S> static int do_fstat(int fd, S* st)
{
    sim::Harness h;
    sim::step();
    auto it = fds.find(fd);
    if (it == fds.end()) return err(EBADF);
    if (fail("fault:fstat")) { failed_stat = true; return err(sim::choose(sim::FAULT, 2) ? EIO : EOVERFLOW); }
    return do_stat(it->second, st);
}
static void* do_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off);
static int do_munmap(void* p, size_t len);
}
extern "C"
{
int __real_close(int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_openat(int, const char*, int, ...);
int __real_fstat(int, struct stat*);
int __real_fstat64(int, struct stat64*);
int __real_stat(const char*, struct stat*);
int __real_stat64(const char*, struct stat64*);
off_t __real_lseek(int, off_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);

int __wrap_open(const char* p, int f, ...)
{
    va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a);
    return kern::on() ? kern::do_open(p) : __real_open(p, f, m);
}
int __wrap_open64(const char* p, int f, ...)
{
    va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a);
    return kern::on() ? kern::do_open(p) : __real_open(p, f, m);
}
int __wrap_openat(int d, const char* p, int f, ...)
{
    va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a);
    return kern::on() ? kern::do_open(p) : __real_openat(d, p, f, m);
}
int __wrap_close(int fd) { return kern::on() ? kern::do_close(fd) : __real_close(fd); }
int __wrap_fstat(int fd, struct stat* s) { return kern::on() ? kern::do_fstat(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat64* s) { return kern::on() ? kern::do_fstat(fd, s) : __real_fstat(fd, reinterpret_cast<struct stat*>(s)); }
static int stat_path(const char* p, struct stat* s)
{
    sim::Harness h;
    auto it = kern::files.find(p);
    if (it == kern::files.end()) return kern::err(ENOENT);
    if (kern::fail("fault:stat")) { kern::failed_stat = true; return kern::err(EIO); }
    kern::Fd f{ it->second.bytes, it->second.dir, 0, 0 };
    return kern::do_stat(f, s);
}
int __wrap_stat(const char* p, struct stat* s) { return kern::on() ? stat_path(p, s) : __real_stat(p, s); }
int __wrap_stat64(const char* p, struct stat64* s) { return kern::on() ? stat_path(p, reinterpret_cast<struct stat*>(s)) : __real_stat(p, reinterpret_cast<struct stat*>(s)); }
off_t __wrap_lseek(int fd, off_t o, int w)
{
    if (!kern::on()) return __real_lseek(fd, o, w);
    sim::Harness h;
    auto it = kern::fds.find(fd);
    if (it == kern::fds.end()) return kern::err(EBADF);
    const off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? static_cast<off_t>(it->second.pos) : static_cast<off_t>(it->second.content.size());
    if (kern::fail("fault:lseek")) { kern::failed_stat = true; return kern::err(EOVERFLOW); }
    it->second.pos = static_cast<size_t>(base + o);
    return base + o;
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    if (!kern::on()) return __real_pread(fd, b, n, o);
    sim::Harness h;
    auto it = kern::fds.find(fd);
    if (it == kern::fds.end()) return kern::err(EBADF);
    if (kern::fail("fault:read")) { kern::failed_map = true; return kern::err(EIO); }
    const std::string& c = it->second.content;
    const size_t at = std::min(static_cast<size_t>(o), c.size());
    size_t k = std::min(n, c.size() - at);
    k -= sim::choose(sim::IO, k ? k : 1);
    memcpy(b, c.data() + at, k);
    return static_cast<ssize_t>(k);
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (!kern::on()) return __real_read(fd, b, n);
    auto it = kern::fds.find(fd);
    if (it == kern::fds.end()) return kern::err(EBADF);
    const ssize_t k = __wrap_pread(fd, b, n, static_cast<off_t>(it->second.pos));
    if (k > 0) it->second.pos += static_cast<size_t>(k);
    return k;
}
void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o)
{
    return kern::on() ? kern::do_mmap(a, l, p, f, fd, o) : __real_mmap(a, l, p, f, fd, o);
}
void* __wrap_mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return __wrap_mmap(a, l, p, f, fd, o); }
int __wrap_munmap(void* a, size_t l) { return kern::on() ? kern::do_munmap(a, l) : __real_munmap(a, l); }
}
namespace kern
{
static void* do_mmap(void*, size_t len, int prot, int, int fd, off_t off)
{
    sim::Harness h;
    sim::step();
    sim::event("mmap", len, static_cast<u64>(fd));
    auto it = fds.find(fd);
    const auto failed = [](int e) { failed_map = true; errno = e; return MAP_FAILED; };
    if (it == fds.end()) return failed(EBADF);
    if (it->second.dir) return failed(ENODEV);
    if (len == 0) return failed(EINVAL);
    if (fail("fault:mmap")) return failed(sim::choose(sim::FAULT, 2) ? ENOMEM : EAGAIN);
    const size_t pages = (len + page - 1) / page;
    // an unreadable page follows
    char* base = static_cast<char*>(__real_mmap(nullptr, (pages + 1) * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base == MAP_FAILED) sim::violation("harness:mmap", "mmap");
    const std::string& c = it->second.content;
    const size_t at = std::min(static_cast<size_t>(off), c.size());
    memcpy(base, c.data() + at, std::min(len, c.size() - at));
    // pages beyond the file's end cannot be touched
    const size_t backed = (c.size() - at + page - 1) / page;
    if (prot & PROT_WRITE) ; else mprotect(base, pages * page, PROT_READ);
    if (backed < pages) mprotect(base + backed * page, (pages - backed) * page, PROT_NONE);
    mprotect(base + pages * page, page, PROT_NONE);
    maps[base] = { base, pages, pages, owner, {} };
    return base;
}
static int do_munmap(void* p, size_t len)
{
    sim::Harness h;
    sim::step();
    sim::event("munmap", len);
    char* a = static_cast<char*>(p);
    if (len == 0) return err(EINVAL);
    const size_t n = (len + page - 1) / page;
    auto it = maps.upper_bound(a);
    if (it == maps.begin()) sim::violation("unmaps-unowned", "unmapped an address that is not mapped");
    --it;
    Map& m = it->second;
    if (a + n * page > m.base + m.pages * page || (a - m.base) % static_cast<long>(page))
        sim::violation("unmaps-unowned", "unmapped %zu bytes, which reaches outside the mapping", len);
    if (m.owner != owner) sim::violation("unmaps-unowned", "unmapped someone else's mapping");
    if (fail("fault:munmap")) { m.owner = -2; return err(ENOMEM); }
    const size_t from = static_cast<size_t>(a - m.base) / page;
    for (size_t i = from; i < from + n; ++i)
    {
        if (!m.gone.insert(i).second) sim::violation("unmaps-unowned", "unmapped a page twice");
        mprotect(m.base + i * page, page, PROT_NONE);
    }
    if (m.gone.size() == m.pages)
    {
        __real_munmap(m.base, (m.pages + 1) * page);
        maps.erase(it);
    }
    return 0;
}
}
namespace sim
{
using namespace kern;
const Info info = {
    "P07",
    "3-40 random operations (open, reopen, close, destroy, construct, replace a file) on up to three memory files of one to four byte characters "
    "over up to five files of 0 bytes to 128 KB, a directory and missing paths, with every system call failing at seeded points and other descriptors opened "
    "and closed in between; non-trivial: a file was shown and later replaced or closed",
    "memory_file",
    "kernel: open, close, fstat, stat, lseek, read, pread, mmap, munmap over simulated files, descriptors and mappings",
    "event history hash (system calls and results)",
    "a file's content does not change while it is mapped;close releases the descriptor even when it reports an error (Linux);"
    "munmap made to fail keeps its mapping and is excused"
};
struct Any
{
    virtual ~Any() = default;
    virtual void open(const char*) = 0;
    virtual void close() = 0;
    virtual const void* data() = 0;
    virtual size_t size() = 0;
    virtual size_t unit() = 0;
};
template<typename C> struct Mf : Any
{
    lexertl::basic_memory_file<C> f;
    Mf() = default;
    explicit Mf(const char* p) : f(p) {}
    void open(const char* p) override { f.open(p); }
    void close() override { f.close(); }
    const void* data() override { return f.data(); }
    size_t size() override { return f.size(); }
    size_t unit() override { return sizeof(C); }
};
struct Obj { Any* a = nullptr; bool shown = false; std::string content; };
static Obj objs[3];

static void check(int i)
{
    Obj& o = objs[i];
    if (!o.a) return;
    size_t n, unit;
    const void* d;
    {
        Lib l;
        n = o.a->size();
        d = o.a->data();
        unit = o.a->unit();
    }
    if (!o.shown)
    {
        SIM_CHECK(d == nullptr && n == 0, "stale-view", "a memory file without an open file shows %zu characters at %p", n, d);
    }
    else
    {
        SIM_CHECK(n == o.content.size() / unit, "wrong-size", "a file of %zu bytes shows as %zu characters of %zu", o.content.size(), n, unit);
        SIM_CHECK(n == 0 || d, "no-data", "a file of %zu characters has no data", n);
        SIM_CHECK(n == 0 || memcmp(d, o.content.data(), n * unit) == 0, "wrong-content", "the content shown is not the file's");
    }
    size_t nf = 0, nm = 0;
    for (auto& f : fds) nf += f.second.owner == i;
    for (auto& m : maps)
        if (m.second.owner == i)
        {
            ++nm;
            SIM_CHECK(m.second.gone.empty(), "partly-unmapped", "%zu of %zu pages of a mapping were given back", m.second.gone.size(), m.second.pages);
        }
    const size_t max = o.shown ? 1 : 0;
    SIM_CHECK(nf <= max, "descriptor-leak", "a memory file %s holds %zu descriptors", o.shown ? "showing a file" : "showing nothing", nf);
    SIM_CHECK(nm <= max, "mapping-leak", "a memory file %s holds %zu mappings", o.shown ? "showing a file" : "showing nothing", nm);
}
static void expect_after_open(int i, const std::string& path)
{
    Obj& o = objs[i];
    auto it = files.find(path);
    const bool ok = it != files.end() && !failed_open && !failed_stat && !failed_map && !it->second.dir && !it->second.bytes.empty();
    o.shown = ok;
    o.content = ok ? it->second.bytes : std::string();
    if (ok) count("shown");
    else count("not-shown");
}
static void none_left(int i)
{
    for (auto& f : fds) SIM_CHECK(f.second.owner != i, "descriptor-leak", "descriptor %d is still open after destruction", f.first);
    for (auto& m : maps) SIM_CHECK(m.second.owner != i, "mapping-leak", "a mapping of %zu pages is left after destruction", m.second.pages);
}
void warmup() {}
void episode()
{
    static const char* names[] = { "a", "b", "c", "d", "e" };
    const size_t nfiles = 1 + g(5);
    auto content = [] {
        std::string s;
        const size_t n = gc(1, 4) ? 4096 * g(8) + g(9) : logu(GEN, 17);
        const unsigned seed = static_cast<unsigned>(g(251)) + 1;
        s.resize(n);
        for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>((i * 7 + seed + (i >> 8)) & 0xff);
        return s;
    };
    for (size_t i = 0; i < nfiles; ++i) { files[names[i]].bytes = content(); describe("file %s of %zu bytes; ", names[i], files[names[i]].bytes.size()); }
    files["dir"].dir = true;
    fault_den = chance(FAULT, 2, 3) ? 3 + static_cast<unsigned>(choose(FAULT, 20)) : 0;
    active = true;
    // the caller's own descriptors; sometimes standard input is closed
    const size_t std_open = gc(1, 3) ? g(3) : 3;
    for (size_t i = 0; i < std_open; ++i) fds[static_cast<int>(i)] = { "", false, -1, 0 };
    const size_t ops = 3 + g(38);
    int foreign = 0;
    for (size_t k = 0; k < ops; ++k)
    {
        const int i = static_cast<int>(g(3));
        Obj& o = objs[i];
        owner = i;
        failed_open = failed_stat = failed_map = failed_unmap = false;
        const std::string path = gc(1, 6) ? (gc(1, 2) ? "missing" : "dir") : names[g(nfiles)];
        const u64 op = g(10);
        if (!o.a)
        {
            const u64 t = g(4);
            const bool with = g(2);
            describe("f%d = memory_file<%d>(%s); ", i, static_cast<int>(t), with ? path.c_str() : "");
            {
                Lib l;
                const char* p = path.c_str();
                if (t == 0) o.a = with ? new Mf<char>(p) : new Mf<char>;
                else if (t == 1) o.a = with ? new Mf<wchar_t>(p) : new Mf<wchar_t>;
                else if (t == 2) o.a = with ? new Mf<char32_t>(p) : new Mf<char32_t>;
                else o.a = with ? new Mf<char16_t>(p) : new Mf<char16_t>;
            }
            if (with) expect_after_open(i, path);
            else o.shown = false;
        }
        else if (op < 5)
        {
            describe("f%d.open(%s); ", i, path.c_str());
            if (o.shown) nontrivial();
            { Lib l; o.a->open(path.c_str()); }
            expect_after_open(i, path);
        }
        else if (op < 7)
        {
            describe("f%d.close(); ", i);
            if (o.shown) nontrivial();
            { Lib l; o.a->close(); }
            o.shown = false;
            if (gc(1, 3)) { check(i); Lib l; o.a->close(); }
        }
        else if (op == 7)
        {
            describe("delete f%d; ", i);
            if (o.shown) nontrivial();
            { Lib l; delete o.a; }
            o.a = nullptr;
            o.shown = false;
            none_left(i);
        }
        else if (op == 8) { const char* n = names[g(nfiles)]; if (gc(1, 3)) files.erase(n); else files[n].bytes = content(); }
        else
        {
            // the rest of the program opens and closes files of its own
            if (foreign && gc(1, 2))
            {
                for (auto it = fds.begin(); it != fds.end(); ++it) if (it->second.owner == -1) { fds.erase(it); break; }
                --foreign;
            }
            else
            {
                int n = 0;
                while (fds.count(n)) ++n;
                fds[n] = { "", false, -1, 0 };
                ++foreign;
            }
        }
        for (int j = 0; j < 3; ++j) check(j);
    }
    for (int i = 0; i < 3; ++i)
        if (objs[i].a)
        {
            owner = i;
            Lib l;
            delete objs[i].a;
            objs[i].a = nullptr;
            Harness h;
            none_left(i);
        }
    active = false;
}
}
