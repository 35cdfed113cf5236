// PARTS: 1
// P05: stream iterators under any history of copies, assignments, advances
// and destructions.
#include <algorithm>
#include <cstring>
#include <lexertl/stream_shared_iterator.hpp>
#include "sim.hpp"
#include "simio.hpp"
#include <optional>
namespace sim
{
const Info info = {
    "P05",
    "5-80 random operations (create, copy, assign, advance, post-advance, read, compare, destroy) over up to 8 iterators of 1-2 streams of "
    "0-200 characters with random buffer size, increment and piece sizes, with failing reads and allocations in half of the runs; "
    "non-trivial: two or more iterators of one stream at different positions and the buffer refilled",
    "stream_shared_iterator, std::basic_istream",
    "stream buffer delivering seeded pieces; seeded heap with failing allocations",
    "event history hash",
    "iterators of different streams are not compared"
};
template<typename C> struct Test
{
    using It = lexertl::basic_stream_shared_iterator<C>;
    struct Stream
    {
        std::basic_string<C> text;
        simio::InBuf<C>* buf;
        std::basic_istream<C>* is;
        bool master_made = false;
        size_t furthest = 0;    // the furthest position an iterator has been at
        size_t n = 0;           // length as far as the iterators may see it
        bool cut = false;
    };
    enum K { DEFAULT, MASTER, AT, END };
    struct Ent
    {
        It* it = nullptr;
        K k = DEFAULT;
        int s = -1;
        size_t p = 0;
        size_t n_ops = 0;
    };
    std::vector<Stream> ss;
    std::vector<Ent> es;
    bool faults = false;

    static C at(size_t i) { return sizeof(C) == 1 ? static_cast<C>(1 + i % 251) : static_cast<C>(0x100 + i); }
    // the lowest position held by a live iterator, or -1
    long lowest(int s)
    {
        long r = -1;
        for (auto& e : es) if (e.it && e.k == AT && e.s == s && (r < 0 || static_cast<long>(e.p) < r)) r = static_cast<long>(e.p);
        return r;
    }
    // Where a copy of a never-advanced iterator begins.
    void born(Ent& d)
    {
        const long low = lowest(d.s);
        It* it = d.it;
        const It end;
        bool e;
        { Lib l; e = *it == end; }
        Stream& s = ss[d.s];
        if (low >= 0)
        {
            SIM_CHECK(!e, "copy-ended", "a copy of the first iterator is at the end while another is at %ld of %zu", low, s.n);
            d.k = AT;
            d.p = static_cast<size_t>(low);
            return;
        }
        if (e)
        {
            SIM_CHECK(s.furthest >= s.n, "copy-ended", "the first iterator of a stream of %zu characters (reached %zu) equals the end", s.n, s.furthest);
            d.k = END;
            return;
        }
        C c;
        { Lib l; c = **it; }
        // unknown position: any already held one showing this character
        size_t p = 0;
        while (p < s.n && at(p) != c) ++p;
        SIM_CHECK(p < s.n && p <= s.furthest, "copy-position", "the first iterator shows a character that is not one of the %zu already reached", s.furthest);
        d.k = AT;
        d.p = p;
        if (p > s.furthest) s.furthest = p;
    }
    void verify(Ent& e)
    {
        if (!e.it || e.k != AT) return;
        C c;
        { Lib l; c = **e.it; }
        SIM_CHECK(c == at(e.p), "wrong-character", "an iterator at %zu reads character %zu", e.p,
            sizeof(C) == 1 ? static_cast<size_t>(static_cast<unsigned char>(c)) - 1 : static_cast<size_t>(c) - 0x100);
    }
    void compare(Ent& a, Ent& b)
    {
        if (!a.it || !b.it) return;
        if (a.s != b.s && a.s >= 0 && b.s >= 0) return;
        if (a.k == MASTER || b.k == MASTER)
        {
            if (&a == &b) return;
            Ent& m = a.k == MASTER ? a : b;
            Ent& o = a.k == MASTER ? b : a;
            if (o.k == MASTER) return;
            bool eq;
            { Lib l; eq = *a.it == *b.it; }
            const long low = lowest(m.s);
            if (o.k == AT)
            {
                // it starts at the oldest position held
                SIM_CHECK(eq == (static_cast<long>(o.p) == low), "master-equality", "the first iterator %s one at %zu, the oldest held is %ld",
                    eq ? "equals" : "differs from", o.p, low);
            }
            else if (low >= 0 || (ss[m.s].furthest < ss[m.s].n && !ss[m.s].buf->failures))
                SIM_CHECK(!eq, "master-at-end", "the first iterator equals the end though the stream has %zu characters", ss[m.s].n);
            return;
        }
        bool eq, ne;
        { Lib l; eq = *a.it == *b.it; ne = *a.it != *b.it; }
        SIM_CHECK(eq != ne, "equality", "== and != agree");
        const bool ea = a.k != AT, eb = b.k != AT;
        const bool want = ea || eb ? ea == eb : a.p == b.p;
        SIM_CHECK(eq == want, "equality", "iterators at %s%zu and %s%zu compare %s", ea ? "end " : "", a.p, eb ? "end " : "", b.p, eq ? "equal" : "unequal");
    }
    // op with a possible allocation failure; true when it took place
    template<typename F> bool attempt(F f)
    {
        const bool arm = faults && chance(FAULT, 1, 6);
        if (arm) arm_alloc_fault(logu(FAULT, 1), false);
        bool ok = true;
        try { Lib l; f(); }
        catch (const std::bad_alloc&)
        {
            ok = false;
            if (!arm) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
            count("op-failed");
        }
        if (arm) disarm_alloc_fault();
        return ok;
    }
    void run()
    {
        setup_heap_policy();
        const u64 mark = heap_mark();
        faults = chance(FAULT, 1, 2);
        const size_t ns = 1 + g(3) / 2;
        ss.resize(ns);
        for (auto& s : ss)
        {
            s.n = logu(GEN, sizeof(C) == 1 ? 7 : 8);
            for (size_t i = 0; i < s.n; ++i) s.text.push_back(at(i));
            s.buf = new simio::InBuf<C>(s.text);
            if (gc(1, 4)) s.buf->chunk = 1 + g(5);
            s.is = new std::basic_istream<C>(s.buf);
            if (faults && chance(FAULT, 1, 2) && s.n)
            {
                s.buf->fail_at = choose(FAULT, s.n + 1);
                s.buf->fail = chance(FAULT, 1, 2) ? simio::EARLY_EOF : simio::THROW;
                if (chance(FAULT, 1, 2)) s.is->exceptions(std::ios::badbit);
                // whatever was being read when an exception hit is lost,
                // so only what is known to have arrived is required
                s.cut = true;
            }
            describe("stream of %zu chars, chunk %zu, fail %d at %zu; ", s.n, s.buf->chunk, static_cast<int>(s.buf->fail), s.buf->fail_at);
        }
        es.resize(2 + g(7));
        const size_t ops = 5 + g(76);
        bool spread = false;
        for (size_t o = 0; o < ops; ++o)
        {
            Ent& e = es[g(es.size())];
            Ent& f = es[g(es.size())];
            const u64 op = g(16);
            if (!e.it)
            {
                std::vector<int> fresh;
                for (size_t i = 0; i < ss.size(); ++i) if (!ss[i].master_made) fresh.push_back(static_cast<int>(i));
                if (!fresh.empty() && op < 12)
                {
                    const int si = fresh[g(fresh.size())];
                    Stream& s = ss[si];
                    const size_t bs = gc(1, 4) ? g(3) : 1 + logu(GEN, 6), inc = gc(1, 4) ? g(3) : 1 + logu(GEN, 5);
                    describe("e%zu = create(stream %d, %zu, %zu); ", static_cast<size_t>(&e - es.data()), si, bs, inc);
                    s.master_made = true;
                    bool thrown = false;
                    try { if (!attempt([&] { e.it = new It(*s.is, bs, inc); })) { e.it = nullptr; thrown = true; } }
                    catch (const simio::IoError&) { thrown = true; e.it = nullptr; }
                    if (thrown) continue;
                    e.k = MASTER;
                    e.s = si;
                    event("create", si, bs, inc);
                }
                else if (f.it)
                {
                    describe("e%zu(e%zu); ", static_cast<size_t>(&e - es.data()), static_cast<size_t>(&f - es.data()));
                    if (!attempt([&] { e.it = new It(*f.it); })) { e.it = nullptr; continue; }
                    e.k = f.k; e.s = f.s; e.p = f.p;
                    if (f.k == MASTER) born_or_cut(e);
                    event("copy", e.k, e.p);
                }
                else if (op == 15)
                {
                    Lib l;
                    e.it = new It;
                    e.k = DEFAULT;
                    e.s = -1;
                }
                continue;
            }
            if (op < 7)
            {
                if (e.k == END || e.k == DEFAULT) { if (gc(1, 2)) destroy(e); continue; }
                Ent before = { e.it, e.k, e.s, e.p, 0 };
                if (e.k == MASTER) { Stream& s = ss[e.s]; if (at_end(e)) { end_check(e, s); continue; } resolve(e); }
                const size_t reps = gc(1, 4) ? 1 + g(20) : 1;
                for (size_t r = 0; r < reps && e.k == AT; ++r) advance(e, op == 6);
                describe("++e%zu -> %s%zu; ", static_cast<size_t>(&e - es.data()), e.k == END ? "end " : "", e.p);
                (void)before;
            }
            else if (op < 10)
            {
                if (!f.it || &e == &f) continue;
                describe("e%zu = e%zu; ", static_cast<size_t>(&e - es.data()), static_cast<size_t>(&f - es.data()));
                const Ent old = { e.it, e.k, e.s, e.p, 0 };
                (void)old;
                // what the model needs to know before e lets go of its place
                if (f.k == MASTER)
                {
                    const long low = lowest(f.s);
                    if (!attempt([&] { *e.it = *f.it; })) continue;
                    e.s = f.s;
                    if (low >= 0) { e.k = AT; e.p = static_cast<size_t>(low); }
                    else { e.k = DEFAULT; born_or_cut(e); }
                }
                else
                {
                    if (!attempt([&] { *e.it = *f.it; })) continue;
                    e.k = f.k; e.s = f.s; e.p = f.p;
                }
                event("assign", e.k, e.p);
            }
            else if (op < 12) compare(e, f);
            else if (op == 12 && gc(1, 2)) destroy(e);
            else if (op == 13 && e.k == MASTER) { if (!at_end(e)) resolve(e); }
            for (auto& x : es) verify(x);
            if (ss[0].buf->reads > 1)
                for (auto& x : es) for (auto& y : es) if (x.it && y.it && x.k == AT && y.k == AT && x.s == y.s && x.p != y.p) spread = true;
        }
        for (auto& x : es) verify(x);
        for (auto& x : es) for (auto& y : es) compare(x, y);
        while (true)
        {
            std::vector<Ent*> left;
            for (auto& x : es) if (x.it) left.push_back(&x);
            if (left.empty()) break;
            destroy(*left[g(left.size())]);
            for (auto& x : es) verify(x);
        }
        for (auto& s : ss) { delete s.is; delete s.buf; }
        std::string what;
        if (leaked(what, mark)) violation("leak", "memory still held after the last iterator is gone: %s", what.c_str());
        if (spread) nontrivial();
    }
    bool at_end(Ent& e)
    {
        const It end;
        Lib l;
        return *e.it == end;
    }
    void end_check(Ent& e, Stream& s)
    {
        if (s.cut) { s.n = std::min(s.n, seen(s)); }
        SIM_CHECK(lowest(e.s) < 0 && s.furthest >= s.n, "master-at-end", "the first iterator of a stream of %zu characters equals the end", s.n);
        (void)e;
    }
    // with a failing stream: how much of it may be missing
    size_t seen(Stream& s) { return s.buf->failures ? s.furthest : s.n; }
    void born_or_cut(Ent& e)
    {
        Stream& s = ss[e.s];
        if (s.cut && s.buf->failures && lowest_other(e) < 0)
        {
            // the stream failed: nothing may have arrived
            if (at_end(e)) { e.k = END; return; }
        }
        e.k = DEFAULT;
        born(e);
    }
    long lowest_other(Ent& e) { const K k = e.k; e.k = DEFAULT; const long r = lowest(e.s); e.k = k; return r; }
    void resolve(Ent& e)
    {
        // reading fixes the position of a never-advanced iterator
        const long low = lowest(e.s);
        C c;
        { Lib l; c = **e.it; }
        if (low >= 0) { e.k = AT; e.p = static_cast<size_t>(low); verify(e); return; }
        e.k = DEFAULT;
        born(e);
        (void)c;
    }
    void advance(Ent& e, bool post)
    {
        Stream& s = ss[e.s];
        bool threw = false;
        const size_t old_p = e.p;
        const bool arm = faults && chance(FAULT, 1, 12);
        if (arm) arm_alloc_fault(logu(FAULT, 1), false);
        try
        {
            Lib l;
            if (post)
            {
                It r = (*e.it)++;
                if (r == It()) { Harness h; violation("post-advance", "post-increment returned the end"); }
                C c = *r;
                Harness h;
                SIM_CHECK(c == at(old_p), "post-advance", "post-increment returned an iterator to another character");
            }
            else ++*e.it;
        }
        catch (const std::bad_alloc&) { threw = true; if (!arm) violation("spurious-bad-alloc", "bad_alloc without an injected failure"); }
        catch (const simio::IoError&) { threw = true; }
        catch (const std::ios_base::failure&) { threw = true; if (!s.buf->failures) violation("spurious-failure", "a stream failure without an injected one"); }
        if (arm) disarm_alloc_fault();
        if (threw)
        {
            count("advance-failed");
            // the iterator stays where it was
            if (at_end(e)) violation("failed-advance-moved", "an iterator whose advance threw is at the end");
            verify(e);
            if (chance(FAULT, 1, 4)) destroy(e);
            return;
        }
        ++e.p;
        const bool end = at_end(e);
        if (e.p >= s.n || end)
        {
            if (e.p < s.n)
            {
                SIM_CHECK(s.cut && s.buf->failures, "ends-early", "a stream of %zu characters ended at %zu", s.n, e.p);
                // A failed read may lose characters; from now on this is its end.
                SIM_CHECK(s.furthest <= e.p, "ends-early", "a character that had been read before (%zu) is missing at %zu", s.furthest, e.p);
                s.n = e.p;
            }
            SIM_CHECK(end, "runs-on", "an iterator %zu characters into a stream of %zu is not at the end", e.p, s.n);
            e.k = END;
            if (s.furthest < s.n) s.furthest = s.n;
        }
        else if (e.p > s.furthest) s.furthest = e.p;
        event("advance", e.k, e.p);
    }
    void destroy(Ent& e)
    {
        Lib l;
        delete e.it;
        e.it = nullptr;
        e.k = DEFAULT;
        e.s = -1;
    }
};
void warmup()
{
    std::istream is(nullptr);
    std::wistream ws(nullptr);
}
void episode()
{
    switch (g(4))
    {
    case 0: case 1: { Test<char> t; t.run(); break; }
    case 2: { Test<wchar_t> t; t.run(); break; }
    default: { Test<char32_t> t; t.run(); break; }
    }
}
}
