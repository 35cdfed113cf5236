// PARTS: 5
// P09: damaged, cut short or failing storage under save and load.
#include "ser.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
template<typename RC, typename C, typename id, typename S> struct Test
{
    using Sm = lexertl::basic_state_machine<C, id>;
    using str = std::basic_string<S>;
    std::unique_ptr<Sm> a{ new Sm }, old{ new Sm };
    model::Spec sa, so;

    static str save_ok(const Sm& m)
    {
        simio::OutBuf<S> sink(64);
        std::basic_ostream<S> os(&sink);
        Lib l;
        lexertl::save(m, os);
        Harness h;
        SIM_CHECK(os.good(), "save-failed", "saving to a working stream left it failed");
        return sink.all();
    }
    void saving()
    {
        const str full = save_ok(*a);
        simio::OutBuf<S> sink(chance(FAULT, 1, 2) ? 1 + choose(FAULT, 200) : 0);
        std::basic_ostream<S> os(&sink);
        const bool dry = chance(FAULT, 1, 5);
        const bool alloc = chance(FAULT, 1, 2);
        if (!dry)
        {
            sink.limit = choose(FAULT, 4) ? choose(FAULT, full.size() + 1) : full.size() - 1 - choose(FAULT, std::min<size_t>(full.size(), 4));
            sink.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
            sink.once = chance(FAULT, 1, 4);
            if (chance(FAULT, 1, 3)) os.exceptions(std::ios::badbit | std::ios::failbit);
        }
        describe("save to a sink of %zu, failure %d, allocation failure %d; ", sink.limit, static_cast<int>(sink.fail), alloc);
        if (alloc) arm_alloc_fault(logu(FAULT, 5), chance(FAULT, 1, 3));
        bool threw = false, ba = false;
        try
        {
            Lib l;
            lexertl::save(*a, os);
        }
        catch (const std::bad_alloc&) { threw = ba = true; }
        catch (const std::exception&) { threw = true; }
        const bool hit = alloc && disarm_alloc_fault();
        if (ba && !hit) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
        if (!threw)
            try { os.flush(); } catch (const std::exception&) { threw = true; }
        const bool failed = threw || !os.good();
        const str got = sink.all();
        event("save", got.size(), failed);
        if (!failed)
        {
            SIM_CHECK(got == full, "silent-save", "saving reported no failure but %zu of %zu characters are in the sink%s", got.size(), full.size(),
                got.size() == full.size() ? ", and they differ" : "");
            count("save-complete");
        }
        else
        {
            SIM_CHECK(sink.failures || hit, "spurious-failure", "saving failed without a fault");
            // after a sink that failed once and went on, text may be missing in the middle
            if (!sink.once || !sink.failures)
                SIM_CHECK(got.size() <= full.size() && full.compare(0, got.size(), got) == 0, "save-prefix", "what a failed save wrote is not the beginning of the text");
            count("save-failed");
            nontrivial();
        }
        // what is on storage now is loaded after the crash
        if (gc(1, 2)) loading(got, got == full, got.size() <= last_of(full), full.compare(0, got.size(), got) != 0);
    }
    // where the last number ends; one separator after it is needed
    static size_t last_of(const str& t)
    {
        size_t last = t.size();
        while (last > 0 && (t[last - 1] == S('\n') || t[last - 1] == S(' '))) --last;
        return last;
    }
    enum D { NOTHING, CUT, GARBAGE, DIGIT, MORE };
    void damage()
    {
        str t = save_ok(*a);
        D d = static_cast<D>(g(5));
        const size_t last = last_of(t);
        bool must_fail = false, same = true, any = false;
        switch (d)
        {
        case NOTHING: break;
        case CUT:
        {
            const size_t k = gc(1, 3) ? t.size() - 1 - g(std::min<size_t>(t.size(), 6)) : g(t.size());
            t.resize(k);
            must_fail = k <= last;
            break;
        }
        case GARBAGE:
        {
            const size_t k = gc(1, 3) ? g(std::min<size_t>(t.size(), 40)) : g(t.size());
            static const char bad[] = { 'x', '\0', '.', '\xff', '/', ':', 'e' };
            t[k] = static_cast<S>(bad[g(sizeof bad)]);
            must_fail = k <= last;
            break;
        }
        case DIGIT:
        case MORE:
        {
            // another number: an error or some other machine, but no runaway
            std::vector<size_t> ds;
            for (size_t i = 0; i < t.size() && (ds.size() < 60 || gc(1, 40)); ++i) if (t[i] >= S('0') && t[i] <= S('9')) ds.push_back(i);
            const size_t k = ds[g(ds.size())];
            if (d == DIGIT) t[k] = static_cast<S>('0' + g(10));
            else t.insert(k, 1 + g(9), S('9'));
            any = true;
            break;
        }
        }
        describe("damage %d, now %zu characters; ", static_cast<int>(d), t.size());
        count(d == CUT ? "damage:cut" : d == GARBAGE ? "damage:garbage" : d == NOTHING ? "damage:none" : "damage:number");
        loading(t, same && !must_fail && !any, must_fail, any);
    }
    void loading(const str& t, bool intact, bool must_fail, bool any = false)
    {
        std::unique_ptr<Sm> m(new Sm);
        const bool used = gc(1, 2);
        if (used) { Lib l; *m = *old; }
        Sm before(*m);
        simio::InBuf<S> src(t);
        if (gc(1, 3)) src.chunk = 1 + g(9);
        std::basic_istream<S> is(&src);
        bool io = false;
        if (chance(FAULT, 1, 3))
        {
            src.fail_at = choose(FAULT, t.size() + 1);
            src.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
            src.once = chance(FAULT, 1, 2);
            if (chance(FAULT, 1, 2)) is.exceptions(std::ios::badbit | (chance(FAULT, 1, 2) ? std::ios::failbit : std::ios::goodbit));
            io = true;
        }
        const bool alloc = chance(FAULT, 1, 4);
        if (alloc) arm_alloc_fault(logu(FAULT, 8), chance(FAULT, 1, 3));
        const u64 steps0 = steps();
        set_step_budget(steps0 + 200000 + 400 * t.size());
        set_heap_limit(4096 + 64 * t.size());
        bool threw = false, ba = false;
        try
        {
            Lib l;
            lexertl::load(is, *m);
        }
        catch (const std::bad_alloc&) { threw = ba = true; }
        catch (const std::length_error& e) { violation("unbounded-load", "loading %zu characters asked for an impossible amount of memory: %s", t.size(), e.what()); }
        catch (const std::exception&) { threw = true; }
        const bool hit = alloc && disarm_alloc_fault();
        set_heap_limit(0);
        if (ba && !hit) violation("unbounded-load", "loading %zu characters asked for %llu bytes at once", t.size(), (unsigned long long)heap_peak_request());
        event("load", threw, hit, src.failures);
        if (!threw)
        {
            if (!any)
            {
                SIM_CHECK(!must_fail || intact, "silent-load", "loading a machine that was cut short or damaged reported no error");
                SIM_CHECK(ser::same(*m, *a), "silent-load", "loading reported no error but the machine differs in its %s", ser::diff(*m, *a).c_str());
                ser::tokens_ok<C, id>(sa, *m);
            }
            count("load-succeeded");
        }
        else
        {
            SIM_CHECK(!intact || any || src.failures || hit, "load-rejects", "an intact machine was rejected");
            // the target is what it was
            SIM_CHECK(ser::same(*m, before), "failed-load-changed", "a failed load changed the target's %s", ser::diff(*m, before).c_str());
            if (used) ser::tokens_ok<C, id>(so, *m);
            count("load-failed");
            nontrivial();
            (void)io;
            // and can be loaded again
            if (gc(1, 3))
            {
                simio::InBuf<S> src2(save_ok(*a));
                std::basic_istream<S> is2(&src2);
                try { Lib l; lexertl::load(is2, *m); }
                catch (const std::exception& e) { violation("load-rejects", "after a failed load an intact machine was rejected: %s", e.what()); }
                SIM_CHECK(ser::same(*m, *a), "reload-differs", "a machine loaded after a failed load differs in its %s", ser::diff(*m, *a).c_str());
            }
        }
    }
    // another program's types
    template<typename C2, typename id2> void other(const char* what)
    {
        if (sizeof(C2) == sizeof(C) && sizeof(id2) == sizeof(id)) return;
        simio::InBuf<S> src(save_ok(*a));
        std::basic_istream<S> is(&src);
        lexertl::basic_state_machine<C2, id2> m;
        bool threw = false;
        try { Lib l; lexertl::load(is, m); }
        catch (const lexertl::runtime_error&) { threw = true; }
        SIM_CHECK(threw, "wrong-types", "a machine of %zu byte characters and %zu byte ids was loaded as one of %s", sizeof(C), sizeof(id), what);
        count("wrong-types");
    }
    static void run(model::GenOpt o)
    {
        setup_heap_policy();
        Test t;
        t.sa = ser::machine<RC, C, id>(*t.a, o);
        t.so = ser::machine<RC, C, id>(*t.old, o);
        const size_t n = 1 + g(5);
        for (size_t i = 0; i < n; ++i)
        {
            const u64 k = g(8);
            if (k < 3) t.saving();
            else if (k < 7) t.damage();
            else if (g(2)) t.template other<char, uint8_t>("one byte characters and ids");
            else t.template other<wchar_t, uint16_t>("four byte characters and two byte ids");
        }
    }
};
template<typename RC, typename C, typename id> static void pick(model::GenOpt o)
{
    if (gc(1, 4)) Test<RC, C, id, wchar_t>::run(o);
    else Test<RC, C, id, char>::run(o);
}
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4);
#if PART == 0
DEF(0) { o.max_char = 0xff; pick<char, char, uint16_t>(o); }
const Info info = {
    "P09",
    "saves to sinks that fill up or fail (buffered or not, throwing or not, once or for good) and under failing allocations, loads of what a crash left, "
    "of text cut at any character, with characters overwritten or numbers changed, from streams that fail, and under failing allocations, into fresh and used "
    "machines; non-trivial: a save or load failed",
    "serialise, state_machine, std streams, rules, generator, lookup",
    "stream buffers (pieces, failures); seeded heap with failing allocations and a limit on one request",
    "event history hash",
    "a number overwritten by another number cannot be told from the original: then only bounded work and a valid object are required"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::stringstream ss;
    lexertl::save(sm, ss);
    lexertl::load(ss, sm);
    std::wstringstream ws;
    int x;
    ws << 1 << 'c' << "x" << 3;
    ws >> x;
}
void episode()
{
    model::GenOpt o;
    switch (g(5))
    {
    case 0: part0(o); break;
    case 1: part1(o); break;
    case 2: part2(o); break;
    case 3: part3(o); break;
    default: part4(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; pick<char, char, uint8_t>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; pick<wchar_t, wchar_t, uint32_t>(o); }
#elif PART == 3
DEF(3) { o.max_char = 0x10ffff; pick<char32_t, char32_t, uint16_t>(o); }
#else
DEF(4) { o.max_char = 0xffff; o.narrow_rules = true; pick<char, char16_t, uint64_t>(o); }
#endif
}
