// PARTS: 5
// P08: save / load round trips.
#include "ser.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
template<typename RC, typename C, typename id, typename S> static void go(model::GenOpt o)
{
    using Sm = lexertl::basic_state_machine<C, id>;
    setup_heap_policy();
    const size_t n = 1 + g(3);
    std::vector<std::unique_ptr<Sm>> sms;
    std::vector<model::Spec> specs;
    for (size_t i = 0; i < n; ++i)
    {
        sms.emplace_back(new Sm);
        if (gc(1, 12)) { specs.emplace_back(); describe("machine (never built); "); continue; }
        specs.push_back(ser::machine<RC, C, id>(*sms.back(), o));
        if (gc(1, 12)) { Lib l; sms.back()->clear(); specs.back() = model::Spec(); describe("(cleared) "); }
    }
    simio::OutBuf<S> sink(gc(1, 2) ? g(3) * g(50) : 0);
    std::vector<unsigned> tags;
    {
        std::basic_ostream<S> os(&sink);
        for (size_t i = 0; i < n; ++i)
        {
            tags.push_back(static_cast<unsigned>(g(1000)));
            os << tags[i] << '\n';
            const auto f = simio::Fmt<S>::draw();
            f.set(os);
            if (gc(1, 4)) os.width(static_cast<std::streamsize>(g(9)));
            {
                Lib l;
                lexertl::save(*sms[i], os);
            }
            SIM_CHECK(f.kept(os), "formatting-changed", "saving changed the format of the stream");
            f.clear(os);
        }
        os << 77;
        os.flush();
        SIM_CHECK(os.good(), "save-failed", "saving to a working stream left it failed");
    }
    const std::basic_string<S> bytes = sink.all();
    event("saved", hash_range(bytes.data(), bytes.size()), bytes.size());
    // the same text however the stream takes it
    {
        simio::OutBuf<S> sink2(0);
        std::basic_ostream<S> os(&sink2);
        for (size_t i = 0; i < n; ++i) { os << tags[i] << '\n'; Lib l; lexertl::save(*sms[i], os); }
        os << 77;
        SIM_CHECK(sink2.all() == bytes, "save-differs", "saving the same machines twice gives different text");
    }
    const size_t passes = 1 + g(2);
    std::vector<std::unique_ptr<Sm>> into;
    for (size_t i = 0; i < n; ++i) into.emplace_back(new Sm);
    for (size_t p = 0; p < passes; ++p)
    {
        simio::InBuf<S> src(bytes);
        if (gc(1, 3)) src.chunk = 1 + g(3);
        std::basic_istream<S> is(&src);
        if (gc(1, 4)) is.exceptions(std::ios::badbit | std::ios::failbit);
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; ++i) order[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(order[i], order[i + g(n - i)]);
        for (size_t i = 0; i < n; ++i)
        {
            unsigned tag = 0;
            is >> tag;
            SIM_CHECK(is.good() && tag == tags[i], "position", "after loading %zu machines the stream is not at the next item", i);
            Sm& d = *into[order[i]];
            const auto f = simio::Fmt<S>::draw();
            f.set(is);
            try
            {
                Lib l;
                lexertl::load(is, d);
            }
            catch (const std::exception& e)
            {
                violation("load-rejects", "a saved machine was rejected: %s (machine %zu of %zu, %zu byte characters, %zu byte ids)", e.what(), i, n,
                    sizeof(C), sizeof(id));
            }
            SIM_CHECK(f.kept(is), "formatting-changed", "loading changed the format of the stream");
            f.clear(is);
            if (!ser::same(*sms[i], d))
                violation("round-trip", "the loaded machine differs in its %s (machine %zu of %zu, %zu byte characters, %zu byte ids)",
                    ser::diff(*sms[i], d).c_str(), i, n, sizeof(C), sizeof(id));
            count("loaded");
            if (!sms[i]->empty()) { nontrivial(); ser::tokens_ok<C, id>(specs[i], d); }
            // saved again it is the same text
            if (gc(1, 4))
            {
                simio::OutBuf<S> a, b;
                std::basic_ostream<S> oa(&a), ob(&b);
                Lib l;
                lexertl::save(*sms[i], oa);
                lexertl::save(d, ob);
                Harness h;
                SIM_CHECK(a.all() == b.all(), "save-differs", "a loaded machine saves differently");
            }
        }
        unsigned last = 0;
        is >> last;
        SIM_CHECK(last == 77, "position", "after the last machine the stream is not at the next item");
    }
}
template<typename RC, typename C, typename id> static void pick(model::GenOpt o)
{
    if (gc(1, 3)) go<RC, C, id, wchar_t>(o);
    else go<RC, C, id, char>(o);
}
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4);
#if PART == 0
DEF(0) { o.max_char = 0xff; pick<char, char, uint16_t>(o); }
const Info info = {
    "P08",
    "1-3 machines of random rule sets (also never built, cleared, minimised ones) of one character and id type saved one after the other with other "
    "data in between to a narrow or wide stream taking pieces of seeded size, loaded in pieces of seeded size into fresh and used objects; "
    "non-trivial: a built machine was loaded and compared table by table",
    "serialise, state_machine, std streams, rules, generator, lookup",
    "stream buffers delivering and taking seeded pieces; seeded heap",
    "event history hash of (rule sets, saved text)",
    "the character types of streams are those the standard library supports"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::stringstream ss;
    lexertl::save(sm, ss);
    lexertl::load(ss, sm);
    std::wstringstream ws;
    int x;
    ws << 1 << 'c' << "x" << 3;
    ws >> x;
}
void episode()
{
    model::GenOpt o;
    switch (g(5))
    {
    case 0: part0(o); break;
    case 1: part1(o); break;
    case 2: part2(o); break;
    case 3: part3(o); break;
    default: part4(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; pick<char, char, uint8_t>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; pick<wchar_t, wchar_t, uint32_t>(o); }
#elif PART == 3
DEF(3) { o.max_char = 0x10ffff; pick<char32_t, char32_t, uint16_t>(o); }
#else
DEF(4) { o.max_char = 0xffff; o.narrow_rules = true; pick<char, char16_t, uint64_t>(o); }
#endif
}
