// PARTS: 4
#include "slex.hpp"
#include <optional>
#ifndef PART
#define PART 0
#endif
namespace sim
{
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; slex::go<char, char, uint16_t, false>(o); }
const Info info = { "P04",
    "a random rule set (1-3 lexer states; one run in 200 a text of 60000 to 160000 characters with two rules), 1-4 texts of up to 250 characters lexed through stream iterators with buffer and increment of 0-64, "
    "pieces of seeded size, up to three readers of one stream forked, assigned and rewound, earlier tokens' text re-read later; "
    "non-trivial: three or more tokens of a stream that took more than one read",
    "stream_shared_iterator, lookup, match_results, iterator, rules, generator, std::basic_istream",
    "stream buffer delivering seeded pieces; seeded heap",
    "event history hash of (rule set, text, tokens)",
    "non-greedy operators are outside the reference"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::istream is(nullptr);
    std::wistream ws(nullptr);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
}
// Texts and tokens past 64 K characters
static void long_text()
{
    setup_heap_policy();
    const size_t n = 60000 + g(100000);
    std::string text(n, 0);
    const u64 key = g(1u << 20);
    for (size_t i = 0; i < n; ++i) text[i] = static_cast<char>('a' + (mix(key, i) % 26));
    const size_t breaks = g(5);
    for (size_t i = 0; i < breaks; ++i) text[g(n)] = '\n';
    slex::Buf<char> buf(text);
    buf.chunk = 1 + logu(GEN, 17);
    std::istream is(&buf);
    const size_t bs = 1 + logu(GEN, 17), inc = 1024 + logu(GEN, 17);
    const bool hold = gc(1, 2);
    describe("%zu characters with %zu line ends, buffer %zu increment %zu chunk %zu hold %d; ", n, breaks, bs, inc, buf.chunk, hold);
    const u64 mark = heap_mark();
    {
        using It = lexertl::stream_shared_iterator;
        std::optional<Lib> l(std::in_place);
        lexertl::rules r;
        lexertl::state_machine sm;
        r.push("[a-z]+", 1);
        r.push("\\n", 2);
        lexertl::generator::build(r, sm);
        lexertl::match_results<It> res(It(is, bs, inc), It());
        It first;
        for (size_t at = 0, k = 0;; ++k)
        {
            lexertl::lookup(sm, res);
            if (!k && hold) first = res.first;
            size_t to = text.find('\n', at);
            if (to == text.npos) to = n;
            if (to == at && at < n) to = at + 1;
            const uint16_t want = at == n ? 0 : text[at] == '\n' ? 2 : 1;
            const std::string got = want ? res.str() : std::string();
            const uint16_t id = res.id;
            l.reset();
            SIM_CHECK(id == want && (!want || text.compare(at, to - at, got) == 0), "long-text",
                "at %zu: id %d and %zu characters%s, reference id %d and %zu", at, static_cast<int>(id), got.size(),
                got.size() == to - at ? ", but others" : "", static_cast<int>(want), to - at);
            event("long", id, got.size(), at);
            count("tokens");
            l.emplace();
            if (!want) break;
            at = to;
        }
        if (hold)
        {
            for (size_t i = 0; i < n; ++i, ++first)
            {
                const char c = *first;
                l.reset();
                SIM_CHECK(c == text[i], "long-held", "the first token's text, read later, differs at %zu", i);
                l.emplace();
            }
            if (!(first == It())) { l.reset(); violation("long-held", "an iterator moved over the whole text is not at the end"); }
        }
    }
    std::string what;
    if (leaked(what, mark)) violation("leak", "memory still held after the last iterator is gone: %s", what.c_str());
    if (buf.reads > 1) nontrivial();
}
void episode()
{
    model::GenOpt o;
    if (gc(1, 200)) return long_text();
    switch (g(6))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; slex::go<char, char, uint8_t, false>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; slex::go<wchar_t, wchar_t, uint16_t, false>(o); }
#else
DEF(3) { o.max_char = 0x10ffff; o.narrow_rules = true; slex::go<char, char32_t, uint32_t, false>(o); }
#endif
}
