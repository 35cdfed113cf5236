// PARTS: 4
#include "slex.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; slex::go<char, char, uint16_t, true>(o); }
const Info info = { "P06",
    "as P04, with one failure of the stream (early end or an error, thrown or not, cleared or not) at a seeded position and failing allocations "
    "in iterators and lookups; non-trivial: three or more tokens of a text whose stream failed",
    "stream_shared_iterator, lookup, match_results, rules, generator, std::basic_istream",
    "stream buffer delivering seeded pieces and failing; seeded heap with failing allocations",
    "event history hash of (rule set, text, tokens, failures)",
    "characters the standard library drops inside a read() that throws are not part of the text that arrived"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::istream is(nullptr);
    std::wistream ws(nullptr);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
}
void episode()
{
    model::GenOpt o;
    switch (g(6))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; slex::go<char, char, uint8_t, true>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; slex::go<wchar_t, wchar_t, uint16_t, true>(o); }
#else
DEF(3) { o.max_char = 0x10ffff; o.narrow_rules = true; slex::go<char, char32_t, uint32_t, true>(o); }
#endif
}
