// PARTS: 6
// P01: tokenisation equals the longest-match / first-rule reference.
#include "lib.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
static const size_t all = 1 | 2 | 4 | 8 | 16 | 64;
template<typename RC, typename C, typename id>
static void go(model::GenOpt o)
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    o.npos = static_cast<id>(~0);
    model::Gen gen;
    gen.o = o;
    const model::Spec s = gen.make();
    setup_heap_policy();
    describe("%s; ", model::describe(s).c_str());
    event_str("rules", model::describe(s));
    const bool faults = chance(FAULT, 1, 2);
    Sm sm;
    bridge::make_machine<Rules>(s, sm, faults);
    const size_t inputs = 1 + g(4);
    for (size_t i = 0; i < inputs; ++i)
    {
        const bridge::u32str in = model::gen_input(s, 1 + g(24));
        const std::basic_string<C> text = bridge::conv<C>(in);
        describe("input \"%s\"; ", model::show(in).c_str());
        model::State st;
        st.bol = !gc(1, 6);
        const bool bol = st.bol;
        size_t n = 0;
        auto run = [&](auto& res, const auto& b, simit::Source<C>* src) {
            for (; n < 400; ++n)
                if (bridge::one_interrupted(s, sm, res, b, in, st, src, faults ? 3 : 0).id == 0) break;
        };
        if (gc(1, 2))
        {
            simit::Source<C> src;
            src.b = text.data();
            src.n = text.size();
            using It = simit::Iter<C>;
            lexertl::match_results<It, id, all> res(It(&src, 0), It(&src, text.size()), st.bol);
            run(res, It(&src, 0), &src);
        }
        else
        {
            const C* b = text.data();
            lexertl::match_results<const C*, id, all> res(b, b + text.size(), st.bol);
            run(res, b, nullptr);
        }
        if (n >= 3) nontrivial();
        count("tokens", n);
        if (gc(1, 4))
        {
            // the same through a results type with only the features needed
            model::State z;
            z.bol = bol;
            const size_t f = bridge::pick_features(s);
            if (f & 4) bridge::some_features<1 | 2 | 64, 4 | 8, C>(f, s, sm, in, text, z);
            else bridge::some_features<1 | 2 | 64, 0, C>(f, s, sm, in, text, z);
        }
        if (bol && gc(1, 3))
        {
            // the same through lexertl::iterator
            using Iter = typename std::basic_string<C>::const_iterator;
            using It = lexertl::iterator<Iter, Sm, lexertl::match_results<Iter, id, all>>;
            const std::vector<model::Tok> want = model::tokens(s, in, model::State(), 400);
            It it, end;
            size_t k = 0;
            Lib l;
            for (it = It(text.cbegin(), text.cend(), sm); it != end; ++it, ++k)
            {
                Harness h;
                if (k >= want.size() || it->id != want[k].id || static_cast<size_t>(it->first - text.cbegin()) != want[k].first ||
                    static_cast<size_t>(it->second - text.cbegin()) != want[k].second || it->user_id != want[k].uid)
                    violation("iterator-differs", "lexertl::iterator gives another token at %zu of \"%s\"; rules: %s", k,
                        model::show(in).c_str(), model::describe(s).c_str());
                const auto expect = text.substr(want[k].first, want[k].second - want[k].first);
                const size_t o1 = g(expect.size() + 1), o2 = g(expect.size() - o1 + 1);
                if (it->str() != expect || it->length() != expect.size() || it->substr(o1, o2) != expect.substr(o1, expect.size() - o1 - o2))
                    violation("iterator-text", "the text of token %zu is not the matched text; input \"%s\"", k, model::show(in).c_str());
                if (!expect.empty() && it->view() != expect)
                    violation("iterator-text", "view() of token %zu is not the matched text; input \"%s\"", k, model::show(in).c_str());
                if (k > 400) break;
            }
            Harness h;
            // The iterator ends at the first token with first == eoi.
            size_t exp = 0;
            while (exp < want.size() && want[exp].first != in.size()) ++exp;
            SIM_CHECK(k == exp || want.size() == 400, "iterator-count", "lexertl::iterator gave %zu tokens, reference %zu, input \"%s\"; rules: %s", k, exp,
                model::show(in).c_str(), model::describe(s).c_str());
        }
    }
}
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4); DEF(5);
#if PART == 0
DEF(0) { o.max_char = 0xff; o.locale = true; go<char, char, uint16_t>(o); }
const Info info = {
    "P01",
    "a random rule set (regex features, macros, flags, anchors, one lexer state) and 1-4 inputs built from members of its language; "
    "half of the runs interrupt rule calls, builds and lookups with allocation failures and read errors and repeat them; "
    "non-trivial: three or more tokens of one input were compared",
    "rules, regex tokeniser, parser, charset partitioning, DFA construction, lookup, match_results, iterator",
    "heap: seeded arena with adversarial address order and fill, failing allocations; input iterator with read errors",
    "event history hash of (rule set, input, tokens, interruptions)",
    "non-greedy (abstemious) operators are outside the reference;"
    "rule sets where '$' meets rules consuming line ends at the same place are pruned by the generator by design and not generated;"
    "with case folding and wide characters only characters whose case pairs the reference knows are used"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    try { r.push("(", 1); } catch (const std::exception&) {}
}

void episode()
{
    model::GenOpt o;
    o.max_rules = static_cast<int>(gr(1, 7));
    o.again = false;
    switch (g(8))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    case 5: part3(o); break;
    case 6: part4(o); break;
    default: part5(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; o.locale = true; go<char, char, uint8_t>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; o.unicode = gc(1, 3); go<wchar_t, wchar_t, uint16_t>(o); }
#elif PART == 3
DEF(3) { o.max_char = 0x10ffff; o.unicode = gc(1, 3); go<char32_t, char32_t, uint32_t>(o); }
#elif PART == 4
DEF(4) { o.max_char = 0xffff; o.narrow_rules = true; go<char, char16_t, uint16_t>(o); }
#else
DEF(5) { o.max_char = 0x10ffff; o.unicode = gc(1, 3); o.narrow_rules = true; go<char, char32_t, uint16_t>(o); }
#endif
}
