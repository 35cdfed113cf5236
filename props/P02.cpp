// PARTS: 4
// P02: lexer states, push/pop stack, skip and again rules equal the
// pushdown reference machine.
#include "lib.hpp"
#include "simiter.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
template<typename RC, typename C, typename id> struct Run
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;

    static constexpr size_t all = 1 | 2 | 4 | 8 | 16 | 64;
    template<typename It> static auto results(std::true_type) -> lexertl::recursive_match_results<It, id, all | 32>;
    template<typename It> static auto results(std::false_type) -> lexertl::match_results<It, id, all>;

    template<bool rec> static void inputs(const model::Spec& s, const Sm& sm, bool faults)
    {
        const size_t n = 1 + g(3);
        for (size_t i = 0; i < n; ++i)
        {
            const bridge::u32str in = model::gen_input(s, 4 + g(40));
            const std::basic_string<C> text = bridge::conv<C>(in);
            describe("input \"%s\"; ", model::show(in).c_str());
            model::State st;
            st.bol = !gc(1, 8);
            if (s.st.size() > 1 && gc(1, 6)) st.state = static_cast<int>(g(s.st.size()));
            if (gc(1, 2))
            {
                using It = simit::Iter<C>;
                simit::Source<C> src;
                src.b = text.data();
                src.n = text.size();
                scan<decltype(results<It>(std::integral_constant<bool, rec>()))>(s, sm, in, It(&src, 0), It(&src, text.size()), st, &src, faults);
            }
            else
            {
                const C* b = text.data();
                scan<decltype(results<const C*>(std::integral_constant<bool, rec>()))>(s, sm, in, b, b + text.size(), st, nullptr, faults);
            }
            if (gc(1, 4))
            {
                model::State z;
                z.bol = !gc(1, 8);
                const size_t f = bridge::pick_features(s);
                if (s.st.size() == 1 && !(f & 48)) bridge::some_features<1 | 64, 2 | 4 | 8, C>(f, s, sm, in, text, z);
                else bridge::some_features<1 | 2 | 64, 4 | 8 | 16 | (rec ? 32 : 0), C>(f, s, sm, in, text, z);
            }
            if (gc(1, 3)) iterators<decltype(results<simit::Iter<C>>(std::integral_constant<bool, rec>()))>(s, sm, in, text, faults);
        }
    }
    template<typename Res, typename It> static void scan(const model::Spec& s, const Sm& sm, const bridge::u32str& in, It b, It e,
        model::State st, simit::Source<C>* src, bool faults)
    {
        Res res(b, e, st.bol, static_cast<id>(st.state));
        for (size_t k = 0; k < 400; ++k)
        {
            const model::Tok got = bridge::one_interrupted(s, sm, res, b, in, st, src, faults ? 3 : 0);
            if (got.underflow) count("stack-underflow");
            if (got.state) nontrivial();
            if (got.depth) count("pushed");
            if (got.underflow || got.id == 0) break;
            switch (g(12))
            {
            case 11:
            {
                // carry on with a copy; what happens to the original
                // must not matter
                Lib l;
                Res copy(res);
                res.clear();
                res = copy;
                break;
            }
            case 10:
            {
                Lib l;
                Res other(b, e);
                other = res;
                res.reset(e, e);
                std::swap(res, other);
                break;
            }
            default: break;
            }
        }
        if (gc(1, 3))
        {
            // start over with the same object, sometimes on a part of the text
            size_t from = 0, to = in.size();
            if (gc(1, 2))
            {
                from = g(in.size() + 1);
                to = from + g(in.size() - from + 1);
            }
            It b1 = b, e1 = b;
            for (size_t k = 0; k < from; ++k) ++b1;
            for (size_t k = 0; k < to; ++k) ++e1;
            const bridge::u32str part = in.substr(from, to - from);
            model::State z;
            if (gc(1, 2))
            {
                { Lib l; res.clear(); }
                model::State none;
                SIM_CHECK(res.id == 0 && res.user_id == Res::npos() && res.first == res.eoi && res.second == res.eoi && res.bol && !res.state &&
                    bridge::stack_is(res, none), "cleared", "cleared results are not at the end of input with nothing else in them; input \"%s\"; rules: %s",
                    model::show(in).c_str(), model::describe(s).c_str());
                if (gc(1, 3))
                {
                    Lib l;
                    lexertl::lookup(sm, res);
                    SIM_CHECK(res.id == 0 && res.first == res.eoi && res.second == res.eoi, "cleared", "a lookup with cleared results gave a token");
                }
            }
            { Lib l; res.reset(b1, e1); }
            if (src) src->n = to;
            for (size_t k = 0; k < 40; ++k)
            {
                const model::Tok got = bridge::one_interrupted(s, sm, res, b1, part, z, src, 0);
                if (got.underflow || got.id == 0) break;
            }
        }
    }
    // lexertl::iterator: copies advance independently
    template<typename Res> static void iterators(const model::Spec& s, const Sm& sm, const bridge::u32str& in,
        const std::basic_string<C>& text, bool faults)
    {
        using In = simit::Iter<C>;
        using It = lexertl::iterator<In, Sm, Res>;
        simit::Source<C> src;
        src.b = text.data();
        src.n = text.size();
        const In b(&src, 0), e(&src, text.size());
        // An operation that fails is repeated; the position is unchanged or
        // past tokens that do not show, so the next try ends where the
        // undisturbed one does.  Not with tokens that go on ('again'): one
        // interrupted between its parts starts at the next part.
        if (bridge::needed_features(s) & 8) faults = false;
        auto insist = [&](auto f) {
            for (unsigned t = 0;; ++t)
            {
                if (faults && t < 3 && chance(FAULT, 1, 4)) src.fail_at = src.ops + logu(FAULT, 5);
                try
                {
                    Lib l;
                    f();
                    src.fail_at = ~0ull;
                    return t;
                }
                catch (const simit::IoError&)
                {
                    src.fail_at = ~0ull;
                    count("iterator-interrupted");
                }
            }
        };
        const std::vector<model::Tok> want = model::tokens(s, in, model::State(), 400);
        for (auto& t : want) if (t.underflow) return;
        size_t exp = 0;
        while (exp < want.size() && want[exp].first != in.size()) ++exp;
        if (want.size() == 400 && exp == 400) return;
        struct Cur { It it; size_t at; };
        std::vector<Cur> cs;
        {
            Lib l;
            cs.push_back({ It(), 0 });
        }
        insist([&] { cs[0].it = It(b, e, sm); });
        const It end;
        for (size_t ops = 0; ops < 60; ++ops)
        {
            const size_t i = g(cs.size());
            Cur& c = cs[i];
            const bool at_end = c.it == end;
            SIM_CHECK(at_end == (c.at >= exp), "iterator-end", "an iterator after %zu tokens %s the end; the reference has %zu; input \"%s\"; rules: %s",
                c.at, at_end ? "is at" : "is not at", exp, model::show(in).c_str(), model::describe(s).c_str());
            if (!at_end)
            {
                const model::Tok& w = want[c.at];
                SIM_CHECK(c.it->id == w.id && c.it->first.p == w.first && c.it->second.p == w.second && c.it->user_id == w.uid &&
                    static_cast<int>(c.it->state) == w.state && bridge::depth_of(*c.it) == w.depth, "iterator-token",
                    "an iterator copy shows another token at %zu; input \"%s\"; rules: %s", c.at, model::show(in).c_str(), model::describe(s).c_str());
            }
            const u64 op = g(4);
            if (op == 0 && cs.size() < 5) { Lib l; Cur n = c; cs.push_back(n); }
            else if (op == 1 && cs.size() > 1) { Lib l; const size_t j = g(cs.size()); if (i != j) { Cur n = cs[j]; cs[i] = n; } }
            else if (cs.size() > 1 && op == 3 && gc(1, 3))
            {
                // equal at the same token and nowhere else
                const Cur& o = cs[g(cs.size())];
                const bool same = o.at == c.at || (o.at >= exp && c.at >= exp);
                SIM_CHECK((o.it == c.it) == same && (o.it != c.it) != same, "iterator-equality",
                    "iterators after %zu and %zu tokens compare %s; input \"%s\"; rules: %s", o.at, c.at, same ? "unequal" : "equal",
                    model::show(in).c_str(), model::describe(s).c_str());
            }
            else if (!at_end)
            {
                if (op == 2)
                {
                    size_t first = 0;
                    const unsigned tries = insist([&] { It old = c.it++; first = old->first.p; });
                    SIM_CHECK(tries || first == want[c.at].first, "iterator-postinc", "post-increment returned another position");
                }
                else insist([&] { ++c.it; });
                ++c.at;
            }
        }
    }
    static void go(model::GenOpt o)
    {
        o.npos = static_cast<id>(~0);
        o.max_states = 5;
        o.recursive = true;
        o.max_rules = static_cast<int>(gr(2, 5));
        o.depth = 2;
        o.max_macros = 1;
        model::Gen gen;
        gen.o = o;
        const model::Spec s = gen.make();
        setup_heap_policy();
        describe("%s; ", model::describe(s).c_str());
        event_str("rules", model::describe(s));
        const bool faults = chance(FAULT, 1, 2);
        Sm sm;
        bridge::make_machine<Rules>(s, sm, faults);
        if (s.recursive) inputs<true>(s, sm, faults);
        else inputs<false>(s, sm, faults);
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; Run<char, char, uint16_t>::go(o); }
const Info info = {
    "P02",
    "a random rule set over 1-5 lexer states with next-state, push, pop, skip and again rules, 1-3 inputs built from members of "
    "its language, results objects copied, swapped and reset in mid-run, iterator copies advanced in random order; half of the runs "
    "interrupt rule calls, builds and lookups (state changes, pushes) with allocation failures and read errors and repeat them; non-trivial: the run left state 0",
    "rules, generator, lookup, match_results, recursive_match_results, iterator",
    "heap: seeded arena with adversarial address order and fill, failing allocations; input iterator with read errors",
    "event history hash of (rule set, input, tokens)",
    "non-greedy operators are outside the reference;rule sets where '$' meets rules consuming line ends at the same place are not generated"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    try { r.push("(", 1); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(6))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Run<char, char, uint8_t>::go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Run<wchar_t, wchar_t, uint16_t>::go(o); }
#else
DEF(3) { o.max_char = 0xffff; o.narrow_rules = true; Run<char, char16_t, uint32_t>::go(o); }
#endif
}
