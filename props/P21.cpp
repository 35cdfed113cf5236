// PARTS: 5
// P21: abstemious operators take the shortest text, greedy ones the longest.
#include "ser.hpp"
#include <lexertl/stream_shared_iterator.hpp>
#ifndef PART
#define PART 0
#endif
namespace sim
{
static const size_t all = 1 | 2 | 4 | 8 | 16 | 64;
// Members of the language and texts in which what ends a rule comes again.
static bridge::u32str input(const model::Spec& s)
{
    bridge::u32str in = model::gen_input(s, 1 + g(20));
    for (u64 n = g(4); n > 0 && !in.empty(); --n)
    {
        const size_t len = 1 + g(std::min<size_t>(in.size(), 4));
        const bridge::u32str piece = in.substr(g(in.size() - len + 1), len);
        if (gc(1, 2)) in += piece;
        else in.insert(g(in.size() + 1), piece);
    }
    return in;
}
template<typename C, typename id> using Machine = lexertl::basic_state_machine<C, id>;

// The machine again, by one of the ways a user comes by it.
template<typename C, typename id> static void other_way(Machine<C, id>& sm, bool faults)
{
    switch (g(6))
    {
    case 0:
    {
        count("way-minimise");
        if (faults && chance(FAULT, 1, 3)) arm_alloc_fault(logu(FAULT, 5), false);
        bool again = false;
        try { Lib l; sm.minimise(); }
        catch (const std::bad_alloc&) { again = true; }
        disarm_alloc_fault();
        if (again) { count("fault:alloc-in-minimise"); Lib l; sm.minimise(); }
        break;
    }
    case 1:
    {
        count("way-copy");
        Lib l;
        Machine<C, id> c(sm);
        sm.clear();
        sm = std::move(c);
        break;
    }
    case 2: case 3:
    {
        count("way-saved");
        // saved and read back; what was torn is read again from the start
        std::basic_string<C> file;
        {
            simio::OutBuf<C> sink(g(2) * 64);
            std::basic_ostream<C> os(&sink);
            { Lib l; lexertl::save(sm, os); os.flush(); }
            file = sink.all();
        }
        for (int t = 0;; ++t)
        {
            simio::InBuf<C> src(file);
            if (gc(1, 3)) src.chunk = 1 + g(9);
            std::basic_istream<C> is(&src);
            if (faults && t < 2 && chance(FAULT, 1, 3))
            {
                src.fail_at = choose(FAULT, file.size() + 1);
                src.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
            }
            Machine<C, id> fresh;
            bool ok = true;
            try { Lib l; lexertl::load(is, fresh); }
            catch (const std::exception&) { ok = false; }
            const bool torn = src.fail_at <= file.size();
            if (!ok)
            {
                SIM_CHECK(torn, "load-fails", "loading a machine that was saved fails");
                count("fault:load-interrupted");
                continue;
            }
            Lib l;
            sm.swap(fresh);
            break;
        }
        break;
    }
    default: break;
    }
}
// The known finding: in a wide machine a greedy repeat after the end of an
// abstemious rule lets the abstemious repeat go on as well.
template<typename RC, typename C, typename id> static void probe()
{
    describe("rule abb*?bc*; input \"abbb\"; ");
    lexertl::basic_rules<RC, C, id> r;
    Machine<C, id> sm;
    std::basic_string<RC> re;
    for (char c : std::string("abb*?bc*")) re += static_cast<RC>(c);
    const std::basic_string<C> text{ C('a'), C('b'), C('b'), C('b') };
    lexertl::match_results<const C*, id> m(text.data(), text.data() + 4);
    {
        Lib l;
        r.push(re, 1);
        lexertl::basic_generator<lexertl::basic_rules<RC, C, id>, Machine<C, id>>::build(r, sm);
        lexertl::lookup(sm, m);
    }
    const size_t n = static_cast<size_t>(m.second - m.first);
    if (m.id == 1 && n == 4) violation("wide-greedy-tail", "the rule abb*?bc* matched all of \"abbb\", reference \"abb\"");
    SIM_CHECK(m.id == 1 && n == 3, "tokens-differ", "the rule abb*?bc* matched %zu of \"abbb\", reference 3", n);
    count("probe-passed");
}
template<typename RC, typename C, typename id> static void go(model::GenOpt o)
{
    if (o.max_char > 0xff && gc(1, 100)) { probe<RC, C, id>(); return; }
    using Rules = lexertl::basic_rules<RC, C, id>;
    o.npos = static_cast<id>(~0);
    o.shy = true;
    o.reverse = false;
    o.allow_eol = false;
    model::Gen gen;
    gen.o = o;
    const model::Spec s = gen.make();
    for (auto& st : s.st) if (st.empty()) discard("a state without rules");
    size_t shy = 0;
    for (auto& st : s.st) for (auto& r : st) shy += r.shy;
    if (!shy) discard("no abstemious rule");
    setup_heap_policy();
    describe("%s; ", model::describe(s).c_str());
    event_str("rules", model::describe(s));
    const bool faults = chance(FAULT, 1, 2);
    Machine<C, id> sm;
    bridge::make_machine<Rules>(s, sm, faults);
    if constexpr (sizeof(C) == 1 || std::is_same<C, wchar_t>::value)
        other_way(sm, faults);
    const size_t inputs = 1 + g(5);
    for (size_t i = 0; i < inputs; ++i)
    {
        const bridge::u32str in = input(s);
        const std::basic_string<C> text = bridge::conv<C>(in);
        describe("input \"%s\"; ", model::show(in).c_str());
        model::State st;
        st.bol = !gc(1, 6);
        // does it matter that the operators are abstemious?
        model::Spec greedy = s;
        for (auto& x : greedy.st) for (auto& r : x) r.shy = false;
        const std::vector<model::Tok> want = model::tokens(s, in, st, 400), other = model::tokens(greedy, in, st, 400);
        if (!(want == other)) { nontrivial(); count("inputs-told-apart"); }
        count("inputs");
        size_t n = 0;
        auto run = [&](auto& res, const auto& b, simit::Source<C>* src) {
            for (; n < 400; ++n)
            {
                const model::Tok t = bridge::one_interrupted(s, sm, res, b, in, st, src, faults ? 3 : 0);
                if (t.id == 0 || t.underflow) break;
            }
        };
        auto both = [&](auto* rp, const auto& b, const auto& e, simit::Source<C>* src) {
            using Res = std::remove_pointer_t<decltype(rp)>;
            Res res(b, e, st.bol, static_cast<id>(0));
            run(res, b, src);
        };
        if (gc(1, 2))
        {
            simit::Source<C> src;
            src.b = text.data();
            src.n = text.size();
            using It = simit::Iter<C>;
            if (s.recursive) both(static_cast<lexertl::recursive_match_results<It, id, all | 32>*>(nullptr), It(&src, 0), It(&src, text.size()), &src);
            else both(static_cast<lexertl::match_results<It, id, all>*>(nullptr), It(&src, 0), It(&src, text.size()), &src);
        }
        else
        {
            const C* b = text.data();
            const C* e = b + text.size();
            if (s.recursive) both(static_cast<lexertl::recursive_match_results<const C*, id, all | 32>*>(nullptr), b, e, static_cast<simit::Source<C>*>(nullptr));
            else both(static_cast<lexertl::match_results<const C*, id, all>*>(nullptr), b, e, static_cast<simit::Source<C>*>(nullptr));
        }
        count("tokens", n);
    }
}
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4);
#if PART == 0
DEF(0) { o.max_char = 0xff; o.locale = true; go<char, char, uint16_t>(o); }
const Info info = {
    "P21",
    "a random rule set in which every rule begins with a character of its own, at least one being text, an abstemious repeat of a character set and the "
    "text that ends it, or text and an abstemious operator at its end; 1-5 inputs in which what ends a rule may come again; half of the runs interrupt "
    "rule calls, builds, minimising, loading and lookups with failing allocations and reads and repeat them; "
    "non-trivial: taking the operators as greedy would give other tokens",
    "rules, regex tokeniser, parser, abstemious operators, charset partitioning, DFA construction, minimise, save and load, lookup, match_results",
    "heap: seeded arena with adversarial address order and fill, failing allocations; input iterator with read errors; streams with torn reads",
    "event history hash of (rule set, input, tokens, interruptions)",
    "abstemious ? and {n,m} before further text, loops over groups, several loops in one rule and loops followed by character sets that only partly "
    "overlap are not generated: the documentation does not say what they take;"
    "no end-of-line assertions next to abstemious operators"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("a[a-z]*?z", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    lexertl::save(sm, ss);
    std::istringstream is(ss.str().substr(3));
    lexertl::load(is, sm);
    try { r.push("(", 1); } catch (const std::exception&) {}
}

void episode()
{
    model::GenOpt o;
    o.max_rules = static_cast<int>(gr(1, 6));
    o.depth = 2;
    if (gc(1, 3))
    {
        o.max_states = 3;
        o.recursive = true;
    }
    switch (g(8))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    case 5: part3(o); break;
    default: part4(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; o.locale = true; go<char, char, uint8_t>(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; o.unicode = gc(1, 3); go<wchar_t, wchar_t, uint16_t>(o); }
#elif PART == 3
DEF(3) { o.max_char = 0xffff; o.narrow_rules = true; go<char, char16_t, uint16_t>(o); }
#else
DEF(4) { o.max_char = 0x10ffff; o.unicode = gc(1, 3); o.narrow_rules = true; go<char, char32_t, uint32_t>(o); }
#endif
}
