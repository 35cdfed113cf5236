// PARTS: 6
// P10: a build completes or leaves everything as it was.
#include "view.hpp"
#include "rawre.hpp"
#include "csm.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
using model::Call;
using csm::same_machine;
using csm::digest;
using bridge::u32str;

// structural sanity of a machine, independent of the generator: every state
// index in a row exists, every lexer state named exists
template<typename C, typename id> void sane(const lexertl::basic_state_machine<C, id>& a, size_t states)
{
    auto& d = a.data();
    SIM_CHECK(d._dfa.size() == states && d._lookup.size() == states && d._dfa_alphabet.size() == states, "machine-shape",
        "a machine of %zu lexer states has %zu tables", states, d._dfa.size());
    const id np = static_cast<id>(~0);
    for (size_t i = 0; i < states; ++i)
    {
        const size_t w = d._dfa_alphabet[i];
        SIM_CHECK(w >= 6 && d._dfa[i].size() % w == 0 && d._dfa[i].size() >= 2 * w, "machine-shape", "lexer state %zu has %zu cells in rows of %zu", i, d._dfa[i].size(), w);
        SIM_CHECK(d._lookup[i].size() == 256, "machine-shape", "lookup table of %zu entries", d._lookup[i].size());
        for (size_t j = 0; j < 256; ++j) SIM_CHECK(d._lookup[i][j] < w, "machine-shape", "lookup entry %zu points outside the row", j);
        const size_t rows = d._dfa[i].size() / w;
        for (size_t r = 0; r < rows; ++r)
        {
            const id* p = &d._dfa[i][r * w];
            if (r == 0) { SIM_CHECK(p[0] < rows, "machine-shape", "the row for ^ does not exist"); continue; }
            if (p[0]) SIM_CHECK(p[4] == np ? (p[0] & 4) != 0 : p[4] < states, "machine-shape", "row %zu of lexer state %zu goes on in state %zu of %zu", r, i, size_t(p[4]), states);
            SIM_CHECK(p[3] == np || p[3] < states, "machine-shape", "row %zu pushes state %zu of %zu", r, size_t(p[3]), states);
            for (size_t c = 5; c < w; ++c) SIM_CHECK(p[c] < rows, "machine-shape", "row %zu of lexer state %zu leads to row %zu of %zu", r, i, size_t(p[c]), rows);
        }
    }
}
template<typename C, typename id, bool dd> void sane(const lexertl::basic_char_state_machine<C, id, dd>& a, size_t states)
{
    SIM_CHECK(a._sm_vector.size() == states, "machine-shape", "a machine of %zu lexer states has %zu", states, a._sm_vector.size());
    const id np = static_cast<id>(~0);
    for (auto& d : a._sm_vector)
    {
        SIM_CHECK(d._bol_index == np || d._bol_index < d._states.size(), "machine-shape", "the state for ^ does not exist");
        for (auto& s : d._states)
        {
            SIM_CHECK(s._eol_index == np || s._eol_index < d._states.size(), "machine-shape", "the state for $ does not exist");
            for (auto& t : s._transitions) SIM_CHECK(t.first < d._states.size(), "machine-shape", "a transition leads nowhere");
        }
    }
}

template<typename RC, typename Sm> struct Run
{
    using id = typename Sm::id_type;
    using Rules = lexertl::basic_rules<RC, typename Sm::traits::input_char_type, id>;
    using V = View<Rules>;
    using Gen = lexertl::basic_generator<Rules, Sm>;
    struct R
    {
        std::unique_ptr<Rules> r;
        std::unique_ptr<Sm> ref;             // of an undisturbed build
        std::string err;                     // or why it is rejected
        u64 work = 0;                        // steps of that build
        model::Spec s;
        bool spec = false;
    };
    static void make(R& x, model::GenOpt o)
    {
        o.npos = static_cast<id>(~0);
        { Lib l; x.r.reset(new Rules); }
        if (gc(1, 2))
        {
            o.max_states = gc(1, 3) ? 3 : 1;
            o.recursive = true;
            o.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 3 : 4));
            o.depth = 2;
            o.max_macros = 1;
            model::Gen gen;
            gen.o = o;
            x.s = gen.make();
            x.spec = true;
            describe("rules %s; ", model::describe(x.s).c_str());
            event_str("rules", model::describe(x.s));
            try { Lib l; bridge::apply(x.s, *x.r); }
            catch (const std::exception& e) { violation("rejects-valid-regex", "a valid rule was rejected: %s", e.what()); }
        }
        else
        {
            std::string d = "raw rules";
            size_t fl = gc(1, 2) ? 2 : g(64);
            fl |= 32;
            if (gc(1, 4)) fl &= ~size_t(32);
            x.r->flags(fl);
            d += " flags=" + std::to_string(fl);
            const size_t n = gr(1, 4), ns = gc(1, 4) ? 2 : 1;
            Harness hh;
            if (ns == 2) { Lib l; x.r->push_state(bridge::conv<RC>(U"B").c_str()); }
            // lexer states without rules are rejected, also worth trying
            for (size_t i = 0; i < n; ++i)
            {
                const u32str t = rawre::regex();
                const auto txt = bridge::conv<RC>(t);
                const id i1 = gc(1, 8) ? static_cast<id>(~1) : static_cast<id>(1 + g(9));
                const size_t st = g(ns);
                bool ok = true;
                try
                {
                    Lib l;
                    if (st == 0 && gc(1, 2)) x.r->push(txt, i1);
                    else x.r->push(bridge::conv<RC>(ns == 2 && gc(1, 4) ? U"*" : st ? U"B" : U"INITIAL").c_str(), txt, i1, bridge::conv<RC>(gc(1, 2) ? U"." : U"INITIAL").c_str());
                }
                catch (const lexertl::runtime_error&) { ok = false; }
                d += std::string(ok ? "; " : "; (rejected) ") + model::showre(t);
            }
            describe("%s; ", d.c_str());
            event_str("rules", d);
        }
        Lib l;
        x.ref.reset(new Sm);
        const V before(*x.r);
        const u64 from = steps();
        if (!x.spec) set_soft_budget(4000000);
        try { Gen::build(*x.r, *x.ref); }
        catch (const lexertl::runtime_error& e) { Harness h; x.err = e.what(); count("rejected-rules"); }
        set_soft_budget(0);
        x.work = steps() - from;
        Harness h;
        if (x.err.empty())
        {
            sane(*x.ref, x.r->statemap().size());
            // an independent value: tokens of the reference
            if (x.spec) tokens(x.s, *x.ref);
        }
        else if (x.spec)
        {
            SIM_CHECK(bridge::documented_rejection(x.err, x.s), "rejects-valid-rules", "a valid rule set was rejected: %s", x.err.c_str());
        }
        const V now(*x.r);
        if (const char* w = now.differs(before)) violation("build-changes-rules", "building changed the %s of the rules", w);
    }
    template<typename C> static void tokens(const model::Spec& s, const lexertl::basic_state_machine<C, id>& sm) { ser::tokens_ok<C, id>(s, sm); }
    template<typename C, bool d> static void tokens(const model::Spec&, const lexertl::basic_char_state_machine<C, id, d>&) {}

    struct M { std::unique_ptr<Sm> m; const R* is = nullptr; };   // what it should hold now

    static void check(const M& x, const char* when)
    {
        if (!x.is)
        {
            SIM_CHECK(x.m->empty(), "target-changed", "%s an empty machine is no longer empty", when);
            return;
        }
        SIM_CHECK(same_machine(*x.m, *x.is->ref), "target-changed", "%s the machine is not the one an undisturbed build gives", when);
    }
    static void attempt(R& r, M& m, std::vector<M>& all)
    {
        const V before(*r.r);
        const bool sweep = chance(FAULT, 1, 4);
        const u64 tries = sweep ? 60 : choose(FAULT, 4);
        const u64 start = sweep ? logu(FAULT, 12) : 0;
        const u64 stride = sweep ? (chance(FAULT, 1, 2) ? 1 : 1 + choose(FAULT, 40)) : 1;
        bool done = false;
        for (u64 t = 0; t <= tries && !done; ++t)
        {
            const bool armed = t < tries;
            const bool persistent = armed && chance(FAULT, 1, 4);
            const u64 mark = heap_mark();
            if (armed) arm_alloc_fault(sweep ? start + t * stride : logu(FAULT, 12), persistent);
            std::string err;
            bool nomem = false;
            set_step_budget(r.work * 16 + 20000000);
            try
            {
                Lib l;
                Gen::build(*r.r, *m.m);
            }
            catch (const std::bad_alloc&) { nomem = true; }
            catch (const lexertl::runtime_error& e) { err = e.what(); }
            catch (const std::exception& e) { violation("foreign-exception", "building threw %s", e.what()); }
            const bool fired = armed && disarm_alloc_fault();
            SIM_CHECK(!nomem || fired, "spurious-bad-alloc", "bad_alloc without an injected failure");
            event(nomem ? "nomem" : err.empty() ? "built" : "rejected", digest(*m.m));
            if (nomem || !err.empty())
            {
                count(nomem ? persistent ? "fault:alloc-persistent" : "fault:alloc-once" : "rejected-build");
                nontrivial();
                std::string what;
                SIM_CHECK(!leaked(what, mark), "failed-build-leaks", "a failed build leaves memory allocated: %s", what.c_str());
                check(m, "after a failed build");
                if (!nomem)
                {
                    SIM_CHECK(!r.err.empty(), "verdict-differs", "a build was rejected (%s) which succeeded before", err.c_str());
                    SIM_CHECK(fired || err == r.err, "verdict-differs", "a build was rejected as \"%s\" and before as \"%s\"", err.c_str(), r.err.c_str());
                }
            }
            else
            {
                if (fired) count("fault:swallowed");
                SIM_CHECK(r.err.empty(), "verdict-differs", "a build succeeded which was rejected before: %s", r.err.c_str());
                m.is = &r;
                check(m, "after a build");
                done = true;
            }
            const V now(*r.r);
            if (const char* w = now.differs(before)) violation("build-changes-rules", "building changed the %s of the rules", w);
            if (!nomem && !err.empty() && !armed) done = true;
        }
        for (auto& o : all) check(o, "after a build into another machine");
    }
    static void go(model::GenOpt o)
    {
        setup_heap_policy();
        const u64 mark = heap_mark();
        {
            std::vector<R> rs(1 + g(2));
            for (auto& r : rs) make(r, o);
            std::vector<M> ms(1 + g(2));
            for (auto& m : ms) { Lib l; m.m.reset(new Sm); }
            const size_t n = 1 + g(6);
            for (size_t i = 0; i < n; ++i)
            {
                M& m = ms[g(ms.size())];
                attempt(rs[g(rs.size())], m, ms);
                if (gc(1, 8)) { Lib l; m.m->clear(); m.is = nullptr; }
                if (gc(1, 8) && ms.size() == 2) { Lib l; ms[0].m->swap(*ms[1].m); std::swap(ms[0].is, ms[1].is); }
            }
            Lib l;
            for (auto& m : ms) m.m.reset();
            for (auto& r : rs) { r.ref.reset(); r.r.reset(); }
        }
        std::string what;
        SIM_CHECK(!leaked(what, mark), "leak", "still allocated after rules and machines are gone: %s", what.c_str());
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4); DEF(5);
#if PART == 0
DEF(0) { o.max_char = 0xff; Run<char, lexertl::basic_state_machine<char, uint16_t>>::go(o); }
const Info info = {
    "P10",
    "1-2 rule sets (valid ones with a reference tokeniser, and random regex text over the whole syntax with ^, $ and line ends anywhere), a history of builds into "
    "1-2 machines with clears and swaps; builds are tried with allocations failing at random places or in sweeps and repeated; non-trivial: at least one build failed",
    "rules, parser, generator, state_machine, char_state_machine",
    "heap: seeded arena, failing allocations once or from then on",
    "event history hash of (rules, outcomes, machine tables)",
    "the undisturbed build of the same rules is the reference for the tables, the reference tokeniser for valid rules"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    try { r.push("(", 1); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(9))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    case 5: part3(o); break;
    case 6: case 7: part4(o); break;
    default: part5(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Run<char, lexertl::basic_state_machine<char, uint8_t>>::go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Run<wchar_t, lexertl::basic_state_machine<wchar_t, uint16_t>>::go(o); }
#elif PART == 3
DEF(3) { o.max_char = 0xffff; o.narrow_rules = true; Run<char, lexertl::basic_state_machine<char16_t, uint32_t>>::go(o); }
#elif PART == 4
DEF(4) { o.max_char = 0xff; Run<char, lexertl::basic_char_state_machine<char, uint16_t, true>>::go(o); }
#else
DEF(5) { o.max_char = 0xffff; Run<char32_t, lexertl::basic_char_state_machine<char32_t, uint16_t, true>>::go(o); }
#endif
}
