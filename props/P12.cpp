// PARTS: 5
// SCHED
// P12: the machine built depends on the rules alone.
#include "view.hpp"
#include "rawre.hpp"
#include "csm.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;

// Rules as plain data, so that they can be made again and again.
struct Recipe
{
    bool spec = false;
    model::Spec s;
    size_t flags = 2;
    struct R { u32str text; u64 id; bool other; };
    std::vector<R> raw;
    u32str macro;
    bool two = false;
    bool reversed = false;
};

template<typename RC, typename Sm> struct Run
{
    using id = typename Sm::id_type;
    using C = typename Sm::traits::input_char_type;
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Gen = lexertl::basic_generator<Rules, Sm>;
    // Unicode classes take the library tens of millions of steps: few of them
    // at a time.
    static Recipe classes()
    {
        Recipe x;
        rawre::classes = 2;
        x.flags = 32 | g(4);
        u32str t;
        for (u64 n = 1 + g(2); n-- > 0;) rawre::char_class(t);
        x.raw.push_back({ t, 1, false });
        if (gc(1, 2)) x.raw.push_back({ U"[^b]", 2, false });
        describe("flags=%zu; %s; ", x.flags, model::showre(t).c_str());
        event_str("rules", model::showre(t));
        return x;
    }
    static Recipe recipe(model::GenOpt o)
    {
        Recipe x;
        o.npos = static_cast<id>(~0);
        if (gc(1, 2))
        {
            x.spec = true;
            o.max_states = gc(1, 3) ? 3 : 1;
            o.recursive = true;
            o.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 3 : 4));
            o.depth = 3;
            o.max_macros = 2;
            model::Gen gen;
            gen.o = o;
            x.s = gen.make();
            event_str("rules", model::describe(x.s));
            describe("rules %s; ", model::describe(x.s).c_str());
            return x;
        }
        x.flags = 32 | (gc(1, 2) ? 2 : g(32));
        rawre::classes = gc(1, 3) ? 1 : 0;
        x.two = gc(1, 4);
        x.reversed = gc(1, 8);
        if (gc(1, 3)) x.macro = rawre::regex(1);
        const size_t n = gr(1, 3) + (x.two ? 1 : 0);
        std::string d = "raw flags=" + std::to_string(x.flags) + (x.reversed ? " reversed" : "");
        for (size_t i = 0; i < n; ++i)
        {
            u32str t;
            do t = rawre::regex(gc(1, 3) ? 3 : 2, 18); while (t.size() > 90);
            if (!x.macro.empty() && gc(1, 3)) t += gc(1, 2) ? U"{M}" : U"|({M})?a";
            x.raw.push_back({ t, gc(1, 8) ? static_cast<u64>(static_cast<id>(~1)) : 1 + g(9), x.two && (i == 0 || gc(1, 2)) });
            d += "; " + model::showre(t);
        }
        if (!x.macro.empty()) d += "; M := " + model::showre(x.macro);
        event_str("rules", d);
        describe("%s; ", d.c_str());
        return x;
    }
    static void fill(const Recipe& x, Rules& r)
    {
        if (x.spec) { bridge::apply(x.s, r); return; }
        r.flags(x.flags);
        std::basic_string<RC> b, i, m;
        { Harness h; b = bridge::conv<RC>(U"B"); i = bridge::conv<RC>(U"INITIAL"); m = bridge::conv<RC>(U"M"); }
        if (x.two) r.push_state(b.c_str());
        std::basic_string<RC> t;
        if (!x.macro.empty())
        {
            { Harness h; t = bridge::conv<RC>(x.macro); }
            try { r.insert_macro(m.c_str(), t); } catch (const lexertl::runtime_error&) {}
        }
        for (auto& rule : x.raw)
        {
            { Harness h; t = bridge::conv<RC>(rule.text); }
            try
            {
                if (rule.other) r.push(b.c_str(), t, static_cast<id>(rule.id), i.c_str());
                else if (x.two) r.push(i.c_str(), t, static_cast<id>(rule.id), b.c_str());
                else r.push(t, static_cast<id>(rule.id));
            }
            catch (const lexertl::runtime_error&) {}
        }
        if (x.reversed) r.reverse();
    }
    // Makes the rules and the machine; returns the reason of a rejection.
    static std::string make(const Recipe& x, Sm& sm, std::string* copy_made)
    {
        try
        {
            Lib l;
            Rules r;
            fill(x, r);
            if (copy_made)
            {
                Rules other(r);
                Gen::build(other, sm);
            }
            else Gen::build(r, sm);
        }
        catch (const lexertl::runtime_error& e) { Harness h; return e.what()[0] ? e.what() : "?"; }
        return std::string();
    }
    struct Ref { Recipe x; std::unique_ptr<Sm> sm; std::string err; };
    static void same(const Ref& ref, const Sm& sm, const std::string& err, const char* how, bool messages = true)
    {
        if (ref.err.empty() != err.empty())
            violation("verdict-differs", "%s the same rules are %s, first they were %s", how, err.empty() ? "accepted" : err.c_str(), ref.err.empty() ? "accepted" : ref.err.c_str());
        if (messages && ref.err != err) violation("message-differs", "%s the same rules are rejected as \"%s\", first as \"%s\"", how, err.c_str(), ref.err.c_str());
        if (err.empty() && !csm::same_machine(sm, *ref.sm)) violation("tables-differ", "%s the same rules give another machine", how);
        if (err.empty()) count("builds-compared");
        else count("rejections-compared");
    }
    static unsigned other_heap()
    {
        const unsigned p = static_cast<unsigned>(choose(FAULT, 6));
        const u8 fills[4] = { 0xcd, 0x00, 0xff, 0x01 };
        switch_heap_policy(p, static_cast<u32>(choose(FAULT, 1u << 20)), fills[choose(FAULT, 4)]);
        count("heap-changed");
        return p;
    }
    static void go(model::GenOpt o)
    {
        setup_heap_policy();
        const bool unicode = o.max_char > 0xff && gc(1, 5);
        const u64 budget = unicode ? 150000000 : 1500000;
        std::vector<Ref> refs(unicode ? 2 : 1 + g(3));
        for (auto& r : refs) r.x = unicode ? classes() : recipe(o);
        // the same text under other flags
        for (size_t i = 1; i < refs.size(); ++i)
            if (!refs[0].x.spec && gc(unicode ? 3 : 1, unicode ? 4 : 2))
            {
                refs[i].x = refs[0].x;
                refs[i].x.flags = 32 | g(32);
                if (gc(1, 2)) refs[i].x.flags = refs[0].x.flags ^ (size_t(1) << (unicode ? 0 : g(3)));
                describe("rule set %zu: the first under flags %zu; ", i + 1, refs[i].x.flags);
            }
        // the first builds, partly made under contention
        const bool contended_first = chance(SCHED, 1, 3);
        // and of each in a process that has not used the library yet
        std::vector<std::pair<bool, std::string>> apart_(refs.size());
        const auto verdict = [](const std::string& err, const Sm& sm) { return err.empty() ? fmt("tables %llx", (unsigned long long)csm::digest(sm)) : "\"" + err + "\""; };
        if (unicode || gc(1, 2))
            for (size_t i = 0; i < refs.size(); ++i)
                apart_[i].first = apart([&, i]()
                {
                    Sm sm;
                    set_soft_budget(budget);
                    const std::string err = make(refs[i].x, sm, nullptr);
                    return verdict(err, sm);
                }, apart_[i].second);
        std::vector<std::function<void()>> fns;
        for (auto& r : refs)
        {
            { Lib l; r.sm.reset(new Sm); }
            fns.push_back([&r, budget]() { set_soft_budget(budget); r.err = make(r.x, *r.sm, nullptr); });
        }
        track_races(true);
        if (contended_first && refs.size() > 1) run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 13)));
        else for (auto& f : fns) f();
        track_races(false);
        set_soft_budget(0);
        for (size_t i = 0; i < refs.size(); ++i)
            if (apart_[i].first)
            {
                count("fresh-process-builds-compared");
                const std::string v = verdict(refs[i].err, *refs[i].sm);
                if (v != apart_[i].second)
                    violation("fresh-process-differs", "rule set %zu gives %s here and %s in a process that has built nothing before", i + 1, v.c_str(), apart_[i].second.c_str());
            }
        const u64 work = steps();
        for (auto& r : refs)
        {
            if (!r.err.empty() && r.x.spec && !bridge::documented_rejection(r.err, r.x.s))
                violation("rejects-valid-rules", "a valid rule set was rejected: %s", r.err.c_str());
            event("built", r.err.empty() ? csm::digest(*r.sm) : 0, r.err.size());
        }
        set_step_budget(work * 40 + 100000000);
        nontrivial();
        const size_t n = unicode ? g(2) : 1 + g(3);
        for (size_t k = 0; k < n; ++k)
        {
            switch (g(5))
            {
            case 0:                              // elsewhere in memory
            {
                other_heap();
                const Ref& r = refs[g(refs.size())];
                Sm sm;
                std::string c;
                const std::string err = make(r.x, sm, gc(1, 3) ? &c : nullptr);
                same(r, sm, err, "built elsewhere in memory");
                Lib l;
                sm.clear();
                break;
            }
            case 1:                              // again into a machine that held another one
            {
                Sm sm;
                for (size_t i = 0; i < 3; ++i)
                {
                    const Ref& r = refs[g(refs.size())];
                    const std::string err = make(r.x, sm, nullptr);
                    if (err.empty()) same(r, sm, err, "built into a used machine");
                }
                Lib l;
                sm.clear();
                break;
            }
            case 2:                              // after failures
            {
                const Ref& r = refs[g(refs.size())];
                Sm sm;
                for (u64 t = 1 + choose(FAULT, 4); t-- > 0;)
                {
                    const Ref& q = refs[g(refs.size())];
                    arm_alloc_fault(logu(FAULT, 12), chance(FAULT, 1, 2));
                    try { make(q.x, sm, nullptr); }
                    catch (const std::bad_alloc&) { count("fault:build-without-memory"); }
                    disarm_alloc_fault();
                }
                try { Lib l; Rules bad; std::basic_string<RC> t; { Harness h; t = bridge::conv<RC>(rawre::regex() + U"("); } bad.push(t, 1); }
                catch (const lexertl::runtime_error&) { count("rejected-first"); }
                const std::string err = make(r.x, sm, nullptr);
                same(r, sm, err, "built after failed builds");
                Lib l;
                sm.clear();
                break;
            }
            default:                             // while others build
            {
                const size_t nt = 2 + g(3);
                std::vector<size_t> which;
                for (size_t i = 0; i < nt; ++i) which.push_back(g(refs.size()));
                std::vector<std::string> errs(nt);
                std::vector<std::unique_ptr<Sm>> sms;
                for (size_t i = 0; i < nt; ++i) { Lib l; sms.emplace_back(new Sm); }
                if (chance(FAULT, 1, 2)) other_heap();
                fns.clear();
                const bool armed = chance(FAULT, 1, 4);
                for (size_t i = 0; i < nt; ++i)
                    fns.push_back([&, i]()
                    {
                        for (;;)
                        {
                            try { errs[i] = make(refs[which[i]].x, *sms[i], nullptr); }
                            catch (const std::bad_alloc&)
                            {
                                SIM_CHECK(armed, "spurious-bad-alloc", "bad_alloc without an injected failure");
                                count("fault:build-without-memory");
                                disarm_alloc_fault();
                                continue;
                            }
                            break;
                        }
                    });
                if (armed) arm_alloc_fault(logu(FAULT, 13), false);
                track_races(true);
                run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 13)));
                track_races(false);
                disarm_alloc_fault();
                for (size_t i = 0; i < nt; ++i) same(refs[which[i]], *sms[i], errs[i], "built while other tasks build", !armed);
                Lib l;
                sms.clear();
                break;
            }
            }
        }
        Lib l;
        for (auto& r : refs) r.sm.reset();
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4);
#if PART == 0
DEF(0) { o.max_char = 0xff; Run<char, lexertl::basic_state_machine<char, uint16_t>>::go(o); }
const Info info = {
    "P12",
    "1-3 rule sets (reference and raw syntax, macros, lexer states, reversed), built first alone or by tasks together, then again 1-3 times: at other places in memory "
    "and with other contents of fresh memory, from copies, into used machines, after failed and rejected builds, and by 2-4 tasks switched at memory accesses with a failing allocation; "
    "every table and error message must be the first one's, and that of a fresh process; non-trivial: every run",
    "rules, tokeniser, parser, generator, state_machine, char_state_machine",
    "heap: seeded arena (ascending, descending, random, recycled, fixed-stride addresses; fill patterns; failures); threads: cooperative tasks under the seeded scheduler",
    "event history hash of (rules, tables, schedule)",
    "half of the runs also compare with each rule set built alone in a fresh process; the others compare builds with each other"
};
void warmup()
{
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(8))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    case 5: case 6: part3(o); break;
    default: part4(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Run<char, lexertl::basic_state_machine<char, uint8_t>>::go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Run<wchar_t, lexertl::basic_state_machine<wchar_t, uint16_t>>::go(o); }
#elif PART == 3
DEF(3) { o.max_char = 0xff; Run<char, lexertl::basic_char_state_machine<char, uint16_t, true>>::go(o); }
#else
DEF(4) { o.max_char = 0xffff; Run<char32_t, lexertl::basic_char_state_machine<char32_t, uint16_t, true>>::go(o); }
#endif
}
