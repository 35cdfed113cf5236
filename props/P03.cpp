// PARTS: 4
// SCHED
// P03: threads sharing machines and rules see what each would see alone.
#include "view.hpp"
#include "rawre.hpp"
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <lexertl/generate_cpp.hpp>
#include <lexertl/replace.hpp>
#include <lexertl/stream_shared_iterator.hpp>
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;

// What a task saw: kept outside the simulated heap.
struct Script
{
    std::vector<u64> v;
    u64 h = 0;
    void put(u64 x)
    {
        Harness hh;
        if (v.size() < 4096) v.push_back(x);
        h = mix(h, x);
    }
    bool operator==(const Script& o) const { return v == o.v && h == o.h; }
};
struct Op
{
    int kind = 0;
    u32str in;                 // text to look up
    u32str extra;              // regex or replacement
    u64 a = 0, b = 0;
};
static const char* const op_names[] = { "look up through pointers", "look up through iterators", "lexertl::iterator", "copy and minimise", "save", "load",
    "dump", "build from shared rules", "build own rules", "observe", "replace", "generate C++", "stream", "look up with its own lexer states" };
enum { NOPS = sizeof op_names / sizeof *op_names };

template<typename RC, typename C, typename id> struct Run
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    using Gen = lexertl::basic_generator<Rules, Sm>;
    static constexpr size_t all = 1 | 2 | 4 | 8 | 16 | 64;
    static constexpr bool bytes = sizeof(C) == 1;
    struct World
    {
        const Sm* sm = nullptr;
        const Rules* rules = nullptr;
        const std::basic_string<C>* saved = nullptr;   // bytes of a saved machine
        model::Spec s;
        bool whole_messages = true;                    // a failing allocation may cut an error message short
    };

    template<typename Res, typename It> static void lookups(const Sm& sm, It b, It e, Script& out, size_t cap, bool bol, id state)
    {
        Lib l;
        Res r(b, e, bol, state);
        for (size_t n = 0; n < cap; ++n)
        {
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { out.put(~0ull); break; }
            const u64 f = bridge::pos_of(r.first, b), s = bridge::pos_of(r.second, b);
            out.put(r.id);
            out.put(r.user_id * 65536ull + f);
            out.put(s * 4 + r.bol);
            out.put(r.state * 4096ull + bridge::depth_of(r));
            if (r.id == 0) break;
        }
    }
    template<typename It> static void lookups_any(const World& w, It b, It e, Script& out, const Op& op)
    {
        const id st = static_cast<id>(op.b % w.s.st.size());
        if (w.s.recursive) lookups<lexertl::recursive_match_results<It, id, all | 32>>(*w.sm, b, e, out, 60, op.a & 1, st);
        else lookups<lexertl::match_results<It, id, all>>(*w.sm, b, e, out, 60, op.a & 1, st);
    }
    static void digest_sm(const Sm& sm, Script& out) { Harness h; out.put(ser::digest(sm)); }

    // One operation; everything it changes is its own.
    static void run(const Op& op, const World& w, Script& out)
    {
        std::basic_string<C> text;
        {
            Harness h;
            text = bridge::conv<C>(op.in);
        }
        const C* b = text.data();
        const C* e = b + text.size();
        Lib l;
        switch (op.kind)
        {
        case 0: lookups_any(w, b, e, out, op); break;
        case 1:
        {
            simit::Source<C> src;
            src.b = b;
            src.n = text.size();
            lookups_any(w, simit::Iter<C>(&src, 0), simit::Iter<C>(&src, text.size()), out, op);
            break;
        }
        case 2:
        {
            if (w.s.recursive) break;
            using Res = lexertl::match_results<const C*, id, all>;
            using It = lexertl::iterator<const C*, Sm, Res>;
            It i(b, e, *w.sm), end;
            for (size_t n = 0; n < 40 && i != end; ++n)
            {
                out.put(i->id * 65536ull + static_cast<u64>(i->second - b));
                if (n % 3 == 2) { It old = i++; out.put(old->id); }
                else ++i;
            }
            break;
        }
        case 3:
        {
            Sm own(*w.sm), other;
            other = own;
            if (op.a & 1) other.minimise();
            own.swap(other);
            World v = w;
            v.sm = &own;
            lookups_any(v, b, e, out, op);
            digest_sm(other, out);
            own.clear();
            out.put(own.empty());
            break;
        }
        case 4:
        {
            std::basic_ostringstream<C> ss;
            lexertl::save(*w.sm, ss);
            if (!ss) throw std::bad_alloc();       // which the stream swallowed
            const auto t = ss.str();
            out.put(hash_range(t.data(), t.size()));
            break;
        }
        case 5:
        {
            std::basic_istringstream<C> ss(*w.saved);
            Sm own;
            lexertl::load(ss, own);
            digest_sm(own, out);
            break;
        }
        case 6: dump(w, out, op, std::integral_constant<bool, bytes>()); break;
        case 7:
        {
            Sm own;
            Gen::build(*w.rules, own);
            digest_sm(own, out);
            break;
        }
        case 8:
        {
            Rules r;
            std::basic_string<RC> t;
            { Harness h; t = bridge::conv<RC>(op.extra); r.flags(op.a & 1 ? 2 : 32 + (op.a & 26)); }
            r.flags(r.flags() | 32);
            try
            {
                if (op.b & 1) { Rules c(*w.rules); r = c; r.flags(r.flags() | 32); }
                { const RC nm[] = { 'M', 0 }, rx[] = { '[', 'a', '-', 'c', ']', '+', 0 }; r.insert_macro(nm, rx); }
                r.push(t, 7);
                if (op.b & 2) r.push(t, 8, 3);
                Sm own;
                Gen::build(r, own);
                digest_sm(own, out);
            }
            catch (const lexertl::runtime_error& x) { Harness h; const std::string m = x.what(); out.put(w.whole_messages ? hash_range(m.data(), m.size()) : 1); }
            break;
        }
        case 9:
        {
            out.put(w.sm->empty());
            out.put(w.sm->eoi());
            out.put(w.rules->statemap().size());
            out.put(w.rules->flags());
            for (size_t i = 0; i < w.s.st.size(); ++i)
            {
                const RC* n = w.rules->state(static_cast<id>(i));
                out.put(hash_range(n, std::char_traits<RC>::length(n)));
            }
            Rules c(*w.rules);
            Harness h;
            const View<Rules> v(c), o(*w.rules);
            out.put(v.differs(o) ? 1 : 0);
            break;
        }
        case 10:
        {
            if (w.s.recursive) break;
            // replacing needs every match to have an id other than 0 and to move on
            if (w.s.any_bol || w.s.any_eol) break;
            std::basic_string<C> f;
            { Harness h; f = bridge::conv<C>(op.extra); }
            const std::basic_string<C> t(text);
            const auto r = lexertl::replace(t, *w.sm, f);
            out.put(hash_range(r.data(), r.size()));
            break;
        }
        case 11:
        {
            std::ostringstream ss;
            lexertl::table_based_cpp::generate("lex", *w.sm, op.a & 1, ss);
            if (!ss) throw std::bad_alloc();       // which the stream swallowed
            const auto t = ss.str();
            out.put(hash_range(t.data(), t.size()));
            break;
        }
        case 12:
        {
            using It = lexertl::basic_stream_shared_iterator<C>;
            std::basic_istringstream<C> ss(text);
            It i(ss, 1 + op.a % 7), end;
            const It start = i;
            if (w.s.recursive)
            {
                lexertl::recursive_match_results<It, id> r(i, end);
                stream_tokens(*w.sm, r, out);
            }
            else
            {
                lexertl::match_results<It, id> r(i, end);
                stream_tokens(*w.sm, r, out);
            }
            break;
        }
        default:
        {
            std::list<C> li(b, e);
            if (w.s.recursive) lookups_list<lexertl::recursive_match_results<typename std::list<C>::const_iterator, id, all | 32>>(*w.sm, li, out);
            else lookups_list<lexertl::match_results<typename std::list<C>::const_iterator, id, all>>(*w.sm, li, out);
            break;
        }
        }
    }
    template<typename Res> static void lookups_list(const Sm& sm, const std::list<C>& li, Script& out)
    {
        Res r(li.begin(), li.end());
        for (size_t n = 0; n < 60; ++n)
        {
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { out.put(~0ull); break; }
            out.put(r.id * 65536ull + static_cast<u64>(std::distance(li.begin(), r.second)));
            if (r.id == 0) break;
        }
    }
    template<typename Res> static void stream_tokens(const Sm& sm, Res& r, Script& out)
    {
        for (size_t n = 0; n < 40; ++n)
        {
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { out.put(~0ull); break; }
            out.put(r.id);
            const std::basic_string<C> t(r.first, r.second);
            out.put(hash_range(t.data(), t.size()));
            if (r.id == 0) break;
        }
    }
    static void dump(const World& w, Script& out, const Op& op, std::true_type)
    {
        using Csm = lexertl::basic_char_state_machine<C, id, true>;
        Rules c(*w.rules);
        std::basic_ostringstream<C> ss;
        if (op.a & 1)
        {
            lexertl::basic_debug<Sm, C, id>::dump(*w.sm, c, ss);
            Csm csm;
            lexertl::sm_to_csm(*w.sm, csm);
            out.put(csm._sm_vector.size());
        }
        else lexertl::basic_dot<Sm, C, id>::dump(*w.sm, c, ss);
        if (!ss) throw std::bad_alloc();           // which the stream swallowed
        const auto t = ss.str();
        out.put(hash_range(t.data(), t.size()));
    }
    static void dump(const World& w, Script& out, const Op&, std::false_type) { digest_sm(*w.sm, out); }

    static void go(model::GenOpt o)
    {
        setup_heap_policy();
        World w;
        o.npos = static_cast<id>(~0);
        o.max_states = gc(1, 2) ? 3 : 1;
        o.recursive = o.max_states > 1;
        o.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 2 : 4));
        o.depth = 2;
        o.max_macros = 1;
        model::Gen gen;
        gen.o = o;
        w.s = gen.make();
        describe("shared rules %s; ", model::describe(w.s).c_str());
        event_str("rules", model::describe(w.s));
        std::unique_ptr<Rules> rules;
        std::unique_ptr<Sm> sm;
        std::basic_string<C> saved;
        {
            Lib l;
            rules.reset(new Rules);
            sm.reset(new Sm);
            bridge::apply(w.s, *rules);
            try { Gen::build(*rules, *sm); }
            catch (const lexertl::runtime_error& x)
            {
                Harness h;
                if (bridge::documented_rejection(x.what(), w.s)) discard(x.what());
                violation("rejects-valid-rules", "a valid rule set was rejected: %s", x.what());
            }
            std::basic_ostringstream<C> ss;
            lexertl::save(*sm, ss);
            Harness h;
            saved = ss.str();
        }
        w.sm = sm.get();
        w.rules = rules.get();
        w.saved = &saved;
        const u64 before = ser::digest(*sm);
        const View<Rules> view(*rules);
        const size_t nt = 2 + g(3);
        const bool focus = gc(1, 3);              // everybody does the same kind of thing
        const int fk = static_cast<int>(g(NOPS));
        std::vector<std::vector<Op>> scripts(nt);
        for (size_t t = 0; t < nt; ++t)
        {
            const size_t n = 1 + g(3);
            std::string d;
            for (size_t i = 0; i < n; ++i)
            {
                Op op;
                static const int weights[] = { 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13 };
                op.kind = focus ? fk : weights[g(sizeof weights / sizeof *weights)];
                op.in = model::gen_input(w.s, 2 + g(op.kind == 12 ? 12 : 20));
                if (op.kind == 8) { do op.extra = rawre::regex(gc(1, 2) ? 1 : 2); while (op.extra.size() > 60); }
                if (op.kind == 10) op.extra = model::gen_input(w.s, 4);
                op.a = g(16);
                op.b = g(16);
                d += std::string(i ? ", " : "") + op_names[op.kind] + " (\"" + model::show(op.in) + "\")";
                scripts[t].push_back(op);
            }
            describe("task %zu: %s; ", t, d.c_str());
        }
        // together first, so that anything set up on first use is set up under contention
        std::vector<std::vector<Script>> got(nt);
        std::vector<std::function<void()>> fns;
        const bool armed = chance(FAULT, 1, 3);
        w.whole_messages = !armed;
        u64 failures = 0;
        for (size_t t = 0; t < nt; ++t)
            fns.push_back([&, t]()
            {
                for (auto& op : scripts[t])
                    for (;;)
                    {
                        Script one;
                        try { run(op, w, one); }
                        catch (const std::bad_alloc&)
                        {
                            SIM_CHECK(armed, "spurious-bad-alloc", "bad_alloc without an injected failure");
                            disarm_alloc_fault();
                            ++failures;
                            count("fault:alloc-in-task");
                            continue;
                        }
                        got[t].push_back(std::move(one));
                        event("op-done", static_cast<u64>(op.kind), got[t].back().h);
                        break;
                    }
            });
        track_races(true);
        if (armed) arm_alloc_fault(logu(FAULT, 10), false);
        run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 13)));
        disarm_alloc_fault();
        track_races(false);
        SIM_CHECK(ser::digest(*sm) == before, "shared-machine-changed", "the shared machine changed while it was only read");
        const View<Rules> now(*rules);
        if (const char* d = now.differs(view)) violation("shared-rules-changed", "the %s of the shared rules changed while they were only read", d);
        for (size_t t = 0; t < nt; ++t)
            for (size_t i = 0; i < scripts[t].size(); ++i)
            {
                Script alone;
                run(scripts[t][i], w, alone);
                if (!(alone == got[t][i]))
                {
                    size_t k = 0;
                    while (k < alone.v.size() && k < got[t][i].v.size() && alone.v[k] == got[t][i].v[k]) ++k;
                    violation("differs-from-alone", "task %zu, operation %zu (%s on \"%s\") saw something else than it sees alone, from observation %zu on", t, i,
                        op_names[scripts[t][i].kind], model::show(scripts[t][i].in).c_str(), k);
                }
            }
        nontrivial();
        Lib l;
        sm.reset();
        rules.reset();
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; Run<char, char, uint16_t>::go(o); }
const Info info = {
    "P03",
    "a random rule set and its machine, both const and shared, 2-4 tasks with 1-3 operations each (lookups through pointers, lists, checked iterators, "
    "lexertl::iterator and stream iterators, copy, minimise, swap, save, load, text and graph dumps, generating C++, replace, builds from the shared and from own rules); "
    "the seeded scheduler may switch tasks at every memory access of the library; a third of the runs fail one allocation somewhere; every task's observations are "
    "compared with those of the same operations alone, and conflicting unsynchronised accesses of two tasks to one byte are violations; non-trivial: all tasks finished",
    "lookup, match_results, iterator, stream_shared_iterator, rules, parser, tokeniser, generator, state_machine, serialise, debug, dot, sm_to_csm, generate_cpp, replace",
    "threads: cooperative tasks under the seeded scheduler; heap: seeded arena with failing allocations",
    "event history hash of (rules, schedule, observations); distinct schedules counted separately",
    "pre-emption at memory accesses, atomic operations and control-flow edges of compiled library code, sequentially consistent memory"
};
void warmup()
{
    // the standard library's own caches, not the library's
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    std::wostringstream ws;
    ws << 1 << L'c' << L"x" << std::endl;
    std::istringstream is("1 2");
    int i;
    is >> i;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(8))
    {
    case 0: case 1: case 2: case 3: part0(o); break;
    case 4: part1(o); break;
    case 5: case 6: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Run<char, char, uint8_t>::go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Run<wchar_t, wchar_t, uint16_t>::go(o); }
#else
DEF(3) { o.max_char = 0xff; Run<char, char, uint32_t>::go(o); }
#endif
}
