// PARTS: 5
// P17: copying, moving, minimising and converting a machine never changes its tokens.
#include "csm.hpp"
#include <lexertl/sm_to_csm.hpp>
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;

template<typename C, typename id> struct Life
{
    using Sm = lexertl::basic_state_machine<C, id>;
    using Csm = lexertl::basic_char_state_machine<C, id>;
    using Rules = lexertl::basic_rules<C, C, id>;
    enum { EMPTY = -1, UNKNOWN = -2 };          // UNKNOWN: moved from
    struct Spec { model::Spec s; std::unique_ptr<Rules> r; };
    struct Slot { Sm* m = nullptr; int is = EMPTY; };
    struct CSlot { Csm* m = nullptr; int is = EMPTY; unsigned bytes = 0; };
    struct Cursor
    {
        int is = 0;
        u32str in;
        std::basic_string<C> text;
        lexertl::recursive_match_results<const C*, id, 127> r;
        model::State st;
        bool done = false;
    };
    std::vector<Spec> specs;
    std::vector<Slot> sms;
    std::vector<CSlot> csms;
    std::vector<std::unique_ptr<Cursor>> cursors;
    bool armed = false;
    u64 fired = 0;

    void arm(unsigned bits)
    {
        armed = chance(FAULT, 1, 3);
        if (armed) arm_alloc_fault(logu(FAULT, bits), chance(FAULT, 1, 3));
    }
    // Runs an operation, false when the injected failure stopped it.
    template<typename F> bool run(const char* what, unsigned bits, F f)
    {
        arm(bits);
        try
        {
            Lib l;
            f();
        }
        catch (const std::bad_alloc&)
        {
            SIM_CHECK(armed, "spurious-bad-alloc", "bad_alloc from %s without an injected failure", what);
            disarm_alloc_fault();
            count("fault:alloc-in-operation");
            event(what, 99);
            ++fired;
            return false;
        }
        disarm_alloc_fault();
        return true;
    }
    const model::Spec& spec(int i) const { return specs[static_cast<size_t>(i)].s; }

    void check(const Slot& s, const char* after)
    {
        if (s.is == UNKNOWN) return;
        SIM_CHECK(s.m->empty() == (s.is == EMPTY), "empty-differs", "after %s a machine %s empty", after, s.is == EMPTY ? "is not" : "is");
        if (s.is == EMPTY) { SIM_CHECK(s.m->data()._lookup.empty() && s.m->data()._dfa_alphabet.empty(), "half-empty", "after %s an empty machine holds tables", after); return; }
        count("table-machines-checked");
        nontrivial();
        ser::tokens_ok<C, id>(spec(s.is), *s.m);
    }
    void check(const CSlot& s, const char* after)
    {
        if (s.is == UNKNOWN) return;
        SIM_CHECK(s.m->empty() == (s.is == EMPTY), "empty-differs", "after %s a machine in character form %s empty", after, s.is == EMPTY ? "is not" : "is");
        if (s.is == EMPTY) return;
        const model::Spec& sp = spec(s.is);
        SIM_CHECK(s.m->size() == sp.st.size(), "csm-size", "after %s a machine in character form has %u lexer states, its rules %zu", after, static_cast<unsigned>(s.m->size()), sp.st.size());
        count("character-machines-checked");
        nontrivial();
        const u32str in = model::gen_input(sp, 1 + g(20));
        model::State a, b;
        for (int n = 0; n < 100; ++n)
        {
            const model::Tok want = model::next(sp, in, a), got = csm::next(*s.m, in, b, s.bytes, sp.npos, sp.skip());
            if (!(want == got))
                violation("tokens-differ", "after %s token %d of \"%s\" from the character form: got %s, reference %s; rules: %s", after, n, model::show(in).c_str(),
                    model::str(got, sp).c_str(), model::str(want, sp).c_str(), model::describe(sp).c_str());
            if (want.underflow || want.id == 0) break;
        }
    }
    // A copy of a machine before something that may fail in the middle.
    struct Before { Sm a, b; };
    void whole(const Sm& m, const Sm& old, const Sm& neu, const char* what)
    {
        if (ser::same(m, old) || ser::same(m, neu)) return;
        if (m.empty() && m.data()._lookup.empty() && m.data()._dfa_alphabet.empty()) return;
        violation("torn-machine", "a failed %s left a machine that is neither what it was nor what it was to become: %s differs from before, %s from the source",
            what, ser::diff(m, old).c_str(), ser::diff(m, neu).c_str());
    }
    int stands(const Sm& m, const Slot& a, const Sm& old, int was, int src) { (void)a; return m.empty() ? static_cast<int>(EMPTY) : ser::same(m, old) ? was : src; }

    void table_op()
    {
        Slot& a = sms[g(sms.size())];
        Slot& b = sms[g(sms.size())];
        switch (g(12))
        {
        case 0: case 1: case 2:                          // build
        {
            const int i = static_cast<int>(g(specs.size()));
            const bool ok = run("build", 12, [&]() { lexertl::basic_generator<Rules, Sm>::build(*specs[static_cast<size_t>(i)].r, *a.m); });
            if (ok) a.is = i;
            event("build", ok, static_cast<u64>(i));
            check(a, ok ? "a build" : "a failed build");
            break;
        }
        case 3:                                          // copy construction
        {
            if (b.is == UNKNOWN) break;
            Sm before;
            { Harness h; before = *b.m; }
            Sm* n = nullptr;
            const bool ok = run("copy", 5, [&]() { n = new Sm(*b.m); });
            SIM_CHECK(ser::same(before, *b.m), "source-changed", "copying changed the source");
            if (ok)
            {
                SIM_CHECK(ser::same(before, *n), "copy-differs", "a copy differs from its source");
                const int is = b.is;
                { Lib l; delete a.m; }
                a.m = n;
                a.is = is;
            }
            event("copy", ok);
            check(a, "copying");
            break;
        }
        case 4: case 5:                                  // copy assignment
        {
            if (b.is == UNKNOWN || a.is == UNKNOWN) { if (a.is != UNKNOWN) break; }
            if (b.is == UNKNOWN) break;
            Sm before, was;
            { Harness h; before = *b.m; was = *a.m; }
            const bool ok = run("assign", 5, [&]() { *a.m = *b.m; });
            SIM_CHECK(&a == &b || ser::same(before, *b.m), "source-changed", "assigning changed the source");
            if (ok)
            {
                SIM_CHECK(ser::same(before, *a.m), "copy-differs", "an assigned machine differs from its source");
                a.is = b.is;
            }
            else
            {
                whole(*a.m, was, before, "assignment");
                a.is = ser::same(*a.m, was) ? a.is : a.m->empty() ? static_cast<int>(EMPTY) : b.is;
            }
            event("assign", ok, &a == &b);
            check(a, ok ? "an assignment" : "a failed assignment");
            break;
        }
        case 6:                                          // move
        {
            if (&a == &b || b.is == UNKNOWN) break;
            Sm before;
            { Harness h; before = *b.m; }
            const bool construct = gc(1, 2);
            Sm* n = nullptr;
            const bool ok = run("move", 5, [&]() { if (construct) n = new Sm(std::move(*b.m)); else *a.m = std::move(*b.m); });
            if (ok)
            {
                if (construct) { { Lib l; delete a.m; } a.m = n; }
                SIM_CHECK(ser::same(before, *a.m), "move-differs", "a moved machine differs from its source");
                a.is = b.is;
                b.is = UNKNOWN;
            }
            else SIM_CHECK(ser::same(before, *b.m), "source-changed", "a move that failed changed the source");
            event("move", ok, construct);
            check(a, "moving");
            break;
        }
        case 7: case 8:                                  // swap
        {
            Sm x, y;
            { Harness h; x = *a.m; y = *b.m; }
            const bool member = gc(2, 3);
            const bool ok = run("swap", 5, [&]() { if (member) a.m->swap(*b.m); else if (&a != &b) std::swap(*a.m, *b.m); });
            SIM_CHECK(ok || !member, "swap-throws", "swap threw");
            if (!ok) { a.is = b.is = UNKNOWN; break; }
            SIM_CHECK(ser::same(*a.m, y) && ser::same(*b.m, x), "swap-differs", "swapping did not exchange two machines");
            std::swap(a.is, b.is);
            event("swap", member, &a == &b);
            check(a, "swapping");
            check(b, "swapping");
            break;
        }
        case 9:
        {
            const bool ok = run("clear", 5, [&]() { a.m->clear(); });
            SIM_CHECK(ok, "clear-throws", "clear threw");
            a.is = EMPTY;
            event("clear");
            check(a, "clearing");
            Sm fresh;
            SIM_CHECK(ser::same(fresh, *a.m), "clear-differs", "a cleared machine differs from a new one in its %s", ser::diff(fresh, *a.m).c_str());
            break;
        }
        case 10:                                         // kept in a growing vector
        {
            if (b.is == UNKNOWN) break;
            std::vector<Sm>* v = nullptr;
            const size_t n = 1 + g(5);
            const bool ok = run("vector", 6, [&]() { v = new std::vector<Sm>; for (size_t i = 0; i < n; ++i) v->push_back(*b.m); });
            if (v)
            {
                for (auto& m : *v) SIM_CHECK(ser::same(m, *b.m), "copy-differs", "a machine kept in a vector differs from its source");
                if (!v->empty() && gc(1, 2)) { Lib l; a.m->swap(v->back()); Harness h; a.is = b.is; }
                Lib l;
                delete v;
            }
            event("vector", ok, n);
            check(a, "life in a vector");
            break;
        }
        default:                                         // minimise
        {
            if (a.is == UNKNOWN) break;
            std::vector<size_t> rows;
            for (auto& d : a.m->data()._dfa) rows.push_back(d.size());
            const bool ok = run("minimise", 8, [&]() { a.m->minimise(); });
            SIM_CHECK(rows.size() == a.m->data()._dfa.size(), "minimise-drops", "minimise changed the number of lexer states");
            for (size_t i = 0; i < rows.size(); ++i)
            {
                SIM_CHECK(a.m->data()._dfa[i].size() <= rows[i], "minimise-grows", "minimise made a machine bigger");
                if (a.m->data()._dfa[i].size() < rows[i]) count("minimised");
            }
            event("minimise", ok);
            check(a, ok ? "minimise" : "a failed minimise");
            break;
        }
        }
    }
    void char_op()
    {
        CSlot& a = csms[g(csms.size())];
        CSlot& b = csms[g(csms.size())];
        switch (g(10))
        {
        case 0: case 1: case 2:                          // from a table machine
        {
            Slot& s = sms[g(sms.size())];
            if (s.is == UNKNOWN) break;
            Sm before;
            Csm was;
            { Harness h; before = *s.m; was = *a.m; }
            const bool ok = run("convert", 8, [&]() { lexertl::sm_to_csm(*s.m, *a.m); });
            SIM_CHECK(ser::same(before, *s.m), "source-changed", "converting changed the source");
            if (ok) { a.is = s.is; a.bytes = sizeof(C) == 1 ? 0 : sizeof(C) < 3 ? sizeof(C) : 3; }
            else if (!csm::same_machine(was, *a.m)) a.is = UNKNOWN;
            event("convert", ok);
            check(a, ok ? "a conversion" : "a failed conversion");
            break;
        }
        case 3:                                          // straight from the rules
        {
            const int i = static_cast<int>(g(specs.size()));
            std::string err;
            bool thrown = false;
            const bool ok = run("csm-build", 10, [&]()
            {
                try { lexertl::basic_generator<Rules, Csm>::build(*specs[static_cast<size_t>(i)].r, *a.m); }
                catch (const lexertl::runtime_error& e) { Harness h; err = e.what(); thrown = true; }
            });
            if (thrown)
            {
                SIM_CHECK(bridge::documented_rejection(err, spec(i)) || armed, "rejects-valid-rules", "a valid rule set was rejected for the character form: %s; rules: %s", err.c_str(), model::describe(spec(i)).c_str());
                break;
            }
            if (ok) { a.is = i; a.bytes = 0; }
            event("csm-build", ok, static_cast<u64>(i));
            check(a, ok ? "a build" : "a failed build");
            break;
        }
        case 4: case 5:                                  // assignment
        {
            if (b.is == UNKNOWN) break;
            Csm before;
            { Harness h; before = *b.m; }
            const bool move = &a != &b && gc(1, 4);
            const bool ok = run("csm-assign", 6, [&]() { if (move) *a.m = std::move(*b.m); else *a.m = *b.m; });
            if (ok)
            {
                SIM_CHECK(csm::same_machine(before, *a.m), "copy-differs", "an assigned machine in character form differs from its source");
                a.is = b.is;
                a.bytes = b.bytes;
                if (move) b.is = UNKNOWN;
            }
            else
            {
                // only destruction, clearing and reassignment are promised
                SIM_CHECK(&a == &b || csm::same_machine(before, *b.m), "source-changed", "a failed assignment changed the source");
                a.is = UNKNOWN;
            }
            event("csm-assign", ok, move);
            check(a, "an assignment");
            break;
        }
        case 6:                                          // swap
        {
            const bool ok = run("csm-swap", 5, [&]() { a.m->swap(*b.m); });
            SIM_CHECK(ok, "swap-throws", "swap threw");
            std::swap(a.is, b.is);
            std::swap(a.bytes, b.bytes);
            event("csm-swap");
            check(a, "swapping");
            check(b, "swapping");
            break;
        }
        case 7:
        {
            const bool ok = run("csm-clear", 5, [&]() { a.m->clear(); });
            SIM_CHECK(ok, "clear-throws", "clear threw");
            a.is = EMPTY;
            event("csm-clear");
            check(a, "clearing");
            break;
        }
        default:
        {
            if (a.is == UNKNOWN) break;
            std::vector<size_t> rows;
            for (auto& d : a.m->_sm_vector) rows.push_back(d._states.size());
            const bool ok = run("csm-minimise", 9, [&]() { a.m->minimise(); });
            SIM_CHECK(rows.size() == a.m->_sm_vector.size(), "minimise-drops", "minimise changed the number of lexer states");
            for (size_t i = 0; i < rows.size(); ++i)
            {
                SIM_CHECK(a.m->_sm_vector[i]._states.size() <= rows[i], "minimise-grows", "minimise made a machine bigger");
                if (a.m->_sm_vector[i]._states.size() < rows[i]) count("minimised-character-form");
            }
            event("csm-minimise", ok);
            check(a, ok ? "minimise" : "a failed minimise");
            break;
        }
        }
    }
    // A tokenising run that is carried on with whichever machine stands for its rules now.
    void cursor_op()
    {
        if (cursors.size() < 3 && gc(1, 2))
        {
            cursors.emplace_back(new Cursor);
            Cursor& c = *cursors.back();
            c.is = static_cast<int>(g(specs.size()));
            c.in = model::gen_input(spec(c.is), 4 + g(40));
            c.text = bridge::conv<C>(c.in);
            Lib l;
            c.r.reset(c.text.data(), c.text.data() + c.text.size());
        }
        if (cursors.empty()) return;
        Cursor& c = *cursors[g(cursors.size())];
        if (c.done) return;
        std::vector<Slot*> fit;
        for (auto& s : sms) if (s.is == c.is) fit.push_back(&s);
        if (fit.empty()) return;
        for (size_t n = 1 + g(4); n-- > 0 && !c.done;)
        {
            const Sm& m = *fit[g(fit.size())]->m;
            const model::Tok t = bridge::one_interrupted<Sm, decltype(c.r), C>(spec(c.is), m, c.r, c.text.data(), c.in, c.st, nullptr, 1);
            c.done = t.underflow || t.id == 0;
            count("tokens-across-machines");
        }
    }
    void go(model::GenOpt o)
    {
        setup_heap_policy();
        o.npos = static_cast<id>(~0);
        const u64 mark = heap_mark();
        const size_t ns = 1 + g(2);
        for (size_t i = 0; i < ns; ++i)
        {
            model::GenOpt p = o;
            p.max_states = gc(1, 2) ? 3 : 1;
            p.recursive = true;
            p.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 3 : 5));
            p.depth = 2;
            p.max_macros = 1;
            model::Gen gen;
            gen.o = p;
            specs.emplace_back();
            specs.back().s = gen.make();
            const model::Spec& s = specs.back().s;
            describe("rules %zu: %s; ", i, model::describe(s).c_str());
            event_str("rules", model::describe(s));
            Lib l;
            specs.back().r.reset(new Rules);
            try
            {
                bridge::apply(s, *specs.back().r);
                Sm probe;
                lexertl::basic_generator<Rules, Sm>::build(*specs.back().r, probe);
            }
            catch (const std::exception& e)
            {
                Harness h;
                if (bridge::documented_rejection(e.what(), s)) { count("rejected-build"); discard(e.what()); }
                violation("rejects-valid-rules", "a valid rule set was rejected: %s; rules: %s", e.what(), model::describe(s).c_str());
            }
        }
        sms.resize(1 + g(4));
        for (auto& s : sms) { Lib l; s.m = new Sm; }
        csms.resize(1 + g(3));
        for (auto& s : csms) { Lib l; s.m = new Csm; }
        const size_t n = 4 + g(20);
        for (size_t k = 0; k < n; ++k)
        {
            const u64 w = g(10);
            if (w < 5) table_op();
            else if (w < 8) char_op();
            else cursor_op();
        }
        for (auto& s : sms) check(s, "the whole history");
        for (auto& s : csms) check(s, "the whole history");
        for (auto& s : sms) { Lib l; delete s.m; }
        for (auto& s : csms) { Lib l; delete s.m; }
        { Lib l; cursors.clear(); for (auto& s : specs) s.r.reset(); }
        std::string what;
        SIM_CHECK(!leaked(what, mark), "leak", "still allocated after every machine is gone: %s", what.c_str());
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3); DEF(4);
#if PART == 0
DEF(0) { o.max_char = 0xff; Life<char, uint16_t>().go(o); }
const Info info = {
    "P17",
    "1-2 rule sets of the reference language (up to 3 lexer states, push/pop, ^, $, skip), 1-4 machines in table form and 1-3 in character form; histories of 4-23 operations: build, copy, assign (also to itself), "
    "move, swap, clear, minimise, keep in a growing vector, convert, build in character form, and runs of lookups that change machine at every token, with failing allocations in each; "
    "tables compared after copies, tokens with the reference after every operation; non-trivial: a machine was compared with the reference",
    "state_machine, char_state_machine, sm_to_csm, internals, generator, rules, lookup, recursive_match_results",
    "lookup on the character form: an interpreter in the harness (the library has none); heap: seeded arena with failing allocations",
    "event history hash of (rules, operations and their outcomes, tokens)",
    "the reference model defines the tokens of a rule set; a machine moved from, and a character-form machine whose assignment failed, may hold anything until assigned, built or cleared"
};
void warmup()
{
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(8))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: case 5: part2(o); break;
    case 6: part3(o); break;
    default: part4(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Life<char, uint8_t>().go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Life<wchar_t, uint16_t>().go(o); }
#elif PART == 3
DEF(3) { o.max_char = 0xff; Life<char, uint32_t>().go(o); }
#else
DEF(4) { o.max_char = 0x10ffff; Life<char32_t, uint16_t>().go(o); }
#endif
}
