// PARTS: 4
// P11: calls on a rules object take full effect or none.
#include "view.hpp"
#ifndef PART
#define PART 0
#endif
namespace sim
{
using model::Call;
using bridge::u32str;

// What the calls that succeeded should have added, from their arguments alone.
struct Shadow
{
    struct R { u64 id, uid, next, push; bool pop; std::string text; };
    std::vector<u32str> names{ U"INITIAL" };
    std::vector<std::vector<R>> st{ {} };
    std::vector<u32str> macros;
    u64 npos;
    bool exact = true;                       // no rule was split into several
    size_t find(const u32str& n) const
    {
        for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return i;
        return ~size_t(0);
    }
    void apply(const Call& c)
    {
        switch (c.k)
        {
        case Call::STATE: if (find(c.name) == ~size_t(0)) { names.push_back(c.name); st.emplace_back(); } break;
        case Call::MACRO: macros.push_back(c.name); break;
        case Call::PUSH: st[0].push_back({ c.id, c.has_uid ? c.uid : npos, 0, npos, false, text(c) }); break;
        case Call::PUSH_STATE:
        {
            std::vector<size_t> to;
            if (c.from == U"*") for (size_t i = 0; i < names.size(); ++i) to.push_back(i);
            else
            {
                size_t b = 0;
                for (;;)
                {
                    const size_t e = c.from.find(U',', b);
                    to.push_back(find(c.from.substr(b, e == u32str::npos ? e : e - b)));
                    if (e == u32str::npos || e + 1 == c.from.size()) break;
                    b = e + 1;
                }
            }
            for (size_t s : to)
            {
                R r{ c.has_id ? c.id : 0, c.has_id && c.has_uid ? c.uid : npos, npos, npos, false, text(c) };
                if (c.to == U".") r.next = s;
                else if (c.to[0] == U'<') r.pop = true;
                else if (c.to[0] == U'>')
                {
                    const size_t col = c.to.find(U':');
                    r.next = find(c.to.substr(1, col == u32str::npos ? col : col - 1));
                    r.push = col == u32str::npos ? s : find(c.to.substr(col + 1));
                }
                else r.next = find(c.to);
                st[s].push_back(r);
            }
            break;
        }
        case Call::CLEAR_STATE: if (c.id < st.size()) st[c.id].clear(); break;
        case Call::REVERSE: case Call::FLAGS: break;
        }
    }
    static std::string text(const Call& c) { return std::string(c.text.begin(), c.text.end()); }
};

template<typename RC, typename C, typename id> struct Run
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    using V = View<Rules>;

    static std::string show(const Call& c)
    {
        model::Spec s;
        s.calls.push_back(c);
        std::string d = model::describe(s);
        return d.substr(d.find("; ") + 2);
    }
    static void match(const Shadow& sh, const V& v)
    {
        if (const char* w = v.crooked()) violation("out-of-step", "the parts of the rules object that describe %s are out of step", w);
        SIM_CHECK(v.statemap.size() == sh.names.size(), "states", "there are %zu lexer states instead of %zu", v.statemap.size(), sh.names.size());
        for (size_t i = 0; i < sh.names.size(); ++i)
        {
            const auto n = bridge::conv<RC>(sh.names[i]);
            auto it = v.statemap.find(n);
            SIM_CHECK(it != v.statemap.end() && it->second == i && v.names[i] == n, "states", "lexer state %zu is not \"%s\"", i, model::show(sh.names[i]).c_str());
        }
        SIM_CHECK(v.macros.size() == sh.macros.size(), "macros", "there are %zu macros instead of %zu", v.macros.size(), sh.macros.size());
        for (auto& m : sh.macros) SIM_CHECK(v.macros.count(bridge::conv<RC>(m)), "macros", "macro \"%s\" is missing", model::show(m).c_str());
        if (!sh.exact) return;
        for (size_t i = 0; i < sh.st.size(); ++i)
        {
            SIM_CHECK(v.ids[i].size() == sh.st[i].size(), "rules", "lexer state %zu has %zu rules instead of %zu", i, v.ids[i].size(), sh.st[i].size());
            for (size_t j = 0; j < sh.st[i].size(); ++j)
            {
                const Shadow::R& r = sh.st[i][j];
                bool ascii = true;
                for (char ch : r.text) if (ch <= 0) ascii = false;
                SIM_CHECK(v.ids[i][j] == static_cast<id>(r.id) && v.uids[i][j] == static_cast<id>(r.uid) && v.nexts[i][j] == static_cast<id>(r.next) &&
                    v.pushes[i][j] == static_cast<id>(r.push) && v.pops[i][j] == r.pop && (!ascii || v.strings[i][j] == r.text), "rules",
                    "rule %zu of lexer state %zu differs from the call that added it", j, i);
            }
        }
    }
    // ---- calls that cannot succeed, and calls that may ------------------
    struct Junk { Call c; bool must_fail; };
    static u32str bad_regex()
    {
        static const char32_t* const t[] = { U"(", U"a)", U"[", U"[z-a]", U"a{2,1}", U"*a", U"a**b(", U"{nope}", U"\\p{Zq}", U"[[:nope:]]",
            U"\"abc", U"a|*", U"(?z:a)", U"(?#x", U"a{1", U"a{", U"a{x", U"\\", U"[a\\", U"(a|b", U"()", U"a|", U"[b]{-}[b]", U"[b]{+}*",
            U"(?i:a", U"\\x", U"[[:alpha:]{-}[a-z]{-}[A-Z]]", U"a{,3}", U"{m", U"?", U"+", U"|a", U"[]", U"a{3}{2", U"(?", U"[a-\\d]", U"a*(?#c)?a", U"a{2}(?#(c))?b", U"" };
        return t[g(sizeof t / sizeof *t)];
    }
    static u32str mangled(const model::Spec& s)
    {
        u32str t;
        for (int i = 0; i < 4 && t.empty(); ++i)
            if (!s.calls.empty()) t = s.calls[g(s.calls.size())].text;
        if (t.empty()) t = U"(a|b)*[c-e]{2,3}";
        const size_t n = 1 + g(3);
        static const char32_t pool[] = U"()[]{}|*+?^$\\\"-,:.a0<>/#~";
        for (size_t i = 0; i < n && !t.empty(); ++i)
        {
            const size_t p = g(t.size());
            const char32_t c = pool[g(sizeof pool / sizeof *pool - 1)];
            switch (g(4))
            {
            case 0: t.resize(p); break;
            case 1: t.erase(p, 1); break;
            case 2: t.insert(p, 1, c); break;
            default: t[p] = c; break;
            }
        }
        return t;
    }
    static Junk junk(const model::Spec& s, const Shadow& sh)
    {
        Junk j;
        Call& c = j.c;
        j.must_fail = true;
        c.overload = static_cast<int>(g(4));
        c.id = 1 + g(20);
        c.has_uid = gc(1, 2);
        c.uid = g(20);
        c.text = U"a";
        c.from = sh.names[g(sh.names.size())];
        c.to = gc(1, 2) ? U"." : sh.names[g(sh.names.size())];
        static const char32_t* const bad_names[] = { U"", U"1A", U"-a", U"A B", U"a.b", U"A:", U"\u00e9" };
        const size_t nb = sizeof bad_names / sizeof *bad_names;
        switch (g(12))
        {
        case 0: c.k = Call::PUSH; c.id = gc(1, 2) ? 0 : s.npos; break;
        case 1: c.k = Call::PUSH; c.text = bad_regex(); j.must_fail = false; break;
        case 2: c.k = Call::PUSH; c.text = mangled(s); j.must_fail = false; break;
        case 3: c.k = Call::PUSH_STATE; c.text = gc(1, 2) ? mangled(s) : bad_regex(); j.must_fail = false; if (gc(1, 2)) c.from = U"*"; break;
        case 4:
            c.k = Call::PUSH_STATE;
            switch (g(4))
            {
            case 0: c.from = U"NOPE"; break;
            case 1: c.from += U",NOPE"; break;
            case 2: c.from = c.from + U"," + bad_names[1 + g(nb - 1)]; break;
            default: c.from = U"," + c.from; break;
            }
            break;
        case 5:
            c.k = Call::PUSH_STATE;
            switch (g(7))
            {
            case 0: c.to = U"NOPE"; break;
            case 1: c.to = U">NOPE"; break;
            case 2: c.to = U">INITIAL:NOPE"; break;
            case 3: c.to = U"INITIAL:INITIAL"; break;
            case 4: c.to = U">NOPE:INITIAL"; break;
            case 5: c.to = U""; break;
            default: c.to = U"1x"; break;
            }
            break;
        case 6: c.k = Call::PUSH_STATE; c.id = gc(1, 2) ? 0 : s.npos; break;
        case 7: c.k = Call::STATE; c.name = bad_names[g(nb)]; break;
        case 8: c.k = Call::STATE; c.name = sh.names[g(sh.names.size())]; j.must_fail = false; break;
        case 9: c.k = Call::MACRO; c.name = bad_names[g(nb)]; break;
        case 10:
            c.k = Call::MACRO;
            if (!sh.macros.empty() && gc(1, 3)) c.name = sh.macros[g(sh.macros.size())];
            else
            {
                static const char32_t* const nm[] = { U"M", U"num_2", U"Q" };
                c.name = nm[g(3)];
                c.text = gc(1, 2) ? U"a{" + c.name + U"}" : gc(1, 2) ? bad_regex() : mangled(s);
                j.must_fail = false;
            }
            break;
        default:
            // a rule that refers to a macro that may or may not exist
            c.k = Call::PUSH;
            c.text = U"x{M}|[a-c]{-}{num_2}";
            j.must_fail = false;
            break;
        }
        return j;
    }
    enum Res { DONE, NOMEM, REJECTED };
    static Res call(Rules& r, const Call& c, std::string& why)
    {
        try
        {
            Lib l;
            bridge::apply_call(c, r);
            return DONE;
        }
        catch (const lexertl::runtime_error& e) { why = e.what(); return REJECTED; }
        catch (const std::bad_alloc&) { return NOMEM; }
        catch (const std::exception& e) { violation("foreign-exception", "%s threw %s", show(c).c_str(), e.what()); }
    }
    static void unchanged(const Rules& r, const V& before, const char* why, const Call& c)
    {
        const V now(r);
        if (const char* w = now.crooked())
            violation("failed-call-left-traces", "after a failed (%s) %s the %s are out of step", why, show(c).c_str(), w);
        if (const char* w = now.differs(before))
            violation("failed-call-left-traces", "a failed (%s) %s changed the %s", why, show(c).c_str(), w);
    }
    static void go(model::GenOpt o)
    {
        o.npos = static_cast<id>(~0);
        o.max_states = gc(2, 3) ? 4 : 1;
        o.recursive = true;
        o.max_rules = static_cast<int>(gr(1, 3));
        o.depth = 2;
        model::Gen gen;
        gen.o = o;
        model::Spec s = gen.make();
        setup_heap_policy();
        describe("%s; ", model::describe(s).c_str());
        event_str("rules", model::describe(s));
        const u64 mark = heap_mark();
        {
            std::unique_ptr<Rules> r, q;
            { Lib l; r.reset(new Rules); q.reset(new Rules); r->flags(s.flags); q->flags(s.flags); }
            Shadow sh;
            sh.npos = o.npos;
            bool spec_ok = true;
            const bool sweeping = chance(FAULT, 1, 3);
            for (size_t i = 0; i < s.calls.size(); ++i)
            {
                const size_t nj = g(3);
                for (size_t k = 0; k < nj; ++k)
                {
                    const Junk j = junk(s, sh);
                    if (j.c.k == Call::MACRO && !j.must_fail && gc(3, 4) && j.c.text.find(U"a{") != 0) continue;
                    attempt(r, q, sh, s, j.c, j.must_fail, false, spec_ok, sweeping && chance(FAULT, 1, 4));
                }
                attempt(r, q, sh, s, s.calls[i], false, true, spec_ok, sweeping && chance(FAULT, 1, 3));
                if (gc(1, 30)) other(r, q, sh, spec_ok);
            }
            if (sizeof(id) == 1 && gc(1, 40)) overflow(r, q, sh);
            finish(*r, *q, s, spec_ok && s.names == sh.names);
            Lib l;
            r.reset();
            q.reset();
        }
        std::string what;
        SIM_CHECK(!leaked(what, mark), "leak", "still allocated after the rules object is gone: %s", what.c_str());
    }
    static void attempt(std::unique_ptr<Rules>& r, std::unique_ptr<Rules>& q, Shadow& sh, const model::Spec& s, const Call& c,
        bool must_fail, bool valid, bool& spec_ok, bool sweep)
    {
        std::string why;
        const V before(*r);
        event_str("call", show(c));
        // fail at every allocation in turn, or at a few
        const u64 tries = sweep ? 400 : chance(FAULT, 1, 2) ? 0 : 1 + choose(FAULT, 3);
        u64 k = 0;
        Res res = NOMEM;
        bool disturbed = false;             // an error message may be cut short then
        for (u64 t = 0; t < tries; ++t)
        {
            const u64 at = sweep ? k++ : logu(FAULT, 8);
            const bool persistent = chance(FAULT, 1, 4);
            arm_alloc_fault(at, persistent);
            res = call(*r, c, why);
            const bool fired = disarm_alloc_fault();
            disturbed = fired;
            if (res == NOMEM)
            {
                SIM_CHECK(fired, "spurious-bad-alloc", "bad_alloc without an injected failure");
                count(persistent ? "fault:alloc-persistent" : "fault:alloc-once");
                nontrivial();
                event("nomem", at);
                unchanged(*r, before, "no memory", c);
                continue;
            }
            break;
        }
        if (res == NOMEM) { disturbed = false; res = call(*r, c, why); }
        SIM_CHECK(res != NOMEM, "spurious-bad-alloc", "bad_alloc without an injected failure");
        if (res == REJECTED)
        {
            count("rejected-call");
            nontrivial();
            event("rejected", c.k);
            SIM_CHECK(!valid || !spec_ok, "rejects-valid-call", "the valid call %s was rejected: %s", show(c).c_str(), why.c_str());
            unchanged(*r, before, "rejected", c);
            std::string why2;
            SIM_CHECK(call(*q, c, why2) == REJECTED && (disturbed || why2 == why), "verdict-differs", "%s is rejected (%s), but a rules object given the successful "
                "calls alone says: %s", show(c).c_str(), why.c_str(), why2.empty() ? "accepted" : why2.c_str());
            return;
        }
        event("done", c.k);
        SIM_CHECK(!must_fail, "accepts-invalid-call", "the invalid call %s was accepted", show(c).c_str());
        SIM_CHECK(call(*q, c, why) == DONE, "verdict-differs", "%s is accepted, but a rules object given the successful calls alone rejects it: %s",
            show(c).c_str(), why.c_str());
        if (!valid && !(c.k == Call::STATE && sh.find(c.name) != ~size_t(0)))
        {
            count("accepted-oddity");
            spec_ok = false;
            if (c.text.find(U"?") != u32str::npos) sh.exact = false;      // may have become non-greedy and been split
        }
        sh.apply(c);
        const V now(*r);
        match(sh, now);
        const V twin(*q);
        if (const char* w = now.differs(twin))
            violation("history-differs", "after %s the %s differ from those of a rules object given the successful calls alone", show(c).c_str(), w);
    }
    // clear, clear one state, copy, assign, reverse: with failing allocations
    static void other(std::unique_ptr<Rules>& r, std::unique_ptr<Rules>& q, Shadow& sh, bool& spec_ok)
    {
        const V before(*r);
        switch (g(5))
        {
        case 0:
        {
            const id i = static_cast<id>(g(sh.names.size() + 1));
            Lib l;
            r->clear(i);
            q->clear(i);
            Harness h;
            if (i < sh.st.size()) sh.st[i].clear();
            spec_ok = false;
            break;
        }
        case 1:
        {
            Lib l;
            std::unique_ptr<Rules> c(new Rules(*r));
            r.swap(c);
            c.reset();
            break;
        }
        case 2:
        {
            // reverse, possibly failing; twice
            for (int t = 0; t < 2; ++t)
            {
                const V v(*r);
                for (;;)
                {
                    if (chance(FAULT, 2, 3)) arm_alloc_fault(logu(FAULT, 7), false);
                    bool ok = true;
                    try { Lib l; r->reverse(); } catch (const std::bad_alloc&) { ok = false; }
                    disarm_alloc_fault();
                    if (ok) break;
                    count("fault:alloc-in-reverse");
                    const V n(*r);
                    if (const char* w = n.differs(v)) violation("failed-reverse-left-traces", "a failed reverse changed the %s", w);
                }
                Lib l;
                q->reverse();
            }
            spec_ok = false;
            break;
        }
        case 3:
        {
            const size_t f = r->flags();
            bool ok = true;
            if (chance(FAULT, 1, 2)) arm_alloc_fault(logu(FAULT, 4), false);
            try { Lib l; r->clear(); } catch (const std::bad_alloc&) { ok = false; }
            disarm_alloc_fault();
            const V v(*r);
            if (const char* w = v.crooked()) violation("clear", "clear left the %s out of step", w);
            if (!ok) { count("fault:alloc-in-clear"); if (const char* w = v.differs(before)) violation("clear", "a failed clear changed the %s", w); Lib l; r->clear(); }
            Lib l;
            q.reset(new Rules);
            SIM_CHECK(r->flags() == q->flags(), "clear", "clear does not give the default flags");
            r->flags(f);
            q->flags(f);
            Harness h;
            const u64 np = sh.npos;
            sh = Shadow();
            sh.npos = np;
            spec_ok = false;
            break;
        }
        default:
        {
            // assign something else over a copy and back, possibly failing
            std::unique_ptr<Rules> c, d;
            {
                Lib l;
                c.reset(new Rules(*r));
                d.reset(gc(1, 2) ? new Rules : new Rules(*r));
                d->push_state(std::basic_string<RC>({ RC('Z') }).c_str());
                for (u64 n = g(4); n-- > 0;)
                {
                    std::basic_string<RC> t(3, RC('a' + n));
                    d->push(t, static_cast<id>(n + 1));
                    d->push(d->all_states(), t, static_cast<id>(n + 9), d->initial());
                }
            }
            const V other_(*d);
            for (int k = 0; k < 2; ++k)
            {
                Rules& from = k ? *r : *d;
                const V was(*c), want(from);
                for (;;)
                {
                    if (chance(FAULT, 2, 3)) arm_alloc_fault(logu(FAULT, 7), chance(FAULT, 1, 2));
                    bool ok = true;
                    try { Lib l; *c = from; } catch (const std::bad_alloc&) { ok = false; }
                    disarm_alloc_fault();
                    const V n(*c), f(from);
                    if (const char* w = f.differs(want)) violation("assignment", "assigning a rules object changed the %s of its source", w);
                    const char* w = n.differs(ok ? want : was);
                    if (w) violation("assignment", "%s assignment left the target with other %s", ok ? "an" : "a failed", w);
                    if (ok) break;
                    count("fault:alloc-in-assignment");
                }
            }
            Lib l;
            *r = *c;
            *r = *r;
            c.reset();
            d.reset();
            break;
        }
        }
        const V now(*r), twin(*q);
        match(sh, now);
        if (const char* w = now.differs(twin)) violation("history-differs", "the %s differ from those of a rules object given the same calls", w);
        // the rest of the history refers to states that may be gone
        while (sh.names.size() < 5 && !spec_ok)
        {
            static const char32_t* const nm[] = { U"INITIAL", U"STRING", U"C-1", U"_x" , U"Z9" };
            Call c;
            c.k = Call::STATE;
            c.name = nm[sh.names.size()];
            if (sh.find(c.name) != ~size_t(0)) break;
            std::string why;
            call(*r, c, why);
            call(*q, c, why);
            sh.apply(c);
        }
    }
    static void overflow(std::unique_ptr<Rules>& r, std::unique_ptr<Rules>& q, Shadow& sh)
    {
        for (int i = 0; i < 300; ++i)
        {
            Call c;
            c.k = Call::STATE;
            c.name = U"s";
            for (char ch : std::to_string(i)) c.name += static_cast<char32_t>(ch);
            const V before(*r);
            std::string why;
            const Res res = call(*r, c, why);
            SIM_CHECK(res != NOMEM, "spurious-bad-alloc", "bad_alloc without an injected failure");
            if (res == REJECTED)
            {
                count("too-many-states");
                SIM_CHECK(sh.names.size() >= 254, "rejects-valid-call", "a new lexer state was rejected with %zu states: %s", sh.names.size(), why.c_str());
                unchanged(*r, before, "rejected", c);
                if (i % 2) continue;
                // known states and rules are still accepted
                c.k = Call::PUSH_STATE;
                c.from = U"*";
                c.to = sh.names.back();
                c.text = U"z";
                c.id = 1;
                std::string w2;
                SIM_CHECK(call(*r, c, w2) == DONE && call(*q, c, w2) == DONE, "rejects-valid-call", "a rule was rejected: %s", w2.c_str());
                sh.apply(c);
                match(sh, V(*r));
                break;
            }
            call(*q, c, why);
            sh.apply(c);
        }
    }
    static void finish(const Rules& r, const Rules& q, const model::Spec& s, bool spec_ok)
    {
        // abandoned, incomplete or huge machines are no business of this check
        for (auto& v : r.regexes())
            for (auto& t : v) if (t.size() > 60) return;
        std::unique_ptr<Sm> a, b;
        { Lib l; a.reset(new Sm); b.reset(new Sm); }
        std::string ea, eb;
        try { Lib l; lexertl::basic_generator<Rules, Sm>::build(r, *a); } catch (const lexertl::runtime_error& e) { ea = e.what(); }
        try { Lib l; lexertl::basic_generator<Rules, Sm>::build(q, *b); } catch (const lexertl::runtime_error& e) { eb = e.what(); }
        SIM_CHECK(ea == eb, "build-differs", "building says \"%s\", but \"%s\" from the successful calls alone", ea.c_str(), eb.c_str());
        if (ea.empty())
        {
            SIM_CHECK(ser::same(*a, *b), "build-differs", "the machine differs from that of the successful calls alone in its %s", ser::diff(*a, *b).c_str());
            event("built", ser::digest(*a));
            if (spec_ok) { count("tokens-compared"); ser::tokens_ok<C, id>(s, *a); }
        }
        else
        {
            count("rejected-build");
            SIM_CHECK(!spec_ok || bridge::documented_rejection(ea, s), "rejects-valid-rules", "a valid rule set was rejected: %s", ea.c_str());
        }
        Lib l;
        a.reset();
        b.reset();
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; Run<char, char, uint16_t>::go(o); }
const Info info = {
    "P11",
    "a random valid history of rule, macro and state calls, interleaved with invalid and mangled calls, copies, clears and reversals; each call is tried "
    "with failing allocations (a few, or every one in turn) and then repeated; non-trivial: at least one call failed",
    "rules, tokeniser, generator, lookup",
    "heap: seeded arena, failing allocations once or from then on",
    "event history hash of (calls, outcomes, machine)",
    "whether a mangled regex is valid is taken from the library itself, only the effect is checked"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    try { r.push("(", 1); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    o.reverse = false;
    switch (g(6))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Run<char, char, uint8_t>::go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Run<wchar_t, wchar_t, uint16_t>::go(o); }
#else
DEF(3) { o.max_char = 0xffff; o.narrow_rules = true; Run<char, char16_t, uint32_t>::go(o); }
#endif
}
