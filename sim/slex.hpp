// slex.hpp - lexing through stream_shared_iterator (P04 without, P06 with
// failures), compared with the reference run over the text that arrived.
#pragma once
#include "lib.hpp"
#include "simio.hpp"
#include <lexertl/stream_shared_iterator.hpp>

namespace slex
{
using namespace sim;
using bridge::u32str;
static const size_t all = 1 | 2 | 4 | 8 | 16 | 64;

// Remembers what each successful read() gave.
template<typename C> struct Buf : simio::InBuf<C>
{
    using simio::InBuf<C>::InBuf;
    std::basic_string<C> given;
protected:
    std::streamsize xsgetn(C* s, std::streamsize n) override
    {
        sim::Harness h;
        const std::streamsize k = std::basic_streambuf<C>::xsgetn(s, n);
        given.append(s, static_cast<size_t>(k));
        return k;
    }
};
template<typename RC, typename C, typename id, bool failing> struct Run
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    using It = lexertl::basic_stream_shared_iterator<C>;
    using Flat = lexertl::match_results<It, id, all>;
    using Rec = lexertl::recursive_match_results<It, id, all | 32>;

    const model::Spec& s;
    const Sm& sm;
    Buf<C> buf;
    std::basic_istream<C> is;
    u32str in;                     // the text
    bool masked = true;            // failures do not throw out of the stream
    size_t bs = 1, inc = 1;
    struct Kept { It* a; It* b; size_t first, second; };
    std::vector<Kept> kept;
    size_t tokens = 0;

    Run(const model::Spec& sp, const Sm& m, const u32str& text) : s(sp), sm(m), buf(bridge::conv<C>(text)), is(&buf), in(text) {}

    // The text as far as it has arrived or can still arrive.
    u32str effective()
    {
        u32str e;
        for (C c : buf.given) e.push_back(static_cast<char32_t>(static_cast<std::make_unsigned_t<C>>(c)));
        if (is.good() || !buf.failures)
            for (size_t i = buf.position(); i < buf.data.size(); ++i) e.push_back(in[i]);
        return e;
    }
    void keep(const It& a, const It& b, size_t first, size_t second)
    {
        Lib l;
        Kept k{ new It(a), new It(b), first, second };
        Harness h;
        kept.push_back(k);
    }
    void check_text(const It& a, const It& b, size_t first, size_t second, const char* sig)
    {
        std::basic_string<C> got;
        {
            Lib l;
            got = std::basic_string<C>(a, b);
        }
        const u32str e = effective();
        const std::basic_string<C> want = bridge::conv<C>(e.substr(first, second - first));
        if (got != want)
            violation(sig, "the text of the token at [%zu,%zu) of \"%s\" reads \"%s\" (buffer %zu, increment %zu); rules: %s", first, second,
                model::show(e).c_str(), model::show(u32str(got.begin(), got.end())).c_str(), bs, inc, model::describe(s).c_str());
    }
    void drop(size_t i)
    {
        Kept k = kept[i];
        check_text(*k.a, *k.b, k.first, k.second, "kept-token-text");
        kept.erase(kept.begin() + static_cast<long>(i));
        Lib l;
        if (gc(1, 2)) { delete k.a; delete k.b; } else { delete k.b; delete k.a; }
    }
    [[noreturn]] void bad(const char* sig, const model::Tok& got, const model::Tok& want)
    {
        violation(sig, "stream of \"%s\" (buffer %zu, increment %zu, failures %zu): got %s, reference over what arrived (\"%s\") %s; rules: %s",
            model::show(in).c_str(), bs, inc, buf.failures, model::str(got, s).c_str(), model::show(effective()).c_str(),
            model::str(want, s).c_str(), model::describe(s).c_str());
    }
    // One lookup; the state may be ambiguous after an interruption.
    template<typename Res> bool step_lookup(Res& r, std::vector<model::State>& sts, bool faults, bool first)
    {
        (void)first;
        for (int t = 0;; ++t)
        {
            bool arm = false;
            if (failing && faults && t < 2 && chance(FAULT, 1, 8)) { arm_alloc_fault(logu(FAULT, 2), false); arm = true; }
            bool interrupted = false, io = false;
            model::Tok got;
            try
            {
                Lib l;
                lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&) { got.underflow = true; }
            catch (const simio::IoError&) { interrupted = io = true; }
            catch (const std::ios_base::failure&)
            {
                if (!buf.failures) violation("spurious-failure", "a stream failure without an injected one");
                interrupted = io = true;
            }
            catch (const std::bad_alloc&)
            {
                if (!arm) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
                interrupted = true;
            }
            if (arm) disarm_alloc_fault();
            if (interrupted)
            {
                count("lookup-interrupted");
                // Whatever was lost inside the failed read() is gone; the run
                // must carry on with what did arrive and what is still to come.
                const bool clear = chance(FAULT, 3, 4);
                if (!io) {}
                else if (clear) is.clear();
                else is.exceptions(std::ios::goodbit);
                const u32str e = effective();
                std::vector<model::State> next;
                for (auto& st : sts)
                {
                    std::vector<model::State> cps{ st };
                    model::State x = st;
                    // the interrupted run saw only a prefix of some text,
                    // but what it committed are whole tokens of it
                    model::next(s, e, x, &cps);
                    for (auto& c : cps)
                        if (c.pos <= buf.given.size() && r.bol == c.bol && static_cast<int>(r.state) == c.state && bridge::stack_is(r, c)) next.push_back(c);
                }
                if (next.empty())
                    violation("interrupted-lookup", "an interrupted lookup left bol %d state %d, which no lookup over \"%s\" passes through; rules: %s", r.bol,
                        static_cast<int>(r.state), model::show(e).c_str(), model::describe(s).c_str());
                sts = next;
                event("interrupted", r.state, clear);
                continue;
            }
            const u32str e = effective();
            std::basic_string<C> text;
            if (!got.underflow)
            {
                got.id = r.id;
                got.uid = r.user_id;
                got.bol = r.bol;
                got.state = static_cast<int>(r.state);
                got.depth = bridge::depth_of(r);
                Lib l;
                text = r.str();
            }
            std::vector<model::State> next;
            model::Tok want, hit;
            for (auto& st : sts)
            {
                model::State x = st;
                want = model::next(s, e, x);
                got.first = want.first;
                got.second = want.second;
                if (!(got == want)) continue;
                if (!got.underflow && (text != bridge::conv<C>(e.substr(want.first, want.second - want.first)) || !bridge::stack_is(r, x))) continue;
                next.push_back(x);
                hit = want;
            }
            if (next.empty())
            {
                got.first = got.second = 0;
                got.second = text.size();
                bad("tokens-differ", got, want);
            }
            sts = next;
            ++tokens;
            event("tok", got.id, text.size(), r.state);
            if (sts.size() == 1 && !got.underflow)
            {
                if (kept.size() < 6 && gc(1, 6)) keep(r.first, r.second, hit.first, hit.second);
                const size_t p = sts[0].pos;
                const It end;
                bool at_end;
                { Lib l; at_end = r.second == end; }
                if (at_end != (p >= e.size()))
                    violation("end-differs", "at %zu of \"%s\" the iterator %s the end; rules: %s", p, model::show(e).c_str(), at_end ? "is at" : "is not at",
                        model::describe(s).c_str());
            }
            return !(got.underflow || got.id == 0);
        }
    }
    template<typename Res> void run(bool faults)
    {
        const u64 mark = heap_mark();
        It* master = nullptr;
        bool arm = false;
        if (failing && faults && chance(FAULT, 1, 12)) { arm_alloc_fault(logu(FAULT, 2), false); arm = true; }
        struct Lexer { Res* r; std::vector<model::State> st; bool done; };
        std::vector<Lexer> lx;
        const bool keep_master = gc(1, 3);
        const bool bol = !gc(1, 6);
        for (int t = 0;; ++t)
        {
            Res* r = nullptr;
            try
            {
                Lib l;
                if (keep_master)
                {
                    if (!master) master = new It(is, bs, inc);
                    r = new Res(*master, It(), bol);
                }
                else r = new Res(It(is, bs, inc), It(), bol);
            }
            catch (const simio::IoError&) {}
            catch (const std::bad_alloc&) { if (!arm) violation("spurious-bad-alloc", "bad_alloc without an injected failure"); }
            if (arm) disarm_alloc_fault();
            if (r) { lx.push_back({ r, { model::State() }, false }); break; }
            if (!failing || t > 3) violation("cannot-start", "no iterator could be made on the stream");
            count("start-interrupted");
            is.clear();
            // what a failed construction had read is lost with its buffer
            if (!master) buf.given.clear();
        }
        lx[0].st[0].bol = bol;
        // text lost before the start does not count
        for (size_t ops = 0; ops < 600; ++ops)
        {
            size_t i = g(lx.size());
            if (lx[i].done)
            {
                for (i = 0; i < lx.size() && lx[i].done;) ++i;
                if (i == lx.size()) break;
            }
            Lexer& x = lx[i];
            if (!step_lookup(*x.r, x.st, faults, ops == 0)) x.done = true;
            if (!kept.empty() && gc(1, 8)) drop(g(kept.size()));
            switch (g(24))
            {
            case 23:
                if (lx.size() < 3 && !x.done)
                {
                    // a second reader carries on from here
                    Res* n;
                    { Lib l; n = new Res(*x.r); }
                    lx.push_back({ n, x.st, false });
                    count("forked-reader");
                }
                break;
            case 22:
                if (lx.size() > 1)
                {
                    { Lib l; delete x.r; }
                    lx.erase(lx.begin() + static_cast<long>(i));
                }
                break;
            case 21:
                if (lx.size() > 1)
                {
                    const size_t j = g(lx.size());
                    if (j != i) { { Lib l; *lx[i].r = *lx[j].r; } lx[i].st = lx[j].st; lx[i].done = lx[j].done; }
                }
                break;
            case 20:
                if (!kept.empty() && !x.done && gc(1, 2))
                {
                    // go back to an earlier token
                    const Kept& k = kept[g(kept.size())];
                    { Lib l; x.r->reset(*k.a, It()); }
                    model::State st;
                    st.pos = k.first;
                    x.st = { st };
                    count("rewound");
                }
                break;
            case 19:
            {
                Lib l;
                Res c(*x.r);
                std::swap(c, *x.r);
                break;
            }
            case 18:
                if (master && gc(1, 4)) { Lib l; delete master; master = nullptr; }
                break;
            default: break;
            }
        }
        while (!kept.empty()) drop(g(kept.size()));
        while (!lx.empty())
        {
            const size_t i = g(lx.size());
            { Lib l; delete lx[i].r; }
            lx.erase(lx.begin() + static_cast<long>(i));
        }
        if (master) { Lib l; delete master; }
        std::string what;
        if (leaked(what, mark)) violation("leak", "memory still held after the last iterator is gone: %s", what.c_str());
    }
    // through lexertl::iterator
    template<typename Res> void iterate()
    {
        const u64 mark = heap_mark();
        const std::vector<model::Tok> want = model::tokens(s, in, model::State(), 400);
        for (auto& t : want) if (t.underflow) return;
        size_t exp = 0;
        while (exp < want.size() && want[exp].first != in.size()) ++exp;
        if (exp == 400) return;
        {
            using LI = lexertl::iterator<It, Sm, Res>;
            Lib l;
            LI it(It(is, bs, inc), It(), sm), end;
            for (size_t k = 0;; ++k)
            {
                const bool e = it == end;
                {
                    Harness h;
                    SIM_CHECK(e == (k >= exp), "iterator-count", "lexertl::iterator over a stream %s after %zu tokens, reference %zu, input \"%s\" buffer %zu increment %zu; rules: %s",
                        e ? "ended" : "runs on", k, exp, model::show(in).c_str(), bs, inc, model::describe(s).c_str());
                    if (e) break;
                    const bool same = it->id == want[k].id && it->user_id == want[k].uid && static_cast<int>(it->state) == want[k].state;
                    std::basic_string<C> text;
                    { Lib l2; text = it->str(); }
                    if (!same || text != bridge::conv<C>(in.substr(want[k].first, want[k].second - want[k].first)))
                        violation("iterator-differs", "lexertl::iterator over a stream gives another token at %zu of \"%s\" buffer %zu increment %zu; rules: %s", k,
                            model::show(in).c_str(), bs, inc, model::describe(s).c_str());
                    ++tokens;
                }
                if (k % 3 == 2) it++;
                else ++it;
            }
        }
        std::string what;
        if (leaked(what, mark)) violation("leak", "memory still held after the last iterator is gone: %s", what.c_str());
    }
};
template<typename RC, typename C, typename id, bool failing> void go(model::GenOpt o)
{
    using R = Run<RC, C, id, failing>;
    o.npos = static_cast<id>(~0);
    o.max_states = gc(1, 3) ? 3 : 1;
    o.recursive = o.max_states > 1;
    o.max_rules = static_cast<int>(gr(1, 5));
    o.depth = 2;
    o.max_macros = 1;
    model::Gen gen;
    gen.o = o;
    const model::Spec s = gen.make();
    setup_heap_policy();
    describe("%s; ", model::describe(s).c_str());
    event_str("rules", model::describe(s));
    typename R::Sm sm;
    bridge::make_machine<typename R::Rules>(s, sm, false);
    const size_t inputs = 1 + g(4);
    for (size_t i = 0; i < inputs; ++i)
    {
        const u32str in = gc(1, 12) ? u32str() : model::gen_input(s, 1 + logu(GEN, 7));
        R r(s, sm, in);
        r.bs = gc(1, 8) ? g(2) : 1 + logu(GEN, 6);
        r.inc = gc(1, 8) ? g(2) : 1 + logu(GEN, 5);
        if (gc(1, 4)) r.buf.chunk = 1 + g(8);
        bool faults = false;
        if (failing)
        {
            faults = true;
            if (chance(FAULT, 3, 4))
            {
                r.buf.fail_at = choose(FAULT, in.size() + 1);
                r.buf.fail = chance(FAULT, 1, 2) ? simio::EARLY_EOF : simio::THROW;
                if (chance(FAULT, 2, 3)) { r.masked = false; r.is.exceptions(std::ios::badbit); }
            }
        }
        describe("input \"%s\" buffer %zu increment %zu chunk %zu fail %d at %zu; ", model::show(in).c_str(), r.bs, r.inc, r.buf.chunk,
            static_cast<int>(r.buf.fail), r.buf.fail_at);
        if (!failing && gc(1, 4))
        {
            if (s.recursive) r.template iterate<typename R::Rec>();
            else r.template iterate<typename R::Flat>();
        }
        else if (s.recursive) r.template run<typename R::Rec>(faults);
        else r.template run<typename R::Flat>(faults);
        count("tokens", r.tokens);
        if (r.tokens >= 3 && (failing ? r.buf.failures > 0  : r.buf.reads > 1)) nontrivial();
    }
}
}
