// PARTS: 4
// P14: lexing resumes exactly after a crash from a checkpoint and a saved
// machine.  A node lexes a text and journals where it is; it crashes at any
// point, keeps what was durable, and starts again.
#include "ser.hpp"
#include <lexertl/stream_shared_iterator.hpp>
#ifndef PART
#define PART 0
#endif
namespace sim
{
struct Record
{
    size_t pos = 0;
    bool bol = true;
    int state = 0;
    std::vector<std::pair<u64, u64>> stack;     // bottom first
    size_t tokens = 0;
};
struct Crash {};

template<typename RC, typename C, typename id, typename S, bool rec> struct Node
{
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    static constexpr size_t all = 1 | 2 | 4 | 8 | 16 | 64;
    template<typename It> using Res = std::conditional_t<rec, lexertl::recursive_match_results<It, id, all | 32>, lexertl::match_results<It, id, all>>;
    using str = std::basic_string<S>;

    model::Spec s;
    bridge::u32str in;
    std::basic_string<C> text;
    std::vector<model::Tok> want;
    std::vector<model::State> after;      // reference state after each token

    // the disk
    str file;                             // saved machine, may be torn
    std::vector<Record> journal;
    size_t durable = 0;                   // records that are sure to survive

    // outside world
    Sm saved;                             // what the file should hold
    bool have_saved = false;
    bool faults = true;
    size_t most = 0;                      // tokens seen by anyone
    bool finished = false;

    void die(const char* why)
    {
        count(why);
        event("crash", journal.size(), durable);
        throw Crash();
    }
    bool maybe(u64 n, u64 d) { return faults && chance(FAULT, n, d); }

    void machine(Sm& sm)
    {
        if (!file.empty())
        {
            simio::InBuf<S> src(file);
            if (gc(1, 3)) src.chunk = 1 + g(9);
            std::basic_istream<S> is(&src);
            if (maybe(1, 6))
            {
                src.fail_at = choose(FAULT, file.size() + 1);
                src.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
            }
            if (maybe(1, 8)) arm_alloc_fault(logu(FAULT, 6), false);
            bool ok = true;
            try { Lib l; lexertl::load(is, sm); }
            catch (const std::exception&) { ok = false; }
            disarm_alloc_fault();
            if (ok)
            {
                SIM_CHECK(ser::same(sm, saved), "other-machine", "the machine loaded after the crash is another one: %s differ%s", ser::diff(sm, saved).c_str(), "");
                count("machine-loaded");
                event("loaded");
                return;
            }
            count("machine-file-unusable");
        }
        sm = Sm();
        bridge::make_machine<Rules>(s, sm, faults);
        const bool mini = gc(1, 5);
        if (mini) { Lib l; sm.minimise(); }
        count("machine-rebuilt");
        // written in place: a crash or a full disk leaves the beginning
        simio::OutBuf<S> sink(g(2) * 64);
        std::basic_ostream<S> os(&sink);
        bool crash = false;
        if (maybe(1, 3))
        {
            sink.limit = logu(FAULT, 13);
            sink.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
            crash = chance(FAULT, 1, 2);
        }
        try { Lib l; lexertl::save(sm, os); os.flush(); }
        catch (const std::exception&) {}
        file = crash ? sink.got : sink.all();
        saved = sm;
        if (sink.failures) count("fault:machine-file-torn");
        if (crash && sink.failures) die("crash-while-saving");
    }
    // one token was given; r is the node's results object
    template<typename R> void token(const R& r, size_t k, size_t first, size_t second)
    {
        if (k >= want.size()) violation("too-many-tokens", "a restarted node gave more tokens than the reference; input \"%s\"; rules: %s", model::show(in).c_str(), model::describe(s).c_str());
        model::Tok got;
        got.id = r.id;
        got.uid = r.user_id;
        got.first = first;
        got.second = second;
        got.bol = r.bol;
        got.state = static_cast<int>(r.state);
        got.depth = bridge::depth_of(r);
        if (!(got == want[k]) || !bridge::stack_is(r, after[k]))
            violation("tokens-differ", "token %zu of \"%s\" after %zu restarts: got %s, reference %s; rules: %s", k, model::show(in).c_str(), restarts, model::str(got, s).c_str(),
                model::str(want[k], s).c_str(), model::describe(s).c_str());
        event("tok", got.id, got.second, k);
        if (k < most) count("tokens-repeated");
        else most = k + 1;
        Record rc;
        rc.pos = second;
        rc.bol = r.bol;
        rc.state = static_cast<int>(r.state);
        stack_of(r, rc.stack);
        rc.tokens = k + 1;
        journal.push_back(rc);
        if (gc(1, 3)) durable = journal.size();
        if (got.id == 0) finished = true;
    }
    template<typename I> static void stack_of(const lexertl::match_results<I, id, all>&, std::vector<std::pair<u64, u64>>&) {}
    template<typename I> static void stack_of(const lexertl::recursive_match_results<I, id, all | 32>& r, std::vector<std::pair<u64, u64>>& v)
    {
        auto c = r.stack;
        for (; !c.empty(); c.pop()) v.insert(v.begin(), { c.top().first, c.top().second });
    }
    template<typename I> static void restore(lexertl::match_results<I, id, all>&, const Record&) {}
    template<typename I> static void restore(lexertl::recursive_match_results<I, id, all | 32>& r, const Record& c)
    {
        for (auto& p : c.stack) r.stack.emplace(static_cast<id>(p.first), static_cast<id>(p.second));
    }
    template<typename It> void lex(const Sm& sm, const Record& from, It b, It e, simit::Source<C>* src, size_t base)
    {
        Res<It> r(b, e, from.bol, static_cast<id>(from.state));
        restore(r, from);
        run(sm, from, r, src, base);
    }
    static size_t dist(const C* a, const C* b) { return static_cast<size_t>(b - a); }
    static size_t dist(const simit::Iter<C>& a, const simit::Iter<C>& b) { return b.p - a.p; }
    template<typename I> static size_t dist(const lexertl::basic_stream_shared_iterator<C>& a, const I& b)
    {
        size_t n = 0;
        for (auto i = a; i != b; ++i) ++n;
        return n;
    }
    template<typename R> void run(const Sm& sm, const Record& from, R& r, simit::Source<C>* src, size_t base)
    {
        size_t k = from.tokens, pos = base;
        while (!finished)
        {
            if (maybe(1, 12)) die("crash-between-tokens");
            const bool die_in = maybe(1, 12);
            bool alloc = false;
            if (die_in && src && chance(FAULT, 2, 3)) src->fail_at = src->ops + logu(FAULT, 5);
            else if (die_in) { arm_alloc_fault(logu(FAULT, 2), false); alloc = true; }
            const model::State before = k ? after[k - 1] : model::State();
            bool under = false, cut = false;
            // of the text not used yet
            typename R::iter_type was = r.second;
            try { Lib l; lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { under = true; }
            catch (const simit::IoError&) { cut = true; }
            catch (const std::bad_alloc&) { if (!alloc) violation("spurious-bad-alloc", "bad_alloc without an injected failure"); cut = true; }
            if (src) src->fail_at = ~0ull;
            disarm_alloc_fault();
            if (cut) die(alloc ? "crash-without-memory" : "crash-on-read-error");
            if (under)
            {
                SIM_CHECK(k < want.size() && want[k].underflow, "tokens-differ", "stack underflow after %zu tokens of \"%s\"; rules: %s", k, model::show(in).c_str(), model::describe(s).c_str());
                finished = true;
                return;
            }
            // positions by lengths, as a node that keeps its place would
            size_t first, second;
            {
                Lib l;
                const size_t skipped = dist(was, r.first), len = dist(r.first, r.second);
                first = pos + skipped;
                second = first + len;
            }
            token(r, k, first, second);
            pos = second;
            ++k;
        }
    }
    size_t restarts = 0;
    void incarnation()
    {
        Sm sm;
        machine(sm);
        const Record from = journal.empty() ? Record() : journal.back();
        SIM_CHECK(from.tokens == journal.size(), "harness", "journal out of step");
        switch (g(4))
        {
        case 0:
        {
            const C* b = text.data();
            lex<const C*>(sm, from, b + from.pos, b + text.size(), nullptr, from.pos);
            break;
        }
        case 1:
        {
            simit::Source<C> src;
            src.b = text.data();
            src.n = text.size();
            lex<simit::Iter<C>>(sm, from, simit::Iter<C>(&src, from.pos), simit::Iter<C>(&src, text.size()), &src, from.pos);
            break;
        }
        case 2:
        {
            using It = lexertl::basic_stream_shared_iterator<C>;
            simio::InBuf<C> buf(text.substr(from.pos));
            std::basic_istream<C> is(&buf);
            const size_t bs = gr(1, 30), inc = gr(1, 20);
            It b;
            { Lib l; b = It(is, bs, inc); }
            lex<It>(sm, from, b, It(), nullptr, from.pos);
            break;
        }
        default:
        {
            // an object from before, reset, and then a copy of it
            const C* b = text.data();
            Res<const C*> r(b, b + g(text.size() + 1));
            { Lib l; r.reset(b + from.pos, b + text.size()); }
            r.bol = from.bol;
            r.state = static_cast<id>(from.state);
            restore(r, from);
            Res<const C*> copy(r);
            run(sm, from, copy, nullptr, from.pos);
            break;
        }
        }
    }
    void go(model::GenOpt o)
    {
        o.npos = static_cast<id>(~0);
        o.recursive = rec;
        model::Gen gen;
        gen.o = o;
        s = gen.make();
        setup_heap_policy();
        describe("%s; ", model::describe(s).c_str());
        event_str("rules", model::describe(s));
        in = model::gen_input(s, 4 + g(60));
        text = bridge::conv<C>(in);
        describe("input \"%s\"; ", model::show(in).c_str());
        model::State st;
        for (size_t i = 0; i < 300; ++i)
        {
            const model::Tok t = model::next(s, in, st);
            want.push_back(t);
            after.push_back(st);
            if (t.underflow || t.id == 0) break;
        }
        if (!want.back().underflow && want.back().id != 0) discard("a long token sequence");
        const size_t most_restarts = g(12);
        for (;; ++restarts)
        {
            faults = restarts < most_restarts;
            try
            {
                incarnation();
                if (finished) break;
            }
            catch (const Crash&)
            {
                SIM_CHECK(faults, "harness", "a crash after the faults stopped");
                // records not yet durable may or may not have survived
                const size_t keep = durable + choose(FAULT, journal.size() - durable + 1);
                if (keep < journal.size()) count("fault:records-lost", journal.size() - keep);
                journal.resize(keep);
                durable = keep;
            }
        }
        const size_t n = want.back().underflow ? want.size() - 1 : want.size();
        SIM_CHECK(most == n && journal.size() == n, "tokens-missing", "%zu of %zu tokens were given; input \"%s\"", most, n, model::show(in).c_str());
        if (restarts && n >= 3) nontrivial();
        count("restarts", restarts);
        count("tokens", n);
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; if (gc(1, 3)) Node<char, char, uint16_t, char, false>().go(o); else Node<char, char, uint16_t, char, true>().go(o); }
const Info info = {
    "P14",
    "a node lexes a text of 4-63 characters with a random rule set (1-3 lexer states, push and pop) and journals its position, bol flag, state and stack after each token; it crashes up to 11 times, between tokens, in a "
    "lookup (read error, failed allocation) or while saving the machine, loses any records and the end of the machine file that were not durable, and restarts with the machine loaded or rebuilt and the rest of the text in "
    "memory, behind an iterator or in a stream; non-trivial: at least one restart and three tokens",
    "serialise, state_machine, rules, generator, lookup, match_results, stream_shared_iterator",
    "disk: strings that keep what was durable; streams with seeded pieces, failing reads and writes; heap: seeded arena with failing allocations; crash: the node's objects are dropped",
    "event history hash of (rules, tokens, crashes, restarts)",
    "the checkpoint is taken between tokens; the machine file is written in place; after the planned crashes faults stop and the node must finish"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::stringstream ss;
    lexertl::save(sm, ss);
    lexertl::load(ss, sm);
    try { r.push("(", 1); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    o.max_rules = static_cast<int>(gr(1, 6));
    o.max_states = static_cast<int>(gr(1, 3));
    o.depth = 2;
    switch (g(6))
    {
    case 0: part1(o); break;
    case 1: part2(o); break;
    case 2: part3(o); break;
    default: part0(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0x10ffff; Node<wchar_t, wchar_t, uint16_t, wchar_t, true>().go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0xff; Node<char, char, uint8_t, char, true>().go(o); }
#else
DEF(3) { o.max_char = 0x10ffff; o.narrow_rules = true; if (gc(1, 2)) Node<char, char32_t, uint32_t, char, true>().go(o); else Node<char, char32_t, uint16_t, char, false>().go(o); }
#endif
}
