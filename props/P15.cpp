// PARTS: 4
// P15: replace rewrites exactly the matched text and tells where output stopped.
#include "ser.hpp"
#include <lexertl/replace.hpp>
#include <lexertl/stream_shared_iterator.hpp>
#include <list>
#include <map>
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;
struct UserError { int n; };

// The sink of a position keeping output iterator: characters must be written
// once each, in order.
template<typename C> struct Sink
{
    std::basic_string<C> got;
    size_t fail_at = ~size_t(0);
};
template<typename C> struct Out
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    Sink<C>* s;
    size_t at;
    struct Ref
    {
        Out* o;
        void operator=(const C& c)
        {
            Harness h;
            step();
            if (o->at >= o->s->fail_at) { o->s->fail_at = ~size_t(0); count("fault:output-throws"); throw simit::IoError(); }
            if (o->at != o->s->got.size())
                violation("written-out-of-place", "character %zu of the output is written after %zu characters were", o->at, o->s->got.size());
            o->s->got.push_back(c);
        }
    };
    Ref operator*() { return Ref{ this }; }
    Out& operator++() { ++at; return *this; }
    Out operator++(int) { Out t = *this; ++at; return t; }
};

template<typename C, typename id> struct Rep
{
    using Sm = lexertl::basic_state_machine<C, id>;
    using Str = std::basic_string<C>;
    using CI = typename Str::const_iterator;
    using Stream = lexertl::basic_stream_shared_iterator<C>;
    using SimIt = simit::Iter<C>;
    using List = std::list<C>;
    // ---- callbacks -------------------------------------------------------
    static inline u64 calls, throw_at;
    static inline std::list<Str> arena;
    static void called()
    {
        if (calls++ == throw_at) { throw_at = ~0ull; count("fault:callback-throws"); throw UserError{ 1 }; }
    }
    static Str shape(int k, const Str& t)
    {
        switch (k)
        {
        case 0: return Str(1, C('<')) + t + C('>');
        case 1: return Str();
        default: return Str(t.rbegin(), t.rend()) + t;
        }
    }
    template<int k> static Str string_cb(CI& b, CI& e)
    {
        Str t;
        { Harness h; called(); }
        t = shape(k, Str(b, e));
        return t;
    }
    template<int k> static Str cstring_cb(const C* b, const C* e)
    {
        { Harness h; called(); }
        return shape(k, Str(b, e));
    }
    template<int k, typename I> static const C* ptr_cb(I b, I e)
    {
        { Harness h; called(); }
        Str t;
        for (I i = b; i != e; ++i) { const C c = *i; t.push_back(c); }
        Harness h;
        arena.push_back(shape(k, t));
        return arena.back().c_str();
    }
    template<int k> static const C* ptr_cb_c(const C* b, const C* e) { return ptr_cb<k, const C*>(b, e); }

    // ---- one call ----------------------------------------------------------
    model::Spec spec;
    Sm sm;
    u32str in;
    Str text;
    int form = 0;                       // 0 string, 1 map of strings, 2 map of functions, 3-5 the same with pointers
    Str fmt;
    std::map<id, Str> texts;
    std::map<id, int> shapes;
    Str want;

    Str reference(bool cb_pointer) const
    {
        Str o;
        model::State st;
        size_t last = 0;
        const auto cut = [&](const Str& s) { return s.substr(0, std::min(s.size(), s.find(C(0)))); };
        for (;;)
        {
            const model::Tok t = model::next(spec, in, st);
            if (t.id == 0) break;
            o.append(text, last, t.first - last);
            const Str tok = text.substr(t.first, t.second - t.first);
            switch (form % 3)
            {
            case 0: o += form == 3 ? cut(fmt) : fmt; break;
            case 1:
            {
                auto i = texts.find(static_cast<id>(t.id));
                o += i == texts.end() ? tok : form == 4 ? cut(i->second) : i->second;
                break;
            }
            default:
            {
                auto i = shapes.find(static_cast<id>(t.id));
                o += i == shapes.end() ? tok : cb_pointer ? cut(shape(i->second, tok)) : shape(i->second, tok);
            }
            }
            last = t.second;
        }
        o.append(text, last, text.size() - last);
        return o;
    }
    std::map<id, const C*> pointers() const
    {
        std::map<id, const C*> m;
        for (auto& p : texts) m[p.first] = p.second.c_str();
        return m;
    }
    template<typename F> std::map<id, F> table(F a, F b, F c) const
    {
        std::map<id, F> m;
        for (auto& p : shapes) m[p.first] = p.second == 0 ? a : p.second == 1 ? b : c;
        return m;
    }
    template<typename I, typename O> O stream_form(O out, I first, I second)
    {
        switch (form)
        {
        case 0: { Lib l; return lexertl::replace(out, first, second, sm, fmt); }
        case 1: { Lib l; return lexertl::replace(out, first, second, sm, texts); }
        case 2:
            if constexpr (std::is_same_v<I, CI>)
            {
                const auto m = table<Str(*)(CI&, CI&)>(string_cb<0>, string_cb<1>, string_cb<2>);
                Lib l;
                return lexertl::replace(out, first, second, sm, m);
            }
            else { violation("harness", "no such overload"); }
        case 3: { Lib l; return lexertl::replace(out, first, second, sm, fmt.c_str()); }
        case 4: { const auto m = pointers(); Lib l; return lexertl::replace(out, first, second, sm, m); }
        default:
        {
            const auto m = table<const C*(*)(I, I)>(ptr_cb<0, I>, ptr_cb<1, I>, ptr_cb<2, I>);
            Lib l;
            return lexertl::replace(out, first, second, sm, m);
        }
        }
    }
    Str string_form()
    {
        switch (form)
        {
        case 0: { Lib l; return lexertl::replace(text, sm, fmt); }
        case 1: { Lib l; return lexertl::replace(text, sm, texts); }
        case 2: { const auto m = table<Str(*)(CI&, CI&)>(string_cb<0>, string_cb<1>, string_cb<2>); Lib l; return lexertl::replace(text, sm, m); }
        case 3: { Lib l; return lexertl::replace(text, sm, fmt.c_str()); }
        case 4: { const auto m = pointers(); Lib l; return lexertl::replace(text, sm, m); }
        default: { const auto m = table<const C*(*)(const C*, const C*)>(ptr_cb_c<0>, ptr_cb_c<1>, ptr_cb_c<2>); Lib l; return lexertl::replace(text, sm, m); }
        }
    }
    Str pointer_form()
    {
        const C* t = text.c_str();
        switch (form)
        {
        case 0: { Lib l; return lexertl::replace(t, sm, fmt); }
        case 1: { Lib l; return lexertl::replace(t, sm, texts); }
        case 2: { const auto m = table<Str(*)(const C*, const C*)>(cstring_cb<0>, cstring_cb<1>, cstring_cb<2>); Lib l; return lexertl::replace(t, sm, m); }
        case 3: { Lib l; return lexertl::replace(t, sm, fmt.c_str()); }
        case 4: { const auto m = pointers(); Lib l; return lexertl::replace(t, sm, m); }
        default: { const auto m = table<const C*(*)(const C*, const C*)>(ptr_cb_c<0>, ptr_cb_c<1>, ptr_cb_c<2>); Lib l; return lexertl::replace(t, sm, m); }
        }
    }
    static std::string show(const Str& s)
    {
        u32str t;
        for (C c : s) t.push_back(static_cast<char32_t>(static_cast<std::make_unsigned_t<C>>(c)));
        return model::show(t);
    }
    [[noreturn]] void wrong(const char* sig, const char* how, const Str& got)
    {
        violation(sig, "%s: replacing in \"%s\" (form %d) gave \"%s\", expected \"%s\"; rules: %s", how, model::show(in).c_str(), form, show(got).c_str(),
            show(want).c_str(), model::describe(spec).c_str());
    }
    void all_of(const Str& got, const char* how)
    {
        if (got != want) wrong("output-differs", how, got);
        count("outputs-compared");
        event("out", got.size(), hash_range(got.data(), got.size()));
    }
    void part_of(const Str& got, const char* how)
    {
        if (got.size() > want.size() || want.compare(0, got.size(), got) != 0) wrong("not-a-prefix", how, got);
        count("prefixes-compared");
        event("prefix", got.size());
    }
    enum Fault { NONE, OUTPUT, INPUT, ALLOC, CALLBACK };

    // Where the text goes.
    template<typename I> bool with_input(I first, I second, Fault f, simit::Source<C>* src)
    {
        const u64 to = g(6);
        const size_t k = f == OUTPUT ? choose(FAULT, want.size() + 2) : ~size_t(0);
        if (f == ALLOC) arm_alloc_fault(logu(FAULT, 5), chance(FAULT, 1, 2));
        if (f == INPUT && src) src->fail_at = src->ops + choose(FAULT, 3 * (in.size() + 2));
        event("to", to, f, k);
        Str got;
        bool stopped = false;
        const auto attempt = [&](auto fn)
        {
            try { fn(); }
            catch (const std::bad_alloc&)
            {
                if (f != ALLOC) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
                count("fault:replace-without-memory");
                stopped = true;
            }
            catch (const simit::IoError&) { stopped = true; }
            catch (const UserError&) { stopped = true; }
            disarm_alloc_fault();
            if (src) src->fail_at = ~0ull;
            throw_at = ~0ull;
        };
        switch (to)
        {
        case 0:                                          // checked position
        case 1:
        {
            Sink<C> sink;
            sink.fail_at = k;
            size_t end = 0;
            attempt([&]() { end = stream_form(Out<C>{ &sink, 0 }, first, second).at; });
            if (stopped) part_of(sink.got, "output iterator");
            else
            {
                all_of(sink.got, "output iterator");
                SIM_CHECK(end == sink.got.size(), "returned-position", "the returned output iterator is at %zu of %zu characters written", end, sink.got.size());
            }
            break;
        }
        case 2:                                          // a plain array of just the right size
        {
            std::vector<C> room(want.size() + 1, C(0x55));
            C* const b = room.data();
            C* e = nullptr;
            if (f == OUTPUT) { event("no-such-fault"); }
            attempt([&]() { e = stream_form(b, first, second); });
            if (!stopped)
            {
                SIM_CHECK(e >= b && e <= b + want.size() + 1, "returned-position", "the returned pointer is outside of the array");
                all_of(Str(b, e), "array");
                SIM_CHECK(room[want.size()] == C(0x55), "output-too-long", "written past the end of the output");
            }
            break;
        }
        case 3:                                          // grows
        {
            Str grown;
            attempt([&]() { stream_form(std::back_inserter(grown), first, second); });
            if (stopped) part_of(grown, "back_inserter"); else all_of(grown, "back_inserter");
            break;
        }
        case 4:                                          // a stream buffer
        {
            simio::OutBuf<C> buf(g(2) * g(9));
            buf.limit = k;
            buf.fail = chance(FAULT, 1, 2) ? simio::EARLY_EOF : simio::THROW;
            buf.once = chance(FAULT, 1, 2);
            bool failed = false;
            attempt([&]() { failed = stream_form(std::ostreambuf_iterator<C>(&buf), first, second).failed(); });
            if (!stopped && !buf.failures)
            {
                SIM_CHECK(!failed, "spurious-failure", "the returned iterator says that output failed but it did not");
                all_of(buf.all(), "stream buffer iterator");
            }
            else if (stopped) { if (!buf.once || !buf.failures) part_of(buf.all(), "stream buffer iterator"); }
            else
            {
                if (buf.failures && !failed)
                    violation("failure-hidden", "the output took only %zu of %zu characters and the returned iterator does not say so", k, want.size());
                part_of(buf.got, "stream buffer iterator");
            }
            break;
        }
        default:                                         // a stream
        {
            simio::OutBuf<C> buf(g(2) * g(9));
            std::basic_ostream<C> os(&buf);
            buf.limit = k;
            attempt([&]() { stream_form(std::ostream_iterator<C, C>(os), first, second); });
            if (!stopped && os.good()) all_of(buf.all(), "stream iterator");
            else if (!stopped) { SIM_CHECK(buf.failures, "spurious-failure", "the stream failed without an injected failure"); part_of(buf.got, "stream iterator"); }
            break;
        }
        }
        return !stopped;
    }
    bool once(Fault f)
    {
        const u64 from = g(f == INPUT ? 2 : 8);
        form = static_cast<int>(g(6));
        calls = 0;
        throw_at = f == CALLBACK ? choose(FAULT, 6) : ~0ull;
        want = Str();
        if (from == 7) for (auto i = in.begin(); i != in.end();) { if (*i == 0) i = in.erase(i); else ++i; }
        text = bridge::conv<C>(in);
        event("replace", from, static_cast<u64>(form));
        switch (from)
        {
        case 0: case 1:                                  // a device
        {
            if (form == 2) form = 5;
            want = reference(form == 5);
            simit::Source<C> src;
            src.b = text.data();
            src.n = text.size();
            return with_input(SimIt(&src, 0), SimIt(&src, src.n), f, &src);
        }
        case 2:                                          // memory
        {
            if (form == 2) form = 5;
            want = reference(form == 5);
            const C* b = text.data();
            return with_input(b, b + text.size(), f, nullptr);
        }
        case 3:
            want = reference(form == 5);
            return with_input(text.cbegin(), text.cend(), f, nullptr);
        case 4:
        {
            if (form == 2) form = 5;
            want = reference(form == 5);
            const List li(text.begin(), text.end());
            return with_input(li.cbegin(), li.cend(), f, nullptr);
        }
        case 5:                                          // a stream that arrives in pieces
        {
            if (form == 2) form = 5;
            want = reference(form == 5);
            simio::InBuf<C> buf(text);
            buf.chunk = g(2) * gr(1, 5);
            std::basic_istream<C> is(&buf);
            return with_input(Stream(is, 1 + g(7), 1 + g(7)), Stream(), f, nullptr);
        }
        default:                                         // whole strings
        {
            want = reference(form == 5);
            if (f == ALLOC) arm_alloc_fault(logu(FAULT, 4), chance(FAULT, 1, 2));
            bool stopped = false;
            try
            {
                const Str got = from == 6 ? string_form() : pointer_form();
                disarm_alloc_fault();
                all_of(got, from == 6 ? "string" : "pointer");
            }
            catch (const std::bad_alloc&)
            {
                if (f != ALLOC) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
                count("fault:replace-without-memory");
                stopped = true;
            }
            catch (const UserError&) { stopped = true; }
            disarm_alloc_fault();
            throw_at = ~0ull;
            return !stopped;
        }
        }
    }
    void go(model::GenOpt o)
    {
        setup_heap_policy();
        o.npos = static_cast<id>(~0);
        o.max_states = gc(1, 3) ? 3 : 1;
        o.max_rules = static_cast<int>(gr(1, 4));
        o.depth = 2;
        o.max_macros = 1;
        model::Gen gen;
        gen.o = o;
        spec = gen.make();
        describe("rules %s; ", model::describe(spec).c_str());
        event_str("rules", model::describe(spec));
        bridge::make_machine<lexertl::basic_rules<C, C, id>>(spec, sm, false);
        const u64 machine = ser::digest(sm);
        const size_t n = 1 + g(4);
        for (size_t i = 0; i < n; ++i)
        {
            in = model::gen_input(spec, g(40));
            text = bridge::conv<C>(in);
            fmt = bridge::conv<C>(model::gen_input(spec, g(6)));
            texts.clear();
            shapes.clear();
            model::State st;
            for (int k = 0; k < 200; ++k)
            {
                const model::Tok t = model::next(spec, in, st);
                if (t.id == 0) break;
                if (gc(1, 2)) texts[static_cast<id>(t.id)] = gc(1, 6) ? Str() : bridge::conv<C>(model::gen_input(spec, 1 + g(4)));
                if (gc(1, 2)) shapes[static_cast<id>(t.id)] = static_cast<int>(g(3));
            }
            describe("input \"%s\"; ", model::show(in).c_str());
            nontrivial();
            set_step_budget(50000000);
            if (chance(FAULT, 1, 2))
            {
                const Fault f = static_cast<Fault>(1 + choose(FAULT, 4));
                once(f);
                if (ser::digest(sm) != machine) violation("machine-changed", "replacing changed the machine");
            }
            once(NONE);
            if (gc(1, 2)) once(NONE);
            if (ser::digest(sm) != machine) violation("machine-changed", "replacing changed the machine");
        }
        arena.clear();
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2); DEF(3);
#if PART == 0
DEF(0) { o.max_char = 0xff; Rep<char, uint16_t> r; r.go(o); }
const Info info = {
    "P15",
    "rule sets of the reference language (up to 3 lexer states), inputs of up to 40 characters, all 18 overloads: replacement text, map of texts, map of functions; input from a device, memory, list, "
    "a stream in pieces, strings; output to a checked iterator, an array, back_inserter, a stream buffer, a stream; output, input, memory or function failing at a seeded place, then the same again without; "
    "output compared with the tokens of the reference; non-trivial: every run",
    "replace, lookup, match_results, state_machine, stream_shared_iterator, rules, generator",
    "output devices: streambuf and iterators that fail where the plan says; input devices: iterator and streambuf likewise; heap: seeded arena with failing allocations",
    "event history hash of (rules, forms, faults, output)",
    "a character no rule matches is a match with the id npos, as the documentation says; replacements given as pointers end at their first zero character"
};
void warmup()
{
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(6))
    {
    case 0: case 1: case 2: part0(o); break;
    case 3: part1(o); break;
    case 4: part2(o); break;
    default: part3(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Rep<char, uint8_t> r; r.go(o); }
#elif PART == 2
DEF(2) { o.max_char = 0x10ffff; Rep<wchar_t, uint16_t> r; r.go(o); }
#else
DEF(3) { o.max_char = 0xff; Rep<char, uint32_t> r; r.go(o); }
#endif
}
