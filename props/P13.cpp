// PARTS: 4
// P13: UTF iterators follow the encoding and stay in range, even on damaged
// text.
#include "lib.hpp"
#include <lexertl/utf_iterators.hpp>
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;

// ---- the encodings, from the Unicode standard -----------------------------
inline bool scalar(u32 c) { return c < 0xd800 || (c > 0xdfff && c <= 0x10ffff); }
inline std::vector<u32> enc8(u32 c)
{
    if (c < 0x80) return { c };
    if (c < 0x800) return { 0xc0 | c >> 6, 0x80 | (c & 63) };
    if (c < 0x10000) return { 0xe0 | c >> 12, 0x80 | (c >> 6 & 63), 0x80 | (c & 63) };
    return { 0xf0 | c >> 18, 0x80 | (c >> 12 & 63), 0x80 | (c >> 6 & 63), 0x80 | (c & 63) };
}
inline std::vector<u32> enc16(u32 c)
{
    if (c < 0x10000) return { c };
    return { 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff) };
}
// Well-formed characters up to the first damage.
struct Decoded
{
    std::vector<u32> cp;
    std::vector<size_t> at;       // where each begins; one more: where they end
    bool damaged = false;
};
inline Decoded dec(const std::vector<u32>& u, bool utf8)
{
    Decoded d;
    size_t i = 0;
    d.at.push_back(0);
    while (i < u.size())
    {
        u32 c = 0xffffffff;
        size_t n = 1;
        const auto cont = [&](size_t k) { return i + k < u.size() && u[i + k] >= 0x80 && u[i + k] <= 0xbf; };
        const u32 b = u[i], b1 = i + 1 < u.size() ? u[i + 1] : 0;
        if (utf8)
        {
            // Table 3-7, Well-Formed UTF-8 Byte Sequences
            if (b < 0x80) c = b;
            else if (b >= 0xc2 && b <= 0xdf && cont(1)) { n = 2; c = (b & 0x1f) << 6 | (u[i + 1] & 63); }
            else if (b >= 0xe0 && b <= 0xef && cont(1) && cont(2) && (b != 0xe0 || b1 >= 0xa0) && (b != 0xed || b1 <= 0x9f))
            {
                n = 3;
                c = (b & 15) << 12 | (u[i + 1] & 63) << 6 | (u[i + 2] & 63);
            }
            else if (b >= 0xf0 && b <= 0xf4 && cont(1) && cont(2) && cont(3) && (b != 0xf0 || b1 >= 0x90) && (b != 0xf4 || b1 <= 0x8f))
            {
                n = 4;
                c = (b & 7) << 18 | (u[i + 1] & 63) << 12 | (u[i + 2] & 63) << 6 | (u[i + 3] & 63);
            }
        }
        else if (b < 0xd800 || b > 0xdfff) c = b;
        else if (b <= 0xdbff && b1 >= 0xdc00 && b1 <= 0xdfff) { n = 2; c = 0x10000 + ((b - 0xd800) << 10) + (b1 - 0xdc00); }
        if (c == 0xffffffff) { d.damaged = true; return d; }
        d.cp.push_back(c);
        i += n;
        d.at.push_back(i);
    }
    return d;
}
inline u32 character()
{
    static const u32 edges[] = { 0, 1, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10400,
        0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
    for (;;)
    {
        u32 c;
        switch (g(4))
        {
        case 0: c = static_cast<u32>(0x20 + g(0x5f)); break;
        case 1: c = edges[g(sizeof edges / sizeof *edges)]; break;
        case 2: c = static_cast<u32>(g(0x10000)); break;
        default: c = static_cast<u32>(g(0x110000)); break;
        }
        if (scalar(c)) return c;
    }
}
// What a broken disk, a cut transfer or a bad editor does to text.
inline void damage(std::vector<u32>& u, bool utf8)
{
    const size_t n = 1 + choose(FAULT, 3);
    for (size_t i = 0; i < n && !u.empty(); ++i)
    {
        const size_t p = choose(FAULT, u.size());
        static const u32 bad8[] = { 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfe, 0xff, 0x9f, 0xa0, 0x8f, 0x90 };
        static const u32 bad16[] = { 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000 };
        const u32 x = utf8 ? bad8[choose(FAULT, sizeof bad8 / sizeof *bad8)] : bad16[choose(FAULT, sizeof bad16 / sizeof *bad16)];
        switch (choose(FAULT, 6))
        {
        case 0: u.resize(p); count("fault:text-cut"); break;
        case 1: u[p] = x; count("fault:unit-overwritten"); break;
        case 2: u.insert(u.begin() + static_cast<long>(p), x); count("fault:unit-inserted"); break;
        case 3: u.erase(u.begin() + static_cast<long>(p)); count("fault:unit-lost"); break;
        case 4: u[p] ^= 1u << choose(FAULT, utf8 ? 8 : 16); count("fault:bit-flipped"); break;
        default:
        {
            // an ill-formed sequence made of continuation bytes or surrogates
            static const u32 seqs[][4] = { { 0xe0, 0x80, 0x80, 0 }, { 0xed, 0xa0, 0x80, 0 }, { 0xf0, 0x8f, 0xbf, 0xbf }, { 0xf4, 0x90, 0x80, 0x80 }, { 0xf7, 0xbf, 0xbf, 0xbf }, { 0xc1, 0xbf, 0, 0 } };
            if (!utf8) { u[p] = x; count("fault:unit-overwritten"); break; }
            const auto& q = seqs[choose(FAULT, 6)];
            for (size_t k = 4; k-- > 0;) if (q[k]) u.insert(u.begin() + static_cast<long>(p), q[k]);
            count("fault:sequence-inserted");
            break;
        }
        }
    }
}
inline std::string show(const std::vector<u32>& u)
{
    std::string r;
    for (u32 x : u) r += fmt("%s%x", r.empty() ? "" : " ", x);
    return r;
}

#if PART == 0
// Iterators over one text that may not be well formed: every position, what it
// shows, and whether getting there must fail.
struct Truth
{
    std::vector<u32> shows;
    bool damaged = false;         // stepping to shows.size() must fail
};
template<typename It> struct HasMinus { static constexpr bool value = false; };
template<typename I, typename C> struct HasMinus<lexertl::basic_utf8_in_iterator<I, C>> { static constexpr bool value = true; };
template<typename I, typename C> struct HasMinus<lexertl::basic_utf16_in_iterator<I, C>> { static constexpr bool value = true; };
template<typename It> struct HasGreater { static constexpr bool value = false; };
template<typename I, typename C> struct HasGreater<lexertl::basic_utf8_in_iterator<I, C>> { static constexpr bool value = true; };

template<typename It> static void histories(const Truth& t, const std::function<It()>& begin, const std::function<It()>& end, const std::vector<u64*>& fail, const std::vector<const u64*>& ops,
    const std::string& text)
{
    struct Ent { It it; size_t p; bool sound; };
    std::vector<Ent> es;
    const size_t n = t.shows.size();
    const auto where = [&](size_t p) { return fmt("position %zu of %zu in \"%s\"", p, n, text.c_str()); };
    bool armed = false;
    const auto arm = [&]() {
        armed = false;
        if (!chance(FAULT, 1, 5)) return;
        const size_t k = choose(FAULT, fail.size());
        *fail[k] = *ops[k] + choose(FAULT, 6);
        armed = true;
    };
    const auto disarm = [&]() { for (u64* f : fail) *f = ~0ull; };
    const size_t nops = 4 + g(60);
    It e;
    bool have_end = false;
    try { Lib l; e = end(); have_end = true; }
    catch (const std::range_error&) { violation("spurious-error", "making the end iterator reported damaged text: %s", text.c_str()); }
    u64 steps_to_end = 0;
    for (size_t i = 0; i < nops; ++i)
    {
        const u64 op = es.empty() ? 0 : g(12);
        const size_t a = es.empty() ? 0 : g(es.size());
        arm();
        bool failed = false, reported = false;
        // what must be at the position the operation gets to
        const auto must_report = [&](size_t to, size_t from = ~size_t(0)) { return t.damaged && to >= n && (from == ~size_t(0) || from < n); };
        try
        {
            switch (op)
            {
            case 0: case 1:
            {
                if (es.size() > 6) { Lib l; es.erase(es.begin() + static_cast<long>(a)); break; }
                Lib l;
                It x = begin();
                Harness h;
                SIM_CHECK(!must_report(0), "damage-passed-on", "an iterator was made on damaged text: %s", where(0).c_str());
                es.push_back({ x, 0, true });
                break;
            }
            case 2: { Lib l; es.push_back({ es[a].it, es[a].p, es[a].sound }); break; }
            case 3:
            {
                const size_t b = g(es.size());
                Lib l;
                es[a].it = es[b].it;
                es[a].p = es[b].p;
                es[a].sound = es[b].sound;
                break;
            }
            case 4: case 5: case 6:
            {
                if (es[a].p >= n && !t.damaged) break;
                const size_t to = es[a].p + 1;
                { Lib l; ++es[a].it; }
                if (must_report(to)) violation("damage-passed-on", "an iterator went past the damage: %s", where(to).c_str());
                es[a].p = to;
                if (to == n) ++steps_to_end;
                break;
            }
            case 7:
            {
                if (es[a].p >= n && !t.damaged) break;
                const size_t to = es[a].p + 1;
                Lib l;
                It old = es[a].it++;
                Harness h;
                if (must_report(to)) violation("damage-passed-on", "an iterator went past the damage: %s", where(to).c_str());
                es.push_back({ old, es[a].p, true });
                es[a].p = to;
                break;
            }
            case 8:
                if constexpr (HasMinus<It>::value)
                {
                    if (gc(1, 2))
                    {
                        const size_t k = g(n + 1 - es[a].p + t.damaged);
                        Lib l;
                        It x = es[a].it + k;
                        Harness h;
                        if (must_report(es[a].p + k)) violation("damage-passed-on", "an iterator went past the damage: %s", where(es[a].p + k).c_str());
                        es.push_back({ x, es[a].p + k, true });
                    }
                    else
                    {
                        const size_t k = g(es[a].p + 1);
                        Lib l;
                        It x = es[a].it - k;
                        Harness h;
                        es.push_back({ x, es[a].p - k, true });
                    }
                }
                break;
            case 9:
            {
                const size_t b = g(es.size());
                bool eq, ne;
                { Lib l; eq = es[a].it == es[b].it; ne = es[a].it != es[b].it; }
                SIM_CHECK(eq == (es[a].p == es[b].p), "equality", "iterators at %zu and %zu are %sequal: %s", es[a].p, es[b].p, eq ? "" : "not ", where(es[a].p).c_str());
                SIM_CHECK(eq != ne, "equality", "== and != agree");
                if constexpr (HasGreater<It>::value)
                {
                    bool gt;
                    { Lib l; gt = es[a].it > es[b].it; }
                    SIM_CHECK(gt == (es[a].p > es[b].p), "order", "iterators at %zu and %zu: > is %d", es[a].p, es[b].p, gt);
                }
                break;
            }
            case 10:
            {
                if (t.damaged || !have_end) break;
                bool eq;
                { Lib l; eq = es[a].it == e; }
                SIM_CHECK(eq == (es[a].p == n), "end", "the iterator is%s the end: %s", eq ? "" : " not", where(es[a].p).c_str());
                break;
            }
            default:
            {
                // all at once: the rest of the text
                It x = es[a].it;
                for (size_t p = es[a].p; p < n; ++p)
                {
                    u32 c;
                    { Lib l; c = static_cast<u32>(*x); }
                    SIM_CHECK(c == t.shows[p], "shows-another", "%s shows %x, not %x", where(p).c_str(), c, t.shows[p]);
                    if (p + 1 == n && t.damaged) break;
                    { Lib l; ++x; }
                }
                break;
            }
            }
        }
        catch (const std::range_error&) { reported = true; }
        catch (const simit::IoError&) { failed = true; count("iterator-operation-failed"); }
        disarm();
        if (failed) SIM_CHECK(armed, "spurious-error", "a read error without an injected one");
        if (reported)
        {
            const size_t to = op <= 1 ? 0 : op == 8 ? n : es[a].p + 1;
            SIM_CHECK(t.damaged && to >= n, "spurious-error", "well-formed text was reported as damaged: operation %d at %s", static_cast<int>(op), where(es.empty() ? 0 : es[a].p).c_str());
            count("damage-reported");
        }
        event("op", op, a, (reported ? 2 : 0) + failed);
        // every iterator is where it was put and shows what is there: an
        // operation that failed has not moved any
        for (size_t k = 0; k < es.size(); ++k)
        {
            if (es[k].p >= n) continue;
            u32 c;
            { Lib l; c = static_cast<u32>(*es[k].it); }
            SIM_CHECK(c == t.shows[es[k].p], failed || reported ? "moved-by-failure" : "shows-another", "after operation %d the iterator at %s shows %x, not %x", static_cast<int>(op),
                where(es[k].p).c_str(), c, t.shows[es[k].p]);
        }
        if (steps_to_end || t.damaged) nontrivial();
    }
}
template<typename U> static std::vector<U> units(const std::vector<u32>& v)
{
    std::vector<U> r;
    for (u32 x : v) r.push_back(static_cast<U>(x));
    return r;
}
template<typename U> struct Text
{
    std::vector<U> u;
    simit::Source<U> src;
    explicit Text(const std::vector<u32>& v) : u(units<U>(v)) { src.b = u.data(); src.n = u.size(); }
    simit::Iter<U> at(size_t p) { return simit::Iter<U>(&src, p); }
};
// decoding U to C
template<typename U, typename C, bool utf8> static void decode(const std::vector<u32>& v)
{
    using I = simit::Iter<U>;
    using It = std::conditional_t<utf8, lexertl::basic_utf8_in_iterator<I, C>, lexertl::basic_utf16_in_iterator<I, C>>;
    Text<U> x(v);
    const Decoded d = dec(v, utf8);
    Truth t;
    t.shows = d.cp;
    t.damaged = d.damaged;
    histories<It>(t, [&] { return It(x.at(0), x.at(v.size())); }, [&] { return It(x.at(v.size()), x.at(v.size())); }, { &x.src.fail_at }, { &x.src.ops }, show(v));
}
// the same over plain memory; the block ends where the text does
template<typename U, typename C, bool utf8> static void decode_memory(const std::vector<u32>& v)
{
    using I = const U*;
    using It = std::conditional_t<utf8, lexertl::basic_utf8_in_iterator<I, C>, lexertl::basic_utf16_in_iterator<I, C>>;
    const std::vector<U> u = units<U>(v);
    const Decoded d = dec(v, utf8);
    Truth t;
    t.shows = d.cp;
    t.damaged = d.damaged;
    u64 none = ~0ull, zero = 0;
    const U* b = u.data();
    const U* e = b + u.size();
    histories<It>(t, [&] { return It(b, e); }, [&] { return It(e, e); }, { &none }, { &zero }, show(v));
}
// encoding char32_t
template<typename U, bool utf8> static void encode(const std::vector<u32>& cps)
{
    using I = simit::Iter<char32_t>;
    struct Out16 { using type = lexertl::basic_utf16_out_iterator<I, U>; };
    struct Out8 { using type = lexertl::basic_utf8_out_iterator<I>; };
    using It = typename std::conditional_t<utf8, Out8, Out16>::type;
    Text<char32_t> x(cps);
    Truth t;
    for (u32 c : cps) for (u32 k : utf8 ? enc8(c) : enc16(c)) t.shows.push_back(static_cast<u32>(static_cast<U>(k)));
    histories<It>(t, [&] { return It(x.at(0), x.at(cps.size())); }, [&] { return It(x.at(cps.size()), x.at(cps.size())); }, { &x.src.fail_at }, { &x.src.ops }, show(cps));
}
// one encoding to the other, as the library's own aliases do
template<typename U, typename W, bool from8> static void transcode(const std::vector<u32>& v)
{
    using I = simit::Iter<U>;
    using D = std::conditional_t<from8, lexertl::basic_utf8_in_iterator<I, char32_t>, lexertl::basic_utf16_in_iterator<I, char32_t>>;
    struct Out16 { using type = lexertl::basic_utf16_out_iterator<D, W>; };
    struct Out8 { using type = lexertl::basic_utf8_out_iterator<D>; };
    using It = typename std::conditional_t<from8, Out16, Out8>::type;
    Text<U> x(v);
    const Decoded d = dec(v, from8);
    Truth t;
    t.damaged = d.damaged;
    for (u32 c : d.cp) for (u32 k : from8 ? enc16(c) : enc8(c)) t.shows.push_back(static_cast<u32>(static_cast<W>(k)));
    const auto end = [&] { return D(x.at(v.size()), x.at(v.size())); };
    histories<It>(t, [&] { return It(D(x.at(0), x.at(v.size())), end()); }, [&] { return It(end(), end()); }, { &x.src.fail_at }, { &x.src.ops }, show(v));
}
// units of the other byte order
template<typename U> static void flip(const std::vector<u32>& v)
{
    using I = simit::Iter<U>;
    using It = lexertl::basic_flip_iterator<I>;
    Text<U> x(v);
    Truth t;
    for (u32 c : v)
    {
        u32 r = 0;
        for (size_t i = 0; i < sizeof(U); ++i) r = r << 8 | (c >> (8 * i) & 0xff);
        t.shows.push_back(static_cast<u32>(static_cast<U>(r)));
    }
    histories<It>(t, [&] { return It(x.at(0)); }, [&] { return It(x.at(v.size())); }, { &x.src.fail_at }, { &x.src.ops }, show(v));
}
static void iterators()
{
    setup_heap_policy();
    std::vector<u32> cps;
    const size_t n = g(10);
    for (size_t i = 0; i < n; ++i) cps.push_back(character());
    const u64 kind = g(12);
    const bool utf8 = kind < 4 || kind == 8;
    std::vector<u32> v;
    for (u32 c : cps) for (u32 k : utf8 ? enc8(c) : enc16(c)) v.push_back(k);
    if ((kind < 8 || kind == 8 || kind == 9) && chance(FAULT, 1, 2)) damage(v, utf8);
    describe("kind %d, text %s; ", static_cast<int>(kind), show(kind >= 10 ? cps : v).c_str());
    event("text", kind, hash_range(v.data(), v.size()), v.size());
    switch (kind)
    {
    case 0: decode<char, char32_t, true>(v); break;
    case 1: decode<char, wchar_t, true>(v); break;
    case 2: decode<unsigned char, char32_t, true>(v); break;
    case 3: decode_memory<char, char32_t, true>(v); break;
    case 4: decode<char16_t, char32_t, false>(v); break;
    case 5: decode<wchar_t, char32_t, false>(v); break;
    case 6: decode<char16_t, wchar_t, false>(v); break;
    case 7: decode_memory<char16_t, char32_t, false>(v); break;
    case 8: if (gc(1, 2)) transcode<char, char16_t, true>(v); else transcode<char, wchar_t, true>(v); break;
    case 9: if (gc(1, 2)) transcode<char16_t, char, false>(v); else transcode<wchar_t, char, false>(v); break;
    case 10:
        if (gc(1, 3)) encode<char, true>(cps);
        else if (gc(1, 2)) encode<char16_t, false>(cps);
        else encode<wchar_t, false>(cps);
        break;
    default: if (gc(1, 2)) flip<char16_t>(v); else flip<char32_t>(cps); break;
    }
}
#endif

// ---- lexing through the iterators -------------------------------------------
// M machine character, U unit of the text, It the iterator over It's units.
template<typename It> struct Place
{
    It begin;
    size_t max;
};
template<typename It> size_t walk(const It& p, const It& b, size_t max)
{
    Harness h;
    It x = b;
    for (size_t i = 0;; ++i)
    {
        if (x == p) return i;
        if (i == max) return max + 1;
        try { ++x; } catch (const std::range_error&) { return max + 1; }
    }
}
extern size_t walk_max;
}
namespace simit     // found there by the bridge
{
template<typename I, typename C> size_t pos_of(const lexertl::basic_utf8_in_iterator<I, C>& p, const lexertl::basic_utf8_in_iterator<I, C>& b) { return sim::walk(p, b, sim::walk_max); }
template<typename I, typename C> size_t pos_of(const lexertl::basic_utf16_in_iterator<I, C>& p, const lexertl::basic_utf16_in_iterator<I, C>& b) { return sim::walk(p, b, sim::walk_max); }
template<typename I> size_t pos_of(const lexertl::basic_utf8_out_iterator<I>& p, const lexertl::basic_utf8_out_iterator<I>& b) { return sim::walk(p, b, sim::walk_max); }
template<typename I, typename C> size_t pos_of(const lexertl::basic_utf16_out_iterator<I, C>& p, const lexertl::basic_utf16_out_iterator<I, C>& b) { return sim::walk(p, b, sim::walk_max); }
}
namespace sim
{
// in: what the machine sees when nothing is damaged.
template<typename RC, typename M, typename id, typename U, typename It, typename Make>
static void lex(model::GenOpt o, int how, Make make)
{
    using Rules = lexertl::basic_rules<RC, M, id>;
    using Sm = lexertl::basic_state_machine<M, id>;
    o.npos = static_cast<id>(~0);
    o.max_states = 2;
    o.recursive = true;
    model::Gen gen;
    gen.o = o;
    const model::Spec s = gen.make();
    setup_heap_policy();
    describe("%s; ", model::describe(s).c_str());
    event_str("rules", model::describe(s));
    Sm sm;
    bridge::make_machine<Rules>(s, sm, false);
    const size_t inputs = 1 + g(3);
    for (size_t i = 0; i < inputs; ++i)
    {
        u32str in = model::gen_input(s, 1 + g(16));
        std::vector<u32> v;
        // how: 0 text in UTF-8, 1 in UTF-16, 2 UTF-32 shown as UTF-8, 3 as UTF-16
        if (how < 2)
        {
            for (auto& c : in) if (!scalar(c)) c = U'\xfffd';
            for (char32_t c : in) for (u32 k : how == 0 ? enc8(c) : enc16(c)) v.push_back(k);
        }
        else
        {
            u32str seen;
            for (auto& c : in) if (!scalar(c)) c = U'\xfffd';
            for (char32_t c : in) { v.push_back(c); for (u32 k : how == 2 ? enc8(c) : enc16(c)) seen.push_back(k); }
            in = seen;
        }
        bool damaged = false;
        if (how < 2 && chance(FAULT, 1, 3))
        {
            damage(v, how == 0);
            const Decoded d = dec(v, how == 0);
            damaged = d.damaged;
            // the reference knows the classes of ASCII and of its own characters
            bool known = true;
            for (u32 c : d.cp) if (c >= 0x80 && in.find(static_cast<char32_t>(c)) == u32str::npos) known = false;
            if (!known) continue;
            in.clear();
            for (u32 c : d.cp) in.push_back(static_cast<char32_t>(c));
        }
        std::vector<U> units;
        for (u32 x : v) units.push_back(static_cast<U>(x));
        simit::Source<U> src;
        src.b = units.data();
        src.n = units.size();
        describe("input \"%s\"%s; ", model::show(in).c_str(), damaged ? " and damage" : "");
        model::State st;
        walk_max = in.size();
        size_t n = 0;
        if (damaged && in.empty())
        {
            bool reported = false;
            try { Lib l; It b = make(src, 0); }
            catch (const std::range_error&) { reported = true; }
            SIM_CHECK(reported, "damage-passed-on", "an iterator was made on damaged text: %s", show(v).c_str());
            continue;
        }
        It b = make(src, 0), e = make(src, units.size());
        lexertl::recursive_match_results<It, id, 1 | 2 | 4 | 8 | 16 | 32 | 64> res(b, e, true, 0);
        if (!damaged)
        {
            for (; n < 200; ++n)
            {
                const model::Tok got = bridge::one_interrupted(s, sm, res, b, in, st, &src, 3);
                if (got.underflow || got.id == 0) break;
            }
            if (n >= 2) nontrivial();
            count("tokens", n);
            continue;
        }
        // Damaged: the tokens of the sound part, then the error, again and again.
        int reports = 0;
        for (; n < 200 && reports < 2; ++n)
        {
            model::State after = st;
            std::vector<model::State> cps{ st };
            const model::Tok want = model::next(s, in, after, &cps);
            model::Tok got;
            try
            {
                Lib l;
                lexertl::lookup(sm, res);
            }
            catch (const std::range_error&)
            {
                Harness h;
                ++reports;
                count("damage-met-by-lookup");
                size_t k = cps.size();
                while (k > 0 && !bridge::at_state(res, b, cps[k - 1])) --k;
                if (k == 0) violation("interrupted-lookup", "a lookup that met damaged text left a state no lookup passes through: second %zu bol %d; sound part \"%s\"; rules: %s",
                    pos_of(res.second, b), res.bol, model::show(in).c_str(), model::describe(s).c_str());
                st = cps[k - 1];
                continue;
            }
            catch (const lexertl::runtime_error&)
            {
                if (!want.underflow) violation("tokens-differ", "unexpected stack underflow before the damage; input \"%s\"; rules: %s", model::show(in).c_str(), model::describe(s).c_str());
                break;
            }
            got.id = res.id;
            got.uid = res.user_id;
            got.first = pos_of(res.first, b);
            got.second = pos_of(res.second, b);
            got.bol = res.bol;
            got.state = static_cast<int>(res.state);
            got.depth = bridge::depth_of(res);
            SIM_CHECK(got.id != 0, "damage-passed-on", "lexing damaged text ended as if it was whole; sound part \"%s\"", model::show(in).c_str());
            if (!(got == want)) violation("tokens-differ", "before the damage, at %zu of \"%s\": got %s, reference %s; rules: %s", st.pos, model::show(in).c_str(), model::str(got, s).c_str(),
                model::str(want, s).c_str(), model::describe(s).c_str());
            st = after;
            event("tok", got.id, got.second);
        }
        nontrivial();
    }
}
#define DEF(n) void part##n(model::GenOpt o)
DEF(1); DEF(2); DEF(3);
#if PART == 0
size_t walk_max = 0;
const Info info = {
    "P13",
    "texts of 0-9 characters over all of Unicode with its edges, encoded, half of them damaged (cut, overwritten, inserted, lost or flipped units, ill-formed sequences); 4-63 operations (make, copy, assign, step, "
    "post-step, jump, compare, read all) on up to 7 iterators of every decoder, encoder, transcoder and flip iterator with read errors; and lexing of random rule sets through the iterators with damage, read errors and "
    "failing allocations; non-trivial: an iterator reached the end or damage, or two tokens were compared",
    "utf_iterators, lookup, match_results, rules, generator",
    "text behind a bounds-checked iterator with read errors; heap: seeded arena with failing allocations",
    "event history hash of (text, operations, outcomes)",
    "code points given to the encoders are Unicode scalar values; units of 16-bit text held in wchar_t are below 0x10000; going back from an iterator is only done over sound text"
};
void warmup()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("[a-z]+", 1);
    lexertl::generator::build(r, sm);
    std::ostringstream ss;
    ss << 1 << 'c' << "x";
    try { r.push("(", 1); } catch (const std::exception&) {}
    try { throw std::range_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    o.max_rules = static_cast<int>(gr(1, 5));
    o.depth = 2;
    switch (g(8))
    {
    case 0: part1(o); break;
    case 1: part2(o); break;
    case 2: part3(o); break;
    default: iterators(); break;
    }
}
#elif PART == 1
DEF(1)
{
    o.max_char = 0x10ffff;
    o.narrow_rules = true;
    using It = lexertl::basic_utf8_in_iterator<simit::Iter<char>, char32_t>;
    lex<char, char32_t, uint16_t, char, It>(o, 0, [](simit::Source<char>& s, size_t p) { return It(simit::Iter<char>(&s, p), simit::Iter<char>(&s, s.n)); });
}
#elif PART == 2
DEF(2)
{
    o.max_char = 0x10ffff;
    using It = lexertl::basic_utf16_in_iterator<simit::Iter<char16_t>, wchar_t>;
    lex<wchar_t, wchar_t, uint16_t, char16_t, It>(o, 1, [](simit::Source<char16_t>& s, size_t p) { return It(simit::Iter<char16_t>(&s, p), simit::Iter<char16_t>(&s, s.n)); });
}
#else
DEF(3)
{
    using I = simit::Iter<char32_t>;
    o.max_char = 0xff;
    if (gc(1, 2))
    {
        using It = lexertl::basic_utf8_out_iterator<I>;
        lex<char, char, uint16_t, char32_t, It>(o, 2, [](simit::Source<char32_t>& s, size_t p) { return It(I(&s, p), I(&s, s.n)); });
    }
    else
    {
        using It = lexertl::basic_utf16_out_iterator<I, char16_t>;
        o.max_char = 0xffff;
        o.narrow_rules = true;
        lex<char, char16_t, uint16_t, char32_t, It>(o, 3, [](simit::Source<char32_t>& s, size_t p) { return It(I(&s, p), I(&s, s.n)); });
    }
}
#endif
}
