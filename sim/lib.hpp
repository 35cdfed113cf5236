// lib.hpp - bridge between the reference model and the real library.
#pragma once
#include "model.hpp"
#include "simiter.hpp"
#include <locale>
#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/match_results.hpp>
#include <lexertl/rules.hpp>
#include <lexertl/runtime_error.hpp>
#include <lexertl/state_machine.hpp>

namespace bridge
{
using model::u32str;
using sim::u64;
using sim::u32;

template<typename C> std::basic_string<C> conv(const u32str& s)
{
    std::basic_string<C> r;
    r.reserve(s.size());
    for (char32_t c : s) r.push_back(static_cast<C>(c));
    return r;
}

// The library throws this when it rejects a rule set for a documented reason.
inline bool documented_rejection(const std::string& what, const model::Spec& s)
{
    if (what.find("The id_type you have chosen") != std::string::npos) return s.npos <= 0xff;
    if (what.find("The following regex cannot be matched") == 0) return (s.flags & 32) == 0;
    return false;
}

// Makes one call of a spec on a rules object, through one of the overloads.
template<typename Rules> void apply_call(const model::Call& c, Rules& r)
{
    using C = typename Rules::rules_char_type;
    using id = typename Rules::id_type;
    std::basic_string<C> name, text, from, to;
    {
        sim::Harness h;
        name = conv<C>(c.name);
        text = conv<C>(c.text);
        from = conv<C>(c.from);
        to = conv<C>(c.to);
    }
    const C* b = text.c_str();
    const C* e = b + text.size();
    const bool nul = text.find(C(0)) != text.npos;
    const id i = static_cast<id>(c.id), u = static_cast<id>(c.uid);
    int ov = c.overload & 3;
    if (nul && ov == 0) ov = 1;
    switch (c.k)
    {
    case model::Call::STATE: r.push_state(name.c_str()); break;
    case model::Call::MACRO:
        if (ov == 0) r.insert_macro(name.c_str(), b);
        else if (ov == 1) r.insert_macro(name.c_str(), b, e);
        else r.insert_macro(name.c_str(), text);
        break;
    case model::Call::PUSH:
        if (ov == 0) { if (c.has_uid) r.push(b, i, u); else r.push(b, i); }
        else if (ov == 1) { if (c.has_uid) r.push(b, e, i, u); else r.push(b, e, i); }
        else { if (c.has_uid) r.push(text, i, u); else r.push(text, i); }
        break;
    case model::Call::PUSH_STATE:
        if (!c.has_id)
        {
            if (ov == 0) r.push(from.c_str(), b, to.c_str());
            else if (ov == 1) r.push(from.c_str(), b, e, to.c_str());
            else r.push(from.c_str(), text, to.c_str());
        }
        else if (ov == 0)
        {
            if (c.has_uid) r.push(from.c_str(), b, i, to.c_str(), u);
            else r.push(from.c_str(), b, i, to.c_str());
        }
        else if (ov == 1)
        {
            if (c.has_uid) r.push(from.c_str(), b, e, i, to.c_str(), u);
            else r.push(from.c_str(), b, e, i, to.c_str());
        }
        else
        {
            if (c.has_uid) r.push(from.c_str(), text, i, to.c_str(), u);
            else r.push(from.c_str(), text, i, to.c_str());
        }
        break;
    case model::Call::CLEAR_STATE: r.clear(i); break;
    case model::Call::REVERSE: r.reverse(); break;
    case model::Call::FLAGS: r.flags(static_cast<std::size_t>(c.id)); break;
    }
}
// A locale in which the letters of Latin-1 are letters.
struct Latin1 : std::ctype<char>
{
    static const mask* table()
    {
        static mask t[table_size];
        static const bool done = [] {
            std::copy(classic_table(), classic_table() + table_size, t);
            for (int c = 0xc0; c <= 0xff; ++c)
                if (c != 0xd7 && c != 0xf7)
                    t[c] = static_cast<mask>(alpha | print | (c < 0xdf ? upper : lower));
            return true;
        }();
        (void)done;
        return t;
    }
    Latin1() : std::ctype<char>(table(), false, 1) {}
    static bool cased(unsigned char c) { return c != 0xd7 && c != 0xf7 && c != 0xdf && c != 0xff; }
    char do_toupper(char ch) const override
    {
        const auto c = static_cast<unsigned char>(ch);
        if (c >= 0xe0 && cased(c)) return static_cast<char>(c - 32);
        return c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : ch;
    }
    char do_tolower(char ch) const override
    {
        const auto c = static_cast<unsigned char>(ch);
        if (c >= 0xc0 && c < 0xe0 && cased(c)) return static_cast<char>(c + 32);
        return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : ch;
    }
};
inline const std::locale& latin1()
{
    static const std::locale l(std::locale::classic(), new Latin1);
    return l;
}
template<typename Rules> void apply(const model::Spec& s, Rules& r)
{
    r.flags(s.flags);
    if (s.latin1)
    {
        std::locale l;
        { sim::Harness h; l = latin1(); }
        r.imbue(l);
    }
    for (auto& c : s.calls) apply_call(c, r);
}

template<typename Res> std::size_t depth_of(const Res&) { return 0; }
template<typename I, typename id, std::size_t f>
std::size_t depth_of(const lexertl::recursive_match_results<I, id, f>& r) { return r.stack.size(); }

// One lookup, recorded.
template<typename Sm, typename Res> model::Tok one(const Sm& sm, Res& r, const typename Res::iter_type& begin)
{
    model::Tok t;
    try
    {
        sim::Lib l;
        lexertl::lookup(sm, r);
    }
    catch (const lexertl::runtime_error&)
    {
        sim::Harness h;
        t.underflow = true;
        return t;
    }
    t.id = r.id;
    t.uid = r.user_id;
    t.first = static_cast<size_t>(std::distance(begin, r.first));
    t.second = static_cast<size_t>(std::distance(begin, r.second));
    t.bol = r.bol;
    t.state = static_cast<int>(r.state);
    t.depth = depth_of(r);
    return t;
}
// Compares a whole lookup run with the model; sig names the check.
template<typename Sm, typename Res> size_t compare(const model::Spec& s, const Sm& sm, Res& r,
    const typename Res::iter_type& begin, const u32str& in, model::State st, const char* sig, size_t max_tokens)
{
    size_t n = 0;
    for (; n < max_tokens; ++n)
    {
        model::Tok want;
        {
            sim::Harness h;
            want = model::next(s, in, st);
        }
        model::Tok got = one(sm, r, begin);
        sim::Harness h;
        if (!(got == want))
            sim::violation(sig, "token %zu of input \"%s\": got %s, reference %s; rules: %s", n,
                model::show(in).c_str(), model::str(got, s).c_str(), model::str(want, s).c_str(),
                model::describe(s).c_str());
        sim::event("tok", got.id, got.second, static_cast<u64>(got.state));
        if (want.underflow || want.id == 0) { ++n; break; }
    }
    return n;
}

template<typename C> size_t pos_of(const C* p, const C* b) { return static_cast<size_t>(p - b); }
template<typename C> size_t pos_of(const simit::Iter<C>& p, const simit::Iter<C>& b) { return p.p - b.p; }
template<typename I> auto pos_of(const I& p, const I& b) -> decltype(static_cast<size_t>(p - b)) { return static_cast<size_t>(p - b); }

template<typename Res> bool stack_is(const Res&, const model::State& st) { return st.stack.empty(); }
template<typename I, typename id, std::size_t f>
bool stack_is(const lexertl::recursive_match_results<I, id, f>& r, const model::State& st)
{
    auto copy = r.stack;
    if (copy.size() != st.stack.size()) return false;
    for (size_t i = st.stack.size(); i-- > 0; copy.pop())
        if (copy.top().first != static_cast<id>(st.stack[i].first) || copy.top().second != static_cast<id>(st.stack[i].second))
            return false;
    return true;
}
template<typename Res> bool at_state(const Res& r, const typename Res::iter_type& b, const model::State& st)
{
    return pos_of(r.second, b) == st.pos && r.bol == st.bol && static_cast<int>(r.state) == st.state && stack_is(r, st);
}

// One token, with read errors and allocation failures injected into lookup
// and the lookup simply repeated on the same results object.  An interrupted
// lookup must leave the results at a state the reference run passes through,
// and carrying on from there must give the reference's continuation.
// What the results say of the text matched, in all the ways they offer.
template<typename Res> void texts_are(const Res&, const u32str&, size_t, size_t, ...) {}
template<typename Res, typename C> void texts_are(const Res& r, const u32str& in, size_t first, size_t second, const C*)
{
    const std::basic_string<C> want(r.eoi - (in.size() - first), r.eoi - (in.size() - second));
    const size_t n = want.size(), o1 = n ? (first * 7 + second) % (n + 1) : 0, o2 = n ? (second * 5) % (n - o1 + 1) : 0;
    sim::Lib l;
    const auto whole = r.str();
    const auto part = r.substr(o1, o2);
    bool ok = r.length() == n && whole == want && part == want.substr(o1, n - o1 - o2);
    // the view of an empty range at the end may not be taken
    if (n) ok = ok && r.view() == whole && r.view().data() == r.first && r.subview(o1, o2) == part;
    if (!ok) sim::violation("text", "str, substr, view, subview or length do not give the characters [%zu,%zu) of input \"%s\"", first, second,
        model::show(in).c_str());
}
template<typename Look, typename Res, typename C> model::Tok one_interrupted_by(const Look& look, const model::Spec& s, Res& r,
    const typename Res::iter_type& b, const u32str& in, model::State& st, simit::Source<C>* src, unsigned tries, bool track_bol = true)
{
    for (unsigned t = 0;; ++t)
    {
        std::vector<model::State> cps{ st };
        model::State after = st;
        const model::Tok want = model::next(s, in, after, &cps);
        bool alloc = false;
        if (t < tries)
        {
            if (src && sim::chance(sim::FAULT, 1, 4)) src->fail_at = src->ops + sim::logu(sim::FAULT, 5);
            else if (sim::chance(sim::FAULT, 1, 6)) { sim::arm_alloc_fault(sim::logu(sim::FAULT, 1), false); alloc = true; }
        }
        bool interrupted = false;
        model::Tok got;
        try
        {
            sim::Lib l;
            look(r);
        }
        catch (const lexertl::runtime_error&) { got.underflow = true; }
        catch (const simit::IoError&) { interrupted = true; }
        catch (const std::bad_alloc&)
        {
            if (!alloc) sim::violation("spurious-bad-alloc", "bad_alloc without an injected failure");
            interrupted = true;
        }
        if (src) src->fail_at = ~0ull;
        if (alloc) sim::disarm_alloc_fault();
        if (interrupted || got.underflow)
        {
            // the newest matching checkpoint
            size_t k = cps.size();
            for (; k > 0; --k)
            {
                if (!track_bol) r.bol = cps[k - 1].bol;
                if (at_state(r, b, cps[k - 1])) break;
            }
            if (k == 0)
                sim::violation("interrupted-lookup", "an interrupted lookup left a state no lookup passes through: second %zu bol %d state %d "
                    "depth %zu, before it was %zu bol %d state %d depth %zu; input \"%s\"; rules: %s", pos_of(r.second, b), r.bol,
                    static_cast<int>(r.state), depth_of(r), st.pos, st.bol, st.state, st.stack.size(), model::show(in).c_str(),
                    model::describe(s).c_str());
            if (interrupted)
            {
                sim::event("interrupted", k, r.state);
                sim::count("lookup-interrupted");
                st = cps[k - 1];
                continue;
            }
        }
        else
        {
            got.id = r.id;
            got.uid = r.user_id;
            got.first = pos_of(r.first, b);
            got.second = pos_of(r.second, b);
            if (!track_bol) r.bol = after.bol;
            got.bol = r.bol;
            got.state = static_cast<int>(r.state);
            if (got == want) texts_are(r, in, got.first, got.second, r.first);
            got.depth = depth_of(r);
        }
        if (!(got == want) || (!got.underflow && !stack_is(r, after)))
            sim::violation("tokens-differ", "at %zu of input \"%s\": got %s, reference %s; rules: %s", st.pos,
                model::show(in).c_str(), model::str(got, s).c_str(), model::str(want, s).c_str(), model::describe(s).c_str());
        st = after;
        sim::event("tok", got.id, got.second, static_cast<u64>(got.state));
        return got;
    }
}

template<typename Sm, typename Res, typename C> model::Tok one_interrupted(const model::Spec& s, const Sm& sm, Res& r,
    const typename Res::iter_type& b, const u32str& in, model::State& st, simit::Source<C>* src, unsigned tries)
{
    return one_interrupted_by([&](Res& x) { lexertl::lookup(sm, x); }, s, r, b, in, st, src, tries);
}

// The features a results type must name for the rules of a spec.
inline size_t needed_features(const model::Spec& s)
{
    size_t f = s.st.size() > 1 ? 16 : 0;
    for (auto& st : s.st)
        for (auto& r : st)
            f |= (r.bol ? 1u : 0u) | (r.eol ? 2u : 0u) | (r.id == s.skip() ? 4u : 0u) | (r.id == 0 ? 8u : 0u) |
                (r.push >= 0 || r.pop ? 32u : 0u);
    return f;
}
// The tokens of an input through a results type that names only the features
// F.  Without advance the user steps over what does not match; without bol
// the results' bol is the user's own and means nothing to the rules.
template<size_t F, typename C, typename Sm> void with_features(const model::Spec& s, const Sm& sm, const u32str& in,
    const std::basic_string<C>& text, model::State st)
{
    using id = typename Sm::id_type;
    using Res = typename std::conditional<(F & 32) != 0, lexertl::recursive_match_results<const C*, id, F>,
        lexertl::match_results<const C*, id, F>>::type;
    const C* b = text.data();
    Res r(b, b + text.size(), st.bol, static_cast<id>(st.state));
    for (size_t n = 0; n < 400; ++n)
    {
        const size_t at = st.pos;
        const model::Tok want = model::next(s, in, st);
        model::Tok got = one(sm, r, b);
        if (!got.underflow && got.id == s.npos && !(F & 64))
        {
            // the next lookup would look at the same place again
            if (r.second != r.first)
                sim::violation("advanced", "a no match moved on to %zu without the advance feature; input \"%s\"; rules: %s",
                    got.second, model::show(in).c_str(), model::describe(s).c_str());
            r.second = b + ++got.second;
        }
        if (!(F & 1)) got.bol = want.bol;
        if (!(got == want) || (!got.underflow && !stack_is(r, st)))
            sim::violation("features", "with features %zu, at %zu of input \"%s\": got %s, reference %s; rules: %s", F, at,
                model::show(in).c_str(), model::str(got, s).c_str(), model::str(want, s).c_str(), model::describe(s).c_str());
        sim::event("feat", got.id, got.second, static_cast<u64>(got.state));
        if (want.underflow || want.id == 0) break;
    }
}
// Picks one of the results types that serve a spec: its needs and any others.
template<size_t Free, size_t Fixed, typename C, typename Sm> void some_features(size_t want, const model::Spec& s, const Sm& sm,
    const u32str& in, const std::basic_string<C>& text, const model::State& st)
{
    if constexpr (Free == 0) with_features<Fixed, C>(s, sm, in, text, st);
    else
    {
        constexpr size_t bit = Free & (~Free + 1);
        if (want & bit) some_features<Free & ~bit, Fixed | bit>(want, s, sm, in, text, st);
        else some_features<Free & ~bit, Fixed>(want, s, sm, in, text, st);
    }
}
inline size_t pick_features(const model::Spec& s)
{
    size_t f = needed_features(s);
    for (size_t bit : { 1, 2, 4, 8, 16, 64 }) if (sim::gc(1, 3)) f |= bit;
    sim::count((f & 64) ? "features-advance" : "features-stay");
    return f;
}

// Builds the machine of a spec; with faults, allocation failures interrupt
// both the rule calls (a fresh rules object is then filled) and the build
// (which is repeated on the same objects).
template<typename Rules, typename Sm> void make_machine(const model::Spec& s, Sm& sm, bool faults)
{
    auto bad_alloc = [&](const char* what) {
        if (!sim::disarm_alloc_fault()) sim::violation("spurious-bad-alloc", "bad_alloc without an injected failure");
        sim::count(what);
    };
    for (int t = 0;; ++t)
    {
        Rules* r = nullptr;
        try
        {
            if (faults && t < 2 && sim::chance(sim::FAULT, 1, 5)) sim::arm_alloc_fault(sim::logu(sim::FAULT, 11), false);
            {
                sim::Lib l;
                r = new Rules;
                apply(s, *r);
            }
            sim::disarm_alloc_fault();
        }
        catch (const std::bad_alloc&)
        {
            delete r;
            bad_alloc("fault:alloc-in-rules");
            continue;
        }
        catch (const std::exception& e)
        {
            // A failed allocation inside an ostringstream shortens a message
            // silently, so with a fault delivered the text decides nothing.
            if (sim::disarm_alloc_fault())
            {
                sim::count("fault:alloc-in-rules-message");
                delete r;
                continue;
            }
            sim::violation("rejects-valid-regex", "a valid rule was rejected: %s; rules: %s", e.what(), model::describe(s).c_str());
        }
        for (int u = 0;; ++u)
        {
            if (faults && u < 2 && sim::chance(sim::FAULT, 1, 4)) sim::arm_alloc_fault(sim::logu(sim::FAULT, 12), false);
            try
            {
                sim::Lib l;
                lexertl::basic_generator<Rules, Sm>::build(*r, sm);
                sim::Harness h;
                sim::disarm_alloc_fault();
                break;
            }
            catch (const std::bad_alloc&) { bad_alloc("fault:alloc-in-build"); }
            catch (const std::exception& e)
            {
                if (sim::disarm_alloc_fault()) { sim::count("fault:alloc-in-build-message"); continue; }
                if (documented_rejection(e.what(), s)) { sim::count("rejected-build"); sim::discard(e.what()); }
                sim::violation("rejects-valid-rules", "a valid rule set was rejected: %s; rules: %s", e.what(), model::describe(s).c_str());
            }
        }
        sim::Lib l;
        delete r;
        return;
    }
}
}
