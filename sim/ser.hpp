// ser.hpp - machines, streams and table comparison for save/load checks.
#pragma once
#include "lib.hpp"
#include "simio.hpp"
#include <lexertl/serialise.hpp>

namespace ser
{
using namespace sim;
template<typename Sm> bool same(const Sm& a, const Sm& b)
{
    const auto& x = a.data();
    const auto& y = b.data();
    return x._eoi == y._eoi && x._features == y._features && x._lookup == y._lookup &&
        x._dfa_alphabet == y._dfa_alphabet && x._dfa == y._dfa;
}
template<typename Sm> std::string diff(const Sm& a, const Sm& b)
{
    const auto& x = a.data();
    const auto& y = b.data();
    if (x._eoi != y._eoi) return "end of input id";
    if (x._features != y._features) return "features";
    if (x._lookup != y._lookup) return "lookup table";
    if (x._dfa_alphabet != y._dfa_alphabet) return "alphabet sizes";
    if (x._dfa != y._dfa) return "transition table";
    return "nothing";
}
template<typename Sm> u64 digest(const Sm& a)
{
    const auto& x = a.data();
    u64 h = mix(x._eoi, x._features);
    for (auto& v : x._lookup) h = hash_range(v.data(), v.size(), h);
    h = hash_range(x._dfa_alphabet.data(), x._dfa_alphabet.size(), h);
    for (auto& v : x._dfa) h = hash_range(v.data(), v.size(), h);
    return h;
}
// A machine of one of the shapes users have.
template<typename RC, typename C, typename id> model::Spec machine(lexertl::basic_state_machine<C, id>& sm, model::GenOpt o)
{
    o.npos = static_cast<id>(~0);
    o.max_states = gc(1, 2) ? 3 : 1;
    o.recursive = o.max_states > 1;
    o.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 3 : 5));
    o.depth = 2;
    o.max_macros = 1;
    model::Gen gen;
    gen.o = o;
    const model::Spec s = gen.make();
    describe("machine %s; ", model::describe(s).c_str());
    event_str("rules", model::describe(s));
    bridge::make_machine<lexertl::basic_rules<RC, C, id>>(s, sm, false);
    if (gc(1, 6)) { Lib l; sm.minimise(); }
    return s;
}
template<typename C, typename id> void tokens_ok(const model::Spec& s, const lexertl::basic_state_machine<C, id>& sm)
{
    const bridge::u32str in = model::gen_input(s, 1 + g(20));
    const std::basic_string<C> text = bridge::conv<C>(in);
    const C* b = text.data();
    if (s.recursive)
    {
        lexertl::recursive_match_results<const C*, id, 1 | 2 | 4 | 8 | 16 | 32 | 64> r(b, b + text.size());
        bridge::compare(s, sm, r, b, in, model::State(), "tokens-differ", 100);
    }
    else
    {
        lexertl::match_results<const C*, id, 1 | 2 | 4 | 8 | 16 | 64> r(b, b + text.size());
        bridge::compare(s, sm, r, b, in, model::State(), "tokens-differ", 100);
    }
}
}
