// view.hpp - everything a rules object shows, for before/after comparisons.
#pragma once
#include "ser.hpp"
#include <map>
namespace sim
{
// Everything a rules object shows.
template<typename R> struct View
{
    using id = typename R::id_type;
    using str = typename R::string;
    std::map<str, id> statemap;
    typename R::macro_map macros;
    typename R::token_vector_vector_vector regexes;
    typename R::std_string_vector_vector strings;
    typename R::id_vector features;
    typename R::id_vector_vector ids, uids, nexts, pushes;
    typename R::bool_vector_vector pops;
    std::vector<str> names;
    size_t flags = 0;
    bool empty = false;
    static bool tok_eq(const typename R::token& a, const typename R::token& b)
    {
        return a._type == b._type && a._extra == b._extra && a._str._ranges == b._str._ranges;
    }
    static bool toks_eq(const typename R::token_vector& a, const typename R::token_vector& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), tok_eq);
    }
    explicit View(const R& r) : macros(r.macros()), regexes(r.regexes()), strings(r.regex_strings()), features(r.features()),
        ids(r.ids()), uids(r.user_ids()), nexts(r.next_dfas()), pushes(r.pushes()), pops(r.pops()), flags(r.flags()), empty(r.empty())
    {
        for (auto& p : r.statemap()) statemap[p.first] = p.second;
        for (size_t i = 0; i < statemap.size() + 1 && i <= static_cast<id>(~0); ++i)
        {
            const auto* n = r.state(static_cast<id>(i));
            names.push_back(n ? str(n) : str());
        }
    }
    const char* differs(const View& o) const
    {
        if (statemap != o.statemap) return "lexer states";
        if (names != o.names) return "lexer state names";
        if (macros.size() != o.macros.size()) return "macros";
        for (auto &p : macros)
        {
            auto i = o.macros.find(p.first);
            if (i == o.macros.end() || !toks_eq(p.second, i->second)) return "macros";
        }
        if (strings != o.strings) return "regex strings";
        if (ids != o.ids) return "ids";
        if (uids != o.uids) return "user ids";
        if (nexts != o.nexts) return "next states";
        if (pushes != o.pushes) return "pushed states";
        if (pops != o.pops) return "pops";
        if (features != o.features) return "features";
        if (regexes.size() != o.regexes.size()) return "regexes";
        for (size_t i = 0; i < regexes.size(); ++i)
        {
            if (regexes[i].size() != o.regexes[i].size()) return "regexes";
            for (size_t j = 0; j < regexes[i].size(); ++j) if (!toks_eq(regexes[i][j], o.regexes[i][j])) return "regexes";
        }
        if (flags != o.flags) return "flags";
        if (empty != o.empty) return "empty()";
        return nullptr;
    }
    // every parallel vector describes the same rules
    const char* crooked() const
    {
        const size_t n = statemap.size();
        if (regexes.size() != n || strings.size() != n || features.size() != n || ids.size() != n || uids.size() != n ||
            nexts.size() != n || pushes.size() != n || pops.size() != n) return "lexer states";
        for (size_t i = 0; i < n; ++i)
        {
            const size_t k = regexes[i].size();
            if (strings[i].size() != k || ids[i].size() != k || uids[i].size() != k || nexts[i].size() != k ||
                pushes[i].size() != k || pops[i].size() != k) return "rules of a lexer state";
        }
        for (auto& m : macros) if (m.second.empty()) return "macros";
        return nullptr;
    }
};
}
