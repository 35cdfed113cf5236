// csm.hpp - comparing machines of either kind.
#pragma once
#include "ser.hpp"
namespace csm
{
using sim::u64;
using sim::mix;
// ---- both kinds of machine ---------------------------------------------
template<typename C, typename id> bool same_machine(const lexertl::basic_state_machine<C, id>& a, const lexertl::basic_state_machine<C, id>& b)
{
    return ser::same(a, b);
}
template<typename C, typename id, bool d> bool same_machine(const lexertl::basic_char_state_machine<C, id, d>& a, const lexertl::basic_char_state_machine<C, id, d>& b)
{
    if (a._sm_vector.size() != b._sm_vector.size()) return false;
    for (size_t i = 0; i < a._sm_vector.size(); ++i)
    {
        auto& x = a._sm_vector[i];
        auto& y = b._sm_vector[i];
        if (x._bol_index != y._bol_index || x._states.size() != y._states.size()) return false;
        for (size_t j = 0; j < x._states.size(); ++j)
        {
            auto& s = x._states[j];
            auto& t = y._states[j];
            if (s._end_state != t._end_state || s._push_pop_dfa != t._push_pop_dfa || s._id != t._id || s._user_id != t._user_id ||
                s._push_dfa != t._push_dfa || s._next_dfa != t._next_dfa || s._eol_index != t._eol_index ||
                s._transitions.size() != t._transitions.size()) return false;
            auto k = t._transitions.begin();
            for (auto& tr : s._transitions)
            {
                if (tr.first != k->first || tr.second._ranges != k->second._ranges) return false;
                ++k;
            }
        }
    }
    return true;
}
template<typename C, typename id> u64 digest(const lexertl::basic_state_machine<C, id>& a) { return ser::digest(a); }
template<typename C, typename id, bool d> u64 digest(const lexertl::basic_char_state_machine<C, id, d>& a)
{
    u64 h = a._sm_vector.size();
    for (auto& x : a._sm_vector)
    {
        h = mix(mix(h, x._bol_index), x._states.size());
        for (auto& s : x._states)
        {
            h = mix(mix(mix(h, s._id), s._user_id), s._end_state);
            h = mix(mix(mix(mix(h, static_cast<u64>(s._push_pop_dfa)), s._push_dfa), s._next_dfa), s._eol_index);
            for (auto& tr : s._transitions) { h = mix(h, tr.first); for (auto& r : tr.second._ranges) h = mix(h, static_cast<u64>(r.first) * 31 + static_cast<u64>(r.second)); }
        }
    }
    return h;
}
// ---- tokens of a machine in character form -----------------------------
// The library has no lookup for this form, so this interpreter stands in:
// it reads rows the way lookup reads tables.  Labels are whole characters,
// or bytes (most significant first) when the machine was made from tables
// of a wide machine.
template<typename Csm> int follow(const typename Csm::state& s, u64 c)
{
    int to = -1;
    for (auto& t : s._transitions)
        for (auto& r : t.second._ranges)
            if (c >= static_cast<u64>(r.first) && c <= static_cast<u64>(r.second))
            {
                if (to >= 0 && to != static_cast<int>(t.first)) sim::violation("csm-ambiguous", "two transitions of a state hold the same character");
                to = static_cast<int>(t.first);
            }
    return to;
}
template<typename Csm> model::Tok next(const Csm& m, const model::u32str& in, model::State& st, unsigned bytes, u64 npos, u64 skip_id)
{
    using St = typename Csm::state;
    model::Tok t;
    size_t end_token = st.pos, curr;
    const auto row = [&](const typename Csm::dfa& d, size_t i) -> const St&
    {
        if (i >= d._states.size()) sim::violation("csm-bad-index", "a machine in character form refers to state %zu of %zu", i, d._states.size());
        return d._states[i];
    };
skip:
    curr = st.pos;
    t.first = curr;
again:
    if (curr == in.size())
    {
        t.id = 0; t.uid = npos;
    }
    else
    {
        if (static_cast<size_t>(st.state) >= m._sm_vector.size()) sim::violation("csm-bad-index", "a machine in character form refers to lexer state %d of %zu", st.state, m._sm_vector.size());
        const auto& d = m._sm_vector[static_cast<size_t>(st.state)];
        const St* s = &row(d, 0);
        const St* end = s->_end_state ? s : nullptr;
        bool bol = st.bol, end_bol = bol;
        if (bol && d._bol_index != static_cast<decltype(d._bol_index)>(npos)) s = &row(d, d._bol_index);
        bool jam = false;
        while (curr != in.size())
        {
            const char32_t c = in[curr];
            if (s->_eol_index != static_cast<decltype(s->_eol_index)>(npos) && (c == '\r' || c == '\n')) s = &row(d, s->_eol_index);
            else
            {
                int to = -1;
                if (bytes == 0) to = follow<Csm>(*s, c);
                else for (unsigned i = 0; i < bytes; ++i)
                {
                    to = follow<Csm>(*s, (c >> (8 * (bytes - 1 - i))) & 0xff);
                    if (to < 0) break;
                    s = &row(d, static_cast<size_t>(to));
                }
                bol = c == '\n';
                if (to < 0) { jam = true; break; }
                s = &row(d, static_cast<size_t>(to));
                ++curr;
            }
            if (s->_end_state) { end = s; end_token = curr; end_bol = bol; }
        }
        if (!jam && curr == in.size() && s->_eol_index != static_cast<decltype(s->_eol_index)>(npos))
        {
            s = &row(d, s->_eol_index);
            if (s->_end_state) { end = s; end_token = curr; end_bol = bol; }
        }
        if (end)
        {
            bool pop = end->_push_pop_dfa == St::push_pop_dfa::pop_dfa;
            int ns = end->_next_dfa;
            if (pop)
            {
                if (st.stack.empty()) { t.underflow = true; return t; }
                ns = st.stack.back().first;
                st.stack.pop_back();
            }
            else if (end->_push_pop_dfa == St::push_pop_dfa::push_dfa) st.stack.push_back({ static_cast<int>(end->_push_dfa), end->_id });
            st.state = ns;
            st.bol = end_bol;
            st.pos = end_token;
            if (end->_id == static_cast<decltype(end->_id)>(skip_id)) goto skip;
            if (end->_id == 0 || (pop && !st.stack.empty() && st.stack.back().second == 0)) { curr = end_token; goto again; }
            t.id = end->_id;
            t.uid = end->_user_id;
        }
        else
        {
            st.pos = end_token;
            st.bol = in[st.pos] == '\n';
            t.first = st.pos;
            ++st.pos;
            t.id = npos;
            t.uid = npos;
        }
    }
    t.second = st.pos;
    t.bol = st.bol; t.state = st.state; t.depth = st.stack.size();
    return t;
}
}
