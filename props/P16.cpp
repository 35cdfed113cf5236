// PARTS: 3
// SCHED
// P16: dumps are complete or visibly failed and never disturb what they show.
#include "view.hpp"
#include "rawre.hpp"
#include "csm.hpp"
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <iomanip>
#ifndef PART
#define PART 0
#endif
namespace sim
{
using bridge::u32str;

// ---- reading the text dump back -----------------------------------------
struct Reader
{
    std::vector<u32str> lines;
    size_t at = 0;
    explicit Reader(const u32str& t)
    {
        u32str l;
        for (char32_t c : t)
        {
            if (c == U'\n') { lines.push_back(l); l.clear(); }
            else l += c;
        }
        if (!l.empty()) bad("the last line is not ended", l);
    }
    [[noreturn]] void bad(const char* why, const u32str& l) { violation("dump-unreadable", "line %zu of the dump: %s: \"%s\"", at + 1, why, model::showre(l).c_str()); }
    const u32str& line()
    {
        static const u32str none;
        if (at >= lines.size()) bad("the dump ends early", none);
        return lines[at];
    }
    static bool eat(const u32str& l, size_t& p, const char* t)
    {
        size_t q = p;
        for (; *t; ++t, ++q) if (q >= l.size() || l[q] != static_cast<char32_t>(*t)) return false;
        p = q;
        return true;
    }
    u64 num(const u32str& l, size_t& p)
    {
        u64 n = 0;
        const size_t q = p;
        while (p < l.size() && l[p] >= U'0' && l[p] <= U'9') n = n * 10 + (l[p++] - U'0');
        if (p == q) bad("a number is missing", l);
        return n;
    }
    // Positions after character c written at p, in any of the ways it can be.
    static void chars(const u32str& l, size_t p, u32 c, bool in_class, std::vector<size_t>& out)
    {
        if (p >= l.size()) return;
        if (l[p] != U'\\')
        {
            const u32str special = in_class ? U"\\]^-" : U"|()?*+{}[].^/\\";
            if (l[p] == c && special.find(c) == u32str::npos) out.push_back(p + 1);
            return;
        }
        if (p + 1 >= l.size()) return;
        const char32_t e = l[p + 1];
        if (e == U'x')
        {
            u64 v = 0;
            size_t q = p + 2;
            for (; q < l.size() && q < p + 10; ++q)
            {
                const char32_t d = l[q];
                if (d >= U'0' && d <= U'9') v = v * 16 + (d - U'0');
                else if (d >= U'a' && d <= U'f') v = v * 16 + (d - U'a' + 10);
                else if (d >= U'A' && d <= U'F') v = v * 16 + (d - U'A' + 10);
                else break;
                if (v == c) out.push_back(q + 1);
            }
            return;
        }
        static const struct { char32_t e; u32 c; } es[] = { { U'0', 0 }, { U'a', 7 }, { U'b', 8 }, { U'f', 12 }, { U'n', 10 }, { U'r', 13 }, { U't', 9 }, { U'v', 11 } };
        for (auto& x : es) if (x.e == e) { if (x.c == c) out.push_back(p + 2); return; }
        if (e == c) out.push_back(p + 2);
    }
    using Ranges = std::vector<std::pair<u64, u64>>;
    static bool items(const u32str& l, size_t p, size_t end, const Ranges& r, size_t i)
    {
        if (i == r.size()) return p == end;
        std::vector<size_t> a, b;
        chars(l, p, static_cast<u32>(r[i].first), true, a);
        for (size_t q : a)
        {
            if (q > end) continue;
            if (r[i].first == r[i].second) { if (items(l, q, end, r, i + 1)) return true; continue; }
            b.clear();
            if (q < end && l[q] == U'-') chars(l, q + 1, static_cast<u32>(r[i].second), true, b);
            else if (r[i].first + 1 == r[i].second) chars(l, q, static_cast<u32>(r[i].second), true, b);
            for (size_t t : b) if (t <= end && items(l, t, end, r, i + 1)) return true;
        }
        return false;
    }
    // Does the label say exactly these characters?
    static bool says(const u32str& l, const Ranges& r, u64 max)
    {
        if (l.size() >= 2 && l[0] == U'[' && l.back() == U']')
        {
            if (l.size() > 2 && l[1] == U'^')
            {
                Ranges n;
                u64 next = 0;
                for (auto& p : r) { if (p.first > next) n.push_back({ next, p.first - 1 }); next = p.second + 1; }
                if (next <= max) n.push_back({ next, max });
                return items(l, 2, l.size() - 1, n, 0);
            }
            return items(l, 1, l.size() - 1, r, 0);
        }
        if (r.size() != 1 || r[0].first != r[0].second) return false;
        std::vector<size_t> a;
        chars(l, 0, static_cast<u32>(r[0].first), false, a);
        for (size_t q : a) if (q == l.size()) return true;
        return false;
    }
};

template<typename C> u32str wide(const std::basic_string<C>& s)
{
    u32str r;
    for (C c : s) r.push_back(static_cast<char32_t>(static_cast<std::make_unsigned_t<C>>(c)));
    return r;
}

template<typename C, typename id> struct Dumps
{
    using Sm = lexertl::basic_state_machine<C, id>;
    using Csm = lexertl::basic_char_state_machine<C, id>;
    using Rules = lexertl::basic_rules<C, C, id>;
    using Debug = lexertl::basic_debug<Sm, C, id>;
    using Dot = lexertl::basic_dot<Sm, C, id>;
    using Str = std::basic_string<C>;
    enum Kind { RULES, SM, SM_RULES, CSM, CSM_RULES, DOT_SM, DOT_CSM, NKINDS };
    static constexpr bool has_dot = sizeof(C) == 1;

    Rules r;
    Sm sm;
    Csm csm;
    bool machine = false;            // the rules could be built
    static const char* name(int k)
    {
        static const char* const n[] = { "rules", "machine", "machine with names", "character form", "character form with names", "graph", "graph of the character form" };
        return n[k];
    }
    void write(int k, std::basic_ostream<C>& os)
    {
        Lib l;
        switch (k)
        {
        case RULES: Debug::dump(r, os); break;
        case SM: Debug::dump(static_cast<const Sm&>(sm), os); break;
        case SM_RULES: Debug::dump(static_cast<const Sm&>(sm), r, os); break;
        case CSM: Debug::dump(static_cast<const Csm&>(csm), os); break;
        case CSM_RULES: Debug::dump(static_cast<const Csm&>(csm), r, os); break;
        case DOT_SM: if constexpr (has_dot) Dot::dump(static_cast<const Sm&>(sm), static_cast<const Rules&>(r), os); break;
        default: if constexpr (has_dot) Dot::dump(static_cast<const Csm&>(csm), static_cast<const Rules&>(r), os); break;
        }
    }
    int pick() const
    {
        if (!machine) return RULES;
        return static_cast<int>(g(has_dot ? NKINDS : DOT_SM));
    }
    // ---- what the dump of a machine must show -----------------------------
    void readable(const Csm& m, const u32str& t, bool names)
    {
        Reader rd(t);
        const u64 max = static_cast<u64>(Csm::string_token::char_traits::max_val());
        for (size_t d = 0; d < m._sm_vector.size(); ++d)
        {
            const auto& dfa = m._sm_vector[d];
            size_t p = 0;
            if (!Reader::eat(rd.line(), p, "Lexer state: ")) rd.bad("no lexer state", rd.line());
            if (names)
            {
                const C* n = r.state(static_cast<id>(d));
                if (rd.line().substr(p) != wide(Str(n))) rd.bad("another lexer state's name", rd.line());
            }
            else if (rd.num(rd.line(), p) != d) rd.bad("another lexer state", rd.line());
            ++rd.at;
            if (!rd.line().empty()) rd.bad("no blank line", rd.line());
            ++rd.at;
            for (size_t s = 0; s < dfa._states.size(); ++s)
            {
                const auto& st = dfa._states[s];
                p = 0;
                if (!Reader::eat(rd.line(), p, "State: ") || rd.num(rd.line(), p) != s) rd.bad("another state", rd.line());
                ++rd.at;
                p = 0;
                const bool end = Reader::eat(rd.line(), p, "  END STATE");
                if (end != st._end_state) rd.bad("end state or not", rd.line());
                if (end)
                {
                    const u32str& l = rd.line();
                    const bool push = Reader::eat(l, p, ", PUSH ");
                    if (push != (st._push_pop_dfa == Csm::state::push_pop_dfa::push_dfa)) rd.bad("push or not", l);
                    if (push && rd.num(l, p) != st._push_dfa) rd.bad("another pushed state", l);
                    if (!push && Reader::eat(l, p, ", POP") != (st._push_pop_dfa == Csm::state::push_pop_dfa::pop_dfa)) rd.bad("pop or not", l);
                    if (!Reader::eat(l, p, ", Id = ") || rd.num(l, p) != st._id) rd.bad("another id", l);
                    if (!Reader::eat(l, p, ", User Id = ") || rd.num(l, p) != st._user_id) rd.bad("another user id", l);
                    if (!Reader::eat(l, p, ", dfa = ") || rd.num(l, p) != st._next_dfa) rd.bad("another lexer state to go to", l);
                    if (p != l.size()) rd.bad("more than expected", l);
                    ++rd.at;
                }
                p = 0;
                const bool bol = Reader::eat(rd.line(), p, "  BOL -> ");
                if (bol != (s == 0 && dfa._bol_index != Csm::npos())) rd.bad("start of line or not", rd.line());
                if (bol) { if (rd.num(rd.line(), p) != dfa._bol_index) rd.bad("another state at start of line", rd.line()); ++rd.at; }
                p = 0;
                const bool eol = Reader::eat(rd.line(), p, "  EOL -> ");
                if (eol != (st._eol_index != Csm::npos())) rd.bad("end of line or not", rd.line());
                if (eol) { if (rd.num(rd.line(), p) != st._eol_index) rd.bad("another state at end of line", rd.line()); ++rd.at; }
                std::set<size_t> seen;
                for (; !rd.line().empty(); ++rd.at)
                {
                    const u32str& l = rd.line();
                    const size_t arrow = l.rfind(U" -> ");
                    p = 0;
                    if (!Reader::eat(l, p, "  ") || arrow == l.npos) rd.bad("no transition", l);
                    size_t q = arrow + 4;
                    const u64 to = rd.num(l, q);
                    auto tr = st._transitions.find(static_cast<id>(to));
                    if (q != l.size() || tr == st._transitions.end() || !seen.insert(to).second) rd.bad("a transition the machine does not have", l);
                    Reader::Ranges want;
                    for (auto& x : tr->second._ranges) want.push_back({ static_cast<u64>(x.first), static_cast<u64>(x.second) });
                    if (!Reader::says(l.substr(2, arrow - 2), want, max))
                    {
                        std::string w;
                        for (auto& x : want) w += fmt(" %llx-%llx", static_cast<unsigned long long>(x.first), static_cast<unsigned long long>(x.second));
                        violation("label-differs", "the transition on%s is shown as \"%s\"", w.c_str(), model::showre(l).c_str());
                    }
                }
                if (seen.size() != st._transitions.size()) rd.bad("transitions are missing", rd.line());
                ++rd.at;
            }
        }
        if (rd.at != rd.lines.size()) rd.bad("more than the machine has", rd.line());
        count("dumps-read-back");
    }
    // A set of characters as the label of an edge.
    static std::string label(typename Csm::string_token x)
    {
        std::string o = "[";
        if (!x.any() && x.negatable()) { x.negate(); o += '^'; }
        const auto put = [&](u64 c)
        {
            static const char* const names[] = { "0", 0, 0, 0, 0, 0, 0, "a", "b", "t", "n", "v", "f", "r" };
            if (c == '^' || c == ']' || c == '"' || c == '\'' || c == '\\') o += "\\\\";
            if (c == '\\') return;
            if (c < 14 && names[c]) o += std::string("\\\\") + names[c];
            else if (c < 32 || c > 126) o += fmt("\\x%llx", static_cast<unsigned long long>(c));
            else if (c == '&') o += "&amp;";
            else if (c == '<') o += "&lt;";
            else if (c == '>') o += "&gt;";
            else o += static_cast<char>(c);
        };
        for (auto& r : x._ranges)
        {
            put(static_cast<u64>(r.first));
            if (r.first == r.second) continue;
            if (r.first + 1 < r.second) o += '-';
            put(static_cast<u64>(r.second));
        }
        return o + "]";
    }
    void graph(const Csm& m, const u32str& t)
    {
        // every state a node, every transition an edge
        std::map<std::string, int> nodes, edges;
        std::string s;
        for (char32_t c : t) s += static_cast<char>(c);
        const auto node = [](size_t d, size_t i) { return fmt("L%zu_S%zu", d, i); };
        size_t b = 0;
        for (size_t e; b < s.size(); b = e + 1)
        {
            e = s.find('\n', b);
            if (e == s.npos) violation("dump-unreadable", "the graph's last line is not ended");
            const std::string l = s.substr(b, e - b);
            if (l.compare(0, 5, "    L") != 0) continue;
            const size_t br = l.find(" [");
            if (br == l.npos) violation("dump-unreadable", "a line of the graph: \"%s\"", l.c_str());
            const std::string head = l.substr(4, br - 4), rest = l.substr(br);
            if (head.find(" -> ") != head.npos)
            {
                const size_t td = rest.find("<TD>"), end = rest.rfind("</TD>");
                if (rest.find("dashed") != rest.npos && td == rest.npos) ++edges["=" + head];
                else if (td == rest.npos || end == rest.npos || end < td + 4) violation("dump-unreadable", "an edge of the graph: \"%s\"", l.c_str());
                else ++edges[head + " " + rest.substr(td + 4, end - td - 4)];
            }
            else { ++nodes[head]; if ((rest.find("doublecircle") != rest.npos)) ++nodes["end " + head + rest.substr(rest.find("id = "))]; }
        }
        std::map<std::string, int> wn, we;
        for (size_t d = 0; d < m._sm_vector.size(); ++d)
            for (size_t i = 0; i < m._sm_vector[d]._states.size(); ++i)
            {
                const auto& st = m._sm_vector[d]._states[i];
                ++wn[node(d, i)];
                if (i && st._end_state) ++wn["end " + node(d, i) + fmt("id = %zu\"];", static_cast<size_t>(st._id))];
                for (auto& tr : st._transitions) ++we[node(d, i) + " -> " + node(d, tr.first) + " " + label(tr.second)];
                if (m._sm_vector.size() > 1 && st._end_state) ++we["=" + node(d, i) + " -> " + node(st._next_dfa, 0)];
            }
        const auto differ = [](const std::map<std::string, int>& x, const std::map<std::string, int>& y)
        {
            for (auto& p : x) { auto i = y.find(p.first); if (i == y.end() || i->second != p.second) return p.first; }
            return std::string();
        };
        std::string what = differ(wn, nodes);
        if (what.empty()) what = differ(nodes, wn);
        if (what.empty()) what = differ(we, edges);
        if (what.empty()) what = differ(edges, we);
        if (!what.empty()) violation("graph-differs", "the graph and the machine differ at %s", what.c_str());
        count("graphs-read-back");
    }
    // ---- the dump of rules, read back as rules ------------------------------
    using Tokens = typename Rules::token_vector;
    using Ty = lexertl::detail::token_type;
    // A hexadecimal escape (or \\0) followed by a digit reads as one.
    static bool ambiguous(const Tokens& ts)
    {
        bool hex = false;
        const auto put = [&](u64 c)
        {
            const bool digit = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
            if (hex && digit) return true;
            hex = c == 27 || c > 126 || c < 7 || (c > 13 && c < 32);
            return false;
        };
        for (auto& t : ts)
        {
            if (t._type != Ty::CHARSET) { hex = false; continue; }
            auto s = t._str;
            const bool cls = s._ranges.size() > 1 || s._ranges.front().first != s._ranges.front().second;
            if (cls) hex = false;
            if (!s.any() && s.negatable()) s.negate();
            for (auto& x : s._ranges)
            {
                if (put(static_cast<u64>(x.first))) return true;
                if (x.first == x.second) continue;
                if (x.first + 1 < x.second) hex = false;
                if (put(static_cast<u64>(x.second))) return true;
            }
            if (cls) hex = false;
        }
        return false;
    }
    static bool tokens_eq(const Tokens& a, const Tokens& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (a[i]._type != b[i]._type) return false;
            if (a[i]._type == Ty::CHARSET && a[i]._str._ranges != b[i]._str._ranges) return false;
            if ((a[i]._type == Ty::REPEATN || a[i]._type == Ty::AREPEATN) && a[i]._extra != b[i]._extra) return false;
        }
        return true;
    }
    static Str text(const u32str& t)
    {
        Str s;
        for (char32_t c : t) s += static_cast<C>(c);
        return s;
    }
    static void strip(Tokens& ts)
    {
        while (ts.size() > 4 && ts[1]._type == Ty::OPENPAREN && ts[ts.size() - 2]._type == Ty::CLOSEPAREN)
        {
            int depth = 0;
            for (size_t i = 1; i + 2 < ts.size(); ++i)
            {
                depth += (ts[i]._type == Ty::OPENPAREN) - (ts[i]._type == Ty::CLOSEPAREN);
                if (depth == 0) return;
            }
            ts.erase(ts.end() - 2);
            ts.erase(ts.begin() + 1);
        }
    }
    // One regex of the dump, as the tokens it reads as.  Reading it as a macro
    // leaves out what push() does to the rules with non-greedy operators.
    void same_regex(Rules& back, const u32str& t, const Tokens& want0, const Str& name, const char* what)
    {
        try
        {
            Lib l;
            back.insert_macro(name.c_str(), text(t));
        }
        catch (const lexertl::runtime_error& e)
        {
            Harness h;
            violation("regex-differs", "the %s \"%s\" of the dump cannot be read: %s", what, model::showre(t).c_str(), e.what());
        }
        Tokens want = want0, got = back.macros().find(name)->second;
        strip(want);
        strip(got);
        if (!tokens_eq(got, want))
            violation("regex-differs", "the %s \"%s\" of the dump means another regex than the rule set has", what, model::showre(t).c_str());
        count("regexes-read-back");
    }
    void rules_readable(const u32str& t)
    {
        Reader rd(t);
        Rules back(32 | 16);
        const size_t n = r.statemap().size();
        const auto name = [&](size_t i) { return wide(Str(r.state(static_cast<id>(i)))); };
        if (n > 1)
        {
            u32str l = U"%x";
            for (size_t i = 1; i < n; ++i) l += U" " + name(i);
            if (rd.line() != l) rd.bad("another list of lexer states", rd.line());
            ++rd.at;
        }
        if (rd.line() != U"%%") rd.bad("no %%", rd.line());
        ++rd.at;
        std::vector<std::pair<u32str, u32str>> ms;
        for (; rd.line() != U"%%"; ++rd.at)
        {
            const size_t sp = rd.line().find(U' ');
            if (sp == u32str::npos) rd.bad("no macro", rd.line());
            ms.push_back({ rd.line().substr(0, sp), rd.line().substr(sp + 1) });
        }
        ++rd.at;
        if (ms.size() != r.macros().size()) rd.bad("macros are missing or there are more", rd.line());
        size_t i = 0;
        std::set<Str> unclear;
        for (auto& m : r.macros())
        {
            if (ms[i].first != wide(m.first)) rd.bad("another macro", ms[i].first);
            if (ambiguous(m.second)) { unclear.insert(m.first); count("ambiguous-escapes"); Lib l; back.insert_macro(m.first.c_str(), Str(1, C('a'))); }
            else same_regex(back, ms[i].second, m.second, m.first, "macro");
            ++i;
        }
        for (size_t s = 0; s < n; ++s)
            for (size_t j = 0; j < r.regexes()[s].size(); ++j, ++rd.at)
            {
                u32str l = rd.line();
                const id next = r.next_dfas()[s][j], push = r.pushes()[s][j], rid = r.ids()[s][j];
                const bool pop = r.pops()[s][j];
                const u32str pre = U"<" + name(s) + U">";
                if (s || next != s || pop || push != Rules::npos())
                {
                    if (l.compare(0, pre.size(), pre) != 0) rd.bad("another lexer state's rule", l);
                    l.erase(0, pre.size());
                }
                const size_t cut = l.rfind(U" {");
                if (cut == u32str::npos || l.back() != U'}') rd.bad("no action", l);
                // what the action does
                u32str act;
                for (char32_t c : l.substr(cut + 2)) if (c != U' ') act += c;
                u32str want;
                if (push != Rules::npos())
                {
                    if (push != s) want += U"BEGIN(" + name(push) + U");";
                    want += U"yy_push_state(" + name(next) + U");";
                }
                else if (pop) want += U"yy_pop_state();";
                else if (next != s) want += U"BEGIN(" + name(next) + U");";
                if (rid)
                {
                    want += U"return";
                    for (char c : std::to_string(static_cast<size_t>(rid))) want += static_cast<char32_t>(c);
                    want += U";";
                }
                want += U"}";
                if (act != want) rd.bad("another action", l);
                // macros whose text is unclear
                bool skip = false;
                for (auto& m : unclear) if (l.find(U"{" + wide(m) + U"}") != u32str::npos) skip = true;
                if (skip || ambiguous(r.regexes()[s][j])) count("ambiguous-escapes");
                else 
                {
                    Str rn(1, C('R'));
                    for (char c : std::to_string(s) + "_" + std::to_string(j)) rn += C(c);
                    same_regex(back, l.substr(0, cut), r.regexes()[s][j], rn, "regex");
                }
            }
        if (rd.line() != U"%%") rd.bad("no %% at the end", rd.line());
        ++rd.at;
        if (rd.at != rd.lines.size()) rd.bad("more than the rules", rd.line());
        count("rules-read-back");
    }
    struct Format
    {
        std::ios_base::fmtflags f;
        std::streamsize p, w;
        bool operator==(const Format& o) const { return f == o.f && p == o.p && w == o.w; }
    };
    static Format format(const std::basic_ostream<C>& os) { return { os.flags(), os.precision(), os.width() }; }

    Str full[NKINDS];
    bool have[NKINDS] = {};
    // The whole dump, as the first one of its kind gave it.
    const Str& reference(int k)
    {
        if (have[k]) return full[k];
        simio::OutBuf<C> buf;
        std::basic_ostream<C> os(&buf);
        write(k, os);
        SIM_CHECK(os.good(), "spurious-failure", "dumping the %s to a working stream failed", name(k));
        full[k] = buf.all();
        have[k] = true;
        event("dump", static_cast<u64>(k), hash_range(full[k].data(), full[k].size()));
        const u32str t = wide(full[k]);
        if (k == SM || k == SM_RULES || k == DOT_SM)
        {
            Csm m;
            lexertl::sm_to_csm(sm, m);
            if (k == DOT_SM) graph(m, t); else readable(m, t, k == SM_RULES);
        }
        else if (k == DOT_CSM) graph(csm, t);
        else if (k == RULES) rules_readable(t);
        else readable(csm, t, k == CSM_RULES);
        return full[k];
    }
    struct Once { int k; size_t buffered; bool mask; size_t limit; simio::Kind fail; bool bad_sync; bool hex; };
    // A dump to one stream; what it wrote is checked against the whole.
    void dump(const Once& o, bool alloc, const char* how)
    {
        simio::OutBuf<C>* buf;
        std::basic_ostream<C>* os;
        {
            Harness h;
            buf = new simio::OutBuf<C>(o.buffered);
            os = new std::basic_ostream<C>(buf);
            if (o.mask) os->exceptions(std::ios_base::badbit | std::ios_base::failbit);
            buf->limit = o.limit;
            buf->fail = o.fail;
            buf->fail_sync = o.bad_sync;
        }
        const Format before = format(*os);
        bool thrown = false, memory = false;
        try { write(o.k, *os); }
        catch (const std::bad_alloc&) { thrown = memory = true; }
        catch (const std::ios_base::failure&) { thrown = true; }
        catch (const simit::IoError&) { thrown = true; }
        Harness h;
        const Str& whole = full[o.k];
        const Str got = buf->all();
        if (memory && !alloc) violation("spurious-bad-alloc", "bad_alloc without an injected failure");
        const bool device = buf->failures || buf->sync_failures;
        if (got.size() > whole.size() || whole.compare(0, got.size(), got) != 0)
        {
            size_t i = 0;
            while (i < got.size() && i < whole.size() && got[i] == whole[i]) ++i;
            violation(device || thrown ? "not-a-prefix" : "dump-differs", "%s the dump of the %s differs from the first one at character %zu of %zu: \"%s\"", how, name(o.k), i,
                whole.size(), model::showre(wide(got.substr(i, 30))).c_str());
        }
        if (!thrown && os->good())
        {
            if (got.size() != whole.size()) violation("failure-hidden", "%s only %zu of %zu characters of the dump of the %s were written and nothing shows it", how, got.size(), whole.size(), name(o.k));
            count("dumps-whole");
        }
        else
        {
            SIM_CHECK(device || memory || alloc, "spurious-failure", "%s dumping the %s failed without an injected failure", how, name(o.k));
            count(memory ? "fault:dump-without-memory" : "dumps-failed");
        }
        if (device && os->good() && !thrown) violation("failure-hidden", "the output failed and the stream does not show it");
        if (thrown && !o.mask && !memory) violation("throws", "a dump threw though the stream's exceptions are off");
        SIM_CHECK(format(*os) == before, "format-changed", "%s dumping the %s changed the stream's formatting", how, name(o.k));
        event("dumped", static_cast<u64>(o.k), got.size(), static_cast<u64>(os->rdstate()) * 2 + thrown);
        delete os;
        delete buf;
    }
    Once draw(int k, bool faults)
    {
        Once o{ k, g(2) * gr(1, 40), gc(1, 2), ~size_t(0), simio::EARLY_EOF, false, false };
        if (faults)
        {
            if (chance(FAULT, 1, 5)) o.bad_sync = true;
            else o.limit = choose(FAULT, full[k].size() + 1);
            if (chance(FAULT, 1, 2)) o.fail = simio::THROW;
        }
        return o;
    }
    void go(model::GenOpt o)
    {
        setup_heap_policy();
        o.npos = static_cast<id>(~0);
        if (gc(2, 3))
        {
            o.max_states = gc(1, 2) ? 3 : 1;
            o.recursive = true;
            o.max_rules = static_cast<int>(gr(1, sizeof(id) == 1 ? 3 : 4));
            o.depth = 2;
            o.max_macros = 2;
            model::Gen gen;
            gen.o = o;
            const model::Spec s = gen.make();
            describe("rules %s; ", model::describe(s).c_str());
            event_str("rules", model::describe(s));
            Lib l;
            bridge::apply(s, r);
        }
        else
        {
            std::string d = "raw";
            r.flags(32 | 16 | 2);
            const size_t n = gr(1, 3);
            for (size_t i = 0; i < n + 1; ++i)
            {
                u32str t;
                do t = rawre::regex(2); while (t.size() > 60);
                if (i == 0) t = gc(1, 2) ? U"[!-~]{-}[" + t.substr(0, 0) + U"\\x41]" : U"[\\-\\]^a]";
                d += "; " + model::showre(t);
                Lib l;
                try
                {
                    if (i == n) { if (gc(1, 3)) t = gc(1, 2) ? u32str() : u32str(U"$"); r.insert_macro(Str(1, C('M')).c_str(), bridge::conv<C>(t)); r.push(bridge::conv<C>(U"{M}x"), 9); }
                    else r.push(bridge::conv<C>(t), static_cast<id>(1 + i));
                }
                catch (const lexertl::runtime_error&) {}
            }
            describe("%s; ", d.c_str());
            event_str("rules", d);
        }
        if (!r.regexes()[0].empty())
        try
        {
            Lib l;
            lexertl::basic_generator<Rules, Sm>::build(r, sm);
            if (gc(1, 2)) lexertl::basic_generator<Rules, Csm>::build(r, csm);
            else lexertl::sm_to_csm(sm, csm);
            size_t states = 0;
            for (auto& d : csm._sm_vector) states += d._states.size();
            machine = states <= 60;
        }
        catch (const lexertl::runtime_error&) { count("rejected-build"); }
        const View<Rules> view(r);
        const Sm sm0 = sm;
        const Csm csm0 = csm;
        set_step_budget(400000000);
        const size_t n = 2 + g(4);
        for (size_t i = 0; i < n; ++i)
        {
            const int k = pick();
            if (!machine) count("rules-only");
            reference(k);
            nontrivial();
            switch (g(4))
            {
            case 0: dump(draw(k, false), false, "again"); break;
            case 1: dump(draw(k, true), false, "to failing output"); break;
            case 2:
            {
                const Once w = draw(k, false);
                arm_alloc_fault(logu(FAULT, 10), chance(FAULT, 1, 2));
                dump(w, true, "without memory");
                disarm_alloc_fault();
                break;
            }
            default:
            {
                std::vector<Once> ws;
                std::vector<std::function<void()>> fns;
                const size_t nt = 2 + g(2);
                for (size_t j = 0; j < nt; ++j)
                {
                    const int kk = pick();
                    reference(kk);
                    ws.push_back(draw(kk, chance(FAULT, 1, 3)));
                }
                for (auto& w : ws) fns.push_back([this, &w]() { dump(w, false, "while others dump"); });
                track_races(true);
                run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 12)));
                track_races(false);
                count("concurrent-dumps", nt);
                break;
            }
            }
            const char* w = View<Rules>(r).differs(view);
            if (w) violation("rules-changed", "dumping the %s changed the rules: %s", name(k), w);
            if (!ser::same(sm, sm0)) violation("machine-changed", "dumping the %s changed the machine", name(k));
            if (!csm::same_machine(csm, csm0)) violation("machine-changed", "dumping the %s changed the machine in character form", name(k));
        }
    }
};
#define DEF(n) void part##n(model::GenOpt o)
DEF(0); DEF(1); DEF(2);
#if PART == 0
DEF(0) { o.max_char = 0xff; Dumps<char, uint16_t> d; d.go(o); }
const Info info = {
    "P16",
    "rule sets in reference and raw syntax with macros and lexer states; text dumps of rules, machine (with and without names, table and character form) and graphs; 2-5 rounds: again with other buffering, "
    "to output that is full, throws or cannot flush (stream exceptions on or off), with failing allocations, or by 2-3 tasks switched at memory accesses; machine dumps read back, others compared with the first; "
    "non-trivial: every run",
    "debug, dot, sm_to_csm, stream_num, string_token, char_state_machine, rules, generator",
    "output devices: streambuf taking pieces and failing where the plan says; heap: seeded arena with failing allocations; threads: cooperative tasks under the seeded scheduler",
    "event history hash of (rules, dumps, faults, characters written)",
    "streams have default formatting; a hexadecimal escape followed by a hexadecimal digit may be read either way; graph labels are not read back; char32_t streams have no ctype facet here and are left out"
};
void warmup()
{
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    std::wostringstream ws;
    ws << 1 << L'c' << L"x" << std::hex << 255 << std::endl;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
    try { ss.exceptions(std::ios_base::badbit); ss.setstate(std::ios_base::badbit); } catch (const std::exception&) {}
}
void episode()
{
    model::GenOpt o;
    switch (g(4))
    {
    case 0: case 1: part0(o); break;
    case 2: part1(o); break;
    default: part2(o); break;
    }
}
#elif PART == 1
DEF(1) { o.max_char = 0xff; Dumps<char, uint8_t> d; d.go(o); }
#else
DEF(2) { o.max_char = 0x10ffff; Dumps<wchar_t, uint16_t> d; d.go(o); }
#endif
}
