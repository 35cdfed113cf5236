// model.hpp - independent reference model of lexertl's rule language and
// tokeniser: regexes as NFAs run by set simulation, longest match, first
// rule, lexer states, push/pop stack, skip and "again" rules.  No code or
// table is shared with the library.
#pragma once
#include "sim.hpp"
#include "unidata.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace model
{
using sim::u32;
using sim::u64;
using u32str = std::u32string;

// ---- character sets ----------------------------------------------------
struct Set
{
    std::vector<std::pair<u32, u32>> r;    // sorted, disjoint
    void norm()
    {
        std::sort(r.begin(), r.end());
        std::vector<std::pair<u32, u32>> o;
        for (auto& p : r)
        {
            if (!o.empty() && p.first <= o.back().second + 1 )
                o.back().second = std::max(o.back().second, p.second);
            else o.push_back(p);
        }
        r = o;
    }
    void add(u32 a, u32 b) { r.push_back({ a, b }); norm(); }
    void add(u32 a) { add(a, a); }
    void add(const Set& s) { r.insert(r.end(), s.r.begin(), s.r.end()); norm(); }
    bool has(u32 c) const
    {
        auto i = std::upper_bound(r.begin(), r.end(), c, [](u32 v, const std::pair<u32, u32>& p) { return v < p.first; });
        return i != r.begin() && c <= (--i)->second;
    }
    Set neg(u32 max) const
    {
        Set o;
        u32 next = 0;
        bool done = false;
        for (auto& p : r)
        {
            if (p.first > max) break;
            if (p.first > next) o.r.push_back({ next, p.first - 1 });
            if (p.second >= max) { done = true; break; }
            next = p.second + 1;
        }
        if (!done) o.r.push_back({ next, max });
        return o;
    }
    void remove(const Set& s, u32 max)
    {
        Set n = neg(max);
        n.add(s);
        *this = n.neg(max);
    }
    bool empty() const { return r.empty(); }
};

// ---- regexes ------------------------------------------------------------
struct Re
{
    enum Kind { SET, CAT, ALT, STAR, PLUS, OPT, REP } k = SET;
    Set set;
    u32str text;                     // SET: how it is written
    std::vector<Re> kids;
    int lo = 0, hi = 0;              // REP; hi == -1: unbounded
    u32str as;                       // when set: written like this (macro, string, ...)
};

inline bool nullable(const Re& e)
{
    switch (e.k)
    {
    case Re::SET: return false;
    case Re::CAT: for (auto& c : e.kids) if (!nullable(c)) return false; return true;
    case Re::ALT: for (auto& c : e.kids) if (nullable(c)) return true; return false;
    case Re::STAR: case Re::OPT: return true;
    case Re::PLUS: return nullable(e.kids[0]);
    case Re::REP: return e.lo == 0 || nullable(e.kids[0]);
    }
    return false;
}
// What matches the mirror image of what e matches.
inline Re mirrored(const Re& e)
{
    Re r = e;
    for (auto& c : r.kids) c = mirrored(c);
    if (r.k == Re::CAT) std::reverse(r.kids.begin(), r.kids.end());
    return r;
}
inline int re_size(const Re& e)
{
    int n = 1;
    for (auto& c : e.kids) n += re_size(c);
    if (e.k == Re::REP) n *= e.hi < 0 ? e.lo + 1 : e.hi;
    return n;
}
inline void num(u32str& o, int n)
{
    for (char ch : std::to_string(n)) o += static_cast<char32_t>(ch);
}
// Blanks and comments, which mean nothing under the x flag.
inline void blanks(u32str& o)
{
    static const char32_t* const t[] = { U" ", U"\t", U"\n", U" /* c */ ", U"/**/", U"/* ( * [ \" */", U"\r\n", U" (?#(c)) " };
    if (sim::gc(1, 5)) o += t[sim::g(sizeof t / sizeof *t)];
}
// prec: 0 alternation, 1 concatenation, 2 repetition operand
// ws: blanks mean nothing here
inline void print(const Re& e, u32str& o, int prec, bool ws = false)
{
    if (ws) blanks(o);
    if (!e.as.empty())
    {
        o += e.as;
        return;
    }
    const int mine = e.k == Re::ALT ? 0 : e.k == Re::CAT ? 1 : e.k == Re::SET ? 3 : 2;
    const bool paren = mine < prec || (mine == 2 && prec == 2) || (e.k == Re::CAT && prec == 2);
    if (paren) o += U'(';
    if (ws && paren) blanks(o);
    switch (e.k)
    {
    case Re::SET: o += e.text; break;
    case Re::CAT: for (auto& c : e.kids) print(c, o, 1, ws); break;
    case Re::ALT:
        for (size_t i = 0; i < e.kids.size(); ++i)
        {
            if (i) o += U'|';
            if (ws) blanks(o);
            print(e.kids[i], o, 1, ws);
            if (ws) blanks(o);
        }
        break;
    case Re::STAR: print(e.kids[0], o, 2, ws); if (ws) blanks(o); o += U'*'; break;
    case Re::PLUS: print(e.kids[0], o, 2, ws); o += U'+'; break;
    case Re::OPT: print(e.kids[0], o, 2, ws); if (ws) blanks(o); o += U'?'; break;
    case Re::REP:
        print(e.kids[0], o, 2, ws);
        if (ws) blanks(o);
        o += U'{';
        num(o, e.lo);
        if (e.hi != e.lo)
        {
            o += U',';
            if (e.hi >= 0) num(o, e.hi);
        }
        o += U'}';
        break;
    }
    if (ws && paren) blanks(o);
    if (paren) o += U')';
}

// ---- Unicode -----------------------------------------------------------
// cats: categories or their first letters, separated by spaces
inline Set category(const std::string& cats)
{
    Set x;
    for (auto& k : unidata::cats)
        for (size_t i = 0; i < cats.size();)
        {
            size_t e = cats.find(' ', i);
            if (e == cats.npos) e = cats.size();
            if (std::string(k.name).compare(0, e - i, cats, i, e - i) == 0) x.r.push_back({ k.first, k.last });
            i = e + 1;
        }
    x.norm();
    return x;
}

// ---- NFA ---------------------------------------------------------------
struct Nfa
{
    struct N { int set; int a, b; };   // set >= 0: consuming; -1: split; -2: accept
    std::vector<N> n;
    std::vector<Set> sets;
    int start = 0;
    int node(int s, int a, int b) { n.push_back({ s, a, b }); return static_cast<int>(n.size()) - 1; }
    // builds e with continuation k, returns entry
    int comp(const Re& e, int k)
    {
        switch (e.k)
        {
        case Re::SET:
            sets.push_back(e.set);
            return node(static_cast<int>(sets.size()) - 1, k, -1);
        case Re::CAT:
            for (size_t i = e.kids.size(); i-- > 0;) k = comp(e.kids[i], k);
            return k;
        case Re::ALT:
        {
            int r = comp(e.kids.back(), k);
            for (size_t i = e.kids.size() - 1; i-- > 0;)
            {
                int x = comp(e.kids[i], k);
                r = node(-1, x, r);
            }
            return r;
        }
        case Re::OPT: { int x = comp(e.kids[0], k); return node(-1, x, k); }
        case Re::STAR:
        {
            int s = node(-1, -1, k);
            int x = comp(e.kids[0], s);
            n[static_cast<size_t>(s)].a = x;
            return s;
        }
        case Re::PLUS:
        {
            int s = node(-1, -1, k);
            int x = comp(e.kids[0], s);
            n[static_cast<size_t>(s)].a = x;
            return x;
        }
        case Re::REP:
        {
            if (e.hi < 0)
            {
                int s = node(-1, -1, k);
                int x = comp(e.kids[0], s);
                n[static_cast<size_t>(s)].a = x;
                k = s;
            }
            else
                for (int i = e.lo; i < e.hi; ++i)
                {
                    int x = comp(e.kids[0], k);
                    // each optional copy may be skipped to the end as well
                    k = node(-1, x, k);
                }
            for (int i = 0; i < e.lo; ++i) k = comp(e.kids[0], k);
            return k;
        }
        }
        return k;
    }
    explicit Nfa(const Re& e) { int acc = node(-2, -1, -1); start = comp(e, acc); }
    void closure(int s, std::vector<int>& list, std::vector<unsigned>& mark, unsigned gen) const
    {
        std::vector<int> st{ s };
        while (!st.empty())
        {
            int i = st.back();
            st.pop_back();
            if (i < 0 || mark[static_cast<size_t>(i)] == gen) continue;
            mark[static_cast<size_t>(i)] = gen;
            list.push_back(i);
            const N& x = n[static_cast<size_t>(i)];
            if (x.set == -1) { st.push_back(x.a); st.push_back(x.b); }
        }
    }
    // Calls f(len) for every accepted prefix length of in[pos..).
    template<typename F> void run(const u32str& in, size_t pos, F f) const
    {
        std::vector<int> cur, nxt;
        std::vector<unsigned> mark(n.size(), 0);
        unsigned gen = 1;
        closure(start, cur, mark, gen);
        for (size_t p = pos;; ++p)
        {
            for (int i : cur) if (n[static_cast<size_t>(i)].set == -2) { f(p - pos); break; }
            if (p == in.size()) break;
            ++gen;
            nxt.clear();
            for (int i : cur)
            {
                const N& x = n[static_cast<size_t>(i)];
                if (x.set >= 0 && sets[static_cast<size_t>(x.set)].has(in[p])) closure(x.a, nxt, mark, gen);
            }
            if (nxt.empty()) break;
            cur.swap(nxt);
        }
    }
};

// ---- rules ---------------------------------------------------------------
struct Rule
{
    Re re;
    std::shared_ptr<Nfa> nfa;
    bool bol = false, eol = false;
    u64 id = 0, uid = 0;
    int next = 0;
    int push = -1;
    bool pop = false;
    bool shy = false;                    // takes the shortest text, not the longest
    Set tail;                            // and then all that follows of these
    u32str text;
};
struct Call                              // one call a user makes on basic_rules
{
    enum Kind { STATE, MACRO, PUSH, PUSH_STATE, CLEAR_STATE, REVERSE, FLAGS } k;
    u32str name, text, from, to;
    u64 id = 0, uid = 0;
    bool has_id = true, has_uid = false;
    int overload = 0;
};
struct Spec
{
    size_t flags = 2;                    // dot_not_newline
    std::vector<u32str> names{ U"INITIAL" };
    std::vector<std::vector<Rule>> st{ {} };
    std::vector<Call> calls;
    bool recursive = false, reversed = false;
    bool any_bol = false, any_eol = false, any_icase = false;
    bool latin1 = false;                 // the rules have a locale in which c0-ff are letters
    u32 max_char = 0xff;
    u64 npos = 0xffff;
    std::vector<u32> alphabet;
    u64 skip() const { return npos - 1; }
};

// ---- tokeniser -------------------------------------------------------------
struct State
{
    size_t pos = 0;
    bool bol = true;
    int state = 0;
    std::vector<std::pair<int, u64>> stack;
};
struct Tok
{
    u64 id = 0, uid = 0;
    size_t first = 0, second = 0;
    bool bol = false;
    int state = 0;
    size_t depth = 0;
    bool underflow = false;              // the library throws
    bool operator==(const Tok& o) const
    {
        if (underflow || o.underflow) return underflow == o.underflow;
        return id == o.id && uid == o.uid && first == o.first && second == o.second &&
            bol == o.bol && state == o.state && depth == o.depth;
    }
};
inline std::string str(const Tok& t, const Spec& s)
{
    if (t.underflow) return "(stack underflow)";
    auto n = [&](u64 v) { return v == s.npos ? std::string("npos") : v == s.skip() ? std::string("skip") : std::to_string(v); };
    return "{id " + n(t.id) + " uid " + n(t.uid) + " [" + std::to_string(t.first) + "," +
        std::to_string(t.second) + ") bol " + std::to_string(t.bol) + " state " +
        std::to_string(t.state) + " depth " + std::to_string(t.depth) + "}";
}
struct Best { bool any = false; size_t len = 0; int via = 0; size_t rule = 0; };
inline Best match(const Spec& s, int state, const u32str& in, size_t pos, bool bol)
{
    Best b;
    const auto& rules = s.st[static_cast<size_t>(state)];
    for (size_t i = 0; i < rules.size(); ++i)
    {
        const Rule& r = rules[i];
        if (r.bol && !bol) continue;
        bool first = true;
        r.nfa->run(in, pos, [&](size_t len) {
            if (r.shy && !first) return;
            first = false;
            if (!r.tail.empty()) while (pos + len < in.size() && r.tail.has(in[pos + len])) ++len;
            const size_t p = pos + len;
            if (r.eol && !(p == in.size() || in[p] == '\n' || in[p] == '\r')) return;
            const int via = r.eol ? 1 : 0;
            // longest; an end-of-line assertion counts as matching further;
            // then the first rule
            if (!b.any || len > b.len || (len == b.len && via > b.via))
            {
                b.any = true;
                b.len = len;
                b.via = via;
                b.rule = i;
            }
        });
    }
    return b;
}
// cps: when given, collects every state the run commits on the way.
inline Tok next(const Spec& s, const u32str& in, State& st, std::vector<State>* cps = nullptr)
{
    Tok t;
    size_t end_token = st.pos;
    size_t curr;
skip:
    curr = st.pos;
    t.first = curr;
again:
    if (curr == in.size())
    {
        t.id = 0;
        t.uid = s.npos;
        t.second = st.pos;
        t.bol = st.bol; t.state = st.state; t.depth = st.stack.size();
        return t;
    }
    const Best b = match(s, st.state, in, curr, st.bol);
    if (b.any)
    {
        const Rule& r = s.st[static_cast<size_t>(st.state)][b.rule];
        end_token = curr + b.len;
        bool eoi_id = false;
        int ns = r.next;
        if (r.pop)
        {
            if (st.stack.empty()) { t.underflow = true; return t; }
            ns = st.stack.back().first;
            st.stack.pop_back();
        }
        else if (r.push >= 0) st.stack.push_back({ r.push, r.id });
        st.state = ns;
        if (b.len) st.bol = in[end_token - 1] == '\n';
        st.pos = end_token;
        if (cps) cps->push_back(st);
        if (r.id == s.skip()) goto skip;
        eoi_id = r.id == 0 || (r.pop && !st.stack.empty() && st.stack.back().second == 0);
        if (eoi_id) { curr = end_token; goto again; }
        t.id = r.id;
        t.uid = r.uid;
    }
    else
    {
        st.pos = end_token;
        st.bol = in[st.pos] == '\n';
        t.first = st.pos;
        ++st.pos;
        t.id = s.npos;
        t.uid = s.npos;
    }
    t.second = st.pos;
    t.bol = st.bol; t.state = st.state; t.depth = st.stack.size();
    return t;
}
inline std::vector<Tok> tokens(const Spec& s, const u32str& in, State st = State(), size_t cap = 100000)
{
    std::vector<Tok> v;
    for (;;)
    {
        Tok t = next(s, in, st);
        v.push_back(t);
        if (t.underflow || t.id == 0 || v.size() >= cap) return v;
    }
}

// ---- random generation -------------------------------------------------------
struct GenOpt
{
    u32 max_char = 0xff;
    u64 npos = 0xffff;
    int max_rules = 6, min_states = 1, max_states = 1, max_macros = 2, depth = 3;
    bool recursive = false, allow_bol = true, allow_eol = true, skip = true, again = true;
    bool icase = true, narrow_rules = false;
    bool zero_len = false;
    bool flags_random = true;
    int max_rep = 4;
    bool reverse = true;
    bool unicode = false;                // classes of Unicode
    bool locale = false;                 // locales of their own
    bool shy = false;                    // abstemious operators; rules begin with characters of their own
};

class Gen
{
public:
    GenOpt o;
    Spec s;
    bool icase = false, dotnl = true, dotcrlf = false;
    bool in_rep = false;
    size_t now = 0;                    // the flags set last
    bool xmode = false;                // blanks mean nothing where we are
    bool no_nl = false;                // no charset may contain CR or LF
    std::vector<std::pair<u32str, Re>> macros;
    std::vector<bool> macro_single;
    struct Anchored { u32str name; Re re; bool bol, eol; };
    Set claimed;                       // first characters of the rules so far
    std::vector<std::vector<Re>> heads;
    Set after;                         // the greedy repeat at its end
    std::vector<Re> loops;             // rules with a repeat in the middle
    bool shy = false;                  // the rule being made has an abstemious operator
    std::vector<Anchored> anchored;    // macros that begin with ^ or end with $

    static u64 g(u64 n) { return sim::g(n); }
    static bool gc(u64 a, u64 b) { return sim::gc(a, b); }

    void alphabet()
    {
        static const char32_t narrow_pool[] = U"abcABxyz0127 _-.,\"/*\\[](){}^$+?|<>=\t\n\r~";
        const size_t np = sizeof(narrow_pool) / sizeof(char32_t) - 1;
        const size_t k = 2 + g(7);
        std::set<u32> a;
        static const char32_t basic[] = U"abc01 \n";
        for (size_t i = 0; i < k; ++i)
        {
            if (gc(1, 2)) a.insert(narrow_pool[g(np)]);
            else a.insert(basic[g(7)]);
        }
        if (o.max_char > 0xff)
        {
            static const u32 w[] = { 0x61, 0xe9, 0x3b1, 0x391, 0x430, 0x410, 0x4e00, 0x4e01, 0x4eff, 0x4f00,
                0xfffd, 0xff, 0x100, 0x1ff, 0x200, 0x6100, 0xd00, 0xa00, 0x10a, 0x10d, 0xd0d, 0xa0a };
            static const u32 w3[] = { 0x10000, 0x1f600, 0x1f6ff, 0x1f700, 0x20000, 0x2ffff, 0x30000, 0x3000f,
                0x50000, 0x10ffff, 0x100000, 0x10061, 0x610061, 0xd0000, 0xa0000, 0xfffff, 0xe0100 };
            static const u32 cased[] = { 0x10c, 0x10d, 0x460, 0x461, 0x1c4, 0x1c5, 0x1c6, 0x178, 0xff, 0xc9, 0xe9, 0x10400, 0x10428, 0x1044f, 0x1e900,
                0x130, 0x131, 0x17f, 0x212a, 0x3c2, 0x3c3, 0x3a3, 0xb5, 0x39c, 0x3bc, 0x139, 0x13a, 0x148, 0x149, 0x10fd, 0x1c90, 0x2160, 0x345 };
            const bool letters = gc(1, 4);
            const size_t m = g(5);
            if (letters)
                for (size_t i = 0; i < m; ++i)
                {
                    const u32 c = cased[g(sizeof cased / sizeof *cased)];
                    if (c <= o.max_char) a.insert(c);
                }
            else for (size_t i = 0; i < m; ++i)
            {
                u32 c = (o.max_char > 0xffff && gc(1, 2)) ? w3[g(17)] : w[g(22)];
                if (c <= o.max_char) a.insert(c);
            }
        }
        else
        {
            const size_t m = g(3) + (s.latin1 ? 2 : 0);
            static const u32 hi[] = { 0x80, 0xff, 0xe9, 0xc9, 0x7f, 0x00, 0x01, 0x1b, 0xdf, 0xd7, 0xf7, 0xc0, 0xe0, 0xfe };
            for (size_t i = 0; i < m; ++i) a.insert(hi[g(s.latin1 ? 14 : 8)]);
        }
        s.alphabet.assign(a.begin(), a.end());
    }
    u32 ch() { return s.alphabet[g(s.alphabet.size())]; }

    static void hex(u32str& t, u32 c)
    {
        char b[16];
        snprintf(b, sizeof b, "\\x%x", c);
        for (char* p = b; *p; ++p) t += static_cast<char32_t>(*p);
    }
    static void put(u32str& t, const char* p) { for (; *p; ++p) t += static_cast<char32_t>(*p); }
    static bool after_hex(const u32str& t)
    {
        size_t i = t.size();
        while (i > 0 && ((t[i - 1] >= '0' && t[i - 1] <= '9') || (t[i - 1] >= 'a' && t[i - 1] <= 'f') || (t[i - 1] >= 'A' && t[i - 1] <= 'F'))) --i;
        if (i < 2 || i == t.size() || t[i - 1] != 'x') return false;
        size_t slashes = 0;
        for (size_t k = i - 1; k-- > 0 && t[k] == '\\';) ++slashes;
        return slashes % 2 == 1;
    }
    // Another way to write c; the hexadecimal one takes the digits after it.
    static bool other_escape(u32str& t, u32 c, bool hex_too)
    {
        char b[24];
        static const char named[] = "\a\b\x1b\f\n\r\t\v", letter[] = "abefnrtv";
        switch (g(4))
        {
        case 0:
            if (c > 0xff) return false;
            snprintf(b, sizeof b, "\\%03o", c);
            break;
        case 1:
            if (c > 26) return false;
            snprintf(b, sizeof b, "\\c%c", c == 0 ? '@' : static_cast<char>((gc(1, 2) ? 'a' : 'A') + c - 1));
            break;
        case 2:
        {
            const char* p = c && c < 128 ? strchr(named, static_cast<int>(c)) : nullptr;
            if (!p) return false;
            snprintf(b, sizeof b, "\\%c", letter[p - named]);
            break;
        }
        default:
            if (!hex_too) return false;
            snprintf(b, sizeof b, gc(1, 2) ? "\\x%X" : gc(1, 2) ? "\\x%04x" : "\\x0%x", c);
            break;
        }
        put(t, b);
        return true;
    }
    // A char inside [...]
    void put_in_set(u32str& t, u32 c)
    {
        if (gc(1, 8) && other_escape(t, c, true)) return;
        if (c == '"' && gc(1, 2)) { t += U'"'; return; }
        if (c == '^' && t.back() != U'[' && gc(1, 2)) { t += U'^'; return; }
        if (c == ']' && gc(1, 2) && (t == U"[" || t == U"[^")) { t += U']'; return; }
        switch (c)
        {
        case '\n': put(t, "\\n"); return;
        case '\r': put(t, "\\r"); return;
        case '\t': put(t, "\\t"); return;
        case ']': case '[': case '\\': case '^': case '-': case '"':
            t += U'\\';
            t += static_cast<char32_t>(c);
            return;
        default: break;
        }
        // a hexadecimal escape takes every digit that follows it
        if (after_hex(t) && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) { hex(t, c); return; }
        if (c < 32 || c == 127 || (c > 126 && (c > 0xffff || c <= 0xff || o.narrow_rules || gc(1, 2)))) { hex(t, c); return; }
        t += static_cast<char32_t>(c);
    }
    // token: it has to be one charset, without parentheses
    void put_bare(u32str& t, u32 c, bool token = false)
    {
        if (gc(1, 8))
        {
            const bool p = !token && gc(1, 2);
            u32str x;
            if (other_escape(x, c, p))
            {
                t += p ? U"(" + x + U")" : x;
                return;
            }
        }
        if (c == '\n' && !xmode && gc(1, 3)) { t += U'\n'; return; }
        // no anchors where they stand
        if ((c == '^' || c == '$') && !token && gc(1, 3)) { t += U'('; t += static_cast<char32_t>(c); t += U')'; return; }
        if (c < 127 && strchr(xmode ? "-_,~<>=]}:" : "-_,~<>=]}: ", static_cast<int>(c)) && c && gc(1, 2)) { t += static_cast<char32_t>(c); return; }
        switch (c)
        {
        case '\n': put(t, gc(1, 2) ? "\\n" : "[\\n]"); return;
        case '\r': put(t, "\\r"); return;
        case '\t': put(t, "\\t"); return;
        default: break;
        }
        if (c < 32 || c == 127 || (c > 126 && (c > 0xffff || c <= 0xff || o.narrow_rules || gc(1, 2))))
        {
            t += U'[';
            hex(t, c);
            t += U']';
            return;
        }
        const bool word = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c > 126 || c == '_';
        if (!word) t += U'\\';
        t += static_cast<char32_t>(c);
    }
    void fold(Set& x)
    {
        s.any_icase = true;
        // ASCII plus the pairs in the wide alphabet
        Set y = x;
        for (u32 c = 'a'; c <= 'z'; ++c)
        {
            if (y.has(c)) x.add(c - 32);
            if (y.has(c - 32)) x.add(c);
        }
        if (s.latin1)
        {
            for (u32 c = 0xe0; c <= 0xfe; ++c)
            {
                if (c == 0xf7) continue;
                if (y.has(c)) x.add(c - 32);
                if (y.has(c - 32)) x.add(c);
            }
        }
        if (o.max_char > 0xff)
        {
            if (y.r.empty() || y.r.back().second < 0x80) return;
            for (auto& q : unidata::pairs)
                if (q[1] <= o.max_char && y.has(q[0])) x.r.push_back({ q[1], q[1] });
            x.norm();
        }
    }
    static Set ascii(bool (*f)(int))
    {
        Set x;
        for (int c = 0; c < 128; ++c) if (f(c)) x.r.push_back({ static_cast<u32>(c), static_cast<u32>(c) });
        x.norm();
        return x;
    }
    // A range that begins or ends within a run of letters with case
    void case_run(u32& a, u32& b)
    {
        static const u32 runs[][3] = { { 0x410, 0x42f, 0x20 }, { 0x531, 0x556, 0x30 }, { 0x24b6, 0x24cf, 0x1a }, { 0xff21, 0xff3a, 0x20 }, { 0x400, 0x40f, 0x50 },
            { 0x10400, 0x10427, 0x28 }, { 0x118a0, 0x118bf, 0x20 }, { 0x1e900, 0x1e921, 0x22 } };
        const u32* q = runs[g(o.max_char > 0xffff ? 8 : 5)];
        const u32 first = q[0] - 3, n = q[1] - q[0] + q[2] + 7;
        a = first + static_cast<u32>(g(n));
        b = first + static_cast<u32>(g(n));
        // the characters next to both ends and their other cases
        for (u32 c : { a, b })
            for (u32 i = 0; i < 3; ++i)
                for (u32 d : { 0u, q[2], 0u - q[2] })
                    if (gc(1, 2)) s.alphabet.push_back(c + i - 1 + d);
    }
    // bracket expression
    Re bracket()
    {
        Re e;
        e.text = U"[";
        Set x;
        bool negated = gc(1, 5);
        if (negated) e.text += U'^';
        if (gc(1, 20)) { e.text += U'-'; x.add('-'); }
        const size_t k = 1 + g(3);
        for (size_t i = 0; i < k; ++i)
        {
            const u64 m = g(8);
            if (m < 4)
            {
                u32 c = ch();
                put_in_set(e.text, c);
                Set y; y.add(c);
                if (icase) fold(y);
                x.add(y);
            }
            else if (m < 6)
            {
                u32 a = ch(), b = gc(1, 3) ? static_cast<u32>(std::min<u64>(o.max_char, a + g(5))) : ch();
                if (icase && o.max_char > 0xff && gc(1, 4)) case_run(a, b);
                if (b < a) std::swap(a, b);
                put_in_set(e.text, a);
                e.text += U'-';
                put_in_set(e.text, b);
                Set y; y.add(a, b);
                if (icase) fold(y);
                x.add(y);
            }
            else if (m == 6)
            {
                static const struct { const char* n; int kind; const char* cats; } cls[] = {
                    { "digit:]", 0, "Nd" }, { "xdigit:]", 1, "" }, { "blank:]", 2, "Zs" }, { "alnum:]", 3, "Lu Ll Nd" },
                    { "alpha:]", 4, "Lu Ll" }, { "upper:]", 5, "Lu" }, { "lower:]", 6, "Ll" }, { "space:]", 7, "Z" },
                    { "cntrl:]", 8, "Cc" }, { "punct:]", 9, "P S" }, { "graph:]", 10, "Z C" }, { "print:]", 11, "C" } };
                const bool uni = o.unicode && gc(1, 4);
                size_t pick;
                if (o.max_char > 0xff && !uni) { static const size_t w[] = { 1, 0 }; pick = w[g(o.max_char > 0xffff ? 2 : 1)]; }
                else pick = g(12);
                Set y;
                const bool neg = gc(1, 5);
                if (uni && gc(1, 2))
                {
                    // \p{...}
                    static const char* const cats[] = { "Lu", "Ll", "Nd", "L", "N", "P", "S", "Z", "M", "C", "Zs", "Lt", "Lo", "Mn", "So", "Sc",
                        "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sk", "Nl", "No", "Cc", "Co", "Zl", "Zp", "Lm", "Mc", "Me", "LC" };
                    const char* n = cats[g(gc(1, 2) ? 10 : sizeof cats / sizeof *cats)];
                    put(e.text, "\\p{");
                    put(e.text, n);
                    put(e.text, "}");
                    y = category(n == std::string("LC") ? "Lu Ll Lt" : n);
                    if (icase) fold(y);
                }
                else
                {
                    put(e.text, neg ? "[:^" : "[:");
                    put(e.text, cls[pick].n);
                    if (uni && cls[pick].kind != 1)
                    {
                            y = category(cls[pick].cats);
                        if (cls[pick].kind >= 10) y = y.neg(o.max_char);   // all but these
                        if (cls[pick].kind == 2) y.add('\t');
                        if (cls[pick].kind == 7) y.add(9, 13);
                    }
                    else switch (cls[pick].kind)
                    {
                    case 0: y.add('0', '9'); break;
                    case 1: y.add('0', '9'); y.add('a', 'f'); y.add('A', 'F'); break;
                    case 2: y.add(' '); y.add('\t'); break;
                    case 3: y.add('0', '9'); y.add('a', 'z'); y.add('A', 'Z'); break;
                    case 4: y.add('a', 'z'); y.add('A', 'Z'); break;
                    case 5: y.add('A', 'Z'); break;
                    case 6: y.add('a', 'z'); break;
                    case 7: y.add(9, 13); y.add(' '); break;
                    case 8: y.add(0, 31); y.add(127); break;
                    case 9: y.add(33, 47); y.add(58, 64); y.add(91, 96); y.add(123, 126); break;
                    case 10: y.add(33, 126); break;
                    case 11: y.add(32, 126); break;
                    }
                    if (s.latin1)
                    {
                        // upper: c0-de without d7, lower: df-ff without f7
                        const int kind = cls[pick].kind;
                        if (kind >= 3 && kind <= 5) { y.add(0xc0, 0xd6); y.add(0xd8, 0xde); }
                        if (kind == 3 || kind == 4 || kind == 6) { y.add(0xdf, 0xf6); y.add(0xf8, 0xff); }
                    }
                    if (o.max_char > 0xff && cls[pick].kind == 0 && !uni) y = category("Nd");
                    if (icase) fold(y);
                    if (neg)
                    {
                        y = y.neg(o.max_char);
                        if (no_nl && (y.has('\r') || y.has('\n')) && !negated) return bracket();
                    }
                }
                x.add(y);
            }
            else
            {
                static const char* const sc[] = { "\\d", "\\w", "\\s", "\\D", "\\W", "\\S" };
                const u64 pick = g(6);
                put(e.text, sc[pick]);
                x.add(shortcut(pick));
            }
        }
        if (negated)
        {
            if (no_nl)
            {
                // keep CR and LF out of it
                put(e.text, "\\r\\n");
                x.add('\r');
                x.add('\n');
            }
        }
        if (gc(1, 15))
        {
            e.text += U'-';
            x.add('-');
        }
        if (negated) x = x.neg(o.max_char);
        e.text += U']';
        e.set = x;
        return e;
    }
    Set shortcut(u64 pick)
    {
        Set y;
        switch (pick % 3)
        {
        case 0: y.add('0', '9'); break;
        case 1: y.add('_'); y.add('0', '9'); y.add('a', 'z'); y.add('A', 'Z'); break;
        case 2: y.add(9, 13); y.add(' '); break;
        }
        if (icase) fold(y);
        if (pick >= 3) y = y.neg(o.max_char);
        return y;
    }
    bool bad_nl(const Re& e) const { return no_nl && (e.set.has('\n') || e.set.has('\r')); }
    // (?#...) at the front of t or at its end
    static void comment(u32str& t, bool front)
    {
        static const char32_t* const c[] = { U"(?#c)", U"(?#)", U"(?#a(b)c)", U"(?#\"[*)", U"(?#(?#x))", U"(?#^a|b$)" };
        const u32str x = c[g(sizeof c / sizeof *c)];
        if (front) t = x + t;
        else t += x;
    }
    // One charset, to be joined with others
    Re operand()
    {
        Re e;
        const u64 m = g(10);
        if (m == 0)
        {
            const u32 c = ch();
            put_bare(e.text, c, true);
            e.set.add(c);
            if (icase) fold(e.set);
            return e;
        }
        if (m == 1)
        {
            const u64 pick = g(6);
            static const char* const sc[] = { "\\d", "\\w", "\\s", "\\D", "\\W", "\\S" };
            put(e.text, sc[pick]);
            e.set = shortcut(pick);
            return e;
        }
        if (m == 2 && !macros.empty())
        {
            const size_t i = g(macros.size());
            if (macros[i].second.k == Re::SET && macros[i].second.as.empty())
            {
                e.text = U"{" + macros[i].first + U"}";
                e.set = macros[i].second.set;
                return e;
            }
        }
        if (m == 3)
        {
            e.text = U".";
            Set n;
            if (dotnl) n.add('\n');
            else if (dotcrlf) { n.add('\n'); n.add('\r'); }
            e.set = n.neg(o.max_char);
            return e;
        }
        return bracket();
    }
    Re charset()
    {
        for (int tries = 0; tries < 20; ++tries)
        {
            Re e;
            const u64 m = g(10);
            if (m < 5)
            {
                u32 c = ch();
                put_bare(e.text, c);
                e.set.add(c);
                if (icase) fold(e.set);
            }
            else if (m < 7) e = bracket();
            else if (m == 7)
            {
                e.text = U".";
                Set n;
                if (dotnl) n.add('\n');
                else if (dotcrlf) { n.add('\n'); n.add('\r'); }
                e.set = n.neg(o.max_char);
            }
            else if (m == 8)
            {
                static const char* const sc[] = { "\\d", "\\w", "\\s", "\\D", "\\W", "\\S" };
                const u64 pick = g(6);
                put(e.text, sc[pick]);
                e.set = shortcut(pick);
            }
            else
            {
                // set difference and union, from left to right
                const size_t n = 2 + (gc(1, 4) ? g(2) : 0);
                bool bad = false;
                for (size_t i = 0; i < n && !bad; ++i)
                {
                    Re a = operand();
                    if (gc(1, 20)) comment(a.text, true);
                    if (a.set.empty()) { bad = true; break; }
                    if (i == 0) { e = a; continue; }
                    const bool diff = gc(1, 2);
                    put(e.text, diff ? "{-}" : "{+}");
                    e.text += a.text;
                    if (diff) e.set.remove(a.set, o.max_char);
                    else e.set.add(a.set);
                    bad = e.set.empty();
                }
                if (bad) continue;
            }
            if (gc(1, 25)) comment(e.text, gc(1, 2));
            if (e.set.empty() || bad_nl(e)) continue;
            return e;
        }
        Re e;
        e.text = U"a";
        e.set.add('a');
        if (icase) fold(e.set);
        return e;
    }
    Re literal_string()
    {
        // "..." : each character is its own charset
        Re e;
        e.k = Re::CAT;
        u32str t = U"\"";
        const size_t k = 1 + g(3);
        for (size_t i = 0; i < k; ++i)
        {
            u32 c = ch();
            if (no_nl && (c == '\n' || c == '\r')) c = 'a';
            Re x;
            x.set.add(c);
            if (icase) fold(x.set);
            if (c == '"' || c == '\\') { t += U'\\'; t += static_cast<char32_t>(c); }
            else if (c == '\n') put(t, "\\n");
            else if (c == '\r') put(t, "\\r");
            else if (c == '\t') put(t, "\\t");
            else if (c < 32 || c >= 127)
            {
                if (c > 0xff && c <= 0xffff && c <= o.max_char && !o.narrow_rules) t += static_cast<char32_t>(c);
                else { c = 'b'; x.set = Set(); x.set.add('b'); if (icase) fold(x.set); t += U'b'; }
            }
            else t += static_cast<char32_t>(c);
            x.text = U"?";
            e.kids.push_back(x);
        }
        t += U'"';
        // parenthesised so that a quantifier applies to all of it
        e.as = U"(" + t + U")";
        return e;
    }
    Re regex(int depth)
    {
        const u64 m = depth <= 0 ? 0 : g(12);
        Re e;
        if (m < 3) return charset();
        if (m < 6)
        {
            e.k = Re::CAT;
            const size_t k = 2 + g(2);
            for (size_t i = 0; i < k; ++i) e.kids.push_back(regex(depth - 1));
            return e;
        }
        if (m == 6 || m == 7)
        {
            e.k = Re::ALT;
            const size_t k = 2 + g(2);
            for (size_t i = 0; i < k; ++i) e.kids.push_back(regex(depth - 1));
            return e;
        }
        if (m == 8 || m == 9)
        {
            static const Re::Kind ks[] = { Re::STAR, Re::PLUS, Re::OPT, Re::REP };
            e.k = ks[g(4)];
            // counted repeats of counted repeats only make the tables big
            if (e.k == Re::REP && in_rep) e.k = Re::STAR;
            const bool rep = e.k == Re::REP;
            if (rep) in_rep = true;
            e.kids.push_back(regex(depth - 1));
            if (rep) in_rep = false;
            if (e.k == Re::REP)
            {
                e.lo = static_cast<int>(g(static_cast<u64>(o.max_rep)));
                if (gc(1, 4)) e.hi = -1;
                else e.hi = e.lo + static_cast<int>(g(static_cast<u64>(o.max_rep)));
                if (e.hi == 0) e.hi = 1;
            }
            return e;
        }
        if (m == 10 && !anchored.empty() && gc(1, 3) && !(no_nl && contains_nl(anchored[0].re)))
        {
            // inside a regex they are no anchors
            const Anchored& a = anchored[0];
            e.k = Re::CAT;
            auto lit = [&](u32 c) { Re x; x.set.add(c); x.text = U"?"; e.kids.push_back(x); };
            if (a.bol) lit('^');
            e.kids.push_back(a.re);
            if (a.eol) lit('$');
            e.as = U"({" + a.name + U"})";
            return e;
        }
        if (m == 10 && !macros.empty())
        {
            const size_t i = g(macros.size());
            if (!no_nl || !contains_nl(macros[i].second))
            {
                e = macros[i].second;
                e.as = U"{" + macros[i].first + U"}";
                return e;
            }
        }
        if (gc(1, 3))
        {
            // (?i:...), (?-i:...), (?s-x:...) and so on
            const bool oi = icase, od = dotnl, ox = xmode;
            u32str t = U"(?";
            static const char opts[] = "isx";
            const size_t n = gc(1, 12) ? 0 : 1 + (gc(1, 4) ? g(3) : 0);
            size_t at = g(3);
            for (size_t i = 0; i < n; ++i, at = (at + 1 + g(2)) % 3)
            {
                const bool off = gc(1, 2);
                if (off) t += U'-';
                t += static_cast<char32_t>(opts[at]);
                if (at == 0) icase = !off;
                else if (at == 1) dotnl = off;
                else xmode = !off;
            }
            t += U':';
            if (no_nl) { /* '.' may then contain LF; charset() rejects it */ }
            Re in = regex(depth - 1);
            u32str body;
            print(in, body, 0, xmode);
            if (xmode && gc(1, 2)) t += gc(1, 2) ? U" " : U" /* c */\t";
            t += body;
            if (xmode && gc(1, 2)) t += U"  ";
            t += U')';
            icase = oi;
            dotnl = od;
            xmode = ox;
            e = in;
            e.as = t;
            return e;
        }
        return literal_string();
    }
    static bool contains_nl(const Re& e)
    {
        if (e.k == Re::SET) return e.set.has('\n') || e.set.has('\r');
        for (auto& c : e.kids) if (contains_nl(c)) return true;
        return false;
    }
    Re rule_regex()
    {
        for (int i = 0; i < 12; ++i)
        {
            Re e = regex(static_cast<int>(g(static_cast<u64>(o.depth) + 1)));
            if (re_size(e) > (o.max_char > 0xff ? 32 : 50)) continue;
            if (nullable(e) && !o.zero_len)
            {
                Re c;
                c.k = Re::CAT;
                c.kids.push_back(e);
                c.kids.push_back(charset());
                return c;
            }
            return e;
        }
        return charset();
    }

    // One character as itself
    Re literal()
    {
        Re e;
        const u32 c = ch();
        put_bare(e.text, c);
        e.set.add(c);
        if (icase) fold(e.set);
        return e;
    }
    static bool apart(const Set& a, const Set& b, u32 max)
    {
        Set x = a;
        x.remove(b, max);
        return x.r == a.r;
    }
    // A rule beginning with a character no other rule begins with.  One with an
    // abstemious operator is text, a repeat of a charset and the text that ends
    // it, or text and a repeat at the end.
    bool own_start(Re& e, bool pure)
    {
        shy = false;
        after = Set();
        e = Re();
        e.k = Re::CAT;
        if (!pure && !loops.empty() && !icase && gc(1, 3) && keyword(e)) return true;
        e.kids.clear();
        Re first;
        bool shared = false;
        if (!pure && !heads.empty() && gc(1, 3))
        {
            // begins as another rule does and leaves it before its repeat
            const std::vector<Re> h = heads.back();
            heads.pop_back();
            shared = true;
            const size_t k = 1 + g(h.size() - 1);
            e.kids.assign(h.begin(), h.begin() + static_cast<long>(k));
            if (gc(1, 2)) return true;
            for (int t = 0;; ++t)
            {
                if (t == 12) return true;
                first = gc(1, 6) ? charset() : literal();
                if (apart(first.set, h[k].set, o.max_char)) break;
            }
        }
        else
        {
            for (int t = 0;; ++t)
            {
                if (t == 12) return false;
                first = gc(1, 6) ? charset() : literal();
                if (apart(first.set, claimed, o.max_char)) break;
            }
            claimed.add(first.set);
        }
        e.kids.push_back(first);
        const u64 form = g(8);
        if (form == 0) return true;
        if (form == 1 && !pure)
        {
            // an ordinary rule
            Re x = rule_regex();
            e.kids.push_back(x);
            return true;
        }
        for (u64 n = g(3); n > 0; --n) e.kids.push_back(gc(1, 4) ? charset() : literal());
        shy = true;
        if (e.kids.size() > 1 && !shared) heads.push_back(e.kids);
        Re x, one = charset();
        const bool end = form == 2;
        std::vector<Re> tail;
        if (end)
        {
            if (gc(1, 3))
            {
                Re grp;
                grp.k = Re::CAT;
                for (u64 n = 2 + g(2); n > 0; --n) grp.kids.push_back(literal());
                one = grp;
            }
        }
        else
        {
            for (u64 n = 1 + g(3); n > 0; --n)
            {
                Re b = literal();
                // all of it in the charset or nothing
                for (int t = 0; t < 8; ++t, b = literal())
                {
                    Set in = b.set;
                    in.remove(one.set, o.max_char);
                    if (in.empty() || in.r == b.set.r) break;
                    b = Re();
                }
                if (b.set.empty()) { b.set.add('~'); b.text = U"\\~"; }
                tail.push_back(b);
            }
        }
        u32str t;
        print(one, t, 2, xmode);
        if (xmode) blanks(t);
        x.k = Re::REP;
        switch (g(end ? 6 : 3))
        {
        case 0: t += U'*'; x.lo = 0; x.hi = -1; break;
        case 1: t += U'+'; x.lo = 1; x.hi = -1; break;
        case 2: x.lo = static_cast<int>(g(4)); x.hi = -1; t += U'{'; num(t, x.lo); t += U",}"; break;
        case 3: t += U'?'; x.lo = 0; x.hi = 1; break;
        case 4: x.lo = 1 + static_cast<int>(g(3)); x.hi = x.lo; t += U'{'; num(t, x.lo); t += U'}'; break;
        default: x.lo = static_cast<int>(g(3)); x.hi = x.lo + 1 + static_cast<int>(g(2)); t += U'{'; num(t, x.lo); t += U','; num(t, x.hi); t += U'}'; break;
        }
        x.as = t + U'?';
        x.kids.push_back(one);
        if (end && gc(1, 3))
        {
            // one alternative of several, each beginning with its own character
            Re alt, arm, lead = literal();
            Set taken = lead.set;
            alt.k = Re::ALT;
            arm.k = Re::CAT;
            arm.kids = { lead, x };
            alt.kids.push_back(arm);
            for (u64 n = 1 + g(2); n > 0; --n)
            {
                Re other = literal();
                if (!apart(other.set, taken, o.max_char)) continue;
                taken.add(other.set);
                if (gc(1, 2))
                {
                    Re two;
                    two.k = Re::CAT;
                    two.kids = { other, literal() };
                    if (gc(1, 3)) two.kids.push_back(x);
                    other = two;
                }
                alt.kids.insert(alt.kids.begin() + static_cast<long>(g(alt.kids.size() + 1)), other);
            }
            if (alt.kids.size() == 1) x = arm;
            else x = alt;
        }
        if (end && gc(1, 4))
        {
            u32str in;
            print(x, in, 0, xmode);
            x.as = U"(" + in + U")";
        }
        e.kids.push_back(x);
        for (auto& b : tail) e.kids.push_back(b);
        if (!end && !pure) loops.push_back(e);
        // (in wide machines it is a known finding, see P21)
        if (!end && !pure && o.max_char <= 0xff && gc(1, 3))
        {
            // then a greedy repeat of what the repeat before cannot hold
            Re c = charset();
            bool ok = apart(c.set, one.set, o.max_char);
            for (auto& b : tail) ok = ok && apart(c.set, b.set, o.max_char);
            if (ok)
            {
                Re star;
                star.k = Re::STAR;
                star.kids.push_back(c);
                e.kids.push_back(star);
                after = c.set;
            }
        }
        return true;
    }
    u32 member(const Set& x)
    {
        for (int i = 0; i < 4; ++i)
        {
            const u32 c = ch();
            if (x.has(c)) return c;
        }
        auto& p = x.r[g(x.r.size())];
        const u32 c = p.first + static_cast<u32>(g(std::min<u64>(4, u64(p.second) - p.first + 1)));
        return c >= 0xd800 && c <= 0xdfff ? p.first : c;
    }
    // Text that follows an earlier rule into its repeat but ends before that
    // rule can.
    bool keyword(Re& e)
    {
        const Re base = loops.back();
        loops.pop_back();
        u32str t;
        for (auto& k : base.kids)
        {
            if (k.k == Re::SET) t += static_cast<char32_t>(member(k.set));
            else for (u64 n = static_cast<u64>(k.lo) + g(3); n > 0; --n) t += static_cast<char32_t>(member(k.kids[0].set));
        }
        size_t ends = t.size() + 1;
        Nfa(base).run(t, 0, [&](size_t n) { ends = std::min(ends, n); });
        if (ends < 2 || ends > t.size()) return false;
        t.resize(1 + g(ends - 1));
        for (char32_t c : t)
        {
            Re x;
            put_bare(x.text, c);
            x.set.add(c);
            e.kids.push_back(x);
        }
        sim::count("keywords-into-repeats");
        return true;
    }
    bool own_starts(Re& e)
    {
        const bool many = gc(1, 5);
        if (!own_start(e, many)) return false;
        if (!many) return true;
        Re alt;
        alt.k = Re::ALT;
        alt.kids.push_back(e);
        bool any = shy;
        for (u64 n = 1 + g(2); n > 0 && own_start(e, true); --n)
        {
            any = any || shy;
            alt.kids.push_back(e);
        }
        shy = any;
        e = alt.kids.size() > 1 ? alt : alt.kids[0];
        return true;
    }
    Spec make()
    {
        s = Spec();
        s.max_char = o.max_char;
        s.npos = o.npos;
        s.latin1 = o.locale && o.max_char == 0xff && gc(1, 8);
        alphabet();
        if (o.flags_random)
        {
            const u64 f = g(6);
            dotnl = true;
            if (f == 3) { s.flags = 0; dotnl = false; }
            if (f == 4) { s.flags = 4; dotnl = false; dotcrlf = true; }
            if (o.icase && gc(1, 6)) { s.flags |= 1; icase = true; }
            if (gc(1, 12)) { s.flags |= 8; xmode = true; }     // skip_ws
        }
        if (o.zero_len) s.flags |= 16;
        if (gc(3, 4)) s.flags |= 32;                            // allow_suppressed_rules
        now = s.flags;
        const size_t ns = static_cast<size_t>(o.min_states) + g(static_cast<u64>(o.max_states - o.min_states + 1));
        s.recursive = o.recursive && gc(1, 2);
        static const char32_t* const nm[] = { U"INITIAL", U"STRING", U"C-1", U"_x" , U"Z9" };
        s.names.assign(1, nm[0]);
        for (size_t i = 1; i < ns; ++i)
        {
            s.names.push_back(i < 5 ? u32str(nm[i]) : U"s_" + u32str(1, static_cast<char32_t>(U'a' + i)));
            Call c;
            c.k = Call::STATE;
            c.name = s.names[i];
            s.calls.push_back(c);
        }
        s.st.assign(s.names.size(), {});
        // A rule set either asserts end-of-line or has rules that consume
        // line ends; mixing both in one position is rejected or pruned by
        // the generator by design, so the model does not specify it.
        s.reversed = o.reverse && o.allow_eol && gc(1, 10);
        const bool use_eol = o.allow_eol && gc(1, 3);
        no_nl = use_eol;
        const size_t nm_ = g(static_cast<u64>(o.max_macros) + 1);
        static const char32_t* const mn[] = { U"M", U"num_2", U"m-x" };
        for (size_t i = 0; i < nm_ && i < 3; ++i)
        {
            Call c;
            c.k = Call::MACRO;
            c.name = mn[i];
            Re e = regex(2);
            if (re_size(e) > 12) continue;
            print(e, c.text, 0, xmode);
            s.calls.push_back(c);
            macros.push_back({ mn[i], e });
        }
        if (nm_ && !o.shy && gc(1, 4))
        {
            Anchored a;
            a.name = U"anch";
            a.re = regex(1);
            a.bol = gc(1, 2);
            a.eol = !a.bol || gc(1, 4);
            if (re_size(a.re) <= 8)
            {
                Call c;
                c.k = Call::MACRO;
                c.name = a.name;
                u32str body;
                print(a.re, body, 0, xmode);
                if (a.bol) c.text += U'^';
                c.text += U"(" + body + U")";
                if (a.eol) c.text += U'$';
                s.calls.push_back(c);
                anchored.push_back(a);
            }
        }
        for (size_t st = 0; st < s.st.size(); ++st)
        {
            const size_t nr = 1 + g(static_cast<u64>(o.max_rules));
            for (size_t i = 0; i < nr; ++i)
            {
                if (o.flags_random && gc(1, 20)) change_flags();
                add_rule(st, use_eol);
            }
        }
        if (use_eol && gc(1, 2)) newline_rules();
        if (s.reversed)
        {
            // once, or three times for the same effect
            Call c;
            c.k = Call::REVERSE;
            s.calls.push_back(c);
            if (gc(1, 6)) { s.calls.push_back(c); s.calls.push_back(c); }
        }
        return s;
    }
    // From here on other flags; what was pushed or defined keeps its meaning.
    void change_flags()
    {
        heads.clear();
        Call c;
        c.k = Call::FLAGS;
        icase = o.icase && gc(1, 2);
        const u64 dot = g(3);
        dotnl = dot == 1;
        dotcrlf = dot == 2;
        now = (now & ~size_t(7)) | (icase ? 1 : 0) | (dotnl ? 2 : dotcrlf ? 4 : 0);
        c.id = now;
        s.calls.push_back(c);
    }
    // With '$' in use: rules that pass over a line end in the middle.
    void newline_rules()
    {
        for (size_t st = 0; st < s.st.size(); ++st)
        {
            if (!gc(1, 2)) continue;
            Re e;
            e.k = Re::CAT;
            Re n;
            n.set.add('\n');
            n.text = U"\\n";
            Re cr;
            cr.set.add('\r');
            cr.text = U"\\r";
            e.kids.push_back(charset());
            if (gc(1, 3)) e.kids.push_back(cr);
            e.kids.push_back(n);
            e.kids.push_back(charset());
            push_rule(st, e, false, false, 1 + g(20), s.npos, static_cast<int>(st), -1, false);
        }
    }
    void add_rule(size_t st, bool use_eol)
    {
        Re e;
        if (!o.shy) e = rule_regex();
        else if (!own_starts(e)) return;
        const bool bol = o.allow_bol && gc(1, 6);
        const bool eol = use_eol && gc(1, 3) && !nullable(e);
        u64 id = 1 + g(20);
        bool again = false;
        if (o.skip && gc(1, 8)) id = s.skip();
        u64 uid = gc(1, 4) ? g(50) : s.npos;
        int nxt = static_cast<int>(st), push = -1;
        bool pop = false;
        if ((s.st.size() > 1 || s.recursive) && gc(1, 2))
        {
            nxt = static_cast<int>(g(s.st.size()));
            if (s.recursive)
            {
                const u64 m = g(4);
                if (m == 1) push = static_cast<int>(st);
                else if (m == 2) push = static_cast<int>(g(s.st.size()));
                else if (m == 3) { pop = true; nxt = -1; }
            }
            if (o.again && gc(1, 4) && !nullable(e)) again = true;
        }
        if (again) { id = 0; uid = s.npos; }
        if (id == s.skip() && nullable(e)) id = 1;
        push_rule(st, e, bol, eol, id, uid, nxt, push, pop);
    }
    void push_rule(size_t st, const Re& e_, bool bol, bool eol, u64 id, u64 uid, int nxt, int push, bool pop)
    {
        u32str body, text;
        // reversing turns them round
        const bool front = s.reversed ? eol : bol, back = s.reversed ? bol : eol;
        // through a macro that has the anchor in it
        Re e = e_;
        bool front_macro = false, back_macro = false;
        if (!anchored.empty() && (front || back) && gc(1, 2) && !(no_nl && contains_nl(anchored[0].re)))
        {
            const Anchored& a = anchored[0];
            front_macro = front && a.bol && !a.eol;
            back_macro = back && a.eol && !a.bol && !front_macro;
            if (front_macro || back_macro)
            {
                Re x = a.re;
                x.as = U"{" + a.name + U"}";
                Re y = e_;
                y.as.clear();
                u32str t;
                print(e_, t, 0, xmode);
                y.as = U"(" + t + U")";
                e = Re();
                e.k = Re::CAT;
                e.kids.push_back(front_macro ? x : y);
                e.kids.push_back(front_macro ? y : x);
                u32str j;
                for (auto& c : e.kids) j += c.as;
                e.as = j;
            }
        }
        print(e, body, 0, xmode);
        if (s.flags & 8)
        {
            // (?x) semantics apply to the whole rule; nothing generated
            // contains a bare blank, so only add some.
            if (!back_macro && gc(1, 2)) body += U" ";
        }
        // without parentheses '^' and '$' belong to the outermost alternatives
        const bool outer = (bol || eol) && e.k == Re::ALT && e.as.empty() && gc(1, 2);
        if (front && !front_macro) text += U'^';
        if ((bol || eol) && !outer && !front_macro && !back_macro) text += U"(" + body + U")";
        else text += body;
        if (back && !back_macro) text += U'$';
        // Which states get this rule: the one, a list, or all ("*")
        std::vector<size_t> to{ st };
        u32str from = s.names[st];
        Call c;
        c.text = text;
        c.id = id;
        c.uid = uid;
        c.has_id = id != 0;
        c.has_uid = uid != s.npos;
        c.overload = static_cast<int>(g(4));
        const bool initial_only = st == 0 && nxt == 0 && push < 0 && !pop && id != 0 && gc(1, 2);
        if (initial_only)
        {
            c.k = Call::PUSH;
        }
        else
        {
            c.k = Call::PUSH_STATE;
            if (s.st.size() > 1 && gc(1, 6))
            {
                to.clear();
                if (gc(1, 2))
                {
                    from = U"*";
                    for (size_t i = 0; i < s.st.size(); ++i) to.push_back(i);
                }
                else
                {
                    const size_t other = (st + 1) % s.st.size();
                    from = s.names[st] + U"," + s.names[other];
                    to.push_back(st);
                    to.push_back(other);
                }
            }
            c.from = from;
            if (!c.has_id) c.has_uid = false;
            const bool dot = nxt == static_cast<int>(st) && push < 0 && !pop && gc(2, 3);
            if (pop) c.to = U"<";
            else if (dot) { c.to = U"."; nxt = -2; }
            else if (push >= 0)
            {
                c.to = U">" + s.names[static_cast<size_t>(nxt)];
                if (push == static_cast<int>(st) && gc(2, 3)) push = -2;      // the current state
                else c.to += U":" + s.names[static_cast<size_t>(push)];
            }
            else c.to = s.names[static_cast<size_t>(nxt)];
        }
        s.calls.push_back(c);
        struct Part { Re re; std::shared_ptr<Nfa> nfa; bool bol, eol; };
        std::vector<Part> parts;
        auto part = [&](const Re& x, bool f, bool k) {
            const Re meant = s.reversed ? mirrored(x) : x;
            Re shortest = meant;
            if (!after.empty()) shortest.kids.pop_back();
            parts.push_back({ meant, std::make_shared<Nfa>(shortest), s.reversed ? k : f, s.reversed ? f : k });
        };
        if (outer)
            for (size_t i = 0; i < e.kids.size(); ++i) part(e.kids[i], front && i == 0, back && i + 1 == e.kids.size());
        else part(e, front, back);
        for (size_t t : to)
        {
            for (auto& pt : parts)
            {
                Rule r;
                r.re = pt.re;
                r.nfa = pt.nfa;
                r.bol = pt.bol;
                r.eol = pt.eol;
                r.id = id;
                r.uid = c.has_uid ? uid : s.npos;
                r.next = nxt == -2 ? static_cast<int>(t) : nxt;
                if (c.k == Call::PUSH) r.next = 0;
                r.push = push == -2 ? static_cast<int>(t) : push;
                r.pop = pop;
                r.shy = shy;
                r.tail = after;
                r.text = text;
                s.st[t].push_back(r);
            }
        }
        if (bol) s.any_bol = true;
        if (eol) s.any_eol = true;
    }
};

// A random member of the language, roughly.
inline void sample(const Re& e, const Spec& s, u32str& o, int fuel)
{
    switch (e.k)
    {
    case Re::SET:
    {
        // prefer members of the alphabet
        for (int i = 0; i < 4; ++i)
        {
            u32 c = s.alphabet[sim::g(s.alphabet.size())];
            if (e.set.has(c)) { o += static_cast<char32_t>(c); return; }
        }
        auto& p = e.set.r[sim::g(e.set.r.size())];
        u32 c = p.first + static_cast<u32>(sim::g(std::min<u64>(4, u64(p.second) - p.first + 1)));
        if (sim::gc(1, 3)) c = p.second;
        if (c >= 0xd800 && c <= 0xdfff) c = p.first;
        o += static_cast<char32_t>(c);
        return;
    }
    case Re::CAT: for (auto& c : e.kids) sample(c, s, o, fuel); return;
    case Re::ALT: sample(e.kids[sim::g(e.kids.size())], s, o, fuel); return;
    case Re::OPT: if (sim::g(2)) sample(e.kids[0], s, o, fuel - 1); return;
    case Re::STAR: case Re::PLUS:
    {
        size_t n = sim::g(4) + (e.k == Re::PLUS ? 1 : 0);
        if (fuel <= 0) n = e.k == Re::PLUS ? 1 : 0;
        for (size_t i = 0; i < n; ++i) sample(e.kids[0], s, o, fuel - 1);
        return;
    }
    case Re::REP:
    {
        size_t n = static_cast<size_t>(e.lo) + sim::g(e.hi < 0 ? 3 : static_cast<u64>(e.hi - e.lo + 1));
        for (size_t i = 0; i < n; ++i) sample(e.kids[0], s, o, fuel - 1);
        return;
    }
    }
}
inline u32str gen_input(const Spec& s, size_t max_len)
{
    u32str in;
    const size_t target = sim::g(max_len + 1);
    int guard = 0;
    while (in.size() < target && ++guard < 200)
    {
        const u64 m = sim::g(8);
        if (m < 5)
        {
            const auto& st = s.st[sim::g(s.st.size())];
            if (!st.empty()) sample(st[sim::g(st.size())].re, s, in, 3);
            if (m == 4 && !in.empty()) in.pop_back();
            if (in.size() > max_len * 2) in.resize(max_len * 2);
        }
        else if (m == 5) in += U'\n';
        else if (m == 6) { if (sim::g(3) == 0) in += U'\r'; in += U'\n'; }
        else in += static_cast<char32_t>(s.alphabet[sim::g(s.alphabet.size())]);
    }
    for (auto& c : in)
    {
        if (c > s.max_char) c = U'a';
    }
    return in;
}
inline std::string show(const u32str& t)
{
    std::string r;
    for (char32_t c : t)
    {
        char b[16];
        if (c >= 32 && c < 127) { if (c == '\\') r += '\\'; r += static_cast<char>(c); }
        else { snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(c)); r += b; }
    }
    return r;
}
// Text shown with backslashes as they are (regexes).
inline std::string showre(const u32str& t)
{
    std::string r;
    for (char32_t c : t)
    {
        char b[16];
        if (c >= 32 && c < 127) r += static_cast<char>(c);
        else { snprintf(b, sizeof b, "<%x>", static_cast<unsigned>(c)); r += b; }
    }
    return r;
}
inline std::string describe(const Spec& s)
{
    std::string r = "flags=" + std::to_string(s.flags);
    if (s.latin1) r += "; a locale with letters c0-ff";
    for (auto& c : s.calls)
    {
        switch (c.k)
        {
        case Call::STATE: r += "; push_state(" + showre(c.name) + ")"; break;
        case Call::MACRO: r += "; macro " + showre(c.name) + " := " + showre(c.text); break;
        case Call::PUSH: r += "; push(\"" + showre(c.text) + "\", " + std::to_string(c.id) + (c.has_uid ? ", uid " + std::to_string(c.uid) : "") + ")"; break;
        case Call::PUSH_STATE: r += "; push(\"" + showre(c.from) + "\", \"" + showre(c.text) + "\", " +
            (c.has_id ? std::to_string(c.id) + ", " : std::string()) + "\"" + showre(c.to) + "\"" + (c.has_uid ? ", uid " + std::to_string(c.uid) : "") + ")"; break;
        case Call::REVERSE: r += "; reverse()"; break;
        case Call::FLAGS: r += "; flags(" + std::to_string(c.id) + ")"; break;
        case Call::CLEAR_STATE: r += "; clear(" + std::to_string(c.id) + ")"; break;
        }
    }
    return r;
}
}
