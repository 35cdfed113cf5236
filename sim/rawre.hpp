// rawre.hpp - random regex text over the whole syntax, with line ends, '^' and
// '$' anywhere, non-greedy operators and the odd mistake; no meaning attached.
#pragma once
#include "sim.hpp"
#include <string>
namespace rawre
{
using sim::g;
using sim::gc;
using u32str = std::u32string;
// Also classes whose members depend on flags and Unicode tables.
// 1: those machines over char have; 2: of Unicode.
inline int classes = 0;
inline void char_class(u32str& t)
{
    static const char32_t* const cls[] = { U"\\w", U"[[:upper:]]", U"[[:lower:]]", U"[[:alnum:]]", U"(?i:[[:upper:]])", U"(?-i:[[:lower:]])",
        U"(?s:.)", U"(?-s:.)", U"[[:space:]]", U"(?i:ab)", U"\\W", U"[a-z]{+}[[:digit:]]",
        U"\\p{Lu}", U"\\p{Ll}", U"\\p{Nd}", U"(?i:\\p{Lu})", U"(?-i:\\p{Lu})", U"[\\p{Lu}]{-}[A-F]", U"\\p{Zs}", U"[^\\p{Lu}]", U"\\p{Lt}" };
    t += cls[classes == 2 ? 11 + g(sizeof cls / sizeof *cls - 11) : g(12)];
}
inline void item(u32str& t, int depth, int& fuel);
inline void alt(u32str& t, int depth, int& fuel)
{
    const size_t n = 1 + (depth > 0 ? g(3) : 0);
    for (size_t i = 0; i < n; ++i)
    {
        if (i) t += U'|';
        const size_t m = 1 + g(3);
        for (size_t j = 0; j < m; ++j) item(t, depth, fuel);
    }
}
inline void item(u32str& t, int depth, int& fuel)
{
    static const char32_t* const atoms[] = { U"a", U"b", U"[ab]", U"[^a]", U".", U"\\n", U"\\r\\n", U"\\r", U"[\\r\\n]", U"[^\\n]", U"c",
        U"[a-c]", U"\\s", U"\\S", U"\"ab\"", U"[^\\r\\n]", U"\\x0a", U"\\d", U"$", U"^", U"[[:alpha:]]", U"(?i:aB)", U"[^\\x00-\\x7f]", U"\\0" };
    if (--fuel < 0) { t += U'a'; return; }
    if (depth > 0 && gc(1, 4))
    {
        t += U'(';
        alt(t, depth - 1, fuel);
        t += U')';
    }
    else if (classes && gc(1, 2)) char_class(t);
    else t += atoms[g(sizeof atoms / sizeof *atoms)];
    if (gc(1, 3))
    {
        static const char32_t* const ops[] = { U"*", U"+", U"?", U"{2}", U"{1,3}", U"{0,2}", U"*?", U"+?", U"??", U"{1,2}?", U"{2,}" };
        t += ops[g(gc(3, 4) ? 6 : sizeof ops / sizeof *ops)];
    }
}
inline u32str regex(int depth = 2, int fuel = 12)
{
    u32str t;
    if (gc(1, 5)) t += U'^';
    alt(t, depth, fuel);
    if (gc(1, 3)) t += gc(1, 3) ? U"(\\n)?$" : U"$";
    return t;
}
}
