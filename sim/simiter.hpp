// simiter.hpp - an input iterator behind the library's own template seam.
// Every operation is a scheduling point, is bounds checked, and can fail as
// reading from a device can.
#pragma once
#include "sim.hpp"
#include <cstddef>
#include <iterator>
#include <stdexcept>

namespace simit
{
struct IoError : std::runtime_error { IoError() : std::runtime_error("simulated read error") {} };

template<typename C> struct Source
{
    const C* b = nullptr;
    std::size_t n = 0;
    std::uint64_t ops = 0;
    std::uint64_t fail_at = ~0ull;     // fails when ops reaches it, once
    std::uint64_t failures = 0;
    void op(const char* what)
    {
        if (ops++ == fail_at)
        {
            fail_at = ~0ull;
            ++failures;
            sim::Harness h;
            sim::count(what);
            throw IoError();
        }
        sim::step();
    }
};
template<typename C> class Iter
{
public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = const C*;
    using reference = const C&;
    Source<C>* s = nullptr;
    std::size_t p = 0;
    Iter() = default;
    Iter(Source<C>* src, std::size_t pos) : s(src), p(pos) {}
    const C& operator*() const
    {
        if (!s || p >= s->n)
        {
            sim::Harness h;
            sim::violation("reads-past-end", "the input iterator was dereferenced at %zu of %zu", p, s ? s->n : 0);
        }
        s->op("fault:iterator-deref");
        return s->b[p];
    }
    Iter& operator++()
    {
        if (!s || p >= s->n)
        {
            sim::Harness h;
            sim::violation("advances-past-end", "the input iterator was advanced at %zu of %zu", p, s ? s->n : 0);
        }
        s->op("fault:iterator-advance");
        ++p;
        return *this;
    }
    Iter& operator--()
    {
        if (!s || p == 0)
        {
            sim::Harness h;
            sim::violation("moves-before-begin", "the input iterator was moved back at the beginning");
        }
        s->op("fault:iterator-back");
        --p;
        return *this;
    }
    Iter operator++(int) { Iter t = *this; ++*this; return t; }
    friend bool operator==(const Iter& a, const Iter& b) { return a.s == b.s && a.p == b.p; }
    friend bool operator>(const Iter& a, const Iter& b) { return a.p > b.p; }
    friend bool operator!=(const Iter& a, const Iter& b) { return !(a == b); }
};
}
