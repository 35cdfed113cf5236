// simio.hpp - simulated streams: the bytes arrive in pieces of seeded size,
// and reads and writes fail where the plan says.
#pragma once
#include "sim.hpp"
#include "simiter.hpp"
#include <ios>
#include <istream>
#include <locale>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>

namespace simio
{
using simit::IoError;
enum Kind { NONE, EARLY_EOF, THROW };

// A source of at most data.size() characters.
template<typename C, typename T = std::char_traits<C>> class InBuf : public std::basic_streambuf<C, T>
{
public:
    using base = std::basic_streambuf<C, T>;
    std::basic_string<C> data;
    size_t at = 0;              // delivered to the get area so far
    size_t chunk = 0;           // 0: seeded sizes
    size_t fail_at = ~size_t(0);
    Kind fail = NONE;
    bool once = true;           // the failure happens once, then reading goes on
    size_t failures = 0, reads = 0;
    std::vector<C> area;
    explicit InBuf(std::basic_string<C> d) : data(std::move(d)) {}
    // characters handed out for good (position of the reader)
    size_t position() const { return at - static_cast<size_t>(this->egptr() - this->gptr()); }
protected:
    typename T::int_type underflow() override
    {
        sim::Harness h;
        sim::step();
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        ++reads;
        size_t n = data.size() - at;
        if (fail != NONE && at >= fail_at)
        {
            ++failures;
            const Kind k = fail;
            if (once) fail = NONE;
            if (k == EARLY_EOF) { sim::count("fault:stream-early-eof"); return T::eof(); }
            sim::count("fault:stream-read-error");
            throw IoError();
        }
        if (n == 0) return T::eof();
        if (fail != NONE && at + n > fail_at) n = fail_at - at;
        if (chunk) n = std::min(n, chunk);
        else n -= sim::choose(sim::IO, n);
        if (n < data.size() - at) sim::count("io:short-read");
        area.assign(data.begin() + static_cast<long>(at), data.begin() + static_cast<long>(at + n));
        at += n;
        this->setg(area.data(), area.data(), area.data() + n);
        return T::to_int_type(*this->gptr());
    }
};

// A format and locale that a caller may have set on a stream.
template<typename C> struct Fmt
{
    struct Group : std::numpunct<C>
    {
        C do_thousands_sep() const override { return C('.'); }
        std::string do_grouping() const override { return "\3"; }
        C do_decimal_point() const override { return C(','); }
    };
    std::ios_base::fmtflags flags = std::ios_base::skipws | std::ios_base::dec;
    bool group = false;
    C fill = C(' ');
    static Fmt draw()
    {
        Fmt f;
        if (!sim::gc(1, 2)) return f;
        using ios = std::ios_base;
        static const ios::fmtflags base[] = { ios::dec, ios::hex, ios::oct, ios::fmtflags(0) };
        f.flags = base[sim::g(4)];
        if (sim::gc(2, 3)) f.flags |= ios::skipws;
        if (sim::gc(1, 3)) f.flags |= ios::showbase;
        if (sim::gc(1, 3)) f.flags |= ios::uppercase;
        if (sim::gc(1, 3)) f.flags |= ios::showpos;
        if (sim::gc(1, 3)) f.flags |= sim::gc(1, 2) ? ios::left : ios::internal;
        if (sim::gc(1, 4)) f.flags |= ios::unitbuf;
        if (sim::gc(1, 3)) f.fill = C('*');
        f.group = sim::gc(1, 3);
        sim::count("formatted-stream");
        return f;
    }
    void set(std::basic_ios<C>& s) const
    {
        s.flags(flags);
        s.fill(fill);
        if (group) s.imbue(std::locale(std::locale::classic(), new Group));
    }
    bool kept(const std::basic_ios<C>& s) const { return s.flags() == flags && s.fill() == fill; }
    static void clear(std::basic_ios<C>& s)
    {
        s.flags(std::ios_base::skipws | std::ios_base::dec);
        s.fill(C(' '));
        s.width(0);
        s.imbue(std::locale::classic());
    }
};

// A sink that holds what was written; it fails when full.
template<typename C, typename T = std::char_traits<C>> class OutBuf : public std::basic_streambuf<C, T>
{
public:
    std::basic_string<C> got;
    size_t limit = ~size_t(0);
    Kind fail = EARLY_EOF;      // how it fails at the limit
    size_t failures = 0;
    bool once = false;          // accepts again after one failure
    size_t sync_failures = 0;
    bool fail_sync = false;
    explicit OutBuf(size_t buffered = 0) : area(buffered) { reset_area(); }
    // everything the writer handed over, flushed or not
    std::basic_string<C> all() const
    {
        return got + std::basic_string<C>(this->pbase(), this->pptr());
    }
protected:
    std::vector<C> area;
    void reset_area() { if (!area.empty()) this->setp(area.data(), area.data() + area.size()); }
    bool put(const C* p, size_t n)
    {
        sim::step();
        if (got.size() + n > limit)
        {
            got.append(p, limit - got.size());
            ++failures;
            if (once) limit = ~size_t(0);
            if (fail == THROW) { sim::count("fault:sink-throws"); throw IoError(); }
            sim::count("fault:sink-full");
            return false;
        }
        got.append(p, n);
        return true;
    }
    bool drain()
    {
        if (area.empty()) return true;
        const size_t n = static_cast<size_t>(this->pptr() - this->pbase());
        std::vector<C> t(this->pbase(), this->pptr());
        reset_area();
        return n == 0 || put(t.data(), n);
    }
    typename T::int_type overflow(typename T::int_type c) override
    {
        sim::Harness h;
        if (!drain()) return T::eof();
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        const C ch = T::to_char_type(c);
        if (!area.empty()) { *this->pptr() = ch; this->pbump(1); return c; }
        return put(&ch, 1) ? c : T::eof();
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override
    {
        sim::Harness h;
        if (!drain()) return 0;
        const size_t before = got.size();
        if (n == 0) return 0;
        // the sink takes it in pieces
        size_t done = 0;
        while (done < static_cast<size_t>(n))
        {
            const size_t left = static_cast<size_t>(n) - done;
            const size_t k = left - sim::choose(sim::IO, left);
            if (!put(s + done, k)) return static_cast<std::streamsize>(got.size() - before);
            done += k;
        }
        return n;
    }
    int sync() override
    {
        sim::Harness h;
        if (fail_sync) { ++sync_failures; return -1; }
        return drain() ? 0 : -1;
    }
};
}
