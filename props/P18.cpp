// PARTS: 8
// SCHED
// GEN: 9 40
// P18: generated C++ lexers behave as the machine they were generated from.
// Compiled twice: with GENERATE it writes the sources of a batch of lexers
// (build.sh runs it), then it is compiled together with them.
#include "lib.hpp"
#include "ser.hpp"
#include "simio.hpp"
#include <lexertl/generate_cpp.hpp>
#include <fstream>
#include <iomanip>
#include <memory>
#ifdef GENERATE
#include "ctl.hpp"
#include <cstdio>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#endif
#ifndef PART
#define PART 0
#endif
#ifndef GENSEED
#define GENSEED 1
#define GENCOUNT 1
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
namespace sim
{
static const size_t all = 1 | 2 | 4 | 8 | 16 | 64;
enum Made { OK = 0, REJECTED = 1, FAILED = 2, BAD = 3 };

// The rule set of lexer i of a part depends on the batch alone.
inline model::Spec spec_of(unsigned part, unsigned i, model::GenOpt o)
{
    model::Spec s;
    nested(mix(mix(GENSEED, part), i), [&]()
    {
        for (;;)
        {
            model::Gen gen;
            gen.o = o;
            if (o.max_rules > 2) gen.o.max_rules = static_cast<int>(gr(1, 7));
            s = gen.make();
            size_t n = 0;
            for (auto& st : s.st) for (auto& r : st) n += r.text.size();
            if (n < 400) break;
        }
    });
    return s;
}
template<typename RC, typename C, typename id> struct Kind
{
    using rules_char = RC;
    using Rules = lexertl::basic_rules<RC, C, id>;
    using Sm = lexertl::basic_state_machine<C, id>;
    using ch = C;
    using id_t = id;
};
inline model::GenOpt opts(u32 max_char, int states, bool rec, u64 npos, bool narrow = false)
{
    model::GenOpt o;
    o.max_char = max_char;
    o.max_states = states;
    o.recursive = rec;
    o.npos = npos;
    o.narrow_rules = narrow;
    o.depth = 2;
    if (states > 10) { o.min_states = 9; o.max_rules = 2; }
    return o;
}
#define PARTDEF(p, K, O) template<> struct Part<p> : K { static model::GenOpt options() { return O; } }
template<unsigned> struct Part;
#define COMMA ,
PARTDEF(0, Kind<char COMMA char COMMA uint16_t>, opts(0xff, 1, false, 0xffff));
PARTDEF(1, Kind<char COMMA char COMMA uint16_t>, opts(0xff, 4, true, 0xffff));
PARTDEF(2, Kind<char COMMA char COMMA uint8_t>, opts(0xff, 3, true, 0xff));
PARTDEF(3, Kind<wchar_t COMMA wchar_t COMMA uint16_t>, opts(0x10ffff, 3, true, 0xffff));
PARTDEF(4, Kind<char32_t COMMA char32_t COMMA uint32_t>, opts(0x10ffff, 2, false, 0xffffffff));
PARTDEF(5, Kind<char COMMA char COMMA uint32_t>, opts(0xff, 18, true, 0xffffffff));
PARTDEF(6, Kind<char COMMA char16_t COMMA uint16_t>, opts(0xffff, 2, true, 0xffff, true));
PARTDEF(7, Kind<char COMMA char COMMA uint64_t>, opts(0xff, 3, true, ~0ull));
enum { NPARTS = 8 };

#ifdef GENERATE
// ---- stage one: write the sources ----------------------------------------
inline unsigned lost = 0;   // crashed or did not end
template<unsigned p> void write(const std::string& dir)
{
    using P = Part<p>;
    std::ostringstream status, plain, rec;
    for (unsigned i = 0; i < GENCOUNT; ++i)
    {
        const model::Spec s = spec_of(p, i, P::options());
        Made m = FAILED;
        std::string why = "generating it crashed or did not end";
        const std::string name = "lex_" + std::to_string(p) + "_" + std::to_string(i), file = dir + "/" + name + ".hpp", info = dir + "/info";
        // in a process of its own, as it can crash or not end
        std::remove(info.c_str());
        const pid_t pid = lost < 5 ? fork() : 0;
        if (pid < 0) exit(2);
        if (lost == 5) { m = REJECTED; why = "left out"; }
        else
        if (pid == 0)
        {
            const rlimit lim = { 10, 10 };
            setrlimit(RLIMIT_CPU, &lim);
            alarm(40);
            std::ofstream f(file);
            bool is_rec = false;
            m = OK;
            why.clear();
            try
            {
                typename P::Rules r;
                typename P::Sm sm;
                bridge::apply(s, r);
                lexertl::basic_generator<typename P::Rules, typename P::Sm>::build(r, sm);
                lexertl::table_based_cpp::generate(name + "_t", sm, false, f);
                lexertl::table_based_cpp::generate(name + "_p", sm, true, f);
                is_rec = (sm.data()._features & 32) != 0;
            }
            catch (const std::exception& e)
            {
                why = e.what();
                m = bridge::documented_rejection(why, s) ? REJECTED : FAILED;
            }
            f.close();
            std::ofstream o(info);
            o << static_cast<int>(m) << ' ' << is_rec << ' ' << why;
            o.close();
            _exit(f && o ? 0 : 2);
        }
        int st = 1;
        if (pid) waitpid(pid, &st, 0);
        if (m != REJECTED && st) ++lost;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            std::ifstream f(info);
            int made = 0, is_rec = 0;
            f >> made >> is_rec;
            f.ignore(1);
            why.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
            m = static_cast<Made>(made);
            if (m == OK)
                (is_rec ? rec : plain) << "#ifndef BAD_" << p << "_" << i << "\ncase " << 2 * i << ": " << name << "_t(r); return;\ncase " << 2 * i + 1 << ": " << name << "_p(r); return;\n#endif\n";
        }
        std::remove(info.c_str());
        if (m != OK) std::ofstream(file) << "\n";
        std::string q;
        for (char c : why) q += c == '"' || c == '\\' ? std::string("\\") + c : std::string(1, static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126 ? '.' : c);
        status << "#ifdef BAD_" << p << "_" << i << "\n{ 3, BAD_" << p << "_" << i << " },\n#else\n{ " << static_cast<int>(m) << ", \"" << q << "\" },\n#endif\n";
    }
    std::ofstream o(dir + "/part" + std::to_string(p) + ".hpp");
    for (unsigned i = 0; i < GENCOUNT; ++i)
        o << "#ifndef BAD_" << p << "_" << i << "\n#include \"lex_" << p << "_" << i << ".hpp\"\n#endif\n";
    o << "static const struct { int made; const char* why; } status[] = {\n" << status.str() << "};\n"
        << "template<typename Res> static void run_plain(unsigned n, Res& r) { switch (n) {\n" << plain.str() << "default: r.id = 0; return; } }\n"
        << "template<typename Res> static void run_rec(unsigned n, Res& r) { switch (n) {\n" << rec.str() << "default: r.id = 0; return; } }\n";
    o.close();
    if (!o) exit(2);
}
template void write<PART>(const std::string&);
#if PART == 0
extern template void write<1>(const std::string&);
extern template void write<2>(const std::string&);
extern template void write<3>(const std::string&);
extern template void write<4>(const std::string&);
extern template void write<5>(const std::string&);
extern template void write<6>(const std::string&);
extern template void write<7>(const std::string&);
static void write_all(const std::string& dir)
{
    write<0>(dir); write<1>(dir); write<2>(dir); write<3>(dir);
    write<4>(dir); write<5>(dir); write<6>(dir); write<7>(dir);
}
#endif
}
#if PART == 0
int main(int, char** argv)
{
    sim::ctl = static_cast<sim::Ctl*>(calloc(1, sizeof(sim::Ctl)));
    sim::begin_episode();
    sim::write_all(argv[1]);
    return 0;
}
#endif
#else
// ---- stage two: run them ---------------------------------------------------
}
#if PART == 0
#include "part0.hpp"
#elif PART == 1
#include "part1.hpp"
#elif PART == 2
#include "part2.hpp"
#elif PART == 3
#include "part3.hpp"
#elif PART == 4
#include "part4.hpp"
#elif PART == 5
#include "part5.hpp"
#elif PART == 6
#include "part6.hpp"
#else
#include "part7.hpp"
#endif
namespace sim
{
template<unsigned p> struct Run
{
    using P = Part<p>;
    using C = typename P::ch;
    using id = typename P::id_t;
    using Sm = typename P::Sm;
    template<typename It> static auto results(std::true_type) -> lexertl::recursive_match_results<It, id, all | 32>;
    template<typename It> static auto results(std::false_type) -> lexertl::match_results<It, id, all>;
    template<typename Res> static void call(unsigned n, Res& r, std::true_type) { run_rec(n, r); }
    template<typename Res> static void call(unsigned n, Res& r, std::false_type) { run_plain(n, r); }

    struct Job
    {
        unsigned fn = 0;
        bool checked = false;              // through the checked iterator
        bridge::u32str in;
        std::basic_string<C> text;
        model::State st;
        bool faults = false, track_bol = true;
        size_t tokens = 0;
    };
    template<bool rec, typename It> static void scan(const model::Spec& s, Job& j, It b, It e, simit::Source<C>* src)
    {
        using Res = decltype(results<It>(std::integral_constant<bool, rec>()));
        Res res(b, e, j.st.bol, static_cast<id>(j.st.state));
        model::State st = j.st;
        auto look = [&](Res& r) { call(j.fn, r, std::integral_constant<bool, rec>()); };
        for (; j.tokens < 200; ++j.tokens)
        {
            const model::Tok t = bridge::one_interrupted_by<decltype(look), Res, C>(look, s, res, b, j.in, st, src, j.faults ? 3 : 0, j.track_bol);
            if (t.underflow) count("stack-underflow");
            if (t.depth) count("pushed");
            if (t.underflow || t.id == 0) break;
        }
        Lib l;
        { Res gone = std::move(res); }
    }
    template<bool rec> static void job(const model::Spec& s, Job& j)
    {
        if (j.checked)
        {
            simit::Source<C> src;
            src.b = j.text.data();
            src.n = j.text.size();
            scan<rec>(s, j, simit::Iter<C>(&src, 0), simit::Iter<C>(&src, j.text.size()), &src);
        }
        else
        {
            const C* b = j.text.data();
            scan<rec>(s, j, b, b + j.text.size(), nullptr);
        }
    }
    // Does the machine itself agree with the reference?  (P01 and P02 decide that.)
    template<bool rec> static bool machine_agrees(const model::Spec& s, const Sm& sm, const Job& j)
    {
        const C* b = j.text.data();
        decltype(results<const C*>(std::integral_constant<bool, rec>())) r(b, b + j.text.size(), j.st.bol, static_cast<id>(j.st.state));
        model::State st = j.st;
        for (size_t k = 0; k < 200; ++k)
        {
            const model::Tok want = model::next(s, j.in, st);
            if (!(bridge::one(sm, r, b) == want)) return false;
            if (want.underflow || want.id == 0) break;
        }
        return true;
    }
    template<bool rec> static void behaviour(const model::Spec& s, const Sm& sm, unsigned i)
    {
        const bool together = gc(1, 3);
        const size_t n = together ? 2 + g(3) : 1 + g(4);
        std::vector<Job> jobs(n);
        for (size_t k = 0; k < n; ++k)
        {
            Job& j = jobs[k];
            j.track_bol = sm.data()._features & 1;       // without '^' the lexer leaves it alone
            j.fn = 2 * i + static_cast<unsigned>(g(2));
            j.checked = gc(1, 2);
            j.in = model::gen_input(s, 1 + g(together ? 12 : 32));
            j.text = bridge::conv<C>(j.in);
            j.st.bol = !gc(1, 6);
            if (s.st.size() > 1 && gc(1, 6)) j.st.state = static_cast<int>(g(s.st.size()));
            describe("%s input \"%s\" from state %d bol %d; ", j.fn & 1 ? "pointer tables," : "", model::show(j.in).c_str(), j.st.state, j.st.bol);
            if (!machine_agrees<rec>(s, sm, j)) discard("the machine itself differs from the reference");
        }
        if (!together)
        {
            const bool faults = chance(FAULT, 1, 2);
            for (auto& j : jobs) { j.faults = faults; job<rec>(s, j); }
        }
        else
        {
            std::vector<std::function<void()>> fns;
            for (auto& j : jobs) fns.push_back([&s, &j]() { job<rec>(s, j); });
            track_races(true);
            run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 12)));
            track_races(false);
            count("concurrent-callers", n);
        }
        size_t tokens = 0;
        for (auto& j : jobs) tokens += j.tokens;
        count("tokens", tokens);
        if (tokens >= 3) nontrivial();
    }
    // Whether the lexer compiled is what the machine gives now.
    static std::string plain_text(const Sm& sm, const std::string& name, bool pointers)
    {
        std::ostringstream ss;
        lexertl::table_based_cpp::generate(name, sm, pointers, ss);
        return ss.str();
    }
    struct Group : std::numpunct<char>
    {
        char do_thousands_sep() const override { return '\''; }
        std::string do_grouping() const override { return "\3"; }
        char do_decimal_point() const override { return ','; }
    };
    // Generation into outputs that take it in pieces, format it or fail.
    static void generation(const Sm& sm)
    {
        const bool pointers = gc(1, 2);
        const std::string name = "lexer" + std::to_string(g(100));
        std::string want;
        {
            Harness h;
            want = plain_text(sm, name, pointers);
        }
        const u64 before = ser::digest(sm);
        const size_t n = 1 + g(2);
        std::vector<std::function<void()>> fns;
        const bool failing_alloc = n == 1 && chance(FAULT, 1, 3);
        for (size_t t = 0; t < n; ++t)
            fns.push_back([&, failing_alloc]()
            {
                simio::OutBuf<char> buf(choose(IO, 3) ? logu(IO, 12) : 0);
                std::unique_ptr<std::ostream> os;
                {
                    Lib l;
                    os.reset(new std::ostream(&buf));
                }
                std::ostream& o = *os;
                std::ios_base::fmtflags flags = o.flags();
                if (gc(1, 2))
                {
                    static const std::ios_base::fmtflags base[] = { std::ios::dec, std::ios::hex, std::ios::oct, std::ios_base::fmtflags(0) };
                    o.setf(base[g(4)], std::ios::basefield);
                    if (gc(1, 3)) o.setf(std::ios::showbase);
                    if (gc(1, 3)) o.setf(std::ios::uppercase);
                    if (gc(1, 3)) o.setf(std::ios::showpos);
                    if (gc(1, 3)) o.setf(gc(1, 2) ? std::ios::left : std::ios::internal, std::ios::adjustfield);
                    if (gc(1, 3)) o.fill('*');
                    if (gc(1, 4)) o.imbue(std::locale(o.getloc(), new Group));
                    flags = o.flags();
                    count("formatted-output");
                }
                const int mask = static_cast<int>(g(4));
                if (mask & 1) o.exceptions(std::ios::badbit | (mask & 2 ? std::ios::failbit : std::ios::goodbit));
                const bool full = chance(FAULT, 1, 2);
                if (full)
                {
                    buf.limit = choose(FAULT, want.size() + 100);
                    buf.fail = chance(FAULT, 1, 2) ? simio::THROW : simio::EARLY_EOF;
                }
                bool threw = false;
                if (failing_alloc) arm_alloc_fault(logu(FAULT, 11), chance(FAULT, 1, 2));
                try
                {
                    Lib l;
                    lexertl::table_based_cpp::generate(name, sm, pointers, o);
                    o.flush();
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                    SIM_CHECK(failing_alloc, "spurious-bad-alloc", "bad_alloc without an injected failure");
                    count("fault:alloc-in-generate");
                }
                catch (const std::ios_base::failure&) { threw = true; SIM_CHECK(buf.failures || failing_alloc, "spurious-failure", "generation failed although nothing did"); }
                catch (const simit::IoError&) { threw = true; }
                if (failing_alloc) disarm_alloc_fault();
                const std::string got = buf.all();
                event("generated", got.size(), threw, buf.failures);
                if (threw || !o)
                {
                    SIM_CHECK(buf.failures || failing_alloc, "spurious-failure", "generation failed although nothing did");
                    SIM_CHECK(want.compare(0, got.size(), got) == 0, "not-a-prefix", "what a failed output holds is not a prefix of the source: %s",
                        printable(got.data(), std::min<size_t>(got.size(), 200)).c_str());
                    count("failed-visibly");
                }
                else
                {
                    size_t k = 0;
                    while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
                    SIM_CHECK(got == want, "source-depends-on-output", "the source written is not the one a plain output gets, from character %zu on: \"%s\" instead of \"%s\"",
                        k, printable(got.data() + k, std::min<size_t>(got.size() - k, 60)).c_str(), printable(want.data() + k, std::min<size_t>(want.size() - k, 60)).c_str());
                    count("complete");
                }
                SIM_CHECK(o.flags() == flags, "formatting-changed", "generation left the formatting of the output changed");
                Lib l;
                os.reset();
            });
        if (n == 1) fns[0]();
        else
        {
            track_races(true);
            run_tasks(fns, static_cast<unsigned>(2 + choose(SCHED, 12)));
            track_races(false);
        }
        SIM_CHECK(ser::digest(sm) == before, "machine-changed", "generation changed the machine");
        nontrivial();
    }
    static void go()
    {
        unsigned i = static_cast<unsigned>(g(GENCOUNT));
        const bool text = gc(1, 4);
        model::Spec s;
        if (text && gc(1, 2))
        {
            model::Gen gen;
            gen.o = P::options();
            s = gen.make();
            i = ~0u;
        }
        else s = spec_of(p, i, P::options());
        setup_heap_policy();
        describe("%s; ", model::describe(s).c_str());
        event_str("rules", model::describe(s));
        if (i != ~0u)
        {
            if (status[i].made == REJECTED) discard("rejected");
            SIM_CHECK(status[i].made != FAILED, "generation-failed", "building or generating failed: %s; rules: %s", status[i].why, model::describe(s).c_str());
            SIM_CHECK(status[i].made != BAD, "does-not-compile", "the generated source does not compile: %s; rules: %s", status[i].why, model::describe(s).c_str());
        }
        Sm sm;
        bridge::make_machine<typename P::Rules>(s, sm, chance(FAULT, 1, 4));
        if (text) generation(sm);
        else if (sm.data()._features & 32) behaviour<true>(s, sm, i);
        else behaviour<false>(s, sm, i);
        Lib l;
        sm.clear();
    }
};
template<unsigned p> void run_part();
template<> void run_part<PART>() { Run<PART>::go(); }
#if PART == 0
template<> void run_part<1>(); template<> void run_part<2>(); template<> void run_part<3>(); template<> void run_part<4>();
template<> void run_part<5>(); template<> void run_part<6>(); template<> void run_part<7>();
const Info info = {
    "P18",
    "a batch of lexers made from random rule sets is generated (tables and pointer tables) and compiled; each run takes one and either lexes 1-4 inputs with it through "
    "pointers or checked iterators, half of them interrupted by read errors and failing allocations, or lets 2-4 tasks call it at once, every token compared with the reference "
    "the machine agrees with, or generates source again into outputs that take it in pieces, have formatting of their own, or fail; non-trivial: three tokens compared or a source written",
    "generate_cpp, the generated lexers, match_results, rules, generator, lookup",
    "threads: cooperative tasks under the seeded scheduler; heap: seeded arena with failing allocations; input iterator with read errors; output buffers that split and fail",
    "event history hash of (rule set, inputs, tokens, interruptions, schedule)",
    "generated lexers are compiled by the same compiler as the harness;pre-emption at memory accesses, sequentially consistent memory",
    STR(GENSEED) " " STR(GENCOUNT)
};
void warmup()
{
    std::ostringstream ss;
    ss << 1 << 'c' << "x" << std::hex << 255 << std::endl;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}
void episode()
{
    switch (g(10))
    {
    case 0: case 1: run_part<0>(); break;
    case 2: case 3: run_part<1>(); break;
    case 4: run_part<2>(); break;
    case 5: run_part<3>(); break;
    case 6: run_part<4>(); break;
    case 7: run_part<5>(); break;
    case 8: run_part<6>(); break;
    default: run_part<7>(); break;
    }
}
#endif
}
#endif
