// C10: assertion, error and diagnostic macros; readable type names.
#include "c10_errors.hpp"
#include <cxxabi.h>
#include <thread>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
#endif

void checkMessage(const std::string& m, const std::string& text, const std::string& cond, const char* file, int line, const char* how)
{
    const char* b = strrchr(file, '/');
    H_CHECK(m.find(text) != std::string::npos, how << ": message lacks the caller's text '" << text << "': " << m);
    if (!cond.empty()) H_CHECK(m.find(cond) != std::string::npos, how << ": message lacks the condition '" << cond << "': " << m);
    H_CHECK(m.find(b ? b + 1 : file) != std::string::npos, how << ": message lacks the file: " << m);
    H_CHECK(m.find(std::to_string(line)) != std::string::npos, how << ": message lacks the line " << line << ": " << m);
}
template<typename A, typename... B>
struct Tmpl
{
};
// types with long names
template<int D>
struct Deep
{
    using type = Tmpl<typename Deep<D - 1>::type, std::map<int, typename Deep<D - 1>::type>>;
};
template<>
struct Deep<0>
{
    using type = int;
};
namespace nsp
{
struct Inner
{
    enum class E
    {
        a
    };
};
}
namespace
{
template<typename T>
void demangles()
{
    const char* n = typeid(T).name();
    int st = 0;
    char* ref = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string want = st == 0 ? ref : n;
    free(ref);
    H_CHECK(NeoFOAM::demangle(n) == want, "type name " << n << " became " << NeoFOAM::demangle(n) << " instead of " << want);
}
struct Sized
{
    std::size_t n;
    std::size_t size() const { return n; }
};
void lengths(const Sized& x, const Sized& y) { NeoFOAM_ASSERT_EQUAL_LENGTH(x, y); }

void exiting(H::Rng& r)
{
    std::string text = callerText(r);
    int num = (int)r.below(100000);
    int kind = (int)r.below(6);
    bool truth = r.chance(0.3);
    if (kind == 5) truth = false;
    bool unwinding = r.chance(0.2), threaded = r.chance(0.1);
    int a = (int)r.below(5), b = truth ? a : a + 1 + (int)r.below(5);
    H::sig((uint64_t)kind * 2 + truth + 100);
    H::sig((uint64_t)num);
#ifdef NF_DEBUG
    constexpr bool dbg = true;
#else
    constexpr bool dbg = false;
#endif
    static int lines[6];
    bool loud = false;
#define AT(k) (lines[k] = __LINE__, loud ? fprintf(stderr, "AT <%d>\n", lines[k]) : 0)
    auto body = [&](Eval& ev)
    {
        switch (kind)
        {
        case 0:
            AT(0); NF_ASSERT(ev(truth), text);
            break;
        case 1:
            AT(1); NF_ASSERT(ev(truth), text << " " << num);
            break;
        case 2:
            AT(2); NF_ASSERT_EQUAL(ev.val(a), b);
            break;
        case 3:
            AT(3); NF_DEBUG_ASSERT(ev(truth), text);
            break;
        case 4:
            AT(4); NF_DEBUG_ASSERT_EQUAL(ev.val(a), b);
            break;
        default:
            AT(5); NF_ERROR_EXIT(text << num);
        }
    };
    bool active = kind == 3 || kind == 4 ? dbg : true;
    if (truth || !active)
    {
        Eval ev;
        body(ev);
        H_CHECK(ev.n == (active ? 1 : 0), "condition of macro kind " << kind << " evaluated " << ev.n << " times");
        H::count("silent passes observed");
        return;
    }
    auto res = H::inChild(
        [&]
        {
            Eval ev;
            loud = true;
            auto go = [&]
            {
                body(ev);
                fprintf(stderr, "CONTINUED %d\n", lines[kind]);
            };
            if (unwinding)
            {
                // while another exception is on its way
                struct AtEnd
                {
                    decltype(go)& f;
                    ~AtEnd() { f(); }
                };
                try
                {
                    AtEnd a {go};
                    throw 1;
                }
                catch (int)
                {
                }
            }
            else if (threaded) std::thread(go).join();
            else body(ev);
            fprintf(stderr, "CONTINUED %d\n", lines[kind]);
        }
    );
    H_CHECK(res.exited && res.code == 1, "violated check of kind " << kind << " ended with code " << res.code << " signal " << res.signal << ": " << res.err.substr(0, 400));
    H_CHECK(res.err.find("CONTINUED") == std::string::npos, "execution continued after a violated check");
    static const char* conds[] = {"ev(truth)", "ev(truth)", "ev.val(a) == b", "ev(truth)", "ev.val(a) == b", ""};
    std::string want = kind == 2 || kind == 4 ? "Expected " + std::to_string(b) : kind == 5 ? text + std::to_string(num) : kind == 1 ? text + " " + std::to_string(num) : text;
    H_CHECK(res.err.find(want) != std::string::npos, "message lacks '" << want << "': " << res.err.substr(0, 400));
    if (*conds[kind]) H_CHECK(res.err.find(conds[kind]) != std::string::npos, "message lacks the condition: " << res.err.substr(0, 400));
    H_CHECK(res.err.find("c10_errors.cpp") != std::string::npos, "message lacks the file: " << res.err.substr(0, 400));
    auto at = res.err.find("AT <");
    std::string ln = at == std::string::npos ? "?" : res.err.substr(at + 4, res.err.find('>', at) - at - 4);
    H_CHECK(res.err.find(ln, at + 4 + ln.size()) != std::string::npos, "message lacks line " << ln << ": " << res.err.substr(0, 400));
    if (kind == 2 || kind == 4) H_CHECK(res.err.find("got " + std::to_string(a)) != std::string::npos, "the value found is not reported");
    H::count("process terminations observed");
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    bareBranches(r);
    manyAtOnce(r);
    diagnostics(r);
    for (int i = 0; i < 30; ++i) throwingMacros(r);
    exiting(r);
    // exception classes
    {
        std::string f = r.word(), w = r.word(20);
        int line = (int)r.below(10000);
        NeoFOAM::Error e(f, line, w);
        std::string m = e.what();
        H_CHECK(m.find(f) != std::string::npos && m.find(w) != std::string::npos && m.find(std::to_string(line)) != std::string::npos, "Error message " << m);
        std::size_t x = r.below(6), y = r.below(6);
        bool threw = false;
        try
        {
            lengths(Sized {x}, Sized {y});
        }
        catch (const NeoFOAM::DimensionMismatch& d)
        {
            threw = true;
            std::string s = d.what();
            H_CHECK(s.find(std::to_string(x)) != std::string::npos && s.find(std::to_string(y)) != std::string::npos, "lengths missing in " << s);
            H_CHECK(s.find("lengths") != std::string::npos && s.find("c10_errors.cpp") != std::string::npos, "place missing in " << s);
            const NeoFOAM::Error& base = d;
            const std::exception& b2 = base;
            H_CHECK(s == b2.what(), "message through the base class");
        }
        H_CHECK(threw == (x != y), "lengths " << x << " and " << y << (threw ? " were" : " were not") << " rejected");
    }
    // readable names
#ifdef HAVE_ASAN
    std::size_t before = 0;
    for (int round = 0; round < 2; ++round)
    {
        if (round == 1) before = __sanitizer_get_current_allocated_bytes();
#endif
        demangles<int>();
        demangles<double>();
        demangles<std::string>();
        demangles<std::vector<std::map<int, std::string>>>();
        demangles<nsp::Inner>();
        demangles<nsp::Inner::E>();
        demangles<Tmpl<int, Tmpl<char, float>, void (*)(int)>>();
        demangles<decltype([] {})>();
        demangles<const char*>();
        demangles<Deep<3>::type>();
        demangles<Deep<5>::type>();
        demangles<Deep<7>::type>();
        demangles<std::map<std::string, std::vector<std::map<std::string, std::vector<std::map<std::string, std::string>>>>>>();
        demangles<unsigned char>();
        demangles<std::nullptr_t>();
        demangles<void>();
        demangles<int[3]>();
        demangles<unsigned long (nsp::Inner::*)(int) const>();
        for (int i = 0; i < 20; ++i)
        {
            std::string s = r.chance(0.3) ? "_Z" + r.word(12) : r.chance(0.5) ? "not a mangled name " + r.word() : r.chance(0.3) ? "" : r.word(6);
            int st = 0;
            char* ref = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
            std::string want = st == 0 ? ref : s;
            free(ref);
            H_CHECK(NeoFOAM::demangle(s.c_str()) == want, "'" << s << "' became '" << NeoFOAM::demangle(s.c_str()) << "'");
        }
#ifdef HAVE_ASAN
    }
    {
        std::vector<std::string> keep(1);
        std::size_t a0 = __sanitizer_get_current_allocated_bytes();
        for (int i = 0; i < 50; ++i)
        {
            (void)NeoFOAM::demangle(typeid(std::vector<std::map<int, std::string>>).name());
            (void)NeoFOAM::demangle("not a name");
        }
        std::size_t a1 = __sanitizer_get_current_allocated_bytes();
        H_CHECK(a1 == a0, "decoding type names leaks " << (a1 - a0) << " bytes in 100 calls");
        (void)before;
    }
#endif
    if (c.index < 2) H::sample("30 throwing and 1 exiting check, 30 type names");
}
