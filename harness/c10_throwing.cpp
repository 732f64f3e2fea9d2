// The throwing assertion macros.
#include "c10_errors.hpp"

void throwingMacros(H::Rng& r)
{
    std::string text = callerText(r);
    bool unwinding = r.chance(0.15);
    int num = (int)r.below(100000);
    double dbl = (double)r.below(1000) / 8;
    bool truth = r.chance(0.4);
    int kind = (int)r.below(6);
    H::sig((uint64_t)kind * 2 + truth);
    H::sig((uint64_t)num);
    Eval ev;
    std::string what;
    bool threw = false;
    int line = 0;
    int a = (int)r.below(5), b = truth ? a : a + 1 + (int)r.below(5);
#ifdef NF_DEBUG
    constexpr bool dbg = true;
#else
    constexpr bool dbg = false;
#endif
    bool active = true;
    std::string cond;
    std::ostringstream osd;
    // the macros, possibly used while another exception unwinds the stack
    auto use = [&]
    {
    try
    {
        switch (kind)
        {
        case 0:
            line = __LINE__; NF_ASSERT_THROW(ev(truth), text);
            cond = "ev(truth)";
            break;
        case 1:
            line = __LINE__; NF_ASSERT_THROW(ev(truth), text << " " << num << " " << dbl);
            break;
        case 2:
            line = __LINE__; NF_ASSERT_EQUAL_THROW(ev.val(a), b);
            break;
        case 3:
            active = dbg;
            line = __LINE__; NF_DEBUG_ASSERT_THROW(ev(truth), text);
            break;
        case 4:
            active = dbg;
            line = __LINE__; NF_DEBUG_ASSERT_EQUAL_THROW(ev.val(a), b);
            break;
        default:
            truth = false;
            line = __LINE__; NF_THROW(text << num);
        }
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        threw = true;
        what = e.what();
        // usable as a standard exception and copyable
        NeoFOAM::NeoFOAMException copy(e);
        const std::exception& base = copy;
        H_CHECK(base.what() == what, "copied exception lost its message");
    }
    };
    if (unwinding)
    {
        struct AtEnd
        {
            decltype(use)& f;
            ~AtEnd() { f(); }
        };
        try
        {
            AtEnd a {use};
            throw 1;
        }
        catch (int)
        {
        }
        H::count("checks during stack unwinding");
    }
    else use();
    H_CHECK(threw == (active && !truth), "macro kind " << kind << " with condition " << truth << (threw ? " threw" : " did not throw"));
    if (kind != 5)
    {
        int want = !active ? 0 : truth ? 1 : -1;
        if (want >= 0) H_CHECK(ev.n == want, "condition evaluated " << ev.n << " times in macro kind " << kind);
        else H_CHECK(ev.n >= 1, "condition not evaluated");
    }
    if (threw)
    {
        std::ostringstream n;
        n << num;
        static const char* conds[] = {"ev(truth)", "ev(truth)", "ev.val(a) == b", "ev(truth)", "ev.val(a) == b", ""};
        checkMessage(
            what,
            kind == 2 || kind == 4 ? "Expected " + std::to_string(b) : kind == 5 ? text + n.str() : kind == 1 ? text + " " + n.str() : text,
            conds[kind],
            __FILE__,
            line,
            "throwing macro"
        );
        if (kind == 2 || kind == 4) H_CHECK(what.find("got " + std::to_string(a)) != std::string::npos, "the value found is not reported");
        H::count("exceptions observed");
    }
    else H::count("silent passes observed");
}

// as the only statement of a branch, every macro belongs to that branch alone
#ifdef NF_DEBUG
#define ACTIVE true
#else
#define ACTIVE false
#endif
#define BRANCHES(NAME, STMT_OK, STMT_BAD, THROWS)                                                                     \
    {                                                                                                                 \
        bool first = r.chance(0.5), other = false, threw = false;                                                     \
        try                                                                                                           \
        {                                                                                                             \
            if (first)                                                                                                \
                STMT_OK;                                                                                              \
            else                                                                                                      \
                other = true;                                                                                         \
            H_CHECK(other == !first, NAME << " in an unbraced branch: the else branch was " << (other ? "" : "not ") << "taken"); \
            if (!first)                                                                                               \
                STMT_OK;                                                                                              \
            else if (first)                                                                                           \
                other = true;                                                                                         \
            H_CHECK(other, NAME << " in an unbraced branch swallows the else");                                        \
            for (int i = 0; i < 3; ++i)                                                                               \
                STMT_OK;                                                                                              \
            if (first)                                                                                                \
                STMT_BAD;                                                                                             \
            else                                                                                                      \
                other = false;                                                                                        \
        }                                                                                                             \
        catch (const NeoFOAM::NeoFOAMException&)                                                                      \
        {                                                                                                             \
            threw = true;                                                                                             \
        }                                                                                                             \
        H_CHECK(threw == (first && (THROWS)), NAME << " in an unbraced branch" << (threw ? " threw" : " did not throw")); \
        H::count("unbraced branches");                                                                                \
    }
void bareBranches(H::Rng& r)
{
    int a = (int)r.below(10), b = a, z = a + 1;
    int* p = r.chance(0.5) ? &a : &b;
    BRANCHES("NF_ASSERT_THROW", NF_ASSERT_THROW(a == b, "m"), NF_ASSERT_THROW(a == z, "m"), true)
    BRANCHES("NF_ASSERT_EQUAL_THROW", NF_ASSERT_EQUAL_THROW(a, b), NF_ASSERT_EQUAL_THROW(a, z), true)
    BRANCHES("NF_DEBUG_ASSERT_THROW", NF_DEBUG_ASSERT_THROW(a == b, "m"), NF_DEBUG_ASSERT_THROW(a == z, "m"), ACTIVE)
    BRANCHES("NF_DEBUG_ASSERT_EQUAL_THROW", NF_DEBUG_ASSERT_EQUAL_THROW(a, b), NF_DEBUG_ASSERT_EQUAL_THROW(a, z), ACTIVE)
    BRANCHES("NF_THROW", (void)a, NF_THROW("m"), true)
    // passing checks of the terminating kind
    BRANCHES("NF_ASSERT", NF_ASSERT(a == b, "m"), NF_ASSERT(a == b, "m"), false)
    BRANCHES("NF_ASSERT_EQUAL", NF_ASSERT_EQUAL(a, b), NF_ASSERT_EQUAL(a, b), false)
    BRANCHES("NF_DEBUG_ASSERT", NF_DEBUG_ASSERT(a == b, "m"), NF_DEBUG_ASSERT(a == b, "m"), false)
    // conditions made of operators of every precedence, and of other types than bool
    BRANCHES("or", NF_ASSERT_THROW(a == z || a == b, "m"), NF_ASSERT_THROW(a == z || a != b, "m"), true)
    BRANCHES("and", NF_ASSERT_THROW(a == b && z == a + 1, "m"), NF_ASSERT_THROW(a == b && z == a, "m"), true)
    BRANCHES("conditional", NF_ASSERT_THROW(a == b ? true : false, "m"), NF_ASSERT_THROW(a == b ? false : true, "m"), true)
    BRANCHES("pointer", NF_ASSERT_THROW(p, "m"), NF_ASSERT_THROW((p = nullptr), "m"), true)
    BRANCHES("number", NF_ASSERT_THROW(z, "m"), NF_ASSERT_THROW(a - b, "m"), true)
    BRANCHES("bits", NF_ASSERT_THROW(6 & 4, "m"), NF_ASSERT_THROW(6 & 1, "m"), true)
    BRANCHES("high bits", NF_ASSERT_THROW(1LL << 40, "m"), NF_ASSERT_THROW((1LL << 40) & 1, "m"), true)
    BRANCHES("fraction", NF_ASSERT_THROW(0.25, "m"), NF_ASSERT_THROW(0.0, "m"), true)
    BRANCHES("negation", NF_ASSERT_THROW(!(a == z), "m"), NF_ASSERT_THROW(!(a == b), "m"), true)
}
// several exceptions alive at once, rethrown and carried over to other threads: each keeps its message
void manyAtOnce(H::Rng& r)
{
    std::vector<std::exception_ptr> held;
    std::vector<std::string> text;
    std::size_t n = 2 + r.below(6);
    for (std::size_t i = 0; i < n; ++i)
    {
        text.push_back("number " + std::to_string(i) + " " + callerText(r));
        auto t = text.back();
        try
        {
            switch (r.below(3))
            {
            case 0: NF_THROW(t); break;
            case 1: NF_ASSERT_THROW(t.empty(), t); break;
            default: throw NeoFOAM::NeoFOAMException(t);
            }
        }
        catch (...)
        {
            held.push_back(std::current_exception());
        }
    }
    std::vector<const char*> what(n);
    auto look = [&](std::size_t i)
    {
        try
        {
            std::rethrow_exception(held[i]);
        }
        catch (const NeoFOAM::NeoFOAMException& e)
        {
            what[i] = e.what();
            H_CHECK(std::string(e.what()).find(text[i]) != std::string::npos, "an exception among others lost its message");
        }
    };
    for (std::size_t i = 0; i < n; ++i) look(i);
    for (std::size_t i = 0; i < n; ++i)
        H_CHECK(std::string(what[i]).find(text[i]) != std::string::npos, "the message of exception " << i << " changed when another one was looked at");
    for (std::size_t i = n; i-- > 0;) held[i] = nullptr, H::count("exceptions alive at once");
}

// what is printed by the diagnostic macros, and when
struct CaptureOut
{
    std::ostringstream s;
    std::streambuf* old;
    CaptureOut() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~CaptureOut() { std::cout.rdbuf(old); }
};
void diagnostics(H::Rng& r)
{
    std::string text = callerText(r);
    int num = (int)r.below(100000);
    Eval ev;
#if defined(NF_DEBUG) || defined(NF_DEBUG_INFO)
    constexpr bool dbg = true;
#else
    constexpr bool dbg = false;
#endif
    bool taken = r.chance(0.5);
    int line = 0, n0 = 0;
    std::string info, dinfo, bare, loop;
    {
        CaptureOut o;
        NF_INFO(text << " " << ev.val(num));
        info = o.s.str();
    }
    H_CHECK(info.find(text + " " + std::to_string(num)) != std::string::npos, "NF_INFO printed '" << info << "'");
    H_CHECK(ev.n == 1, "NF_INFO evaluated its message " << ev.n << " times");
    {
        CaptureOut o;
        line = __LINE__; NF_DINFO(text << " " << ev.val(num));
        dinfo = o.s.str();
    }
    H_CHECK(ev.n == 1 + dbg, "NF_DINFO evaluated its message " << ev.n - 1 << " times in a " << (dbg ? "debug" : "release") << " build");
    if (dbg) checkMessage(dinfo, text + " " + std::to_string(num), "", __FILE__, line, "NF_DINFO");
    else H_CHECK(dinfo.empty(), "NF_DINFO printed '" << dinfo << "' in a release build");
    n0 = ev.n;
    // alone in a branch that is not taken: nothing is printed and nothing evaluated
    {
        CaptureOut o;
        if (taken)
            NF_DINFO(text << ev.val(num));
        bare = o.s.str();
    }
    H_CHECK(bare.empty() == !(taken && dbg) && ev.n == n0 + (taken && dbg), "NF_DINFO in an unbraced branch" << (taken ? "" : " not taken") << " printed '" << bare << "'");
    n0 = ev.n;
    {
        CaptureOut o;
        if (!taken)
            NF_INFO(text << ev.val(num));
        bare = o.s.str();
    }
    H_CHECK(bare.empty() == taken && ev.n == n0 + !taken, "NF_INFO in an unbraced branch printed '" << bare << "'");
    {
        CaptureOut o;
        bool other = false;
        if (taken)
            NF_INFO("x");
        else
            other = true;
        H_CHECK(other == !taken, "NF_INFO in an unbraced branch takes the else branch away");
        if (!taken)
            NF_DINFO("x");
        else
            other = true;
        H_CHECK(other, "NF_DINFO in an unbraced branch takes the else branch away");
    }
    n0 = ev.n;
    {
        CaptureOut o;
        for (int i = 0; i < 3; ++i)
            NF_DINFO(ev.val(num));
        loop = o.s.str();
    }
    H_CHECK(ev.n == n0 + 3 * dbg, "NF_DINFO as the body of a loop of three was executed " << ev.n - n0 << " times");
#ifdef NF_DEBUG
    {
        CaptureOut o;
        line = __LINE__; NF_PING();
        loop = o.s.str();
    }
    checkMessage(loop, "PING", "", __FILE__, line, "NF_PING");
#endif
    // the message of a check that passes is not evaluated
    n0 = ev.n;
    int a = (int)r.below(5);
    NF_ASSERT(a == a + 0, ev.val(num));
    NF_ASSERT_THROW(a < 5, text << ev.val(num));
    NF_DEBUG_ASSERT(a < 5, text << ev.val(num));
    NF_DEBUG_ASSERT_THROW(a < 5, text << ev.val(num));
    H_CHECK(ev.n == n0, "a check whose condition holds evaluated its message " << ev.n - n0 << " times");
    H::count("diagnostics observed");
}
