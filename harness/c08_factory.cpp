// C08: runtime selection: five bases with different constructor signatures, overlapping names.
#include "anyval.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include <algorithm>
using namespace AV;
using namespace NeoFOAM;

#include "c08_bases.hpp"

// the tables may be asked for while registrations are still going on
std::size_t askEarly()
{
    std::ostringstream os;
    Shape::print(os);
    Colour::print(os);
    std::size_t n = Shape::entries().size() + Colour::entries().size() + Sink::entries().size() + Many::entries().size() + Nest::entries().size();
    for (auto& k : Shape::entries()) n += Shape::doc(k).size() + Shape::schema(k).size() + Shape::create(k, "x", 1.0)->text.size();
    for (auto& k : Colour::entries()) n += Colour::create(k)->what().size();
    for (auto& [b, d] : BaseClassDocumentation::docTable()) n += BaseClassDocumentation::entries(b).size();
    return n;
}
static std::size_t early0 = askEarly();

DERIVED(Shape, ShapeA, "alpha")
DERIVED(Shape, ShapeB, "beta")
DERIVED(Shape, ShapeC, "a name with spaces")
static std::size_t early1 = askEarly();
DERIVED(Shape, ShapeD, "alphabet")
DERIVED(Colour, ColourA, "alpha")
DERIVED(Colour, ColourR, "red")
DERIVED(Sink, SinkA, "alpha")
DERIVED(Single, SingleA, "onlyOne")
DERIVED(Sink, SinkB, "sink")

static std::size_t early2 = askEarly();
DERIVED(Nest, NestLeaf, "leaf")
struct NestFail : public Nest::Register<NestFail>
{
    using Base = Nest::Register<NestFail>;
    NestFail(int d, int& tries) : Base(d, tries) { throw d; }
    static std::string name() { return "fail"; }
    static std::string doc() { return "documentation of NestFail"; }
    static std::string schema() { return "schema of NestFail"; }
    std::string what() const override { return "NestFail"; }
};
struct NestChain : public Nest::Register<NestChain>
{
    using Base = Nest::Register<NestChain>;
    // a chain of depth links ending in a leaf, or in a constructor that throws
    NestChain(int d, int& tries) : Base(d, tries)
    {
        inner = Nest::create(d == 0 ? "leaf" : d == -1 ? "fail" : "chain", d > 0 ? d - 1 : d < -1 ? d + 1 : d, tries);
    }
    static std::string name() { return "chain"; }
    static std::string doc() { return "documentation of NestChain"; }
    static std::string schema() { return "schema of NestChain"; }
    std::string what() const override { return "NestChain"; }
};
template class NeoFOAM::RuntimeSelectionFactory<Nest, NestParams>::Register<NestFail>;
template class NeoFOAM::RuntimeSelectionFactory<Nest, NestParams>::Register<NestChain>;

template<int N>
struct ManyN : public Many::Register<ManyN<N>>
{
    using Base = Many::Register<ManyN<N>>;
    using Base::Base;
    static std::string name() { return "many" + std::to_string(N); }
    static std::string doc() { return "doc " + std::to_string(N); }
    static std::string schema() { return "schema " + std::to_string(N); }
    int number() const override { return N; }
};
#define M4(a) template struct ManyN<a>; template struct ManyN<a + 1>; template struct ManyN<a + 2>; template struct ManyN<a + 3>; \
    template class NeoFOAM::RuntimeSelectionFactory<Many, ManyParams>::Register<ManyN<a>>; template class NeoFOAM::RuntimeSelectionFactory<Many, ManyParams>::Register<ManyN<a + 1>>; template class NeoFOAM::RuntimeSelectionFactory<Many, ManyParams>::Register<ManyN<a + 2>>; template class NeoFOAM::RuntimeSelectionFactory<Many, ManyParams>::Register<ManyN<a + 3>>;
M4(0) M4(4) M4(8) M4(12) M4(16) M4(20) M4(24) M4(28) M4(32) M4(36)
template class NeoFOAM::RuntimeSelectionFactory<Empty, EmptyParams>;

namespace
{
struct BaseSpec
{
    std::string base;
    std::map<std::string, std::string> cls; // registered name -> class
};
std::vector<BaseSpec> specs()
{
    std::vector<BaseSpec> v {
        {"Shape", {{"alpha", "ShapeA"}, {"beta", "ShapeB"}, {"a name with spaces", "ShapeC"}, {"alphabet", "ShapeD"}, {"other unit", "ShapeE"}}},
        {"Colour", {{"alpha", "ColourA"}, {"red", "ColourR"}, {"violet", "ColourV"}}},
        {"Sink", {{"alpha", "SinkA"}, {"sink", "SinkB"}}},
        {"Many", {}},
        {"Empty", {}},
        {"Nest", {{"leaf", "NestLeaf"}, {"fail", "NestFail"}, {"chain", "NestChain"}}},
        {"Single", {{"onlyOne", "SingleA"}}}
    };
    for (int i = 0; i < 40; ++i) v[3].cls["many" + std::to_string(i)] = std::to_string(i);
    return v;
}
template<typename B>
void tables(H::Rng& r, const BaseSpec& s)
{
    auto e = B::entries();
    H_CHECK(e.size() == s.cls.size() && B::size() == s.cls.size(), s.base << " lists " << e.size() << " classes instead of " << s.cls.size());
    std::sort(e.begin(), e.end());
    std::size_t i = 0;
    for (auto& [n, c] : s.cls)
    {
        H_CHECK(e[i++] == n, s.base << " does not list '" << n << "'");
        if (s.cls.size() > 10 && !r.chance(0.2)) continue;
        std::string doc = s.base == "Many" ? "doc " + c : "documentation of " + c;
        std::string schema = s.base == "Many" ? "schema " + c : "schema of " + c;
        H_CHECK(B::doc(n) == doc, "documentation of " << n << " is " << B::doc(n));
        H_CHECK(B::schema(n) == schema, "schema of " << n << " is " << B::schema(n));
        if (s.base != "Empty")
        {
            H_CHECK(BaseClassDocumentation::doc(s.base, n) == doc, "global documentation of " << s.base << "/" << n);
            H_CHECK(BaseClassDocumentation::schema(s.base, n) == schema, "global schema of " << s.base << "/" << n);
        }
    }
    if (s.base != "Empty")
    {
        auto g = BaseClassDocumentation::entries(s.base);
        std::sort(g.begin(), g.end());
        H_CHECK(g == e, "global entries of " << s.base);
    }
    std::ostringstream os;
    B::print(os);
    auto txt = os.str();
    H_CHECK(txt.find(s.base) != std::string::npos, "listing lacks the name of the base");
    std::size_t lines = (std::size_t)std::count(txt.begin(), txt.end(), '\n');
    H_CHECK(lines == s.cls.size() + 1, "listing of " << s.base << " has " << lines << " lines");
    for (auto& [n, c] : s.cls) H_CHECK(txt.find(" - " + n + "\n") != std::string::npos, "listing of " << s.base << " lacks " << n);
    H_THROWS(B::doc("no such class"), std::out_of_range, "documentation of an unknown class");
    H_THROWS(B::schema("no such class"), std::out_of_range, "schema of an unknown class");
}
void allTables(H::Rng& r, const std::vector<BaseSpec>& s)
{
    tables<Shape>(r, s[0]);
    tables<Colour>(r, s[1]);
    tables<Sink>(r, s[2]);
    tables<Many>(r, s[3]);
    tables<Empty>(r, s[4]);
    tables<Nest>(r, s[5]);
    tables<Single>(r, s[6]);
    H_THROWS(BaseClassDocumentation::entries("no such base"), std::out_of_range, "unknown base");
    H_THROWS(BaseClassDocumentation::doc("Shape", "red"), std::out_of_range, "class of another base");
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    static const auto s = specs();
    H::maxi("queries answered before main", (double)((early0 > 0) + (early1 > 0) + (early2 > 0)));
    if (r.chance(0.3)) allTables(r, s);
    {
        std::vector<std::unique_ptr<Shape>> shapes;
        std::vector<std::unique_ptr<Many>> many;
        std::vector<std::unique_ptr<Colour>> colours;
        std::vector<std::unique_ptr<Sink>> sinks;
        int counter = 0;
        for (int n = 0; n < 60; ++n)
        {
            int op = (int)r.below(11);
            H::sig((uint64_t)op);
            switch (op)
            {
            case 9:
            {
                // constructors that create further objects of the same base
                int d = (int)r.below(6), tries = 0;
                auto p = Nest::create("chain", d, tries);
                H_CHECK(tries == d + 2, "creating a chain of " << d << " constructed " << tries << " objects");
                const Nest* q = p.get();
                for (int i = d; i >= 0; --i)
                {
                    H_CHECK(q && q->what() == "NestChain" && q->depth == i, "link " << i << " of a chain");
                    q = q->inner.get();
                }
                H_CHECK(q && q->what() == "NestLeaf" && q->depth == 0 && !q->inner, "end of a chain");
                H::count("nested creations");
                break;
            }
            case 10:
            {
                // constructors that throw: the exception reaches the caller, one attempt, nothing stays registered or alive
                int d = (int)r.below(4), tries = 0, got = 0;
                auto live = liveObjects;
                try
                {
                    (void)Nest::create(d == 0 ? "fail" : "chain", d == 0 ? 17 : -d, tries);
                    H_CHECK(false, "an exception of the constructor was swallowed");
                }
                catch (int e)
                {
                    got = e;
                }
                H_CHECK(got == (d == 0 ? 17 : -1), "exception " << got);
                H_CHECK(tries == d + 1, "a failing creation constructed " << tries << " objects instead of " << d + 1);
                H_CHECK(liveObjects == live, "a failing creation left objects behind");
                // objects destroyed by stack unwinding
                try
                {
                    auto a = Shape::create("alpha", "x", 1.0);
                    auto m = Many::create("many3", 3);
                    auto o = Colour::create("red");
                    throw 5;
                }
                catch (int)
                {
                }
                if (r.chance(0.2)) allTables(r, s);
                H::count("failing constructors and unwindings");
                break;
            }
            case 0:
            case 1:
            {
                auto it = s[0].cls.begin();
                std::advance(it, (long)r.below(s[0].cls.size()));
                std::string arg = rndString(r);
                double d = rndDouble(r);
                auto p = Shape::create(it->first, arg, d);
                H_CHECK(p && p->what() == it->second, "creating '" << it->first << "' gave a " << (p ? p->what() : "null"));
                H_CHECK(p->text == arg && bits(p->num) == bits(d), "constructor arguments were changed on the way");
                H_CHECK(p->where == &arg, "a reference argument was copied on the way");
                for (auto& q : shapes) H_CHECK(q.get() != p.get(), "not a fresh object");
                shapes.push_back(std::move(p));
                H::sig(hashStr(it->first));
                H::count("objects created");
                break;
            }
            case 2:
            {
                int k = (int)r.below(40), arg = (int)r.next();
                auto p = Many::create("many" + std::to_string(k), arg);
                H_CHECK(p && p->number() == k && p->i == arg, "creating many" << k << " gave " << p->number() << " with " << p->i);
                many.push_back(std::move(p));
                H::sig((uint64_t)k);
                H::count("objects created");
                break;
            }
            case 3:
            {
                bool a = r.chance(0.5);
                bool b = r.chance(0.3);
                auto p = Colour::create(b ? "violet" : a ? "alpha" : "red");
                H_CHECK(p && p->what() == (b ? "ColourV" : a ? "ColourA" : "ColourR"), "wrong colour");
                colours.push_back(std::move(p));
                H::count("objects created");
                break;
            }
            case 4:
            {
                bool a = r.chance(0.5);
                Dictionary d({{"x", 1}});
                auto u = std::make_unique<int>((int)r.below(1000));
                int* raw = u.get();
                int before = counter;
                auto p = Sink::create(a ? "alpha" : "sink", counter, std::move(u), d);
                H_CHECK(p && p->what() == (a ? "SinkA" : "SinkB"), "wrong sink");
                H_CHECK(counter == before + 1 && &p->counter == &counter, "reference argument does not denote the caller's object, or several objects were made");
                H_CHECK(p->p.get() == raw && p->dict == &d, "arguments were not forwarded");
                sinks.push_back(std::move(p));
                H::count("objects created");
                break;
            }
            case 5:
                if (!shapes.empty()) shapes.erase(shapes.begin() + (long)r.below(shapes.size()));
                if (!sinks.empty()) sinks.pop_back();
                H::count("destructions");
                break;
            case 6:
                many.clear();
                colours.clear();
                break;
            case 7:
                if (r.chance(0.1)) allTables(r, s);
                break;
            default:
            {
                if (!r.chance(c.thorough ? 0.3 : 0.15)) break;
                // unknown name, of one of the bases: names of other bases, near misses, random
                int which = (int)r.below(7), tries = 0;
                std::string k;
                switch (r.below(10))
                {
                case 6: k = ""; break;
                case 7: k = "ALPHA"; break;
                case 8: k = r.pick({" alpha", "alpha ", "onlyone", "onlyOn", "onlyOne ", "alpha,beta", "Leaf"}); break;
                case 9: k = r.pick({"alpha", "onlyOne", "leaf", "Shape", "Single"}); break;
                case 0: k = "red"; break;
                case 1: k = "beta"; break;
                case 2: k = "many7"; break;
                case 3: k = "alph"; break;
                case 4: k = "sink "; break;
                default: k = "zz" + r.word(12);
                }
                if (s[(std::size_t)which].cls.count(k)) break;
                std::size_t live = (std::size_t)liveObjects;
                auto res = H::inChild(
                    [&]
                    {
                        // what is registered must be the same when the process ends
                        std::atexit(
                            []
                            {
                                H::Rng any(7);
                                allTables(any, s);
                            }
                        );
                        int cc = 0;
                        Dictionary d;
                        switch (which)
                        {
                        case 0: (void)Shape::create(k, "x", 1.0); break;
                        case 1: (void)Colour::create(k); break;
                        case 2: (void)Sink::create(k, cc, nullptr, d); break;
                        case 3: (void)Many::create(k, 1); break;
                        case 4: (void)Empty::create(k, 1); break;
                        case 5: (void)Nest::create(k, 1, tries); break;
                        default: (void)Single::create(k, 1);
                        }
                    }
                );
                H_CHECK(
                    res.exited && res.code == 1,
                    "creating unknown '" << k << "' of " << s[(std::size_t)which].base << " ended with code " << res.code << " signal " << res.signal << ": " << res.err.substr(0, 300)
                );
                H_CHECK(res.err.find(k) != std::string::npos, "message does not name '" << k << "': " << res.err.substr(0, 300));
                {
                    // the unknown key is not one of the valid ones
                    std::istringstream words(res.err);
                    std::string w, bare = k.substr(0, k.find(' '));
                    std::size_t n = 0;
                    while (words >> w) n += w == bare;
                    if (!s[(std::size_t)which].cls.count(bare) && bare != s[(std::size_t)which].base)
                        H_CHECK(n <= 1, "unknown key '" << k << "' also listed as a valid one: " << res.err.substr(0, 300));
                }
                for (auto& [nm, cl] : s[(std::size_t)which].cls)
                    H_CHECK(res.err.find(nm) != std::string::npos, "message does not list valid name '" << nm << "': " << res.err.substr(0, 300));
                H_CHECK((std::size_t)liveObjects == live, "objects");
                H::count("failing creations observed in a child process");
                H::sig(hashStr(k) + (uint64_t)which);
            }
            }
            H_CHECK(
                (std::size_t)liveObjects == shapes.size() + many.size() + colours.size() + sinks.size(),
                liveObjects << " objects alive"
            );
        }
        if (c.index < 2) H::sample(std::to_string(shapes.size()) + " shapes, " + std::to_string(many.size()) + " many, " + std::to_string(sinks.size()) + " sinks alive at the end");
    }
    if (r.chance(0.3)) allTables(r, s);
    H_CHECK(liveObjects == 0, "objects leaked");
}
