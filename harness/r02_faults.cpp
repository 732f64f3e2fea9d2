// R02: operations that fail. Histories over a small world of containers; before every operation that
// can acquire memory or runs code of the caller, each of its allocations (or of the copies of values
// of the caller, or of the calls of its predicates, validators and constructors) is made to fail in
// turn. After each failure the world has to be exactly as before, nothing may be held on to, and the
// failure has to reach the caller.
#include "nfh.hpp"
#include <any>
#include <memory>
#include <new>
#include <unordered_map>

#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"

using namespace NeoFOAM;

namespace
{
// ------------------------------------------------------------------------------ fault injection
long armed = -1; // allocations and calls of the caller's code until the failure; -1: none
int fired = 0;   // 1: an allocation failed, 2: the caller's code
long live = 0;
struct Trouble
{
    int code;
};
void userCode() // called wherever code of the caller runs
{
    if (armed >= 0 && armed-- == 0)
    {
        fired = 2;
        throw Trouble {4711};
    }
}
void disarm() { armed = -1; }
}

void* operator new(std::size_t n)
{
    if (armed >= 0 && armed-- == 0)
    {
        fired = 1;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    live++;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p) live--;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { ::operator delete(p); }
void* operator new[](std::size_t n) { return ::operator new(n); }
void operator delete[](void* p) noexcept { ::operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { ::operator delete(p); }

namespace
{
// a value of the caller whose copy can fail
template<bool BIG>
struct Val
{
    static inline long alive = 0;
    int v;
    double pad[BIG ? 12 : 1] {};
    explicit Val(int v = 0) : v(v) { alive++; }
    Val(const Val& o) : v(o.v)
    {
        userCode();
        alive++;
    }
    Val(Val&& o) noexcept : v(o.v) { alive++; }
    Val& operator=(const Val& o)
    {
        userCode();
        v = o.v;
        return *this;
    }
    Val& operator=(Val&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    ~Val()
    {
        v = -999;
        alive--;
    }
};
using SmallVal = Val<false>;
using BigVal = Val<true>;

std::string show(const std::any& a);
std::string show(const Dictionary& d)
{
    auto keys = d.keys();
    std::sort(keys.begin(), keys.end());
    std::string s = "{";
    for (auto& k : keys) s += k + "=" + show(d[k]) + ";";
    return s + "}" + std::to_string(keys.size()) + (d.empty() ? "e" : "");
}
std::string show(TokenList& t)
{
    std::string s = "(";
    for (std::size_t i = 0; i < t.size(); ++i) s += show(t.tokens()[i]) + " ";
    return s + ")";
}
std::string show(const std::any& a)
{
    if (!a.has_value()) return "nothing";
    if (auto* p = std::any_cast<int>(&a)) return std::to_string(*p);
    if (auto* p = std::any_cast<double>(&a)) return "d" + std::to_string(*p);
    if (auto* p = std::any_cast<std::string>(&a)) return "'" + *p + "'";
    if (auto* p = std::any_cast<std::vector<double>>(&a))
    {
        std::string s = "[";
        for (double x : *p) s += std::to_string(x) + ",";
        return s + "]";
    }
    if (auto* p = std::any_cast<SmallVal>(&a)) return "s" + std::to_string(p->v);
    if (auto* p = std::any_cast<BigVal>(&a)) return "b" + std::to_string(p->v);
    if (auto* p = std::any_cast<Dictionary>(&a)) return show(*p);
    if (auto* p = std::any_cast<TokenList>(&a))
    {
        TokenList t(*p);
        return show(t);
    }
    return std::string("?") + a.type().name();
}
std::any rndValue(H::Rng& r, int depth = 0)
{
    switch (r.below(depth < 2 ? 9 : 7))
    {
    case 0: return (int)r.below(1000);
    case 1: return r.dyadic();
    case 2: return r.word();
    case 3: return r.word() + " a text that certainly needs memory of its own " + r.word();
    case 4: return std::vector<double>(1 + r.below(5), r.dyadic());
    case 5: return SmallVal((int)r.below(1000));
    case 6: return BigVal((int)r.below(1000));
    case 7:
    {
        Dictionary d;
        for (std::size_t i = r.below(4); i > 0; --i) d.insert(r.word(3), rndValue(r, depth + 1));
        return d;
    }
    default:
    {
        TokenList t;
        for (std::size_t i = r.below(4); i > 0; --i) t.insert(rndValue(r, depth + 1));
        return t;
    }
    }
}
std::string rndKey(H::Rng& r)
{
    return r.chance(0.3) ? "aKeyThatNeedsMemoryOfItsOwn" + std::to_string(r.below(4)) : std::string(1, (char)('a' + r.below(7)));
}

// ---------------------------------------------------------------------------------- collections
template<int N>
struct Doc
{
    Document d;
    Doc() = default;
    explicit Doc(const Document& x) : d(x) {}
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return N ? "aDocumentTypeWithALongName" : "Doc"; }
};
template<int N>
struct Mixed : CollectionMixin<Doc<N>>
{
    using CollectionMixin<Doc<N>>::CollectionMixin;
    Mixed(Mixed&&) = default;
    std::string insert(const Document& d)
    {
        std::string id = d.id();
        this->docs_.emplace(id, Doc<N>(d));
        return id;
    }
};
template<int N>
std::string showCol(Collection& c)
{
    auto& m = c.as<Mixed<N>>();
    std::string s = c.name() + ":" + c.type() + std::to_string(c.size());
    for (auto& id : m.sortedKeys()) s += show(static_cast<const Dictionary&>(c.doc(id)));
    return s;
}

// ------------------------------------------------------------------------------------ factories
struct Base : RuntimeSelectionFactory<Base, Parameters<const Dictionary&, int>>
{
    static inline long alive = 0;
    Dictionary copy;
    int n;
    Base(const Dictionary& d, int n) : copy(d), n(n) { alive++; }
    virtual ~Base() { alive--; }
    static std::string name() { return "Base"; }
    virtual std::string what() const = 0;
};
struct First : Base::Register<First>
{
    std::string text = "a text that certainly needs memory of its own";
    std::unique_ptr<int> p;
    First(const Dictionary& d, int n) : Base::Register<First>(d, n), p(std::make_unique<int>(n)) { userCode(); }
    static std::string name() { return "first"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
    std::string what() const override { return "first" + std::to_string(*p); }
};
struct Second : Base::Register<Second>
{
    Second(const Dictionary& d, int n) : Base::Register<Second>(d, n) { userCode(); }
    static std::string name() { return "second"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
    std::string what() const override { return "second" + std::to_string(n); }
};

// ---------------------------------------------------------------------------------------- world
struct World
{
    Dictionary d, other;
    TokenList t;
    std::size_t cursor = 0; // of t
    StencilDataBase s;
    std::vector<std::string> stencilKeys;
    std::vector<Document> docs;
    Database db;
    std::map<std::string, int> cols;

    std::string show()
    {
        std::string o = "dictionary " + ::show(d) + "\nother " + ::show(other) + "\ntokens " + ::show(t) + "\nstencils ";
        for (auto& k : stencilKeys) o += k + "=" + (s.contains(k) ? ::show(s[k]) : "gone") + ";";
        for (char k = 'a'; k < 'h'; ++k) o += s.contains(std::string(1, k)) ? k : '.';
        o += "\ndocuments ";
        for (auto& x : docs) o += ::show(static_cast<const Dictionary&>(x));
        o += "\ndatabase " + std::to_string(db.size());
        for (auto& [k, n] : cols)
            o += " " + k + "->" + (!db.contains(k) ? "gone" : n ? showCol<1>(db.at(k)) : showCol<0>(db.at(k)));
        o += "\nfactory " + std::to_string(Base::size()) + std::to_string(Base::entries().size()) + " alive " + std::to_string(Base::alive);
        return o;
    }
};

// the operation under every single failure, until it completes without one
template<typename Op>
void under(World& w, const std::string& what, Op op)
{
    H::sig(what);
    const std::string before = w.show();
    for (long k = 0;; ++k)
    {
        long s0 = SmallVal::alive, b0 = BigVal::alive;
        int outcome = 0; // 0 done, 1 out of memory, 2 the caller's failure, 3 other
        char other[160] = "";
        fired = 0;
        armed = k;
        try
        {
            op();
        }
        catch (const std::bad_alloc&)
        {
            outcome = 1;
        }
        catch (const Trouble& t)
        {
            outcome = t.code == 4711 ? 2 : 3;
        }
        catch (const std::exception& e)
        {
            outcome = 3;
            snprintf(other, sizeof other, "%s", e.what());
        }
        disarm();
        if (!fired)
        {
            H_CHECK(outcome == 0, what << " fails: " << other);
            break;
        }
        std::string at = what + (fired == 1 ? " with an allocation" : " with the caller's code") + " failing (point " + std::to_string(k + 1) + ")";
        H_CHECK(outcome != 0, at << ": the failure does not reach the caller");
        H_CHECK(outcome == fired, at << ": fails with another error " << other);
        std::string after = w.show();
        H_CHECK(after == before, at << " changed the state\n  from " << before << "\n  to   " << after);
        H_CHECK(SmallVal::alive == s0 && BigVal::alive == b0, at << ": " << SmallVal::alive - s0 << " and " << BigVal::alive - b0 << " values are left behind");
        H::count(fired == 1 ? "failed allocations injected" : "failures of the caller's code injected");
        H::maxi("most failure points in one operation", (double)k + 1);
    }
    H::seen("kinds of operations under failures", std::hash<std::string> {}(what));
}
// memory held, ignoring what the harness itself holds on to
template<typename F>
void balanced(const std::string& what, F f)
{
    long l0 = live;
    f();
    H_CHECK(live == l0, what << ": " << live - l0 << " pieces of memory are not released");
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    static bool warm = false;
    if (!warm) // static data of the library and of the streams
    {
        warm = true;
        Document d;
        std::cerr << "";
    }
    {
        World w;
        for (std::size_t i = r.below(4); i > 0; --i) w.d.insert(rndKey(r), rndValue(r));
        int steps = c.thorough ? 60 : 25;
        for (int n = 0; n < steps; ++n)
        {
            std::string k = rndKey(r);
            std::any v = rndValue(r);
            switch (r.below(19))
            {
            case 0:
            case 1:
            {
                bool has = w.d.contains(k);
                under(w, std::string("inserting under a ") + (has ? "used" : "new") + " key", [&] { w.d.insert(k, v); });
                H_CHECK(show(w.d[k]) == show(v), "inserting after failures");
                break;
            }
            case 2:
            {
                if (!w.d.contains(k) || !w.d.isDict(k)) w.d.insert(k, Dictionary());
                std::string k2 = rndKey(r);
                under(w, "inserting into a sub-dictionary", [&] { w.d.subDict(k).insert(k2, v); });
                H_CHECK(show(w.d.subDict(k)[k2]) == show(v), "inserting after failures");
                break;
            }
            case 3:
            {
                std::string was = show(w.d);
                under(w, "copying a dictionary", [&] { Dictionary x(w.d); disarm(); H_CHECK(show(x) == was, "copy"); });
                under(w, "a dictionary from a map", [&] { Dictionary x(w.d.getMap()); });
                under(w, "keys of a dictionary", [&] { auto x = w.d.keys(); });
                under(w, "a dictionary from a list", [&] { Dictionary x({{k, v}, {"anotherKeyThatNeedsMemoryOfItsOwn", 1}}); });
                break;
            }
            case 4:
                // the target of a failed assignment can hold anything, but stays usable
                w.other = Dictionary();
                under(
                    w,
                    "assigning a dictionary",
                    [&]
                    {
                        try
                        {
                            w.other = w.d;
                        }
                        catch (...)
                        {
                            disarm();
                            w.other = Dictionary();
                            throw;
                        }
                    }
                );
                H_CHECK(show(w.other) == show(w.d), "assignment after failures");
                break;
            case 5:
                // a look-up that fails anyway
                if (!w.d.contains(k))
                    under(w, "looking up an unknown key", [&] { try { (void)w.d[k]; } catch (const std::out_of_range&) {} });
                else
                    under(w, "looking up with another type", [&] { try { (void)w.d.get<std::map<int, int>>(k); } catch (const std::bad_any_cast&) {} });
                break;
            case 6:
                under(w, "removing a key", [&] { w.d.remove(k); });
                break;
            case 7:
            case 8:
                under(w, "appending a token", [&] { w.t.insert(v); });
                H_CHECK(show(w.t.tokens().back()) == show(v), "appending after failures");
                break;
            case 9:
                under(w, "copying a token list", [&] { TokenList x(w.t); });
                if (w.t.size())
                    under(w, "a token with another type", [&] { try { (void)w.t.get<std::map<int, int>>(0); } catch (const std::bad_any_cast&) {} });
                under(w, "a token behind the end", [&] { try { (void)w.t.get<int>(w.t.size() + 1); } catch (const std::out_of_range&) {} });
                break;
            case 10:
            {
                // reading on: a failing read leaves the cursor in place
                TokenList x(std::vector<std::any> {std::string("a text that certainly needs memory of its own"), BigVal(7), 1, 2});
                under(
                    w,
                    "popping a text",
                    [&]
                    {
                        std::size_t was = x.size();
                        try
                        {
                            auto s = x.popFront<std::string>();
                            disarm();
                        }
                        catch (...)
                        {
                            disarm();
                            H_CHECK(x.size() == was, "a failed popFront removed the token");
                            throw;
                        }
                    }
                );
                under(
                    w,
                    "popping a value",
                    [&]
                    {
                        std::size_t was = x.size();
                        try
                        {
                            auto s = x.popFront<BigVal>();
                            disarm();
                        }
                        catch (...)
                        {
                            disarm();
                            H_CHECK(x.size() == was && x.get<BigVal>(0).v == 7, "a failed popFront removed the token");
                            throw;
                        }
                    }
                );
                H_CHECK(x.size() == 2, "tokens popped");
                under(
                    w,
                    "reading on with another type",
                    [&]
                    {
                        try
                        {
                            (void)x.next<std::map<int, int>>();
                        }
                        catch (const std::bad_any_cast&)
                        {}
                    }
                );
                H_CHECK(x.next<int>() == 1 && x.next<int>() == 2, "a failed read moved the cursor");
                break;
            }
            case 11:
            {
                auto key = rndKey(r);
                bool has = w.s.contains(key);
                std::string was = has ? show(w.s[key]) : "";
                int kind = (int)r.below(3);
                int x = (int)r.below(100);
                under(
                    w,
                    std::string("stencil cache, ") + (has ? "used" : "new") + " key",
                    [&]
                    {
                        bool before = w.s.contains(key);
                        try
                        {
                            if (kind == 0) w.s.insert(key, BigVal(x));
                            else if (kind == 1) w.s.insert(key, std::string("a text that certainly needs memory of its own"));
                            else w.s.insert(key, std::vector<double>(3, x));
                        }
                        catch (...)
                        {
                            disarm();
                            H_CHECK(w.s.contains(key) == before, "a failed insertion is in the stencil cache");
                            throw;
                        }
                    }
                );
                if (!has) w.stencilKeys.push_back(key);
                H_CHECK(w.s.contains(key) && (!has || show(w.s[key]) == was), "stencil cache after failures");
                break;
            }
            case 12:
            {
                // a document made with a validator that can fail
                bool made = false;
                DocumentValidator val = [](Dictionary d) { userCode(); return d.contains("id"); };
                under(
                    w,
                    "making a document",
                    [&]
                    {
                        Document x(w.d, val);
                        disarm();
                        H_CHECK(x.contains("id") && x.validate(), "document made under failures");
                        w.docs.push_back(x);
                        made = true;
                    }
                );
                H_CHECK(made, "document not made");
                if (w.docs.size() > 3) w.docs.erase(w.docs.begin());
                break;
            }
            case 13:
                if (w.docs.empty()) break;
                under(w, "validating a document", [&] { (void)w.docs.back().validate(); });
                under(w, "copying a document", [&] { Document x(w.docs.back()); });
                under(w, "inserting into a document", [&] { w.docs.back().insert(k, v); });
                under(w, "identifier of a document", [&] { (void)w.docs.back().id(); });
                break;
            case 14:
            case 15:
            {
                std::string name = rndKey(r);
                int kind = (int)r.below(2);
                bool has = w.db.contains(name);
                auto go = [&]<int N>(std::integral_constant<int, N>)
                {
                    // (a collection offered in vain can be lost: each attempt offers an equal one)
                    const std::string colName = r.chance(0.5) ? name : "aCollectionThatHasALongName";
                    std::vector<Document> given;
                    for (std::size_t i = r.below(3); i > 0; --i) given.push_back(Document(w.d));
                    auto offer = [&]
                    {
                        Mixed<N> m(w.db, colName);
                        for (auto& x : given) m.insert(x);
                        return Collection(std::move(m));
                    };
                    Collection col = offer();
                    std::string was = showCol<N>(col);
                    std::string all = w.show();
                    under(
                        w,
                        has ? "a collection under a taken name" : "a new collection",
                        [&]
                        {
                            std::size_t size = w.db.size();
                            try
                            {
                                w.db.insert(name, std::move(col));
                                disarm();
                            }
                            catch (...)
                            {
                                disarm();
                                H_CHECK(w.db.size() == size && w.db.contains(name) == has, "a failed registration changed the database");
                                col = offer();
                                throw;
                            }
                        }
                    );
                    if (!has) H_CHECK(showCol<N>(w.db.at(name)) == was, "collection registered after failures: " << was);
                    else H_CHECK(w.show() == all, "registering under a taken name");
                    if (!has) w.cols[name] = N;
                };
                if (kind) go(std::integral_constant<int, 1> {});
                else go(std::integral_constant<int, 0> {});
                if (w.db.size() > 4)
                {
                    auto x = w.cols.begin()->first;
                    under(w, "removing a collection", [&] { w.db.remove(x); disarm(); w.cols.erase(x); });
                }
                break;
            }
            case 16:
            {
                if (w.cols.empty()) break;
                auto it = w.cols.begin();
                std::advance(it, (long)r.below(w.cols.size()));
                auto& col = w.db.at(it->first);
                under(w, "searching a collection", [&]
                      { auto f = col.find([](const Document& d) { userCode(); return d.contains("id"); }); disarm(); H_CHECK(f.size() == col.size(), "found " << f.size()); });
                under(w, "listing a collection", [&] { if (it->second) (void)col.as<Mixed<1>>().sortedKeys(); else (void)col.as<Mixed<0>>().sortedKeys(); });
                under(w, "unknown document", [&] { try { (void)col.doc(k); } catch (const std::out_of_range&) {} });
                under(w, "name and type of a collection", [&] { (void)col.name(); (void)col.type(); });
                under(w, "look-ups in a database", [&]
                      { try { (void)w.db.at("a name that is not there at all"); } catch (const std::out_of_range&) {} });
                break;
            }
            case 17:
            {
                std::unique_ptr<Base> made;
                bool first = r.chance(0.6);
                std::string name = first ? "first" : "second";
                int x = (int)r.below(100);
                under(
                    w,
                    "creating a " + name,
                    [&]
                    {
                        auto p = Base::create(name, w.d, x);
                        disarm();
                        H_CHECK(p && p->what() == name + std::to_string(x) && show(p->copy) == show(w.d), "object created");
                        made = std::move(p);
                    }
                );
                H_CHECK(made != nullptr, "nothing created");
                under(w, "listing the classes", [&] { (void)Base::entries(); });
                break;
            }
            default:
            {
                // the same balance for a world of its own
                balanced(
                    "a failing sequence",
                    [&]
                    {
                        for (long f = 0; f < 60; ++f)
                        {
                            fired = 0;
                            armed = f;
                            try
                            {
                                Dictionary x({{"first key that needs memory", std::string("a text that certainly needs memory of its own")}});
                                x.insert("sub dictionary with a long name", Dictionary({{"one", 1}, {"two", BigVal(3)}}));
                                TokenList y(std::vector<std::any> {x, 1});
                                y.insert(x);
                                Database db;
                                Mixed<0> m(db, "aCollectionThatHasALongName");
                                m.insert(Document(x));
                                db.insert("under a name that is long enough", Collection(std::move(m)));
                                (void)x.get<double>("sub dictionary with a long name");
                            }
                            catch (const std::bad_alloc&)
                            {}
                            catch (const Trouble&)
                            {}
                            catch (const std::bad_any_cast&)
                            {}
                            disarm();
                        }
                    }
                );
                H::count("failing sequences balanced");
            }
            }
            if (r.chance(0.2) && !w.d.empty()) w.d.remove(w.d.keys().front());
            if (w.t.size() > 6) w.t.remove(0);
            H::count("operations");
        }
        if (c.index < 3) H::sample("history of " + std::to_string(steps) + " operations under failures");
    }
    H_CHECK(SmallVal::alive == 0 && BigVal::alive == 0, SmallVal::alive << " and " << BigVal::alive << " values are left at the end");
    H_CHECK(Base::alive == 0, "objects left at the end");
}
