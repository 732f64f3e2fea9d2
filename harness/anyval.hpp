// Random typed values, their canonical serialisation and an independent dictionary model.
#pragma once
#include "nfh.hpp"

#include <any>
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <typeindex>
#include <unordered_map>

#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"

namespace AV
{
inline std::atomic<long> liveTracked {0};
// instance-counted value: detects leaks, double destruction and use after destruction
struct Tracked
{
    int v = 0;
    uint32_t magic = 0x7ac3ed00;
    std::unique_ptr<int> heap;
    explicit Tracked(int x = 0) : v(x), heap(std::make_unique<int>(x)) { liveTracked++; }
    Tracked(const Tracked& o) : v(o.v), heap(std::make_unique<int>(o.v))
    {
        o.alive();
        liveTracked++;
    }
    Tracked(Tracked&& o) noexcept : v(o.v), heap(std::make_unique<int>(o.v)) { liveTracked++; }
    Tracked& operator=(const Tracked& o)
    {
        alive();
        o.alive();
        v = o.v;
        heap = std::make_unique<int>(o.v);
        return *this;
    }
    ~Tracked()
    {
        alive();
        magic = 0xdead;
        liveTracked--;
    }
    void alive() const
    {
        if (magic != 0x7ac3ed00) H::fail("use of a destroyed value", __FILE__, __LINE__);
    }
};
struct Big
{
    std::array<double, 40> a {};
};
struct Small
{
    char c = 0;
};
using MapType = std::map<std::string, int>;
// derived from Dictionary, but another type
struct DerivedDict : NeoFOAM::Dictionary
{
    using NeoFOAM::Dictionary::Dictionary;
};

struct MDict; // model dictionary
struct MVal
{
    std::any a;
};
struct MDict
{
    std::map<std::string, std::any> m;
};

inline std::string bits(double d)
{
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)std::bit_cast<uint64_t>(d));
    return b;
}
inline std::string lenStr(const std::string& s) { return std::to_string(s.size()) + "'" + s + "'"; }

inline std::string ser(const std::any& a);
inline std::string ser(const NeoFOAM::Dictionary& d)
{
    std::map<std::string, std::string> o;
    for (const auto& [k, v] : d.getMap()) o[k] = ser(v);
    std::string s = "{";
    for (auto& [k, v] : o) s += lenStr(k) + "=" + v + ";";
    return s + "}";
}
inline std::string ser(const MDict& d)
{
    std::string s = "{";
    for (auto& [k, v] : d.m) s += lenStr(k) + "=" + ser(v) + ";";
    return s + "}";
}
inline std::string ser(const std::any& a)
{
    if (!a.has_value()) return "none";
    const auto& t = a.type();
#define NFV_SER(T, EXPR)                                                                           \
    if (t == typeid(T))                                                                            \
    {                                                                                              \
        const std::add_const_t<T>& x = *std::any_cast<T>(&a);                                                       \
        (void)x;                                                                                   \
        return std::string(#T ":") + (EXPR);                                                       \
    }
    NFV_SER(int, std::to_string(x))
    NFV_SER(long, std::to_string(x))
    NFV_SER(unsigned, std::to_string(x))
    NFV_SER(std::size_t, std::to_string(x))
    NFV_SER(short, std::to_string(x))
    NFV_SER(bool, std::to_string(x))
    NFV_SER(char, std::to_string((int)x))
    NFV_SER(float, bits((double)x))
    NFV_SER(double, bits(x))
    NFV_SER(std::string, lenStr(x))
    NFV_SER(const char*, lenStr(x))
    NFV_SER(long long, std::to_string(x))
    NFV_SER(unsigned char, std::to_string((int)x))
    NFV_SER(std::nullptr_t, std::string("null"))
    if (t == typeid(Tracked))
    {
        const auto& x = *std::any_cast<Tracked>(&a);
        x.alive();
        return "Tracked:" + std::to_string(x.v) + "," + std::to_string(*x.heap);
    }
    if (t == typeid(Small)) return "Small:" + std::to_string(std::any_cast<Small>(&a)->c);
    if (t == typeid(Big))
    {
        std::string s = "Big:";
        for (double d : std::any_cast<Big>(&a)->a) s += bits(d);
        return s;
    }
    if (t == typeid(std::vector<double>))
    {
        std::string s = "vec:";
        for (double d : *std::any_cast<std::vector<double>>(&a)) s += bits(d) + ",";
        return s;
    }
    if (t == typeid(std::vector<std::string>))
    {
        std::string s = "svec:";
        for (auto& d : *std::any_cast<std::vector<std::string>>(&a)) s += lenStr(d) + ",";
        return s;
    }
    if (t == typeid(MapType))
    {
        std::string s = "map:";
        for (auto& [k, v] : *std::any_cast<MapType>(&a)) s += lenStr(k) + ":" + std::to_string(v) + ",";
        return s;
    }
    if (t == typeid(std::shared_ptr<int>))
        return "sp:" + std::to_string(**std::any_cast<std::shared_ptr<int>>(&a));
    if (t == typeid(DerivedDict)) return "derived:" + ser(static_cast<const NeoFOAM::Dictionary&>(*std::any_cast<DerivedDict>(&a)));
    if (t == typeid(NeoFOAM::Dictionary)) return ser(*std::any_cast<NeoFOAM::Dictionary>(&a));
    if (t == typeid(MDict)) return ser(*std::any_cast<MDict>(&a));
    if (t == typeid(NeoFOAM::TokenList))
    {
        NeoFOAM::TokenList c(*std::any_cast<NeoFOAM::TokenList>(&a));
        std::string s = "tl:";
        for (auto& x : c.tokens()) s += ser(x) + ",";
        return s;
    }
    return std::string("?") + t.name();
}

inline std::string rndString(H::Rng& r)
{
    switch (r.below(6))
    {
    case 0:
        return "";
    case 1:
        return std::string(r.below(80), (char)('a' + r.below(26)));
    case 2:
    {
        std::string s = "a\0b";
        s.push_back('\0');
        s += (char)r.below(256);
        return s;
    }
    default:
        return r.word(12);
    }
}
inline double rndDouble(H::Rng& r)
{
    switch (r.below(10))
    {
    case 0:
        return 0.0;
    case 1:
        return -0.0;
    case 2:
        return std::numeric_limits<double>::quiet_NaN();
    case 3:
        return -std::numeric_limits<double>::infinity();
    case 4:
        return 5e-324;
    case 5:
        return 1.7976931348623157e308;
    default:
        return r.uniform(-1e6, 1e6);
    }
}
constexpr int kKinds = 24; // all kinds
constexpr int kSimple = 17; // kinds that are not containers of values
// a random value of a random kind (never a plain dictionary)
inline std::any rndValue(H::Rng& r, int kind = -1)
{
    static const char* literals[] = {"", "lit", "a longer literal that does not fit"};
    if (kind < 0) kind = (int)r.below(kKinds);
    switch (kind)
    {
    case 0:
        return (int)r.next();
    case 1:
        return (long)r.next();
    case 2:
        return (unsigned)r.next();
    case 3:
        return (std::size_t)r.next();
    case 4:
        return (short)r.next();
    case 5:
        return r.chance(0.5);
    case 6:
        return (char)r.below(256);
    case 7:
        return (float)rndDouble(r);
    case 8:
        return rndDouble(r);
    case 9:
        return rndString(r);
    case 10:
        return literals[r.below(3)];
    case 11:
        return Tracked((int)r.below(100000));
    case 12:
    {
        Small s;
        s.c = (char)r.below(256);
        return s;
    }
    case 13:
    {
        Big b;
        for (auto& x : b.a) x = r.uniform(-1, 1);
        return b;
    }
    case 14:
    {
        std::vector<double> v(r.below(20));
        for (auto& x : v) x = rndDouble(r);
        return v;
    }
    case 15:
    {
        std::vector<std::string> v(r.below(5));
        for (auto& x : v) x = rndString(r);
        return v;
    }
    case 16:
    {
        MapType m;
        for (int i = (int)r.below(5); i > 0; --i) m[r.word()] = (int)r.below(100);
        return m;
    }
    case 17:
    {
        std::vector<std::any> t;
        for (int i = (int)r.below(4); i > 0; --i) t.push_back(rndValue(r, (int)r.below(kSimple)));
        if (r.chance(0.2)) t.push_back(NeoFOAM::Dictionary({{"in a list", 1}}));
        return NeoFOAM::TokenList(t, r.below(t.size() + 1));
    }
    case 18:
        return std::any(); // a key without value
    case 19:
        return (long long)r.next();
    case 20:
        return (unsigned char)r.next();
    case 21:
        return std::make_shared<int>((int)r.below(1000));
    case 22:
        return nullptr;
    default:
        return DerivedDict({{"x", (int)r.below(10)}});
    }
}
// a value for a token list: mostly simple, sometimes a nested list, a dictionary or nothing
inline std::any rndToken(H::Rng& r)
{
    if (r.chance(0.88)) return rndValue(r, (int)r.below(kSimple));
    if (r.chance(0.3)) return NeoFOAM::Dictionary({{"a", (int)r.below(9)}, {"b", NeoFOAM::Dictionary({{"c", 1}})}});
    return rndValue(r, kSimple + (int)r.below(kKinds - kSimple));
}
// keys: a small pool so that collisions, prefixes and re-insertion are frequent
inline std::string rndKey(H::Rng& r)
{
    static const std::vector<std::string> pool = {
        "a", "b", "c", "key", "key1", "key2", "Key", "key ", "", "id", "name", "x.y", "type", "nested",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "1", "0", "value"
    };
    static const std::vector<std::string> odd = {
        "nested/a", "nested.key", "/a", "a/", "*", ".*", "\"a\"", "$a", "#a", " a", "A", "\n", "\t", "a:b", "a=b", "ä", "-1",
        std::string("a\0", 2), std::string("a\0b", 3), std::string(1, '\0'), std::string(64, 'k') + "1", std::string(64, 'k') + "2",
        std::string(300, 'p') + "x", std::string(300, 'p') + "y", std::string(300, 'p')
    };
    if (r.chance(0.1)) return odd[r.below(odd.size())];
    if (r.chance(0.12)) return "k" + std::to_string(r.below(60));
    return pool[r.below(pool.size())];
}
// a key that looks like a path into a nested dictionary
inline std::string pathKey(H::Rng& r, const std::string& outer, const std::string& inner)
{
    static const std::vector<std::string> sep = {".", "/", ":", "::", "->", "|", " ", ",", "\\"};
    const auto& x = sep[r.below(sep.size())];
    switch (r.below(8))
    {
    case 0: return x + outer + x + inner;
    case 1: return outer + x;
    case 2: return x + inner;
    default: return outer + x + inner;
    }
}
// dictionary with the same contents as a model
inline NeoFOAM::Dictionary fromModel(const MDict& m);
inline std::any convert(const std::any& a)
{
    if (const MDict* d = std::any_cast<MDict>(&a)) return fromModel(*d);
    return a;
}
inline NeoFOAM::Dictionary fromModel(const MDict& m)
{
    NeoFOAM::Dictionary d;
    for (auto& [k, v] : m.m) d.insert(k, convert(v));
    return d;
}
inline MDict rndModel(H::Rng& r, int depth = 0)
{
    MDict m;
    for (int i = (int)r.below(6); i > 0; --i)
    {
        if (depth < 3 && r.chance(0.3)) m.m[rndKey(r)] = rndModel(r, depth + 1);
        else m.m[rndKey(r)] = rndValue(r);
    }
    return m;
}

struct CaptureErr
{
    std::ostringstream os;
    std::streambuf* old;
    CaptureErr() : old(std::cerr.rdbuf(os.rdbuf())) {}
    ~CaptureErr() { std::cerr.rdbuf(old); }
    std::string str() const { return os.str(); }
};
inline uint64_t hashStr(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
} // namespace AV
