// C03: token list histories (sequence + cursor) against a model.
#include "anyval.hpp"
#include "NeoFOAM/core/input.hpp"
#include <algorithm>
using namespace AV;
using NeoFOAM::TokenList;

namespace
{
struct Model
{
    std::vector<std::any> v;
    std::size_t next = 0;
};
std::string serM(const std::vector<std::any>& v)
{
    std::string s = "[";
    for (auto& x : v) s += ser(x) + ",";
    return s + "]";
}
enum class Out
{
    Ok,
    Range,
    Cast
};
template<typename T>
std::pair<Out, std::string> attempt(const std::function<const T&()>& f)
{
    CaptureErr e;
    try
    {
        const T& x = f();
        return {Out::Ok, ser(std::any(x))};
    }
    catch (const std::bad_any_cast&)
    {
        H_CHECK(!e.str().empty(), "a mistyped read is not reported");
        return {Out::Cast, ""};
    }
    catch (const std::out_of_range&)
    {
        H_CHECK(!e.str().empty(), "a read past the end is not reported");
        return {Out::Range, ""};
    }
}
template<typename T>
std::pair<Out, std::string> expected(const std::vector<std::any>& v, std::size_t i)
{
    if (i >= v.size()) return {Out::Range, ""};
    if (v[i].type() != typeid(T)) return {Out::Cast, ""};
    return {Out::Ok, ser(v[i])};
}
const char* nm(Out o) { return o == Out::Ok ? "value" : o == Out::Range ? "out_of_range" : "bad_any_cast"; }
template<typename T>
void oneNext(H::Rng& r, TokenList& t, Model& m)
{
    auto want = expected<T>(m.v, m.next);
    const TokenList& ct = t;
    bool cst = r.chance(0.5);
    auto got = cst ? attempt<T>([&]() -> const T& { return ct.next<T>(); })
                   : attempt<T>([&]() -> const T& { return t.next<T>(); });
    H_CHECK(
        got == want,
        (cst ? "const " : "") << "next() at position " << m.next << " of " << serM(m.v) << " gave " << nm(got.first) << " "
                              << got.second << ", expected " << nm(want.first) << " " << want.second
    );
    if (want.first == Out::Ok) m.next++;
    H::count(want.first == Out::Ok ? "successful sequential reads" : "failed sequential reads");
}
template<typename T>
void oneGet(H::Rng& r, TokenList& t, Model& m, std::size_t i)
{
    auto want = expected<T>(m.v, i);
    const TokenList& ct = t;
    auto got = r.chance(0.5) ? attempt<T>([&]() -> const T& { return ct.get<T>(i); })
                             : attempt<T>([&]() -> const T& { return t.get<T>(i); });
    H_CHECK(got == want, "get(" << i << ") of " << serM(m.v) << " gave " << nm(got.first) << " " << got.second);
    if (want.first == Out::Ok)
        H_CHECK(&t.get<T>(i) == std::any_cast<T>(&t.tokens()[i]), "get returns a reference to something else");
}
template<typename T>
bool popT(TokenList& t, Model& m)
{
    auto want = expected<T>(m.v, 0);
    CaptureErr e;
    try
    {
        T x = t.popFront<T>();
        H_CHECK(want.first == Out::Ok, "popFront gave a value instead of " << nm(want.first));
        H_CHECK(ser(std::any(x)) == want.second, "popFront gave " << ser(std::any(x)) << " not " << want.second);
        m.v.erase(m.v.begin());
        return true;
    }
    catch (const std::bad_any_cast&)
    {
        H_CHECK(want.first == Out::Cast, "popFront threw bad_any_cast");
    }
    catch (const std::out_of_range&)
    {
        H_CHECK(want.first == Out::Range, "popFront threw out_of_range");
    }
    return false;
}
struct Pair
{
    TokenList t;
    Model m;
};
struct ReadD
{
    std::string a;
    int b;
    static ReadD read(const NeoFOAM::Dictionary& d) { return {d.get<std::string>("a"), d.get<int>("b")}; }
    static ReadD read(const TokenList& t)
    {
        std::string a = t.next<std::string>();
        return {a, t.next<int>()};
    }
};
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    {
        std::vector<Pair> p;
        int np = 1 + (int)r.below(3);
        for (int i = 0; i < np; ++i)
        {
            std::vector<std::any> v;
            int kind = (int)r.below(4);
            std::size_t n = r.below(kind == 3 ? 40 : 6);
            if (r.chance(0.01) || (i == 0 && c.index % 500 == 7))
            {
                // a long list, read from end to end
                n = 200 + r.below(c.thorough ? 20000 : 1500);
                if (c.index % 500 == 7 || r.chance(0.03)) n = 65536 + r.below(300);
                std::vector<std::any> l;
                for (std::size_t k = 0; k < n; ++k) l.push_back((int)k);
                TokenList a(l), b({});
                for (auto& x : l) b.insert(x);
                for (std::size_t k = 0; k < n; ++k)
                {
                    H_CHECK(a.next<int>() == (int)k, "token " << k << " of " << n << " read in sequence");
                    H_CHECK(std::as_const(b).next<int>() == (int)k, "token " << k << " of " << n << " read in sequence");
                }
                CaptureErr quiet;
                H_THROWS(a.next<int>(), std::out_of_range, "reading past the end");
                n = 3;
                H::count("long lists read from end to end");
            }
            for (std::size_t k = 0; k < n; ++k) v.push_back(rndToken(r));
            std::size_t start = 0;
            if (kind == 0)
            {
                Pair q {TokenList(), Model {}};
                for (auto& x : v) q.t.insert(x);
                q.m.v = v;
                p.push_back(q);
            }
            else if (kind == 1)
            {
                std::any a = rndValue(r, 9), b = rndValue(r, 0), d = rndValue(r, 8);
                p.push_back(Pair {TokenList({a, b, d}), Model {{a, b, d}, 0}});
            }
            else
            {
                start = r.chance(0.5) ? 0 : r.chance(0.9) ? r.below(n + 2) : (std::size_t(1) << (8 * (1 + r.below(7)))) + r.below(2);
                p.push_back(Pair {TokenList(v, start), Model {v, start}});
            }
        }
        int steps = c.thorough ? 300 : 100;
        for (int n = 0; n < steps; ++n)
        {
            std::size_t i = r.below(p.size());
            auto& t = p[i].t;
            auto& m = p[i].m;
            int op = (int)r.below(13);
            H::sig((uint64_t)op * 7 + i);
            H::count("operations");
            switch (op)
            {
            case 0:
            case 1:
            {
                std::any v = rndToken(r);
                t.insert(v);
                m.v.push_back(v);
                break;
            }
            case 2:
                if (!m.v.empty() && r.chance(0.6))
                {
                    std::size_t k = r.below(m.v.size());
                    t.remove(k);
                    m.v.erase(m.v.begin() + (long)k);
                }
                break;
            case 3:
            {
                // pop with the right type mostly
                auto ti = m.v.empty() ? std::type_index(typeid(int)) : std::type_index(m.v[0].type());
                if (r.chance(0.25)) ti = typeid(double);
                if (ti == typeid(int)) popT<int>(t, m);
                else if (ti == typeid(double)) popT<double>(t, m);
                else if (ti == typeid(std::string)) popT<std::string>(t, m);
                else if (ti == typeid(std::size_t)) popT<std::size_t>(t, m);
                else if (ti == typeid(Tracked)) popT<Tracked>(t, m);
                else if (ti == typeid(bool)) popT<bool>(t, m);
                else if (ti == typeid(TokenList)) popT<TokenList>(t, m);
                else if (ti == typeid(NeoFOAM::Dictionary)) popT<NeoFOAM::Dictionary>(t, m);
                else if (ti == typeid(std::vector<double>)) popT<std::vector<double>>(t, m);
                else popT<long>(t, m);
                break;
            }
            case 4:
            case 5:
            case 6:
            {
                auto ti = m.next >= m.v.size() ? std::type_index(typeid(int)) : std::type_index(m.v[m.next].type());
                if (r.chance(0.3)) ti = r.chance(0.5) ? std::type_index(typeid(double)) : std::type_index(typeid(std::string));
                if (ti == typeid(int)) oneNext<int>(r, t, m);
                else if (ti == typeid(double)) oneNext<double>(r, t, m);
                else if (ti == typeid(float)) oneNext<float>(r, t, m);
                else if (ti == typeid(std::string)) oneNext<std::string>(r, t, m);
                else if (ti == typeid(std::size_t)) oneNext<std::size_t>(r, t, m);
                else if (ti == typeid(long)) oneNext<long>(r, t, m);
                else if (ti == typeid(unsigned)) oneNext<unsigned>(r, t, m);
                else if (ti == typeid(short)) oneNext<short>(r, t, m);
                else if (ti == typeid(bool)) oneNext<bool>(r, t, m);
                else if (ti == typeid(char)) oneNext<char>(r, t, m);
                else if (ti == typeid(const char*)) oneNext<const char*>(r, t, m);
                else if (ti == typeid(Tracked)) oneNext<Tracked>(r, t, m);
                else if (ti == typeid(Big)) oneNext<Big>(r, t, m);
                else if (ti == typeid(Small)) oneNext<Small>(r, t, m);
                else if (ti == typeid(MapType)) oneNext<MapType>(r, t, m);
                else if (ti == typeid(std::vector<double>)) oneNext<std::vector<double>>(r, t, m);
                else if (ti == typeid(TokenList)) oneNext<TokenList>(r, t, m);
                else if (ti == typeid(NeoFOAM::Dictionary)) oneNext<NeoFOAM::Dictionary>(r, t, m);
                else if (ti == typeid(long long)) oneNext<long long>(r, t, m);
                else if (ti == typeid(unsigned char)) oneNext<unsigned char>(r, t, m);
                else oneNext<std::vector<std::string>>(r, t, m);
                break;
            }
            case 7:
            {
                std::size_t k = r.below(m.v.size() + 2);
                if (k < m.v.size() && m.v[k].type() == typeid(double)) oneGet<double>(r, t, m, k);
                else if (k < m.v.size() && m.v[k].type() == typeid(std::string)) oneGet<std::string>(r, t, m, k);
                else oneGet<int>(r, t, m, k);
                if (r.chance(0.1)) oneGet<int>(r, t, m, (std::size_t)-1);
                break;
            }
            case 8:
            {
                // copies keep contents and position, and are independent
                std::size_t j = r.below(p.size());
                TokenList q(t);
                Model qm = m;
                q.insert(std::any(1));
                qm.v.push_back(1);
                oneNext<int>(r, q, qm);
                if (!qm.v.empty())
                {
                    q.remove(0);
                    qm.v.erase(qm.v.begin());
                }
                H_CHECK(serM(q.tokens()) == serM(qm.v), "copied list");
                if (r.chance(0.5))
                {
                    p[j].t = q;
                    p[j].m = qm;
                }
                else if (r.chance(0.3))
                {
                    std::any a(q); // stored and fetched as a value
                    p[j].t = std::any_cast<TokenList&>(a);
                    p[j].m = qm;
                }
                break;
            }
            case 9:
                if (!m.v.empty())
                {
                    std::size_t k = r.below(m.v.size());
                    std::any v = rndValue(r, (int)r.below(10));
                    t.tokens()[k] = v;
                    m.v[k] = v;
                }
                break;
            case 10:
                if (!m.v.empty())
                {
                    std::size_t k = r.below(m.v.size());
                    if (m.v[k].type() == typeid(int))
                    {
                        t.get<int>(k) = 4711;
                        m.v[k] = 4711;
                    }
                }
                break;
            case 11:
            {
                if (!r.chance(0.15)) break;
                std::string a = r.word();
                int b = (int)r.below(1000);
                NeoFOAM::Dictionary d;
                d.insert("a", a);
                d.insert("b", b);
                TokenList l({std::any(a), std::any(b)});
                auto x = NeoFOAM::read<ReadD>(NeoFOAM::Input(d));
                auto y = NeoFOAM::read<ReadD>(NeoFOAM::Input(l));
                H_CHECK(x.a == a && x.b == b && y.a == a && y.b == b, "reading from a dictionary or token list");
                auto z = NeoFOAM::read<ReadD>(NeoFOAM::Input(l)); // the input was copied: readable again
                H_CHECK(z.a == a && z.b == b, "reading the same input twice");
                break;
            }
            default:
                switch (r.below(5))
                {
                case 0:
                    if (m.v.empty() || m.v.size() > 200) break;
                    {
                        // a token of the list itself is appended (the storage may move meanwhile)
                        std::size_t k = r.below(m.v.size());
                        std::any v = m.v[k];
                        t.insert(t.tokens()[k]);
                        m.v.push_back(v);
                        H::count("tokens of the list itself appended");
                    }
                    break;
                case 1:
                    if (m.next < m.v.size() && m.v[m.next].type() == typeid(int))
                    {
                        // what next() hands out is the stored token
                        t.next<int>() = 1147;
                        m.v[m.next] = 1147;
                        m.next++;
                    }
                    break;
                case 2:
                {
                    const TokenList& self = t;
                    t = self;
                    break;
                }
                case 3:
                {
                    // positions at which a wrong type was asked for are not lost, however often
                    if (m.next >= m.v.size() || m.v[m.next].type() == typeid(DerivedDict)) break;
                    for (std::size_t k = 0; k < 1 + r.below(4); ++k) oneNext<DerivedDict>(r, t, m);
                    break;
                }
                default:
                    // reads beyond the end
                    if (m.next >= m.v.size())
                    {
                        oneNext<int>(r, t, m);
                        oneNext<std::string>(r, t, m);
                    }
                }
            }
            H_CHECK(t.size() == m.v.size() && t.empty() == m.v.empty(), "size " << t.size() << " for " << m.v.size() << " tokens");
            std::string s = serM(m.v);
            H_CHECK(serM(t.tokens()) == s, "after operation " << op << " tokens are " << serM(t.tokens()) << " not " << s);
            H::seen("list states", hashStr(s) + m.next);
            for (std::size_t j = 0; j < p.size(); ++j)
                if (j != i) H_CHECK(p[j].t.size() == p[j].m.v.size(), "another list changed");
        }
        if (c.index < 3) H::sample("final list " + serM(p[0].m.v).substr(0, 150) + " cursor " + std::to_string(p[0].m.next));
    }
    H_CHECK(liveTracked == 0, liveTracked.load() << " tokens leaked or destroyed twice");
}
