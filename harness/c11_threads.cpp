// C11: objects of different threads do not disturb each other, and shared objects can be read from any thread.
// Every script runs alone and together with others; its record must be the same (and the race monitor silent).
#include "collections.hpp"
#include "NeoFOAM/core/demangle.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/core/view.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <algorithm>
#include <barrier>
#include <thread>
using namespace TC;
using H::Rng;
using NeoFOAM::StencilDataBase;
using NeoFOAM::TokenList;

namespace
{
std::atomic<long> liveParts {0};
using PartParams = NeoFOAM::Parameters<const std::string&, int>;
struct Part : public NeoFOAM::RuntimeSelectionFactory<Part, PartParams>
{
    Part(const std::string& s, int i) : text(s), num(i) { liveParts++; }
    virtual ~Part() { liveParts--; }
    static std::string name() { return "C11Part"; }
    virtual std::string what() const = 0;
    std::string text;
    int num;
};
template<int N>
struct PartN : public Part::Register<PartN<N>>
{
    PartN(const std::string& s, int i) : Part::Register<PartN<N>>(s, i) {}
    static std::string name() { return "part" + std::to_string(N); }
    static std::string doc() { return "documentation of part " + std::to_string(N); }
    static std::string schema() { return "schema " + std::to_string(N); }
    std::string what() const override { return name() + "(" + this->text + "," + std::to_string(this->num) + ")"; }
};
} // namespace
template class NeoFOAM::RuntimeSelectionFactory<Part, PartParams>::Register<PartN<0>>;
template class NeoFOAM::RuntimeSelectionFactory<Part, PartParams>::Register<PartN<1>>;
template class NeoFOAM::RuntimeSelectionFactory<Part, PartParams>::Register<PartN<2>>;
template class NeoFOAM::RuntimeSelectionFactory<Part, PartParams>::Register<PartN<3>>;
namespace
{
// a sink without a state: messages of failing accesses go nowhere while threads are running
struct Sink : std::streambuf
{
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet
{
    Sink sink;
    std::streambuf *err, *out;
    Quiet() : err(std::cerr.rdbuf(&sink)), out(std::cout.rdbuf(&sink)) {}
    ~Quiet()
    {
        std::cerr.rdbuf(err);
        std::cout.rdbuf(out);
    }
};
using Log = std::vector<std::string>;
template<typename F>
std::string tried(F f)
{
    try
    {
        return f();
    }
    catch (const std::out_of_range&)
    {
        return "out_of_range";
    }
    catch (const std::bad_any_cast&)
    {
        return "bad_any_cast";
    }
    catch (const std::bad_cast&)
    {
        return "bad_cast";
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        return std::string("NeoFOAMException ") + e.what();
    }
    catch (const std::exception& e)
    {
        return std::string("exception ") + e.what();
    }
}
std::string join(std::vector<std::string> v, bool sort = true)
{
    if (sort) std::sort(v.begin(), v.end());
    std::string s;
    for (auto& x : v) s += lenStr(x) + ",";
    return s;
}
std::string noId(const Document& d)
{
    std::string s;
    std::map<std::string, std::string> o;
    for (auto& [k, v] : d.getMap()) o[k] = ser(v);
    for (auto& [k, v] : o) s += lenStr(k) + "=" + v + ";";
    return s;
}
// ------------------------------------------------------------------- own objects
void dictionaries(Rng& r, Log& log, int n)
{
    Dictionary d, e;
    for (int i = 0; i < n; ++i)
    {
        auto k = r.chance(0.7) ? "k" + std::to_string(r.below(8)) : rndKey(r);
        switch (r.below(10))
        {
        case 0:
        case 1:
        case 2: d.insert(k, rndValue(r)); break;
        case 3:
        {
            Dictionary s;
            s.insert(k, rndValue(r));
            s.insert("n", i);
            d.insert(k, s);
            break;
        }
        case 4: log.push_back(tried([&] { return std::to_string(d.get<int>(k)); })); break;
        case 5: log.push_back(tried([&] { return ser(std::as_const(d)[k]); })); break;
        case 6: log.push_back(tried([&] { return ser(d.subDict(k)); })); break;
        case 7:
            if (d.contains(k)) d.remove(k);
            break;
        case 8: e = d; break;
        default: log.push_back(join(d.keys()) + (d.isDict(k) ? "dict" : "") + (d.contains(k) ? "has" : "")); break;
        }
    }
    log.push_back(ser(d));
    log.push_back(ser(e));
}
void tokens(Rng& r, Log& log, int n)
{
    TokenList t;
    for (int i = 0; i < n; ++i)
    {
        switch (r.below(7))
        {
        case 0:
        case 1: t.insert(r.below(1000) > 500 ? std::any(i) : std::any(r.word(12))); break;
        case 2: log.push_back(tried([&] { return std::to_string(t.next<int>()); })); break;
        case 3: log.push_back(tried([&] { return t.next<std::string>(); })); break;
        case 4: log.push_back(tried([&] { return std::to_string(t.popFront<int>()); })); break;
        case 5: log.push_back(tried([&] { return t.get<std::string>(r.below(6)); })); break;
        default:
        {
            TokenList u(t);
            log.push_back(std::to_string(u.size()) + tried([&] { return u.popFront<std::string>(); }));
        }
        }
    }
    log.push_back(std::to_string(t.size()));
    for (auto& x : t.tokens()) log.push_back(ser(x));
}
void documents(Rng& r, Log& log, int n)
{
    for (int i = 0; i < n / 4; ++i)
    {
        int limit = (int)r.below(100);
        auto ok = [limit](Dictionary d) { return d.contains("v") && d.get<int>("v") < limit; };
        Dictionary c({{"name", r.word(9)}, {"v", (int)r.below(100)}, {"id", r.word(7)}});
        c.insert(rndKey(r), rndValue(r));
        log.push_back(tried([&] {
            Document d(c, ok);
            std::string s = d.id() + name(d) + noId(d);
            d.insert("v", (int)r.below(100));
            s += tried([&] { return std::string(d.validate() ? "valid" : "?"); });
            Document f(d);
            f.insert("id2", 1);
            return s + noId(d) + noId(f);
        }));
    }
    Document fresh;
    log.push_back(fresh.contains("id") && fresh.id().size() ? "id" : "no id");
}
void collections(Rng& r, Log& log, int n)
{
    Database db;
    std::vector<std::string> ids;
    for (int i = 0; i < n; ++i)
    {
        std::string k = "col" + std::to_string(r.below(5));
        switch (r.below(8))
        {
        case 0: db.insert(k, Collection(MixA(db, k))); break;
        case 1: db.insert(k, Collection(Own(db, k))); break;
        case 2:
        case 3:
            log.push_back(tried([&] {
                auto& c = db.at(k);
                std::string id = "d" + std::to_string(r.below(30));
                Document d(Dictionary({{"id", id}, {"name", r.word(5)}, {"v", i}}));
                if (c.type().rfind("Own", 0) == 0) return c.as<Own>().insert(d);
                return c.as<MixA>().insert(d);
            }));
            break;
        case 4:
            log.push_back(tried([&] {
                auto v = std::as_const(db).at(k).find([&](const Document& d) { return d.get<int>("v") % 2 == 0; });
                return join(v);
            }));
            break;
        case 5: log.push_back(tried([&] { return noId(db.at(k).doc("d" + std::to_string(r.below(30)))); })); break;
        case 6: log.push_back(db.remove(k) ? "removed" : "not there"); break;
        default: log.push_back(tried([&] { return std::to_string(db.size()) + db.at(k).name() + join(db.at(k).as<MixA>().sortedKeys(), false); }));
        }
    }
}
void stencils(Rng& r, Log& log, int n)
{
    StencilDataBase s;
    for (int i = 0; i < n; ++i)
    {
        std::string k = "s" + std::to_string(r.below(12));
        switch (r.below(4))
        {
        case 0: s.insert(k, i); break;
        case 1: s.insert(k, r.word(20)); break;
        case 2: log.push_back(tried([&] { return std::to_string(s.get<int>(k)); })); break;
        default: log.push_back(s.contains(k) ? "has" + tried([&] { return std::as_const(s).get<std::string>(k); }) : "no");
        }
    }
}
void parts(Rng& r, Log& log, int n)
{
    std::vector<std::unique_ptr<Part>> own;
    for (int i = 0; i < n; ++i)
    {
        switch (r.below(6))
        {
        case 0:
        case 1:
        case 2:
        {
            std::string key = "part" + std::to_string(r.below(4));
            auto p = Part::create(key, r.word(18), i);
            log.push_back(p->what());
            own.push_back(std::move(p));
            break;
        }
        case 3:
            if (own.size()) own.erase(own.begin() + (long)r.below(own.size()));
            break;
        case 4:
        {
            log.push_back(join(Part::entries()) + std::to_string(Part::size()));
            break;
        }
        default:
        {
            std::ostringstream o;
            Part::print(o);
            log.push_back(std::to_string(o.str().size()));
            std::string key = "part" + std::to_string(r.below(4));
            log.push_back(Part::docTable().at(key).doc() + Part::docTable().at(key).schema());
        }
        }
    }
}
struct FromInput
{
    std::string text;
    static FromInput read(const Dictionary& d) { return {"dict:" + d.get<std::string>("text")}; }
    static FromInput read(const TokenList& t) { return {"tokens:" + t.get<std::string>(0)}; }
};
void misc(Rng& r, Log& log, int n)
{
    for (int i = 0; i < n; ++i)
    {
        switch (r.below(6))
        {
        case 0: log.push_back(NeoFOAM::demangle(typeid(std::map<std::string, std::vector<Tracked>>).name())); break;
        case 1: log.push_back(NeoFOAM::demangle(typeid(PartN<2>).name()) + NeoFOAM::demangle("not a type")); break;
        case 2:
        {
            int v = (int)r.below(3);
            log.push_back(tried([&] {
                NF_ASSERT_THROW(v == 0, "value " << v << " of step " << i);
                return std::string("fine");
            }));
            break;
        }
        case 3: log.push_back(tried([&]() -> std::string { NF_THROW("step " << i << " says " << r.word(10)); })); break;
        case 4:
        {
            Dictionary d;
            d.insert("text", r.word(15));
            TokenList t({r.word(15)});
            log.push_back(NeoFOAM::read<FromInput>(NeoFOAM::Input(d)).text + NeoFOAM::read<FromInput>(NeoFOAM::Input(t)).text);
            break;
        }
        default:
        {
            std::vector<int> v(1 + r.below(20));
            NeoFOAM::View<int> w(v.data(), v.size());
            for (std::size_t k = 0; k < v.size(); ++k) w[k] = (int)r.below(100);
            auto sub = w.subspan(v.size() / 2);
            int s = 0;
            for (auto x : sub) s += x;
            for (std::size_t k = v.size() / 2; k < v.size(); ++k) s -= v[k];
            log.push_back(std::to_string(s));
        }
        }
    }
}
using Script = void (*)(Rng&, Log&, int);
const Script scripts[] = {dictionaries, tokens, documents, collections, stencils, parts, misc};
const char* scriptName[] = {"dictionaries", "token lists", "documents", "collections", "stencil caches", "factories", "names, errors, inputs and views"};
constexpr int nScripts = 7;

// ------------------------------------------------------------------- shared objects, read only
struct Shared
{
    Dictionary dict;
    TokenList list;
    std::unique_ptr<Document> doc;
    Database db;
    StencilDataBase sten;
    explicit Shared(Rng& r)
    {
        for (int i = 0; i < 20; ++i) dict.insert("k" + std::to_string(i), rndValue(r));
        Dictionary sub;
        for (int i = 0; i < 6; ++i) sub.insert("k" + std::to_string(i), rndValue(r));
        dict.insert("sub", sub);
        for (int i = 0; i < 12; ++i) list.insert(r.chance(0.5) ? std::any(i) : std::any(r.word(20)));
        doc = std::make_unique<Document>(Dictionary({{"name", r.word(30)}, {"id", std::string("x")}, {"v", 3}}), [](Dictionary d) { return d.contains("v"); });
        for (int c = 0; c < 3; ++c)
        {
            std::string k = "col" + std::to_string(c);
            auto& col = db.insert(k, c == 0 ? Collection(Own(db, k)) : Collection(MixA(db, k)));
            for (int i = 0; i < 10; ++i)
            {
                Document d(Dictionary({{"id", "d" + std::to_string(i)}, {"name", r.word(12)}, {"v", (int)r.below(100)}}));
                if (c == 0) col.as<Own>().insert(d);
                else col.as<MixA>().insert(d);
            }
        }
        for (int i = 0; i < 10; ++i)
        {
            if (r.chance(0.5)) sten.insert("s" + std::to_string(i), i);
            else sten.insert("s" + std::to_string(i), r.word(25));
        }
    }
};
void readShared(const Shared& s, Rng& r, Log& log, int n)
{
    for (int i = 0; i < n; ++i)
    {
        std::string k = "k" + std::to_string(r.below(24)), col = "col" + std::to_string(r.below(4)), id = "d" + std::to_string(r.below(12));
        switch (r.below(10))
        {
        case 0: log.push_back(tried([&] { return ser(s.dict[k]); })); break;
        case 1: log.push_back(tried([&] { return lenStr(s.dict.get<std::string>(k)); })); break;
        case 2: log.push_back(join(s.dict.keys()) + (s.dict.contains(k) ? "has" : "") + (s.dict.isDict(k) ? "dict" : "")); break;
        case 3: log.push_back(tried([&] { return ser(s.dict.subDict("sub")[k]); })); break;
        case 4: log.push_back(std::to_string(s.list.size()) + tried([&] { return lenStr(s.list.get<std::string>(r.below(14))); })); break;
        case 5:
        {
            Dictionary copy(s.dict);
            copy.insert(k, i);
            TokenList l(s.list);
            log.push_back(ser(copy) + tried([&] { return lenStr(l.popFront<std::string>()); }));
            break;
        }
        case 6: log.push_back(s.doc->id() + name(*s.doc) + (s.doc->validate() ? "valid" : "")); break;
        case 7: log.push_back(tried([&] { return join(s.db.at(col).find([&](const Document& d) { return d.get<int>("v") > 40; })); })); break;
        case 8: log.push_back(tried([&] { return std::to_string(s.db.size()) + s.db.at(col).type() + s.db.at(col).name() + std::to_string(s.db.at(col).size()) + noId(s.db.at(col).doc(id)) + join(s.db.at(col).as<MixA>().sortedKeys(), false); })); break;
        default:
        {
            std::string q = "s" + std::to_string(r.below(12));
            log.push_back((s.sten.contains(q) ? "has" : "no") + tried([&] { return std::to_string(s.sten.get<int>(q)); }) + tried([&] { return lenStr(s.sten.get<std::string>(q)); }));
        }
        }
    }
}
// runs the scripts together and, before or after, one by one
void compare(H::Ctx& c, const std::vector<std::function<void(Log&)>>& fs, const std::vector<std::string>& names)
{
    auto& r = c.rng;
    std::size_t nt = fs.size();
    std::vector<Log> alone(nt), together(nt);
    bool first = r.chance(0.5);
    auto oneByOne = [&] {
        Quiet q;
        for (std::size_t t = 0; t < nt; ++t) fs[t](alone[t]);
    };
    if (!first) oneByOne();
    {
        Quiet q;
        std::barrier start((std::ptrdiff_t)nt);
        std::vector<std::thread> th;
        for (std::size_t t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                start.arrive_and_wait();
                fs[t](together[t]);
            });
        for (auto& t : th) t.join();
    }
    if (first) oneByOne();
    for (std::size_t t = 0; t < nt; ++t)
    {
        H_CHECK(alone[t].size() == together[t].size(), names[t] << ": " << together[t].size() << " records with other threads, " << alone[t].size() << " alone");
        for (std::size_t i = 0; i < alone[t].size(); ++i)
            H_CHECK(alone[t][i] == together[t][i], names[t] << ": record " << i << " is '" << together[t][i].substr(0, 200) << "' with other threads, '" << alone[t][i].substr(0, 200) << "' alone");
        H::count("records compared", alone[t].size());
    }
    H::count("scripts run concurrently", nt);
}
} // namespace

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    int n = c.thorough ? 120 : 50;
    {
        std::size_t nt = 2 + r.below(7);
        bool same = r.chance(0.5); // the same kind of work everywhere, or a mixture
        auto kind = r.below(nScripts);
        std::vector<std::function<void(Log&)>> fs;
        std::vector<std::string> names;
        for (std::size_t t = 0; t < nt; ++t)
        {
            auto k = same ? kind : r.below(nScripts);
            auto seed = r.next();
            H::sig(k);
            H::sig(seed);
            names.push_back(std::string(scriptName[k]) + " of thread " + std::to_string(t) + " of " + std::to_string(nt));
            fs.push_back([=](Log& log) {
                Rng q(seed);
                scripts[k](q, log, n);
            });
        }
        compare(c, fs, names);
        H_CHECK(liveParts == 0, liveParts << " created objects are left");
        H_CHECK(liveTracked == 0, liveTracked << " stored values are left");
    }
    {
        Shared s(r);
        std::size_t nt = 2 + r.below(7);
        std::vector<std::function<void(Log&)>> fs;
        std::vector<std::string> names;
        for (std::size_t t = 0; t < nt; ++t)
        {
            auto seed = r.next();
            names.push_back("reader " + std::to_string(t) + " of " + std::to_string(nt));
            fs.push_back([=, &s](Log& log) {
                Rng q(seed);
                readShared(s, q, log, n);
            });
        }
        compare(c, fs, names);
        H::count("shared readers", nt);
    }
    H_CHECK(liveTracked == 0, liveTracked << " stored values are left");
}
