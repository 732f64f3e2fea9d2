// C04: document identifiers: uniqueness under concurrent creation, stability over histories.
#include "anyval.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <algorithm>
#include <barrier>
#include <mutex>
#include <set>
#include <thread>
using namespace AV;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

#ifndef DOCS_PER_THREAD
#define DOCS_PER_THREAD 60
#endif

namespace
{
std::mutex gm;
std::set<std::string> allIds; // every generated id this process has ever seen
void fresh(const std::vector<std::string>& ids, const char* how)
{
    std::lock_guard<std::mutex> l(gm);
    for (auto& i : ids)
    {
        H_CHECK(!i.empty(), how << ": empty identifier");
        H_CHECK(allIds.insert(i).second, how << ": identifier '" << i << "' was generated twice");
    }
    H::count("generated identifiers", ids.size());
    H::maxi("distinct identifiers in one process", (double)allIds.size());
}
Document makeDoc(int kind, int k)
{
    switch (kind)
    {
    case 0:
        return Document();
    case 1:
        return Document(Dictionary());
    case 2:
        return Document(Dictionary({{"name", std::string("n") + std::to_string(k)}, {"v", k}}));
    default:
        return Document(
            Dictionary({{"v", k}}), [k](Dictionary d) { return d.contains("id") && d.get<int>("v") == k; }
        );
    }
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    // ---- concurrent creation
    {
        int nt = 2 + (int)r.below(7);
        int per = DOCS_PER_THREAD * (c.thorough ? 4 : 1);
        int kinds = (int)r.below(5);
        H::sig((uint64_t)nt * 10 + (uint64_t)kinds);
        H::sig(r.next());
        std::vector<std::vector<std::string>> ids((std::size_t)nt);
        std::vector<std::vector<int>> wrong((std::size_t)nt);
        std::barrier start(nt);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
        {
            uint64_t s = r.next();
            th.emplace_back(
                [&, t, s]
                {
                    H::Rng q(s);
                    auto& out = ids[(std::size_t)t];
                    out.reserve((std::size_t)per);
                    start.arrive_and_wait();
                    for (int k = 0; k < per; ++k)
                    {
                        Document d = makeDoc(kinds < 4 ? kinds : (int)q.below(4), k);
                        std::string a = d.id();
                        if (q.below(32) == 0) std::this_thread::yield();
                        if (d.id() != a || !d.contains("id")) wrong[(std::size_t)t].push_back(k);
                        out.push_back(a);
                    }
                }
            );
        }
        for (auto& t : th) t.join();
        for (auto& v : ids) fresh(v, "concurrent creation");
        for (auto& v : wrong) H_CHECK(v.empty(), "identifier changed right after creation");
        H::count("threads", (uint64_t)nt);
        if (c.index < 2)
            H::sample(std::to_string(nt) + " threads x " + std::to_string(per) + " documents, first " + ids[0][0] + ", last " + ids.back().back());
    }
    // ---- histories
    {
        struct D
        {
            Document d;
            std::string id;
            std::map<std::string, std::string> other;
        };
        std::vector<D> v;
        auto snapshot = [](const Document& d)
        {
            std::map<std::string, std::string> o;
            for (auto& [k, x] : d.getMap())
                if (k != "id") o[k] = ser(x);
            return o;
        };
        for (int n = 0; n < 60; ++n)
        {
            int op = (int)r.below(10);
            H::sig((uint64_t)op);
            if (v.empty() || op == 0)
            {
                Document d = makeDoc((int)r.below(4), n);
                fresh({d.id()}, "sequential creation");
                v.push_back({d, d.id(), snapshot(d)});
                continue;
            }
            auto& x = v[r.below(v.size())];
            switch (op)
            {
            case 1:
            {
                // a supplied identifier is kept
                std::string mine = r.chance(0.2) ? "" : r.chance(0.5) ? "doc_" + std::to_string(r.below(50)) : rndString(r);
                Dictionary dd({{"id", mine}, {"name", std::string("x")}});
                Document d = r.chance(0.5) ? Document(dd) : Document(dd, [](Dictionary) { return true; });
                H_CHECK(d.id() == mine, "supplied identifier '" << mine << "' became '" << d.id() << "'");
                H_CHECK(dd.get<std::string>("id") == mine, "source dictionary changed");
                v.push_back({d, mine, snapshot(d)});
                break;
            }
            case 2:
            {
                std::string k = rndKey(r);
                if (k == "id") break;
                x.d.insert(k, rndValue(r, (int)r.below(17)));
                x.other = snapshot(x.d);
                break;
            }
            case 3:
            {
                std::string k = rndKey(r);
                if (k == "id") break;
                x.d.remove(k);
                x.other.erase(k);
                break;
            }
            case 4:
                try
                {
                    x.d.validate();
                }
                catch (const std::exception&)
                {
                }
                break;
            case 5:
            {
                Document e(x.d);
                H_CHECK(e.id() == x.id, "copying changed the identifier from '" << x.id << "' to '" << e.id() << "'");
                e.insert("only in copy", 3);
                H_CHECK(!x.d.contains("only in copy"), "copy shares state");
                e.remove("only in copy");
                v.push_back({e, x.id, snapshot(e)});
                break;
            }
            case 6:
            {
                Document e(x.d);
                Document f(std::move(e));
                H_CHECK(f.id() == x.id, "moving changed the identifier");
                auto& y = v[r.below(v.size())];
                auto id = x.id;
                y.d = f;
                y.id = id;
                y.other = snapshot(y.d);
                H_CHECK(y.d.id() == id, "assignment changed the identifier");
                break;
            }
            case 7:
            {
                Dictionary asDict(x.d);
                H_CHECK(asDict.get<std::string>("id") == x.id, "document read as a dictionary");
                // a document made from the contents of another one keeps the identifier among them
                bool knowing = r.chance(0.5);
                Document e = knowing ? Document(asDict, [](Dictionary d) { return d.contains("id"); }) : Document(static_cast<const Dictionary&>(x.d));
                H_CHECK(e.id() == x.id && snapshot(e) == x.other, "document made from the contents of another one has identifier '" << e.id() << "' instead of '" << x.id << "'");
                // without it, a new one is made
                asDict.remove("id");
                Document f(asDict);
                fresh({f.id()}, "contents of another document without identifier");
                H_CHECK(snapshot(f) == x.other, "contents of a document made from those of another one");
                // kept and fetched as a value
                std::any a(x.d);
                H_CHECK(std::any_cast<Document&>(a).id() == x.id, "identifier of a document stored as a value");
                v.push_back({f, f.id(), x.other});
                break;
            }
            case 8:
            {
                // documents created while another one is being validated, also when that is rejected
                std::vector<std::string> ids;
                bool accept = r.chance(0.5), threw = false;
                int inner = 1 + (int)r.below(4);
                try
                {
                    Document e(
                        Dictionary({{"v", 1}}),
                        [&](Dictionary d)
                        {
                            ids.push_back(d.get<std::string>("id"));
                            for (int k = 0; k < inner; ++k) ids.push_back(makeDoc((int)((n + k) % 4), k).id());
                            return accept;
                        }
                    );
                    H_CHECK(e.id() == ids[0], "the validator was shown another identifier than the document has");
                }
                catch (const std::runtime_error&)
                {
                    threw = true;
                }
                H_CHECK(threw == !accept, "nested creation");
                fresh(ids, "creation during a validation");
                H::count("documents created during a validation", ids.size());
                break;
            }
            default:
            {
                x.d.insert("name", std::string("first"));
                H_CHECK(NeoFOAM::name(static_cast<const Document&>(x.d)) == "first", "name()");
                NeoFOAM::name(x.d) = "second";
                H_CHECK(x.d.get<std::string>("name") == "second", "name() is not a reference to the stored name");
                x.other = snapshot(x.d);
            }
            }
            for (auto& y : v)
            {
                H_CHECK(y.d.id() == y.id, "identifier '" << y.id << "' became '" << y.d.id() << "' after operation " << op);
                H_CHECK(snapshot(y.d) == y.other, "other contents of document '" << y.id << "' changed");
            }
            H::count("history steps");
        }
    }
}
