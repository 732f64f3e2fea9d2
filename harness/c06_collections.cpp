// C06: collections of documents, plain and type-erased, against a model.
#include "collections.hpp"
#include <algorithm>
using namespace TC;

namespace
{
struct Model
{
    std::map<std::string, std::map<std::string, std::string>> docs; // id -> key -> serialised
};
std::map<std::string, std::string> flat(const Document& d)
{
    std::map<std::string, std::string> o;
    for (auto& [k, v] : d.getMap()) o[k] = ser(v);
    return o;
}
// one interface over "the concrete collection" and "the type-erased one"
template<typename C>
void checkQueries(H::Rng& r, C& col, const Model& m, const char* how)
{
    const C& cc = col;
    H_CHECK(cc.size() == m.docs.size(), how << ": size " << cc.size() << " for " << m.docs.size() << " documents");
    // fetch
    for (auto& [id, want] : m.docs)
    {
        if (m.docs.size() > 8 && !r.chance(0.3)) continue;
        H_CHECK(flat(cc.doc(id)) == want, how << ": document '" << id << "' differs");
        H_CHECK(&cc.doc(id) == &col.doc(id), how << ": const and non-const access differ");
        H_CHECK(cc.doc(id).id() == id, how << ": fetched '" << cc.doc(id).id() << "' for '" << id << "'");
    }
    for (int i = 0; i < 2; ++i)
    {
        std::string k = r.chance(0.5) ? "doc_" + std::to_string(900000000 + r.below(100)) : rndKey(r);
        if (m.docs.count(k)) continue;
        H_THROWS(col.doc(k), std::out_of_range, how << ": unknown identifier");
        H_THROWS(cc.doc(k), std::out_of_range, how << ": unknown identifier, const");
        H_CHECK(cc.size() == m.docs.size(), how << ": a failed fetch added a document");
    }
    // predicates
    for (int q = 0; q < 3; ++q)
    {
        int kind = (int)r.below(6);
        uint64_t salt = r.next();
        std::string key = rndKey(r);
        int thr = (int)r.below(20);
        auto pred = [&](const std::map<std::string, std::string>& f, int n) -> bool
        {
            switch (kind)
            {
            case 0:
                return true;
            case 1:
                return false;
            case 2:
                return f.count(key) != 0;
            case 3:
                return n < thr;
            case 4:
                return (hashStr(f.at("id")) ^ salt) & 1;
            default:
                return n % 3 == 0 && f.count("tag");
            }
        };
        std::set<std::string> want;
        auto numOf = [](const std::map<std::string, std::string>& f)
        {
            auto it = f.find("n");
            if (it == f.end() || it->second.rfind("int:", 0) != 0) return -1;
            return std::atoi(it->second.c_str() + 4);
        };
        for (auto& [id, f] : m.docs)
            if (pred(f, numOf(f))) want.insert(id);
        std::map<std::string, int> asked;
        auto got = cc.find(
            [&](const Document& d)
            {
                auto f = flat(d);
                asked[d.id()]++;
                return pred(f, numOf(f));
            }
        );
        std::set<std::string> g(got.begin(), got.end());
        H_CHECK(g.size() == got.size(), how << ": query returned an identifier twice");
        H_CHECK(g == want, how << ": query returned " << got.size() << " identifiers instead of " << want.size());
        if (q == 0 && !m.docs.empty())
        {
            // a predicate may query the collection itself
            std::size_t inner = 0;
            auto again = cc.find(
                [&](const Document& d)
                {
                    auto one = cc.find([&](const Document& e) { return e.id() == d.id(); });
                    inner += one.size() == 1 && one[0] == d.id() && cc.size() == m.docs.size();
                    return want.count(d.id()) != 0;
                }
            );
            std::set<std::string> ga(again.begin(), again.end());
            H_CHECK(ga == want && inner == m.docs.size(), how << ": query within a query");
            // an exception of the predicate reaches the caller
            std::size_t after = r.below(m.docs.size()), seen = 0;
            struct Stop
            {
            };
            H_THROWS(
                cc.find(
                    [&](const Document&) -> bool
                    {
                        if (seen++ == after) throw Stop();
                        return true;
                    }
                ),
                Stop,
                how << ": exception of the predicate"
            );
            // also the exceptions predicates have by nature: an entry is absent, or of another type
            seen = 0;
            auto natural = [&](const Document& d) -> bool
            {
                if (seen++ != after) return false;
                CaptureErr e;
                return kind % 2 == 0 ? d.get<int>("an entry nobody has") == 1 : d.get<double>("id") > 0;
            };
            if (kind % 2 == 0) H_THROWS(cc.find(natural), std::out_of_range, how << ": predicate reading an absent entry");
            else H_THROWS(cc.find(natural), std::bad_any_cast, how << ": predicate reading an entry of another type");
            H_CHECK(seen == after + 1, how << ": documents asked after a failure");
            H_CHECK(cc.size() == m.docs.size(), how << ": size after a failed query");
            H::count("nested and failing queries");
        }
        for (auto& [id, n] : asked) H_CHECK(m.docs.count(id), how << ": predicate was shown a foreign document");
        H::count("queries");
        H::maxi("largest query result", (double)got.size());
    }
}

template<typename C>
void history(H::Ctx& c)
{
    auto& r = c.rng;
    Database db, db2;
    std::string nm = rndString(r);
    C first(db, nm);
    Model m;
    auto sorted = [&](const auto& col)
    {
        if constexpr (requires { col.sortedKeys(); })
        {
            auto k = col.sortedKeys();
            std::vector<std::string> want;
            for (auto& [id, f] : m.docs) want.push_back(id);
            H_CHECK(k == want, "sorted key list is wrong for " << want.size() << " documents");
        }
    };
    auto rndDoc = [&]
    {
        Dictionary d;
        d.insert("n", (int)r.below(30));
        if (r.chance(0.5)) d.insert("tag", 1);
        if (r.chance(0.4)) d.insert(rndKey(r) + "_", rndValue(r, (int)r.below(17)));
        if (r.chance(0.3)) d.insert("id", r.word(6));
        return Document(d);
    };
    auto mutate = [&](auto& col)
    {
        if (m.docs.empty()) return;
        auto it = m.docs.begin();
        std::advance(it, (long)r.below(m.docs.size()));
        Document& d = col.doc(it->first);
        std::string k = r.chance(0.5) ? "n" : rndKey(r) + "_";
        std::any v = k == "n" ? std::any((int)r.below(30)) : rndValue(r, (int)r.below(17));
        if (r.chance(0.2) && k != "n")
        {
            d.remove(k);
            it->second.erase(k);
        }
        else
        {
            d.insert(k, v);
            it->second[k] = ser(v);
        }
    };
    auto insertInto = [&](C& col)
    {
        int k = r.chance(0.05) ? 60 : 1;
        for (int i = 0; i < k; ++i)
        {
            Document d = rndDoc();
            if (m.docs.count(d.id())) continue;
            std::string id = col.insert(d);
            m.docs[id] = flat(d);
            H::sig(hashStr(std::to_string(m.docs.size())));
        }
    };
    auto eraseFrom = [&](C& col)
    {
        if (m.docs.empty()) return;
        auto it = m.docs.begin();
        std::advance(it, (long)r.below(m.docs.size()));
        const std::string id = it->first;
        (void)col.doc(id);
        H_CHECK(col.erase(id), "erase");
        m.docs.erase(it);
        H_THROWS(col.doc(id), std::out_of_range, "fetching a document that has been removed");
        H_THROWS(std::as_const(col).doc(id), std::out_of_range, "fetching a document that has been removed");
        if (r.chance(0.3))
        {
            // another document under the same identifier
            Document d(Dictionary({{"id", id}, {"n", 29}, {"second", true}}));
            col.insert(d);
            m.docs[id] = flat(d);
            H_CHECK(col.doc(id).contains("second"), "a document inserted under the identifier of a removed one");
        }
    };
    for (int n = 0; n < (int)r.below(12); ++n) insertInto(first);
    checkQueries(r, first, m, "collection");
    sorted(first);
    H_CHECK(&first.db() == &db && &std::as_const(first).db() == &db, "database of the collection");
    H_CHECK(first.name() == nm, "name of the collection");
    H_CHECK(first.type() == typeOf<C>(nm), "type of the collection");

    // type erasure
    Collection any(std::move(first));
    Collection other(C(db2, "other"));
    std::vector<Collection> home;
    Collection* cur = &any;
    int steps = c.thorough ? 120 : 40;
    for (int n = 0; n < steps; ++n)
    {
        C& con = cur->template as<C>();
        const Collection& ccur = *cur;
        H_CHECK(&ccur.template as<C>() == &con, "const typed access");
        int op = (int)r.below(8);
        H::sig((uint64_t)op);
        switch (op)
        {
        case 0:
        case 1:
            insertInto(con);
            break;
        case 2:
            eraseFrom(con);
            if (r.chance(0.3)) insertInto(con);
            break;
        case 3:
            mutate(con);
            break;
        case 4:
            mutate(*cur);
            break;
        case 5:
            // move the type-erased collection around: storage must stay where it is
            {
                C* before = &con;
                std::vector<Document*> addr;
                for (auto& [id, f] : m.docs) addr.push_back(&con.doc(id));
                if (r.chance(0.5))
                {
                    home.push_back(std::move(*cur));
                    for (int k = 0; k < 20; ++k) home.push_back(Collection(C(db2, "filler" + std::to_string(k))));
                    any = std::move(home[home.size() - 21]);
                    cur = &any;
                    home.clear();
                }
                else
                {
                    Collection t(std::move(*cur));
                    other = std::move(t);
                    any = Collection(C(db2, "emptied"));
                    std::swap(any, other);
                    cur = &any;
                }
                H_CHECK(&cur->template as<C>() == before, "moving changed the wrapped object");
                std::size_t i = 0;
                for (auto& [id, f] : m.docs) H_CHECK(&cur->doc(id) == addr[i++], "moving relocated a document");
                H::count("moves");
            }
            break;
        case 6:
        {
            // wrong types are refused
            int bad = 0;
            auto tryAs = [&]<typename X>(X*)
            {
                if constexpr (!std::is_same_v<X, C>)
                {
                    H_THROWS(cur->template as<X>(), std::bad_cast, "typed access as another collection");
                    H_THROWS(std::as_const(*cur).template as<X>(), std::bad_cast, "const typed access as another collection");
                    bad++;
                }
            };
            tryAs((MixA*)nullptr);
            tryAs((MixB*)nullptr);
            tryAs((Own*)nullptr);
            H_CHECK(bad == 2, "harness");
            break;
        }
        default:
            break;
        }
        C& now = cur->template as<C>();
        checkQueries(r, *cur, m, "type-erased collection");
        if (r.chance(0.3)) checkQueries(r, now, m, "collection");
        sorted(now);
        H_CHECK(cur->name() == nm, "name through type erasure");
        H_CHECK(cur->type() == typeOf<C>(nm), "type through type erasure");
        H_CHECK(&cur->db() == &db && &std::as_const(*cur).db() == &db, "database through type erasure");
        now.tracked.alive();
        H::count("history steps");
        H::maxi("most documents", (double)m.docs.size());
        uint64_t h = 0;
        for (auto& [id, f] : m.docs)
            for (auto& [k, v] : f) h = h * 31 + hashStr(k + "=" + v);
        H::seen("collection contents", h);
    }
    if (c.index < 3) H::sample("collection '" + typeOf<C>(nm) + "' ends with " + std::to_string(m.docs.size()) + " documents");
}
}

void runCase(H::Ctx& c)
{
    switch (c.rng.below(3))
    {
    case 0:
        history<MixA>(c);
        break;
    case 1:
        history<MixB>(c);
        break;
    default:
        history<Own>(c);
    }
    H_CHECK(liveTracked == 0, liveTracked.load() << " values leaked or destroyed twice by collections");
}
