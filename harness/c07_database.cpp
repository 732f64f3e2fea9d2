// C07: database histories with references held across them.
#include "collections.hpp"
#include <algorithm>
using namespace TC;

namespace
{
struct Entry
{
    int kind; // 0 MixA, 1 MixB, 2 Own
    void* concrete;
    Collection* erased;
    std::string colName;
    std::vector<std::string> ids;
    int serial;
};
template<typename F>
void byKind(int k, F f)
{
    if (k == 0) f((MixA*)nullptr);
    else if (k == 1) f((MixB*)nullptr);
    else f((Own*)nullptr);
}
struct Reg
{
    bool ok;
    bool registered() const { return ok; }
};
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    {
        auto dbp = std::make_unique<Database>();
        Database& db = *dbp;
        Database second; // another database: neither sees the other
        std::map<std::string, Collection*> m2;
        std::map<std::string, Entry> m;
        int serial = 0;
        int steps = c.thorough ? 250 : 90;
        bool large = r.chance(0.1);
        auto nameOf = [&] { return large && r.chance(0.8) ? "col" + std::to_string(r.below(400)) : rndKey(r); };
        for (int n = 0; n < steps; ++n)
        {
            int op = (int)r.below(10);
            std::string k = nameOf();
            if (!m.empty() && r.chance(0.4))
            {
                auto it = m.begin();
                std::advance(it, (long)r.below(m.size()));
                k = it->first;
            }
            H::sig((uint64_t)op);
            H::sig(hashStr(k));
            bool has = m.count(k) != 0;
            switch (op)
            {
            case 0:
            case 1:
            case 2:
            case 3:
            {
                int kind = (int)r.below(3);
                std::string colName = r.chance(0.5) ? k : r.word();
                byKind(
                    kind,
                    [&]<typename C>(C*)
                    {
                        C col(db, colName);
                        std::vector<std::string> ids;
                        int docs = r.chance(0.004) ? 1024 + (int)r.below(1500) : r.chance(0.03) ? 150 + (int)r.below(300) : (int)r.below(3);
                        for (int i = docs; i > 0; --i) ids.push_back(col.insert(Document(Dictionary({{"s", serial}}))));
                        Collection& ref = db.insert(k, Collection(std::move(col)));
                        if (has)
                        {
                            H_CHECK(&ref == m[k].erased, "inserting under the taken name '" << k << "' returned another collection");
                            H::count("insertions under a taken name");
                        }
                        else
                        {
                            H_CHECK(ref.name() == colName, "inserted collection has name " << ref.name());
                            m[k] = Entry {kind, &ref.as<C>(), &ref, colName, ids, serial};
                            H::count("insertions");
                        }
                        serial++;
                    }
                );
                break;
            }
            case 4:
            case 5:
            {
                bool res = db.remove(k);
                H_CHECK(res == has, "remove('" << k << "') returned " << res << " but the name was " << (has ? "" : "not ") << "registered");
                m.erase(k);
                H_CHECK(!db.contains(k), "still registered after remove");
                H::count("removals");
                break;
            }
            case 6:
                if (!has)
                {
                    const Database& cdb = db;
                    H_THROWS(db.at(k), std::out_of_range, "unknown name");
                    H_THROWS(cdb.at(k), std::out_of_range, "unknown name, const");
                    H_THROWS(db.at<MixA>(k), std::out_of_range, "unknown name, typed");
                    H_CHECK(!db.contains(k), "a failed look-up registered '" << k << "'");
                    H::count("failed look-ups");
                }
                else
                {
                    auto& e = m[k];
                    if (e.kind != 0) H_THROWS(db.at<MixA>(k), std::bad_cast, "typed look-up as another type");
                    if (e.kind != 1) H_THROWS(db.at<MixB>(k), std::bad_cast, "typed look-up as another type");
                    if (e.kind != 2) H_THROWS(db.at<Own>(k), std::bad_cast, "typed look-up as another type");
                }
                break;
            case 7:
                if (has)
                {
                    // modify through a held reference; visible through the database
                    auto& e = m[k];
                    byKind(
                        e.kind,
                        [&]<typename C>(C*)
                        {
                            C& held = *static_cast<C*>(e.concrete);
                            e.ids.push_back(held.insert(Document(Dictionary({{"s", e.serial}}))));
                            H_CHECK(db.at(k).size() == e.ids.size(), "a document inserted through a held reference is not visible");
                        }
                    );
                }
                break;
            case 8:
            {
                if (r.chance(0.5))
                {
                    if (m2.count(k) && r.chance(0.5))
                    {
                        H_CHECK(second.remove(k), "removal from the second database");
                        m2.erase(k);
                    }
                    else if (!m2.count(k)) m2[k] = &second.insert(k, Collection(Own(second, "second")));
                    H_CHECK(second.size() == m2.size(), "second database has " << second.size() << " collections instead of " << m2.size());
                    for (auto& [name, p] : m2)
                        H_CHECK(&second.at(name) == p && p->name() == "second" && &p->db() == &second, "collection of the second database");
                    H_CHECK(second.contains(k) == (m2.count(k) != 0) && db.contains(k) == has, "databases share '" << k << "'");
                }
                H_THROWS(NeoFOAM::validateRegistration(Reg {false}, "text"), std::runtime_error, "unregistered object");
                NeoFOAM::validateRegistration(Reg {true}, "text");
                break;
            }
            default:
                H_CHECK(db.contains(k) == has, "contains('" << k << "')");
            }
            // the whole state
            H_CHECK(db.size() == m.size(), "database has " << db.size() << " collections instead of " << m.size());
            const Database& cdb = db;
            for (auto& [name, e] : m)
            {
                if (m.size() > 12 && !r.chance(0.25)) continue;
                H_CHECK(cdb.contains(name), "collection '" << name << "' is gone");
                H_CHECK(&db.at(name) == e.erased && &cdb.at(name) == e.erased, "collection '" << name << "' was moved or replaced");
                H_CHECK(e.erased->name() == e.colName && e.erased->size() == e.ids.size(), "collection '" << name << "' changed");
                H_CHECK(&e.erased->db() == &db, "collection '" << name << "' refers to another database");
                byKind(
                    e.kind,
                    [&]<typename C>(C*)
                    {
                        C& t = db.at<C>(name);
                        H_CHECK(&t == e.concrete, "typed look-up of '" << name << "' yields another object");
                        t.tracked.alive();
                        H_CHECK(e.erased->type() == typeOf<C>(e.colName), "type of '" << name << "'");
                        for (auto& id : e.ids)
                            if (e.ids.size() < 8 || r.chance(0.05)) H_CHECK(t.doc(id).template get<int>("s") == e.serial, "document of '" << name << "'");
                    }
                );
            }
            H::maxi("most collections", (double)m.size());
            uint64_t h = 0;
            for (auto& [name, e] : m) h = h * 131 + hashStr(name) + (uint64_t)e.kind + e.ids.size();
            H::seen("database states", h);
            H::count("history steps");
        }
        H_CHECK(liveTracked == (long)(m.size() + m2.size()), liveTracked.load() << " collections alive, " << m.size() + m2.size() << " registered");
        if (c.index < 3) H::sample("history of " + std::to_string(steps) + " operations, " + std::to_string(m.size()) + " collections at the end");
    }
    H_CHECK(liveTracked == 0, "collections leaked");
}
