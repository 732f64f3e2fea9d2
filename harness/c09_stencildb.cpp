// C09: stencil cache histories.
#include "anyval.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
using namespace AV;
using NeoFOAM::StencilDataBase;

namespace
{
struct Ent
{
    std::string want;
    std::any* addr;
    std::type_index type {typeid(void)};
};
template<typename T>
void put(StencilDataBase& db, std::map<std::string, Ent>& m, const std::string& k, const T& v)
{
    db.insert(k, v);
    if (!m.count(k))
    {
        m[k] = Ent {ser(std::any(v)), &db[k], typeid(T)};
        H::count("stored");
    }
    else H::count("insertions under a stored key");
}
template<typename T>
void readAs(StencilDataBase& db, std::map<std::string, Ent>& m, const std::string& k)
{
    const StencilDataBase& c = db;
    auto it = m.find(k);
    if (it == m.end())
    {
        H_THROWS(db.get<T>(k), std::out_of_range, "unknown key");
        H_THROWS(c.get<T>(k), std::out_of_range, "unknown key, const");
        H_THROWS(db[k], std::out_of_range, "unknown key, []");
        H_THROWS(c[k], std::out_of_range, "unknown key, const []");
        H_CHECK(!c.contains(k), "failed read created '" << k << "'");
        H::count("reads of unknown keys");
    }
    else if (it->second.type != typeid(T))
    {
        H_THROWS(db.get<T>(k), std::bad_any_cast, "wrong type");
        H_THROWS(c.get<T>(k), std::bad_any_cast, "wrong type, const");
        H::count("mistyped reads");
    }
    else
    {
        T& x = db.get<T>(k);
        H_CHECK(&x == &c.get<T>(k) && &x == std::any_cast<T>(it->second.addr), "reads of '" << k << "' yield different objects");
        H_CHECK(ser(std::any(x)) == it->second.want, "'" << k << "' changed");
        H::count("typed reads");
    }
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    {
        auto p = std::make_unique<StencilDataBase>();
        auto& db = *p;
        StencilDataBase other;
        std::map<std::string, Ent> m;
        bool large = r.chance(0.1);
        if (large && r.chance(0.4))
            for (int n = 0, e = 300 + (int)r.below(c.thorough ? 8000 : 1200); n < e; ++n) put<int>(db, m, "s" + std::to_string(n), n);
        for (int n = 0; n < (c.thorough ? 300 : 100); ++n)
        {
            std::string k = large ? "s" + std::to_string(r.below(300)) : rndKey(r);
            int t = (int)r.below(11), op = (int)r.below(8);
            H::sig((uint64_t)(t * 8 + op));
            H::sig(hashStr(k));
            if (op < 3)
            {
                switch (t)
                {
                case 0: put<int>(db, m, k, (int)r.next()); break;
                case 1: put<double>(db, m, k, rndDouble(r)); break;
                case 2: put<std::string>(db, m, k, rndString(r)); break;
                case 3: put<Tracked>(db, m, k, Tracked((int)r.below(1000))); break;
                case 4: put<std::vector<double>>(db, m, k, std::vector<double>(r.below(30), r.uniform(0, 1))); break;
                case 5: put<std::shared_ptr<int>>(db, m, k, std::make_shared<int>((int)r.below(1000))); break;
                case 7: put<const char*>(db, m, k, "literal"); break;
                case 8: put<bool>(db, m, k, r.chance(0.5)); break;
                case 9: put<NeoFOAM::Dictionary>(db, m, k, NeoFOAM::Dictionary({{"a", (int)r.below(5)}})); break;
                case 10: put<DerivedDict>(db, m, k, DerivedDict({{"a", (int)r.below(5)}})); break;
                default: put<MapType>(db, m, k, MapType {{"a", (int)r.below(10)}});
                }
            }
            else if (op < 6)
            {
                switch (t)
                {
                case 0: readAs<int>(db, m, k); break;
                case 1: readAs<double>(db, m, k); break;
                case 2: readAs<std::string>(db, m, k); break;
                case 3: readAs<Tracked>(db, m, k); break;
                case 4: readAs<std::vector<double>>(db, m, k); break;
                case 5: readAs<std::shared_ptr<int>>(db, m, k); break;
                case 7: readAs<const char*>(db, m, k); break;
                case 8: readAs<bool>(db, m, k); break;
                case 9: readAs<NeoFOAM::Dictionary>(db, m, k); break;
                case 10: readAs<DerivedDict>(db, m, k); break;
                default: readAs<long>(db, m, k);
                }
            }
            else if (op == 6)
            {
                // modification through the reference is a modification of the stored object
                auto it = m.find(k);
                if (it != m.end() && it->second.type == typeid(std::string))
                {
                    db.get<std::string>(k) += "!";
                    it->second.want = ser(*it->second.addr);
                    H_CHECK(std::any_cast<std::string>(db[k]).back() == '!', "write through the reference is lost");
                }
                other.insert(k, 1); // another cache
                H_CHECK(db.contains(k) == (m.count(k) != 0), "caches share entries");
            }
            else if (r.chance(0.1))
            {
                StencilDataBase copy(db);
                for (auto& [kk, e] : m) H_CHECK(ser(copy[kk]) == e.want && &copy[kk] != e.addr, "copied cache");
                copy.insert("only in copy", 1);
                H_CHECK(!db.contains("only in copy"), "copied cache shares entries");
            }
            for (auto& [kk, e] : m)
            {
                if (m.size() > 10 && !r.chance(m.size() > 200 ? 0.03 : 0.3)) continue;
                H_CHECK(db.contains(kk), "'" << kk << "' is gone");
                H_CHECK(&db[kk] == e.addr, "'" << kk << "' was moved");
                H_CHECK(ser(db[kk]) == e.want, "'" << kk << "' is " << ser(db[kk]) << " instead of " << e.want);
            }
            H_CHECK(db.contains(k) == (m.count(k) != 0), "contains('" << k << "')");
            H::maxi("most entries", (double)m.size());
        }
        uint64_t h = 0;
        for (auto& [kk, e] : m) h = h * 31 + hashStr(kk + e.want);
        H::seen("final caches", h);
        if (c.index < 2) H::sample(std::to_string(m.size()) + " entries stored once, re-insertions ignored");
    }
    H_CHECK(liveTracked == 0, "leak");
}
