// C01: random histories on a pool of dictionaries against an independent model.
#include "anyval.hpp"
#include <algorithm>
using namespace AV;
using NeoFOAM::Dictionary;

namespace
{
struct Slot
{
    Dictionary d;
    MDict m;
};
// walk to a random (possibly nested) dictionary, in both worlds
struct Loc
{
    Dictionary* d;
    MDict* m;
    std::string path;
};
Loc descend(H::Rng& r, Slot& s)
{
    Loc l {&s.d, &s.m, ""};
    while (r.chance(0.6))
    {
        std::vector<std::string> subs;
        for (auto& [k, v] : l.m->m)
            if (v.type() == typeid(MDict)) subs.push_back(k);
        if (subs.empty()) break;
        auto k = subs[r.below(subs.size())];
        Dictionary* nd = nullptr;
        switch (r.below(3))
        {
        case 0:
            nd = &l.d->subDict(k);
            break;
        case 1:
            nd = &l.d->get<Dictionary>(k);
            break;
        default:
            nd = std::any_cast<Dictionary>(&(*l.d)[k]);
        }
        H_CHECK(nd != nullptr, "nested dictionary '" << k << "' is not there");
        l.d = nd;
        l.m = std::any_cast<MDict>(&l.m->m[k]);
        l.path += "/" + k;
    }
    return l;
}
void compareAll(const Dictionary& d, const MDict& m, const std::string& where)
{
    std::string a = ser(d), b = ser(m);
    H_CHECK(a == b, where << ": dictionary holds " << a << " instead of " << b);
    auto keys = d.keys();
    H_CHECK(keys.size() == m.m.size(), where << ": keys() has " << keys.size() << " entries for " << m.m.size());
    std::sort(keys.begin(), keys.end());
    std::size_t i = 0;
    for (auto& [k, v] : m.m)
    {
        H_CHECK(keys[i] == k, where << ": keys() lacks '" << k << "'");
        ++i;
        H_CHECK(d.contains(k), where << ": contains('" << k << "') is false");
        bool isD = v.type() == typeid(MDict);
        H_CHECK(d.isDict(k) == isD, where << ": isDict('" << k << "') wrong");
        if (isD)
        {
            compareAll(d.subDict(k), *std::any_cast<MDict>(&v), where + "/" + k);
            H_CHECK(&d.subDict(k) == &d.get<Dictionary>(k), "subDict and get name different objects");
        }
        else H_CHECK(ser(d[k]) == ser(v), where << ": value of '" << k << "'");
    }
    H_CHECK(d.empty() == m.m.empty(), where << ": empty() wrong");
}
// a random key, sometimes one that looks like a path to an existing nested entry
std::string anyKey(H::Rng& r, const MDict& m)
{
    if (r.chance(0.8)) return rndKey(r);
    std::vector<std::string> subs;
    for (auto& [k, v] : m.m)
        if (v.type() == typeid(MDict)) subs.push_back(k);
    if (subs.empty()) return rndKey(r);
    const auto& o = subs[r.below(subs.size())];
    const auto& in = std::any_cast<MDict>(&m.m.at(o))->m;
    if (in.empty()) return pathKey(r, o, rndKey(r));
    auto it = in.begin();
    std::advance(it, (long)r.below(in.size()));
    H::count("keys looking like paths");
    return pathKey(r, o, it->first);
}
// read back with the static type, const and not
template<typename T>
bool typedRead(Dictionary& d, const std::string& k, const std::any& v)
{
    if (v.type() != typeid(T)) return false;
    const Dictionary& c = d;
    std::string want = ser(v);
    H_CHECK(ser(std::any(d.get<T>(k))) == want, "get of '" << k << "'");
    H_CHECK(ser(std::any(c.get<T>(k))) == want, "const get of '" << k << "'");
    H_CHECK(&d.get<T>(k) == &c.get<T>(k), "get returns a reference to something else than the stored value");
    return true;
}
bool typedReadAny(Dictionary& d, const std::string& k, const std::any& v)
{
    return typedRead<int>(d, k, v) || typedRead<long>(d, k, v) || typedRead<unsigned>(d, k, v)
        || typedRead<std::size_t>(d, k, v) || typedRead<short>(d, k, v) || typedRead<bool>(d, k, v)
        || typedRead<char>(d, k, v) || typedRead<float>(d, k, v) || typedRead<double>(d, k, v)
        || typedRead<std::string>(d, k, v) || typedRead<const char*>(d, k, v)
        || typedRead<Tracked>(d, k, v) || typedRead<Small>(d, k, v) || typedRead<Big>(d, k, v)
        || typedRead<std::vector<double>>(d, k, v) || typedRead<std::vector<std::string>>(d, k, v)
        || typedRead<MapType>(d, k, v) || typedRead<NeoFOAM::TokenList>(d, k, v) || typedRead<long long>(d, k, v)
        || typedRead<unsigned char>(d, k, v) || typedRead<std::shared_ptr<int>>(d, k, v) || typedRead<std::nullptr_t>(d, k, v)
        || typedRead<DerivedDict>(d, k, v);
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    H_CHECK(liveTracked == 0, "values of an earlier history are still alive");
    {
        std::vector<Slot> s(1 + r.below(4));
        int steps = c.thorough ? 400 : 120;
        std::string trace;
        // a reference held across other operations: valid while its key is neither removed nor written
        std::any* held = nullptr;
        std::string heldKey;
        std::size_t heldSlot = 0;
        // some histories build up large dictionaries (several rehashes)
        bool large = r.chance(0.06);
        if (large)
        {
            steps /= 4;
            std::size_t n = 50 + r.below(c.thorough ? 5000 : 600);
            for (std::size_t i = 0; i < n; ++i)
            {
                std::string k = "big" + std::to_string(i);
                std::any v = rndValue(r, (int)r.below(10));
                s[0].d.insert(k, v);
                s[0].m.m[k] = v;
            }
        }
        for (int n = 0; n < steps; ++n)
        {
            std::size_t si = r.below(s.size());
            Slot& x = s[si];
            int op = (int)r.below(16);
            H::sig((uint64_t)op * 31 + si);
            H::count("operations");
            switch (op)
            {
            case 0:
            case 1:
            case 2:
            {
                Loc l = descend(r, x);
                std::string k = large && r.chance(0.7) ? "big" + std::to_string(r.below(500)) : anyKey(r, *l.m);
                if (held && heldSlot == si && l.path.empty() && k == heldKey) held = nullptr;
                if (held && heldSlot == si && !l.path.empty() && l.path.rfind("/" + heldKey, 0) == 0) held = nullptr;
                std::any v = rndValue(r);
                l.d->insert(k, v);
                l.m->m[k] = v;
                H::sig(hashStr(k));
                break;
            }
            case 3:
            {
                Loc l = descend(r, x);
                std::string k = anyKey(r, *l.m);
                MDict m = rndModel(r);
                if (held && heldSlot == si) held = nullptr;
                if (r.chance(0.5)) l.d->insert(k, fromModel(m));
                else
                {
                    Dictionary tmp = fromModel(m);
                    l.d->insert(k, tmp);
                    tmp.insert("afterwards", 1); // a value was stored, not an alias
                    tmp.getMap().clear();
                }
                l.m->m[k] = m;
                break;
            }
            case 4:
            {
                Loc l = descend(r, x);
                std::string k = anyKey(r, *l.m);
                if (!l.m->m.empty() && r.chance(0.6))
                {
                    auto it = l.m->m.begin();
                    std::advance(it, (long)r.below(l.m->m.size()));
                    k = it->first;
                }
                if (held && heldSlot == si) held = nullptr;
                bool was = l.m->m.count(k) != 0;
                l.d->remove(k);
                l.m->m.erase(k);
                H_CHECK(!l.d->contains(k), "'" << k << "' still there after remove (was " << was << ")");
                H_CHECK(!l.d->isDict(k), "removed key is a dictionary");
                break;
            }
            case 5:
            {
                // typed write through a reference
                Loc l = descend(r, x);
                if (l.m->m.empty()) break;
                auto it = l.m->m.begin();
                std::advance(it, (long)r.below(l.m->m.size()));
                const auto& k = it->first;
                if (held && heldSlot == si && (l.path.empty() ? k == heldKey : true)) held = nullptr;
                if (it->second.type() == typeid(int))
                {
                    int v = (int)r.next();
                    l.d->get<int>(k) = v;
                    it->second = v;
                }
                else if (it->second.type() == typeid(double))
                {
                    double v = rndDouble(r);
                    double& ref = l.d->get<double>(k);
                    ref = v;
                    it->second = v;
                }
                else if (it->second.type() == typeid(std::string))
                {
                    l.d->get<std::string>(k) += "+";
                    *std::any_cast<std::string>(&it->second) += "+";
                }
                else if (it->second.type() == typeid(std::vector<double>))
                {
                    l.d->get<std::vector<double>>(k).push_back(3.5);
                    std::any_cast<std::vector<double>>(&it->second)->push_back(3.5);
                }
                else if (it->second.type() == typeid(Tracked))
                {
                    l.d->get<Tracked>(k) = Tracked(77);
                    it->second = Tracked(77);
                }
                else
                {
                    std::any v = rndValue(r);
                    (*l.d)[k] = v; // may change the type
                    it->second = v;
                }
                break;
            }
            case 6:
            {
                // reads
                Loc l = descend(r, x);
                for (auto& [k, v] : l.m->m)
                    if (r.chance(0.3)) typedReadAny(*l.d, k, v);
                break;
            }
            case 7:
            {
                // copy / assign / move between slots, self-assignment
                std::size_t sj = r.below(s.size());
                // being copied from leaves references alone
                std::size_t kind = r.below(5);
                if (kind == 4 || kind == 3 || (kind < 2 && heldSlot == sj)) held = nullptr;
                switch (kind)
                {
                case 0:
                    s[sj].d = x.d;
                    s[sj].m = MDict(x.m);
                    break;
                case 1:
                {
                    Dictionary t(x.d);
                    s[sj].d = std::move(t);
                    s[sj].m = MDict(x.m);
                    break;
                }
                case 2:
                {
                    Dictionary t(x.d.getMap());
                    H_CHECK(ser(t) == ser(x.m), "construction from a map");
                    t.insert("only in copy", 1);
                    t.remove(rndKey(r));
                    break;
                }
                case 3:
                {
                    const Dictionary& self = x.d;
                    x.d = self;
                    break;
                }
                default:
                {
                    std::string k = rndKey(r);
                    x.d.insert(k, s[sj].d); // possibly a dictionary into itself
                    MDict copy(s[sj].m);
                    x.m.m[k] = copy;
                    if (ser(x.m).size() > 200000)
                    {
                        x.d = Dictionary();
                        x.m = MDict();
                    }
                }
                }
                break;
            }
            case 8:
            {
                // initializer list: first occurrence of a key wins
                std::string a = rndKey(r), b = rndKey(r), e = rndKey(r);
                std::any va = rndValue(r), vb = rndValue(r), ve = rndValue(r);
                Dictionary t({{a, va}, {b, vb}, {e, ve}});
                MDict m;
                m.m.emplace(a, va);
                m.m.emplace(b, vb);
                m.m.emplace(e, ve);
                compareAll(t, m, "initializer list");
                break;
            }
            case 9:
            {
                // through the map
                std::string k = rndKey(r);
                held = nullptr;
                std::any v = rndValue(r);
                if (r.chance(0.5))
                {
                    x.d.getMap()[k] = v;
                    x.m.m[k] = v;
                }
                else
                {
                    x.d.getMap().erase(k);
                    x.m.m.erase(k);
                }
                break;
            }
            case 10:
                if (r.chance(0.5))
                {
                    if (!x.m.m.empty())
                    {
                        auto it = x.m.m.begin();
                        std::advance(it, (long)r.below(x.m.m.size()));
                        held = &x.d[it->first];
                        heldKey = it->first;
                        heldSlot = si;
                        H::count("references held");
                    }
                }
                break;
            case 11:
                if (held)
                {
                    H_CHECK(
                        ser(*held) == ser(s[heldSlot].m.m.at(heldKey)),
                        "reference to '" << heldKey << "' taken earlier no longer denotes the stored value"
                    );
                    std::any v = rndValue(r, (int)r.below(10));
                    *held = v;
                    s[heldSlot].m.m[heldKey] = v;
                    H_CHECK(ser(s[heldSlot].d[heldKey]) == ser(v), "write through a held reference is lost");
                    H::count("writes through held references");
                }
                break;
            case 12:
                if (r.chance(0.08))
                {
                    held = nullptr;
                    x = Slot();
                }
                else if (r.chance(0.8))
                {
                    // arguments that are part of the dictionary itself
                    Loc l = descend(r, x);
                    if (l.m->m.empty()) break;
                    held = nullptr;
                    auto it = l.m->m.begin();
                    std::advance(it, (long)r.below(l.m->m.size()));
                    const std::string k = it->first;
                    H::count("arguments taken from the dictionary itself");
                    switch (r.below(5))
                    {
                    case 0:
                        l.d->insert(k, (*l.d)[k]);
                        break;
                    case 1:
                    {
                        std::string k2 = anyKey(r, *l.m);
                        std::any v = it->second;
                        l.d->insert(k2, (*l.d)[k]);
                        l.m->m[k2] = v;
                        break;
                    }
                    case 2:
                    {
                        // the key string the dictionary stores
                        auto& stored = l.d->getMap().find(k)->first;
                        if (r.chance(0.5))
                        {
                            l.d->remove(stored);
                            l.m->m.erase(k);
                        }
                        else
                        {
                            std::any v = rndValue(r);
                            l.d->insert(stored, v);
                            l.m->m[k] = v;
                        }
                        break;
                    }
                    case 3:
                        if (auto* sub = std::any_cast<MDict>(&it->second))
                        {
                            // one entry of a nested dictionary takes the place of all of it
                            if (sub->m.empty()) break;
                            auto jt = sub->m.begin();
                            std::advance(jt, (long)r.below(sub->m.size()));
                            std::any v = jt->second;
                            const std::string inner = jt->first;
                            l.d->insert(k, l.d->subDict(k)[inner]);
                            l.m->m[k] = v;
                        }
                        else l.d->insert(k, l.d->operator[](k));
                        break;
                    default:
                        if (it->second.type() == typeid(MDict))
                        {
                            // assign a nested dictionary to the one that holds it
                            MDict m(*std::any_cast<MDict>(&it->second));
                            if (r.chance(0.5))
                            {
                                Dictionary tmp(l.d->subDict(k));
                                *l.d = tmp;
                            }
                            else l.d->insert(k, l.d->subDict(k)), m = MDict(*l.m);
                            *l.m = m;
                        }
                    }
                }
                break;
            default:
            {
                // absence
                std::string k = anyKey(r, x.m);
                H_CHECK(x.d.contains(k) == (x.m.m.count(k) != 0), "contains('" << k << "')");
            }
            }
            std::string st = ser(x.m);
            H::seen("dictionary states", hashStr(st));
            H_CHECK(ser(x.d) == st, "after operation " << op << " the dictionary is " << ser(x.d) << " and should be " << st);
            // the others have not been touched
            for (std::size_t j = 0; j < s.size(); ++j)
                if (j != si && r.chance(0.3)) H_CHECK(ser(s[j].d) == ser(s[j].m), "another dictionary changed during operation " << op);
            if (n % 20 == 19)
                for (std::size_t j = 0; j < s.size(); ++j) compareAll(s[j].d, s[j].m, "slot " + std::to_string(j));
            H::maxi("largest dictionary", (double)x.m.m.size());
        }
        if (c.index < 3) H::sample("history of " + std::to_string(steps) + " operations ending in " + ser(s[0].m).substr(0, 200));
    }
    H_CHECK(liveTracked == 0, liveTracked.load() << " values leaked (or destroyed twice) by the dictionaries");
}
