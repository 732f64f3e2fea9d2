// C02: failing and read-only accesses; the observed dictionary must be bit-identical afterwards.
#include "anyval.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <algorithm>
using namespace AV;
using NeoFOAM::Dictionary;

namespace
{
template<typename T>
bool wrongType(Dictionary& d, const std::string& k, const std::any& stored)
{
    if (stored.type() == typeid(T)) return false;
    const Dictionary& cd = d;
    {
        CaptureErr e;
        H_THROWS(d.get<T>(k), std::bad_any_cast, "get of a " << stored.type().name() << " as another type");
        H_CHECK(e.str().find(k) != std::string::npos, "diagnostic does not name key '" << k << "': " << e.str());
        H_CHECK(
            e.str().find(NeoFOAM::demangle(typeid(T).name())) != std::string::npos
                && e.str().find(NeoFOAM::demangle(stored.type().name())) != std::string::npos,
            "diagnostic does not name the requested and the actual type: " << e.str()
        );
    }
    {
        CaptureErr e;
        H_THROWS(cd.get<T>(k), std::bad_any_cast, "const get of a " << stored.type().name() << " as another type");
        H_CHECK(e.str().find(k) != std::string::npos, "diagnostic does not name key '" << k << "'");
    }
    H::count("mistyped reads");
    return true;
}
void wrongTypes(H::Rng& r, Dictionary& d, const std::string& k, const std::any& st)
{
    switch (r.below(19))
    {
    case 0: wrongType<int>(d, k, st); break;
    case 1: wrongType<long>(d, k, st); break;
    case 2: wrongType<unsigned>(d, k, st); break;
    case 3: wrongType<std::size_t>(d, k, st); break;
    case 4: wrongType<bool>(d, k, st); break;
    case 5: wrongType<float>(d, k, st); break;
    case 6: wrongType<double>(d, k, st); break;
    case 7: wrongType<std::string>(d, k, st); break;
    case 8: wrongType<const char*>(d, k, st); break;
    case 9: wrongType<char>(d, k, st); break;
    case 10: wrongType<std::vector<double>>(d, k, st); break;
    case 11: wrongType<Tracked>(d, k, st); break;
    case 12: wrongType<short>(d, k, st); break;
    case 13: wrongType<NeoFOAM::TokenList>(d, k, st); break;
    case 14: wrongType<long long>(d, k, st); break;
    case 15: wrongType<std::shared_ptr<int>>(d, k, st); break;
    case 16: wrongType<unsigned char>(d, k, st); break;
    case 17: wrongType<std::any>(d, k, st); break;
    default: wrongType<Dictionary>(d, k, st); break;
    }
}
template<typename T>
void missing(Dictionary& d, const std::string& k, const std::vector<std::string>& have)
{
    const Dictionary& cd = d;
    auto named = [&](const CaptureErr& e, const char* how)
    {
        auto s = e.str();
        H_CHECK(s.find(k) != std::string::npos, how << ": diagnostic does not name '" << k << "': " << s);
        for (auto& h : have)
            H_CHECK(s.find(h) != std::string::npos, how << ": diagnostic does not list available key '" << h << "': " << s);
    };
    {
        CaptureErr e;
        H_THROWS(d.get<T>(k), std::out_of_range, "get of an absent key");
        named(e, "get");
    }
    {
        CaptureErr e;
        H_THROWS(cd.get<T>(k), std::out_of_range, "const get of an absent key");
        named(e, "const get");
    }
    H::count("reads of absent keys", 2);
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    {
        MDict m = rndModel(r);
        if (r.chance(0.1)) m = MDict();
        Dictionary root = fromModel(m);
        if (r.chance(0.3)) // history: removed keys are absent keys
            for (int i = 0; i < 3; ++i)
            {
                auto k = rndKey(r);
                root.insert(k, rndValue(r));
                root.remove(k);
                m.m.erase(k);
            }
        const std::string before = ser(root);
        H_CHECK(before == ser(m), "construction");
        H::seen("dictionaries", hashStr(before));
        H::sig(before);
        if (c.index < 3) H::sample("dictionary " + before.substr(0, 200));
        for (int n = 0; n < (c.thorough ? 120 : 40); ++n)
        {
            // choose a dictionary of the tree
            Dictionary* d = &root;
            std::string path;
            while (r.chance(0.5))
            {
                std::vector<std::string> subs;
                for (auto& k : d->keys())
                    if (d->isDict(k)) subs.push_back(k);
                std::sort(subs.begin(), subs.end());
                if (subs.empty()) break;
                auto k = subs[r.below(subs.size())];
                d = &d->subDict(k);
                path += "/" + k;
            }
            const Dictionary& cd = *d;
            auto keys = d->keys();
            std::sort(keys.begin(), keys.end());
            std::string k = rndKey(r);
            if (r.chance(0.3) && !keys.empty())
            {
                // near misses of a present key
                k = keys[r.below(keys.size())];
                switch (r.below(5))
                {
                case 4:
                    if (d->isDict(k) && !d->subDict(k).keys().empty()) k = pathKey(r, k, d->subDict(k).keys()[0]);
                    else k = pathKey(r, k, "a");
                    break;
                case 0: k += "_"; break;
                case 1: if (!k.empty()) k.pop_back(); break;
                case 2: for (auto& ch : k) ch = (char)std::toupper(ch); break;
                default: k = " " + k;
                }
            }
            bool present = std::find(keys.begin(), keys.end(), k) != keys.end();
            H_CHECK(cd.contains(k) == present, "contains('" << k << "') at " << path);
            if (!present)
            {
                H_CHECK(!cd.isDict(k), "isDict of an absent key");
                switch (r.below(5))
                {
                case 0:
                {
                    CaptureErr e;
                    H_THROWS((*d)[k], std::out_of_range, "operator[] of an absent key");
                    H_CHECK(e.str().find(k) != std::string::npos, "operator[]: key not named");
                    break;
                }
                case 1:
                {
                    CaptureErr e;
                    H_THROWS(cd[k], std::out_of_range, "const operator[] of an absent key");
                    H_CHECK(e.str().find(k) != std::string::npos, "const operator[]: key not named");
                    break;
                }
                case 2:
                {
                    CaptureErr e;
                    H_THROWS(d->subDict(k), std::out_of_range, "subDict of an absent key");
                    H_CHECK(e.str().find(k) != std::string::npos, "subDict: key not named");
                    H_THROWS(cd.subDict(k), std::out_of_range, "const subDict of an absent key");
                    break;
                }
                case 3:
                    missing<double>(*d, k, keys);
                    break;
                default:
                    if (r.chance(0.5)) missing<std::string>(*d, k, keys);
                    else missing<Dictionary>(*d, k, keys);
                }
                H_CHECK(!cd.contains(k), "a failed access created key '" << k << "'");
                // removing what is not there changes nothing
                if (r.chance(0.3)) d->remove(k);
            }
            if (!keys.empty())
            {
                auto pk = keys[r.below(keys.size())];
                const std::any& st = cd[pk];
                wrongTypes(r, *d, pk, st);
                if (st.type() != typeid(Dictionary))
                {
                    CaptureErr e;
                    H_THROWS(d->subDict(pk), std::bad_any_cast, "subDict of a plain value");
                    H_THROWS(cd.subDict(pk), std::bad_any_cast, "const subDict of a plain value");
                    H_CHECK(!cd.isDict(pk), "isDict of a plain value");
                }
                else H_CHECK(cd.isDict(pk), "isDict of a dictionary");
            }
            H_CHECK(
                ser(root) == before,
                "failed or read-only accesses changed the dictionary from " << before << " to " << ser(root)
            );
            H_CHECK(d->keys().size() == keys.size(), "number of keys changed");
        }
    }
    {
        // a document's name is an entry like any other
        Dictionary d;
        int what = (int)r.below(3);
        std::string nm = r.word(4);
        if (what == 1) d.insert("name", nm);
        if (what == 2) d.insert("name", 7);
        NeoFOAM::Document doc(d);
        const NeoFOAM::Document& cdoc = doc;
        const std::string before = ser(doc);
        CaptureErr e;
        if (what == 0)
        {
            H_THROWS(NeoFOAM::name(doc), std::out_of_range, "name of a document without one");
            H_THROWS(NeoFOAM::name(cdoc), std::out_of_range, "name of a constant document without one");
        }
        else if (what == 1) H_CHECK(NeoFOAM::name(doc) == nm && &NeoFOAM::name(doc) == &NeoFOAM::name(cdoc) && &NeoFOAM::name(cdoc) == &doc.get<std::string>("name"), "name of a document");
        else
        {
            H_THROWS(NeoFOAM::name(doc), std::bad_any_cast, "name of another type");
            H_THROWS(NeoFOAM::name(cdoc), std::bad_any_cast, "name of another type");
        }
        if (r.chance(0.5))
        {
            doc.remove("id");
            const std::string noId = ser(doc);
            H_THROWS(doc.id(), std::out_of_range, "identifier of a document that lost it");
            H_CHECK(ser(doc) == noId, "asking for the identifier changed the document");
        }
        else H_CHECK(ser(doc) == before, "asking for the name changed the document");
        H::count("names of documents");
    }
    H_CHECK(liveTracked == 0, "leaked values");
}
