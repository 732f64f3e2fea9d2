// C05: validators decide, see everything, alter nothing.
#include "anyval.hpp"
#include "NeoFOAM/core/database/document.hpp"
using namespace AV;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

namespace
{
struct Spy
{
    int calls = 0;
    std::string shown;
    bool sawId = false;
    bool lastVerdict = false;
};
// verdict is a function of the contents only
bool verdict(const Dictionary& d, uint64_t salt, int mode)
{
    switch (mode)
    {
    case 0:
        return true;
    case 1:
        return false;
    case 2:
        return (hashStr(std::to_string(d.keys().size())) ^ salt) & 1;
    case 3:
        return d.contains("a") && d.contains("b");
    case 4:
        return !d.contains("key");
    case 5:
        return d.contains("id") && d.get<std::string>("id").size() % 2 == salt % 2;
    default:
    {
        Dictionary e(d);
        e.remove("id");
        return (hashStr(ser(e)) ^ salt) & 1;
    }
    }
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    {
        for (int n = 0; n < 12; ++n)
        {
            MDict m = rndModel(r, 2);
            m.m.erase("id");
            bool ownId = r.chance(0.3);
            std::string id = rndString(r);
            if (ownId) m.m["id"] = id;
            Dictionary dict = fromModel(m);
            const std::string src = ser(dict);
            int mode = (int)r.below(7);
            uint64_t salt = r.next();
            auto spy = std::make_shared<Spy>();
            bool vandal = r.chance(0.5);
            auto val = [spy, mode, salt, vandal](Dictionary d)
            {
                spy->calls++;
                spy->shown = ser(d);
                spy->sawId = d.contains("id");
                bool v = verdict(d, salt, mode);
                spy->lastVerdict = v;
                if (vandal)
                {
                    d.insert("vandal", 1);
                    d.insert("id", std::string("other"));
                    for (auto& k : d.keys())
                        if (d.isDict(k)) d.subDict(k).insert("deep", 2);
                    d.getMap().clear();
                }
                return v;
            };
            bool threw = false;
            std::unique_ptr<Document> doc;
            try
            {
                doc = std::make_unique<Document>(dict, val);
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            H_CHECK(spy->calls >= 1, "construction did not consult the validator");
            H_CHECK(spy->sawId, "validator was not shown the identifier");
            H_CHECK(
                threw == !spy->lastVerdict,
                "validator said " << spy->lastVerdict << " and construction " << (threw ? "threw" : "succeeded")
            );
            H_CHECK(ser(dict) == src, "construction changed the source dictionary");
            H::count(threw ? "rejected constructions" : "accepted constructions");
            H::sig(hashStr(src));
            H::seen("document contents", hashStr(src));
            if (threw) continue;
            // contents
            {
                Dictionary got(*doc);
                H_CHECK(spy->shown == ser(got), "validator saw " << spy->shown << ", document holds " << ser(got));
                if (ownId) H_CHECK(got.get<std::string>("id") == id, "own identifier replaced");
                else
                {
                    H_CHECK(got.contains("id") && !doc->id().empty(), "no identifier");
                    got.remove("id");
                }
                H_CHECK(ser(got) == src, "document holds " << ser(got) << " instead of " << src);
            }
            if (c.index < 2 && n < 2) H::sample("accepted " + ser(*doc).substr(0, 160));
            // later modifications and re-validation, also through copies
            std::vector<Document> docs {*doc};
            for (int k = 0; k < 12; ++k)
            {
                if (r.chance(0.15)) docs.push_back(docs[r.below(docs.size())]);
                Document& x = docs[r.below(docs.size())];
                if (r.chance(0.7))
                {
                    std::string key = rndKey(r);
                    if (key == "id" && mode == 5) key = "a";
                    if (r.chance(0.3)) x.remove(key);
                    else if (key == "id") x.insert(key, rndString(r));
                    else x.insert(key, rndValue(r, (int)r.below(17)));
                }
                const std::string before = ser(x);
                bool want = verdict(x, salt, mode);
                int calls = spy->calls;
                bool ok = false, bad = false;
                const Document& cx = x;
                try
                {
                    ok = cx.validate();
                }
                catch (const std::runtime_error&)
                {
                    bad = true;
                }
                H_CHECK(spy->calls > calls, "validation did not consult the validator");
                H_CHECK(spy->shown == before, "validator saw " << spy->shown << " instead of " << before);
                H_CHECK(ok == want && bad == !want, "contents are " << (want ? "valid" : "invalid") << " but validate " << (bad ? "threw" : ok ? "returned true" : "returned false"));
                H_CHECK(ser(x) == before, "validation changed the document");
                H::count(want ? "accepted re-validations" : "rejected re-validations");
            }
        }
        // documents with different validators: copies and assignments take the validator of their source
        {
            struct V
            {
                std::unique_ptr<Document> d;
                int which;
            };
            std::vector<V> v;
            auto want = [](const Dictionary& d, int which)
            {
                switch (which)
                {
                case 0: return d.contains("id");
                case 1: return !d.contains("a");
                case 2: return !d.contains("b");
                default: return d.keys().size() % 2 == 1 || d.keys().size() > 5;
                }
            };
            for (int n = 0; n < 40; ++n)
            {
                int which = (int)r.below(4);
                if (v.size() < 3)
                {
                    auto d = which == 0 ? std::make_unique<Document>() : std::make_unique<Document>(Dictionary(), [which, want](Dictionary x) { return want(x, which); });
                    v.push_back({std::move(d), which});
                    continue;
                }
                auto& x = v[r.below(v.size())];
                auto& y = v[r.below(v.size())];
                switch (r.below(6))
                {
                case 0:
                    *x.d = *y.d;
                    x.which = y.which;
                    break;
                case 1:
                {
                    Document t(*y.d);
                    *x.d = std::move(t);
                    x.which = y.which;
                    break;
                }
                case 2:
                    v.push_back({std::make_unique<Document>(*y.d), y.which});
                    break;
                case 3:
                    std::swap(*x.d, *y.d);
                    std::swap(x.which, y.which);
                    break;
                case 4:
                    x.d->insert(r.chance(0.5) ? "a" : r.chance(0.5) ? "b" : r.word(2), 1);
                    break;
                default:
                    x.d->remove(r.pick({"a", "b", "c"}));
                }
                if (v.size() > 8) v.erase(v.begin());
                for (auto& z : v)
                {
                    bool ok = want(*z.d, z.which), bad = false;
                    try
                    {
                        H_CHECK(z.d->validate(), "validate returned false");
                    }
                    catch (const std::runtime_error&)
                    {
                        bad = true;
                    }
                    H_CHECK(bad == !ok, "a document copied or assigned from one with validator " << z.which << " is judged by another one");
                    H::count("validations after copies and assignments");
                }
            }
        }
        // default validator: an id must be there
        Document d;
        H_CHECK(d.validate(), "an empty document is valid");
        Document e(Dictionary({{"x", 1}}));
        H_CHECK(e.validate() && e.get<int>("x") == 1 && e.keys().size() == 2, "document from a dictionary");
        e.remove("id");
        H_THROWS(e.validate(), std::runtime_error, "document without id");
        d.getMap().clear();
        H_THROWS(d.validate(), std::runtime_error, "document without id");
        // the validator's own exceptions come through
        struct Own : std::logic_error
        {
            Own() : std::logic_error("own") {}
        };
        H_THROWS(Document(Dictionary(), [](Dictionary) -> bool { throw Own(); }), Own, "validator exception");
        // also the ones validators have by nature: a required entry is absent or of another type
        {
            NeoFOAM::DocumentValidator positive = [](Dictionary x) { return x.get<int>("count") > 0 && x.get<std::string>("name") != ""; };
            Dictionary good({{"count", 1 + (int)r.below(9)}, {"name", std::string("n") + r.word(3)}});
            Document doc(good, positive);
            H_CHECK(doc.validate(), "a valid document");
            for (int k = 0; k < 6; ++k)
            {
                Dictionary bad = good;
                Document later = doc;
                std::string key = r.chance(0.5) ? "count" : "name";
                auto change = [&](Dictionary& x)
                {
                    if (k % 3 == 0) x.remove(key);
                    else if (k % 3 == 1) x.insert(key, 2.5);
                    else x.insert(key, key == "count" ? std::any((int)-1) : std::any(std::string()));
                };
                change(bad);
                change(later);
                const std::string before = ser(later);
                CaptureErr e;
                if (k % 3 == 0)
                {
                    H_THROWS(Document(bad, positive), std::out_of_range, "a required entry is absent");
                    H_THROWS(later.validate(), std::out_of_range, "a required entry has been removed");
                }
                else if (k % 3 == 1)
                {
                    H_THROWS(Document(bad, positive), std::bad_any_cast, "a required entry is of another type");
                    H_THROWS(later.validate(), std::bad_any_cast, "a required entry has become of another type");
                }
                else
                {
                    H_THROWS(Document(bad, positive), std::runtime_error, "an entry has a rejected value");
                    H_THROWS(later.validate(), std::runtime_error, "an entry was given a rejected value");
                }
                H_CHECK(ser(later) == before, "a failed validation changed the document");
                H_CHECK(doc.validate(), "the original is still valid");
                H::count("validators that throw", 2);
            }
        }
    }
    H_CHECK(liveTracked == 0, "leak");
}
