// WHAT=1  D01: field collections,  WHAT=2  D02: old-time fields
#include "register.hpp"
using namespace FV;
FV_MAIN

namespace
{
using fvcc::FieldCollection;
using fvcc::FieldDocument;
using fvcc::OldTimeCollection;
using fvcc::OldTimeDocument;
// one registered field as the model knows it
template<typename T>
struct Reg
{
    fvcc::VolumeField<T>* f;
    std::string key, name;
    std::int64_t ti, it, sc;
    std::vector<T> in;
    std::unique_ptr<Snap<T>> snap;
    int db;
    std::string col;
    std::size_t root = 0; // D02: index of the field the chain starts from, position in the chain
    int level = 0;
    std::size_t next = 0, prev = 0; // indices (self when none)
    Executor ex;
};
struct World
{
    HMesh h;
    std::unique_ptr<UnstructuredMesh> mesh;
    Executor e;
    std::vector<std::unique_ptr<Database>> db;
    std::vector<std::string> cols = {"fields", "other", "fields2", "x"};
    std::vector<Reg<scalar>> s;
    std::vector<Reg<Vector>> v;
    std::map<std::pair<int, std::string>, FieldCollection*> known;
};
template<typename T>
auto& list(World& w)
{
    if constexpr (std::is_same_v<T, scalar>) return w.s;
    else return w.v;
}
template<typename T>
void refresh(Reg<T>& g)
{
    g.in = values(g.f->internalField());
    g.snap = std::make_unique<Snap<T>>(*g.f);
}
template<typename T>
void verify(World& w, Reg<T>& g, const std::string& after)
{
    std::string q = "field '" + g.name + "' (" + g.key + ") in '" + g.col + "' " + after;
    auto& f = *g.f;
    H_CHECK(f.name == g.name && f.key == g.key && f.fieldCollectionName == g.col, q << ": the field says name '" << f.name << "', key '" << f.key << "', collection '" << f.fieldCollectionName << "'");
    H_CHECK(f.registered() && f.hasDatabase() && &f.db() == w.db[(std::size_t)g.db].get() && &std::as_const(f).db() == w.db[(std::size_t)g.db].get(), q << ": registration");
    H_CHECK(&f.mesh() == w.mesh.get() && f.exec().index() == g.ex.index() && f.internalField().exec().index() == g.ex.index(), q << ": mesh or executor");
    g.snap->unchanged(f, q);
    auto& col = FieldCollection::instance(f);
    auto& ccol = FieldCollection::instance(std::as_const(f));
    auto& byName = FieldCollection::instance(*w.db[(std::size_t)g.db], g.col);
    auto& cByName = FieldCollection::instance(std::as_const(*w.db[(std::size_t)g.db]), g.col);
    H_CHECK(&col == &ccol && &col == &byName && &col == &cByName, q << ": its collection is not unique");
    H_CHECK(col.name() == g.col && &col.db() == w.db[(std::size_t)g.db].get(), q << ": collection");
    H_CHECK(col.contains(g.key), q << ": not contained");
    auto& d = col.fieldDoc(g.key);
    const auto& cd = ccol.fieldDoc(g.key);
    H_CHECK(&d == &cd, q << ": constant look-up returns another document");
    H_CHECK(d.id() == g.key, q << ": document id is " << d.id());
    H_CHECK(d.name() == g.name && cd.name() == g.name, q << ": document name is '" << cd.name() << "'");
    H_CHECK(d.timeIndex() == g.ti && d.iterationIndex() == g.it && d.subCycleIndex() == g.sc, q << ": indices are " << d.timeIndex() << ", " << d.iterationIndex() << ", " << d.subCycleIndex() << " instead of " << g.ti << ", " << g.it << ", " << g.sc);
    H_CHECK(cd.timeIndex() == g.ti && cd.iterationIndex() == g.it && cd.subCycleIndex() == g.sc, q << ": indices through the constant document");
    H_CHECK(&d.template field<fvcc::VolumeField<T>>() == &f && &cd.template field<fvcc::VolumeField<T>>() == &f, q << ": the document holds another field object");
    H_CHECK(&col.doc(g.key) == &d.doc(), q << ": generic document look-up");
    H::count("registered fields re-checked");
}
void verifyAll(World& w, const std::string& after)
{
    std::map<std::pair<int, std::string>, std::map<std::string, std::string>> have;
    for (auto& g : w.s)
    {
        verify(w, g, after);
        H_CHECK((have[{g.db, g.col}].insert({g.key, g.name}).second), "key " << g.key << " is used twice");
    }
    for (auto& g : w.v)
    {
        verify(w, g, after);
        H_CHECK((have[{g.db, g.col}].insert({g.key, g.name}).second), "key " << g.key << " is used twice");
    }
    for (auto& [k, m] : have)
    {
        auto& col = FieldCollection::instance(*w.db[(std::size_t)k.first], k.second);
        H_CHECK(col.size() == m.size(), "collection '" << k.second << "' has " << col.size() << " documents instead of " << m.size() << " " << after);
        auto [it, fresh] = w.known.insert({k, &col});
        H_CHECK(it->second == &col, "collection '" << k.second << "' moved " << after);
        // queries
        std::map<std::string, std::set<std::string>> byName;
        for (auto& [key, name] : m) byName[name].insert(key);
        for (auto& [name, keys] : byName)
        {
            auto r = col.find([&](const Document& d) { return d.get<std::string>("name") == name; });
            H_CHECK(std::set<std::string>(r.begin(), r.end()) == keys && r.size() == keys.size(), "query by name '" << name << "' finds " << r.size() << " instead of " << keys.size() << " fields " << after);
        }
    }
}
template<typename T>
Reg<T>& add(World& w, Rng& r, const std::string& name, int db, const std::string& col)
{
    auto x = FV::rnd<T>(r);
    std::vector<T> in(w.h.nCells, x);
    for (auto& y : in) y = FV::rnd<T>(r);
    auto bc = rndBCs<T>(r, w.h, {0, 2, 3, 4});
    Reg<T> g {};
    g.ti = r.range(-3, 5);
    g.it = r.range(0, 9);
    g.sc = r.range(-1, 1);
    if (r.chance(0.05)) g.ti = std::numeric_limits<std::int64_t>::max() - 1;
    g.db = db;
    g.col = col;
    g.name = name;
    g.ex = w.e;
    auto& D = *w.db[(std::size_t)db];
    g.f = &registered<T>(r, D, w.e, *w.mesh, name, in, bc, col, g.ti, g.it, g.sc);
    g.key = g.f->key;
    expectEq(values(g.f->internalField()), in, "newly registered field '" + name + "'");
    refresh(g);
    auto& l = list<T>(w);
    g.root = g.next = g.prev = l.size();
    l.push_back(std::move(g));
    H::count("fields registered");
    return l.back();
}
template<typename T>
void modify(World& w, Rng& r)
{
    auto& l = list<T>(w);
    if (l.empty()) return;
    auto& g = l[r.below(l.size())];
    auto& col = FieldCollection::instance(*w.db[(std::size_t)g.db], g.col);
    fvcc::VolumeField<T>& f = r.chance(0.5) ? *g.f : col.fieldDoc(g.key).template field<fvcc::VolumeField<T>>();
    switch (r.below(5))
    {
    case 0:
        for (auto& y : g.in) y = FV::rnd<T>(r);
        poke(f.internalField(), g.in);
        break;
    case 1: f.internalField() = FV::rnd<T>(r); break;
    case 2: f.correctBoundaryConditions(); break;
    case 3:
    {
        auto& d = col.fieldDoc(g.key);
        d.timeIndex() = g.ti = r.range(-5, 100);
        d.iterationIndex() = g.it = r.range(0, 100);
        d.subCycleIndex() = g.sc = r.range(0, 100);
        break;
    }
    default:
    { // a copy of the field is independent of the registered one
        fvcc::VolumeField<T> copy(f);
        copy.internalField() = FV::rnd<T>(r);
        copy.name = "copy";
        H::count("independent copies changed");
        return;
    }
    }
    refresh(g);
    H::count("registered fields modified");
}
template<typename T>
void fromExisting(World& w, Rng& r)
{
    auto& l = list<T>(w);
    if (l.empty()) return;
    auto i = r.below(l.size());
    Reg<T> g {};
    g.name = r.pick({std::string("copyOf"), l[i].name, std::string("z")});
    g.col = r.pick(w.cols);
    g.db = l[i].db;
    g.ex = w.e;
    g.ti = l[i].ti;
    g.it = l[i].it;
    g.sc = l[i].sc;
    fvcc::CreateFromExistingField<fvcc::VolumeField<T>> c {.name = g.name, .field = *l[i].f};
    if (r.chance(0.5)) c.timeIndex = g.ti = r.range(0, 50);
    if (r.chance(0.5)) c.iterationIndex = g.it = r.range(0, 50);
    if (r.chance(0.5)) c.subCycleIndex = g.sc = r.range(0, 50);
    auto& col = FieldCollection::instance(*w.db[(std::size_t)g.db], g.col);
    g.f = &col.template registerField<fvcc::VolumeField<T>>(c);
    g.key = g.f->key;
    H_CHECK(g.key != l[i].key, "a field created from another one got its key");
    expectEq(values(g.f->internalField()), l[i].in, "field created from '" + l[i].name + "'");
    expectEq(values(g.f->boundaryField().value()), l[i].snap->val, "boundary values of the field created from '" + l[i].name + "'");
    H_CHECK(g.f->boundaryConditions().size() == l[i].f->boundaryConditions().size(), "number of boundary conditions of the field created from '" << l[i].name << "'");
    refresh(g);
    g.root = g.next = g.prev = l.size();
    l.push_back(std::move(g));
    H::count("fields created from existing ones");
}
#if WHAT == 1
void refusals(World& w, Rng& r)
{
    auto d = (int)r.below(w.db.size());
    auto& db = *w.db[(std::size_t)d];
    auto name = r.pick(w.cols);
    bool had = db.contains(name);
    if (!had)
    {
        H_THROWS(FieldCollection::instance(std::as_const(db), name), std::exception, "constant look-up of a missing collection");
        H_CHECK(!db.contains(name), "a failed look-up created a collection");
        return;
    }
    auto& col = FieldCollection::instance(db, name);
    auto n = col.size();
    H_THROWS(col.fieldDoc("no such document"), std::out_of_range, "look-up of an unknown document");
    H_THROWS(std::as_const(col).fieldDoc("no such document"), std::out_of_range, "constant look-up of an unknown document");
    H_CHECK(!col.contains("no such document"), "contains() of an unknown document");
    // a document that is not a field document is refused
    static const std::vector<std::string> parts = {"name", "timeIndex", "iterationIndex", "subCycleIndex", "field"};
    auto missing = r.pick(parts);
    // unregistered fields have no collection
    fvcc::VolumeField<scalar> f(w.e, "free", *w.mesh, volBCs<scalar>(*w.mesh, rndBCs<scalar>(r, w.h, {2})));
    H_THROWS(col.registerField<fvcc::VolumeField<scalar>>([&](Database&) {
        Document doc;
        for (auto& p : parts)
            if (p != missing)
            {
                if (p == "name") doc.insert(p, std::string("incomplete"));
                else if (p == "field") doc.insert(p, f);
                else doc.insert(p, std::int64_t(1));
            }
        return FieldDocument(doc);
    }),
             std::exception, "a document without '" + missing + "'");
    H_CHECK(!f.registered() && !f.hasDatabase(), "a free-standing field says it is registered");
    H_THROWS(f.db(), std::runtime_error, "database of a free-standing field");
    H_THROWS(std::as_const(f).db(), std::runtime_error, "database of a constant free-standing field");
    H_THROWS(FieldCollection::instance(f), std::exception, "collection of a free-standing field");
    H_THROWS(FieldCollection::instance(std::as_const(f)), std::exception, "collection of a constant free-standing field");
    H_CHECK(col.size() == n, "refused operations changed the collection");
    H::count("invalid requests refused", 8);
    // the same document twice is stored once
    FieldDocument fd(f, 1, 2, 3);
    H_CHECK(fd.timeIndex() == 1 && fd.iterationIndex() == 2 && fd.subCycleIndex() == 3 && fd.name() == "free", "a document built from a field");
    {
        Database own;
        auto& once = FieldCollection::instance(own, "once");
        f.internalField() = Field<scalar>(w.e, w.h.nCells, 1.5);
        FieldDocument first(f, 1, 2, 3);
        const std::string id = once.insert(first);
        H_CHECK(id == first.id() && once.contains(id) && once.size() == 1, "insertion of a document");
        auto& kept = once.fieldDoc(id).field<fvcc::VolumeField<scalar>>();
        const auto* address = &once.fieldDoc(id);
        kept.internalField() = Field<scalar>(w.e, w.h.nCells, 2.5);
        once.fieldDoc(id).timeIndex() = 17;
        H_CHECK(once.insert(first) != id, "a document whose identifier is taken is reported as stored");
        H_CHECK(once.size() == 1 && &once.fieldDoc(id) == address && once.fieldDoc(id).timeIndex() == 17, "inserting a document again replaced the stored one");
        expectEq(values(once.fieldDoc(id).field<fvcc::VolumeField<scalar>>().internalField()), std::vector<scalar>(w.h.nCells, 2.5), "field of a document inserted twice");
        H::count("documents inserted twice");
    }
}
#else
// old-time chains: model-based
std::string oldCol(const std::string& c) { return c + "_oldTime"; }
template<typename T>
void verifyChains(World& w, const std::string& after)
{
    auto& l = list<T>(w);
    for (std::size_t i = 0; i < l.size(); ++i)
    {
        auto& g = l[i];
        auto& db = *w.db[(std::size_t)g.db];
        if (!db.contains(oldCol(g.col)))
        {
            H_CHECK(g.next == i && g.prev == i, "old-time collection of '" << g.col << "' vanished " << after);
            continue;
        }
        auto& oc = OldTimeCollection::instance(FieldCollection::instance(db, g.col));
        auto& coc = OldTimeCollection::instance(std::as_const(FieldCollection::instance(db, g.col)));
        H_CHECK(&oc == &coc && &oc == &OldTimeCollection::instance(std::as_const(db), oldCol(g.col)), "old-time collection is not unique");
        // as the newer end of a link
        auto id = oc.findNextTime(g.key);
        H_CHECK((id != "") == (g.prev != i), "field '" << g.name << "' " << (g.prev != i ? "lost its old-time field" : "has an old-time field nobody asked for") << " " << after);
        if (g.prev != i)
        {
            auto& o = l[g.prev];
            const auto& d = coc.oldTimeDoc(id);
            H_CHECK(&d == &oc.oldTimeDoc(id) && d.id() == id && oc.contains(id), "old-time document look-up");
            H_CHECK(d.nextTime() == g.key && d.previousTime() == o.key, "links of the old-time field of '" << g.name << "' " << after);
            H_CHECK(d.currentTime() == l[g.root].key, "current field of the chain of '" << g.name << "' is " << d.currentTime() << " instead of " << l[g.root].key << " " << after);
            H_CHECK(d.level() == o.level, "level of '" << o.name << "' is " << d.level() << " instead of " << o.level << " " << after);
            H_CHECK(oc.findPreviousTime(o.key) == id, "looking for the document of '" << o.name << "' as older field finds another one " << after);
            H_CHECK(&fvcc::oldTime(*g.f) == o.f, "old-time field of '" << g.name << "' is another object " << after);
            H_CHECK(&fvcc::oldTime(std::as_const(*g.f)) == o.f, "constant access to the old-time field of '" << g.name << "' returns another object " << after);
            H_CHECK((&oc.template get<fvcc::VolumeField<T>>(g.key) == o.f), "get() of the old-time field of '" << g.name << "' " << after);
            H::count("old-time links re-checked");
        }
        if (g.next == i) H_CHECK(oc.findPreviousTime(g.key) == "", "field '" << g.name << "' is recorded as an older one " << after);
    }
}
template<typename T>
void askOld(World& w, Rng& r, bool newest = false)
{
    auto& l = list<T>(w);
    if (l.empty()) return;
    auto i = newest ? l.size() - 1 : r.below(l.size());
    if (l[i].level > (newest ? 20 : 5)) return;
    if (r.chance(0.15) && l[i].prev == i)
    { // constant access never creates
        auto res = H::inChild([&] { (void)fvcc::oldTime(std::as_const(*l[i].f)); });
        H_CHECK(res.refused(), "constant access to a missing old-time field returned something" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
        H::count("missing old-time fields refused");
        return;
    }
    auto n0 = FieldCollection::instance(*w.db[(std::size_t)l[i].db], l[i].col).size();
    bool fresh = l[i].prev == i;
    auto& o = fvcc::oldTime(*l[i].f);
    auto n1 = FieldCollection::instance(*w.db[(std::size_t)l[i].db], l[i].col).size();
    H_CHECK(n1 == n0 + (fresh ? 1 : 0), "asking for an old-time field registered " << n1 - n0 << " fields");
    if (!fresh)
    {
        H_CHECK(&o == l[l[i].prev].f, "asking again for the old-time field of '" << l[i].name << "' gives another object");
        H::count("existing old-time fields requested");
        return;
    }
    Reg<T> g {};
    g.f = &o;
    g.key = o.key;
    g.name = l[i].name + "_0";
    g.ti = l[i].ti - 1;
    g.it = l[i].it;
    g.sc = l[i].sc;
    g.db = l[i].db;
    g.col = l[i].col;
    g.ex = w.e;
    g.root = l[i].root;
    g.level = l[i].level + 1;
    g.next = i;
    g.prev = l.size();
    H_CHECK(g.f != l[i].f && g.key != l[i].key, "the old-time field of '" << l[i].name << "' is the field itself");
    expectEq(values(o.internalField()), l[i].in, "old-time field of '" + l[i].name + "' when created");
    l[i].snap->boundaryUnchanged(o, "old-time field of '" + l[i].name + "' when created");
    H_CHECK(o.boundaryConditions().size() == l[i].f->boundaryConditions().size(), "boundary conditions of the old-time field");
    refresh(g);
    l[i].prev = l.size();
    l.push_back(std::move(g));
    H::count("old-time fields created");
    H::maxi("longest old-time chain", (double)l.back().level);
}
#endif
template<typename T>
void step(World& w, Rng& r)
{
    int d = (int)r.below(w.db.size());
    switch (r.below(8))
    {
    case 0:
    case 1: add<T>(w, r, r.pick({std::string("T"), std::string("U"), std::string("p"), std::string("T_0"), r.word(5)}), d, r.pick(w.cols)); break;
    case 2: fromExisting<T>(w, r); break;
    case 3:
    case 4: modify<T>(w, r); break;
    default:
#if WHAT == 1
        if (r.chance(0.3)) refusals(w, r);
        else modify<T>(w, r);
#else
        askOld<T>(w, r);
        if (r.chance(0.01)) // a long chain
            for (int k = 4 + (int)r.below(10); k > 0; --k) askOld<T>(w, r, true);
#endif
    }
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    World w;
    w.h = sizedMesh(r, false, {}, 300);
    w.e = anyExec(r);
    w.mesh = build(w.e, w.h);
    for (int k = 0; k < 1 + (int)r.below(2); ++k) w.db.push_back(std::make_unique<Database>());
    int steps = c.thorough ? 60 : 25;
    for (int s = 0; s < steps; ++s)
    {
        auto before = r.s;
        if (r.chance(0.6)) step<scalar>(w, r);
        else step<Vector>(w, r);
        H::sig(before);
        verifyAll(w, "after step " + std::to_string(s));
#if WHAT == 2
        verifyChains<scalar>(w, "after step " + std::to_string(s));
        verifyChains<Vector>(w, "after step " + std::to_string(s));
#endif
    }
}
