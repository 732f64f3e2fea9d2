// R02: failed allocations around fields, meshes, cached mesh data, linear systems and registered fields. Every operation is repeated
// with each single allocation of an executor, and of the host, failing; after each failure the world reads as before.
#include "terms.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include <new>
using namespace FV;

namespace
{
bool armed = false; // one count for the allocations of executors and the host
bool hostFired = false;
}
void* operator new(std::size_t n)
{
    if (armed && NFM::insideRuntime == 0 && NFM::cfg().failAlloc >= 0 && NFM::cfg().failAlloc-- == 0)
    {
        hostFired = true;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void* operator new[](std::size_t n) { return ::operator new(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

void harnessInit() { FV::init(); }
void harnessCaseEnd() { FV::caseEnd(); }

namespace
{
using fvcc::FieldCollection;
using fvcc::OldTimeCollection;
template<typename T>
using VF = fvcc::VolumeField<T>;
template<typename T>
using SF = fvcc::SurfaceField<T>;

void disarm()
{
    armed = false;
    NFM::cfg().failAlloc = -1;
}

using State = std::map<std::string, std::string>;
template<typename T>
void put(State& s, const std::string& k, const Field<T>& f)
{
    auto v = values(f);
    std::string b(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
    s[k] = exName(f.exec()) + " " + std::to_string(f.size()) + " " + std::to_string(std::hash<std::string> {}(b));
}
template<typename T>
void put(State& s, const std::string& k, const DomainField<T>& d)
{
    put(s, k + " inside", d.internalField());
    auto& b = d.boundaryField();
    put(s, k + " value", b.value());
    put(s, k + " reference value", b.refValue());
    put(s, k + " fraction", b.valueFraction());
    put(s, k + " reference gradient", b.refGrad());
}
template<typename F>
void putGeo(State& s, const std::string& k, const F& f)
{
    put(s, k + " inside", f.internalField());
    put(s, k + " value", f.boundaryField().value());
    put(s, k + " reference value", f.boundaryField().refValue());
    put(s, k + " fraction", f.boundaryField().valueFraction());
    put(s, k + " reference gradient", f.boundaryField().refGrad());
    s[k + " registration"] = f.name;
}
void put(State& s, const std::string& k, const la::LinearSystem<scalar, localIdx>& ls)
{
    put(s, k + " values", ls.matrix().values());
    put(s, k + " columns", ls.matrix().colIdxs());
    put(s, k + " rows", ls.matrix().rowPtrs());
    put(s, k + " right-hand side", ls.rhs());
}
// what is cached with a mesh is complete: it reads like that of a mesh nobody failed on
void cachesComplete(const UnstructuredMesh& m, const UnstructuredMesh& twin, const std::string& at)
{
    auto& db = m.stencilDB();
    if (db.contains("GeometryScheme"))
    {
        auto a = db.get<std::shared_ptr<fvcc::GeometryScheme>>("GeometryScheme");
        H_CHECK(a != nullptr, at << ": nothing is cached as geometry scheme");
        auto b = fvcc::GeometryScheme::readOrCreate(twin);
        expectEq(values(a->weights().internalField()), values(b->weights().internalField()), at + ": cached weights");
        expectEq(values(a->deltaCoeffs().internalField()), values(b->deltaCoeffs().internalField()), at + ": cached deltaCoeffs");
        expectEq(values(a->nonOrthDeltaCoeffs().internalField()), values(b->nonOrthDeltaCoeffs().internalField()), at + ": cached nonOrthDeltaCoeffs");
        expectEq(values(a->weights().boundaryField().value()), values(b->weights().boundaryField().value()), at + ": cached boundary weights");
        H::count("cached geometry compared after failures");
    }
    if (db.contains("SparsityPattern"))
    {
        auto a = db.get<std::shared_ptr<fvcc::SparsityPattern>>("SparsityPattern");
        H_CHECK(a != nullptr, at << ": nothing is cached as sparsity pattern");
        auto b = fvcc::SparsityPattern::readOrCreate(twin);
        expectEq(values(a->rowPtrs()), values(b->rowPtrs()), at + ": cached row pointers");
        auto rp = values(a->rowPtrs());
        auto ca = values(a->colIdxs()), cb = values(b->colIdxs());
        H_CHECK(ca.size() == cb.size(), at << ": cached columns");
        for (std::size_t i = 0; i + 1 < rp.size(); ++i)
        {
            std::sort(ca.begin() + (long)rp[i], ca.begin() + (long)rp[i + 1]);
            std::sort(cb.begin() + (long)rp[i], cb.begin() + (long)rp[i + 1]);
        }
        expectEq(ca, cb, at + ": cached columns");
        expectEq(values(a->diagOffset()).size() ? std::vector<int> {1} : std::vector<int> {0}, std::vector<int> {m.nCells() ? 1 : 0}, at + ": cached diagonal");
        H::count("cached patterns compared after failures");
    }
}

struct World
{
    HMesh h;
    Executor e;
    std::unique_ptr<UnstructuredMesh> mesh, twin;
    std::vector<BC<scalar>> bc;
    std::unique_ptr<Field<scalar>> a, b;
    std::unique_ptr<Field<Vector>> v;
    std::unique_ptr<VF<scalar>> T;
    std::unique_ptr<VF<Vector>> U;
    std::unique_ptr<SF<scalar>> flux;
    std::unique_ptr<la::LinearSystem<scalar, localIdx>> ls;
    Database db;
    std::vector<std::pair<std::string, std::string>> reg; // collection and key of the registered fields

    State state()
    {
        State s;
        Kokkos::fence();
        NFM::withHostAndDevice([&] { state(s); });
        return s;
    }
    void state(State& s)
    {
        put(s, "field a", *a);
        put(s, "field b", *b);
        put(s, "field v", *v);
        putGeo(s, "T", *T);
        putGeo(s, "U", *U);
        putGeo(s, "flux", *flux);
        if (ls) put(s, "linear system", *ls);
        put(s, "mesh points", mesh->points());
        put(s, "mesh volumes", mesh->cellVolumes());
        put(s, "mesh owner", mesh->faceOwner());
        put(s, "mesh areas", mesh->faceAreas());
        put(s, "mesh boundary", mesh->boundaryMesh().faceCells());
        for (auto& n : {"fields", "fieldsWithALongCollectionName"})
        {
            if (!db.contains(n)) continue; // (an empty collection can be left)
            auto& col = FieldCollection::instance(db, n);
            for (auto& id : col.sortedKeys())
            {
                std::string k = std::string("registered field ") + n + "/" + id;
                auto& d = col.fieldDoc(id);
                auto& f = d.field<VF<scalar>>();
                putGeo(s, k, f);
                s[k + " document"] = d.name() + " " + std::to_string(d.timeIndex()) + " " + std::to_string(d.iterationIndex()) + " " + std::to_string(d.subCycleIndex())
                                   + " says " + f.key + " in " + f.fieldCollectionName + (f.registered() ? " registered" : " not registered");
            }
            std::string o = std::string(n) + "_oldTime";
            if (!db.contains(o)) continue;
            auto& oc = OldTimeCollection::instance(col);
            for (auto& id : oc.sortedKeys())
            {
                auto& d = oc.oldTimeDoc(id);
                s["old-time link " + id] = d.nextTime() + " " + d.previousTime() + " " + d.currentTime() + " " + std::to_string(d.level());
            }
        }
    }
    template<typename Op>
    void under(const std::string& what, Op op, long most = 2000)
    {
        H::sig(what);
        const State before = state();
        auto live = NFM::liveBlocks();
        for (long k = 0; k < most; ++k)
        {
            bool thrown = false;
            hostFired = NFM::cfg().allocFailed = false;
            NFM::cfg().failAlloc = k;
            armed = true;
            try
            {
                op();
            }
            catch (const std::bad_alloc&)
            {
                thrown = true;
            }
            disarm();
            const bool host = hostFired, fired = host || NFM::cfg().allocFailed;
            std::string at = what + " on " + exName(e) + " with allocation " + std::to_string(k + 1) + " (" + (host ? "host" : "executor") + ") failing";
            H_CHECK(thrown == fired, at << (fired ? ": the failure does not reach the caller" : ": out of memory without a failure"));
            if (!fired) break;
            Kokkos::fence();
            auto after = state();
            for (auto& [key, x] : after)
            {
                auto it = before.find(key);
                H_CHECK(it != before.end(), at << ": left " << key << ": " << x);
                H_CHECK(it->second == x, at << ": changed " << key << " from " << it->second << " to " << x);
            }
            for (auto& [key, x] : before) H_CHECK(after.count(key), at << ": lost " << key);
            cachesComplete(*mesh, *twin, at);
            if (!mesh->stencilDB().contains("GeometryScheme") && !mesh->stencilDB().contains("SparsityPattern"))
                H_CHECK(NFM::liveBlocks() <= live + twinBlocks, at << ": " << NFM::liveBlocks() - live << " executor allocations are not released");
            H::count(host ? "failed host allocations injected" : "failed executor allocations injected");
            H::maxi("most failure points in one operation", (double)k + 1);
        }
        H::seen("kinds of operations under failures", std::hash<std::string> {}(what));
    }
    std::size_t twinBlocks = 0;
};
Document plainDoc(World& w, const std::string& name, const std::vector<scalar>& x)
{
    DomainField<scalar> d(w.e, field(w.e, x), w.T->boundaryField());
    VF<scalar> f(w.e, name, *w.mesh, d, volBCs<scalar>(*w.mesh, w.bc), w.db, "", "");
    return Document({{"name", f.name}, {"timeIndex", std::int64_t(1)}, {"iterationIndex", std::int64_t(2)}, {"subCycleIndex", std::int64_t(3)}, {"field", f}}, fvcc::validateFieldDoc);
}
} // namespace

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    World w;
    MeshOpt o;
    o.maxCells = 6;
    w.h = anyMesh(r, false, o);
    while (w.h.nCells > 12 || w.h.bCell.size() > 20) w.h = anyMesh(r, false, o);
    w.e = anyExec(r);
    w.mesh = build(w.e, w.h);
    w.twin = build(w.e, w.h);
    (void)fvcc::GeometryScheme::readOrCreate(*w.twin);
    (void)fvcc::SparsityPattern::readOrCreate(*w.twin);
    const auto n = w.h.nCells;
    w.bc = rndBCs<scalar>(r, w.h, {0, 2, 3, 4});
    w.a = std::make_unique<Field<scalar>>(field(w.e, rndVec<scalar>(r, r.chance(0.3) ? 0 : n)));
    w.b = std::make_unique<Field<scalar>>(field(w.e, rndVec<scalar>(r, n)));
    w.v = std::make_unique<Field<Vector>>(field(w.e, rndVec<Vector>(r, n)));
    w.T = std::make_unique<VF<scalar>>(volField<scalar>(r, w.e, *w.mesh, rndVec<scalar>(r, n), w.bc, "T"));
    w.U = std::make_unique<VF<Vector>>(volField<Vector>(r, w.e, *w.mesh, rndVec<Vector>(r, n), rndBCs<Vector>(r, w.h, {0, 2, 3, 4}), "U"));
    w.flux = std::make_unique<SF<scalar>>(surfField<scalar>(r, w.e, *w.mesh, rndFluxes(r, w.h.nFaces()), std::vector<BC<scalar>>(w.h.nPatch, BC<scalar> {}), "flux"));
    const auto x = rndVec<scalar>(r, n);
    const Executor other = exByIndex((int)((w.e.index() + 1 + r.below(2)) % 3));
    const int steps = c.thorough ? 30 : 8;
    for (int s = 0; s < steps; ++s)
    {
        switch (r.below(14))
        {
        case 0:
        {
            std::size_t to = r.below(12);
            auto was = values(*w.a);
            w.under("resizing a field", [&] { w.a->resize(to); });
            was.resize(std::min(was.size(), to));
            auto now = values(*w.a);
            H_CHECK(now.size() == to, "size after a resize after failures");
            now.resize(was.size());
            expectEq(now, was, "kept values after a resize after failures");
            poke(*w.a, rndVec<scalar>(r, to)); // (new entries are uninitialised)
            break;
        }
        case 1:
            w.under("a new field", [&] { Field<scalar> f(w.e, n); });
            w.under("a new field of one value", [&] { Field<Vector> f(w.e, n, Vector(1, 2, 3)); });
            w.under("a field from host values", [&] { Field<scalar> f(w.e, x.data(), n, SerialExecutor {}); });
            w.under("a field from a vector", [&] { Field<scalar> f(w.e, x); });
            w.under("copying a field", [&] { Field<Vector> f(*w.v); });
            w.under("a field on another executor", [&] { auto f = w.v->copyToExecutor(other); });
            w.under("a field on the host", [&] { auto f = w.v->copyToHost(); });
            break;
        case 2:
        {
            w.under("sum of fields", [&] { auto f = *w.b + *w.b; });
            w.under("difference of fields", [&] { auto f = *w.v - *w.v; });
            w.under("product of fields", [&] { auto f = *w.b * *w.b; });
            w.under("field times a number", [&] { auto f = *w.v * 2.0; });
            break;
        }
        case 3:
            // (the target may hold either value, and is usable)
            if (w.a->size() != w.b->size())
            {
                auto old = values(*w.a);
                w.under("assigning a field of another size",
                        [&]
                        {
                            try
                            {
                                *w.a = *w.b;
                            }
                            catch (...)
                            {
                                disarm();
                                w.a->resize(old.size());
                                poke(*w.a, old);
                                throw;
                            }
                        });
                expectEq(values(*w.a), values(*w.b), "assignment after failures");
            }
            break;
        case 4:
            w.under("copying a volume field", [&] { VF<scalar> f(*w.T); });
            w.under("copying a vector field", [&] { VF<Vector> f(*w.U); });
            w.under("copying a surface field", [&] { SF<scalar> f(*w.flux); });
            w.under("a new volume field", [&] { VF<scalar> f(w.e, "f", *w.mesh, volBCs<scalar>(*w.mesh, w.bc)); });
            w.under("a domain field", [&] { DomainField<scalar> d(w.e, *w.b, w.T->boundaryField()); });
            w.under("copying boundary data", [&] { BoundaryFields<scalar> d(w.T->boundaryField()); });
            break;
        case 5:
            w.under("geometry of a mesh", [&] { auto g = fvcc::GeometryScheme::readOrCreate(*w.mesh); });
            break;
        case 6:
            w.under("pattern of a mesh", [&] { auto g = fvcc::SparsityPattern::readOrCreate(*w.mesh); });
            break;
        case 7:
        {
            std::unique_ptr<la::LinearSystem<scalar, localIdx>> ls;
            w.under("an empty linear system",
                    [&]
                    {
                        auto sp = fvcc::SparsityPattern::readOrCreate(*w.mesh);
                        auto l = la::createEmptyLinearSystem<scalar, localIdx>(*sp);
                        disarm();
                        ls = std::make_unique<la::LinearSystem<scalar, localIdx>>(l);
                    });
            w.ls = std::move(ls);
            poke(w.ls->rhs(), x);
            w.under("copying a linear system", [&] { la::LinearSystem<scalar, localIdx> l(*w.ls); });
            w.under("a linear system on the host", [&] { auto l = w.ls->copyToHost(); });
            w.under("residual of a linear system", [&] { auto l = la::spmv(*w.ls, *w.b); });
            w.ls.reset();
            break;
        }
        case 8:
        {
            std::vector<localIdx> len(n);
            for (auto& l : len) l = (localIdx)r.below(4);
            Field<localIdx> lens = field(w.e, len);
            w.under("a segmented field", [&] { SegmentedField<scalar, localIdx> f(lens); });
            expectEq(values(lens), len, "lengths of the segments after failures");
            break;
        }
        case 9:
            w.under("a mesh", [&] { auto m = build(w.e, w.h); });
            w.under("a uniform mesh", [&] { auto m = create1DUniformMesh(w.e, 3); });
            w.under("copying a mesh", [&] { UnstructuredMesh m(*w.mesh); });
            break;
        case 10:
        {
            std::string col = r.chance(0.5) ? "fields" : "fieldsWithALongCollectionName", key, name = r.chance(0.5) ? "T" : "aFieldWithALongNameThatNeedsMemory";
            if (!w.db.contains(col)) w.under("a field collection", [&] { (void)FieldCollection::instance(w.db, col); });
            w.under("registering a field",
                    [&]
                    {
                        auto& f = FieldCollection::instance(w.db, col).registerField<VF<scalar>>([&](Database&) { return plainDoc(w, name, x); });
                        disarm();
                        key = f.key;
                    });
            H_CHECK(key != "", "nothing registered");
            auto& fc = FieldCollection::instance(w.db, col);
            auto& f = fc.fieldDoc(key).field<VF<scalar>>();
            H_CHECK(f.key == key && f.fieldCollectionName == col && f.registered() && f.name == name, "field registered after failures");
            expectEq(values(f.internalField()), x, "field registered after failures");
            w.reg.push_back({col, key});
            H::count("fields registered after failures");
            break;
        }
        case 11:
        case 12:
        {
            if (w.reg.empty()) break;
            auto [col, key] = r.pick(w.reg);
            auto& fc = FieldCollection::instance(w.db, col);
            auto& f = fc.fieldDoc(key).field<VF<scalar>>();
            auto in = values(f.internalField());
            std::string old;
            auto had = fc.size();
            w.under("the old-time field",
                    [&]
                    {
                        auto& x = fvcc::oldTime(f);
                        disarm();
                        old = x.key;
                    });
            bool known = false;
            for (auto& [k, i] : w.reg) known = known || i == old;
            H_CHECK(fc.size() == had + (known ? 0 : 1), "old-time field after failures: " << fc.size() - had << " fields registered");
            auto& x = fc.fieldDoc(old).field<VF<scalar>>();
            H_CHECK(&fvcc::oldTime(f) == &x, "old-time field after failures");
            if (!known)
            {
                expectEq(values(x.internalField()), in, "old-time field after failures");
                w.reg.push_back({col, old});
                H::count("old-time fields created after failures");
            }
            break;
        }
        default:
        {
            if (w.reg.empty()) break;
            auto [col, key] = r.pick(w.reg);
            auto& f = FieldCollection::instance(w.db, col).fieldDoc(key).field<VF<scalar>>();
            w.under("copying a registered field",
                    [&]
                    {
                        VF<scalar> g(f);
                        disarm();
                        H_CHECK(g.key == f.key, "copy of a registered field");
                    });
            std::string made;
            w.under("registering a copy",
                    [&]
                    {
                        auto& g = FieldCollection::instance(w.db, col).registerField<VF<scalar>>(fvcc::CreateFromExistingField<VF<scalar>> {.name = "aCopyWithALongNameThatNeedsMemory", .field = f});
                        disarm();
                        made = g.key;
                    });
            w.reg.push_back({col, made});
            w.under("searching registered fields", [&] { auto k = FieldCollection::instance(w.db, col).find([](const Document& d) { return d.get<std::string>("name") == "T"; }); });
        }
        }
        H::count("operations under failures");
    }
    if (c.index < 3) H::sample(describe(w.h) + ": " + std::to_string(steps) + " operations under failures, " + std::to_string(w.reg.size()) + " fields registered");
}
