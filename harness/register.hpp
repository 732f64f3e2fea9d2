// Volume fields registered in a database (needed by everything that has an old-time field).
#pragma once
#include "ops.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
namespace FV
{
template<typename T>
struct MakeField
{
    Rng& r;
    Executor e;
    const UnstructuredMesh& mesh;
    std::string name;
    const std::vector<T>& x;
    const std::vector<BC<T>>& bc;
    std::int64_t timeIndex = 0, iterationIndex = 0, subCycleIndex = 0;
    Document operator()(Database& db)
    {
        DomainField<T> d(e, mesh.nCells(), mesh.boundaryMesh().offset());
        poke(d.internalField(), x);
        initBoundary(r, d);
        poke(d.boundaryField().valueFraction(), std::vector<scalar>(d.boundaryField().valueFraction().size(), 1.0));
        fvcc::VolumeField<T> f(e, name, mesh, d, volBCs<T>(mesh, bc), db, "", "");
        return Document({{"name", f.name}, {"timeIndex", timeIndex}, {"iterationIndex", iterationIndex}, {"subCycleIndex", subCycleIndex}, {"field", f}}, fvcc::validateFieldDoc);
    }
};
template<typename T>
fvcc::VolumeField<T>& registered(Rng& r, Database& db, const Executor& e, const UnstructuredMesh& m, const std::string& name, const std::vector<T>& x, const std::vector<BC<T>>& bc, const std::string& collection = "fields", std::int64_t ti = 0, std::int64_t it = 0, std::int64_t sc = 0)
{
    auto& col = fvcc::FieldCollection::instance(db, collection);
    auto& f = col.template registerField<fvcc::VolumeField<T>>(MakeField<T> {r, e, m, name, x, bc, ti, it, sc});
    f.correctBoundaryConditions();
    return f;
}
} // namespace FV
