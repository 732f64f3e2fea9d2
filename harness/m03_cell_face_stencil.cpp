// M03: the cell-to-face stencil is exactly the inverse of the owner, neighbour and boundary-cell lists.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
using namespace FV;
FV_MAIN

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 4; ++k)
    {
        Executor e = anyExec(r);
        MeshOpt o;
        if (r.chance(0.1)) o.maxCells = 60;
        HMesh h = sizedMesh(r, c.thorough, o);
        c.notes = "stencil on " + exName(e) + ": " + describe(h);
        sigMesh(h);
        auto m = build(e, h);
        fvcc::CellToFaceStencil s(*m);
        for (int again = 0; again < 2; ++again)
        {
            auto st = s.computeStencil();
            H_CHECK(st.numSegments() == h.nCells, "one segment per cell");
            auto seg = values(st.segments());
            auto val = values(st.values());
            H_CHECK(seg.size() == h.nCells + 1, "segment limits");
            H_CHECK(seg[0] == 0 && seg.back() == val.size(), "segments cover the values");
            std::vector<std::multiset<std::size_t>> want(h.nCells);
            for (std::size_t f = 0; f < h.nInt; ++f)
            {
                want[(std::size_t)h.own[f]].insert(f);
                want[(std::size_t)h.nei[f]].insert(f);
            }
            for (std::size_t b = 0; b < h.nBnd; ++b) want[(std::size_t)h.bCell[b]].insert(h.nInt + b);
            for (std::size_t i = 0; i < h.nCells; ++i)
            {
                H_CHECK(seg[i] <= seg[i + 1] && seg[i + 1] <= val.size(), "segment " << i << " is " << seg[i] << ".." << seg[i + 1]);
                std::multiset<std::size_t> got(val.begin() + (long)seg[i], val.begin() + (long)seg[i + 1]);
                if (got != want[i])
                {
                    std::string a, b;
                    for (auto x : got) a += std::to_string(x) + " ";
                    for (auto x : want[i]) b += std::to_string(x) + " ";
                    H::fail("cell " + std::to_string(i) + " lists faces " + a + "instead of " + b, __FILE__, __LINE__);
                }
                H::checked();
            }
            H::count("cells compared", h.nCells);
            // the mesh was not changed
            expectEq(values(m->faceOwner()), h.own, "face owners after computing the stencil");
            expectEq(values(m->faceNeighbour()), h.nei, "face neighbours after computing the stencil");
        }
    }
}
