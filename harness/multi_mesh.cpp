#include "multi.hpp"
#include "ops.hpp"
#include "linsys.hpp"
#include "f02_mixed.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#undef FV_MAIN
#define FV_MAIN
namespace mesh1d {
#include "m01_mesh1d.cpp"
}
namespace stencil {
#include "m03_cell_face_stencil.cpp"
}
namespace sparsity {
#include "m04_sparsity.cpp"
}
namespace geometry_scheme {
#include "m05_geometry.cpp"
}
#define WHAT 1
namespace boundary_volume {
#include "b_boundary.cpp"
}
#undef WHAT
#define WHAT 2
namespace boundary_surface {
#include "b_boundary.cpp"
}
#undef WHAT
namespace arithmetic {
#include "f02_field_arithmetic.cpp"
}
namespace fill_map {
#include "f03_fill_map.cpp"
}
namespace segments {
#include "f08_segmented.cpp"
}
MULTI_ADD(mesh1d)
MULTI_ADD(stencil)
MULTI_ADD(sparsity)
MULTI_ADD(geometry_scheme)
MULTI_ADD(boundary_volume)
MULTI_ADD(boundary_surface)
MULTI_ADD(arithmetic)
MULTI_ADD(fill_map)
MULTI_ADD(segments)
