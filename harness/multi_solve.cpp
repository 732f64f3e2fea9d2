#include "multi.hpp"
#include "terms.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"
#undef FV_MAIN
#define FV_MAIN
#define WHAT 3
namespace implicit_euler {
#include "e_solve.cpp"
}
#undef WHAT
#define WHAT 5
namespace assembled {
#include "e_solve.cpp"
}
#undef WHAT
#define WHAT 2
namespace linear_systems {
#include "l_linalg.cpp"
}
namespace courant {
#include "t_conum.cpp"
}
MULTI_ADD(implicit_euler)
MULTI_ADD(assembled)
MULTI_ADD(linear_systems)
MULTI_ADD(courant)
