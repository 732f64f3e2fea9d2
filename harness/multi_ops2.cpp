#include "multi.hpp"
#include "terms.hpp"
#undef FV_MAIN
#define FV_MAIN
#define WHAT 5
namespace source_ddt {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 6
namespace gradient {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 7
namespace surface_integrate {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 1
namespace interpolate_linear {
#include "i_interp.cpp"
}
#undef WHAT
#define WHAT 2
namespace interpolate_upwind {
#include "i_interp.cpp"
}
#undef WHAT
#define WHAT 3
namespace normal_gradient {
#include "i_interp.cpp"
}
MULTI_ADD(source_ddt)
MULTI_ADD(gradient)
MULTI_ADD(surface_integrate)
MULTI_ADD(interpolate_linear)
MULTI_ADD(interpolate_upwind)
MULTI_ADD(normal_gradient)
