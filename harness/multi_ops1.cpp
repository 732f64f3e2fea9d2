#include "multi.hpp"
#include "terms.hpp"
#undef FV_MAIN
#define FV_MAIN
#define WHAT 1
namespace div_explicit {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 2
namespace div_implicit {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 3
namespace laplacian_explicit {
#include "o_ops.cpp"
}
#undef WHAT
#define WHAT 4
namespace laplacian_implicit {
#include "o_ops.cpp"
}
MULTI_ADD(div_explicit)
MULTI_ADD(div_implicit)
MULTI_ADD(laplacian_explicit)
MULTI_ADD(laplacian_implicit)
