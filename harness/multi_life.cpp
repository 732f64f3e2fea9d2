#include "multi.hpp"
#include "terms.hpp"
#include <deque>
#include "NeoFOAM/dsl/expression.hpp"
#undef FV_MAIN
#define FV_MAIN
namespace expressions {
#include "e_expr.cpp"
}
#define WHAT 2
namespace old_times {
#include "d_fielddb.cpp"
}
namespace field_histories {
#include "f01_field_values.cpp"
}
namespace layouts {
#include "f09_boundary_layout.cpp"
}
MULTI_ADD(expressions)
MULTI_ADD(old_times)
MULTI_ADD(field_histories)
MULTI_ADD(layouts)
