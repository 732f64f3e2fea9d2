// Classes registered from another translation unit.
#include "c08_bases.hpp"

std::size_t askEarly();
static std::size_t early3 = askEarly();

DERIVED(Shape, ShapeE, "other unit")
DERIVED(Colour, ColourV, "violet")
static std::size_t early4 = askEarly();
