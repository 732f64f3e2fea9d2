#pragma once
#include <sundials/sundials_core.hpp>
