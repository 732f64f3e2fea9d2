#pragma once
#include "nfm_petsc.hpp"
