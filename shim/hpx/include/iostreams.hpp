#pragma once
#include "hpx/shim_core.hpp"
