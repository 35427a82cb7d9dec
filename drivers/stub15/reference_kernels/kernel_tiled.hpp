#pragma once
#include "stub.hpp"
STUB(kernel_tiled, kernel_tiled)
