#pragma once
#include "stub.hpp"
STUB(kernel_test, kernel_test)
