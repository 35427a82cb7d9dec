#pragma once
#include "hpx_init.hpp"
