#pragma once
#include "_all.hpp"
#include "hpx_init.hpp"
