#pragma once
#include "./_all.hpp"
