#include "memory_layout/index_iterator.hpp"
#define IT index_iterator
#include "c08.inc"
