#include "memory_layout/index_iterator.hpp"
#define IT index_iterator
#include "c22.inc"
int main(int argc, char **argv) { return mc::driver_main(argc, argv, driver_main_cases); }
