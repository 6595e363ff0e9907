#define VP_PART_SCALAR 1
#include "c09_cast.cpp"
