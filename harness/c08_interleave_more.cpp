#define VP_MORE 1
#include "c08_interleave.cpp"
