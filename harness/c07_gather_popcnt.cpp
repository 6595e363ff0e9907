#define Vc_USE_POPCNT_BSF_GATHERS 1
#define VP_VARIANT 1
#include "c07_gather.cpp"
