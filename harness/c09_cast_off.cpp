#define VP_PART_OFF 1
#include "c09_cast.cpp"
