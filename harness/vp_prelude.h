// Included before everything else in every harness.  All system headers come first, so that the tree under
// test can then be compiled with the preprocessor identity of the compiler that builds it (GCC 13) while
// clang lowers it to LLVM IR.
#ifndef VP_PRELUDE_H
#define VP_PRELUDE_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <stdlib.h>
#include <immintrin.h>
#if defined(__clang__) && !defined(VP_CLANG_PERSONA)
#undef __clang__
#undef __GNUC__
#define __GNUC__ 13
#undef __GNUC_MINOR__
#define __GNUC_MINOR__ 3
#define __builtin_sincos ::sincos
#define __builtin_sincosf ::sincosf
#endif
#endif
