// Makes the compiler look like one the library has no special support for, once the standard headers are in:
// VF_FOREIGN=1: not GNU-like and not x86 (generic bit counting, byte by byte unaligned reads, portable blocks)
// VF_FOREIGN=2: not GNU-like, x86 with SSE2 (generic bit counting under the SSE2 blocks)
// VF_FOREIGN=3: Visual C++ (its bit scans, over portable blocks)
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
#include <bit>
#include <compare>
#include <concepts>
#include <version>
#include <ranges>
#endif
#include <emmintrin.h>
#include "vf.h"
#undef __GNUC__
#undef __clang__
#if VF_FOREIGN == 1
#undef __x86_64__
#undef __x86_64
#undef __SSE__
#undef __SSE2__
#elif VF_FOREIGN == 3
#define _MSC_VER 1930
#define __forceinline __attribute__((always_inline))
#define __assume(x) ((void)0)
#define __debugbreak() __builtin_trap()
#define __FUNCSIG__ __PRETTY_FUNCTION__
#endif
