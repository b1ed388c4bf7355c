// Common part of the wrapper units: they include the library's headers and nothing else of it is changed.
#pragma once
#include "codecs.hh"
#include <type_traits>
#include <new>
// whatever the tests of the library include before its headers, and more: the headers do not include it themselves
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#ifdef SIM_NEON
#define __ARM_NEON 1
#ifdef SIM_A64
#define __aarch64__ 1
#endif
#endif
#ifndef ISA
#error ISA
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
#define REGISTER(FAM) extern "C" __attribute__((visibility("default"))) void CAT(sim_register_##FAM##_, ISA)(sim::Backend &B)
template <class T> sim::Class class_of() {
	return { sizeof(T), alignof(T), [](void *p) { new (p) T; }, [](void *p) { ((T *)p)->~T(); (void)p; } };
}
