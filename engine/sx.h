// Harness-side API of the concolic engine.  The same harness source is also built without the
// engine (-DSX_REPLAY) against the plain code to replay a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" {
// one variable of `bytes` bytes (1,2,4,8), little endian, written to p with its current value
void sxapi_make(void* p, uint64_t bytes, const char* name);
// assume / assert; the condition may be symbolic
void sxapi_assume(uint64_t c);
void sxapi_assert(uint64_t c, const char* msg);
void sxapi_reach(const char* what);
void sxapi_start(void);       // fork point: everything before is executed once, concretely
void sxapi_done(void);        // end of path
uint64_t sxapi_conc(uint64_t v); // force concrete (explores all values)
uint64_t sxapi_is_symbolic(uint64_t v);
void sxapi_note(const char* s);  // attach text to the path (shown for violations and samples)
void sxapi_config(const char* key, uint64_t value);
// equality of two byte ranges as one term (no forking); returns 0/1, possibly symbolic
uint64_t sxapi_equal(const void* a, const void* b, uint64_t n);
// symbolic-id interning, see sxrt.cpp
uint32_t sxapi_intern(const void* data, uint64_t bytes, uint64_t salt, uint32_t concrete);
uint64_t sxapi_has_sym(const void* data, uint64_t bytes);
}

#define SX_ASSERT(c, msg) sxapi_assert((uint64_t)(bool)(c), msg)
#define SX_ASSUME(c) sxapi_assume((uint64_t)(bool)(c))

template<typename T>
inline T sx_var(const char* name) {
	T v{};
	sxapi_make(&v, sizeof(T), name);
	return v;
}
// value in [lo,hi]
template<typename T>
inline T sx_range(const char* name, T lo, T hi) {
	T v = sx_var<T>(name);
	sxapi_assume((uint64_t)(bool)(((int)(v >= lo) & (int)(v <= hi)) != 0));
	return v;
}
// concrete choice 0..n-1, each one explored
inline uint32_t sx_choice(const char* name, uint32_t n) {
	uint8_t v = sx_range<uint8_t>(name, 0, (uint8_t)(n - 1));
	return (uint32_t)sxapi_conc(v);
}
