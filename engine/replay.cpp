// sxapi_* for replays: the same harness, the plain build of the code, one concrete input.
// SX_INPUT=v0,v1,...; an assertion that fails prints SXREPLAY and exits 42.
#include <cstdarg>
#include "sx.h"
#include <string>
#include <vector>
static std::vector<uint64_t> vals;
static size_t nextv = 0;
static bool inited = false;
static void init() {
	if (inited)
		return;
	inited = true;
	const char* in = getenv("SX_INPUT");
	for (const char* p = in ? in : ""; *p;) {
		char* e;
		vals.push_back(strtoull(p, &e, 10));
		p = *e ? e + 1 : e;
	}
}
extern "C" {
void sxapi_make(void* p, uint64_t n, const char* name) {
	init();
	uint64_t v = nextv < vals.size() ? vals[nextv] : 0;
	++nextv;
	memcpy(p, &v, n);
	if (getenv("SX_VERBOSE"))
		fprintf(stderr, "%s = %llu\n", name, (unsigned long long)v);
}
void sxapi_assume(uint64_t c) {
	if (!c) {
		fprintf(stderr, "SXREPLAY assumption false\n");
		_Exit(40);
	}
}
void sxapi_assert(uint64_t c, const char* msg) {
	if (!c) {
		fflush(nullptr);
		fprintf(stderr, "\nSXREPLAY assert: %s\n", msg);
		_Exit(42);
	}
}
void sxapi_reach(const char*) {}
void sxapi_start(void) {}
void sxapi_done(void) { fflush(nullptr); _Exit(0); }
uint64_t sxapi_conc(uint64_t v) { return v; }
uint64_t sxapi_is_symbolic(uint64_t) { return 0; }
void sxapi_note(const char* s) { fprintf(stderr, "note: %s\n", s); }
void sxapi_config(const char*, uint64_t) {}
uint64_t sxapi_equal(const void* a, const void* b, uint64_t n) { return memcmp(a, b, n) == 0; }
uint32_t sxapi_intern(const void*, uint64_t, uint64_t, uint32_t c) { return c; }
uint64_t sxapi_has_sym(const void*, uint64_t) { return 0; }
}
