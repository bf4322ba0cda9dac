// Not instrumented.  Native reference functions used by the models (models.cpp) for range tables,
// for the parts of formats that are concrete, and for cross-checking every model's concrete result.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <vector>
#include <string>
#include <unicode/uchar.h>
#include <unicode/ustdio.h>
#include <unicode/ustring.h>
extern "C" void sxapi_engine_error(const char*);
extern "C" int __sx_rt;
namespace {
struct RT { int o; RT() : o(__sx_rt) { __sx_rt = 1; } ~RT() { __sx_rt = o; } };
bool pred(int w, UChar32 c) {
	switch (w) {
	case 0: return u_isWhitespace(c);
	case 1: return u_isalnum(c);
	case 2: return u_isdigit(c);
	case 3: return u_ispunct(c);
	case 4: return u_isupper(c);
	case 5: return u_isUAlphabetic(c);
	case 6: return u_isUUppercase(c);
	case 7: return u_getCombiningClass(c) != 0;
	}
	return false;
}
std::vector<uint32_t>* tabs[8][2];
}
extern "C" {
const uint32_t* __sx_n_ranges(int w, int hi, uint32_t* n) {
	RT rt;
	auto& t = tabs[w][hi];
	if (!t) {
		t = new std::vector<uint32_t>();
		uint32_t a = hi ? 0x250 : 0, b = hi ? 0x110000 : 0x250;
		bool on = false;
		for (uint32_t c = a; c <= b; ++c) {
			bool p = c < b && pred(w, c);
			if (p && !on)
				t->push_back(c);
			if (!p && on)
				t->push_back(c - 1);
			on = p;
		}
	}
	*n = t->size();
	return t->data();
}
int __sx_n_pred(int w, uint32_t c) { RT rt; return pred(w, c); }

// cross-checks; pointers refer to program memory with concrete content
void __sx_n_chk_toutf8(const char* dst, int32_t cap, int32_t len, const UChar* src, int32_t n, int err0) {
	RT rt;
	std::vector<char> b(cap + 1);
	int32_t l = 0;
	UErrorCode e = U_ZERO_ERROR;
	u_strToUTF8(b.data(), cap, &l, src, n, &e);
	if ((U_FAILURE(e) != 0) != (err0 > 0) || (U_SUCCESS(e) && (l != len || memcmp(b.data(), dst, l < cap ? l : cap))))
		sxapi_engine_error("model of u_strToUTF8 disagrees with ICU");
}
void __sx_n_chk_fromutf8(const UChar* dst, int32_t cap, int32_t len, const char* src, int32_t n, int err0) {
	RT rt;
	std::vector<UChar> b(cap + 1);
	int32_t l = 0;
	UErrorCode e = U_ZERO_ERROR;
	u_strFromUTF8(b.data(), cap, &l, src, n, &e);
	if ((U_FAILURE(e) != 0) != (err0 > 0) || (U_SUCCESS(e) && (l != len || memcmp(b.data(), dst, 2 * (l < cap ? l : cap)))))
		sxapi_engine_error("model of u_strFromUTF8 disagrees with ICU");
}
void __sx_n_chk_from32(const UChar* dst, int32_t cap, int32_t len, const uint32_t* src, int32_t n, int err0) {
	RT rt;
	std::vector<UChar> b(cap + 1);
	int32_t l = 0;
	UErrorCode e = U_ZERO_ERROR;
	u_strFromUTF32(b.data(), cap, &l, (const UChar32*)src, n, &e);
	if ((U_FAILURE(e) != 0) != (err0 > 0) || (U_SUCCESS(e) && (l != len || memcmp(b.data(), dst, 2 * (l < cap ? l : cap)))))
		sxapi_engine_error("model of u_strFromUTF32 disagrees with ICU");
}
void __sx_n_chk_to32(const uint32_t* dst, int32_t cap, int32_t len, const UChar* src, int32_t n, int err0) {
	RT rt;
	std::vector<UChar32> b(cap + 1);
	int32_t l = 0;
	UErrorCode e = U_ZERO_ERROR;
	u_strToUTF32(b.data(), cap, &l, src, n, &e);
	if ((U_FAILURE(e) != 0) != (err0 > 0) || (U_SUCCESS(e) && (l != len || memcmp(b.data(), dst, 4 * (l < cap ? l : cap)))))
		sxapi_engine_error("model of u_strToUTF32 disagrees with ICU");
}
int32_t __sx_n_vsn(UChar* dst, int32_t cap, const UChar* fmt, va_list ap) { RT rt; return u_vsnprintf_u(dst, cap, fmt, ap); }
int32_t __sx_n_sn(UChar* dst, int32_t cap, const UChar* fmt, ...) {
	RT rt;
	va_list ap;
	va_start(ap, fmt);
	int32_t r = u_vsnprintf_u(dst, cap, fmt, ap);
	va_end(ap);
	return r;
}
void __sx_n_chk_vsn(const UChar* dst, int32_t cap, int32_t ret, const UChar* fmt, va_list ap) {
	RT rt;
	std::vector<UChar> b(cap + 1);
	int32_t r = u_vsnprintf_u(b.data(), cap, fmt, ap);
	if (r != ret || memcmp(b.data(), dst, 2 * (r < cap ? r : cap)))
		sxapi_engine_error("model of u_vsnprintf disagrees with ICU");
}
int32_t __sx_n_vsscanf(const UChar* s, const UChar* fmt, va_list ap) { RT rt; return u_vsscanf_u(s, fmt, ap); }
int32_t __sx_n_casecmp(const UChar* a, int32_t n, const UChar* b, int32_t m, uint32_t o) {
	RT rt;
	UErrorCode e = U_ZERO_ERROR;
	return u_strCaseCompare(a, n, b, m, o, &e);
}
long __sx_n_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __sx_n_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
}
