// Models of library functions, compiled with the instrumenting pass (and without redirection), so that
// they are executed symbolically like any other code.
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <istream>
#include <string>
#include <unicode/utypes.h>
#include "sx.h"
extern "C" {
void sxapi_exit(int);
void sxapi_fail(const char*, const char*);
void sxapi_engine_error(const char*);
void __sx_concrange(const void* p, uint64_t n, const char* why);
const uint32_t* __sx_n_ranges(int w, int hi, uint32_t* n);
int __sx_n_pred(int w, uint32_t c);
void __sx_n_chk_toutf8(const char* dst, int32_t cap, int32_t len, const UChar* src, int32_t n, int err0);
void __sx_n_chk_fromutf8(const UChar* dst, int32_t cap, int32_t len, const char* src, int32_t n, int err0);
void __sx_n_chk_from32(const UChar* dst, int32_t cap, int32_t len, const uint32_t* src, int32_t n, int err0);
void __sx_n_chk_to32(const uint32_t* dst, int32_t cap, int32_t len, const UChar* src, int32_t n, int err0);
int32_t __sx_n_vsn(UChar* dst, int32_t cap, const UChar* fmt, va_list ap);
int32_t __sx_n_sn(UChar* dst, int32_t cap, const UChar* fmt, ...);
void __sx_n_chk_vsn(const UChar* dst, int32_t cap, int32_t ret, const UChar* fmt, va_list ap);
int32_t __sx_n_vsscanf(const UChar* s, const UChar* fmt, va_list ap);
int32_t __sx_n_casecmp(const UChar* a, int32_t n, const UChar* b, int32_t m, uint32_t o);
long __sx_n_strtol(const char* s, char** e, int b);
unsigned long __sx_n_strtoul(const char* s, char** e, int b);
}
#define NOOPT asm volatile("" ::: "memory")

extern "C" {

size_t __sxm_strlen(const char* s) {
	size_t i = 0;
	while (s[i]) { ++i; NOOPT; }
	return i;
}
const char* __sxm_strchr(const char* s, int c) {
	for (;; ++s) {
		NOOPT;
		if (*s == (char)c) return s;
		if (!*s) return nullptr;
	}
}
void* __sxm_memchr(const void* p, int c, size_t n) {
	auto s = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) {
		NOOPT;
		if (s[i] == (unsigned char)c) return (void*)(s + i);
	}
	return nullptr;
}
int __sxm_bcmp(const void* a, const void* b, size_t n) {
	return sxapi_equal(a, b, n) ? 0 : 1;
}
int __sxm_memcmp(const void* a, const void* b, size_t n) {
	auto x = (const unsigned char*)a;
	auto y = (const unsigned char*)b;
	for (size_t i = 0; i < n; ++i) {
		NOOPT;
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	}
	return 0;
}
char* __sxm_strcpy(char* d, const char* s) {
	size_t i = 0;
	for (;; ++i) {
		NOOPT;
		d[i] = s[i];
		if (!s[i]) return d;
	}
}
int __sxm_strcmp(const char* a, const char* b) {
	for (size_t i = 0;; ++i) {
		NOOPT;
		unsigned char x = a[i], y = b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
int __sxm_isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26; }

static void concStr(const char* s) {
	for (;; ++s) {
		__sx_concrange(s, 1, "number text");
		if (!*s) return;
	}
}
long __sxm___isoc23_strtol(const char* s, char** e, int b) { concStr(s); return __sx_n_strtol(s, e, b); }
unsigned long __sxm___isoc23_strtoul(const char* s, char** e, int b) { concStr(s); return __sx_n_strtoul(s, e, b); }
long __sxm_strtol(const char* s, char** e, int b) { concStr(s); return __sx_n_strtol(s, e, b); }
unsigned long __sxm_strtoul(const char* s, char** e, int b) { concStr(s); return __sx_n_strtoul(s, e, b); }

// ---------------------------------------------------------------- UTF-16 strings
int32_t __sxm_u_strlen(const UChar* s) {
	int32_t i = 0;
	while (s[i]) { ++i; NOOPT; }
	return i;
}
int32_t __sxm_u_strncmp(const UChar* a, const UChar* b, int32_t n) {
	for (int32_t i = 0; i < n; ++i) {
		NOOPT;
		UChar x = a[i], y = b[i];
		if (x != y) return (int32_t)x - (int32_t)y;
		if (!x) return 0;
	}
	return 0;
}
int32_t __sxm_u_strcmp(const UChar* a, const UChar* b) {
	for (int32_t i = 0;; ++i) {
		NOOPT;
		UChar x = a[i], y = b[i];
		if (x != y) return (int32_t)x - (int32_t)y;
		if (!x) return 0;
	}
}
UChar* __sxm_u_strncpy(UChar* d, const UChar* s, int32_t n) {
	// ICU: copies up to n units, pads nothing beyond the terminator
	UChar* r = d;
	while (n > 0) {
		NOOPT;
		UChar c = *s;
		*d = c;
		if (!c) break;
		++d; ++s; --n;
	}
	return r;
}
UChar* __sxm_u_strcpy(UChar* d, const UChar* s) {
	UChar* r = d;
	for (;;) {
		NOOPT;
		UChar c = *s++;
		*d++ = c;
		if (!c) return r;
	}
}
UChar* __sxm_u_strchr(const UChar* s, UChar c) {
	if ((c & 0xF800) == 0xD800) sxapi_engine_error("u_strchr model: surrogate");
	for (;; ++s) {
		NOOPT;
		if (*s == c) return (UChar*)s;
		if (!*s) return nullptr;
	}
}
UChar* __sxm_u_strstr(const UChar* s, const UChar* t) {
	if (!*t) return (UChar*)s;
	for (;; ++s) {
		NOOPT;
		if (!*s) return nullptr;
		int32_t i = 0;
		for (; t[i] && s[i] == t[i]; ++i) NOOPT;
		if (!t[i]) return (UChar*)s;
	}
}
int32_t __sxm_u_strcspn(const UChar* s, const UChar* set) {
	for (int32_t i = 0;; ++i) {
		NOOPT;
		if (!s[i]) return i;
		for (int32_t k = 0; set[k]; ++k) {
			NOOPT;
			if (s[i] == set[k]) return i;
		}
	}
}
int32_t __sxm_u_strspn(const UChar* s, const UChar* set) {
	for (int32_t i = 0;; ++i) {
		NOOPT;
		if (!s[i]) return i;
		bool f = false;
		for (int32_t k = 0; set[k]; ++k) {
			NOOPT;
			if (s[i] == set[k]) { f = true; break; }
		}
		if (!f) return i;
	}
}

static UBool ranged(int w, uint32_t c) {
	uint32_t n = 0;
	if (!sxapi_is_symbolic(c))
		return (UBool)__sx_n_pred(w, c);
	if (c < 0x250) {
		const uint32_t* t = __sx_n_ranges(w, 0, &n);
		uint32_t r = 0;
		for (uint32_t i = 0; i < n; i += 2) { r |= (uint32_t)((uint32_t)(c - t[i]) <= t[i + 1] - t[i]); NOOPT; }
		return (UBool)r;
	}
	const uint32_t* t = __sx_n_ranges(w, 1, &n);
	uint32_t r = 0;
	for (uint32_t i = 0; i < n; i += 2) { r |= (uint32_t)((uint32_t)(c - t[i]) <= t[i + 1] - t[i]); NOOPT; }
	return (UBool)r;
}
UBool __sxm_u_isWhitespace(UChar32 c) { return ranged(0, c); }
UBool __sxm_u_isalnum(UChar32 c) { return ranged(1, c); }
UBool __sxm_u_isdigit(UChar32 c) { return ranged(2, c); }
UBool __sxm_u_ispunct(UChar32 c) { return ranged(3, c); }
UBool __sxm_u_isupper(UChar32 c) { return ranged(4, c); }
UBool __sxm_u_isUAlphabetic(UChar32 c) { return ranged(5, c); }
UBool __sxm_u_isUUppercase(UChar32 c) { return ranged(6, c); }

char* __sxm_u_strToUTF8(char* dest, int32_t cap, int32_t* plen, const UChar* src, int32_t n, UErrorCode* err) {
	if (U_FAILURE(*err)) return nullptr;
	if ((!src && n != 0) || n < -1 || cap < 0 || (!dest && cap > 0)) { *err = U_ILLEGAL_ARGUMENT_ERROR; return nullptr; }
	int32_t o = 0;
	int32_t bad = 0;
	int32_t i = 0;
	auto put = [&](unsigned char b) { if (o < cap) dest[o] = (char)b; ++o; };
	for (; n < 0 ? src[i] != 0 : i < n; ++i) {
		NOOPT;
		uint32_t c = src[i];
		if (c < 0x80) { put((unsigned char)c); continue; }
		if (c < 0x800) { put((unsigned char)(0xC0 | (c >> 6))); put((unsigned char)(0x80 | (c & 63))); continue; }
		if ((c & 0xF800) != 0xD800) {
			put((unsigned char)(0xE0 | (c >> 12))); put((unsigned char)(0x80 | ((c >> 6) & 63))); put((unsigned char)(0x80 | (c & 63)));
			continue;
		}
		if ((c & 0x400) || (n >= 0 && i + 1 >= n) || (src[i + 1] & 0xFC00) != 0xDC00) { bad = 1; break; }
		uint32_t d = src[++i];
		uint32_t u = 0x10000 + ((c & 0x3FF) << 10) + (d & 0x3FF);
		put((unsigned char)(0xF0 | (u >> 18))); put((unsigned char)(0x80 | ((u >> 12) & 63))); put((unsigned char)(0x80 | ((u >> 6) & 63))); put((unsigned char)(0x80 | (u & 63)));
	}
	if (bad) {
		*err = U_INVALID_CHAR_FOUND;
		__sx_n_chk_toutf8(dest, cap, o, src, n, 1);
		return nullptr;
	}
	if (plen) *plen = o;
	if (o < cap) dest[o] = 0;
	else if (o == cap) *err = U_STRING_NOT_TERMINATED_WARNING;
	else *err = U_BUFFER_OVERFLOW_ERROR;
	__sx_n_chk_toutf8(dest, cap, o, src, n, o > cap);
	return dest;
}
UChar* __sxm_u_strFromUTF8(UChar* dest, int32_t cap, int32_t* plen, const char* src, int32_t n, UErrorCode* err) {
	if (U_FAILURE(*err)) return nullptr;
	if ((!src && n != 0) || n < -1 || cap < 0 || (!dest && cap > 0)) { *err = U_ILLEGAL_ARGUMENT_ERROR; return nullptr; }
	int32_t o = 0, i = 0;
	int bad = 0;
	auto put = [&](UChar b) { if (o < cap) dest[o] = b; ++o; };
	auto at = [&](int32_t k) -> uint32_t { return (unsigned char)src[k]; };
	auto cont = [&](int32_t k) { return (n < 0 || k < n) && (at(k) & 0xC0) == 0x80; };
	while (n < 0 ? src[i] != 0 : i < n) {
		NOOPT;
		uint32_t c = at(i);
		if (c < 0x80) { put((UChar)c); ++i; continue; }
		if (c >= 0xC2 && c < 0xE0) {
			if (!cont(i + 1)) { bad = 1; break; }
			put((UChar)(((c & 31) << 6) | (at(i + 1) & 63)));
			i += 2;
			continue;
		}
		if (c >= 0xE0 && c < 0xF0) {
			if (!cont(i + 1) || !cont(i + 2)) { bad = 1; break; }
			uint32_t u = ((c & 15) << 12) | ((at(i + 1) & 63) << 6) | (at(i + 2) & 63);
			if (u < 0x800 || (u & 0xF800) == 0xD800) { bad = 1; break; }
			put((UChar)u);
			i += 3;
			continue;
		}
		if (c >= 0xF0 && c < 0xF5) {
			if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) { bad = 1; break; }
			uint32_t u = ((c & 7) << 18) | ((at(i + 1) & 63) << 12) | ((at(i + 2) & 63) << 6) | (at(i + 3) & 63);
			if (u < 0x10000 || u > 0x10FFFF) { bad = 1; break; }
			put((UChar)(0xD7C0 + (u >> 10)));
			put((UChar)(0xDC00 | (u & 0x3FF)));
			i += 4;
			continue;
		}
		bad = 1;
		break;
	}
	if (bad) {
		*err = U_INVALID_CHAR_FOUND;
		__sx_n_chk_fromutf8(dest, cap, o, src, n, 1);
		return nullptr;
	}
	if (plen) *plen = o;
	if (o < cap) dest[o] = 0;
	else if (o == cap) *err = U_STRING_NOT_TERMINATED_WARNING;
	else *err = U_BUFFER_OVERFLOW_ERROR;
	__sx_n_chk_fromutf8(dest, cap, o, src, n, o > cap);
	return dest;
}

static UChar* from32(UChar* dest, int32_t cap, int32_t* plen, const uint32_t* src, int32_t n, UErrorCode* err) {
	if (U_FAILURE(*err)) return nullptr;
	if ((!src && n != 0) || n < -1 || cap < 0 || (!dest && cap > 0)) { *err = U_ILLEGAL_ARGUMENT_ERROR; return nullptr; }
	int32_t o = 0;
	auto put = [&](UChar b) { if (o < cap) dest[o] = b; ++o; };
	for (int32_t i = 0; n < 0 ? src[i] != 0 : i < n; ++i) {
		NOOPT;
		uint32_t c = src[i];
		if (c < 0xD800 || (c >= 0xE000 && c < 0x10000)) { put((UChar)c); continue; }
		if (c >= 0x10000 && c < 0x110000) { put((UChar)(0xD7C0 + (c >> 10))); put((UChar)(0xDC00 | (c & 0x3FF))); continue; }
		*err = U_INVALID_CHAR_FOUND;
		__sx_n_chk_from32(dest, cap, o, src, n, 1);
		return nullptr;
	}
	if (plen) *plen = o;
	if (o < cap) dest[o] = 0;
	else if (o == cap) *err = U_STRING_NOT_TERMINATED_WARNING;
	else *err = U_BUFFER_OVERFLOW_ERROR;
	__sx_n_chk_from32(dest, cap, o, src, n, o > cap);
	return dest;
}
static uint32_t* to32(uint32_t* dest, int32_t cap, int32_t* plen, const UChar* src, int32_t n, UErrorCode* err) {
	if (U_FAILURE(*err)) return nullptr;
	if ((!src && n != 0) || n < -1 || cap < 0 || (!dest && cap > 0)) { *err = U_ILLEGAL_ARGUMENT_ERROR; return nullptr; }
	int32_t o = 0;
	auto put = [&](uint32_t b) { if (o < cap) dest[o] = b; ++o; };
	for (int32_t i = 0; n < 0 ? src[i] != 0 : i < n; ++i) {
		NOOPT;
		uint32_t c = src[i];
		if ((c & 0xF800) != 0xD800) { put(c); continue; }
		if ((c & 0x400) || (n >= 0 && i + 1 >= n) || (src[i + 1] & 0xFC00) != 0xDC00) {
			*err = U_INVALID_CHAR_FOUND;
			__sx_n_chk_to32(dest, cap, o, src, n, 1);
			return nullptr;
		}
		uint32_t d = src[++i];
		put(0x10000 + ((c & 0x3FF) << 10) + (d & 0x3FF));
	}
	if (plen) *plen = o;
	if (o < cap) dest[o] = 0;
	else if (o == cap) *err = U_STRING_NOT_TERMINATED_WARNING;
	else *err = U_BUFFER_OVERFLOW_ERROR;
	__sx_n_chk_to32(dest, cap, o, src, n, o > cap);
	return dest;
}
UChar* __sxm_u_strFromUTF32(UChar* d, int32_t cap, int32_t* plen, const UChar32* s, int32_t n, UErrorCode* e) { return from32(d, cap, plen, (const uint32_t*)s, n, e); }
UChar* __sxm_u_strFromWCS(UChar* d, int32_t cap, int32_t* plen, const wchar_t* s, int32_t n, UErrorCode* e) { return from32(d, cap, plen, (const uint32_t*)s, n, e); }
UChar32* __sxm_u_strToUTF32(UChar32* d, int32_t cap, int32_t* plen, const UChar* s, int32_t n, UErrorCode* e) { return (UChar32*)to32((uint32_t*)d, cap, plen, s, n, e); }
wchar_t* __sxm_u_strToWCS(wchar_t* d, int32_t cap, int32_t* plen, const UChar* s, int32_t n, UErrorCode* e) { return (wchar_t*)to32((uint32_t*)d, cap, plen, s, n, e); }
size_t __sxm_wcslen(const wchar_t* s) { size_t n = 0; for (; s[n]; ++n) { NOOPT; } return n; }

int32_t __sxm_u_strCaseCompare(const UChar* a, int32_t n, const UChar* b, int32_t m, uint32_t opt, UErrorCode*) {
	int32_t la = n < 0 ? __sxm_u_strlen(a) : n, lb = m < 0 ? __sxm_u_strlen(b) : m;
	// simple folding below U+0080; anything else is made concrete
	bool ascii = true;
	for (int32_t i = 0; i < la; ++i) { NOOPT; if (a[i] >= 0x80) ascii = false; }
	for (int32_t i = 0; i < lb; ++i) { NOOPT; if (b[i] >= 0x80) ascii = false; }
	if (!ascii) {
		__sx_concrange(a, la * 2, "case folding");
		__sx_concrange(b, lb * 2, "case folding");
		return __sx_n_casecmp(a, la, b, lb, opt);
	}
	auto f = [](uint32_t c) { return (uint32_t)(c - 'A') < 26 ? c + 32 : c; };
	for (int32_t i = 0;; ++i) {
		NOOPT;
		if (i == la) return i == lb ? 0 : -1;
		if (i == lb) return 1;
		uint32_t x = f(a[i]), y = f(b[i]);
		if (x != y) return x < y ? -1 : 1;
	}
}

// ---------------------------------------------------------------- formatted output
struct Out {
	UChar* d;
	int32_t cap, used, written;
	// a literal run: counts only what fitted (ICU u_sprintf_write)
	void lit(UChar c) { if (used < cap) { d[used++] = c; ++written; } }
	// an argument: counts its full length (ICU u_sprintf_pad_and_justify)
	void arg(const UChar* s, int32_t n) {
		for (int32_t i = 0; i < n; ++i) { NOOPT; if (used < cap) d[used++] = s[i]; }
		written += n;
	}
};
static int32_t vsn(UChar* d, int32_t cap, const UChar* fmt, va_list ap) {
	va_list ap2;
	va_copy(ap2, ap);
	Out o{ d, cap, 0, 0 };
	UChar tmp[512];
	const UChar* f = fmt;
	while (*f) {
		if (*f != '%') { o.lit(*f++); continue; }
		if (f[1] == '%') { o.lit('%'); f += 2; continue; }
		const UChar* b = f++;
		int32_t prec = -1, width = -1;
		int lng = 0;
		bool zero = false;
		if (*f == '0') { zero = true; ++f; }
		if (*f >= '0' && *f <= '9') { width = 0; while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); }
		if (*f == '.') {
			++f;
			if (*f == '*') { prec = va_arg(ap, int); ++f; }
			else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		}
		while (*f == 'z' || *f == 'l' || *f == 'h') { if (*f == 'z' || *f == 'l') lng = 1; ++f; }
		UChar spec[40];
		int sl = 0;
		for (const UChar* q = b; q <= f && sl < 38; ++q) spec[sl++] = *q;
		spec[sl] = 0;
		switch (*f) {
		case 'S': {
			auto s = va_arg(ap, const UChar*);
			int32_t n = 0;
			if (prec >= 0) { while (n < prec && s[n]) { ++n; NOOPT; } }
			else n = __sxm_u_strlen(s);
			if (width > n) sxapi_engine_error("format model: padded %S");
			o.arg(s, n);
			break;
		}
		case 's': {
			auto s = va_arg(ap, const char*);
			int32_t n = 0;
			if (prec >= 0) { while (n < prec && s[n]) { ++n; NOOPT; } }
			else n = (int32_t)__sxm_strlen(s);
			__sx_concrange(s, n, "%s argument");
			if (width > n) sxapi_engine_error("format model: padded %s");
			char nul[512];
			if (n > 500) sxapi_engine_error("format model: long %s");
			for (int32_t i = 0; i < n; ++i) nul[i] = s[i];
			nul[n] = 0;
			int32_t k = __sx_n_sn(tmp, 500, u"%s", nul);
			o.arg(tmp, k);
			break;
		}
		case 'C':
		case 'c':
		case 'd':
		case 'i':
		case 'u':
		case 'x':
		case 'X': {
			(void)zero;
			int32_t k;
			if (lng) { k = __sx_n_sn(tmp, 500, spec, sxapi_conc(va_arg(ap, uint64_t))); }
			else {
				uint32_t v = va_arg(ap, uint32_t);
				if (*f == 'C' && v < 0xD800) { tmp[0] = (UChar)v; k = 1; }
				else k = __sx_n_sn(tmp, 500, spec, (uint32_t)sxapi_conc(v));
			}
			o.arg(tmp, k);
			break;
		}
		case 'f':
		case 'g': {
			double v = va_arg(ap, double);
			__sx_concrange(&v, 8, "%f argument");
			int32_t k = __sx_n_sn(tmp, 500, spec, v);
			o.arg(tmp, k);
			break;
		}
		case 'p': {
			int32_t k = __sx_n_sn(tmp, 500, spec, va_arg(ap, void*));
			o.arg(tmp, k);
			break;
		}
		default: sxapi_engine_error("format model: conversion");
		}
		++f;
	}
	if (o.used < cap) d[o.used] = 0;
	__sx_n_chk_vsn(d, cap, o.written, fmt, ap2);
	va_end(ap2);
	return o.written;
}
int32_t __sxm_u_vsnprintf_u(UChar* d, int32_t cap, const UChar* fmt, va_list ap) { return vsn(d, cap, fmt, ap); }
static void widen(UChar* f, const char* fmt) {
	int i = 0;
	for (; fmt[i]; ++i) {
		if (i > 500) sxapi_engine_error("format model: long format");
		f[i] = (unsigned char)fmt[i];
	}
	f[i] = 0;
}
int32_t __sxm_u_vsnprintf(UChar* d, int32_t cap, const char* fmt, va_list ap) {
	UChar f[512];
	widen(f, fmt);
	return vsn(d, cap, f, ap);
}
int32_t __sxm_u_sprintf(UChar* d, const char* fmt, ...) {
	UChar f[512];
	widen(f, fmt);
	va_list ap;
	va_start(ap, fmt);
	int32_t r = vsn(d, 0x7fffff, f, ap);
	va_end(ap);
	return r;
}
int32_t __sxm_u_snprintf(UChar* d, int32_t cap, const char* fmt, ...) {
	UChar f[512];
	widen(f, fmt);
	va_list ap;
	va_start(ap, fmt);
	int32_t r = vsn(d, cap, f, ap);
	va_end(ap);
	return r;
}

// ---------------------------------------------------------------- formatted input
// The literal prefix of the format is matched symbolically, the rest of the text is made concrete.
static int32_t vss(const UChar* s, const UChar* fmt, va_list ap) {
	const UChar *p = s, *f = fmt;
	bool seen = false;
	while (*f && *f != '%') {
		NOOPT;
		if (*p != *f) { seen = true; break; }
		++p; ++f;
	}
	if (seen)
		return *p == 0 && p == s ? -1 : 0;
	// common cheap refutations for the formats in use
	if (f[0] == '%' && (f[1] == 'i' || f[1] == 'd' || f[1] == 'u')) {
		UChar c = *p;
		bool maybe = (c >= '0' && c <= '9') || c == '-' || c == '+' || c == ' ' || (c >= 9 && c <= 13) || c >= 0x80;
		if (!maybe && c != 0)
			return 0;
	}
	if (f[0] == '%' && f[1] == '*' && f[2] == '[' && f[3] == '<' && f[4] == ']') {
		if (*p != '<' && *p != 0)
			return 0;
	}
	for (const UChar* q = s;; ++q) {
		NOOPT;
		__sx_concrange(q, 2, "scanned text");
		if (!*q)
			break;
	}
	return __sx_n_vsscanf(s, fmt, ap);
}
int32_t __sxm_u_sscanf_u(const UChar* s, const UChar* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int32_t r = vss(s, fmt, ap);
	va_end(ap);
	return r;
}
int32_t __sxm_u_sscanf(const UChar* s, const char* fmt, ...) {
	UChar f[512];
	widen(f, fmt);
	va_list ap;
	va_start(ap, fmt);
	int32_t r = vss(s, f, ap);
	va_end(ap);
	return r;
}

// streams of a program the harness plays itself
__attribute__((weak)) size_t sx_fread(void* p, size_t s, size_t n, void* f);
__attribute__((weak)) size_t sx_fwrite(const void* p, size_t s, size_t n, void* f);
__attribute__((weak)) int sx_fflush(void* f);
size_t __sxm_fread(void* p, size_t s, size_t n, void* f) { return sx_fread ? sx_fread(p, s, n, f) : fread(p, s, n, (FILE*)f); }
size_t __sxm_fwrite(const void* p, size_t s, size_t n, void* f) { return sx_fwrite ? sx_fwrite(p, s, n, f) : fwrite(p, s, n, (FILE*)f); }
int __sxm_fflush(void* f) { return sx_fflush ? sx_fflush(f) : fflush((FILE*)f); }

void __sxm_exit(int c) { sxapi_exit(c); __builtin_unreachable(); }
void __sxm_abort() { sxapi_fail("abort", "abort() called"); __builtin_unreachable(); }
void __sxm___assert_fail(const char* a, const char*, unsigned, const char*) { sxapi_fail("assert-failed", a); __builtin_unreachable(); }

// hashes: equal contents get equal ids, different contents different ones (no collisions)
__attribute__((weak)) uint32_t _ZN3CG313SuperFastHashEPKDsmj(const UChar* d, size_t n, uint32_t seed);
__attribute__((weak)) uint32_t _ZN3CG313SuperFastHashEPKcmj(const char* d, size_t n, uint32_t seed);
uint32_t __sxo__ZN3CG313SuperFastHashEPKDsmj(const UChar* d, size_t n, uint32_t seed) {
	n = sxapi_conc(n);
	seed = (uint32_t)sxapi_conc(seed);
	return sxapi_intern(d, n * 2, seed, _ZN3CG313SuperFastHashEPKDsmj(d, n, seed));
}
uint32_t __sxo__ZN3CG313SuperFastHashEPKcmj(const char* d, size_t n, uint32_t seed) {
	n = sxapi_conc(n);
	seed = (uint32_t)sxapi_conc(seed);
	return sxapi_intern(d, n, seed ^ 0x5a5a0000u, _ZN3CG313SuperFastHashEPKcmj(d, n, seed));
}

std::istream& __sxm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream& in, std::string& s, char delim) {
	s.clear();
	bool any = false;
	std::istream::sentry ok(in, true);
	if (!ok) { in.setstate(std::ios::failbit); return in; }
	for (;;) {
		int c = in.rdbuf()->sbumpc();
		if (c == EOF) { in.setstate(any ? std::ios::eofbit : std::ios::eofbit | std::ios::failbit); return in; }
		any = true;
		if ((char)c == delim) return in;
		s.push_back((char)c);
	}
}
}
