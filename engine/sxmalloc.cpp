// Linked into every instrumented executable.  Two heaps: the engine (and the solver) use the libc
// heap, the program under test gets its own deterministic arena, so that engine activity never moves
// program addresses between runs.  Freed program blocks lose their shadow.  Every program block is
// followed by a red zone; __sx_heapmap has one byte per 16 bytes of arena: number of addressable bytes
// (0..16), 0 for red zones and freed memory.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <sys/mman.h>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void __sx_clear(void*, uint64_t);
void __sx_memcpy(void*, void*, uint64_t);
extern int __sx_rt;

static const uint64_t ASZ = 8ull << 30;
uint64_t __sx_heapbase = 0;
uint64_t __sx_heapsize = ASZ;
uint8_t* __sx_heapmap = nullptr;
static uint64_t cur = 0;
struct Hdr { uint64_t size; uint64_t cap; };
static Hdr* freel[64];
static const uint64_t QUAR = 512;
static Hdr* quar[QUAR];
static uint64_t quarN = 0;

static void init() {
	if (__sx_heapbase)
		return;
	void* want = (void*)0x200000000000ull;
	void* p = mmap(want, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED)
		abort();
	__sx_heapbase = (uint64_t)p;
	cur = __sx_heapbase;
	__sx_heapmap = (uint8_t*)mmap(nullptr, ASZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline bool mine(void* p) { return __sx_heapbase && (uint64_t)p - __sx_heapbase < ASZ; }
static inline unsigned cls(uint64_t n) { // capacity classes: 16..256 by 16, then powers with 4 steps
	if (n <= 256)
		return (n + 15) / 16; // 1..16
	unsigned l = 63 - __builtin_clzll(n - 1); // 2^l < n <= 2^(l+1), l>=8
	uint64_t base = 1ull << l;
	unsigned q = (unsigned)((n - 1 - base) / (base / 2));
	return 17 + (l - 8) * 2 + q;
}
static inline uint64_t capOf(unsigned c) {
	if (c <= 16)
		return c * 16ull;
	unsigned l = (c - 17) / 2 + 8, q = (c - 17) % 2;
	return (1ull << l) + (q + 1) * ((1ull << l) / 2);
}
static void setmap(uint64_t p, uint64_t n, bool on) {
	uint64_t i = (p - __sx_heapbase) / 16;
	uint64_t full = n / 16;
	memset(__sx_heapmap + i, on ? 16 : 0, full);
	if (n % 16)
		__sx_heapmap[i + full] = on ? n % 16 : 0;
}
static void* amalloc(size_t n, size_t al) {
	init();
	if (n == 0)
		n = 1;
	if (al <= 16) {
		unsigned c = cls(n);
		uint64_t cap = capOf(c);
		Hdr* h = freel[c];
		if (h) {
			freel[c] = *(Hdr**)(h + 1);
		}
		else {
			h = (Hdr*)cur;
			cur += sizeof(Hdr) + cap + 16; // 16 byte red zone at least
			if (cur > __sx_heapbase + ASZ)
				abort();
			h->cap = cap;
		}
		h->size = n;
		setmap((uint64_t)(h + 1), n, true);
		return h + 1;
	}
	uint64_t p = (cur + sizeof(Hdr) + al - 1) & ~(uint64_t)(al - 1);
	Hdr* h = (Hdr*)(p - sizeof(Hdr));
	uint64_t cap = (n + 15) & ~15ull;
	h->cap = cap | (1ull << 63); // never recycled
	h->size = n;
	cur = p + cap + 16;
	setmap(p, n, true);
	return (void*)p;
}
void sxapi_fail(const char*, const char*);
static void afree(void* p) {
	Hdr* h = (Hdr*)p - 1;
	if (!__sx_heapmap[((uint64_t)p - __sx_heapbase) / 16]) {
		sxapi_fail("memory", "double or invalid free");
	}
	__sx_clear(p, h->size);
	setmap((uint64_t)p, h->size, false);
	if (h->cap >> 63)
		return;
	// quarantine delays reuse
	uint64_t s = quarN++ % QUAR;
	Hdr* o = quar[s];
	quar[s] = h;
	if (o) {
		unsigned c = cls(o->cap);
		*(Hdr**)(o + 1) = freel[c];
		freel[c] = o;
	}
}

void* malloc(size_t n) { return __sx_rt ? __libc_malloc(n) : amalloc(n, 16); }
void* calloc(size_t a, size_t b) {
	if (__sx_rt)
		return __libc_calloc(a, b);
	void* p = amalloc(a * b, 16);
	memset(p, 0, a * b);
	return p;
}
void free(void* p) {
	if (!p)
		return;
	int e = errno;
	if (mine(p))
		afree(p);
	else
		__libc_free(p);
	errno = e;
}
size_t malloc_usable_size(void* p) {
	if (!p)
		return 0;
	if (mine(p))
		return ((Hdr*)p - 1)->size;
	return ((size_t*)p)[-1] & ~(size_t)7;
}
void* realloc(void* p, size_t n) {
	if (!p)
		return malloc(n);
	if (!mine(p))
		return __libc_realloc(p, n);
	if (!n) {
		free(p);
		return nullptr;
	}
	size_t o = ((Hdr*)p - 1)->size;
	void* q = amalloc(n, 16);
	size_t m = o < n ? o : n;
	__sx_memcpy(q, p, m);
	memcpy(q, p, m);
	free(p);
	return q;
}
void* memalign(size_t a, size_t n) { return __sx_rt ? __libc_memalign(a, n) : amalloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
	*r = memalign(a, n);
	return *r ? 0 : ENOMEM;
}
}
