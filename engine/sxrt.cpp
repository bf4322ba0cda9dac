// Runtime of the concolic engine: expression DAG, shadow memory, path conditions, z3 back end and
// the exhaustive explorer (fork server).  Built as a shared library, never instrumented itself.
#include <z3.h>
#include <atomic>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <functional>
#include <map>
#include <vector>
#include <algorithm>
#include <pthread.h>
#include <sys/mman.h>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
	CONST = 0, VAR = 1,
	ADD = 2, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
	EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE,
	FADD, FSUB, FMUL, FDIV, FREM,
	FCMP = 32,
	ZEXT = 50, SEXT, TRUNC, FPEXT, FPTRUNC, FPTOUI, FPTOSI, UITOFP, SITOFP, FNEG, BITCAST,
	UMIN = 70, UMAX, SMIN, SMAX, ABS, CTPOP, CTLZ, CTTZ, BSWAP, USUBSAT, UADDSAT,
	UADDO, USUBO, UMULO, SADDO, SSUBO, SMULO, FABS_,
	CONCAT = 100, EXTRACT, ITE
};

struct E {
	u8 op;
	u8 w;      // 1..64
	u8 isbool; // w==1
	u8 fp;     // contains fp op
	u32 id;
	E *a, *b, *c;
	u64 val; // CONST value / VAR index / EXTRACT lo / FCMP predicate
	u64 conc;
	u64 sh; // structural hash, independent of creation order
	Z3_ast z;
	u32 epoch;
	u32 nvar; // 0 none, 1 single var (var idx in svar), 2 many
	u32 svar;
};

EXPORT E* __sx_args[64];
E* __sx_args[64];
EXPORT void* __sx_tok;
void* __sx_tok;
EXPORT E* __sx_ret[8];
E* __sx_ret[8];
EXPORT void* __sx_rettok;
void* __sx_rettok;
EXPORT u8 __sx_pageflags[1 << 20];
u8 __sx_pageflags[1 << 20];

EXPORT int __sx_rt;
int __sx_rt = 0; // >0 while engine code runs: its allocations stay out of the program heap
struct RT {
	RT() { ++__sx_rt; }
	~RT() { --__sx_rt; }
};
// ------------------------------------------------------------------ shared state
static const u32 MAXVARS_DEF = 96;
struct Slot { // frontier item header, followed by u64 vals[maxvars], u64 excl[maxexcl]
	u32 bound, nvals, nexcl, pad;
	u64 sig;
};
struct Viol {
	char msg[256];
	char note[1024];
	u32 nvals;
	u64 vals[1024];
	char kind[16];
};
static const u32 MAXVIOL = 64, MAXSAMP = 6, MAXREASON = 256, PCTAB = 1 << 16, MAXREACH = 128;
struct Shared {
	pthread_mutex_t mu;
	std::atomic<u64> paths, ok, assumed, timeouts, crashes, diverged, exits, violpaths, pathlimit;
	std::atomic<u64> q, qsat, qunsat, qunk, solver_ns, events, multis, trivial, asserts_sym, asserts_conc, asserts_unsat, fastsat, fastunsat, domvalid, fdsat, fdunsat;
	std::atomic<u64> maxevents, stop, overflow, exclcap, varcap;
	u64 fsize, active, peak;
	u32 nviol;
	Viol viol[MAXVIOL];
	u32 nsamp;
	Viol samp[MAXSAMP];
	u32 nreason;
	struct { char why[120]; u64 n; } reason[MAXREASON];
	u64 pcs[PCTAB];
	u32 nreach;
	struct { char what[96]; u64 n; } reach[MAXREACH];
	u32 nvarnames;
	char varname[1024][40];
	u8 varw[1024];
	std::atomic<u64> asserts_checked;
	u32 slotsize;
};
static Shared* S;
static u8* frontier;
static u64 fcap = 400000;
static u32 maxvars = MAXVARS_DEF, maxexcl = 300, slotsize;
static u64 cfg_timeout_ms = 10000, cfg_workers = 8, cfg_budget_ms = 600000, cfg_rlimit = 40000000, cfg_maxviol = 4;
static u64 cfg_exit_viol = 0, cfg_crash_viol = 1, cfg_timeout_viol = 1, cfg_maxevents = 20000, cfg_exc = 0;
static bool started = false, inpath = false;
static std::string outfile;
static u64 now_ns() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000ull + t.tv_nsec;
}
static u64 t_start;

// ------------------------------------------------------------------ expressions
static char* arena = nullptr;
static size_t arenaLeft = 0;
static E* allocE() {
	if (arenaLeft < sizeof(E)) {
		size_t n = 4 << 20;
		arena = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		arenaLeft = n;
	}
	E* e = (E*)arena;
	arena += sizeof(E);
	arenaLeft -= sizeof(E);
	return e;
}
struct Key {
	u8 op, w;
	E *a, *b, *c;
	u64 val;
	bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && val == o.val; }
};
struct KeyH {
	size_t operator()(const Key& k) const {
		u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
		h = (h ^ (u64)k.a) * 0xff51afd7ed558ccdull;
		h ^= h >> 32;
		h = (h ^ (u64)k.b) * 0xc4ceb9fe1a85ec53ull;
		h ^= h >> 29;
		h = (h ^ (u64)k.c) * 0xff51afd7ed558ccdull;
		h = (h ^ k.val) * 0x9E3779B97F4A7C15ull;
		h ^= h >> 31;
		return h;
	}
};
static std::unordered_map<Key, E*, KeyH>& tab() {
	static auto* t = new std::unordered_map<Key, E*, KeyH>();
	return *t;
}
static u32 nextId = 1;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asf(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u64 fbits(float f) { u32 v; memcpy(&v, &f, 4); return v; }

static bool fcmp(unsigned p, double a, double b) {
	bool un = std::isnan(a) || std::isnan(b);
	switch (p) {
	case 0: return false;
	case 1: return !un && a == b;
	case 2: return !un && a > b;
	case 3: return !un && a >= b;
	case 4: return !un && a < b;
	case 5: return !un && a <= b;
	case 6: return !un && a != b;
	case 7: return !un;
	case 8: return un;
	case 9: return un || a == b;
	case 10: return un || a > b;
	case 11: return un || a >= b;
	case 12: return un || a < b;
	case 13: return un || a <= b;
	case 14: return un || a != b;
	default: return true;
	}
}

static u64 evalOp(u8 op, unsigned w, unsigned kw, u64 a, u64 b, u64 c, u64 val) {
	u64 m = mask(w);
	switch (op) {
	case ADD: return (a + b) & m;
	case SUB: return (a - b) & m;
	case MUL: return (a * b) & m;
	case UDIV: return b ? (a / b) & m : m;
	case UREM: return b ? a % b : a;
	case SDIV: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return x < 0 ? 1 : m;
		if (y == -1) return (u64)(-(u64)x) & m;
		return (u64)(x / y) & m;
	}
	case SREM: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return a;
		if (y == -1) return 0;
		return (u64)(x % y) & m;
	}
	case SHL: return b >= w ? 0 : (a << b) & m;
	case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx(a, kw) < sx(b, kw);
	case SLE: return sx(a, kw) <= sx(b, kw);
	case ZEXT: return a;
	case SEXT: return (u64)sx(a, kw) & m;
	case EXTRACT: return (a >> val) & m;
	case CONCAT: return ((a << val) | b) & m; // val = width of b
	case ITE: return a ? b : c;
	case FADD: return w == 64 ? dbits(asd(a) + asd(b)) : fbits(asf(a) + asf(b));
	case FSUB: return w == 64 ? dbits(asd(a) - asd(b)) : fbits(asf(a) - asf(b));
	case FMUL: return w == 64 ? dbits(asd(a) * asd(b)) : fbits(asf(a) * asf(b));
	case FDIV: return w == 64 ? dbits(asd(a) / asd(b)) : fbits(asf(a) / asf(b));
	case FCMP: return kw == 64 ? fcmp(val, asd(a), asd(b)) : fcmp(val, asf(a), asf(b));
	case FPEXT: return dbits((double)asf(a));
	case FPTRUNC: return fbits((float)asd(a));
	case FPTOUI: { double d = kw == 64 ? asd(a) : asf(a); return (w == 64 ? (u64)d : (u64)(int64_t)d) & m; }
	case FPTOSI: { double d = kw == 64 ? asd(a) : asf(a); return (u64)(int64_t)d & m; }
	case UITOFP: return w == 64 ? dbits((double)a) : fbits((float)a);
	case SITOFP: return w == 64 ? dbits((double)sx(a, kw)) : fbits((float)sx(a, kw));
	}
	fprintf(stderr, "sx: evalOp %d\n", op);
	abort();
}

static E* raw(u8 op, unsigned w, E* a, E* b, E* c, u64 val, u64 conc) {
	Key k{ op, (u8)w, a, b, c, val };
	auto& t = tab();
	auto it = t.find(k);
	if (it != t.end())
		return it->second;
	E* e = allocE();
	e->op = op;
	e->w = w;
	e->isbool = w == 1;
	e->a = a;
	e->b = b;
	e->c = c;
	e->val = val;
	e->conc = conc;
	e->id = nextId++;
	{
		u64 h = (((u64)op << 8 | w) + 0x1234567) * 0x9E3779B97F4A7C15ull ^ val;
		for (E* k2 : { a, b, c }) {
			h = (h ^ (k2 ? k2->sh : 77)) * 0xff51afd7ed558ccdull;
			h ^= h >> 31;
		}
		e->sh = h;
	}
	e->z = nullptr;
	e->epoch = 0;
	e->fp = (op >= FADD && op < ZEXT) || (op >= FPEXT && op <= SITOFP);
	e->nvar = 0;
	e->svar = 0;
	for (E* k2 : { a, b, c }) {
		if (!k2)
			continue;
		e->fp |= k2->fp;
		if (k2->nvar == 0)
			continue;
		if (e->nvar == 0) {
			e->nvar = k2->nvar;
			e->svar = k2->svar;
		}
		else if (k2->nvar == 2 || k2->svar != e->svar) {
			e->nvar = 2;
		}
	}
	if (op == VAR) {
		e->nvar = 1;
		e->svar = val;
	}
	t.emplace(k, e);
	return e;
}
static E* K(u64 v, unsigned w) { return raw(CONST, w, nullptr, nullptr, nullptr, v & mask(w), v & mask(w)); }
static inline bool isC(E* e) { return e->op == CONST; }
static inline bool isC(E* e, u64 v) { return e->op == CONST && e->val == v; }

static E* mk(u8 op, unsigned w, E* a, E* b = nullptr, E* c = nullptr, u64 val = 0);
static E* mkNot(E* e) { return mk(XOR, 1, e, K(1, 1)); }
static E* ext(E* a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w)
		return a;
	return mk(EXTRACT, w, a, nullptr, nullptr, lo);
}
static E* zx(E* a, unsigned w) { return a->w == w ? a : mk(ZEXT, w, a); }

static E* mk(u8 op, unsigned w, E* a, E* b, E* c, u64 val) {
	// constant folding
	if ((!a || isC(a)) && (!b || isC(b)) && (!c || isC(c)))
		return K(evalOp(op, w, a->w, a->val, b ? b->val : 0, c ? c->val : 0, val), w);
	// commutative: constant right
	switch (op) {
	case ADD: case MUL: case AND: case OR: case XOR: case EQ:
		if (isC(a) || (!isC(b) && a->sh > b->sh))
			std::swap(a, b);
		break;
	default: break;
	}
	u64 m = mask(w);
	switch (op) {
	case FADD: // x + (-y), with the minus as a flipped sign bit, is x - y
		if (b->op == XOR && isC(b->b, 1ull << (w - 1))) return mk(FSUB, w, a, b->a);
		break;
	case ADD:
		if (isC(b, 0)) return a;
		if (w == 1) return mk(XOR, 1, a, b);
		if (isC(b) && a->op == ADD && isC(a->b)) return mk(ADD, w, a->a, K(a->b->val + b->val, w));
		break;
	case SUB:
		if (isC(b, 0)) return a;
		if (a == b) return K(0, w);
		if (isC(b)) return mk(ADD, w, a, K(-b->val, w));
		if (w == 1) return mk(XOR, 1, a, b);
		break;
	case MUL:
		if (isC(b, 0)) return b;
		if (isC(b, 1)) return a;
		if (w == 1) return mk(AND, 1, a, b);
		break;
	case AND:
		if (isC(b, 0)) return b;
		if (isC(b, m)) return a;
		if (a == b) return a;
		if (isC(b) && a->op == ZEXT) {
			u64 mm = mask(a->a->w);
			if ((b->val & mm) == mm) return a;
			return zx(mk(AND, a->a->w, a->a, K(b->val, a->a->w)), w);
		}
		if (isC(b) && a->op == AND && isC(a->b)) return mk(AND, w, a->a, K(a->b->val & b->val, w));
		break;
	case OR:
		if (isC(b, 0)) return a;
		if (isC(b, m)) return b;
		if (a == b) return a;
		// or of shifted disjoint zexts stays as is
		break;
	case XOR:
		if (isC(b, 0)) return a;
		if (a == b) return K(0, w);
		if (isC(b) && a->op == XOR && isC(a->b)) return mk(XOR, w, a->a, K(a->b->val ^ b->val, w));
		break;
	case SHL:
		if (isC(b, 0)) return a;
		if (isC(b) && b->val >= w) return K(0, w);
		break;
	case LSHR:
		if (isC(b, 0)) return a;
		if (isC(b) && b->val >= w) return K(0, w);
		if (isC(b) && a->op == ZEXT && b->val >= a->a->w) return K(0, w);
		if (isC(b)) return zx(ext(a, b->val, w - b->val), w);
		break;
	case UDIV:
		if (isC(b, 1)) return a;
		break;
	case EQ:
		if (a == b) return K(1, 1);
		if (a->w == 1 && isC(b)) return b->val ? a : mkNot(a);
		if (isC(b)) {
			if (a->op == ZEXT) {
				if (b->val > mask(a->a->w)) return K(0, 1);
				return mk(EQ, 1, a->a, K(b->val, a->a->w));
			}
			if (a->op == SEXT) {
				u64 t = b->val & mask(a->a->w);
				if (((u64)sx(t, a->a->w) & mask(a->w)) != b->val) return K(0, 1);
				return mk(EQ, 1, a->a, K(t, a->a->w));
			}
			if (a->op == ADD && isC(a->b)) return mk(EQ, 1, a->a, K(b->val - a->b->val, a->w));
			if (a->op == XOR && isC(a->b)) return mk(EQ, 1, a->a, K(b->val ^ a->b->val, a->w));
			if (a->op == ITE && isC(a->b) && isC(a->c)) {
				bool x = a->b->val == b->val, y = a->c->val == b->val;
				if (x && y) return K(1, 1);
				if (!x && !y) return K(0, 1);
				return x ? a->a : mkNot(a->a);
			}
			if (a->op == CONCAT) {
				unsigned lw = a->b->w;
				E* h = mk(EQ, 1, a->a, K(b->val >> lw, a->a->w));
				E* l = mk(EQ, 1, a->b, K(b->val, lw));
				return mk(AND, 1, h, l);
			}
		}
		else if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) {
			return mk(EQ, 1, a->a, b->a);
		}
		break;
	case ULT:
		if (a == b) return K(0, 1);
		if (isC(b, 0)) return K(0, 1);
		if (isC(b, 1)) return mk(EQ, 1, a, K(0, a->w));
		if (isC(b) && a->op == ZEXT) {
			if (b->val > mask(a->a->w)) return K(1, 1);
			return mk(ULT, 1, a->a, K(b->val, a->a->w));
		}
		if (isC(a) && b->op == ZEXT) {
			if (a->val > mask(b->a->w)) return K(0, 1);
			return mk(ULT, 1, K(a->val, b->a->w), b->a);
		}
		break;
	case ULE:
		if (a == b) return K(1, 1);
		return mkNot(mk(ULT, 1, b, a));
	case SLE:
		if (a == b) return K(1, 1);
		return mkNot(mk(SLT, 1, b, a));
	case SLT:
		if (a == b) return K(0, 1);
		if (isC(b) && a->op == ZEXT && a->w > a->a->w && sx(b->val, a->w) >= 0)
			return mk(ULT, 1, a, b);
		if (isC(b) && a->op == ZEXT && a->w > a->a->w && sx(b->val, a->w) < 0)
			return K(0, 1);
		if (isC(a) && b->op == ZEXT && b->w > b->a->w && sx(a->val, b->w) >= 0)
			return mk(ULT, 1, a, b);
		if (isC(a) && b->op == ZEXT && b->w > b->a->w && sx(a->val, b->w) < 0)
			return K(1, 1);
		break;
	case ZEXT:
		if (a->w == w) return a;
		if (a->op == ZEXT) return mk(ZEXT, w, a->a);
		break;
	case SEXT:
		if (a->w == w) return a;
		if (a->op == ZEXT && a->w > a->a->w) return mk(ZEXT, w, a->a);
		break;
	case EXTRACT: {
		if (val == 0 && w == a->w) return a;
		if (a->op == EXTRACT) return ext(a->a, a->val + val, w);
		if (a->op == ZEXT) {
			if (val >= a->a->w) return K(0, w);
			if (val + w <= a->a->w) return ext(a->a, val, w);
			return zx(ext(a->a, val, a->a->w - val), w);
		}
		if (a->op == SEXT && val + w <= a->a->w) return ext(a->a, val, w);
		if (a->op == CONCAT) {
			unsigned lw = a->b->w;
			if (val + w <= lw) return ext(a->b, val, w);
			if (val >= lw) return ext(a->a, val - lw, w);
		}
		if ((a->op == AND || a->op == OR || a->op == XOR) && isC(a->b))
			return mk(a->op, w, ext(a->a, val, w), K(a->b->val >> val, w));
		if (val == 0 && (a->op == ADD || a->op == MUL) && isC(a->b) && w > 1)
			return mk(a->op, w, ext(a->a, 0, w), K(a->b->val, w));
		if (a->op == ITE && isC(a->b) && isC(a->c))
			return mk(ITE, w, a->a, K(a->b->val >> val, w), K(a->c->val >> val, w));
		break;
	}
	case CONCAT: {
		val = b->w;
		if (isC(a, 0)) return zx(b, w);
		// adjacent extracts
		if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->val == b->val + b->w)
			return ext(a->a, b->val, w);
		if (a->op == EXTRACT && a->a == b && a->val == b->w)
			return ext(a->a, 0, w); // b is whole low part? only if b == a->a prefix
		if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && b->a->a == a->a && a->val == b->a->val + b->a->w)
			return mk(CONCAT, w, ext(a->a, b->a->val, a->w + b->a->w), b->b);
		break;
	}
	case ITE:
		if (isC(a)) return a->val ? b : c;
		if (b == c) return b;
		if (w == 1 && isC(b) && isC(c)) return b->val ? a : mkNot(a);
		if (w == 1 && isC(c, 0)) return mk(AND, 1, a, b);
		if (w == 1 && isC(b, 1)) return mk(OR, 1, a, c);
		if (w == 1 && isC(b, 0)) return mk(AND, 1, mkNot(a), c);
		if (w == 1 && isC(c, 1)) return mk(OR, 1, mkNot(a), b);
		if (a->op == XOR && isC(a->b, 1) && a->w == 1) return mk(ITE, w, a->a, c, b);
		break;
	default: break;
	}
	u64 conc = evalOp(op, w, a->w, a->conc, b ? b->conc : 0, c ? c->conc : 0, val);
	return raw(op, w, a, b, c, val, conc);
}

// ------------------------------------------------------------------ z3 translation
static Z3_context Z;
static Z3_solver SOL;
static Z3_sort sortBV[65];
static Z3_sort sortD, sortF, sortB;
static Z3_ast RNE, RTZ;
static bool solFP = false;
static std::vector<Z3_ast> varAst;
static Z3_sort bvs(unsigned w) {
	if (!sortBV[w])
		sortBV[w] = Z3_mk_bv_sort(Z, w);
	return sortBV[w];
}
static void zerr(Z3_context c, Z3_error_code e) {
	fprintf(stderr, "sx: z3 error: %s\n", Z3_get_error_msg(c, e));
	_exit(97);
}
static void initZ3() {
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	Z = Z3_mk_context(cfg);
	Z3_set_error_handler(Z, zerr);
	Z3_del_config(cfg);
	sortD = Z3_mk_fpa_sort_double(Z);
	sortF = Z3_mk_fpa_sort_single(Z);
	sortB = Z3_mk_bool_sort(Z);
	RNE = Z3_mk_fpa_round_nearest_ties_to_even(Z);
	RTZ = Z3_mk_fpa_round_toward_zero(Z);
}
static Z3_ast T(E* e);
static Z3_ast asBV(E* e) {
	Z3_ast z = T(e);
	if (e->w == 1)
		return Z3_mk_ite(Z, z, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
	return z;
}
static Z3_ast toFP(E* e) { return Z3_mk_fpa_to_fp_bv(Z, T(e), e->w == 64 ? sortD : sortF); }
static Z3_ast T(E* e) {
	if (e->z)
		return e->z;
	Z3_ast r = nullptr;
	Z3_ast a[2];
	switch (e->op) {
	case CONST:
		r = e->w == 1 ? (e->val ? Z3_mk_true(Z) : Z3_mk_false(Z)) : Z3_mk_unsigned_int64(Z, e->val, bvs(e->w));
		break;
	case VAR: {
		while (varAst.size() <= e->val)
			varAst.push_back(nullptr);
		r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->val), bvs(e->w));
		varAst[e->val] = r;
		break;
	}
	case ADD: r = Z3_mk_bvadd(Z, T(e->a), T(e->b)); break;
	case SUB: r = Z3_mk_bvsub(Z, T(e->a), T(e->b)); break;
	case MUL: r = Z3_mk_bvmul(Z, T(e->a), T(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(Z, asBV(e->a), asBV(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(Z, asBV(e->a), asBV(e->b)); break;
	case UREM: r = Z3_mk_bvurem(Z, asBV(e->a), asBV(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(Z, asBV(e->a), asBV(e->b)); break;
	case SHL: r = Z3_mk_bvshl(Z, asBV(e->a), asBV(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(Z, asBV(e->a), asBV(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(Z, asBV(e->a), asBV(e->b)); break;
	case AND:
		a[0] = T(e->a); a[1] = T(e->b);
		r = e->w == 1 ? Z3_mk_and(Z, 2, a) : Z3_mk_bvand(Z, a[0], a[1]);
		break;
	case OR:
		a[0] = T(e->a); a[1] = T(e->b);
		r = e->w == 1 ? Z3_mk_or(Z, 2, a) : Z3_mk_bvor(Z, a[0], a[1]);
		break;
	case XOR:
		if (e->w == 1) {
			if (isC(e->b, 1)) r = Z3_mk_not(Z, T(e->a));
			else r = Z3_mk_xor(Z, T(e->a), T(e->b));
		}
		else
			r = Z3_mk_bvxor(Z, T(e->a), T(e->b));
		break;
	case EQ: r = Z3_mk_eq(Z, T(e->a), T(e->b)); break;
	case ULT: r = Z3_mk_bvult(Z, asBV(e->a), asBV(e->b)); break;
	case ULE: r = Z3_mk_bvule(Z, asBV(e->a), asBV(e->b)); break;
	case SLT: r = Z3_mk_bvslt(Z, asBV(e->a), asBV(e->b)); break;
	case SLE: r = Z3_mk_bvsle(Z, asBV(e->a), asBV(e->b)); break;
	case ZEXT:
		if (e->a->w == 1)
			r = Z3_mk_ite(Z, T(e->a), Z3_mk_unsigned_int64(Z, 1, bvs(e->w)), Z3_mk_unsigned_int64(Z, 0, bvs(e->w)));
		else
			r = Z3_mk_zero_ext(Z, e->w - e->a->w, T(e->a));
		break;
	case SEXT:
		if (e->a->w == 1)
			r = Z3_mk_ite(Z, T(e->a), Z3_mk_unsigned_int64(Z, mask(e->w), bvs(e->w)), Z3_mk_unsigned_int64(Z, 0, bvs(e->w)));
		else
			r = Z3_mk_sign_ext(Z, e->w - e->a->w, T(e->a));
		break;
	case EXTRACT:
		r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, asBV(e->a));
		if (e->w == 1)
			r = Z3_mk_eq(Z, r, Z3_mk_unsigned_int64(Z, 1, bvs(1)));
		break;
	case CONCAT: r = Z3_mk_concat(Z, asBV(e->a), asBV(e->b)); break;
	case ITE: r = Z3_mk_ite(Z, T(e->a), T(e->b), T(e->c)); break;
	case FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, RNE, toFP(e->a), toFP(e->b))); break;
	case FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, RNE, toFP(e->a), toFP(e->b))); break;
	case FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, RNE, toFP(e->a), toFP(e->b))); break;
	case FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, RNE, toFP(e->a), toFP(e->b))); break;
	case FCMP: {
		Z3_ast x = toFP(e->a), y = toFP(e->b);
		Z3_ast nn[2] = { Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y) };
		Z3_ast un = Z3_mk_or(Z, 2, nn);
		Z3_ast base = nullptr;
		switch (e->val & 7) {
		case 1: base = Z3_mk_fpa_eq(Z, x, y); break;
		case 2: base = Z3_mk_fpa_gt(Z, x, y); break;
		case 3: base = Z3_mk_fpa_geq(Z, x, y); break;
		case 4: base = Z3_mk_fpa_lt(Z, x, y); break;
		case 5: base = Z3_mk_fpa_leq(Z, x, y); break;
		case 6: { Z3_ast t[2] = { Z3_mk_not(Z, un), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)) }; base = Z3_mk_and(Z, 2, t); break; }
		case 7: base = Z3_mk_not(Z, un); break;
		default: base = Z3_mk_false(Z);
		}
		if (e->val & 8) {
			Z3_ast t[2] = { un, base };
			r = Z3_mk_or(Z, 2, t);
		}
		else
			r = base;
		break;
	}
	case FPEXT: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, RNE, toFP(e->a), sortD)); break;
	case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, RNE, toFP(e->a), sortF)); break;
	case FPTOUI: r = Z3_mk_fpa_to_ubv(Z, RTZ, toFP(e->a), e->w); break;
	case FPTOSI: r = Z3_mk_fpa_to_sbv(Z, RTZ, toFP(e->a), e->w); break;
	case UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, RNE, asBV(e->a), e->w == 64 ? sortD : sortF)); break;
	case SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, RNE, asBV(e->a), e->w == 64 ? sortD : sortF)); break;
	default:
		fprintf(stderr, "sx: translate op %d\n", e->op);
		_exit(98);
	}
	e->z = r;
	return r;
}

// ------------------------------------------------------------------ path state
struct Var { std::string name; u8 w; E* e; };
static std::vector<Var> vars;
static std::vector<u64> inVals;
static std::vector<u64> inExcl;
static u32 inBound = 0;
static u64 inSig = 0;
static u32 nEvents = 0;
static u64 curSig = 0;
static std::unordered_map<E*, u64>* known; // condition -> truth, multi -> value
static std::string pathNote;
static u32 solAsserts = 0;

static void reason(const char* why) {
	for (u32 i = 0; i < S->nreason; ++i) {
		if (strncmp(S->reason[i].why, why, sizeof(S->reason[0].why) - 1) == 0) {
			__atomic_fetch_add(&S->reason[i].n, 1, __ATOMIC_RELAXED);
			return;
		}
	}
	pthread_mutex_lock(&S->mu);
	if (S->nreason < MAXREASON) {
		u32 i = S->nreason;
		strncpy(S->reason[i].why, why, sizeof(S->reason[0].why) - 1);
		S->reason[i].n = 1;
		S->nreason = i + 1;
	}
	pthread_mutex_unlock(&S->mu);
}
static void recPc(void* pc) {
	if (!S)
		return;
	u64 v = (u64)pc;
	u64 h = (v * 0x9E3779B97F4A7C15ull) >> 48;
	for (u32 i = 0; i < 64; ++i) {
		u64& s = S->pcs[(h + i) & (PCTAB - 1)];
		if (s == v)
			return;
		if (s == 0) {
			u64 z = 0;
			if (__atomic_compare_exchange_n(&s, &z, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || z == v)
				return;
		}
	}
}

[[noreturn]] static void pathEnd(int code) {
	// codes: 0 ok, 10 assumed away, 11 diverged, 12 limit, 13 violation(stop), 14 exit
	_exit(code);
}

static Slot* slotAt(u64 i) { return (Slot*)(frontier + i * slotsize); }

static void pushItem(u32 bound, const std::vector<u64>& vals, const std::vector<u64>& excl, u64 sig) {
	if (vals.size() > maxvars) {
		S->varcap++;
		return;
	}
	if (excl.size() > maxexcl) {
		S->exclcap++;
		return;
	}
	pthread_mutex_lock(&S->mu);
	if (S->fsize >= fcap) {
		S->overflow++;
	}
	else {
		Slot* s = slotAt(S->fsize++);
		if (S->fsize > S->peak)
			S->peak = S->fsize;
		s->bound = bound;
		s->nvals = vals.size();
		s->nexcl = excl.size();
		s->sig = sig;
		u64* p = (u64*)(s + 1);
		memcpy(p, vals.data(), vals.size() * 8);
		memcpy(p + maxvars, excl.data(), excl.size() * 8);
	}
	pthread_mutex_unlock(&S->mu);
}

static std::vector<u64> curVals() {
	std::vector<u64> v(vars.size());
	for (size_t i = 0; i < vars.size(); ++i)
		v[i] = vars[i].e->conc;
	for (size_t i = v.size(); i < inVals.size(); ++i)
		v.push_back(inVals[i]);
	return v;
}

static void newSolver() {
	SOL = solFP ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
	Z3_solver_inc_ref(Z, SOL);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)cfg_rlimit);
	Z3_solver_set_params(Z, SOL, p);
	Z3_params_dec_ref(Z, p);
}
static std::vector<E*> assertedE;
static size_t flushed = 0; // assertedE[0..flushed) are in the solver; the rest goes in when it is asked
static void needFP(E* e) {
	if (e->fp && !solFP) {
		solFP = true;
		if (SOL) {
			newSolver();
			flushed = 0;
		}
	}
}
// the solver touches a few megabytes of the (copy-on-write) heap; taking them in one go is much
// cheaper than fault by fault
static char* heapStart = (char*)(((u64)sbrk(0) + 4095) & ~4095ull);
static char* heapLo = nullptr;
static bool prefaulted = false;
static void prefault() {
	if (prefaulted)
		return;
	prefaulted = true;
	char* hi = (char*)sbrk(0);
	if (heapLo && hi > heapLo && hi - heapLo < (64 << 20))
		madvise(heapLo, hi - heapLo, 23 /* MADV_POPULATE_WRITE */);
}
static void flushSolver() {
	prefault();
	if (!SOL)
		newSolver();
	for (; flushed < assertedE.size(); ++flushed)
		Z3_solver_assert(Z, SOL, T(assertedE[flushed]));
}
// Single-variable domains: exact finite-domain propagation for 8-bit variables that only occur
// alone.  dom[v] = set of values allowed by the single-variable conditions asserted so far.
struct Dom { u64 bits[4]; bool shared; };
static std::vector<Dom> dom;
static Dom& domOf(u32 v) {
	while (dom.size() <= v)
		dom.push_back(Dom{ { ~0ull, ~0ull, ~0ull, ~0ull }, false });
	return dom[v];
}
static u64 evalWith(E* e, u64 x, std::unordered_map<E*, u64>& memo) {
	if (e->op == CONST)
		return e->val;
	if (e->op == VAR)
		return x;
	auto it = memo.find(e);
	if (it != memo.end())
		return it->second;
	u64 a = e->a ? evalWith(e->a, x, memo) : 0;
	u64 b = e->b ? evalWith(e->b, x, memo) : 0;
	u64 c = e->c ? evalWith(e->c, x, memo) : 0;
	u64 r = evalOp(e->op, e->w, e->a->w, a, b, c, e->val);
	memo[e] = r;
	return r;
}
static u64 evalModel(E* e, const std::vector<u64>& vals, std::unordered_map<E*, u64>& memo) {
	if (e->op == CONST)
		return e->val;
	if (e->op == VAR)
		return vals[e->val];
	auto it = memo.find(e);
	if (it != memo.end())
		return it->second;
	u64 a = e->a ? evalModel(e->a, vals, memo) : 0;
	u64 b = e->b ? evalModel(e->b, vals, memo) : 0;
	u64 c = e->c ? evalModel(e->c, vals, memo) : 0;
	u64 r = evalOp(e->op, e->w, e->a->w, a, b, c, e->val);
	memo[e] = r;
	return r;
}
// evaluation of a fixed term for many values of one variable; everything else keeps its current value
static u32 walkEpoch = 1;
struct Slice {
	struct N { E* e; int a, b, c; };
	std::vector<N> n;
	std::vector<u64> val;
	u32 v;
	std::unordered_map<E*, int> idx; // -1: does not depend on v
	int add(E* e) {
		if (e->nvar == 0 || (e->nvar == 1 && e->svar != v))
			return -1;
		auto it = idx.find(e);
		if (it != idx.end())
			return it->second;
		int a = e->a ? add(e->a) : -1, b = e->b ? add(e->b) : -1, c = e->c ? add(e->c) : -1;
		int r = -1;
		if (e->op == VAR || a >= 0 || b >= 0 || c >= 0) {
			r = (int)n.size();
			n.push_back(N{ e, a, b, c });
		}
		idx[e] = r;
		return r;
	}
	void eval(u64 x) {
		val.resize(n.size());
		for (size_t i = 0; i < n.size(); ++i) {
			auto& k = n[i];
			E* e = k.e;
			if (e->op == VAR) {
				val[i] = x;
				continue;
			}
			u64 a = k.a >= 0 ? val[k.a] : e->a ? e->a->conc : 0;
			u64 b = k.b >= 0 ? val[k.b] : e->b ? e->b->conc : 0;
			u64 c = k.c >= 0 ? val[k.c] : e->c ? e->c->conc : 0;
			val[i] = evalOp(e->op, e->w, e->a->w, a, b, c, e->val);
		}
	}
	u64 get(E* e, int i) { return i >= 0 ? val[i] : e->conc; }
};
template<typename F>
static void varsOfR(E* e, F& f, std::unordered_map<E*, char>& seen, std::unordered_map<u32, char>& out) {
	if (e->nvar == 0)
		return;
	if (e->nvar == 1) {
		if (!out[e->svar]) {
			out[e->svar] = 1;
			f(e->svar);
		}
		return;
	}
	if (seen[e])
		return;
	seen[e] = 1;
	if (e->a) varsOfR(e->a, f, seen, out);
	if (e->b) varsOfR(e->b, f, seen, out);
	if (e->c) varsOfR(e->c, f, seen, out);
}
template<typename F>
static void varsOf(E* e, F f) {
	std::unordered_map<E*, char> seen;
	std::unordered_map<u32, char> out;
	varsOfR(e, f, seen, out);
}
static std::vector<std::vector<E*>> multiOf; // asserted terms over several variables (or wide ones), per variable

static bool single8(E* e) { return e->nvar == 1 && vars[e->svar].w == 8 && !e->fp; }
static void truthSet(E* e, u64 out[4]) {
	memset(out, 0, 32);
	Slice sl;
	sl.v = e->svar;
	int r = sl.add(e);
	for (unsigned x = 0; x < 256; ++x) {
		sl.eval(x);
		if (sl.get(e, r) & 1)
			out[x >> 6] |= 1ull << (x & 63);
	}
}
static void markShared(E* e) {
	if (e->nvar == 0)
		return;
	if (e->op == VAR) {
		domOf(e->val).shared = true;
		return;
	}
	if (e->epoch == 1)
		return;
	e->epoch = 1;
	if (e->a) markShared(e->a);
	if (e->b) markShared(e->b);
	if (e->c) markShared(e->c);
}
static void zassert(E* e) {
	if (isC(e))
		return;
	needFP(e);
	assertedE.push_back(e);
	if (single8(e)) {
		u64 t[4];
		truthSet(e, t);
		auto& d = domOf(e->svar);
		for (int i = 0; i < 4; ++i)
			d.bits[i] &= t[i];
	}
	else {
		markShared(e);
		varsOf(e, [&](u32 v) {
			while (multiOf.size() <= v)
				multiOf.emplace_back();
			multiOf[v].push_back(e);
		});
	}
}
// Exact finite-domain decision for the connected component of 8-bit variables the conditions touch:
// backtracking over the domains, every asserted term of the component checked as soon as its variables are set.
// Returns 1 (model in vals), 0 (none exists), -1 (not applicable or too big: the SMT solver decides).
static int fdSolve(E* const* conds, unsigned n, std::vector<u64>* vals) {
	std::vector<u32> V;
	std::vector<int> pos(vars.size(), -1);
	bool bad = false;
	auto addv = [&](u32 v) {
		if (pos[v] >= 0)
			return;
		if (vars[v].w != 8)
			bad = true;
		pos[v] = (int)V.size();
		V.push_back(v);
	};
	std::vector<E*> cs;
	std::unordered_map<E*, char> have;
	for (unsigned i = 0; i < n; ++i) {
		if (isC(conds[i]))
			continue;
		if (conds[i]->fp)
			return -1;
		varsOf(conds[i], addv);
		if (!have[conds[i]]++)
			cs.push_back(conds[i]);
	}
	for (size_t i = 0; i < V.size() && !bad; ++i) {
		u32 v = V[i];
		if (v >= multiOf.size())
			continue;
		for (E* m : multiOf[v])
			if (!have[m]++) {
				if (m->fp)
					return -1;
				cs.push_back(m);
				varsOf(m, addv);
			}
	}
	if (bad || V.size() > 8 || cs.size() > 400)
		return -1;
	// small domains first
	std::vector<std::vector<u8>> dv(V.size());
	for (size_t i = 0; i < V.size(); ++i) {
		auto& d = domOf(V[i]);
		for (unsigned x = 0; x < 256; ++x)
			if ((d.bits[x >> 6] >> (x & 63)) & 1)
				dv[i].push_back(x);
		if (dv[i].empty())
			return 0;
	}
	std::vector<int> ord(V.size());
	for (size_t i = 0; i < ord.size(); ++i)
		ord[i] = (int)i;
	std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return dv[a].size() < dv[b].size(); });
	std::vector<int> rank(V.size());
	for (size_t i = 0; i < ord.size(); ++i)
		rank[ord[i]] = (int)i;
	// one shared evaluation program
	struct N { E* e; int a, b, c; };
	std::vector<N> prog;
	std::vector<int> lvl; // last rank a node depends on
	std::unordered_map<E*, int> idx;
	bool big = false;
	std::function<int(E*)> add = [&](E* e) -> int {
		if (!e || e->nvar == 0)
			return -1;
		auto it = idx.find(e);
		if (it != idx.end())
			return it->second;
		if (prog.size() > 3000) {
			big = true;
			return -1;
		}
		int a = add(e->a), b = add(e->b), c = add(e->c);
		int l = e->op == VAR ? rank[pos[e->val]] : 0;
		for (int k : { a, b, c })
			if (k >= 0)
				l = std::max(l, lvl[k]);
		int r = (int)prog.size();
		prog.push_back(N{ e, a, b, c });
		lvl.push_back(l);
		idx[e] = r;
		return r;
	};
	std::vector<std::vector<int>> at(V.size()), nodes(V.size());
	for (E* e : cs) {
		int r = add(e);
		if (big)
			return -1;
		if (r >= 0)
			at[lvl[r]].push_back(r);
	}
	for (size_t i = 0; i < prog.size(); ++i)
		nodes[lvl[i]].push_back((int)i);
	std::vector<u64> val(prog.size());
	std::vector<size_t> it(V.size(), 0);
	u64 steps = 0;
	int L = 0, N_ = (int)V.size();
	if (N_ == 0)
		return -1;
	std::vector<u8> cur(V.size());
	while (L >= 0) {
		if (L == N_) {
			if (vals) {
				*vals = curVals();
				for (int i = 0; i < N_; ++i)
					(*vals)[V[ord[i]]] = cur[i];
			}
			return 1;
		}
		auto& D = dv[ord[L]];
		if (it[L] >= D.size()) {
			it[L] = 0;
			--L;
			continue;
		}
		cur[L] = D[it[L]++];
		steps += nodes[L].size() + 1;
		if (steps > 200000)
			return -1;
		for (int i : nodes[L]) {
			auto& k = prog[i];
			E* e = k.e;
			if (e->op == VAR) {
				val[i] = cur[rank[pos[e->val]]];
				continue;
			}
			u64 a = k.a >= 0 ? val[k.a] : e->a ? e->a->val : 0;
			u64 b = k.b >= 0 ? val[k.b] : e->b ? e->b->val : 0;
			u64 c = k.c >= 0 ? val[k.c] : e->c ? e->c->val : 0;
			val[i] = evalOp(e->op, e->w, e->a->w, a, b, c, e->val);
		}
		bool ok = true;
		for (int r : at[L])
			if (!(val[r] & 1)) {
				ok = false;
				break;
			}
		if (ok)
			++L;
	}
	return 0;
}
// is pc && cond(s) satisfiable? returns 1 sat (vals filled), 0 unsat, -1 unknown
static int check(E* const* conds, unsigned n, std::vector<u64>* vals, bool force = false) {
	S->q++;
	for (unsigned i = 0; i < n; ++i) {
		if (isC(conds[i], 0)) {
			S->qunsat++;
			return 0;
		}
	}
	if (!force) {
		// exact finite-domain decision for one 8-bit variable not constrained jointly
		bool allSingle = n > 0;
		u32 v = 0;
		for (unsigned i = 0; i < n; ++i) {
			if (isC(conds[i]))
				continue;
			if (!single8(conds[i])) {
				allSingle = false;
				break;
			}
			if (i == 0)
				v = conds[i]->svar;
			else if (conds[i]->svar != v)
				allSingle = false;
		}
		if (allSingle && conds[0]->nvar == 1) {
			auto d = domOf(v);
			for (unsigned i = 0; i < n; ++i) {
				if (isC(conds[i]))
					continue;
				u64 t[4];
				truthSet(conds[i], t);
				for (int k = 0; k < 4; ++k)
					d.bits[k] &= t[k];
			}
			bool any = d.bits[0] | d.bits[1] | d.bits[2] | d.bits[3];
			if (!any) {
				S->fastunsat++;
				return 0;
			}
			if (!d.shared) {
				S->fastsat++;
				if (vals) {
					*vals = curVals();
					for (int k = 0; k < 4; ++k)
						if (d.bits[k]) {
							(*vals)[v] = k * 64 + __builtin_ctzll(d.bits[k]);
							break;
						}
				}
				return 1;
			}
		}
	}
	// a model one variable away from the current one, checked by evaluation of every condition on it
	if (vals && !force) {
		std::vector<u32> cand;
		for (unsigned i = 0; i < n; ++i)
			varsOf(conds[i], [&](u32 v) {
				if (cand.size() < 8 && std::find(cand.begin(), cand.end(), v) == cand.end())
					cand.push_back(v);
			});
		for (u32 v : cand) {
			Slice sl;
			sl.v = v;
			std::vector<std::pair<E*, int>> all;
			for (unsigned i = 0; i < n; ++i)
				all.emplace_back(conds[i], sl.add(conds[i]));
			if (v < multiOf.size())
				for (E* m : multiOf[v])
					all.emplace_back(m, sl.add(m));
			std::vector<u64> xs;
			u64 base = vars[v].e->conc;
			unsigned w = vars[v].w;
			if (w == 8) {
				auto& d = domOf(v);
				for (u32 x = 0; x < 256; ++x)
					if ((d.bits[x >> 6] >> (x & 63)) & 1)
						xs.push_back(x);
			}
			else {
				for (u64 o : { 0ull, 1ull, ~0ull, 2ull })
					xs.push_back((base + o) & mask(w)), xs.push_back(o & mask(w));
				for (auto& ov : vars)
					for (u64 o : { 0ull, 1ull, ~0ull })
						xs.push_back((ov.e->conc + o) & mask(w));
				for (unsigned b = 0; b < w; ++b)
					xs.push_back(base ^ (1ull << b));
				for (auto& k : sl.n)
					for (E* q : { k.e->a, k.e->b })
						if (q && isC(q) && xs.size() < 400)
							for (u64 o : { 0ull, 1ull, ~0ull })
								xs.push_back((q->val + o) & mask(w));
			}
			for (u64 x : xs) {
				if (x == base)
					continue;
				sl.eval(x);
				bool ok = true;
				for (auto& p : all)
					if (!(sl.get(p.first, p.second) & 1)) {
						ok = false;
						break;
					}
				if (ok) {
					S->fastsat++;
					*vals = curVals();
					(*vals)[v] = x;
					return 1;
				}
			}
		}
	}
	int fd = force ? -1 : fdSolve(conds, n, vals);
	static bool xcheck = getenv("SX_XCHECK") != nullptr;
	if (fd >= 0 && !xcheck) {
		fd ? S->fdsat++ : S->fdunsat++;
		return fd;
	}
	for (unsigned i = 0; i < n; ++i)
		needFP(conds[i]);
	u64 t0 = now_ns();
	if (solFP)
		prefault();
	else
		flushSolver();
	// the path's own CPU-time limit does not run while the solver works
	itimerval tsave{}, tsolve{};
	tsolve.it_value.tv_sec = 60;
	setitimer(ITIMER_VIRTUAL, &tsolve, nullptr);
	tsolve.it_value.tv_sec = 0;
	setitimer(ITIMER_PROF, &tsolve, &tsave);
	// floating point goes to the bit-blasting tactic, in a fresh solver for each question; every model is
	// checked by evaluation
	Z3_solver inc = SOL;
	if (solFP) {
		Z3_tactic ta = Z3_mk_tactic(Z, "qffpbv");
		Z3_tactic_inc_ref(Z, ta);
		SOL = Z3_mk_solver_from_tactic(Z, ta);
		Z3_solver_inc_ref(Z, SOL);
		Z3_tactic_dec_ref(Z, ta);
		for (E* e : assertedE)
			Z3_solver_assert(Z, SOL, T(e));
	}
	else
		Z3_solver_push(Z, SOL);
	for (unsigned i = 0; i < n; ++i)
		Z3_solver_assert(Z, SOL, T(conds[i]));
	Z3_lbool r = Z3_solver_check(Z, SOL);
	int res = -1;
	if (r == Z3_L_TRUE) {
		res = 1;
		S->qsat++;
		if (vals) {
			*vals = curVals();
			Z3_model mo = Z3_solver_get_model(Z, SOL);
			Z3_model_inc_ref(Z, mo);
			for (size_t i = 0; i < vars.size(); ++i) {
				if (i >= varAst.size() || !varAst[i])
					continue;
				Z3_ast out = nullptr;
				if (Z3_model_eval(Z, mo, varAst[i], false, &out) && Z3_get_ast_kind(Z, out) == Z3_NUMERAL_AST) {
					uint64_t x = 0;
					if (Z3_get_numeral_uint64(Z, out, &x))
						(*vals)[i] = x;
				}
			}
			Z3_model_dec_ref(Z, mo);
			if (solFP) {
				std::unordered_map<E*, u64> memo;
				for (unsigned i = 0; i < n && res == 1; ++i)
					if (!(evalModel(conds[i], *vals, memo) & 1))
						res = -1;
				for (E* e : assertedE)
					if (res == 1 && !(evalModel(e, *vals, memo) & 1))
						res = -1;
				if (res < 0)
					S->qunk++;
			}
		}
	}
	else if (r == Z3_L_FALSE) {
		res = 0;
		S->qunsat++;
	}
	else {
		S->qunk++;
	}
	if (fd >= 0 && res >= 0 && res != fd) {
		fprintf(stderr, "sx: finite-domain verdict %d, Z3 verdict %d\n", fd, res);
		abort();
	}
	if (solFP) {
		Z3_solver_dec_ref(Z, SOL);
		SOL = inc;
	}
	else
		Z3_solver_pop(Z, SOL, 1);
	tsolve.it_value.tv_sec = 0;
	setitimer(ITIMER_VIRTUAL, &tsolve, nullptr);
	setitimer(ITIMER_PROF, &tsave, nullptr);
	S->solver_ns += now_ns() - t0;
	return res;
}

static void addViol(const char* kind, const char* msg, const std::vector<u64>& vals) {
	pthread_mutex_lock(&S->mu);
	u32 same = 0;
	for (u32 i = 0; i < S->nviol; ++i)
		if (!strcmp(S->viol[i].msg, msg))
			++same;
	if (S->nviol < MAXVIOL && (same < 3 || cfg_maxviol > 50)) {
		Viol& v = S->viol[S->nviol++];
		strncpy(v.kind, kind, sizeof(v.kind) - 1);
		strncpy(v.msg, msg, sizeof(v.msg) - 1);
		strncpy(v.note, pathNote.c_str(), sizeof(v.note) - 1);
		v.nvals = std::min<size_t>(vals.size(), 1024);
		memcpy(v.vals, vals.data(), v.nvals * 8);
		if (S->nviol >= cfg_maxviol)
			S->stop = 1;
	}
	pthread_mutex_unlock(&S->mu);
}

static void bumpEvents() {
	++nEvents;
	S->events++;
	if (nEvents > cfg_maxevents) {
		S->pathlimit++;
		pathEnd(12);
	}
}
static void sigMix(u64 v) { curSig = (curSig ^ v) * 0x9E3779B97F4A7C15ull + 0x7F4A7C15; curSig ^= curSig >> 29; }
static void checkSig() {
	// called when nEvents == inBound-1 prefix done (before the flipped event)
	if (inBound && nEvents == inBound - 1 && curSig != inSig) {
		S->diverged++;
		if (getenv("SX_DEBUG"))
			fprintf(stderr, "sx: %d path signature mismatch at event %u\n", getpid(), nEvents);
		pathEnd(11);
	}
}
static u64 shash(E* e) { // structural-ish hash independent of addresses
	return e->sh;
}

static void binEvent(E* cond, bool taken) {
	// cond has width 1
	if (isC(cond))
		return;
	bool neg = false;
	while (cond->op == XOR && isC(cond->b, 1)) {
		cond = cond->a;
		neg = !neg;
	}
	bool val = taken != neg; // truth value of cond
	if ((cond->conc & 1) != (u64)val) {
		S->diverged++;
		if (getenv("SX_DEBUG"))
			fprintf(stderr, "sx: concrete mismatch op %d id %u conc %lu taken %d\n", cond->op, cond->id, cond->conc, val);
		pathEnd(11);
	}
	auto it = known->find(cond);
	if (it != known->end()) {
		S->trivial++;
		return;
	}
	checkSig();
	E* pos = val ? cond : mkNot(cond);
	E* negc = val ? mkNot(cond) : cond;
	u64 presig = curSig;
	if (nEvents >= inBound) {
		std::vector<u64> vals;
		int r = check(&negc, 1, &vals);
		if (r == 1) {
			pushItem(nEvents + 1, vals, {}, presig);
		}
		else if (r < 0) {
			reason("solver unknown (branch not explored)");
		}
	}
	zassert(pos);
	(*known)[cond] = val;
	sigMix(shash(cond) + val);
	bumpEvents();
}

static void multiEvent(E* e, u64 v, const char* why) {
	if (isC(e))
		return;
	v &= mask(e->w);
	if (e->conc != v) {
		S->diverged++;
		if (getenv("SX_DEBUG"))
			fprintf(stderr, "sx: concrete mismatch (multi %s) op %d conc %lx v %lx\n", why, e->op, e->conc, v);
		pathEnd(11);
	}
	if (e->w == 1) {
		binEvent(e, v);
		return;
	}
	auto it = known->find(e);
	if (it != known->end()) {
		S->trivial++;
		return;
	}
	checkSig();
	S->multis++;
	u64 presig = curSig;
	std::vector<u64> excl;
	if (inBound && nEvents == inBound - 1)
		excl = inExcl;
	excl.push_back(v);
	if (nEvents + 1 >= inBound) {
		std::vector<E*> cs;
		for (auto x : excl)
			cs.push_back(mkNot(mk(EQ, 1, e, K(x, e->w))));
		std::vector<u64> vals;
		int r = check(cs.data(), cs.size(), &vals);
		if (r == 1) {
			pushItem(nEvents + 1, vals, excl, presig);
		}
		else if (r < 0)
			reason("solver unknown (concretisation not explored)");
		if (r != 0 || excl.size() > 1)
			reason(why);
	}
	E* pos = mk(EQ, 1, e, K(v, e->w));
	zassert(pos);
	(*known)[e] = v;
	sigMix(shash(e) + v * 31);
	bumpEvents();
}

// ------------------------------------------------------------------ shadow memory
struct Cell { E* e; u8 idx, conc; };
struct Page { Cell c[4096]; };
static std::unordered_map<u64, Page*>& pages() {
	static auto* p = new std::unordered_map<u64, Page*>();
	return *p;
}
static u64 lastPN = ~0ull;
static Page* lastP = nullptr;
static inline Page* pageOf(u64 pn, bool create) {
	if (pn == lastPN && lastP)
		return lastP;
	auto& ps = pages();
	auto it = ps.find(pn);
	if (it != ps.end()) {
		lastPN = pn;
		lastP = it->second;
		return it->second;
	}
	if (!create)
		return nullptr;
	Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	ps[pn] = p;
	__sx_pageflags[pn & ((1 << 20) - 1)] = 1;
	__sx_pageflags[(pn - 1) & ((1 << 20) - 1)] = 1;
	lastPN = pn;
	lastP = p;
	return p;
}
static inline bool flagged(u64 a) { return __sx_pageflags[(a >> 12) & ((1 << 20) - 1)]; }
static inline Cell* cellAt(u64 a) {
	if (!flagged(a))
		return nullptr;
	Page* p = pageOf(a >> 12, false);
	return p ? &p->c[a & 4095] : nullptr;
}
static inline E* byteAt(u64 a) {
	Cell* c = cellAt(a);
	if (!c || !c->e)
		return nullptr;
	if (*(u8*)a != c->conc) {
		c->e = nullptr;
		return nullptr;
	}
	return ext(c->e, c->idx * 8, 8);
}

EXPORT E* __sx_load(void* addr, u32 n, u32 w) {
	u64 a = (u64)addr;
	Cell* cs[8];
	bool any = false;
	if (n > 8)
		return nullptr;
	for (u32 i = 0; i < n; ++i) {
		Cell* c = cellAt(a + i);
		if (c && c->e && *(u8*)(a + i) != c->conc)
			c->e = nullptr;
		if (c && !c->e)
			c = nullptr;
		cs[i] = c;
		any |= c != nullptr;
	}
	if (!any)
		return nullptr;
	RT rt_;
	recPc(__builtin_return_address(0));
	E* r = nullptr;
	bool whole = cs[0] && cs[0]->idx == 0 && cs[0]->e->w == n * 8;
	for (u32 i = 0; whole && i < n; ++i)
		whole = cs[i] && cs[i]->e == cs[0]->e && cs[i]->idx == i;
	if (whole) {
		r = cs[0]->e;
	}
	else {
		for (int i = n - 1; i >= 0; --i) {
			E* b = cs[i] ? ext(cs[i]->e, cs[i]->idx * 8, 8) : K(*(u8*)(a + i), 8);
			r = r ? mk(CONCAT, r->w + 8, r, b, nullptr, 8) : b;
		}
	}
	if (w < r->w)
		r = ext(r, 0, w);
	if (isC(r))
		return nullptr;
	return r;
}
EXPORT void __sx_store(void* addr, E* e, u32 n, u32 w) {
	RT rt_;
	u64 a = (u64)addr;
	(void)w;
	if (!e || n > 8) {
		for (u32 i = 0; i < n; ++i) {
			Cell* c = cellAt(a + i);
			if (c)
				c->e = nullptr;
		}
		return;
	}
	if (e->w < n * 8)
		e = zx(e, n * 8);
	for (u32 i = 0; i < n; ++i) {
		Page* p = pageOf((a + i) >> 12, true);
		Cell& c = p->c[(a + i) & 4095];
		c.e = e;
		c.idx = i;
		c.conc = *(u8*)(a + i);
	}
}
static bool rangeFlagged(u64 a, u64 n) {
	if (!n)
		return false;
	for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p)
		if (__sx_pageflags[p & ((1 << 20) - 1)])
			return true;
	return false;
}
EXPORT void __sx_clear(void* addr, u64 n) {
	u64 a = (u64)addr;
	if (!rangeFlagged(a, n))
		return;
	u64 end = a + n;
	while (a < end) {
		u64 pe = (a | 4095) + 1;
		if (pe > end)
			pe = end;
		if (flagged(a)) {
			Page* p = pageOf(a >> 12, false);
			if (p)
				for (u64 x = a; x < pe; ++x)
					p->c[x & 4095].e = nullptr;
		}
		a = pe;
	}
}
EXPORT void __sx_memcpy(void* d, void* s, u64 n) {
	RT rt_;
	u64 D = (u64)d, So = (u64)s;
	if (D == So || !n)
		return;
	bool sf = rangeFlagged(So, n), df = rangeFlagged(D, n);
	if (!sf && !df)
		return;
	if (!sf) {
		__sx_clear(d, n);
		return;
	}
	auto one = [&](u64 i) {
		Cell* c = cellAt(So + i);
		if (c && c->e && *(u8*)(So + i) == c->conc) {
			Cell v = *c;
			pageOf((D + i) >> 12, true)->c[(D + i) & 4095] = v;
		}
		else {
			Cell* t = cellAt(D + i);
			if (t)
				t->e = nullptr;
		}
	};
	if (D < So || D >= So + n)
		for (u64 i = 0; i < n; ++i)
			one(i);
	else
		for (u64 i = n; i-- > 0;)
			one(i);
}
EXPORT void __sx_memset(void* d, E* v, u64 n) {
	if (!v) {
		__sx_clear(d, n);
		return;
	}
	for (u64 i = 0; i < n; ++i)
		__sx_store((char*)d + i, v, 1, 8);
}
EXPORT void __sx_byval(void* d, void* s, u64 n) { __sx_memcpy(d, s, n); }
EXPORT void __sx_native(void*) {}

// ------------------------------------------------------------------ operations
EXPORT E* __sx_bin(u32 op, E* ea, E* eb, u64 a, u64 b, u32 w) {
	RT rt_;
	if (!ea) ea = K(a, w);
	if (!eb) eb = K(b, w);
	if (ea->w != w) ea = ea->w > w ? ext(ea, 0, w) : zx(ea, w);
	if (eb->w != w) eb = eb->w > w ? ext(eb, 0, w) : zx(eb, w);
	E* r = nullptr;
	switch (op) {
	case NE: r = mkNot(mk(EQ, 1, ea, eb)); break;
	case UGT: r = mk(ULT, 1, eb, ea); break;
	case UGE: r = mkNot(mk(ULT, 1, ea, eb)); break;
	case ULE: r = mkNot(mk(ULT, 1, eb, ea)); break;
	case SGT: r = mk(SLT, 1, eb, ea); break;
	case SGE: r = mkNot(mk(SLT, 1, ea, eb)); break;
	case SLE: r = mkNot(mk(SLT, 1, eb, ea)); break;
	case EQ: case ULT: case SLT: r = mk(op, 1, ea, eb); break;
	case UMIN: r = mk(ITE, w, mk(ULT, 1, ea, eb), ea, eb); break;
	case UMAX: r = mk(ITE, w, mk(ULT, 1, ea, eb), eb, ea); break;
	case SMIN: r = mk(ITE, w, mk(SLT, 1, ea, eb), ea, eb); break;
	case SMAX: r = mk(ITE, w, mk(SLT, 1, ea, eb), eb, ea); break;
	case USUBSAT: r = mk(ITE, w, mk(ULT, 1, ea, eb), K(0, w), mk(SUB, w, ea, eb)); break;
	case UADDSAT: { E* s = mk(ADD, w, ea, eb); r = mk(ITE, w, mk(ULT, 1, s, ea), K(mask(w), w), s); break; }
	case UADDO: { E* s = mk(ADD, w, ea, eb); r = mk(ULT, 1, s, ea); break; }
	case USUBO: r = mk(ULT, 1, ea, eb); break;
	case UMULO: {
		// a*b overflows  <=>  a != 0 && b > max / a
		E* q = mk(UDIV, w, K(mask(w), w), ea);
		r = mk(AND, 1, mkNot(mk(EQ, 1, ea, K(0, w))), mk(ULT, 1, q, eb));
		break;
	}
	case SADDO: {
		E* s = mk(ADD, w, ea, eb);
		E* x = mk(AND, w, mk(XOR, w, s, ea), mk(XOR, w, s, eb));
		r = mk(SLT, 1, x, K(0, w));
		break;
	}
	case SSUBO: {
		E* s = mk(SUB, w, ea, eb);
		E* x = mk(AND, w, mk(XOR, w, ea, eb), mk(XOR, w, s, ea));
		r = mk(SLT, 1, x, K(0, w));
		break;
	}
	case SMULO: {
		if (w <= 32) {
			E* p = mk(MUL, 2 * w, mk(SEXT, 2 * w, ea), mk(SEXT, 2 * w, eb));
			r = mkNot(mk(EQ, 1, p, mk(SEXT, 2 * w, ext(p, 0, w))));
		}
		else {
			multiEvent(ea, ea->conc, "smul overflow 64");
			multiEvent(eb, eb->conc, "smul overflow 64");
			return nullptr;
		}
		break;
	}
	default:
		if (op >= FCMP && op < FCMP + 16) {
			r = mk(FCMP, 1, ea, eb, nullptr, op - FCMP);
			break;
		}
		if (op == SUB && isC(ea) && isC(eb)) { }
		r = mk(op, w, ea, eb);
	}
	return isC(r) ? nullptr : r;
}
EXPORT E* __sx_un(u32 op, E* a, u32 wf, u32 wt) {
	RT rt_;
	if (!a)
		return nullptr;
	(void)wf;
	E* r = nullptr;
	switch (op) {
	case ZEXT: r = zx(a, wt); break;
	case SEXT: r = mk(SEXT, wt, a); break;
	case TRUNC: r = ext(a, 0, wt); break;
	case FNEG: r = mk(XOR, wt, a, K(1ull << (wt - 1), wt)); break;
	case FABS_: r = mk(AND, wt, a, K((1ull << (wt - 1)) - 1, wt)); break;
	case ABS: r = mk(ITE, wt, mk(SLT, 1, a, K(0, wt)), mk(SUB, wt, K(0, wt), a), a); break;
	case CTPOP: {
		r = K(0, wt);
		for (u32 i = 0; i < wt; ++i)
			r = mk(ADD, wt, r, zx(ext(a, i, 1), wt));
		break;
	}
	case CTTZ: {
		r = K(wt, wt);
		for (int i = wt - 1; i >= 0; --i)
			r = mk(ITE, wt, ext(a, i, 1), K(i, wt), r);
		break;
	}
	case CTLZ: {
		r = K(wt, wt);
		for (u32 i = 0; i < wt; ++i)
			r = mk(ITE, wt, ext(a, i, 1), K(wt - 1 - i, wt), r);
		break;
	}
	case BSWAP: {
		r = nullptr;
		for (u32 i = 0; i < wt / 8; ++i) {
			E* b = ext(a, i * 8, 8);
			r = r ? mk(CONCAT, r->w + 8, r, b, nullptr, 8) : b;
		}
		break;
	}
	case BITCAST: r = a; break;
	default: r = mk(op, wt, a);
	}
	return isC(r) ? nullptr : r;
}
static bool validInDom(E* q);
static bool isFP(E* e) {
	return !isC(e) && (e->op == FADD || e->op == FSUB || e->op == FMUL || e->op == FDIV || e->op == FNEG);
}
EXPORT E* __sx_ite(E* c, E* a, E* b, u64 av, u64 bv, u32 w, u32 cc) {
	RT rt_;
	cc &= 1; // an i1 argument has only its lowest bit defined
	if (!c)
		return cc ? a : b;
	E* x = a ? a : K(av, w);
	E* y = b ? b : K(bv, w);
	if (known && inpath) { // decided on this path already
		E* q = c;
		bool neg = false;
		while (q->op == XOR && isC(q->b, 1)) {
			q = q->a;
			neg = !neg;
		}
		auto it = known->find(q);
		if (it != known->end())
			return ((it->second != 0) != neg) ? a : b;
		if (w == 64 && (isFP(x) || isFP(y))) { // or by the values left to its only variable
			if (validInDom(c))
				return a;
			if (validInDom(mkNot(c)))
				return b;
		}
	}
	// the untaken arm's native value may be garbage (poison) only if unused; keep it
	E* r = mk(ITE, w, c, x, y);
	return isC(r) ? nullptr : r;
}
EXPORT void __sx_branch(E* e, u32 taken) {
	RT rt_;
	taken &= 1;
	recPc(__builtin_return_address(0));
	binEvent(e, taken);
}
EXPORT void __sx_switch(E* e, u64 v, u64* cases, u32 n) {
	RT rt_;
	recPc(__builtin_return_address(0));
	v &= mask(e->w);
	// one binary event per case value, in a fixed order up to the one taken: flipping any of them loses nothing
	for (u32 i = 0; i < n; ++i) {
		binEvent(mk(EQ, 1, e, K(cases[i], e->w)), cases[i] == v);
		if (cases[i] == v)
			break;
	}
}
EXPORT void __sx_conc(E* e, u64 v, const char* why) {
	RT rt_;
	if (!e)
		return;
	recPc(__builtin_return_address(0));
	multiEvent(e, v, why);
}

// Native code is about to read memory through p: make the block concrete (heap: to the end of the
// block; elsewhere: the next 512 bytes).
EXPORT uint64_t __sx_heapbase __attribute__((weak));
EXPORT uint64_t __sx_heapsize __attribute__((weak));
EXPORT u8* __sx_heapmap __attribute__((weak));
EXPORT void __sx_concrange(void* p, u64 n, const char* why) {
	u64 a = (u64)p;
	for (u64 i = 0; i < n;) {
		if (!flagged(a + i)) {
			i += 4096 - ((a + i) & 4095);
			continue;
		}
		Cell* c = cellAt(a + i);
		if (c && c->e) {
			RT rt_;
			E* e = byteAt(a + i);
			if (e && !isC(e)) {
				recPc(__builtin_return_address(0));
				multiEvent(e, *(u8*)(a + i), why);
			}
		}
		++i;
	}
}
EXPORT void __sx_natptr(void* p, const char* why) {
	u64 a = (u64)p;
	if (a < 4096 || !flagged(a))
		return;
	u64 n = 512;
	if (__sx_heapbase && a - __sx_heapbase < __sx_heapsize) {
		n = 0;
		u64 b = (a - __sx_heapbase) & ~15ull;
		while (n < (1 << 20) && __sx_heapmap[(b + n) / 16])
			n += 16;
	}
	__sx_concrange(p, n, why);
}

// ------------------------------------------------------------------ harness API
static E* argE(unsigned i) {
	if (__sx_tok)
		return __sx_args[i];
	return nullptr;
}
EXPORT void sxapi_make(void* p, u64 n, const char* name) {
	RT rt_;
	__sx_tok = nullptr;
	u32 idx = vars.size();
	u64 v = idx < inVals.size() ? inVals[idx] : 0;
	v &= mask(n * 8);
	E* e = raw(VAR, n * 8, nullptr, nullptr, nullptr, idx, v);
	vars.push_back(Var{ name, (u8)(n * 8), e });
	if (S && idx < 1024) {
		if (!S->varname[idx][0])
			strncpy(S->varname[idx], name, 39);
		S->varw[idx] = n * 8;
		if (S->nvarnames <= idx)
			S->nvarnames = idx + 1;
	}
	memcpy(p, &v, n);
	__sx_store(p, e, n, n * 8);
}
EXPORT void sxapi_assume(u64 c) {
	RT rt_;
	E* e = argE(0);
	__sx_tok = nullptr;
	if (e) {
		if (e->w != 1)
			e = mkNot(mk(EQ, 1, e, K(0, e->w)));
		binEvent(e, c != 0);
	}
	if (!c) {
		pathEnd(10);
	}
}
EXPORT void sxapi_assert(u64 c, const char* msg) {
	RT rt_;
	E* e = argE(0);
	__sx_tok = nullptr;
	S->asserts_checked++;
	if (e && e->w != 1)
		e = mkNot(mk(EQ, 1, e, K(0, e->w)));
	if (e && !isC(e)) {
		S->asserts_sym++;
		E* n = mkNot(e);
		std::vector<u64> vals;
		int r = check(&n, 1, &vals, true);
		if (r == 1)
			addViol("assert", msg, vals);
		else if (r == 0)
			S->asserts_unsat++;
		else
			reason("solver unknown (assertion undecided)");
		if (c == 0)
			pathEnd(13);
		zassert(e);
		return;
	}
	S->asserts_conc++;
	if (!c) {
		addViol("assert", msg, curVals());
		pathEnd(13);
	}
}
EXPORT void sxapi_reach(const char* what) {
	RT rt_;
	__sx_tok = nullptr;
	for (u32 i = 0; i < S->nreach; ++i)
		if (!strncmp(S->reach[i].what, what, 95)) {
			__atomic_fetch_add(&S->reach[i].n, 1, __ATOMIC_RELAXED);
			return;
		}
	pthread_mutex_lock(&S->mu);
	if (S->nreach < MAXREACH) {
		strncpy(S->reach[S->nreach].what, what, 95);
		S->reach[S->nreach].n = 1;
		S->nreach++;
	}
	pthread_mutex_unlock(&S->mu);
}
EXPORT u64 sxapi_conc(u64 v) {
	RT rt_;
	E* e = argE(0);
	__sx_tok = nullptr;
	if (e)
		multiEvent(e, v, "harness choice");
	__sx_rettok = nullptr;
	return v;
}
EXPORT u64 sxapi_is_symbolic(u64) {
	E* e = argE(0);
	__sx_tok = nullptr;
	return e && !isC(e);
}
EXPORT void sxapi_note(const char* s) {
	RT rt_;
	__sx_tok = nullptr;
	if (pathNote.size() < 900) {
		if (!pathNote.empty())
			pathNote += " | ";
		pathNote += s;
	}
}
EXPORT void sxapi_config(const char* key, u64 v) {
	RT rt_;
	__sx_tok = nullptr;
	std::string k(key);
	if (k == "maxvars") maxvars = v;
	else if (k == "maxexcl") maxexcl = v;
	else if (k == "timeout_ms") cfg_timeout_ms = v;
	else if (k == "exit_violation") cfg_exit_viol = v;
	else if (k == "crash_violation") cfg_crash_viol = v;
	else if (k == "timeout_violation") cfg_timeout_viol = v;
	else if (k == "maxevents") cfg_maxevents = v;
	else if (k == "rlimit") cfg_rlimit = v;
	else if (k == "fcap") fcap = v;
	else {
		fprintf(stderr, "sx: unknown config %s\n", key);
		abort();
	}
}
// true for every value the path condition leaves to its only variable (an exact finite-domain proof)
static bool validInDom(E* q) {
	if (!single8(q))
		return false;
	auto& d = domOf(q->svar);
	Slice sl;
	sl.v = q->svar;
	int r = sl.add(q);
	for (unsigned x = 0; x < 256; ++x) {
		if (!((d.bits[x >> 6] >> (x & 63)) & 1))
			continue;
		sl.eval(x);
		if (!(sl.get(q, r) & 1))
			return false;
	}
	S->domvalid++;
	return true;
}
static E* eqRange(u64 a, u64 b, u64 n) {
	E* r = nullptr;
	for (u64 i = 0; i < n; ++i) {
		E *x = byteAt(a + i), *y = byteAt(b + i);
		if (!x && !y) {
			if (*(u8*)(a + i) != *(u8*)(b + i))
				return K(0, 1);
			continue;
		}
		if (!x) x = K(*(u8*)(a + i), 8);
		if (!y) y = K(*(u8*)(b + i), 8);
		E* q = mk(EQ, 1, x, y);
		if (isC(q, 0))
			return q;
		if (isC(q) || validInDom(q))
			continue;
		r = r ? mk(AND, 1, r, q) : q;
	}
	return r ? r : K(1, 1);
}
EXPORT u64 sxapi_equal(const void* a, const void* b, u64 n) {
	RT rt_;
	__sx_tok = nullptr;
	E* r = eqRange((u64)a, (u64)b, n);
	__sx_ret[0] = isC(r) ? nullptr : zx(r, 64);
	__sx_rettok = isC(r) ? nullptr : (void*)&sxapi_equal;
	return r->conc & 1;
}
static void dumpE(E* e, int d) {
	if (isC(e)) { fprintf(stderr, "%lx:%u", (unsigned long)e->val, e->w); return; }
	if (e->op == VAR) { fprintf(stderr, "v%lu", (unsigned long)e->val); return; }
	fprintf(stderr, "(%d:%u", e->op, e->w);
	if (d > 0) {
		for (E* x : { e->a, e->b, e->c })
			if (x) { fprintf(stderr, " "); dumpE(x, d - 1); }
		if (e->val) fprintf(stderr, " #%lu", (unsigned long)e->val);
	}
	fprintf(stderr, ")");
}
EXPORT void sxapi_dump(const void* p) {
	RT rt_;
	__sx_tok = nullptr;
	E* x = byteAt((u64)p);
	fprintf(stderr, "sx: dump ");
	if (x) dumpE(x, 14);
	fprintf(stderr, "\n");
}
EXPORT u64 sxapi_has_sym(const void* data, u64 n) {
	RT rt_;
	__sx_tok = nullptr;
	if (!rangeFlagged((u64)data, n))
		return 0;
	for (u64 i = 0; i < n; ++i)
		if (byteAt((u64)data + i))
			return 1;
	return 0;
}
// Interning: `concrete` is the real hash of the concrete content.  Two contents get the same id iff
// they are equal; the solver forks on equality with everything interned before that could be equal.
struct Interned { std::vector<u8> conc; std::vector<E*> sym; bool anySym; u32 id; };
static std::map<std::pair<u64, u64>, std::vector<Interned>>& itab() {
	static auto* t = new std::map<std::pair<u64, u64>, std::vector<Interned>>();
	return *t;
}
EXPORT u32 sxapi_intern(const void* data, u64 n, u64 salt, u32 concrete) {
	RT rt_;
	__sx_tok = nullptr;
	__sx_rettok = nullptr;
	auto& v = itab()[{ n, salt }];
	Interned me;
	me.conc.assign((const u8*)data, (const u8*)data + n);
	me.anySym = false;
	if (rangeFlagged((u64)data, n)) {
		me.sym.resize(n);
		for (u64 i = 0; i < n; ++i) {
			me.sym[i] = byteAt((u64)data + i);
			me.anySym |= me.sym[i] != nullptr;
		}
		if (!me.anySym)
			me.sym.clear();
	}
	me.id = concrete;
	bool found = false;
	for (auto& o : v) {
		if (!o.anySym && !me.anySym) {
			if (o.conc == me.conc)
				return o.id;
			continue;
		}
		E* r = nullptr;
		bool no = false;
		for (u64 i = 0; i < n && !no; ++i) {
			E* x = o.anySym ? o.sym[i] : nullptr;
			E* y = me.anySym ? me.sym[i] : nullptr;
			if (!x && !y) {
				if (o.conc[i] != me.conc[i])
					no = true;
				continue;
			}
			if (!x) x = K(o.conc[i], 8);
			if (!y) y = K(me.conc[i], 8);
			E* q = mk(EQ, 1, x, y);
			if (isC(q, 0))
				no = true;
			else
				r = r ? mk(AND, 1, r, q) : q;
		}
		if (no)
			continue;
		if (!r || isC(r, 1))
			return o.id;
		bool eq = r->conc & 1;
		binEvent(r, eq);
		if (eq) {
			found = true;
			// keep looking is unnecessary: equal contents share all further facts
			return o.id;
		}
	}
	(void)found;
	if (me.anySym) {
		// the id of a new symbolic content depends on the order of appearance only, never on the
		// concrete bytes, so that replayed prefixes see the same ids
		static u32 ctr = 0;
		u32 h = ++ctr * 0x9E3779B1u + (u32)n * 0x85EBCA6Bu + (u32)salt;
		h ^= h >> 15;
		h *= 0x2C1B3C6Du;
		h ^= h >> 13;
		me.id = (h & 0x7fffffffu) | 0x100;
	}
	v.push_back(me);
	return me.id;
}

// ------------------------------------------------------------------ explorer
static void jstr(FILE* f, const char* s) {
	fputc('"', f);
	for (; *s; ++s) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void jvals(FILE* f, const Viol& v) {
	fprintf(f, "[");
	for (u32 i = 0; i < v.nvals; ++i) {
		fprintf(f, "%s[", i ? ", " : "");
		jstr(f, i < S->nvarnames ? S->varname[i] : "?");
		fprintf(f, ", %u, %lu]", i < 1024 ? S->varw[i] : 0, v.vals[i]);
	}
	fprintf(f, "]");
}
static void report(bool complete) {
	FILE* f = fopen(outfile.c_str(), "w");
	if (!f) {
		perror("sx: report");
		_exit(96);
	}
	fprintf(f, "{\n");
#define J(n) fprintf(f, "  \"%s\": %lu,\n", #n, (unsigned long)S->n)
	J(paths); J(ok); J(assumed); J(timeouts); J(crashes); J(diverged); J(exits); J(violpaths); J(pathlimit);
	J(q); J(qsat); J(qunsat); J(qunk); J(fastsat); J(fastunsat); J(domvalid); J(fdsat); J(fdunsat); J(events); J(multis); J(trivial);
	J(asserts_checked); J(asserts_sym); J(asserts_conc); J(asserts_unsat); J(overflow); J(exclcap); J(varcap); J(peak);
	fprintf(f, "  \"solver_s\": %.3f,\n", S->solver_ns / 1e9);
	fprintf(f, "  \"wall_s\": %.3f,\n", (now_ns() - t_start) / 1e9);
	fprintf(f, "  \"frontier_left\": %lu,\n", S->fsize);
	bool ex = complete && S->fsize == 0 && !S->stop && !S->overflow && !S->exclcap && !S->varcap && !S->qunk && !S->diverged && !S->pathlimit && !S->timeouts;
	fprintf(f, "  \"exhaustive\": %s,\n", ex ? "true" : "false");
	fprintf(f, "  \"reasons\": {");
	for (u32 i = 0; i < S->nreason; ++i) {
		fprintf(f, "%s\n    ", i ? "," : "");
		jstr(f, S->reason[i].why);
		fprintf(f, ": %lu", S->reason[i].n);
	}
	fprintf(f, "},\n  \"reach\": {");
	for (u32 i = 0; i < S->nreach; ++i) {
		fprintf(f, "%s\n    ", i ? "," : "");
		jstr(f, S->reach[i].what);
		fprintf(f, ": %lu", S->reach[i].n);
	}
	fprintf(f, "},\n  \"violations\": [");
	for (u32 i = 0; i < S->nviol; ++i) {
		fprintf(f, "%s\n    {\"kind\": ", i ? "," : "");
		jstr(f, S->viol[i].kind);
		fprintf(f, ", \"msg\": ");
		jstr(f, S->viol[i].msg);
		fprintf(f, ", \"note\": ");
		jstr(f, S->viol[i].note);
		fprintf(f, ", \"vals\": ");
		jvals(f, S->viol[i]);
		fprintf(f, "}");
	}
	fprintf(f, "],\n  \"samples\": [");
	for (u32 i = 0; i < S->nsamp; ++i) {
		fprintf(f, "%s\n    {\"note\": ", i ? "," : "");
		jstr(f, S->samp[i].note);
		fprintf(f, ", \"vals\": ");
		jvals(f, S->samp[i]);
		fprintf(f, "}");
	}
	fprintf(f, "],\n  \"pcs\": [");
	bool first = true;
	for (u32 i = 0; i < PCTAB; ++i)
		if (S->pcs[i]) {
			fprintf(f, "%s%lu", first ? "" : ",", S->pcs[i]);
			first = false;
		}
	fprintf(f, "]\n}\n");
	fclose(f);
}

static u64 envu(const char* n, u64 d) {
	const char* s = getenv(n);
	return s && *s ? strtoull(s, nullptr, 10) : d;
}

static void pathSetup(const Slot* s) {
	inVals.assign((u64*)(s + 1), (u64*)(s + 1) + s->nvals);
	inExcl.assign((u64*)(s + 1) + maxvars, (u64*)(s + 1) + maxvars + s->nexcl);
	inBound = s->bound;
	inSig = s->sig;
	known = new std::unordered_map<E*, u64>();
	inpath = true;
}

static void server(int widx) {
	RT rtg;
	{
		mallopt(M_TRIM_THRESHOLD, 256 << 20);
		mallopt(M_MMAP_THRESHOLD, 64 << 20);
		// warm the solver up once; paths inherit the result
		newSolver();
		Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm"), Z3_mk_bv_sort(Z, 32)), y = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm2"), Z3_mk_bv_sort(Z, 32));
		Z3_solver_push(Z, SOL);
		Z3_solver_assert(Z, SOL, Z3_mk_bvult(Z, x, y));
		Z3_solver_check(Z, SOL);
		Z3_solver_pop(Z, SOL, 1);
		void* t = malloc(2 << 20);
		free(t);
		heapLo = (char*)(((u64)sbrk(0) - (6 << 20)) & ~4095ull);
		if (heapLo < heapStart)
			heapLo = heapStart;
		if (getenv("SX_DEBUG"))
			fprintf(stderr, "heap top %p\n", sbrk(0));
	}
	u64 rng = 88172645463325252ull + widx * 7919 + envu("VERIF_SEED", 1) * 104729;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	std::vector<u8> item(slotsize);
	u64 idle = 0;
	for (;;) {
		pthread_mutex_lock(&S->mu);
		if (S->stop || (now_ns() - t_start) / 1000000 > cfg_budget_ms) {
			pthread_mutex_unlock(&S->mu);
			_exit(0);
		}
		if (S->fsize == 0) {
			if (S->active == 0) {
				pthread_mutex_unlock(&S->mu);
				_exit(0);
			}
			pthread_mutex_unlock(&S->mu);
			++idle;
			usleep(idle < 50 ? 100 : 1000);
			continue;
		}
		idle = 0;
		--S->fsize;
		// half of the workers go deep, half take any open branch, so that a partial run is spread out
		if ((widx & 1) && S->fsize > 1 && S->fsize < fcap / 2) {
			rng = rng * 6364136223846793005ull + 1442695040888963407ull;
			u64 i = (rng >> 33) % (S->fsize + 1);
			memcpy(item.data(), slotAt(i), slotsize);
			if (i != S->fsize)
				memcpy(slotAt(i), slotAt(S->fsize), slotsize);
		}
		else
			memcpy(item.data(), slotAt(S->fsize), slotsize);
		S->active++;
		pthread_mutex_unlock(&S->mu);
		pid_t pid = fork();
		if (pid < 0) {
			perror("sx: fork");
			_exit(95);
		}
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			itimerval tv{};
			tv.it_value.tv_sec = cfg_timeout_ms / 1000;
			tv.it_value.tv_usec = (cfg_timeout_ms % 1000) * 1000;
			setitimer(ITIMER_PROF, &tv, nullptr);
			tv.it_value.tv_sec = tv.it_value.tv_sec * 10 + 60;
			setitimer(ITIMER_REAL, &tv, nullptr);
			pathSetup((Slot*)item.data());
			return; // child: run the harness body
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
		}
		S->paths++;
		if (WIFEXITED(st)) {
			switch (WEXITSTATUS(st)) {
			case 0: S->ok++; break;
			case 10: S->assumed++; break;
			case 11: break;
			case 12: break;
			case 13: S->violpaths++; break;
			case 14: S->exits++; break;
			default: {
				char b[64];
				snprintf(b, sizeof b, "path ended with code %d", WEXITSTATUS(st));
				S->diverged++;
				reason(b);
			}
			}
		}
		else if (WIFSIGNALED(st)) {
			int sg = WTERMSIG(st);
			Slot* s = (Slot*)item.data();
			std::vector<u64> vals((u64*)(s + 1), (u64*)(s + 1) + s->nvals);
			if (sg == SIGALRM || sg == SIGPROF || sg == SIGVTALRM) {
				S->timeouts++;
				if (cfg_timeout_viol && sg == SIGPROF)
					addViol("timeout", "path did not terminate within its time limit", vals);
			}
			else {
				S->crashes++;
				char b[64];
				snprintf(b, sizeof b, "crash with signal %d", sg);
				if (cfg_crash_viol)
					addViol("crash", b, vals);
			}
		}
		pthread_mutex_lock(&S->mu);
		S->active--;
		pthread_mutex_unlock(&S->mu);
	}
}

EXPORT void sxapi_start(void) {
	RT rt_;
	__sx_tok = nullptr;
	if (started)
		return;
	started = true;
	const char* o = getenv("SX_OUT");
	outfile = o ? o : "sx-out.json";
	cfg_workers = envu("SX_WORKERS", cfg_workers);
	cfg_budget_ms = envu("SX_BUDGET_MS", cfg_budget_ms);
	cfg_maxviol = envu("SX_MAXVIOL", cfg_maxviol);
	slotsize = sizeof(Slot) + 8 * maxvars + 8 * maxexcl;
	frontier = (u8*)mmap(nullptr, fcap * slotsize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (frontier == MAP_FAILED || S == MAP_FAILED) {
		perror("sx: mmap");
		_exit(94);
	}
	pthread_mutexattr_t at;
	pthread_mutexattr_init(&at);
	pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
	pthread_mutex_init(&S->mu, &at);
	initZ3();
	t_start = now_ns();
	pushItem(0, {}, {}, 0);
	fflush(stdout);
	fflush(stderr);
	// replay of one input inside the engine (debugging): SX_INPUT=v0,v1,...
	if (const char* in = getenv("SX_INPUT")) {
		std::vector<u64> v;
		for (const char* p = in; *p;) {
			char* e;
			v.push_back(strtoull(p, &e, 10));
			p = *e ? e + 1 : e;
		}
		S->fsize = 0;
		std::vector<u8> item(slotsize);
		Slot* s = (Slot*)item.data();
		s->bound = 1u << 30;
		s->nvals = v.size();
		memcpy(s + 1, v.data(), v.size() * 8);
		pathSetup(s);
		inBound = 0;
		cfg_maxviol = 1000;
		return;
	}
	std::vector<pid_t> ws;
	for (u64 i = 0; i < cfg_workers; ++i) {
		pid_t p = fork();
		if (p == 0) {
			server(i);
			return; // path child
		}
		ws.push_back(p);
	}
	bool bad = false;
	for (auto p : ws) {
		int st = 0;
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			bad = true;
	}
	report(!bad);
	_exit(bad ? 93 : 0);
}

static void sample() {
	if (S->nsamp >= MAXSAMP)
		return;
	if (S->nsamp >= 2 && (S->ok % 97) != 5)
		return;
	pthread_mutex_lock(&S->mu);
	if (S->nsamp < MAXSAMP) {
		Viol& v = S->samp[S->nsamp++];
		strncpy(v.note, pathNote.c_str(), sizeof(v.note) - 1);
		auto c = curVals();
		v.nvals = std::min<size_t>(vars.size(), 1024);
		memcpy(v.vals, c.data(), v.nvals * 8);
	}
	pthread_mutex_unlock(&S->mu);
}
static void finishPath() {
	if (S->maxevents < nEvents)
		S->maxevents = nEvents;
	if (nEvents + 1 < inBound) {
		// the prefix was not reproduced
		S->diverged++;
		pathEnd(11);
	}
	sample();
}
EXPORT void sxapi_done(void) {
	RT rt_;
	__sx_tok = nullptr;
	if (!inpath)
		_exit(0);
	finishPath();
	pathEnd(0);
}
EXPORT void sxapi_exit(int code) {
	RT rt_;
	__sx_tok = nullptr;
	if (!inpath)
		_exit(code);
	finishPath();
	if (cfg_exit_viol) {
		char b[64];
		snprintf(b, sizeof b, "process exit(%d)", code);
		addViol("exit", b, curVals());
		pathEnd(13);
	}
	pathEnd(14);
}
EXPORT void sxapi_engine_error(const char* msg) {
	RT rt_;
	__sx_tok = nullptr;
	fprintf(stderr, "sx: engine error: %s\n", msg);
	if (!inpath)
		_exit(98);
	reason(msg);
	S->diverged++;
	pathEnd(11);
}
EXPORT void sxapi_fail(const char* kind, const char* msg) {
	RT rt_;
	__sx_tok = nullptr;
	if (!inpath) {
		fprintf(stderr, "sx: %s: %s\n", kind, msg);
		_exit(99);
	}
	addViol(kind, msg, curVals());
	pathEnd(13);
}
