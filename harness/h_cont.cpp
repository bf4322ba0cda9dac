// C17: container classes against plain reference structures, any history of operations
#include "sx.h"
#include <vector>
#include <string>
#include <limits>
#include <cassert>
#include "sorted_vector.hpp"
#include "interval_vector.hpp"
#include "flat_unordered_map.hpp"
#include "flat_unordered_set.hpp"
#include "bloomish.hpp"
using namespace CG3;

// reference: plain array of keys (and values), insertion order irrelevant
struct Ref {
	uint32_t k[64];
	uint32_t v[64];
	size_t n = 0;
	int at(uint32_t t) const {
		for (size_t i = 0; i < n; ++i) {
			if (k[i] == t) {
				return (int)i;
			}
		}
		return -1;
	}
	bool add(uint32_t t, uint32_t val = 0) {
		if (at(t) >= 0) {
			return false;
		}
		k[n] = t;
		v[n] = val;
		++n;
		return true;
	}
	bool del(uint32_t t) {
		int i = at(t);
		if (i < 0) {
			return false;
		}
		k[i] = k[n - 1];
		v[i] = v[n - 1];
		--n;
		return true;
	}
};

#ifndef NOPS
	#define NOPS (SX_TIER ? 5 : 3)
#endif

#if WHICH == 1 || WHICH == 2
	#if WHICH == 1
typedef sorted_vector<uint32_t> Cont;
	#else
typedef interval_vector<uint32_t> Cont;
	#endif
static void check(const Cont& c, const Ref& r) {
	SX_ASSERT(c.size() == r.n, "size() equals the number of distinct members");
	SX_ASSERT(c.empty() == (r.n == 0), "empty()");
	size_t n = 0;
	uint32_t prev = 0;
	for (auto x : c) {
		if (n) {
			SX_ASSERT(prev < x, "iteration is strictly ascending");
		}
		SX_ASSERT(r.at(x) >= 0, "iteration yields members only");
		prev = x;
		if (++n > r.n) {
			break;
		}
	}
	SX_ASSERT(n == r.n, "iteration yields every member");
	if (n) {
		SX_ASSERT(c.back() == prev, "back() is the largest member");
	}
}
int main() {
	sxapi_config("timeout_ms", 2000);
	sxapi_config("timeout_violation", 1);
	sxapi_start();
	Cont c;
	Ref r;
	// start from a set with some gaps, so that merges and splits are near
	{
		uint32_t m = sx_choice("start", 4);
		uint32_t a[] = { 4, 5, 6, 8, 10, 11 };
		for (uint32_t i = 0; i < m * 2; ++i) {
			c.insert(a[i]);
			r.add(a[i]);
		}
	}
	for (int i = 0; i < NOPS; ++i) {
		uint32_t op = sx_choice("op", 4);
	#if WHICH == 2
		uint32_t k = sx_range<uint8_t>("key", 1, 13);
	#else
		// only comparisons are made, so these values realise every order of the keys
		uint32_t k = sx_range<uint8_t>("key", 1, 40);
	#endif
		if (op == 0) {
			bool want = r.add(k);
	#if WHICH == 1
			auto p = c.insert(k);
			SX_ASSERT(p.second == want, "insert() tells whether the member is new");
			SX_ASSERT(*p.first == k, "insert() returns the member");
	#else
			SX_ASSERT(c.insert(k) == want, "insert() tells whether the member is new");
	#endif
		}
		else if (op == 1) {
			bool want = r.del(k);
			SX_ASSERT(c.erase(k) == want, "erase() tells whether there was a member");
		}
		else if (op == 2) {
			bool want = r.at(k) >= 0;
			SX_ASSERT(c.contains(k) == want, "contains()");
			auto it = c.find(k);
			SX_ASSERT((it != c.end()) == want, "find()");
			if (want) {
				SX_ASSERT(*it == k, "find() points at the member");
			}
			auto lb = c.lower_bound(k);
			bool any = false;
			for (size_t j = 0; j < r.n; ++j) {
				if (r.k[j] >= k) {
					any = true;
				}
			}
			SX_ASSERT((lb != c.end()) == any, "lower_bound() finds something exactly when a member is not less");
			if (any) {
				SX_ASSERT(*lb >= k, "lower_bound() is not less");
				for (size_t j = 0; j < r.n; ++j) {
					if (r.k[j] >= k) {
						SX_ASSERT(*lb <= r.k[j], "lower_bound() is the least such member");
					}
				}
			}
		}
		else {
			uint32_t k2 = sx_range<uint8_t>("key2", 1, WHICH == 2 ? 13 : 40);
	#if WHICH == 2
			Cont o;
			Ref ro, rn;
			o.insert(k);
			ro.add(k);
			o.insert(k2);
			ro.add(k2);
			o.insert(6);
			ro.add(6);
			c = c.intersect(o);
			for (size_t j = 0; j < r.n; ++j) {
				if (ro.at(r.k[j]) >= 0) {
					rn.add(r.k[j]);
				}
			}
			r = rn;
	#else
			uint32_t ks[2] = { k, k2 };
			c.insert(ks, ks + 2);
			r.add(k);
			r.add(k2);
	#endif
		}
	}
	check(c, r);
	sxapi_reach("end");
	sxapi_done();
}
#elif WHICH == 3 || WHICH == 4
	#if WHICH == 3
typedef flat_unordered_map<uint32_t, uint32_t> Cont;
	#else
typedef flat_unordered_set<uint32_t> Cont;
	#endif
static void put(Cont& c, uint32_t k, uint32_t v) {
	#if WHICH == 3
	c[k] = v;
	#else
	c.insert(k);
	#endif
}
int main() {
	sxapi_config("timeout_ms", 3000);
	sxapi_config("timeout_violation", 1);
	sxapi_start();
	Cont c;
	Ref r;
	// history: m short-lived keys come and go while `keep` stays
	uint32_t m = (SX_TIER ? sx_choice("churn", 36) : sx_choice("churn", 6) * 3);
	uint32_t keep = sx_choice("keep", 2);
	if (keep) {
		put(c, 7, 70);
		r.add(7, 70);
	}
	for (uint32_t i = 0; i < m; ++i) {
		put(c, 1000 + i, 1);
		c.erase(1000 + i);
	}
	// then perhaps a bulk insert
	uint32_t bulk = sx_choice("bulk", 3) * 9;
	if (bulk) {
		std::vector<Cont::value_type> b;
		for (uint32_t i = 0; i < bulk; ++i) {
	#if WHICH == 3
			b.emplace_back(5000 + i * 16, i);
	#else
			b.push_back(5000 + i * 16);
	#endif
			r.add(5000 + i * 16, i);
		}
		c.insert(b.begin(), b.end());
		SX_ASSERT(c.size() == r.n, "size() after a bulk insert");
		// and its removal one by one
		if (sx_choice("drop", 2)) {
			for (uint32_t i = 0; i < bulk; ++i) {
				c.erase(5000 + i * 16);
				r.del(5000 + i * 16);
			}
			SX_ASSERT(c.size() == r.n, "size() after removals");
		}
	}
	uint32_t base[3] = { 0, 3, 7 };
	for (int i = 0; i < NOPS - 1; ++i) {
		uint32_t op = sx_choice("op", 4);
		// any key, of which two low nibbles are explored: what probing looks at in a table of 16
		uint32_t k = sx_var<uint32_t>("key");
		uint32_t ri = sx_choice("res", 2);
		SX_ASSUME((k & 31) == base[ri * 2]);
		SX_ASSUME(k < 4000000000u);
		uint32_t v = 100 + i;
		if (op == 0) {
	#if WHICH == 3
			// insert() leaves the value of a key that is there alone
			if (i % 2 == 0) {
				c.insert(std::make_pair(k, v));
				r.add(k, v);
			}
			else
	#endif
			{
				put(c, k, v);
				if (!r.add(k, v)) {
					r.v[r.at(k)] = v;
				}
			}
		}
		else if (op == 1) {
			c.erase(k);
			r.del(k);
		}
		else if (op == 2) {
			auto it = c.find(k);
			bool want = r.at(k) >= 0;
			SX_ASSERT((it != c.end()) == want, "find()");
			if (want) {
				c.erase(it);
				r.del(k);
			}
		}
		else {
			bool want = r.at(k) >= 0;
			SX_ASSERT((c.count(k) != 0) == want, "count()");
	#if WHICH == 3
			uint32_t x = c[k];
			SX_ASSERT(x == (want ? r.v[r.at(k)] : 0), "operator[]");
			r.add(k, 0);
	#else
			SX_ASSERT(c.contains(k) == want, "contains()");
	#endif
		}
		SX_ASSERT(c.size() == r.n, "size()");
	}
	size_t n = 0;
	for (auto it = c.begin(); it != c.end(); ++it) {
	#if WHICH == 3
		int at = r.at(it->first);
		SX_ASSERT(at >= 0, "iteration yields members only");
		SX_ASSERT(it->second == r.v[at], "iteration yields the stored value");
	#else
		SX_ASSERT(r.at(*it) >= 0, "iteration yields members only");
	#endif
		if (++n > r.n) {
			break;
		}
	}
	SX_ASSERT(n == r.n, "iteration yields every member");
	for (size_t i = 0; i < r.n; ++i) {
		SX_ASSERT(c.find(r.k[i]) != c.end(), "every member is found");
	}
	sxapi_reach("end");
	sxapi_done();
}
#elif WHICH == 5
int main() {
	sxapi_start();
	// a bloomish filter never denies a member
	bloomish<uint32_t> b;
	uint32_t k[4];
	for (int i = 0; i < 4; ++i) {
		k[i] = sx_var<uint32_t>("k");
		b.insert(k[i]);
	}
	for (int i = 0; i < 4; ++i) {
		SX_ASSERT(b.matches(k[i]), "matches() accepts every inserted value");
	}
	sxapi_reach("end");
	sxapi_done();
}
#elif WHICH == 6
// insertion and growth: n distinct keys with equal low bits, then a symbolic lookup
int main() {
	sxapi_config("timeout_ms", 3000);
	sxapi_config("timeout_violation", 1);
	sxapi_start();
	flat_unordered_map<uint32_t, uint32_t> c;
	uint32_t step = 1u << sx_choice("step", 3) * 3;
	uint32_t n = 1 + sx_choice("n", SX_TIER ? 60 : 24);
	for (uint32_t i = 0; i < n; ++i) {
		c[5 + i * step] = i;
	}
	uint32_t e = sx_choice("e", 4) * 5;
	uint32_t gone = 0;
	if (e < n) {
		c.erase(5 + e * step);
		gone = 1;
	}
	SX_ASSERT(c.size() == n - gone, "size()");
	for (uint32_t i = 0; i < n; ++i) {
		auto it = c.find(5 + i * step);
		SX_ASSERT((it != c.end()) == !(gone && i == e), "find()");
		if (it != c.end()) {
			SX_ASSERT(it->second == i, "value");
		}
	}
	sxapi_reach("end");
	sxapi_done();
}
#elif WHICH == 7 || WHICH == 8
// keys that share a slot: some of them are taken out, then one is looked up, put in (again) or taken out
	#if WHICH == 7
typedef flat_unordered_map<uint32_t, uint32_t> Cont;
	#else
typedef flat_unordered_set<uint32_t> Cont;
	#endif
int main() {
	sxapi_config("timeout_ms", 3000);
	sxapi_config("timeout_violation", 1);
	sxapi_start();
	Cont c;
	Ref r;
	const uint32_t N = SX_TIER ? 4 : 3;
	uint32_t k[5];
	uint32_t low = (SX_TIER ? sx_choice("slot", 8) * 5 : 10);
	for (uint32_t i = 0; i <= N; ++i) {
		k[i] = sx_var<uint32_t>("key");
		SX_ASSUME((k[i] & 31) == low);
		SX_ASSUME(k[i] < 4000000000u && (i == 0 || k[i - 1] < k[i]));
	}
	bool pair = sx_choice("insert()", 2);
	auto put = [&](uint32_t x, uint32_t v) {
	#if WHICH == 7
		if (pair) {
			c.insert(std::make_pair(x, v));
			r.add(x, v);
			return;
		}
		c[x] = v;
	#else
		c.insert(x);
	#endif
		if (!r.add(x, v)) {
			r.v[r.at(x)] = v;
		}
	};
	for (uint32_t i = 0; i < N; ++i) {
		put(k[i], i);
	}
	uint32_t gone = sx_choice("gone", 1u << N);
	for (uint32_t i = 0; i < N; ++i) {
		if (gone & (1u << i)) {
			c.erase(k[i]);
			r.del(k[i]);
		}
	}
	for (int j = 0; j < 2; ++j) {
		uint32_t x = k[sx_choice("which", N + 1)];
		switch (sx_choice("op", 3)) {
		case 0:
			put(x, 50 + j);
			break;
		case 1:
			c.erase(x);
			r.del(x);
			break;
		default:
			SX_ASSERT((c.count(x) != 0) == (r.at(x) >= 0), "count()");
		}
		SX_ASSERT(c.size() == r.n, "size()");
	}
	size_t n = 0;
	for (auto it = c.begin(); it != c.end() && n <= r.n; ++it) {
		++n;
	}
	SX_ASSERT(n == r.n, "iteration yields every member once");
	for (uint32_t i = 0; i <= N; ++i) {
		auto it = c.find(k[i]);
		int at = r.at(k[i]);
		SX_ASSERT((it != c.end()) == (at >= 0), "find()");
	#if WHICH == 7
		if (at >= 0) {
			SX_ASSERT(it->second == r.v[at], "the stored value");
		}
	#endif
	}
	sxapi_reach("end");
	sxapi_done();
}
#endif
