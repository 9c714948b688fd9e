// Generated-case engine: seeded cases of fixed-size operation records, forked batches, edge-coverage corpus,
// delta-debugging and replay. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n ? (uint32_t)(next() >> 11) % n : 0; }
	uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
	bool chance(uint32_t pct) { return below(100) < pct; }
};

struct Op {
	uint8_t k, f;
	uint16_t a, b, c;
	uint32_t d;
};
static_assert(sizeof(Op) == 12, "op record");

struct Case {
	uint8_t cfg[16] = {0};
	std::vector<Op> ops;
};

typedef uint32_t Tags; // bit n: property Cnn
constexpr Tags T(int n) { return 1u << n; }
constexpr Tags TALL = 0xffffffffu;

namespace eng {
// A disagreement with the lock-step model: only the first one of a case counts.
void fail(Tags tags, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
// A broken invariant that does not depend on the model being in step.
void inv(Tags tags, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
bool desynced();
void desync();
void count(const char *cls, long n = 1);
void nontrivial();
void sig(uint64_t x);
int prop();
bool wants(int p);
bool verbose();
bool thorough();
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *scratch(); // per-process scratch directory
}

struct Harness {
	virtual ~Harness() {}
	virtual void gen(Rng &r, Case &c, int prop) = 0;
	virtual void run(const Case &c) = 0;
	virtual std::string describe(const Case &c) = 0;
	virtual std::string rule(int prop) = 0;
	virtual size_t max_ops() { return 120; }
};
Harness *make_harness();
