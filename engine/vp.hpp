// Property-testing engine: a case is a pure function of a recorded sequence of
// bounded choices, so that every case can be replayed, mutated and shrunk.
#pragma once
#include <memory>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <deque>
#include <algorithm>

namespace vp {

struct Src {
	uint64_t u(uint64_t max);                  // uniform in [0,max]
	uint64_t n(uint64_t max);                  // biased to the edges and to small values, in [0,max]
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) u((uint64_t) (hi - lo)); }
	bool chance(unsigned num, unsigned den) { return u(den - 1) >= den - num; }   // shrinks towards false
	bool flip() { return u(1) != 0; }
	size_t weighted(std::initializer_list<unsigned> w);
	template<class T> const T &pick(const std::vector<T> &v) { return v[u(v.size() - 1)]; }
	const char *pick(std::initializer_list<const char *> v) { return *(v.begin() + u(v.size() - 1)); }
	int pick(std::initializer_list<int> v) { return *(v.begin() + u(v.size() - 1)); }
	size_t len(size_t max);                    // a size: mostly small, sometimes up to max
	std::string bytes(size_t len);             // any bytes, 0 included
	std::string bytes_cheap(size_t len);       // any bytes, one choice
	std::string chars(size_t len, const char *alphabet);
	std::string word(size_t min, size_t max, const char *alphabet = "abcdefghijklmnopqrstuvwxyz") {
		return chars(min + len(max - min), alphabet);
	}
	std::vector<size_t> cuts(size_t total, size_t max_cuts);   // sorted cut points splitting [0,total)
	int64_t i64();                              // interesting signed values
	uint64_t u64();                             // interesting unsigned values
};

[[noreturn]] void fail_(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void label(const char *name);                 // counted per target; names must be few
void label_if(bool c, const char *name);
void nontrivial();                            // this case counts as non-trivial
void desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // appended to the description of the case
std::string show(const void *p, size_t n, size_t max = 200);
inline std::string show(const std::string &s, size_t max = 200) { return show(s.data(), s.size(), max); }
[[noreturn]] void discard();                  // abandon the case (not counted); C++ objects are unwound

long live_allocs();                           // live allocations made by the code under test
void alloc_fail_at(long n);                   // the n-th allocation from now fails (0: off)
bool alloc_failed();
const char *tmpdir();                         // private scratch folder of this process, emptied by the engine
void clean_tmpdir();
bool thorough();

struct Target {
	const char *name;
	long quick;                               // cases on the quick tier, over all workers
	std::function<void(Src &)> fn;
	const char *rule;                         // how cases are made and what counts as non-trivial
};
int add_target(const char *name, long quick, std::function<void(Src &)> fn, const char *rule);
int engine_main(int argc, char **argv, void (*init)());

// A simple reader over a file descriptor etc. can be built on these
uint64_t hash(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);

}

#define FAIL(...) ::vp::fail_(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) ::vp::fail_(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define VP_TARGET(fn, quick, rule) static int vp_reg_##fn = ::vp::add_target(#fn, quick, fn, rule)
