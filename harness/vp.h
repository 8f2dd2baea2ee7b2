// Choice-sequence property testing: a case is a sequence of bounded integer
// choices.  Everything a harness generates is built from Ctx::pick(), so one
// shrinker serves every harness and a replay file is the choice sequence.
// By convention choice 0 is always the simplest alternative.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <initializer_list>
#include <functional>

namespace vp {

// Deliberately not derived from std::exception: code under test that catches
// std::exception must not swallow an oracle failure.
struct Failure { std::string msg; };
struct Discard {};

class Ctx {
public:
	uint64_t pick(uint64_t n);                       // uniform in [0,n)
	int64_t range(int64_t lo, int64_t hi);           // inclusive, lo simplest
	bool chance(unsigned num, unsigned den);         // false simplest
	bool coin() { return pick(2) != 0; }
	size_t weighted(std::initializer_list<unsigned> w);
	// loop control: true means "one more element"; average about avg elements
	bool more(unsigned avg);
	template<class T> const T &oneof(const std::vector<T> &v) { return v[pick(v.size())]; }
	uint64_t bits64();

	// rendering of the case (only kept when verbose)
	bool verbose = false;
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void note_s(const std::string &s);

	// accounting
	void nontrivial(uint64_t h) { nt = true; nthash = h; }
	void label(const std::string &s) { labels[s]++; }
	void evals(uint64_t n) { evaluations += n; }
	void exclude(const std::string &s) { labels["excluded:" + s]++; }

	// internals
	bool replay = false;
	std::vector<uint64_t> in;
	size_t pos = 0;
	uint64_t rng[4];
	bool nt = false; uint64_t nthash = 0;
	uint64_t evaluations = 0;
	std::map<std::string, uint64_t> labels;
	std::string notes;
	bool thorough = false;
	uint64_t case_index = 0;
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const std::string &msg);
#define VP_CHECK(cond, ...) do { if (!(cond)) ::vp::fail(::vp::fmt(__VA_ARGS__)); } while (0)

uint64_t hash64(const std::string &s);
uint64_t hashmix(uint64_t a, uint64_t b);
std::string quote(const std::string &s, size_t max = 400);   // C-like rendering

// Run fn a few times and fail when each run leaves the same amount of memory behind.
void leak_check(const std::function<void()> &fn, const char *what);

// scratch directory private to this process (removed by the parent)
const std::string &scratch();

} // namespace vp

// ---- supplied by each harness
extern const char *vp_rule;               // what makes a case non-trivial
void vp_case(vp::Ctx &c);
// Optional: fixed witnesses run before generation (weak default: none)
void vp_setup();
#endif
