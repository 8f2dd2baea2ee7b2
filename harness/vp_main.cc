#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <dirent.h>
#include <exception>
#include <typeinfo>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <sstream>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

__attribute__((weak)) void vp_setup() {}

namespace vp {

// ------------------------------------------------------------------ shared
struct Shared {
	volatile uint64_t case_index;
	volatile uint32_t phase;      // 1 running a case, 0 idle/done
	volatile uint32_t failed;     // oracle failure recorded in msg
	volatile uint64_t nchoices;
	char msg[32768];
	char notes[262144];
	uint64_t choices[1 << 18];
};
static const size_t MAX_CHOICES = 1 << 18;
static Shared *sh = 0;
static std::string scratch_dir;

static Shared *new_shared() {
	void *p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	return (Shared *)p;
}

std::string fmt(const char *f, ...) {
	va_list ap; va_start(ap, f);
	char *s = 0;
	int n = vasprintf(&s, f, ap);
	va_end(ap);
	std::string r(n < 0 ? "" : s, n < 0 ? 0 : n);
	free(s);
	return r;
}

void fail(const std::string &msg) {
	if (sh && !sh->failed) {
		size_t n = std::min(msg.size(), sizeof(sh->msg) - 1);
		memcpy(sh->msg, msg.data(), n);
		sh->msg[n] = 0;
		sh->failed = 1;
	}
	throw Failure{msg};
}

uint64_t hashmix(uint64_t a, uint64_t b) {
	uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
	x ^= x >> 27; x *= 0x94d049bb133111ebull;
	x ^= x >> 31;
	return x;
}
uint64_t hash64(const std::string &s) {
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return hashmix(h, s.size());
}
std::string quote(const std::string &s, size_t max) {
	std::string r = "\"";
	size_t n = 0;
	for (unsigned char c : s) {
		if (n++ >= max) { r += fmt("\"...(%zu bytes)", s.size()); return r; }
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c < 0x20 || c >= 0x7f) r += fmt("\\x%02x", c);
		else r += (char)c;
	}
	return r + "\"";
}
const std::string &scratch() {
	if (scratch_dir.empty()) { fprintf(stderr, "no scratch directory\n"); _exit(3); }
	return scratch_dir;
}

static size_t live_bytes() {
#ifdef VP_ASAN
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}
void leak_check(const std::function<void()> &fn, const char *what) {
	fn();
	size_t a = live_bytes();
	fn();
	size_t b = live_bytes();
	if (b <= a) return;
	fn();
	size_t c = live_bytes();
	if (c <= b) return;
	fn();
	size_t d = live_bytes();
	fn();
	size_t e = live_bytes();
	if (d > c && e > d && d - c == e - d)
		fail(fmt("memory leak: every run of %s leaves %zu bytes allocated", what, e - d));
}

// ------------------------------------------------------------------ choices
static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next_rng(uint64_t *s) {
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
uint64_t Ctx::pick(uint64_t n) {
	uint64_t v;
	if (pos >= MAX_CHOICES) throw Discard();
	if (replay) {
		v = pos < in.size() ? in[pos] : 0;
		if (n && v >= n) v = n - 1;
	} else {
		uint64_t r = next_rng(rng);
		v = n ? (uint64_t)(((unsigned __int128)r * n) >> 64) : r;
	}
	if (sh) { sh->choices[pos] = v; sh->nchoices = pos + 1; }
	++pos;
	return v;
}
uint64_t Ctx::bits64() { return pick(0); }
int64_t Ctx::range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + pick((uint64_t)hi - (uint64_t)lo + 1)); }
bool Ctx::chance(unsigned num, unsigned den) { return pick(den) >= den - num; }
size_t Ctx::weighted(std::initializer_list<unsigned> w) {
	uint64_t t = 0;
	for (unsigned x : w) t += x;
	uint64_t v = pick(t);
	size_t i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
	return 0;
}
bool Ctx::more(unsigned avg) { return pick(avg + 1) != 0; }
void Ctx::note_s(const std::string &s) {
	if (!verbose) return;
	notes += s; notes += '\n';
	if (sh) {
		size_t n = std::min(notes.size(), sizeof(sh->notes) - 1);
		memcpy(sh->notes, notes.data(), n);
		sh->notes[n] = 0;
	}
}
void Ctx::note(const char *f, ...) {
	if (!verbose) return;
	va_list ap; va_start(ap, f);
	char *s = 0;
	int n = vasprintf(&s, f, ap);
	va_end(ap);
	if (n >= 0) note_s(std::string(s, n));
	free(s);
}

// ------------------------------------------------------------------ running
static int opt_cpu = 30;
static bool opt_thorough = false;

static void arm(int seconds) {
	struct itimerval tv;
	memset(&tv, 0, sizeof tv);
	tv.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &tv, 0);
}

// With threads a case can also stop using the processor for good (a deadlock).
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_IDLE 1
#endif
#endif
#ifdef VP_IDLE
static volatile int idle_ticks;
static volatile clock_t idle_last;
static void on_idle_tick(int) {
	clock_t t = clock();
	if (t - idle_last > CLOCKS_PER_SEC / 20) idle_ticks = 0; else idle_ticks = idle_ticks + 1;
	idle_last = t;
	if (idle_ticks >= 15) { signal(SIGPROF, SIG_DFL); kill(getpid(), SIGPROF); }
}
static void arm_idle() {
	idle_ticks = 0;
	idle_last = clock();
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_idle_tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGALRM, &sa, 0);
	struct itimerval tv;
	tv.it_value.tv_sec = tv.it_interval.tv_sec = 2;
	tv.it_value.tv_usec = tv.it_interval.tv_usec = 0;
	setitimer(ITIMER_REAL, &tv, 0);
}
#else
static void arm_idle() {}
#endif

// returns true when the case held (or was discarded)
static bool run_case(Ctx &c, bool &discarded) {
	discarded = false;
	sh->nchoices = 0; sh->failed = 0; sh->msg[0] = 0; sh->notes[0] = 0;
	sh->phase = 1;
	arm(opt_cpu);
	arm_idle();
	c.thorough = opt_thorough;
	bool ok = true;
	try {
		vp_case(c);
		if (sh->failed) ok = false;    // failure swallowed on the way out
	} catch (Failure &) {
		ok = false;
	} catch (Discard &) {
		discarded = true;
		if (sh->failed) { ok = false; }
	} catch (std::exception &e) {
		if (!sh->failed) {
			snprintf(sh->msg, sizeof(sh->msg), "unexpected exception %s: %s", typeid(e).name(), e.what());
			sh->failed = 1;
		}
		ok = false;
	} catch (...) {
		if (!sh->failed) {
			snprintf(sh->msg, sizeof(sh->msg), "unexpected exception of unknown type");
			sh->failed = 1;
		}
		ok = false;
	}
	arm(0);
	sh->phase = 0;
	return ok;
}

static void seed_ctx(Ctx &c, uint64_t seed, uint64_t idx) {
	uint64_t x = hashmix(seed, idx * 2 + 1);
	for (int i = 0; i < 4; ++i) c.rng[i] = splitmix(x);
	c.case_index = idx;
}

static void rm_tree(const std::string &d) {
	DIR *p = opendir(d.c_str());
	if (!p) { unlink(d.c_str()); return; }
	while (struct dirent *e = readdir(p)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string f = d + "/" + n;
		struct stat st;
		if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(f);
		else unlink(f.c_str());
	}
	closedir(p);
	rmdir(d.c_str());
}

static std::string base_dir;

static std::string slurp(const std::string &f, size_t max = 20000) {
	std::ifstream i(f.c_str(), std::ios::binary);
	std::ostringstream o;
	o << i.rdbuf();
	std::string s = o.str();
	if (s.size() > max) s = s.substr(0, max) + "\n...";
	return s;
}

struct Outcome {
	bool held = true;
	std::string msg;      // oracle message or crash description
	std::string kind;     // classification, kept stable while shrinking
	std::vector<uint64_t> choices;
	std::string notes;
	std::string err;
	uint64_t case_index = 0;
};

static void child_io(const std::string &errfile) {
	int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	int z = open("/dev/null", O_RDONLY);
	if (z >= 0) { dup2(z, 0); close(z); }
}

static std::string crash_kind(int st, const std::string &err) {
	if (WIFSIGNALED(st)) {
		if (WTERMSIG(st) == SIGPROF) return "hang";
		if (err.find("terminate called") != std::string::npos) return "terminate";
		if (err.find("Assertion") != std::string::npos) return "assert";
		return fmt("signal %d", WTERMSIG(st));
	}
	size_t p = err.find("Sanitizer");
	if (p != std::string::npos) {
		size_t e = err.find_first_of(" \n", err.find(':', p) + 2);
		size_t b = err.find(':', p);
		if (b != std::string::npos && e != std::string::npos) return "sanitizer" + err.substr(b, e - b);
		return "sanitizer";
	}
	if (err.find("runtime error:") != std::string::npos) return "sanitizer: undefined";
	return fmt("exit %d", WEXITSTATUS(st));
}

// Run one case (given choices) in a fresh process.
static Outcome run_isolated(const std::vector<uint64_t> &ch, bool verbose, Shared *s, const std::string &dir) {
	Outcome o;
	std::string errf = dir + "/err.txt";
	std::string sdir = dir + "/s";
	mkdir(sdir.c_str(), 0700);
	s->failed = 0; s->msg[0] = 0; s->notes[0] = 0; s->nchoices = 0;
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		sh = s;
		scratch_dir = sdir;
		child_io(errf);
		vp_setup();
		Ctx c;
		c.replay = true; c.in = ch; c.verbose = verbose;
		bool d;
		bool ok = run_case(c, d);
		fflush(0);
		_exit(ok ? 0 : 42);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	o.choices.assign(s->choices, s->choices + std::min<uint64_t>((uint64_t)s->nchoices, MAX_CHOICES));
	o.notes = s->notes;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.held = true; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
		o.held = false; o.msg = s->msg; o.kind = "oracle";
	} else {
		o.held = false;
		o.err = slurp(errf);
		o.kind = crash_kind(st, o.err);
		o.msg = (s->failed ? std::string(s->msg) + "; then " : std::string()) + "process ended: " + o.kind;
	}
	rm_tree(sdir);
	return o;
}

// Run cases [a,b) in a fresh process, stop at first failure.
static Outcome run_range(uint64_t seed, uint64_t a, uint64_t b, Shared *s, const std::string &dir) {
	Outcome o;
	std::string errf = dir + "/err.txt";
	std::string sdir = dir + "/s";
	mkdir(sdir.c_str(), 0700);
	s->failed = 0; s->msg[0] = 0; s->notes[0] = 0; s->nchoices = 0;
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		sh = s;
		scratch_dir = sdir;
		child_io(errf);
		vp_setup();
		for (uint64_t i = a; i < b; ++i) {
			Ctx c;
			seed_ctx(c, seed, i);
			sh->case_index = i;
			bool d;
			if (!run_case(c, d)) _exit(42);
		}
		fflush(0);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	o.case_index = s->case_index;
	o.choices.assign(s->choices, s->choices + std::min<uint64_t>((uint64_t)s->nchoices, MAX_CHOICES));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.held = true;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { o.held = false; o.msg = s->msg; o.kind = "oracle"; }
	else {
		o.held = false; o.err = slurp(errf); o.kind = crash_kind(st, o.err);
		o.msg = "process ended: " + o.kind;
	}
	rm_tree(sdir);
	return o;
}

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ shrinking
static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string &kind, Shared *s,
		const std::string &dir, unsigned &attempts) {
	double t0 = now();
	double budget = kind == "hang" ? 120 : 45;
	unsigned maxatt = kind == "hang" ? 6 : 3000;
	auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
		if (attempts >= maxatt || now() - t0 > budget) return false;
		++attempts;
		Outcome o = run_isolated(cand, false, s, dir);
		if (o.held || o.kind != kind) return false;
		// normalise to what was really consumed
		std::vector<uint64_t> used = o.choices;
		while (!used.empty() && used.back() == 0) used.pop_back();
		if (used.size() < best.size() || (used.size() == best.size() && used < best)) { best = used; return true; }
		if (cand.size() < best.size() || (cand.size() == best.size() && cand < best)) { best = cand; return true; }
		return false;
	};
	while (!best.empty() && best.back() == 0) best.pop_back();
	bool progress = true;
	while (progress && attempts < maxatt && now() - t0 < budget) {
		progress = false;
		for (size_t span = best.size() / 2 + 1; span >= 1; span /= 2) {
			for (size_t i = 0; i + span <= best.size();) {
				std::vector<uint64_t> c(best);
				c.erase(c.begin() + i, c.begin() + i + span);
				if (attempt(c)) progress = true; else i += std::max<size_t>(1, span / 2);
				if (now() - t0 > budget) return best;
			}
			if (span == 1) break;
		}
		for (size_t span = 8; span >= 1; span /= 2) {
			for (size_t i = 0; i + span <= best.size(); i += span) {
				std::vector<uint64_t> c(best);
				bool nz = false;
				for (size_t k = i; k < i + span; ++k) { nz |= c[k] != 0; c[k] = 0; }
				if (nz && attempt(c)) progress = true;
				if (now() - t0 > budget) return best;
			}
		}
		for (size_t i = 0; i < best.size(); ++i) {
			uint64_t lo = 0;
			while (i < best.size() && best[i] > lo) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				std::vector<uint64_t> c(best);
				c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid + 1;
				if (now() - t0 > budget || attempts >= maxatt) return best;
			}
		}
	}
	return best;
}

// ------------------------------------------------------------------ stats
struct Stats {
	uint64_t cases = 0, evaluations = 0, discarded = 0, nontrivial = 0;
	std::unordered_set<uint64_t> hashes;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
};

static void write_chunk(const std::string &f, uint64_t cases, uint64_t ev, uint64_t disc, uint64_t nt,
		const std::vector<uint64_t> &h, const std::map<std::string, uint64_t> &labels) {
	FILE *o = fopen(f.c_str(), "wb");
	if (!o) _exit(3);
	fprintf(o, "%llu %llu %llu %llu %zu\n", (unsigned long long)cases, (unsigned long long)ev,
			(unsigned long long)disc, (unsigned long long)nt, h.size());
	for (auto &l : labels) fprintf(o, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
	fprintf(o, "-\n");
	if (!h.empty()) fwrite(&h[0], 8, h.size(), o);
	fclose(o);
}
static void read_chunk(const std::string &f, Stats &s) {
	FILE *i = fopen(f.c_str(), "rb");
	if (!i) return;
	unsigned long long a, b, c, d; size_t n;
	if (fscanf(i, "%llu %llu %llu %llu %zu\n", &a, &b, &c, &d, &n) == 5) {
		s.cases += a; s.evaluations += b; s.discarded += c; s.nontrivial += d;
		char *line = 0; size_t cap = 0; ssize_t len;
		while ((len = getline(&line, &cap, i)) > 0) {
			if (line[0] == '-') break;
			if (line[len - 1] == '\n') line[len - 1] = 0;
			char *e;
			unsigned long long v = strtoull(line, &e, 10);
			s.labels[std::string(e + 1)] += v;
		}
		free(line);
		std::vector<uint64_t> h(n);
		if (n && fread(&h[0], 8, n, i) == n) s.hashes.insert(h.begin(), h.end());
	}
	fclose(i);
}

static void chunk_child(Shared *s, uint64_t seed, uint64_t a, uint64_t b, const std::string &dir) {
	sh = s;
	scratch_dir = dir + "/s";
	mkdir(scratch_dir.c_str(), 0700);
	child_io(dir + "/err.txt");
	vp_setup();
	std::vector<uint64_t> hashes;
	std::map<std::string, uint64_t> labels;
	uint64_t ev = 0, disc = 0, nt = 0, n = 0;
	for (uint64_t i = a; i < b; ++i) {
		Ctx c;
		seed_ctx(c, seed, i);
		sh->case_index = i;
		bool d;
		bool ok = run_case(c, d);
		++n;
		ev += c.evaluations ? c.evaluations : (d ? 0 : 1);
		disc += d;
		if (c.nt && !d) { ++nt; hashes.push_back(c.nthash); }
		for (auto &l : c.labels) labels[l.first] += l.second;
		if (!ok) {
			write_chunk(dir + "/stats", n, ev, disc, nt, hashes, labels);
			_exit(42);
		}
	}
	write_chunk(dir + "/stats", n, ev, disc, nt, hashes, labels);
	rm_tree(scratch_dir);
	fflush(0);
	_exit(0);
}

static std::string json_str(const std::string &s) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
		else r += (char)c;
	}
	return r + "\"";
}

static void write_replay(const std::string &file, const Outcome &o, const std::string &mode, uint64_t seed,
		uint64_t a, uint64_t b, const std::string &notes) {
	std::ofstream f(file.c_str());
	f << "# replay of a failing case; run: tools/check.py replay <property> <this file>\n";
	std::istringstream is(o.msg);
	std::string line;
	while (std::getline(is, line)) f << "# failure: " << line << "\n";
	std::istringstream in(notes);
	while (std::getline(in, line)) f << "# case: " << line << "\n";
	std::istringstream ie(o.err);
	while (std::getline(ie, line)) f << "# stderr: " << line << "\n";
	f << "mode " << mode << "\n";
	if (mode == "range") f << "range " << seed << " " << a << " " << b << "\n";
	else {
		f << "choices";
		for (uint64_t v : o.choices) f << " " << v;
		f << "\n";
	}
}

static int main_run(uint64_t seed, uint64_t total, unsigned workers, uint64_t chunk, const std::string &statsf,
		const std::string &replayf) {
	double t0 = now();
	std::string root = base_dir + fmt("/run.%d", (int)getpid());
	mkdir(root.c_str(), 0700);
	struct W { pid_t pid = 0; uint64_t a = 0, b = 0; std::string dir; Shared *s = 0; };
	std::vector<W> ws(workers);
	for (unsigned i = 0; i < workers; ++i) {
		ws[i].dir = root + fmt("/w%u", i);
		mkdir(ws[i].dir.c_str(), 0700);
		ws[i].s = new_shared();
	}
	Stats st;
	uint64_t next = 0;
	bool failed = false;
	Outcome fo;
	uint64_t fa = 0, fb = 0;
	unsigned live = 0;
	while (true) {
		for (auto &w : ws) {
			if (w.pid || failed || next >= total) continue;
			w.a = next; w.b = std::min(total, next + chunk); next = w.b;
			fflush(0);
			w.s->phase = 0;
			pid_t p = fork();
			if (p == 0) chunk_child(w.s, seed, w.a, w.b, w.dir);
			if (p < 0) { perror("fork"); return 3; }
			w.pid = p; ++live;
		}
		if (!live) break;
		int status;
		pid_t p = waitpid(-1, &status, 0);
		if (p < 0) { if (errno == EINTR) continue; break; }
		for (auto &w : ws) {
			if (w.pid != p) continue;
			w.pid = 0; --live;
			read_chunk(w.dir + "/stats", st);
			unlink((w.dir + "/stats").c_str());
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
			// keep the failure with the smallest case index: deterministic
			uint64_t ci = w.s->case_index;
			if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && !w.s->phase) {
				fprintf(stderr, "worker killed\n"); return 3;
			}
			if (!failed || ci < fo.case_index) {
				fo = Outcome();
				fo.held = false;
				fo.case_index = ci;
				fo.choices.assign(w.s->choices, w.s->choices + std::min<uint64_t>((uint64_t)w.s->nchoices, MAX_CHOICES));
				if (WIFEXITED(status) && WEXITSTATUS(status) == 42) { fo.kind = "oracle"; fo.msg = w.s->msg; }
				else {
					fo.err = slurp(w.dir + "/err.txt");
					fo.kind = crash_kind(status, fo.err);
					fo.msg = "process ended: " + fo.kind;
				}
				fa = w.a; fb = w.b;
			}
			failed = true;
			break;
		}
	}
	// samples: rendering of the first cases that are non-trivial
	if (!failed) {
		Shared *s = ws[0].s;
		for (uint64_t i = 0; i < std::min<uint64_t>(total, 40) && st.samples.size() < 4; ++i) {
			std::string sdir = root + "/smp";
			mkdir(sdir.c_str(), 0700);
			fflush(0);
			s->notes[0] = 0;
			pid_t p = fork();
			if (p == 0) {
				sh = s; scratch_dir = sdir;
				child_io(root + "/smp.err");
				vp_setup();
				Ctx c; seed_ctx(c, seed, i); c.verbose = true;
				bool d;
				bool ok = run_case(c, d);
				_exit(ok && c.nt && !d ? 0 : 1);
			}
			int status;
			while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
			rm_tree(sdir);
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
				std::string n = s->notes;
				if (n.size() > 1500) n = n.substr(0, 1500) + "...";
				st.samples.push_back(n);
			}
		}
	}
	int rc = 0;
	std::string verdict = "held";
	std::string fmsg;
	unsigned attempts = 0;
	if (failed) {
		Shared *s = ws[0].s;
		std::string dir = root + "/shr";
		mkdir(dir.c_str(), 0700);
		std::string mode = "choices";
		Outcome chk = run_isolated(fo.choices, false, s, dir);
		if (!chk.held) {
			std::vector<uint64_t> small = shrink(fo.choices, chk.kind, s, dir, attempts);
			unsigned same = 0;
			Outcome last;
			unsigned reps = chk.kind == "hang" ? 1 : 3;
			for (unsigned i = 0; i < reps; ++i) {
				Outcome o = run_isolated(small, true, s, dir);
				if (!o.held) { ++same; last = o; }
			}
			if (same < reps) {
				small = fo.choices; same = 0;
				for (unsigned i = 0; i < 3; ++i) {
					Outcome o = run_isolated(small, true, s, dir);
					if (!o.held) { ++same; last = o; }
				}
			}
			if (same) {
				while (!small.empty() && small.back() == 0) small.pop_back();
				last.choices = small;
				fo = last;
				verdict = same >= 1 ? "violated" : "flaky";
			} else verdict = "flaky";
			write_replay(replayf, fo, mode, seed, 0, 0, fo.notes);
		} else {
			// depends on what ran before in the same process: replay the whole range
			unsigned same = 0;
			Outcome last = fo;
			uint64_t a = fa, b = fo.case_index + 1;
			for (unsigned i = 0; i < 3; ++i) {
				Outcome o = run_range(seed, a, b, s, dir);
				if (!o.held) { ++same; last = o; }
			}
			if (same == 3) {
				// shorten the history
				double ts = now();
				while (b - a > 1 && now() - ts < 40) {
					uint64_t m = a + (b - a + 1) / 2;
					Outcome o = run_range(seed, m, b, s, dir);
					if (!o.held) { a = m; last = o; } else break;
				}
				while (b - a > 1 && now() - ts < 40) {
					Outcome o = run_range(seed, a + 1, b, s, dir);
					if (!o.held) { ++a; last = o; } else break;
				}
				verdict = "violated";
				fo = last;
			} else if (same) { verdict = "violated"; fo = last; }
			else {
				// TSan / schedule dependent failures may not repeat: report what was seen
				verdict = "flaky";
			}
			write_replay(replayf, fo, "range", seed, a, b, "");
		}
		fmsg = fo.msg;
		rc = verdict == "violated" ? 1 : 4;
	}
	std::ofstream f(statsf.c_str());
	f << "{\"verdict\":" << json_str(verdict) << ",\"message\":" << json_str(fmsg)
		<< ",\"kind\":" << json_str(fo.kind)
		<< ",\"cases\":" << st.cases << ",\"evaluations\":" << st.evaluations
		<< ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial
		<< ",\"distinct_nontrivial\":" << st.hashes.size()
		<< ",\"rule\":" << json_str(vp_rule)
		<< ",\"shrink_attempts\":" << attempts
		<< ",\"wall_s\":" << (now() - t0) << ",\"labels\":{";
	bool first = true;
	for (auto &l : st.labels) { f << (first ? "" : ",") << json_str(l.first) << ":" << l.second; first = false; }
	f << "},\"samples\":[";
	for (size_t i = 0; i < st.samples.size(); ++i) f << (i ? "," : "") << json_str(st.samples[i]);
	f << "]}\n";
	f.close();
	rm_tree(root);
	return rc;
}

static int main_replay(const std::string &file, bool quiet) {
	std::string root = base_dir + fmt("/run.%d", (int)getpid());
	mkdir(root.c_str(), 0700);
	std::ifstream f(file.c_str());
	std::string line, mode = "choices";
	std::vector<uint64_t> ch;
	uint64_t seed = 0, a = 0, b = 0;
	while (std::getline(f, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream is(line);
		std::string k;
		is >> k;
		if (k == "mode") is >> mode;
		else if (k == "range") is >> seed >> a >> b;
		else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
	}
	Shared *s = new_shared();
	Outcome o = mode == "range" ? run_range(seed, a, b, s, root) : run_isolated(ch, true, s, root);
	if (!quiet) {
		printf("%s%s\n", o.notes.c_str(), o.held ? "HELD" : ("FAILED: " + o.msg).c_str());
		if (!o.err.empty()) printf("%s\n", o.err.c_str());
	}
	rm_tree(root);
	return o.held ? 0 : 1;
}

} // namespace vp

int main(int argc, char **argv) {
	using namespace vp;
	std::string mode = argc > 1 ? argv[1] : "", stats = "/dev/null", replay, file;
	uint64_t seed = 1, cases = 1000, chunk = 200;
	unsigned workers = 8;
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--cases") cases = strtoull(v.c_str(), 0, 10);
		else if (k == "--chunk") chunk = strtoull(v.c_str(), 0, 10);
		else if (k == "--workers") workers = atoi(v.c_str());
		else if (k == "--stats") stats = v;
		else if (k == "--replay") replay = v;
		else if (k == "--file") file = v;
		else if (k == "--dir") base_dir = v;
		else if (k == "--cpu") opt_cpu = atoi(v.c_str());
		else if (k == "--thorough") opt_thorough = v == "1";
	}
	if (base_dir.empty()) { fprintf(stderr, "--dir is required\n"); return 3; }
	if (mode == "run") return main_run(hashmix(seed, 77), cases, workers, chunk, stats, replay);
	if (mode == "replay") return main_replay(file, false);
	fprintf(stderr, "usage: run|replay --dir D ...\n");
	return 3;
}
