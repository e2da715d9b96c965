#include "vp.hpp"
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdarg.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <atomic>
#include <mutex>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
namespace vp {

static constexpr size_t MAX_CHOICES = 1 << 18;
static constexpr size_t MAX_DESC = 1 << 14;
static constexpr size_t MAX_WORKERS = 32;
static constexpr size_t MAX_TARGETS = 32;
static constexpr size_t MAX_LABELS = 96;
static constexpr size_t SAMPLES = 4;
static constexpr size_t HASHES = 1 << 22;

struct Shared {                      // one per running process
	volatile uint64_t case_no;       // cases started in this worker
	volatile int target;
	volatile size_t n_choices;
	volatile size_t n_desc;
	volatile int done;
	volatile int in_case;
	char msg[4096];
	char desc[MAX_DESC];
	uint64_t choices[MAX_CHOICES];
};
struct TStat {
	std::atomic<long> evals, nontrivial, distinct, discarded;
	struct { char name[48]; std::atomic<long> n; } labels[MAX_LABELS];
	std::atomic<int> nlabels, lock;
	std::atomic<int> nsamples;
	char samples[SAMPLES][1200];
	std::atomic<long> corpus;
};
struct Global {
	TStat t[MAX_TARGETS];
	std::atomic<int> stop;
	std::atomic<int> edges;
	std::atomic<uint64_t> hashes[HASHES];
};

static Global *G;
static Shared *S;
static std::vector<Target> *targets_;
static std::vector<Target> &targets() { if (!targets_) targets_ = new std::vector<Target>(); return *targets_; }
int add_target(const char *name, long quick, std::function<void(Src &)> fn, const char *rule) {
	targets().push_back(Target{name, quick, fn, rule});
	return 0;
}

// ---------------------------------------------------------------- coverage
static uint32_t n_guards = 0;
static uint8_t *cov_cnt = nullptr;      // per case
static uint32_t *cov_list = nullptr;
static uint32_t cov_n = 0;
static uint8_t *cov_seen = nullptr;     // bitmask of buckets per edge, per target set
static bool cov_on = false;

}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
	if (start == stop || *start) return;
	for (uint32_t *x = start; x < stop; x++) *x = ++vp::n_guards;
}
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
	uint32_t id = *guard;
	if (!vp::cov_on || !id) return;
	uint8_t c = vp::cov_cnt[id];
	if (c == 0) { uint32_t i = __atomic_fetch_add(&vp::cov_n, 1, __ATOMIC_RELAXED); if (i <= vp::n_guards) vp::cov_list[i] = id; }
	if (c < 255) vp::cov_cnt[id] = c + 1;
}
namespace vp {
static uint8_t bucket(uint8_t c) {
	return c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}

// ------------------------------------------------------- allocation tracking
static constexpr size_t TRK = 1 << 20;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TRACK false      // the lock of the tracker would hide races
#endif
#endif
#ifndef VP_TRACK
#define VP_TRACK true
#endif
static void **trk; static size_t trk_n; static bool trk_on; static std::mutex *trk_mx;
static long trk_live, trk_fail_at; static bool trk_failed;
static size_t trk_hash(void *p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
long live_allocs() { return trk_live; }
void alloc_fail_at(long n) { trk_fail_at = n; trk_failed = false; }
bool alloc_failed() { return trk_failed; }
}
extern "C" int vp_alloc_should_fail(void) {
	if (!vp::trk_on || !vp::trk_fail_at) return 0;
	std::lock_guard<std::mutex> l(*vp::trk_mx);
	if (vp::trk_fail_at && --vp::trk_fail_at == 0) { vp::trk_failed = true; return 1; }
	return 0;
}
extern "C" void vp_alloc_add(void *p) {
	if (!vp::trk_on || !p) return;
	std::lock_guard<std::mutex> l(*vp::trk_mx);
	if (vp::trk_n > vp::TRK / 2) return;
	size_t i = vp::trk_hash(p);
	while (vp::trk[i] && vp::trk[i] != (void *) 1) i = (i + 1) & (vp::TRK - 1);
	if (!vp::trk[i]) vp::trk_n++;
	vp::trk[i] = p;
	vp::trk_live++;
}
extern "C" void vp_alloc_del(void *p) {
	if (!vp::trk_on || !p) return;
	std::lock_guard<std::mutex> l(*vp::trk_mx);
	size_t i = vp::trk_hash(p);
	while (vp::trk[i]) {
		if (vp::trk[i] == p) {
			if (vp::trk[(i + 1) & (vp::TRK - 1)] == nullptr) { vp::trk[i] = nullptr; vp::trk_n--; }
			else vp::trk[i] = (void *) 1;
			vp::trk_live--;
			return;
		}
		i = (i + 1) & (vp::TRK - 1);
	}
}
extern "C" void __sanitizer_free_hook(const volatile void *p) { if (vp::trk_on) vp_alloc_del((void *) p); }
namespace vp {
static void trk_reset() { if (!trk) return; std::lock_guard<std::mutex> l(*trk_mx); if (trk_n) memset(trk, 0, TRK * sizeof(void *)); trk_n = 0; trk_live = 0; trk_fail_at = 0; trk_failed = false; }

// ---------------------------------------------------------------- randomness
static uint64_t rs[2];
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static void seed_rng(uint64_t a, uint64_t b, uint64_t c) { rs[0] = mix(mix(a) ^ mix(b * 31 + 7) ^ c * 0x9E3779B97F4A7C15ull); rs[1] = mix(rs[0] + 1); }
static uint64_t rnd() { uint64_t s1 = rs[0], s0 = rs[1], r = s0 + s1; rs[0] = s0; s1 ^= s1 << 23; rs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return mix(r); }
static uint64_t below(uint64_t max) { return max == UINT64_MAX ? rnd() : rnd() % (max + 1); }

uint64_t hash(const void *p, size_t n, uint64_t h) {
	const uint8_t *c = (const uint8_t *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return mix(h);
}

// ---------------------------------------------------------------- the source
struct Discard {};
static const std::vector<uint64_t> *prefix = nullptr;   // replayed first
static bool random_tail = true;                         // afterwards: random values, or zeros
static bool case_nontrivial;
static bool count_labels = true;
static bool want_desc = true;
static int is_thorough = 0;
bool thorough() { return is_thorough; }

static uint64_t draw(uint64_t max, uint64_t (*gen)(uint64_t)) {
	size_t i = S->n_choices;
	uint64_t v;
	if (i >= MAX_CHOICES) throw Discard();
	if (prefix && i < prefix->size()) { v = (*prefix)[i]; if (v > max) v %= max + 1; }
	else v = random_tail ? gen(max) : 0;
	S->choices[i] = v;
	S->n_choices = i + 1;
	return v;
}
static uint64_t gen_edge(uint64_t max) {
	if (max < 4) return below(max);
	switch (rnd() % 8) {
		case 0: return 0;
		case 1: return max;
		case 2: return below(max < 8 ? max : 8);
		case 3: return max - below(max < 3 ? max : 3);
		case 4: { int bits = 64 - __builtin_clzll(max); uint64_t v = below(~0ull) >> (64 - 1 - below(bits - 1)); return v > max ? max : v; }
		case 5: { int bits = 64 - __builtin_clzll(max); uint64_t v = 1ull << below(bits - 1); v += below(2) - 1; return v > max ? max : v; }
		default: return below(max);
	}
}
static uint64_t gen_len(uint64_t max) {
	if (max < 4) return below(max);
	switch (rnd() % 16) {
		case 0: return 0;
		case 1: return max;
		case 2: return below(max);
		case 3: case 4: return below(max < 40 ? max : 40);
		default: return below(max < 9 ? max : 9);
	}
}
uint64_t Src::u(uint64_t max) { return draw(max, below); }
uint64_t Src::n(uint64_t max) { return draw(max, gen_edge); }
size_t Src::len(size_t max) { return (size_t) draw(max, gen_len); }
size_t Src::weighted(std::initializer_list<unsigned> w) {
	unsigned tot = 0; for (unsigned x : w) tot += x;
	uint64_t v = u(tot - 1); size_t i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return w.size() - 1;
}
std::string Src::bytes(size_t l) { std::string r(l, 0); for (size_t i = 0; i < l; i++) r[i] = (char) n(255); return r; }
std::string Src::bytes_cheap(size_t l) {
	uint64_t s = u(UINT32_MAX); std::string r(l, 0);
	if (s == 0) { for (size_t i = 0; i < l; i++) r[i] = (char) ('a' + i % 26); return r; }
	for (size_t i = 0; i < l; i += 8) { uint64_t x = mix(s * 0x100000001ull + i); memcpy(&r[i], &x, l - i < 8 ? l - i : 8); }
	return r;
}
std::string Src::chars(size_t l, const char *a) { size_t m = strlen(a); std::string r(l, 0); for (size_t i = 0; i < l; i++) r[i] = a[u(m - 1)]; return r; }
std::vector<size_t> Src::cuts(size_t total, size_t max_cuts) {
	std::vector<size_t> c; if (total < 2) return c;
	size_t k = u(std::min(max_cuts, total - 1));
	for (size_t i = 0; i < k; i++) c.push_back(1 + n(total - 2));
	std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
	return c;
}
static const int64_t I64[] = {0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1000000, 16777215, 16777216};
int64_t Src::i64() {
	switch (u(3)) {
		case 0: return (int64_t) n(200) - 100;
		case 1: return I64[u(sizeof(I64) / sizeof(*I64) - 1)];
		default: { unsigned bits = u(63); uint64_t v = u(UINT64_MAX) >> bits; return flip() ? (int64_t) (0 - v) : (int64_t) v; }
	}
}
uint64_t Src::u64() {
	switch (u(3)) {
		case 0: return n(200);
		case 1: return (uint64_t) I64[u(sizeof(I64) / sizeof(*I64) - 1)];
		default: { unsigned bits = u(63); return u(UINT64_MAX) >> bits; }
	}
}

// ---------------------------------------------------------------- reporting
void fail_(const char *file, int line, const char *fmt, ...) {
	const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
	int n = snprintf(S->msg, sizeof(S->msg), "%s:%d: ", b, line);
	va_list ap; va_start(ap, fmt); vsnprintf(S->msg + n, sizeof(S->msg) - n, fmt, ap); va_end(ap);
	S->n_choices = S->n_choices;
	_exit(42);
}
void desc(const char *fmt, ...) {
	size_t o = S->n_desc; if (o >= MAX_DESC - 1) return;
	va_list ap; va_start(ap, fmt); int n = vsnprintf(S->desc + o, MAX_DESC - o, fmt, ap); va_end(ap);
	if (n > 0) S->n_desc = std::min(o + (size_t) n, MAX_DESC - 1);
}
std::string show(const void *p, size_t n, size_t max) {
	static const char *hx = "0123456789abcdef"; std::string r = "\""; const uint8_t *c = (const uint8_t *) p;
	for (size_t i = 0; i < n && i < max; i++) {
		if (c[i] == '"' || c[i] == '\\') { r += '\\'; r += (char) c[i]; }
		else if (c[i] >= 32 && c[i] < 127) r += (char) c[i];
		else { r += "\\x"; r += hx[c[i] >> 4]; r += hx[c[i] & 15]; }
	}
	r += '"'; if (n > max) r += "...(" + std::to_string(n) + " bytes)";
	return r;
}
void nontrivial() { case_nontrivial = true; }
void discard() { throw Discard(); }
static std::vector<int> *case_labels;
void label(const char *name) {
	if (!G || !count_labels) return;
	TStat &t = G->t[S->target];
	int k = t.nlabels;
	for (int i = 0; i < k; i++) if (!strcmp(t.labels[i].name, name)) { t.labels[i].n++; return; }
	int z = 0; while (!t.lock.compare_exchange_weak(z, 1)) z = 0;
	k = t.nlabels;
	int i; for (i = 0; i < k; i++) if (!strcmp(t.labels[i].name, name)) break;
	if (i == k && k < (int) MAX_LABELS) { strncpy(t.labels[k].name, name, 47); t.nlabels = k + 1; }
	if (i < (int) MAX_LABELS) t.labels[i].n++;
	t.lock = 0;
}
void label_if(bool c, const char *name) { if (c) label(name); }

// ---------------------------------------------------------------- scratch
static char tmpd[256] = "";
static std::string tmpbase;
static int rm_cb(const char *p, const struct stat *, int, struct FTW *f) { if (f->level > 0) remove(p); return 0; }
static int rm_all_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
const char *tmpdir() {
	if (!tmpd[0]) {
		snprintf(tmpd, sizeof(tmpd), "%s/p%d", tmpbase.c_str(), (int) getpid());
		mkdir(tmpd, 0700);
	}
	return tmpd;
}
void clean_tmpdir() { if (tmpd[0]) nftw(tmpd, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
static void remove_tmp(const char *d) { nftw(d, rm_all_cb, 16, FTW_DEPTH | FTW_PHYS); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- one case
// returns false when discarded
static bool run_case(int target) {
	S->target = target; S->n_choices = 0; S->n_desc = 0; S->desc[0] = 0; S->msg[0] = 0;
	case_nontrivial = false;
	trk_reset();
	S->in_case = 1;
	bool ok = true;
	Src s;
	try { targets()[target].fn(s); } catch (Discard &) { ok = false; }
	S->in_case = 0;
	return ok;
}
static void case_env() {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (!trk) { trk = (void **) calloc(TRK, sizeof(void *)); trk_mx = new std::mutex(); }
	trk_on = VP_TRACK;
	tmpd[0] = 0;
	signal(SIGPIPE, SIG_IGN);
}
static void note_distinct(int t) {
	uint64_t h = hash(S->choices, S->n_choices * 8, mix(t + 1)); if (!h) h = 1;
	for (size_t i = h & (HASHES - 1), k = 0; k < 64; i = (i + 1) & (HASHES - 1), k++) {
		uint64_t e = 0;
		if (G->hashes[i].load(std::memory_order_relaxed) == h) return;
		if (G->hashes[i].compare_exchange_strong(e, h)) { G->t[t].distinct++; return; }
		if (e == h) return;
	}
}

struct Cfg { uint64_t seed = 1; double scale = 1; double cap = 240; int workers = 8; std::string only; int keep_out = 0; };
static Cfg cfg;

static std::vector<uint64_t> mutate(const std::vector<std::vector<uint64_t>> &corpus, const std::vector<uint64_t> &maxes) {
	std::vector<uint64_t> c = corpus[below(corpus.size() - 1)];
	if (c.empty()) return c;
	unsigned k = 1 + below(3);
	for (unsigned m = 0; m < k && !c.empty(); m++) {
		size_t i = below(c.size() - 1);
		switch (rnd() % 9) {
			case 0: c[i] = rnd() >> below(63); break;
			case 1: c[i] += 1; break;
			case 2: if (c[i]) c[i] -= 1; break;
			case 3: c[i] ^= 1ull << below(7); break;
			case 4: { size_t l = 1 + below(std::min<size_t>(8, c.size() - i) - 1); c.erase(c.begin() + i, c.begin() + i + l); break; }
			case 5: { size_t l = 1 + below(std::min<size_t>(16, c.size() - i) - 1); std::vector<uint64_t> d(c.begin() + i, c.begin() + i + l); size_t j = below(c.size()); c.insert(c.begin() + j, d.begin(), d.end()); break; }
			case 6: c.resize(i); break;    // random tail follows
			case 7: { const auto &o = corpus[below(corpus.size() - 1)]; size_t j = o.empty() ? 0 : below(o.size()); c.resize(i); c.insert(c.end(), o.begin() + j, o.end()); break; }
			case 8: c[i] = 0; break;
		}
	}
	if (c.size() > MAX_CHOICES / 2) c.resize(MAX_CHOICES / 2);
	return c;
}

// The stream of one worker: deterministic in (seed, worker) for deterministic code.
static void worker_loop(int w, int nworkers, long stop_after, double deadline) {
	case_env();
	cov_cnt = (uint8_t *) calloc(n_guards + 2, 1);
	cov_list = (uint32_t *) calloc(n_guards + 2, 4);
	cov_seen = (uint8_t *) calloc(n_guards + 2, 1);
	struct PT { std::vector<std::vector<uint64_t>> corpus; long todo, done = 0; };
	std::vector<PT> pt(targets().size());
	long total = 0;
	for (size_t t = 0; t < targets().size(); t++) {
		bool sel = cfg.only.empty() || cfg.only == targets()[t].name;
		double q = targets()[t].quick * cfg.scale;
		pt[t].todo = sel ? std::max(1L, (long) (q / nworkers + 0.999)) : 0;
		total += pt[t].todo;
	}
	std::vector<uint64_t> pre, nomax;
	long n = 0;
	while (!G->stop) {
		// the target furthest behind its share
		int t = -1; double best = 2;
		for (size_t i = 0; i < pt.size(); i++) if (pt[i].done < pt[i].todo) { double f = (double) pt[i].done / pt[i].todo; if (f < best) { best = f; t = (int) i; } }
		if (t < 0) break;
		if (deadline > 0 && (n & 15) == 0 && now() > deadline) break;
		PT &p = pt[t];
		seed_rng(cfg.seed, (uint64_t) w * 1000 + t, p.done);
		p.done++;
		bool mut = !p.corpus.empty() && rnd() % 100 < 45;
		if (mut) { pre = mutate(p.corpus, nomax); prefix = &pre; } else prefix = nullptr;
		random_tail = true;
		S->case_no = ++n;
		cov_n = 0; cov_on = true;
		bool ok = run_case(t);
		cov_on = false;
		bool fresh = false;
		uint32_t m = std::min(cov_n, n_guards);
		for (uint32_t i = 0; i < m; i++) {
			uint32_t id = cov_list[i]; uint8_t b = bucket(cov_cnt[id]); cov_cnt[id] = 0;
			if (!(cov_seen[id] & b)) { if (!cov_seen[id]) G->edges++; cov_seen[id] |= b; fresh = true; }
		}
		if (ok) {
			if (fresh && S->n_choices < 4096 && p.corpus.size() < 4096) { p.corpus.emplace_back(S->choices, S->choices + S->n_choices); G->t[t].corpus++; }
			G->t[t].evals++;
			if (case_nontrivial) {
				G->t[t].nontrivial++;
				note_distinct(t);
				if (S->n_desc && G->t[t].nsamples < (int) SAMPLES && p.done > 1) {
					int k = G->t[t].nsamples++;
					if (k < (int) SAMPLES) { strncpy(G->t[t].samples[k], S->desc, sizeof(G->t[t].samples[k]) - 1); }
				}
			}
		} else G->t[t].discarded++;
		if (stop_after && n >= stop_after) break;
	}
	clean_tmpdir(); if (tmpd[0]) rmdir(tmpd);
	if (__llvm_profile_write_file) __llvm_profile_write_file();   // Only with VERIF_COV, see vbuild.py
	S->done = 1;
	_exit(0);
}

// ---------------------------------------------------------------- replaying
struct Result { bool failed = false, hang = false; std::string what; std::vector<uint64_t> choices; std::string desc; };
static std::string errfile;
static const char *NULLDEV = "/dev/null";
static void redirect(const char *p) {
	if (cfg.keep_out) return;
	int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return;
	dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd);
}
static std::string read_tail(const std::string &p) {
	FILE *f = fopen(p.c_str(), "r"); if (!f) return "";
	std::string r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < (1u << 22)) r.append(b, n); fclose(f); return r;
}
static std::string summarize(const std::string &out) {
	size_t p = out.find("SUMMARY: "); 
	std::string r;
	size_t q = out.find("runtime error: ");
	if (q != std::string::npos) { size_t a = out.rfind('\n', q); a = a == std::string::npos ? 0 : a + 1; r += out.substr(a, out.find('\n', q) - a) + "; "; }
	if (p != std::string::npos) r += out.substr(p, out.find('\n', p) - p);
	if (r.empty()) { r = out.size() > 600 ? out.substr(out.size() - 600) : out; for (char &c : r) if (c == '\n') c = '|'; }
	return r;
}
static double hang_cpu = 20, hang_wall = 90;
static Result wait_child(pid_t pid, Shared *sh) {
	Result r; double t0 = now(); int st = 0;
	for (;;) {
		pid_t x = waitpid(pid, &st, WNOHANG);
		if (x == pid) break;
		if (now() - t0 > hang_wall) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); r.failed = true; r.hang = true; r.what = "no progress (blocked)"; break; }
		usleep(now() - t0 < 0.02 ? 500 : 5000);
	}
	kill(-pid, SIGKILL);
	if (!r.failed) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { r.failed = true; r.what = sh->msg; }
		else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { r.failed = true; r.hang = true; r.what = "no progress (endless loop)"; }
		else if (WIFSIGNALED(st)) { r.failed = true; r.what = std::string("terminated by signal ") + std::to_string(WTERMSIG(st)); }
		else if (WEXITSTATUS(st) != 0) { r.failed = true; r.what = "sanitizer or unexpected exit " + std::to_string(WEXITSTATUS(st)); }
	}
	if (r.failed) { r.choices.assign(sh->choices, sh->choices + sh->n_choices); r.desc.assign(sh->desc, sh->n_desc); }
	return r;
}
static Result replay(int t, const std::vector<uint64_t> &c, bool with_output = true) {
	Shared *old = S;
	static Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->n_choices = 0; sh->n_desc = 0; sh->msg[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		S = sh; count_labels = false; redirect(with_output ? errfile.c_str() : NULLDEV);
		struct rlimit rl = {(rlim_t) hang_cpu, (rlim_t) hang_cpu + 5}; setrlimit(RLIMIT_CPU, &rl);
		case_env();
		prefix = &c; random_tail = false;
		run_case(t);
		clean_tmpdir(); if (tmpd[0]) rmdir(tmpd);
		_exit(0);
	}
	Result r = wait_child(pid, sh);
	char d[300]; snprintf(d, sizeof d, "%s/p%d", tmpbase.c_str(), (int) pid); remove_tmp(d);
	if (r.failed && with_output && r.what.find(':') == std::string::npos && !cfg.keep_out) r.what += ": " + summarize(read_tail(errfile));
	S = old;
	return r;
}

static std::vector<uint64_t> shrink(int t, std::vector<uint64_t> c, bool hang) {
	double end = now() + (hang ? 0 : is_thorough ? 120 : 60); long tries = 0;
	auto bad = [&](const std::vector<uint64_t> &x) { tries++; Result r = replay(t, x, false); return r.failed && !r.hang; };
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t l = std::max<size_t>(1, c.size() / 2); l >= 1 && now() < end; l = l / 2) {
			for (size_t i = 0; i + l <= c.size() && now() < end;) {
				std::vector<uint64_t> x(c); x.erase(x.begin() + i, x.begin() + i + l);
				if (bad(x)) { c = x; progress = true; }
				else {
					// deletion together with a decremented count before it
					i += l;
				}
			}
			if (l == 1) break;
		}
		for (size_t l = std::max<size_t>(1, c.size() / 2); l >= 1 && now() < end; l = l / 2) {
			for (size_t i = 0; i + l <= c.size() && now() < end; i += l) {
				bool nz = false; for (size_t j = i; j < i + l; j++) nz |= c[j] != 0;
				if (!nz) continue;
				std::vector<uint64_t> x(c); std::fill(x.begin() + i, x.begin() + i + l, 0);
				if (bad(x)) { c = x; progress = true; }
			}
			if (l == 1) break;
		}
		for (size_t i = 0; i < c.size() && now() < end; i++) {
			if (c[i] == 0) continue;
			uint64_t lo = 0, hi = c[i];     // lo passes, hi fails
			std::vector<uint64_t> x(c);
			while (lo + 1 < hi && now() < end) { x[i] = lo + (hi - lo) / 2; if (bad(x)) hi = x[i]; else lo = x[i]; }
			if (hi != c[i]) { c[i] = hi; progress = true; }
			// lower a count while deleting what it counted
			for (size_t l = 1; l <= 4 && c[i] > 0 && now() < end; l++) {
				for (size_t j = i + 1; j + l <= c.size() && j < i + 24 && now() < end; j++) {
					std::vector<uint64_t> y(c); y[i]--; y.erase(y.begin() + j, y.begin() + j + l);
					if (bad(y)) { c = y; progress = true; break; }
				}
			}
		}
	}
	return c;
}

static std::string js(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char) c;
	}
	return r + "\"";
}

static std::string opt(int argc, char **argv, const char *k, const char *d) {
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
	return d;
}

static Result stream(int w, int nworkers, long upto, Shared *sh) {
	fflush(stdout);
	sh->n_choices = 0; sh->msg[0] = 0; sh->n_desc = 0; sh->done = 0;
	pid_t pid = fork();
	if (pid == 0) { setpgid(0, 0); S = sh; redirect(errfile.c_str()); worker_loop(w, nworkers, upto, 0); }
	double keep = hang_wall; hang_wall = 400;
	Result r = wait_child(pid, sh);
	hang_wall = keep;
	char d[300]; snprintf(d, sizeof d, "%s/p%d", tmpbase.c_str(), (int) pid); remove_tmp(d);
	if (r.failed && r.what.find(':') == std::string::npos) r.what += ": " + summarize(read_tail(errfile));
	return r;
}

int engine_main(int argc, char **argv, void (*init)()) {
	std::string property = opt(argc, argv, "--property", "X00");
	cfg.seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), 0, 10);
	cfg.scale = atof(opt(argc, argv, "--scale", "1").c_str());
	cfg.cap = atof(opt(argc, argv, "--cap", "240").c_str());
	cfg.workers = atoi(opt(argc, argv, "--workers", "8").c_str());
	cfg.only = opt(argc, argv, "--target", "");
	is_thorough = opt(argc, argv, "--tier", "quick") == "thorough";
	std::string out = opt(argc, argv, "--out", ""), replaydir = opt(argc, argv, "--replaydir", "/tmp"), rep = opt(argc, argv, "--replay", "");
	std::string known = opt(argc, argv, "--known", "");
	cfg.keep_out = !opt(argc, argv, "--verbose", "").empty();
	if (cfg.workers < 1) cfg.workers = 1; if (cfg.workers > (int) MAX_WORKERS) cfg.workers = MAX_WORKERS;
	tmpbase = opt(argc, argv, "--tmp", "/tmp") + "/vp-XXXXXX";
	if (!mkdtemp(&tmpbase[0])) { perror("mkdtemp"); return 2; }
	errfile = tmpbase + "/err";
	G = (Global *) mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<Shared *> sh;
	for (int i = 0; i < cfg.workers; i++) sh.push_back((Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	S = sh[0];
	if (init) init();
	double t0 = now();

	if (!rep.empty()) {
		FILE *f = fopen(rep.c_str(), "r"); if (!f) { perror("replay"); return 2; }
		char line[1 << 16]; std::string tn; std::vector<uint64_t> c; int w = -1, nw = 0; long upto = 0; double scale = 1; bool in = false;
		while (fscanf(f, "%65535s", line) == 1) {
			if (!strncmp(line, "target=", 7)) tn = line + 7;
			else if (!strncmp(line, "worker=", 7)) w = atoi(line + 7);
			else if (!strncmp(line, "workers=", 8)) nw = atoi(line + 8);
			else if (!strncmp(line, "seed=", 5)) cfg.seed = strtoull(line + 5, 0, 10);
			else if (!strncmp(line, "scale=", 6)) scale = atof(line + 6);
			else if (!strncmp(line, "upto=", 5)) upto = atol(line + 5);
			else if (!strcmp(line, "choices:")) in = true;
			else if (!strcmp(line, "end")) break;
			else if (in) c.push_back(strtoull(line, 0, 10));
		}
		fclose(f);
		int t = -1; for (size_t i = 0; i < targets().size(); i++) if (tn == targets()[i].name) t = (int) i;
		if (t < 0) { fprintf(stderr, "unknown target %s\n", tn.c_str()); return 2; }
		Result r;
		if (upto) { cfg.scale = scale; r = stream(w, nw, upto, sh[0]); } else r = replay(t, c);
		remove_tmp(tmpbase.c_str());
		if (r.failed) { printf("FAILS: %s\n%s\n", r.what.c_str(), r.desc.c_str()); return 1; }
		printf("passes\n"); return 0;
	}

	double deadline = t0 + cfg.cap;
	std::vector<pid_t> pid(cfg.workers); std::vector<uint64_t> last(cfg.workers, 0); std::vector<double> since(cfg.workers, t0);
	fflush(stdout); fflush(stderr);
	for (int w = 0; w < cfg.workers; w++) {
		pid[w] = fork();
		if (pid[w] == 0) { setpgid(0, 0); S = sh[w]; redirect(NULLDEV); worker_loop(w, cfg.workers, 0, deadline); }
	}
	int alive = cfg.workers; long unconfirmed = 0; std::string violation, unconf_text; long crashed = 0; bool capped = false;
	std::vector<bool> up(cfg.workers, true);
	while (alive && violation.empty()) {
		usleep(20000);
		for (int w = 0; w < cfg.workers && violation.empty(); w++) {
			if (!up[w]) continue;
			int st; bool hung = false;
			pid_t x = waitpid(pid[w], &st, WNOHANG);
			if (x == 0) {
				if (sh[w]->case_no != last[w]) { last[w] = sh[w]->case_no; since[w] = now(); }
				else if (now() - since[w] > 60) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hung = true; }
				if (!hung) continue;
			}
			kill(-pid[w], SIGKILL);
			up[w] = false; alive--;
			char d[300]; snprintf(d, sizeof d, "%s/p%d", tmpbase.c_str(), (int) pid[w]); remove_tmp(d);
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done) continue;
			crashed++;
			G->stop = 1;
			int t = sh[w]->target; long case_no = sh[w]->case_no;
			std::vector<uint64_t> c(sh[w]->choices, sh[w]->choices + sh[w]->n_choices);
			std::string first = sh[w]->msg;
			Result r; int bad = 0, tries = 0;
			for (; tries < 3; tries++) { Result q = replay(t, c); if (q.failed) { bad++; r = q; } }
			if (bad && bad < 3) for (; tries < 20 && bad < 3; tries++) { Result q = replay(t, c); if (q.failed) { bad++; r = q; } }
			std::string path = replaydir + "/" + property + "-" + targets()[t].name + "-" + std::to_string(cfg.seed) + ".replay";
			if (bad >= 3) {
				std::vector<uint64_t> m = tries == 3 ? shrink(t, c, r.hang) : c;
				Result f; for (int k = 0; k < 20 && !f.failed; k++) f = replay(t, m);
				if (!f.failed) { f = r; m = c; }
				FILE *o = fopen(path.c_str(), "w");
				if (o) {
					fprintf(o, "property=%s\ntarget=%s\nchoices:\n", property.c_str(), targets()[t].name);
					for (uint64_t v : m) fprintf(o, "%llu\n", (unsigned long long) v);
					fprintf(o, "end\n# %s\n# case: %s\n", f.what.c_str(), f.desc.c_str()); fclose(o);
				}
				printf("FAILED target=%s: %s\ncase: %s\n", targets()[t].name, f.what.c_str(), f.desc.c_str());
				violation = path;
			} else {
				Result a = stream(w, cfg.workers, case_no, sh[w]); Result b = a.failed ? stream(w, cfg.workers, case_no, sh[w]) : a;
				if (a.failed && b.failed) {
					FILE *o = fopen(path.c_str(), "w");
					if (o) { fprintf(o, "property=%s\ntarget=%s\nworker=%d\nworkers=%d\nseed=%llu\nscale=%g\nupto=%ld\nend\n# %s\n# case: %s\n", property.c_str(), targets()[t].name, w, cfg.workers, (unsigned long long) cfg.seed, cfg.scale, case_no, b.what.c_str(), b.desc.c_str()); fclose(o); }
					printf("FAILED (needs the preceding cases) target=%s: %s\ncase: %s\n", targets()[t].name, b.what.c_str(), b.desc.c_str());
					violation = path;
				} else {
					unconfirmed++; unconf_text = first + (hung ? " (hung)" : "") + " status " + std::to_string(st) + " desc " + std::string(sh[w]->desc, std::min<size_t>((size_t) sh[w]->n_desc, 500));
					printf("NOTE: unconfirmed failure in %s (replays %d/%d): %s\n", targets()[t].name, bad, tries, unconf_text.c_str());
					std::string up = replaydir + "/unconfirmed-" + property + "-" + targets()[t].name + ".replay";
					FILE *o = fopen(up.c_str(), "w");
					if (o) { fprintf(o, "property=%s\ntarget=%s\nchoices:\n", property.c_str(), targets()[t].name); for (uint64_t v : c) fprintf(o, "%llu\n", (unsigned long long) v); fprintf(o, "end\n"); fclose(o); }
					G->stop = 0;
				}
			}
		}
	}
	G->stop = 1;
	for (int w = 0; w < cfg.workers; w++) if (up[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
	remove_tmp(tmpbase.c_str());
	double wall = now() - t0; capped = now() > deadline;
	FILE *o = out.empty() ? nullptr : fopen(out.c_str(), "w");
	long ev = 0, di = 0;
	std::string j = "{\"targets\":[";
	bool firstt = true;
	for (size_t t = 0; t < targets().size(); t++) {
		TStat &T = G->t[t];
		if (!cfg.only.empty() && cfg.only != targets()[t].name) continue;
		if (!firstt) j += ","; firstt = false;
		ev += T.evals; di += T.distinct;
		j += "{\"name\":" + js(targets()[t].name) + ",\"evaluations\":" + std::to_string(T.evals) + ",\"nontrivial\":" + std::to_string(T.nontrivial) + ",\"distinct_nontrivial\":" + std::to_string(T.distinct) + ",\"discarded\":" + std::to_string(T.discarded) + ",\"corpus\":" + std::to_string(T.corpus) + ",\"rule\":" + js(targets()[t].rule) + ",\"labels\":{";
		for (int i = 0; i < T.nlabels; i++) j += (i ? "," : "") + js(T.labels[i].name) + ":" + std::to_string(T.labels[i].n);
		j += "},\"samples\":[";
		int ns = std::min<int>(T.nsamples, SAMPLES);
		for (int i = 0; i < ns; i++) j += (i ? "," : "") + js(T.samples[i]);
		j += "]}";
	}
	j += "],\"evaluations\":" + std::to_string(ev) + ",\"distinct_nontrivial\":" + std::to_string(di) + ",\"edges\":" + std::to_string(G->edges) + ",\"instrumented_edges\":" + std::to_string(n_guards) + ",\"unconfirmed\":" + std::to_string(unconfirmed) + ",\"unconfirmed_text\":" + js(unconf_text) + ",\"time_cap_reached\":" + (capped ? "true" : "false") + ",\"wall_s\":" + std::to_string(wall) + ",\"violation\":" + (violation.empty() ? "null" : js(violation)) + "}\n";
	if (o) { fputs(j.c_str(), o); fclose(o); } else fputs(j.c_str(), stdout);
	return violation.empty() ? 0 : 1;
}
}

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=32:malloc_context_size=4:max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:detect_deadlocks=0:exitcode=77:report_signal_unsafe=0"; }
