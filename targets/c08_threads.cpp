// C08, threads: several writers and readers on one protected buffer
#include "common.hpp"
#include <thread>
#include <atomic>
#include <mutex>
extern "C" {
#include "lib/fifo_protected.h"
}
VP_LOG_PREFIX
using namespace vp;

struct Item { int writer; long seq; unsigned long check; };
static std::atomic<long> freed;
static void it_free(void *p) { free(p); freed++; }

// The plan of a thread: made up front, so that the threads draw nothing
struct WPlan { std::vector<int> ops; };                   // per call: how many entries in it, negative: delayed
struct RPlan { std::vector<int> stops; bool writeback; };  // after how many entries each read stops, 0: never
struct WCtx { int writer; long *seq; int n; bool bad = false; };
static int w_cb(char **d, unsigned long *sz, uint64_t *o, void *a) {
	WCtx *c = (WCtx *) a; Item *i = (Item *) malloc(sizeof *i); i->writer = c->writer; i->seq = ++*c->seq; i->check = (unsigned long) (i->seq * 7919 + i->writer); *d = (char *) i; *sz = i->check; (void) o;
	return --c->n > 0 ? RRR_FIFO_PROTECTED_WRITE_AGAIN : 0;
}
struct RCtx { struct rrr_fifo_protected *f; std::vector<std::pair<int, long>> *log; int left; int back; std::string *err; };
static int back_cb(char **d, unsigned long *sz, uint64_t *o, void *a) { Item *i = (Item *) a; *d = (char *) i; *sz = i->check; (void) o; return 0; }
static int r_cb(void *a, char *d, unsigned long n) {
	RCtx *c = (RCtx *) a; Item *i = (Item *) d;
	if (i->check != n || (unsigned long) (i->seq * 7919 + i->writer) != n) *c->err = "an entry is damaged";
	if (c->back && --c->back == 0) { if (rrr_fifo_protected_write_delayed(c->f, back_cb, i) != 0) *c->err = "write back failed"; return 0; }
	c->log->push_back({i->writer, i->seq}); free(i);
	if (c->left && --c->left == 0) return RRR_FIFO_PROTECTED_SEARCH_STOP;
	return 0;
}

static void threads(Src &s) {
	int nw = 1 + (int) s.u(3), nr = 1 + (int) s.u(1), every = 0; long total = 0, done = 0;
	std::vector<WPlan> wp(nw); std::vector<RPlan> rp(nr);
	for (auto &w : wp) { size_t n = 1 + s.len(40); while (n--) { int k = 1 + (int) s.u(s.chance(1, 10) ? 300 : 3); total += k; w.ops.push_back(s.chance(1, 3) ? -k : k); } }
	for (auto &r : rp) { size_t n = 1 + s.u(5); while (n--) r.stops.push_back(s.flip() ? 0 : s.chance(1, 4) ? RRR_FIFO_PROTECTED_MAX_READS - (int) s.u(1) : 1 + (int) s.u(20)); r.writeback = s.chance(1, 4); }
	(void) every; bool back = false; for (auto &r : rp) back |= r.writeback;
	desc("%d writers %d readers %ld entries", nw, nr, total); if (nr > 1) label("two readers"); if (back) label("written back"); if (nw > 1 && total > 10) nontrivial();
	struct rrr_fifo_protected f; CHECK(rrr_fifo_protected_init(&f, it_free) == 0, "init"); freed = 0;
	std::vector<std::vector<std::pair<int, long>>> logs(nr); std::vector<std::string> err(nr); std::vector<long> seqs(nw, 0); std::atomic<int> writing{nw}; std::atomic<bool> bad{false};
	std::vector<std::thread> th;
	if (s.chance(1, 8)) { int k = 500 + (int) s.u(1200); total += k; wp[0].ops.push_back(k); WCtx c{0, &seqs[0], k}; CHECK(rrr_fifo_protected_write(&f, w_cb, &c) == 0, "write"); wp[0].ops.pop_back(); label("many at the start"); }
	for (int w = 0; w < nw; w++) th.emplace_back([&, w] {
		for (int k : wp[w].ops) { WCtx c{w, &seqs[w], k < 0 ? -k : k}; if ((k < 0 ? rrr_fifo_protected_write_delayed : rrr_fifo_protected_write)(&f, w_cb, &c) != 0) bad = true; }
		writing--;
	});
	for (int r = 0; r < nr; r++) th.emplace_back([&, r] {
		for (size_t k = 0;; k++) {
			bool last = writing == 0; size_t before = logs[r].size(); RCtx c{&f, &logs[r], rp[r].stops[k % rp[r].stops.size()], rp[r].writeback && k < 20 ? 2 : 0, &err[r]};
			if (rrr_fifo_protected_read_clear_forward(&f, r_cb, &c) != 0) bad = true;
			struct rrr_fifo_protected_stats st; rrr_fifo_protected_get_stats(&st, &f);
			if (last && logs[r].size() == before && k >= 20) break;
		}
	});
	for (auto &t : th) t.join();
	CHECK(!bad, "an operation failed"); for (auto &e : err) CHECK(e.empty(), "%s", e.c_str());
	// What is left when a reader stopped
	std::vector<std::pair<int, long>> rest; std::string e2; for (int k = 0; k < 10000; k++) { size_t b = rest.size(); RCtx c{&f, &rest, 0, 0, &e2}; CHECK(rrr_fifo_protected_read_clear_forward(&f, r_cb, &c) == 0, "read"); if (rest.size() == b) break; }
	CHECK(rrr_fifo_protected_get_entry_count(&f) == 0, "count %u", (unsigned) rrr_fifo_protected_get_entry_count(&f));
	std::map<int, std::set<long>> seen;
	logs.push_back(rest);
	for (auto &l : logs) for (auto &p : l) { CHECK(seen[p.first].insert(p.second).second, "entry %ld of writer %d came twice", p.second, p.first); done++; }
	CHECK(done == total, "%ld of %ld entries came out", done, total);
	if (nr == 1 && !back) { std::map<int, long> lastq; for (auto &l : logs) for (auto &p : l) { bool mixed = false; for (int k : wp[p.first].ops) if (k < 0) mixed = true; CHECK(p.second > lastq[p.first] || mixed, "entry %ld of writer %d came after %ld", p.second, p.first, lastq[p.first]); lastq[p.first] = p.second; } }
	rrr_fifo_protected_destroy(&f); CHECK(freed == 0, "%ld entries were still in the buffer", (long) freed);
}
VP_TARGET(threads, 12000, "one to four writers with batches and delayed writes, one or two readers which stop and write back; non-trivial: at least two writers and ten entries");
VP_MAIN(vp_lib_init)
