// C08: the FIFO buffers keep, order, hand out and release entries exactly as a list with the same operations does
#include "common.hpp"
#include <list>
extern "C" {
#include "lib/fifo.h"
#include "lib/fifo_protected.h"
}
VP_LOG_PREFIX
using namespace vp;

// Entries are numbered objects with a count of references, which is checked against the model
struct Obj { long id; };
static std::map<long, long> refs;             // by id: references held by buffers
static std::vector<Obj *> all;
static Obj *mk() { Obj *o = new Obj{(long) all.size() + 1}; all.push_back(o); return o; }
static void inc(void *p) { refs[((Obj *) p)->id]++; }
static void dec(void *p) { long id = ((Obj *) p)->id; CHECK(--refs[id] >= 0, "object %ld released more often than taken", id); }
static void objs_reset() { for (auto o : all) delete o; all.clear(); refs.clear(); }

struct E { Obj *o; unsigned long size; uint64_t order; };
typedef std::deque<E> Model;
static std::string str(const Model &m) { std::string r; for (auto &e : m) { char b[48]; snprintf(b, sizeof b, "%ld(%" PRIu64 ") ", e.o->id, e.order); r += b; if (r.size() > 300) return r + "..."; } return r; }
static void m_write(Model &m, const E &e, bool ordered) {
	if (!ordered || m.empty() || m.back().order < e.order) { m.push_back(e); return; }
	auto it = m.begin(); while (it != m.end() && it->order < e.order) ++it;
	m.insert(it, e);
}

typedef std::function<int(char **, unsigned long *, uint64_t *)> WCb;
typedef std::function<int(char *, unsigned long)> RCb;
static int w_cb(char **d, unsigned long *n, uint64_t *o, void *a) { return (*(WCb *) a)(d, n, o); }
static int r_cb(void *a, char *d, unsigned long n) { return (*(RCb *) a)(d, n); }
static int c_cb(void *a, char **d, unsigned long n) { (void) n; return (*(WCb *) a)(d, &n, NULL); }

struct Fifo { struct rrr_fifo f; Model m; };

static void verify(Fifo &f) {
	CHECK(rrr_fifo_get_entry_count(&f.f) == f.m.size(), "count %u, model %zu", (unsigned) rrr_fifo_get_entry_count(&f.f), f.m.size());
	size_t i = 0; std::string got;
	RCb cb = [&](char *d, unsigned long n) { CHECK(i < f.m.size() && (Obj *) d == f.m[i].o && n == f.m[i].size, "entry %zu is object %ld size %lu, model %s", i, ((Obj *) d)->id, n, str(f.m).c_str()); i++; return 0; };
	CHECK(rrr_fifo_read(&f.f, r_cb, &cb) == 0 && i == f.m.size(), "read %zu of %zu", i, f.m.size());
}

static uint64_t gen_order(Src &s) { return s.chance(1, 20) ? s.u64() : s.u(12); }

static void write(Src &s, Fifo &f, bool nested = false) {
	size_t n = s.chance(1, 100) && !nested ? 495 + s.u(120) : 1 + s.len(6), k = 0; int want = 0; bool oom = false;
	if (!nested && s.chance(1, 20)) { alloc_fail_at(1 + (long) s.u(3)); oom = true; }
	WCb cb = [&](char **d, unsigned long *sz, uint64_t *ord) {
		k++; int r = 0; bool many = n > 20, drop = !many && s.chance(1, 8), err = !many && s.chance(1, 30), ordered = s.chance(many ? 1 : 8, 16); E e{mk(), many ? k : s.n(100), many ? 5 + k : gen_order(s)};
		CHECK(*d == NULL, "write callback given data");
		if (err) { want = 1; return (int) RRR_FIFO_GLOBAL_ERR; }
		if (k < n) r |= RRR_FIFO_WRITE_AGAIN;
		if (drop) return r | (int) RRR_FIFO_WRITE_DROP;
		*d = (char *) e.o; *sz = e.size; *ord = e.order; if (ordered) { r |= RRR_FIFO_WRITE_ORDERED; label("ordered"); }
		m_write(f.m, e, ordered); return r;
	};
	int r = rrr_fifo_write(&f.f, w_cb, &cb);
	if (oom && alloc_failed()) { want = 1; label("allocation failed"); }
	alloc_fail_at(0);
	CHECK(!r == !want, "write returned %d, want %d", r, want);
	CHECK(want || k == n, "write called %zu times of %zu", k, n);
	for (auto &e : f.m) CHECK(refs[e.o->id] == 1, "object %ld has %ld references", e.o->id, refs[e.o->id]);
}

static void fifo(Src &s) {
	objs_reset();
	Fifo fs[2]; for (auto &f : fs) rrr_fifo_init_custom_refcount(&f.f, inc, dec);
	size_t ops = 1 + s.len(14), removed = 0, kept = 0;
	// Objects which the buffer gave away without releasing them
	std::set<long> given;
	for (size_t op = 0; op < ops; op++) {
		Fifo &f = fs[s.chance(1, 4)];
		switch (s.weighted({4, 3, 3, 1, 2, 2, 1, 1})) {
			case 0: desc("write "); write(s, f); break;
			case 1: { // search
				size_t i = 0; int want = 0; bool stop = false; Model m; auto before = f.m;
				RCb cb = [&](char *d, unsigned long n) {
					CHECK(!stop && i < before.size() && (Obj *) d == before[i].o && n == before[i].size, "search entry %zu", i); E e = before[i++];
					switch (s.weighted({6, 4, 3, 1, 1, 1})) {
						case 1: given.insert(e.o->id); removed++; return (int) RRR_FIFO_SEARCH_GIVE;
						case 2: removed++; return (int) (RRR_FIFO_SEARCH_GIVE | RRR_FIFO_SEARCH_FREE);
						case 3: stop = true; m.push_back(e); return (int) RRR_FIFO_SEARCH_STOP;
						case 4: stop = true; removed++; if (s.flip()) { given.insert(e.o->id); return (int) (RRR_FIFO_SEARCH_STOP | RRR_FIFO_SEARCH_GIVE); } return (int) (RRR_FIFO_SEARCH_STOP | RRR_FIFO_SEARCH_GIVE | RRR_FIFO_SEARCH_FREE);
						case 5: if (s.chance(1, 2)) { stop = true; want = RRR_FIFO_CALLBACK_ERR; m.push_back(e); return want; }
					}
					m.push_back(e); kept++; return (int) RRR_FIFO_SEARCH_KEEP;
				};
				int r = rrr_fifo_search(&f.f, r_cb, &cb); CHECK(r == want, "search returned %d", r);
				if (!stop) CHECK(i == before.size(), "search saw %zu of %zu", i, before.size());
				for (; i < before.size(); i++) m.push_back(before[i]);
				f.m = m; desc("search "); break;
			}
			case 2: { // search and replace, possibly with writes at the end
				size_t i = 0, k = 0, n = 1 + s.u(3); int want = 0; bool stop = false, again = s.flip(); Model m; auto before = f.m; bool written = false, seen_all = false;
				WCb cb = [&](char **d, unsigned long *sz, uint64_t *ord) {
					if (stop || i == before.size()) {
						if (!written) { for (; i < before.size(); i++) m.push_back(before[i]); written = true; }
						CHECK(again && *d == NULL, "called again"); k++; E e{mk(), s.n(100), gen_order(s)};
						if (s.chance(1, 15)) { want = 1; n = k; return (int) RRR_FIFO_GLOBAL_ERR; }
						int r = k < n ? RRR_FIFO_WRITE_AGAIN : 0;
						if (s.chance(1, 4)) return r | (int) RRR_FIFO_WRITE_DROP;
						*d = (char *) e.o; *sz = e.size; *ord = e.order; m.push_back(e); return r;
					}
					CHECK((Obj *) *d == before[i].o && *sz == before[i].size && *ord == before[i].order, "search_and_replace entry %zu has order %" PRIu64 ", model %" PRIu64, i, *ord, before[i].order); E e = before[i++];
					int x = 0; if (s.chance(1, 8)) { stop = true; x = RRR_FIFO_SEARCH_STOP; }
					switch (s.weighted({4, 2, 2, 2, 2, 1})) {
						case 1: given.insert(e.o->id); removed++; return x | (int) RRR_FIFO_SEARCH_GIVE;
						case 2: removed++; return x | (int) (RRR_FIFO_SEARCH_GIVE | RRR_FIFO_SEARCH_FREE);
						case 3: given.insert(e.o->id); e = E{mk(), s.n(50), gen_order(s)}; *d = (char *) e.o; *sz = e.size; *ord = e.order; m.push_back(e); return x | (int) RRR_FIFO_SEARCH_REPLACE;
						case 4: e = E{mk(), s.n(50), gen_order(s)}; *d = (char *) e.o; *sz = e.size; *ord = e.order; m.push_back(e); return x | (int) (RRR_FIFO_SEARCH_REPLACE | RRR_FIFO_SEARCH_FREE);
						case 5: if (!x && s.flip()) { stop = true; again = false; want = RRR_FIFO_CALLBACK_ERR; m.push_back(e); return want; }
					}
					m.push_back(e); kept++; return x;
				};
				bool want_again = again; int r = rrr_fifo_search_and_replace(&f.f, w_cb, &cb, want_again); CHECK(!r == !want, "search_and_replace returned %d, want %d", r, want);
				(void) seen_all; if (again) CHECK(k == n, "called again %zu times of %zu", k, n); else CHECK(k == 0, "called again");
				if (!stop) CHECK(i == before.size(), "saw %zu of %zu", i, before.size());
				if (!written) for (; i < before.size(); i++) m.push_back(before[i]);
				f.m = m; desc("replace "); break;
			}
			case 3: { // read with errors
				size_t i = 0; int want = 0; bool stop = false;
				RCb cb = [&](char *d, unsigned long n) {
					CHECK(!stop && i < f.m.size() && (Obj *) d == f.m[i].o, "read entry %zu", i); i++;
					switch (s.weighted({8, 1, 1, 1})) { case 1: stop = true; return (int) RRR_FIFO_SEARCH_STOP; case 2: stop = true; want = RRR_FIFO_GLOBAL_ERR; return want; case 3: want |= RRR_FIFO_CALLBACK_ERR; return (int) RRR_FIFO_CALLBACK_ERR; }
					return 0;
				};
				int r = rrr_fifo_read(&f.f, r_cb, &cb); CHECK(r == want, "read returned %d, want %d", r, want); CHECK(stop || i == f.m.size(), "read %zu of %zu", i, f.m.size()); desc("read "); break;
			}
			case 4: { // those with a higher order
				uint64_t min = gen_order(s); std::vector<Obj *> w; for (auto &e : f.m) if (e.order > min && w.size() < RRR_FIFO_MAX_READS) w.push_back(e.o);
				size_t i = 0; int want = 0; bool stop = false, at_end = w.size() > 20 && s.flip(); if (w.size() == RRR_FIFO_MAX_READS) label("most reads");
				RCb cb = [&](char *d, unsigned long n) {
					CHECK(!stop && i < w.size() && (Obj *) d == w[i], "read_minimum entry %zu", i); i++;
					if (at_end) { if (i < w.size()) return 0; stop = true; want = RRR_FIFO_CALLBACK_ERR; return want; }
					switch (s.weighted({8, 1, 1})) { case 1: stop = true; if (s.flip()) { want = RRR_FIFO_CALLBACK_ERR; return (int) (RRR_FIFO_SEARCH_STOP | RRR_FIFO_CALLBACK_ERR); } return (int) RRR_FIFO_SEARCH_STOP; case 2: stop = true; want = s.flip() ? RRR_FIFO_GLOBAL_ERR : RRR_FIFO_CALLBACK_ERR; return want; }
					return 0;
				};
				int r = rrr_fifo_read_minimum(&f.f, NULL, r_cb, &cb, min); CHECK(r == want, "read_minimum returned %d, want %d (%zu of %zu read)", r, want, i, w.size()); CHECK(stop || i == w.size(), "read_minimum %zu of %zu", i, w.size()); if (w.size() < f.m.size()) label("read above minimum"); desc("minimum "); break;
			}
			case 5: { // take all, put the rest back, while writing
				size_t i = 0; int want = 0; bool stop = false; auto before = f.m; f.m.clear();
				RCb cb = [&](char *d, unsigned long n) {
					CHECK(!stop && i < before.size() && (Obj *) d == before[i].o && n == before[i].size, "clear_forward entry %zu", i); E e = before[i++]; removed++;
					if (s.chance(1, 8)) { write(s, f, true); label("write while reading"); }
					if (s.chance(1, 8)) { given.insert(e.o->id); E x = e; WCb wc = [&](char **dd, unsigned long *sz, uint64_t *o) { given.erase(x.o->id); *dd = (char *) x.o; *sz = x.size; *o = x.order; m_write(f.m, x, false); refs[x.o->id]--; return 0; }; CHECK(rrr_fifo_write(&f.f, w_cb, &wc) == 0, "write back"); label("written back"); return 0; }
					int x = s.flip() ? RRR_FIFO_SEARCH_FREE : 0; if (!x) given.insert(e.o->id);
					switch (s.weighted({10, 1, 1, 1})) { case 1: stop = true; return x | (int) RRR_FIFO_SEARCH_STOP; case 2: stop = true; want = RRR_FIFO_GLOBAL_ERR; return x | want; case 3: stop = true; want = RRR_FIFO_CALLBACK_ERR; return x | want; }
					return x;
				};
				int r = rrr_fifo_read_clear_forward_all(&f.f, r_cb, &cb); CHECK(r == want, "clear_forward returned %d, want %d", r, want); CHECK(stop || i == before.size(), "clear_forward %zu of %zu", i, before.size());
				if (i < before.size()) { label("rest put back"); f.m.insert(f.m.begin(), before.begin() + i, before.end()); }
				desc("take "); break;
			}
			case 6: CHECK(rrr_fifo_merge(&fs[0].f, &fs[1].f) == 0, "merge"); for (auto &e : fs[1].m) fs[0].m.push_back(e); fs[1].m.clear(); desc("merge "); break;
			case 7: { // clear, some are taken by the callback
				size_t i = 0; auto before = f.m; f.m.clear();
				WCb cb = [&](char **d, unsigned long *sz, uint64_t *) { CHECK(i < before.size() && (Obj *) *d == before[i].o && *sz == before[i].size, "clear entry %zu", i); if (s.flip()) { given.insert(before[i].o->id); *d = NULL; } i++; removed++; return 0; };
				if (s.flip()) { rrr_fifo_clear(&f.f); } else { rrr_fifo_clear_with_callback(&f.f, c_cb, &cb); CHECK(i == before.size(), "cleared %zu of %zu", i, before.size()); }
				desc("clear "); break;
			}
		}
		for (auto &f : fs) verify(f);
		std::map<long, long> want; for (auto &f : fs) for (auto &e : f.m) want[e.o->id]++; for (long id : given) want[id]++;
		for (auto &o : all) { auto it = want.find(o->id); CHECK(refs[o->id] == (it == want.end() ? 0 : it->second), "object %ld has %ld references, want %ld", o->id, refs[o->id], it == want.end() ? 0 : it->second); }
	}
	for (auto &f : fs) rrr_fifo_destroy(&f.f);
	for (auto &o : all) CHECK(refs[o->id] == (long) given.count(o->id), "object %ld has %ld references after destroy", o->id, refs[o->id]);
	if (removed && kept) nontrivial();
	desc("%zu removed", removed); objs_reset();
}
VP_TARGET_NOLEAK(fifo, 120000, "sequences of writes (plain, ordered, repeated, dropped, failing), searches, replacements, reads, taking with the rest put back, merge and clear on two buffers; non-trivial: entries were removed and others kept by searches");

// --- the buffer shared by threads, used by one
static void p_free(void *p) { dec(p); }
static void prot(Src &s) {
	objs_reset();
	struct rrr_fifo_protected f; CHECK(rrr_fifo_protected_init(&f, p_free) == 0, "init");
	Model m, q; uint64_t written = 0, deleted = 0; size_t ops = 1 + s.len(14), removed = 0; bool delayed = false, putback = false; std::set<long> given;
	auto wr = [&](bool dly, bool nested) {
		size_t n = 1 + s.len(s.chance(1, 40) && !nested ? 1600 : 6), k = 0; int want = 0; bool oom = false;
		if (!nested && s.chance(1, 20)) { alloc_fail_at(1 + (long) s.u(3)); oom = true; }
		WCb cb = [&](char **d, unsigned long *sz, uint64_t *ord) {
			k++; int r = 0; bool drop = s.chance(1, 12), err = s.chance(1, 40), ordered = !dly && s.chance(1, 4); if (n > 20) drop = err = ordered = false;
			CHECK(*d == NULL, "write callback given data");
			if (err) { want = 1; return (int) RRR_FIFO_GLOBAL_ERR; }
			if (drop && dly) { n = k; return (int) RRR_FIFO_WRITE_DROP; }
			if (k < n) r |= RRR_FIFO_WRITE_AGAIN;
			if (drop) return r | (int) RRR_FIFO_WRITE_DROP;
			E e{mk(), s.n(100), gen_order(s)}; *d = (char *) e.o; *sz = e.size; *ord = e.order; refs[e.o->id]++; if (ordered) { r |= RRR_FIFO_WRITE_ORDERED; label("ordered"); }
			if (dly) { q.push_back(e); delayed = true; } else { m_write(m, e, ordered); written++; } return r;
		};
		int r = dly ? rrr_fifo_protected_write_delayed(&f, w_cb, &cb) : rrr_fifo_protected_write(&f, w_cb, &cb);
		// Inside a batch, the buffer may also try the allocation again
		if (oom && alloc_failed() && !want) { label("allocation failed"); if (r != 0 || k < n) want = 1; }
		alloc_fail_at(0);
		CHECK(!r == !want, "%s returned %d, want %d", dly ? "write_delayed" : "write", r, want); CHECK(want || k == n, "write called %zu times of %zu", k, n);
	};
	for (size_t op = 0; op < ops; op++) {
		switch (s.weighted({4, 2, 4, 1})) {
			case 0: wr(false, false); desc("write "); break;
			case 1: wr(true, false); desc("delayed "); break;
			case 2: {
				if (m.empty() && q.empty()) { RCb cb = [&](char *, unsigned long) { FAIL("read of an empty buffer"); return 0; }; CHECK(rrr_fifo_protected_read_clear_forward(&f, r_cb, &cb) == 0, "read"); break; }
				written += q.size(); for (auto &e : q) m.push_back(e); q.clear();
				size_t take = std::min<size_t>(m.size(), RRR_FIFO_PROTECTED_MAX_READS), i = 0; Model before(m.begin(), m.begin() + take); m.erase(m.begin(), m.begin() + take);
				int want = 0; bool stop = false; int pstop = s.pick(std::vector<int>{0, 10, 500}); size_t stop_at = s.chance(1, 5) ? take - 1 : take; if (take < m.size()) label("more than one read");
				RCb cb = [&](char *d, unsigned long n) {
					CHECK(!stop && i < before.size() && (Obj *) d == before[i].o && n == before[i].size, "read entry %zu is object %ld, want %ld of %zu", i, ((Obj *) d)->id, i < before.size() ? before[i].o->id : -1, before.size()); E e = before[i++]; removed++;
					if (before.size() < 30 && s.chance(1, 10)) { wr(s.flip(), true); label("write while reading"); }
					if (before.size() < 30 && s.chance(1, 10)) { E x = e; WCb wc = [&](char **dd, unsigned long *sz, uint64_t *o) { *dd = (char *) x.o; *sz = x.size; *o = x.order; q.push_back(x); return 0; }; CHECK(rrr_fifo_protected_write_delayed(&f, w_cb, &wc) == 0, "write back"); return 0; }
					int x = s.flip() ? RRR_FIFO_PROTECTED_SEARCH_FREE : 0; if (!x) given.insert(e.o->id);
					if (i - 1 == stop_at || (pstop && s.chance(1, pstop))) { stop = true; switch (s.u(2)) { case 0: return x | (int) RRR_FIFO_PROTECTED_SEARCH_STOP; case 1: want = RRR_FIFO_PROTECTED_GLOBAL_ERR; return x | want; case 2: want = RRR_FIFO_PROTECTED_CALLBACK_ERR; return x | want; } }
					return x;
				};
				int r = rrr_fifo_protected_read_clear_forward(&f, r_cb, &cb); CHECK(r == want, "read returned %d, want %d", r, want); CHECK(stop || i == before.size(), "read %zu of %zu", i, before.size()); deleted += i;
				if (i < before.size()) { putback = true; m.insert(m.begin(), before.begin() + i, before.end()); }
				desc("read %zu ", i); break;
			}
			case 3: { WCb cb = [&](char **, unsigned long *, uint64_t *) { return 0; }; int want = s.flip() ? RRR_FIFO_PROTECTED_GLOBAL_ERR : 0; auto fn = [](void *a, void *) { return *(int *) a; }; CHECK(rrr_fifo_protected_with_write_lock_do(&f, fn, &want, NULL) == want, "locked callback"); break; }
		}
		CHECK(rrr_fifo_protected_get_entry_count(&f) == m.size(), "count %u, model %zu", (unsigned) rrr_fifo_protected_get_entry_count(&f), m.size());
		struct rrr_fifo_protected_stats st; CHECK(rrr_fifo_protected_get_stats(&st, &f) == 0 && st.total_entries_written == written && st.total_entries_deleted == deleted, "statistics %" PRIu64 " written %" PRIu64 " deleted, want %" PRIu64 " %" PRIu64, st.total_entries_written, st.total_entries_deleted, written, deleted);
		for (auto &e : m) CHECK(refs[e.o->id] == 1, "object %ld released while in the buffer", e.o->id);
	}
	if (s.flip()) { for (;;) { written += q.size(); for (auto &e : q) m.push_back(e); q.clear(); if (m.empty()) break; RCb cb = [&](char *d, unsigned long) { CHECK(!m.empty() && m.front().o == (Obj *) d, "drain: object %ld, model %s", ((Obj *) d)->id, str(m).c_str()); m.pop_front(); return (int) RRR_FIFO_PROTECTED_SEARCH_FREE; }; size_t before = m.size(); CHECK(rrr_fifo_protected_read_clear_forward(&f, r_cb, &cb) == 0, "drain"); CHECK(m.size() < before, "nothing read of %zu", before); } }
	rrr_fifo_protected_destroy(&f);
	for (auto &o : all) CHECK(refs[o->id] == (long) given.count(o->id), "object %ld has %ld references after destroy", o->id, refs[o->id]);
	if (delayed && putback) nontrivial();
	objs_reset();
}
VP_TARGET_NOLEAK(prot, 60000, "sequences of writes, delayed writes and reads which stop, fail and write while reading, up to several thousand entries; non-trivial: a delayed write, and entries put back after a read which stopped");

VP_MAIN(vp_lib_init)
