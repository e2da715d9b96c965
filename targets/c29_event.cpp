// C29: events which are passed reach their function, exactly as many as were passed
#include "common.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <event2/event.h>
extern "C" {
#include "lib/event/event.h"
#include "lib/event/event_struct.h"
#include "lib/event/event_collection.h"
#include "lib/event/event_collection_struct.h"
#include "lib/event/event_functions.h"
#include "lib/util/rrr_time.h"
}
VP_LOG_PREFIX
using namespace vp;
static const int F = RRR_EVENT_FUNCTION_MAX + 1;

struct Fn { long passed = 0, consumed = 0; int calls = 0; bool registered = false, lost = false; int pause_left = 0; bool paused = false; int greedy = 0; };
struct Col { struct rrr_event_handle h; int kind; uint64_t interval; long fired = 0, timeouts = 0; bool added = false, active = false; uint64_t since = 0; long fired_since = 0; int fds[2] = {-1, -1}; long bytes = 0, seen = 0; bool removed = false, ever = false; };
struct World {
	struct rrr_event_queue *q = NULL; Fn f[F]; Src *s; long budget = 0; int nest = 0; long periodic = 0; uint64_t deadline = 0; bool in_loop = false; int expect_ret = 0, end_kind = 0; bool ended = false; int quiet = 0;
	std::vector<std::unique_ptr<Col>> cols; struct rrr_event_collection coll; int arg_token = 0;
};
static World *W;
static void pass(Src &s, int fn) { int a = s.chance(1, 3) ? 255 : s.chance(1, 10) ? 0 : (int) s.u(20); CHECK(rrr_event_pass(W->q, (uint8_t) fn, (uint8_t) a, NULL, NULL) == 0, "pass"); W->f[fn].passed += a; }
static bool settled() { for (auto &f : W->f) if (f.registered && !f.lost && f.consumed != f.passed) return false; return true; }
static void end(int kind) { W->ended = true; W->end_kind = kind; }
template<int I> static int on_event(uint16_t *amount, void *arg) {
	Fn &f = W->f[I]; Src &s = *W->s; CHECK(arg == (I & 1 ? (void *) W : (void *) &W->arg_token), "argument of function %d", I);
	CHECK(!W->ended, "function %d is called after the loop was told to end", I); CHECK(!f.paused, "function %d is called while paused", I);
	CHECK(*amount > 0, "function %d is called with nothing", I); CHECK(f.consumed + *amount <= f.passed, "function %d got %u, only %ld left", I, *amount, f.passed - f.consumed);
	f.calls++; W->quiet = 0;
	uint16_t take = (uint16_t) (f.greedy == 0 ? *amount : f.greedy == 1 ? 1 : s.chance(1, 5) ? 0 : s.n(*amount)); if (take > *amount) take = *amount;
	if (f.calls > 400) take = *amount;
	f.consumed += take; *amount = (uint16_t) (*amount - take);
	if (W->budget > 0 && s.chance(1, 6)) { W->budget--; pass(s, (int) s.u(F - 1)); label("passed inside a callback"); }
	if (s.chance(1, 150)) { end(1); f.lost = true; label("error from a function"); return 1; }
	if (s.chance(1, 300)) { end(1); f.lost = true; label("error and exit from a function"); return RRR_EVENT_EXIT | 1; }
	if (s.chance(1, 150)) { end(2); f.lost = true; label("exit from a function"); return RRR_EVENT_EXIT; }
	if (s.chance(1, 150)) { end(3); rrr_event_dispatch_break(W->q); label("break"); W->ended = false; W->end_kind = 3; }
	return 0;
}
static void on_pause(unsigned short *do_pause, unsigned short is_paused, void *arg) {
	Fn &f = *(Fn *) arg; CHECK(!!is_paused == f.paused, "told paused %u, is %d", is_paused, f.paused);
	if (f.pause_left > 0) { f.pause_left--; *do_pause = 1; if (!f.paused) label("paused"); f.paused = true; } else { *do_pause = 0; f.paused = false; if (W->s->chance(1, 5)) f.pause_left = 1 + (int) W->s->u(2); }
}
static int periodic(void *arg) {
	CHECK(arg == &W->arg_token, "argument of the periodic function"); W->periodic++;
	if (W->ended || W->end_kind == 3) return RRR_EVENT_EXIT;
	W->quiet++;
	if (settled() || W->quiet > 1000) { W->ended = true; W->end_kind = W->end_kind ? W->end_kind : 4; return RRR_EVENT_EXIT; }
	return 0;
}
static void col_event(evutil_socket_t fd, short flags, void *arg) {
	Col &c = *(Col *) arg; Src &s = *W->s; c.fired++; c.fired_since++;
	CHECK(!c.removed, "an event fires after its collection was cleared"); CHECK(c.added || c.active, "an event fires which is not added");
	if (flags & EV_TIMEOUT) { c.timeouts++; CHECK(c.interval > 0, "timeout without interval"); uint64_t now = rrr_time_get_64(); CHECK(now + 6000 >= c.since + c.interval, "fires %" PRIu64 " us after being added, interval is %" PRIu64, now - c.since, c.interval); }
	c.active = false; if (c.interval && c.ever) { c.added = true; if (!(flags & EV_TIMEOUT)) c.since = rrr_time_get_64() - 100; } // libevent: activation adds a persistent event with a timeout again
	if (flags & EV_READ) { CHECK(c.kind == 2 && fd == c.fds[0], "read event"); char b[64]; ssize_t n = read(fd, b, 1 + s.u(63)); CHECK(n > 0, "read event without data"); c.seen += n; CHECK(c.seen <= c.bytes, "bytes"); c.since = rrr_time_get_64(); }
	if (flags & EV_WRITE) { CHECK(c.kind == 3 && fd == c.fds[1], "write event"); /* always ready, would starve events with lower priority */ rrr_event_remove(&c.h); c.added = false; }
	if (s.chance(1, 4)) { rrr_event_remove(&c.h); c.added = c.active = false; label("removed inside a callback"); }
}
static void col_add(Src &s) {
	auto c = std::make_unique<Col>(); memset(&c->h, 0, sizeof c->h); c->kind = (int) s.u(3); c->interval = s.pick(std::vector<uint64_t>{2000, 3000, 12000});
	if (c->kind >= 2) { CHECK(pipe2(c->fds, O_NONBLOCK) == 0, "pipe"); if (c->kind == 2 && s.flip()) c->interval = 0; if (c->kind == 3) c->interval = 0; }
	int r = 0; switch (c->kind) { case 0: r = rrr_event_collection_push_oneshot(&c->h, &W->coll, col_event, c.get()); c->interval = 0; break; case 1: r = rrr_event_collection_push_periodic(&c->h, &W->coll, col_event, c.get(), c->interval); break; case 2: r = rrr_event_collection_push_read(&c->h, &W->coll, c->fds[0], col_event, c.get(), c->interval); break; case 3: r = rrr_event_collection_push_write(&c->h, &W->coll, c->fds[1], col_event, c.get(), 0); break; }
	CHECK(r == 0, "push"); W->cols.push_back(std::move(c));
}
static void queue(Src &s) {
	World w; W = &w; w.s = &s; memset(&w.coll, 0, sizeof w.coll); CHECK(rrr_event_queue_new(&w.q) == 0, "new"); w.budget = 30;
	typedef int (*cb)(uint16_t *, void *); cb cbs[4] = {on_event<0>, on_event<1>, on_event<2>, on_event<3>}; static_assert(F == 4, "functions");
	for (int i = 0; i < F; i++) { Fn &f = w.f[i]; f.registered = s.chance(5, 6); f.greedy = (int) s.u(2); if (!f.registered) continue;
		if (i & 1) rrr_event_function_set_with_arg(w.q, (uint8_t) i, cbs[i], &w, "x"); else rrr_event_function_set(w.q, (uint8_t) i, cbs[i], "x");
		if (s.flip()) CHECK(rrr_event_function_priority_set(w.q, (uint8_t) i, (enum rrr_event_priority) s.u(2)) == 0, "priority");
		if (s.flip()) { rrr_event_callback_pause_set(w.q, (uint8_t) i, on_pause, &f); f.pause_left = (int) s.u(3); } }
	int ncol = (int) s.u(3); if (ncol) rrr_event_collection_init(&w.coll, w.q); for (int i = 0; i < ncol; i++) col_add(s);
	if (s.chance(1, 5)) { rrr_event_queue_incref(w.q); rrr_event_queue_destroy(w.q); }
	for (int rounds = 1 + (int) s.u(2); rounds--;) {
		for (size_t k = s.len(s.chance(1, 10) ? 200 : 12); k--;) pass(s, (int) s.u(F - 1));
		for (auto &c : w.cols) { switch (s.u(3)) { case 0: if (!(c->kind == 0)) { rrr_event_add(&c->h); c->added = c->ever = true; c->since = rrr_time_get_64(); } break; case 1: rrr_event_remove(&c->h); c->added = c->active = false; break; case 2: rrr_event_activate(&c->h); c->active = true; break; } if (c->kind == 2 && s.flip()) { char b[200] = {0}; ssize_t n = (ssize_t) s.u(200); if (n) { n = write(c->fds[1], b, (size_t) n); CHECK(n > 0, "write"); c->bytes += n; } } c->fired_since = 0; }
		if (s.chance(1, 12)) { int fn = (int) s.u(F - 1); Fn &f = w.f[fn]; long want = 65534 + (long) s.u(3) - (f.passed - f.consumed); if (s.chance(1, 4)) want += 65535; if (f.registered) { while (want > 0) { int a = want > 255 ? 255 : (int) want; CHECK(rrr_event_pass(w.q, (uint8_t) fn, (uint8_t) a, NULL, NULL) == 0, "pass"); f.passed += a; want -= a; } label("as many as the counter holds"); } }
		desc("%ld %ld %ld %ld events; ", w.f[0].passed, w.f[1].passed, w.f[2].passed, w.f[3].passed);
		w.ended = false; w.end_kind = 0; w.quiet = 0;
		uint64_t t0 = rrr_time_get_64();
		int r = rrr_event_dispatch(w.q, 1500 + (unsigned) s.u(1000), periodic, &w.arg_token);
		uint64_t t1 = rrr_time_get_64();
		CHECK(r == (w.end_kind == 1 || (w.end_kind == 3) ? 1 : 0) || (w.end_kind == 3 && w.ended), "dispatch returned %d, ended by %d", r, w.end_kind);
		if (w.end_kind == 4) for (int i = 0; i < F; i++) if (w.f[i].registered && !w.f[i].lost) CHECK(w.f[i].consumed == w.f[i].passed, "function %d got %ld of %ld events", i, w.f[i].consumed, w.f[i].passed);
		for (auto &c : w.cols) { if (c->kind == 1) CHECK((uint64_t) c->timeouts <= 1000000, "x"); if (c->kind == 1 && c->interval) CHECK((uint64_t) c->fired_since <= (t1 - t0) / c->interval * 2 + 3, "periodic event fired %ld times in %" PRIu64 " us", c->fired_since, t1 - t0); if (c->kind == 2 && c->added && w.end_kind == 4 && w.periodic > 20) label("read events"); if (c->kind == 0) CHECK(c->fired_since <= 1, "one activation fired %ld times", c->fired_since); }
		for (int i = 0; i < F; i++) if (!w.f[i].registered) { w.f[i].passed = 0; }
	}
	long total = 0; int used = 0; for (auto &f : w.f) { total += f.consumed; used += f.calls > 0; } if (total > 20 && used > 1) nontrivial();
	for (auto &c : w.cols) c->removed = true;
	if (ncol) { rrr_event_collection_clear(&w.coll); struct timeval tv = {0, 1}; (void) tv; }
	for (auto &c : w.cols) for (int fd : c->fds) if (fd >= 0) close(fd);
	rrr_event_queue_destroy(w.q); W = NULL;
}
VP_TARGET(queue, 10000, "all four event functions with callbacks which take some, one or all, pausing, errors and exits, events passed from outside and inside callbacks, and an event collection; non-trivial: more than 20 events taken by more than one function");

// Several threads pass events to one loop
static std::atomic<long> tp[F], tc[F]; static std::atomic<bool> all_passed; static std::atomic<int> bad, idle; static int t_pause;
template<int I> static int t_event(uint16_t *amount, void *arg) { (void) arg; long p = tp[I], c = (tc[I] += *amount); if (c > p) { /* passed is counted before passing */ bad++; } *amount = 0; idle = 0; return 0; }
static void t_paused(unsigned short *p, unsigned short is, void *a) { (void) is; unsigned &n = *(unsigned *) a; *p = t_pause && n++ % (unsigned) (t_pause + 1) != 0; }
static int t_periodic(void *a) { (void) a; if (!all_passed) return 0; bool done = true; for (int i = 0; i < F; i++) done &= tp[i] == tc[i]; return done || ++idle > 4000 ? RRR_EVENT_EXIT : 0; }
static int t_retry(void *a) { ++*(long *) a; sched_yield(); return 0; }
static int t_give_up(void *a) { return --*(int *) a == 0 ? 77 : 0; }
static void threads(Src &s) {
	struct rrr_event_queue *q = NULL; CHECK(rrr_event_queue_new(&q) == 0, "new"); int n = 2 + (int) s.u(2); std::vector<std::vector<std::pair<int, int>>> plan((size_t) n); long total = 0; unsigned pn[F] = {0};
	for (int i = 0; i < F; i++) { tp[i] = tc[i] = 0; } all_passed = false; bad = 0; idle = 0; t_pause = s.chance(1, 3) ? 1 + (int) s.u(3) : 0;
	typedef int (*cb)(uint16_t *, void *); cb cbs[4] = {t_event<0>, t_event<1>, t_event<2>, t_event<3>}; for (int i = 0; i < F; i++) { rrr_event_function_set(q, (uint8_t) i, cbs[i], "x"); if (t_pause) rrr_event_callback_pause_set(q, (uint8_t) i, t_paused, &pn[i]); }
	bool fill = !t_pause && s.chance(1, 40);
	if (fill) { // Nobody reads: the pipe becomes full, and the caller decides
		int left = 3, k = 0, r; while ((r = rrr_event_pass(q, 2, 1, t_give_up, &left)) == 0 && k < 300000) { k++; tp[2]++; } CHECK(r == 77 && left == 0, "pass to a full queue returned %d", r); label("full queue");
	}
	for (auto &p : plan) for (size_t k = s.len(300); k--;) { p.push_back({(int) s.u(F - 1), (int) s.u(255)}); total++; }
	std::vector<std::thread> th; std::atomic<int> running(n); long retries[4] = {0};
	for (int i = 0; i < n; i++) th.emplace_back([&, i] { for (auto &p : plan[(size_t) i]) { tp[p.first] += p.second; if (rrr_event_pass(q, (uint8_t) p.first, (uint8_t) p.second, t_retry, &retries[i]) != 0) bad++; } if (--running == 0) all_passed = true; });
	int r = rrr_event_dispatch(q, 500, t_periodic, NULL); for (auto &t : th) t.join();
	desc("%d threads, %ld passes", n, total); if (total > 50) nontrivial();
	CHECK(r == 0, "dispatch returned %d", r); CHECK(!bad, "more events arrived than were passed, or passing failed"); for (int i = 0; i < F; i++) CHECK(tp[i] == tc[i], "function %d got %ld of %ld", i, tc[i].load(), tp[i].load());
	rrr_event_queue_destroy(q);
}
VP_TARGET_NOLEAK(threads, 3000, "two to four threads which pass events to one loop, also with pausing and with a full queue; non-trivial: more than 50 passes");
VP_MAIN(vp_lib_init)
