// C17: the send loop: order, retry, time limits
#include "common.hpp"
#include <list>
#include <algorithm>
extern "C" {
#include "lib/send_loop.h"
#include "lib/event/event.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/allocator.h"
}
VP_LOG_PREFIX
using namespace vp;
static uint64_t g_now; static bool g_real;
extern "C" uint64_t __real_rrr_time_get_64(void);
extern "C" uint64_t __wrap_rrr_time_get_64(void) { return g_real ? __real_rrr_time_get_64() : g_now; }

struct E { struct rrr_msg_holder *h; int id; uint64_t index = 0, send_time = 0, ts; bool in_loop = false, out = false; int group; };
struct Step { int id; int kind; }; // 0: push, 1: return
struct World { std::list<E> all; std::list<E *> q; uint64_t idx = 0; std::vector<Step> got; std::vector<int> rets; size_t calls = 0; Src *s; int run_calls = 0; };
static World *W;
static E *find(struct rrr_msg_holder *h) { for (auto &e : W->all) if (e.h == h) return &e; FAIL("unknown entry"); return NULL; }
static int cb(struct rrr_msg_holder *h, void *arg, int kind) {
	CHECK(arg == W, "argument"); E *e = find(h); CHECK(h->lock.__data.__lock != 0, "entry is not locked"); CHECK(h->usercount == 2, "usercount is %d", h->usercount);
	W->got.push_back({e->id, kind}); int r = W->calls < W->rets.size() ? W->rets[W->calls] : 0; W->calls++; return r;
}
static int on_push(struct rrr_msg_holder *h, void *a) { return cb(h, a, 0); }
static int on_return(struct rrr_msg_holder *h, void *a) { return cb(h, a, 1); }
static void on_run(void *a) { CHECK(a == W, "argument"); W->run_calls++; }
static E *make(uint64_t ts, int id, int group) {
	struct rrr_msg_msg *m = NULL; CHECK(rrr_msg_msg_new_empty(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, ts, 0, 0) == 0, "message"); struct rrr_msg_holder *h = NULL; CHECK(rrr_msg_holder_new(&h, MSG_TOTAL_SIZE(m), NULL, 0, 0, m) == 0, "entry");
	W->all.push_back({h, id}); E *e = &W->all.back(); e->ts = ts; e->group = group; return e;
}
static int cmp(const struct rrr_msg_holder *a, const struct rrr_msg_holder *b, void *arg) { CHECK(arg == &g_now, "argument"); return find((struct rrr_msg_holder *) a)->group != find((struct rrr_msg_holder *) b)->group; }
static void check(struct rrr_send_loop *l) {
	CHECK(rrr_send_loop_count(l) == (int) W->q.size(), "%d entries are queued, expected %zu", rrr_send_loop_count(l), W->q.size());
	for (auto &e : W->all) CHECK(rrr_msg_holder_usercount(e.h) == (e.in_loop ? 2 : 1), "entry %d has usercount %d, is %squeued", e.id, rrr_msg_holder_usercount(e.h), e.in_loop ? "" : "not ");
}
static void history(Src &s) {
	World w; W = &w; w.s = &s; g_real = false; g_now = s.chance(1, 20) ? 5000000 : 1700000000000000ull; struct rrr_event_queue *q = NULL; struct rrr_send_loop *l = NULL; CHECK(rrr_event_queue_new(&q) == 0, "queue");
	bool order; uint64_t ttl, timeout; enum rrr_send_loop_action act;
	auto params = [&]() { order = s.flip(); ttl = s.flip() ? 0 : s.pick({1, 1000, 5000000, 60000000}); if (s.chance(1, 20)) ttl = 1ull << 62; timeout = s.flip() ? 0 : s.pick({1, 1000, 5000000, 60000000}); act = timeout == 0 ? RRR_SEND_LOOP_ACTION_RETRY : s.flip() ? RRR_SEND_LOOP_ACTION_DROP : RRR_SEND_LOOP_ACTION_RETURN; };
	params(); CHECK(rrr_send_loop_new(&l, q, "loop", order, ttl, timeout, act, on_push, on_return, s.flip() ? on_run : NULL, &w) == 0, "loop");
	size_t n = 4 + s.len(30), sent = 0, runs = 0; int id = 0; desc("order %d, time to live %llu, timeout %llu %s, %zu steps", order, (unsigned long long) ttl, (unsigned long long) timeout, RRR_SEND_LOOP_ACTION_STR(act), n);
	for (size_t st = 0; st < n; st++) {
		switch (s.weighted({6, 6, 4, 2, 2, 1, 1, 1})) {
			case 0: { uint64_t ts = g_now - (s.flip() ? 0 : s.chance(1, 3) && ttl && ttl < g_now ? ttl - s.u(1) + s.u(1) : s.u(6000000) % g_now); E *e = make(ts, id++, (int) s.u(2)); rrr_msg_holder_lock(e->h);
				if (s.chance(7, 8)) { rrr_send_loop_entry_prepare(l, e->h); e->index = ++w.idx; e->send_time = g_now; CHECK(e->h->send_index == e->index && e->h->send_time == g_now, "prepared entry"); }
				if (s.chance(4, 5)) { rrr_send_loop_push(l, e->h); w.q.push_back(e); } else { rrr_send_loop_unshift(l, e->h); w.q.push_front(e); }
				e->in_loop = true; rrr_msg_holder_unlock(e->h); break; }
			case 1: { // run
				if (order) w.q.sort([](E *a, E *b) { return a->index < b->index; });
				w.got.clear(); w.calls = 0; w.rets.clear(); std::vector<Step> want; std::list<E *> left; int ret = 0; bool stop = false; int mode = (int) s.u(3);
				for (E *e : w.q) {
					if (stop) { left.push_back(e); continue; }
					bool exp = ttl && ttl <= g_now && e->ts < g_now - ttl, tmo = !exp && timeout && e->send_time && e->send_time < g_now - timeout;
					if (exp) { label("too old"); e->in_loop = false; continue; }
					if (tmo) { label("timeout"); e->in_loop = false; if (act == RRR_SEND_LOOP_ACTION_RETURN) { want.push_back({e->id, 1}); int r = s.chance(1, 20) ? 1 : 0; w.rets.push_back(r); if (r) { ret = r; stop = true; label("return fails"); } e->out = true; } continue; }
					int r = mode == 0 ? 0 : (mode == 1 ? s.weighted({5, 4, 1}) : s.weighted({5, 1, 1})) == 0 ? 0 : s.chance(4, 5) ? RRR_SEND_LOOP_NOT_READY : s.chance(3, 4) ? RRR_SEND_LOOP_SOFT_ERROR : s.flip() ? RRR_SEND_LOOP_HARD_ERROR : 16;
					want.push_back({e->id, 0}); w.rets.push_back(r);
					if (r == RRR_SEND_LOOP_NOT_READY) { left.push_back(e); label("not ready"); if (order) stop = true; continue; }
					e->in_loop = false; if (r == 0) { e->out = true; sent++; } else if (r != RRR_SEND_LOOP_SOFT_ERROR) { ret = r; stop = true; label("error"); }
				}
				w.q = left; runs++; int r = rrr_send_loop_run(l); CHECK((r != 0) == (ret != 0), "run returns %d, expected %d", r, ret);
				CHECK(w.got.size() == want.size(), "%zu entries are handed over, expected %zu", w.got.size(), want.size());
				for (size_t i = 0; i < want.size(); i++) CHECK(w.got[i].id == want[i].id && w.got[i].kind == want[i].kind, "at %zu entry %d is %s, expected entry %d %s", i, w.got[i].id, w.got[i].kind ? "returned" : "pushed", want[i].id, want[i].kind ? "returned" : "pushed");
				break; }
			case 2: g_now += s.chance(1, 4) ? s.u(100) : s.flip() ? s.pick({1, 1000, 1001, 5000000, 60000000}) : s.u(3000000); break;
			case 3: { // an entry which was handed over was not sent after all
				std::vector<E *> v; for (auto &e : w.all) if (e.out && !e.in_loop) v.push_back(&e); if (v.empty()) break; E *e = s.pick(v); rrr_msg_holder_lock(e->h);
				if (s.flip()) { rrr_send_loop_unshift(l, e->h); w.q.push_front(e); e->in_loop = true; label("back in queue"); }
				else { int did = -1; bool exp = ttl && ttl <= g_now && e->ts < g_now - ttl, tmo = !exp && timeout && e->send_time && e->send_time < g_now - timeout; rrr_send_loop_unshift_if_timed_out(&did, l, e->h); CHECK(did == (exp || tmo), "entry which %s is %sput back", exp ? "is too old" : tmo ? "timed out" : "may be sent", did ? "" : "not "); if (did) { w.q.push_front(e); e->in_loop = true; } }
				rrr_msg_holder_unlock(e->h); break; }
			case 4: { if (w.all.empty()) break; std::vector<E *> v; for (auto &e : w.all) v.push_back(&e); E *e = s.pick(v); rrr_msg_holder_lock(e->h); rrr_send_loop_entry_touch_related(l, e->h, cmp, &g_now); rrr_msg_holder_unlock(e->h);
				for (E *x : w.q) if (x != e && x->group == e->group) x->send_time = g_now; for (auto &x : w.all) CHECK(x.h->send_time == x.send_time, "send time of entry %d", x.id); break; }
			case 5: params(); rrr_send_loop_set_parameters(l, order, ttl, timeout, act); break;
			case 6: if (s.chance(1, 3)) { rrr_send_loop_clear(l); for (E *e : w.q) e->in_loop = false; w.q.clear(); } break;
			case 7: { enum rrr_send_loop_action a = RRR_SEND_LOOP_ACTION_DROP; const char *t = s.pick({"retry", "RETRY", "drop", "Drop", "return", "RETURN", "", "retr", "returnx", "none"}); int r = rrr_send_loop_action_from_str(&a, t); std::string u = t; for (auto &c : u) c = (char) toupper(c);
				CHECK(r == (u == "RETRY" || u == "DROP" || u == "RETURN" ? 0 : 1), "action %s", t); if (!r) CHECK(u == RRR_SEND_LOOP_ACTION_STR(a), "action %s", t); break; }
		}
		check(l);
	}
	if (sent > 1 && runs > 1) nontrivial();
	rrr_send_loop_destroy(l); for (auto &e : w.all) { CHECK(rrr_msg_holder_usercount(e.h) == 1, "entry %d is not released", e.id); rrr_msg_holder_decref(e.h); } rrr_event_queue_destroy(q);
}
// Without anybody calling run
static uint64_t g_end; static size_t g_want; static struct rrr_send_loop *g_l;
static int periodic(void *a) { (void) a; if (rrr_send_loop_count(g_l) == 0 || __real_rrr_time_get_64() > g_end) return RRR_EVENT_EXIT; return 0; }
static void events(Src &s) {
	World w; W = &w; w.s = &s; g_real = true; struct rrr_event_queue *q = NULL; CHECK(rrr_event_queue_new(&q) == 0, "queue"); CHECK(rrr_send_loop_new(&g_l, q, "loop", s.flip(), 0, 0, RRR_SEND_LOOP_ACTION_RETRY, on_push, on_return, on_run, &w) == 0, "loop");
	size_t n = 1 + s.u(5), retries = s.u(6); for (size_t i = 0; i < n; i++) { E *e = make(__real_rrr_time_get_64(), (int) i, 0); rrr_msg_holder_lock(e->h); rrr_send_loop_entry_prepare(g_l, e->h); rrr_send_loop_push(g_l, e->h); rrr_msg_holder_unlock(e->h); }
	for (size_t i = 0; i < retries; i++) w.rets.push_back(s.flip() ? RRR_SEND_LOOP_NOT_READY : RRR_SEND_LOOP_SOFT_ERROR); size_t busy = 0; for (int r : w.rets) busy += r == RRR_SEND_LOOP_NOT_READY; desc("%zu messages, not ready %zu times", n, busy); if (busy) nontrivial();
	g_end = __real_rrr_time_get_64() + 4000000; CHECK(rrr_event_dispatch(q, 5000, periodic, NULL) == 0, "dispatch");
	CHECK(rrr_send_loop_count(g_l) == 0, "%d messages were not sent in four seconds", rrr_send_loop_count(g_l)); CHECK(w.run_calls > 0, "run callback was not called");
	rrr_send_loop_destroy(g_l); for (auto &e : w.all) rrr_msg_holder_decref(e.h); rrr_event_queue_destroy(q); g_real = false;
}
VP_TARGET(history, 40000, "several messages sent in more than one run");
VP_TARGET(events, 200, "a message was not ready at first");
VP_MAIN(vp_lib_init)
