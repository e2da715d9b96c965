// C07: the message broker hands messages from writers to readers as a set of lists does
#include "common.hpp"
#include <list>
#include <memory>
#include <sys/socket.h>
#include <netinet/in.h>
extern "C" {
#include "lib/message_broker.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_msg_struct.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/instance_friends.h"
#include "lib/event/event.h"
#include "lib/event/event_struct.h"
#include "lib/util/rrr_time.h"
}
VP_LOG_PREFIX
using namespace vp;

static const int MAXC = 12;
static struct rrr_event_queue *queues[MAXC];
static struct rrr_instance *inst(int i) { static char dummy[MAXC][8]; return (struct rrr_instance *) dummy[i]; }

struct Item { long id; int source = -1; unsigned hops = 0; int port; int proto; uint64_t send_time; };
static std::string payload(long id) { std::string s = "m" + std::to_string(id) + ":"; for (long i = 0; i < id % 7; i++) s += (char) ('a' + (id + i) % 26); return s; }

struct Cost {
	std::string name; bool slot = false, dup = false, route = false; int idx; std::vector<int> readers, senders; struct rrr_message_broker_costumer *c = NULL;
	std::deque<Item> main;                        // plain buffer, or written and not yet taken over by the readers
	std::map<int, std::deque<Item>> split;        // per reader
	std::shared_ptr<Item> in_slot; std::set<int> has_read;
	uint64_t last_id = 0; long written = 0;
	bool free_slot() const { return !slot || !in_slot; }
	void put(const Item &i) { written++; if (slot) { CHECK(!in_slot, "harness: slot is taken"); in_slot = std::make_shared<Item>(i); has_read.clear(); } else if (dup && !readers.empty()) for (int r : readers) split[r].push_back(i); else main.push_back(i); }
};
struct World { std::vector<Cost> c; long next = 0; long hook_fail_at = 0, hooks = 0, broker_hooks = 0; std::vector<struct rrr_msg_holder *> kept; std::vector<long> kept_ids; long notif = 0; uint64_t t0; };
static World *W;

static unsigned route_of(long id, unsigned hops) { return id % 3 == 0 ? hops : (unsigned) (id % 15); }
struct Hops {
	rrr_msg_holder_nexthops h; bool failed = false;
	Hops(unsigned m, bool may_fail = false) { memset(&h, 0, sizeof h); for (int i = 0; i < MAXC; i++) if (m & (1u << i)) if (rrr_instance_friend_collection_append(&h, inst(i), NULL) != 0) { failed = true; CHECK(may_fail && alloc_failed(), "hops"); } }
	~Hops() { rrr_instance_friend_collection_clear(&h); }
};
static long id_of(const struct rrr_msg_holder *e) { return e->message ? atol(MSG_DATA_PTR((struct rrr_msg_msg *) e->message) + 1) : -1; }

static int pre_hook(struct rrr_msg_holder *e, void *a) {
	Cost *c = (Cost *) a; W->hooks++;
	if (W->hook_fail_at && --W->hook_fail_at == 0) return 1;
	if (c->route) { long id = id_of(e); unsigned m = route_of(id, 16); if (m < 16) { Hops h(m, true); int r = rrr_msg_holder_nexthops_set(e, &h.h); CHECK(r == 0 || alloc_failed(), "set"); return r || h.failed; } }
	return 0;
}
static void broker_hook(const char *n, const struct rrr_msg_holder *e, void *a) { (void) e; World *w = (World *) a; w->broker_hooks++; bool ok = false; for (auto &c : w->c) ok |= c.name == n; CHECK(ok, "hook for %s", n); }
static void routed(const Cost &c, Item &i) { if (c.route) { unsigned m = route_of(i.id, 16); if (m < 16) i.hops = m; } }

static struct rrr_msg_msg *mk_msg(long id) { struct rrr_msg_msg *m = NULL; std::string p = payload(id); CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, (uint64_t) id * 3, "t", 1, p.data(), (rrr_u32) p.size()) == 0, "new"); return m; }
static struct sockaddr_in mk_addr(int port) { struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port); return a; }

static void verify(const struct rrr_msg_holder *e, const Item &i, const char *where) {
	CHECK(e->message != NULL && id_of(e) == i.id, "%s: message %ld, want %ld", where, id_of(e), i.id);
	struct rrr_msg_msg *m = (struct rrr_msg_msg *) e->message; std::string p = payload(i.id);
	CHECK(e->data_length == MSG_TOTAL_SIZE(m) && std::string(MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)) == p && m->timestamp == (uint64_t) i.id * 3 && MSG_TOPIC_LENGTH(m) == 1, "%s: message %ld is altered", where, i.id);
	if (i.port) { struct sockaddr_in a = mk_addr(i.port); CHECK(e->addr_len == sizeof a && memcmp(&e->addr, &a, sizeof a) == 0, "%s: address of %ld is altered", where, i.id); } else CHECK(e->addr_len == 0, "%s: message %ld has an address", where, i.id);
	CHECK(e->protocol == i.proto && e->send_time == i.send_time, "%s: message %ld protocol %u send time %" PRIu64, where, i.id, e->protocol, e->send_time);
	CHECK(e->buffer_time >= W->t0 && e->buffer_time <= rrr_time_get_64(), "%s: buffer time of %ld", where, i.id);
	for (int k = 0; k < MAXC; k++) { bool want = i.hops == 0 || (i.hops & (1u << k)); CHECK(!!rrr_msg_holder_nexthop_ok(e, inst(k)) == want, "%s: message %ld hop %d is %d, want %d", where, i.id, k, !want, want); }
	CHECK(rrr_msg_holder_nexthop_count(e) == __builtin_popcount(i.hops), "%s: %d hops of %ld, want %x", where, rrr_msg_holder_nexthop_count(e), i.id, i.hops);
}

// ---- writing ----
struct WCtx { Src *s; Cost *c; std::vector<Item> out; unsigned hops; int port, proto; bool err = false; long calls = 0; int left; bool hook_fail = false; };
static int w_cb(struct rrr_msg_holder *e, void *a) {
	WCtx *w = (WCtx *) a; Src &s = *w->s; int r = 0; w->calls++;
	bool many = w->left > 20, again = --w->left > 0;
	if (!many && s.chance(1, 40)) { rrr_msg_holder_unlock(e); w->err = true; return RRR_MESSAGE_BROKER_ERR; }
	bool drop = !many && s.chance(1, 6);
	if (again) r |= RRR_MESSAGE_BROKER_AGAIN;
	if (!drop || s.flip()) {
		Item i; i.id = ++W->next; i.hops = w->hops; i.port = w->port; i.proto = w->proto; i.send_time = s.flip() ? (uint64_t) i.id * 5 : 0;
		struct rrr_msg_msg *m = mk_msg(i.id); rrr_msg_holder_set_data_unlocked(e, m, MSG_TOTAL_SIZE(m)); e->send_time = i.send_time;
		if (!drop) { routed(*w->c, i); w->out.push_back(i); }
	}
	if (drop) r |= RRR_MESSAGE_BROKER_DROP;
	rrr_msg_holder_unlock(e); return r;
}
static int cancel_cb(void *a) { int *n = (int *) a; return *n && --*n == 0; }

static void drain_notifications(bool check);
static void notify(Cost &c, long n) { if (!c.readers.empty()) W->notif += c.dup ? n * (long) c.readers.size() : n; }

static void op_write(Src &s, Cost &c) {
	if (!c.free_slot()) return;
	unsigned hops = s.chance(1, 3) ? (unsigned) s.u(s.chance(1, 4) ? 63 : 15) : 0; int port = s.flip() ? 1 + (int) s.u(5000) : 0;
	WCtx w; w.s = &s; w.c = &c; w.hops = hops; w.port = port; w.proto = (int) s.u(3); w.left = s.chance(1, 60) ? 250 + (int) s.u(300) : 1 + (int) s.len(5);
	struct sockaddr_in a = mk_addr(port); int cancel = s.chance(1, 6) ? 1 + (int) s.u(4) : 0, want_cancel = cancel;
	bool fail = s.chance(1, 30); if (fail) W->hook_fail_at = 1 + (long) s.u(2);
	Hops h(hops); long hooks0 = W->hooks;
	desc("write %s; ", c.name.c_str());
	int r = rrr_message_broker_write_entry(c.c, port ? (struct sockaddr *) &a : NULL, port ? sizeof a : 0, (uint8_t) w.proto, hops || s.flip() ? &h.h : NULL, w_cb, &w, cancel_cb, &cancel);
	bool hook_failed = fail && W->hook_fail_at == 0; W->hook_fail_at = 0; (void) hooks0; (void) want_cancel;
	if (hook_failed) w.out.pop_back();
	bool bad = w.err || hook_failed;
	CHECK((r != 0) == bad, "write returned %d", r);
	if (c.slot) CHECK(w.calls == 1, "%ld calls for a slot", w.calls);
	if (w.out.size() > 255) label("more than 255 in one write");
	if (bad) label("failing write"); else { if (!w.out.empty()) notify(c, (long) w.out.size()); }
	for (auto &i : w.out) c.put(i);
}

static struct rrr_msg_holder *mk_entry(Src &s, Item &i) {
	i.id = ++W->next; i.port = s.flip() ? 1 + (int) s.u(5000) : 0; i.proto = (int) s.u(3); i.send_time = s.flip() ? 77 : 0;
	struct sockaddr_in a = mk_addr(i.port); struct rrr_msg_msg *m = mk_msg(i.id); struct rrr_msg_holder *e = NULL;
	CHECK(rrr_msg_holder_new(&e, MSG_TOTAL_SIZE(m), i.port ? (struct sockaddr *) &a : NULL, i.port ? sizeof a : 0, (uint8_t) i.proto, m) == 0, "new");
	e->send_time = i.send_time; return e;
}
static void op_clone(Src &s, Cost &c) {
	if (!c.free_slot()) return;
	Item i; struct rrr_msg_holder *e = mk_entry(s, i); i.hops = s.flip() ? (unsigned) s.u(s.chance(1, 4) ? 63 : 15) : 0; Hops h(i.hops); desc("clone %s; ", c.name.c_str());
	int r = rrr_message_broker_clone_and_write_entry(c.c, e, i.hops ? &h.h : NULL); CHECK(r == 0, "clone and write returned %d", r);
	CHECK(rrr_msg_holder_usercount(e) == 1, "user count"); rrr_msg_holder_decref(e); routed(c, i); c.put(i); notify(c, 1); label("clone");
}
static void op_collection(Src &s, Cost &c) {
	if (!c.free_slot()) return;
	struct rrr_msg_holder_collection l; memset(&l, 0, sizeof l); int n = c.slot ? 1 : s.chance(1, 60) ? 250 + (int) s.u(300) : (int) s.u(6); std::vector<Item> is; unsigned hops = s.flip() ? (unsigned) s.u(s.chance(1, 4) ? 63 : 15) : 0; Hops h(hops);
	while (n--) { Item i; struct rrr_msg_holder *e = mk_entry(s, i); i.hops = hops; routed(c, i); is.push_back(i); RRR_LL_APPEND(&l, e); }
	desc("collection %s; ", c.name.c_str());
	bool fail = s.chance(1, 30) && !is.empty(); if (fail) W->hook_fail_at = 1 + (long) s.n(is.size() - 1);
	bool oom = !fail && !is.empty() && s.chance(1, 12); if (oom) alloc_fail_at(1 + (long) s.n(is.size() * 2 - 1));
	int r = rrr_message_broker_write_entries_from_collection_unsafe(c.c, &l, hops ? &h.h : NULL, NULL, NULL); W->hook_fail_at = 0;
	oom = oom && alloc_failed(); alloc_fail_at(0);
	if (oom && r != 0) { // The first may have been written, the caller keeps the others. Some may not have been notified about.
		label("failed allocation"); drain_notifications(false);
		size_t left = (size_t) RRR_LL_COUNT(&l); CHECK(left > 0 && left <= is.size(), "%zu left of %zu", left, is.size()); for (size_t k = 0; k < is.size() - left; k++) c.put(is[k]);
		rrr_msg_holder_collection_clear(&l); return;
	}
	CHECK((r != 0) == fail && (!oom || RRR_LL_COUNT(&l) == 0), "write from collection returned %d", r);
	if (fail) { CHECK((size_t) RRR_LL_COUNT(&l) == is.size(), "entries were taken"); label("failing write"); rrr_msg_holder_collection_clear(&l); return; }
	CHECK(RRR_LL_COUNT(&l) == 0, "%d entries left", RRR_LL_COUNT(&l));
	for (auto &i : is) c.put(i); if (!is.empty()) notify(c, (long) is.size()); label("collection");
}

// ---- reading ----
struct RCtx { Src *s; Cost *r; bool backstop; std::vector<Item> got; bool stop = false; bool *stopped = NULL; std::function<void(Item &, struct rrr_msg_holder *)> seen; };
static int r_cb(struct rrr_msg_holder *e, void *a) {
	RCtx *r = (RCtx *) a; Src &s = *r->s; int ret = 0;
	Item i; i.id = id_of(e); r->seen(i, e);
	switch (s.u(7)) {
		case 0: // Forward, as modules do
			if (r->r->free_slot()) {
				Item f = i; f.hops = s.chance(1, 4) ? (unsigned) s.u(s.chance(1, 4) ? 63 : 15) : 0; Hops h(f.hops); rrr_msg_holder_unlock(e);
				int q = rrr_message_broker_incref_and_write_entry_unsafe(r->r->c, e, f.hops ? &h.h : NULL, NULL, NULL); CHECK(q == 0, "forward returned %d", q);
				routed(*r->r, f); r->r->put(f); notify(*r->r, 1); label("forwarded"); return 0;
			}
			break;
		case 1: rrr_msg_holder_incref_while_locked(e); W->kept.push_back(e); W->kept_ids.push_back(i.id); break;
		case 2: if (r->stop) { ret = RRR_FIFO_PROTECTED_SEARCH_STOP; *r->stopped = true; label("stopping"); } break;
		default: break;
	}
	rrr_msg_holder_unlock(e); return ret;
}
static void op_poll(Src &s, Cost &c) {
	if (c.senders.empty()) return;
	uint16_t amount = (uint16_t) (s.chance(1, 10) ? 65535 : s.chance(1, 10) ? 500 + s.u(3) : 1 + s.u(6)); const uint16_t amount0 = amount;
	RCtx r; r.s = &s; r.r = &c; r.backstop = s.chance(2, 3); r.stop = s.chance(1, 4);
	// The model at the time of the poll: what each sender has for us, in order
	size_t sender = 0; long taken = 0; std::vector<long> per(c.senders.size(), 0); bool stopped = false; r.stopped = &stopped;
	auto queue = [&](size_t k) -> std::deque<Item> & { Cost &o = W->c[(size_t) c.senders[k]]; return o.dup ? o.split[c.idx] : o.main; };
	auto advance = [&]() { // to the next message which is to be seen, with those dropped by the backstop taken
		for (; sender < c.senders.size(); sender++, stopped = false) {
			Cost &o = W->c[(size_t) c.senders[sender]];
			if (taken >= amount0) return false;
			if (stopped) continue;
			if (o.slot) { if (per[sender] || !o.in_slot || (o.dup && o.has_read.count(c.idx))) continue; if (r.backstop && o.in_slot->source == c.idx) { per[sender]++; taken++; if (o.dup) { o.has_read.insert(c.idx); if (o.has_read.size() >= o.readers.size()) o.in_slot.reset(); } else o.in_slot.reset(); label("backstop in slot"); continue; } return true; }
			auto &q = queue(sender);
			while (!q.empty() && per[sender] < RRR_FIFO_PROTECTED_MAX_READS && taken < amount0) { if (r.backstop && q.front().source == c.idx) { q.pop_front(); per[sender]++; taken++; label(o.dup ? "backstop in duplicated" : "backstop"); continue; } return true; }
		}
		return false;
	};
	std::vector<std::function<void()>> after;
	std::shared_ptr<Item> slot_done; 
	r.seen = [&](Item &i, struct rrr_msg_holder *e) {
		for (auto &f : after) f(); after.clear();
		CHECK(advance(), "message %ld came to %s, nothing was expected", i.id, c.name.c_str());
		Cost &o = W->c[(size_t) c.senders[sender]]; Item want; Cost *op = &o; int idx = c.idx;
		if (o.slot) { want = *o.in_slot; per[sender]++; taken++; after.push_back([op, idx] { if (op->dup) { op->has_read.insert(idx); if (op->has_read.size() >= op->readers.size()) op->in_slot.reset(); } else op->in_slot.reset(); }); }
		else { auto &q = queue(sender); want = q.front(); q.pop_front(); per[sender]++; taken++; }
		verify(e, want, c.name.c_str());
		if (want.source < 0) want.source = o.idx;
		CHECK(e->source == W->c[(size_t) want.source].c, "message %ld has the wrong origin", want.id);
		i = want;
	};
	desc("poll %s %u; ", c.name.c_str(), amount0);
	int ret = rrr_message_broker_poll_delete(&amount, c.c, r.backstop ? RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP : 0, r_cb, &r);
	CHECK(ret == 0, "poll returned %d", ret);
	for (auto &f : after) f(); after.clear();
	CHECK(!advance(), "%s did not get all there was: %ld of at most %u", c.name.c_str(), taken, amount0);
	CHECK(amount == amount0 - taken, "%u of %u left after %ld messages", amount, amount0, taken);
	if (taken > 255) label("many read");
}

static void drain_notifications(bool check) {
	long sum = 0; for (size_t i = 0; i < W->c.size(); i++) for (uint64_t n = 1; n;) { CHECK(rrr_socket_eventfd_read(&n, &queues[i]->functions[RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE].eventfd) == 0, "eventfd"); sum += (long) n; }
	if (check) CHECK(sum == W->notif, "%ld notifications, want %ld", sum, W->notif);
	W->notif = 0;
}
static int managed_destroyed; static void managed_destroy(void *p) { CHECK(p == &managed_destroyed, "argument"); managed_destroyed++; }
static int with_lock(void *a, void *b) { return *(int *) a == 1 && *(int *) b == 2 ? RRR_FIFO_PROTECTED_GLOBAL_ERR : 0; }

static void deliver(Src &s) {
		World w; W = &w; w.t0 = rrr_time_get_64(); int n = 2 + (int) s.u(s.chance(1, 4) ? s.flip() ? MAXC - 2 : 4 : 2); w.c.resize((size_t) n); for (int i = 0; i < n; i++) CHECK(rrr_event_queue_new(&queues[i]) == 0, "event queue"); bool star = n > 2 && s.chance(1, 5);	// everybody reads from the first one
	struct rrr_message_broker *b = NULL; struct rrr_message_broker_hooks hk = {broker_hook, &w}; CHECK(rrr_message_broker_new(&b, s.flip() ? &hk : NULL) == 0, "new");
	for (int i = 0; i < n; i++) { Cost &c = w.c[(size_t) i]; c.idx = i; c.name = "c" + std::to_string(i); c.slot = s.chance(1, star && !i ? 2 : 3); c.dup = s.chance(1, 2); c.route = s.chance(1, 4); CHECK(rrr_message_broker_costumer_register(&c.c, b, c.name.c_str(), c.slot, pre_hook, &c) == 0, "register"); rrr_message_broker_costumer_event_queue_set(b, c.name.c_str(), queues[i]); }
	for (auto &r : w.c) for (auto &o : w.c) if (&r != &o && (star ? !o.idx : s.chance(1, 2))) { CHECK(rrr_message_broker_sender_add(r.c, o.c) == 0, "sender"); r.senders.push_back(o.idx); o.readers.push_back(r.idx); }
	for (auto &c : w.c) { if (c.readers.size() < 1) c.dup = false; if (c.dup) CHECK(rrr_message_broker_setup_split_output_buffer(c.c, (rrr_length) c.readers.size()) == 0, "setup"); CHECK(rrr_message_broker_senders_count(c.c) == c.senders.size(), "senders"); CHECK(rrr_message_broker_costumer_find_by_name(b, c.name.c_str()) == c.c, "find"); desc("%s%s%s<-%zu ", c.name.c_str(), c.slot ? " slot" : "", c.dup ? " dup" : "", c.senders.size()); }
	managed_destroyed = 0; int managed = s.chance(1, 4) ? 1 + (int) s.u(1) : 0; for (int i = 0; i < managed; i++) CHECK(rrr_message_broker_costumer_managed_data_push(b, "c0", &managed_destroyed, managed_destroy) == 0, "managed");
	for (size_t ops = 3 + s.len(40); ops--;) {
		Cost &c = w.c[s.u((uint64_t) n - 1)];
		uint64_t op = s.u(9); if (star && op < 4) { op_write(s, w.c[0]); op = 99; } else if (star && op > 6) { for (auto &o : w.c) op_poll(s, o); op = 99; }
		switch (op) {
			case 99: break;
			case 0: case 1: case 2: op_write(s, c); break;
			case 3: op_clone(s, c); break;
			case 4: op_collection(s, c); break;
			case 5: { uint64_t id = 0; CHECK(rrr_message_broker_get_next_unique_id(&id, c.c) == 0 && id == c.last_id + 1, "unique id %" PRIu64 " after %" PRIu64, id, c.last_id); c.last_id = id; break; }
			default: op_poll(s, c);
		}
		drain_notifications(true);
		if (s.chance(1, 6)) for (auto &o : w.c) {
			unsigned cnt = 0; int rl = 0; CHECK(rrr_message_broker_get_entry_count_and_ratelimit(&cnt, &rl, o.c) == 0 && rl == 0, "count");
			if (o.slot) { unsigned unread = o.in_slot ? 1 + (o.dup ? (unsigned) (o.readers.size() - o.has_read.size()) : 0) : 0; CHECK(cnt == unread, "slot of %s counts %u, want %u", o.name.c_str(), cnt, unread); }
			else if (!o.dup) CHECK(cnt == o.main.size(), "%s has %u entries, want %zu", o.name.c_str(), cnt, o.main.size());
			struct rrr_fifo_protected_stats st; CHECK(rrr_message_broker_get_fifo_stats(&st, o.c) == 0 && st.total_entries_written == (uint64_t) o.written, "%s: %" PRIu64 " written, want %ld", o.name.c_str(), st.total_entries_written, o.written);
		}
		for (size_t i = 0; i < w.kept.size(); i++) if (s.chance(1, 4)) { CHECK(id_of(w.kept[i]) == w.kept_ids[i], "kept message changed"); rrr_msg_holder_decref(w.kept[i]); w.kept.erase(w.kept.begin() + (long) i); w.kept_ids.erase(w.kept_ids.begin() + (long) i); break; }
	}
	{ int a = 1, c2 = 2; CHECK(rrr_message_broker_with_ctx_and_buffer_lock_do(w.c[0].c, with_lock, &a, &c2) != 0, "with lock"); }
	if (s.flip()) { // What is left comes out
		for (auto &c : w.c) op_poll(s, c);
		label("polled at the end");
	}
	drain_notifications(false);
	long reads = 0; for (auto &c : w.c) reads += c.written; if (reads > 3) nontrivial();
	for (auto &c : w.c) rrr_message_broker_costumer_unregister(b, c.c);
	if (s.flip()) rrr_message_broker_unregister_all(b);
	rrr_message_broker_destroy(b); CHECK(managed_destroyed == managed, "managed data destroyed %d times, want %d", managed_destroyed, managed);
	for (size_t i = 0; i < w.kept.size(); i++) { CHECK(rrr_msg_holder_usercount(w.kept[i]) == 1 && id_of(w.kept[i]) == w.kept_ids[i], "kept message"); rrr_msg_holder_decref(w.kept[i]); }
	for (int i = 0; i < n; i++) rrr_event_queue_destroy(queues[i]);
	W = NULL;
}
VP_TARGET_NOLEAK(deliver, 40000, "two to twelve instances with buffers or slots, with and without duplication, connected at random; writes (batches, dropped, failing), clones, collections, polls, forwarding, keeping; non-trivial: more than three messages");

VP_MAIN(vp_lib_init)
