// C07, threads: instances which run at the same time, woken by the notifications of the broker only
#include "common.hpp"
#include "sched.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <mutex>
#include <sys/socket.h>
extern "C" {
#include "lib/message_broker.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_msg_struct.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/event/event.h"
#include "lib/event/event_struct.h"
}
VP_LOG_PREFIX
using namespace vp;

static std::atomic<bool> stop_all; static std::atomic<long> arrived; static std::atomic<int> broken; static std::string broken_text; static std::mutex broken_lock;
static void broke(const std::string &t) { std::lock_guard<std::mutex> g(broken_lock); if (!broken++) broken_text = t; }
static int hook(struct rrr_msg_holder *e, void *a) { (void) e; (void) a; return 0; }
static int cancel(void *a) { (void) a; return stop_all; }
static struct rrr_message_broker_costumer *shared;
struct Batch { int kind, n; };
struct Inst {
	std::string name; struct rrr_message_broker_costumer *c = NULL; struct rrr_event_queue *q = NULL; bool slot = false, dup = false; int rate = 0, idx = 0; uint64_t seed = 0;
	std::vector<Batch> plan;                                 // writers
	bool forward = false; int keep = 0; bool unique = false;
	std::vector<std::pair<int, long>> log;                   // readers: writer, number
	std::vector<uint64_t> ids, shared_ids; std::deque<struct rrr_msg_holder *> kept;
	long next = 0; bool last_ok = true;
};
static std::string text(int w, long n) { std::string s = std::to_string(w) + " " + std::to_string(n) + " "; for (long i = 0; i < n % 9; i++) s += (char) ('a' + (w + n + i) % 26); return s; }
static struct rrr_msg_msg *mk(Inst *i) { std::string p = text(i->idx, i->next++); struct rrr_msg_msg *m = NULL; if (rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, NULL, 0, p.data(), (rrr_u32) p.size()) != 0) abort(); return m; }
struct WCtx { Inst *i; int left; };
static int w_cb(struct rrr_msg_holder *e, void *a) { WCtx *w = (WCtx *) a; struct rrr_msg_msg *m = mk(w->i); rrr_msg_holder_set_data_unlocked(e, m, MSG_TOTAL_SIZE(m)); rrr_msg_holder_unlock(e); w->i->last_ok = true; return --w->left > 0 ? RRR_MESSAGE_BROKER_AGAIN : 0; }
static struct rrr_msg_holder *entry(Inst *i) { struct rrr_msg_msg *m = mk(i); struct rrr_msg_holder *e = NULL; if (rrr_msg_holder_new(&e, MSG_TOTAL_SIZE(m), NULL, 0, 0, m) != 0) abort(); return e; }
static void ids(Inst *i) { uint64_t id = 0; if (rrr_message_broker_get_next_unique_id(&id, i->c) != 0) broke("unique id"); i->ids.push_back(id); for (int k = 0; k < 2; k++) { if (rrr_message_broker_get_next_unique_id(&id, shared) != 0) broke("unique id"); i->shared_ids.push_back(id); } }
static void writer(Inst *i) {
	sched_on(i->seed, i->rate); int r = 0;
	for (auto &b : i->plan) {
		if (stop_all) break;
		switch (b.kind) {
			case 0: for (int left = b.n; left > 0 && !stop_all;) { WCtx w{i, left > 255 ? 255 : left}; int n0 = w.left; r |= rrr_message_broker_write_entry(i->c, NULL, 0, 0, NULL, w_cb, &w, cancel, NULL); left -= n0 - w.left; } break;
			case 1: for (int k = 0; k < b.n && !stop_all; k++) { struct rrr_msg_holder *e = entry(i); r |= rrr_message_broker_clone_and_write_entry(i->c, e, NULL); rrr_msg_holder_decref(e); } break;
			case 2: for (int k = 0; k < b.n && !stop_all; k++) { struct rrr_msg_holder *e = entry(i); r |= rrr_message_broker_incref_and_write_entry_unsafe(i->c, e, NULL, cancel, NULL); rrr_msg_holder_decref(e); } break;
			case 3: { struct rrr_msg_holder_collection l; memset(&l, 0, sizeof l); for (int k = 0; k < b.n; k++) { struct rrr_msg_holder *e = entry(i); RRR_LL_APPEND(&l, e); } r |= rrr_message_broker_write_entries_from_collection_unsafe(i->c, &l, NULL, cancel, NULL); rrr_msg_holder_collection_clear(&l); break; }
		}
		if (i->unique) ids(i);
		if (r && !stop_all) { broke(i->name + ": a write failed"); break; }
	}
	sched_off();
}
static int r_cb(struct rrr_msg_holder *e, void *a) {
	Inst *i = (Inst *) a; struct rrr_msg_msg *m = (struct rrr_msg_msg *) e->message; int w = -1; long n = -1;
	std::string p(MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)); if (sscanf(p.c_str(), "%d %ld", &w, &n) != 2 || p != text(w, n) || e->data_length != MSG_TOTAL_SIZE(m)) broke(i->name + " got a damaged message");
	i->log.push_back({w, n}); arrived++;
	if (i->keep) { rrr_msg_holder_incref_while_locked(e); i->kept.push_back(e); }
	rrr_msg_holder_unlock(e);
	if (i->forward && rrr_message_broker_incref_and_write_entry_unsafe(i->c, e, NULL, cancel, NULL) != 0 && !stop_all) broke(i->name + ": forwarding failed");
	while ((int) i->kept.size() > i->keep) { rrr_msg_holder_decref(i->kept.front()); i->kept.pop_front(); }
	return 0;
}
static int on_event(uint16_t *amount, void *a) { Inst *i = (Inst *) a; if (stop_all) return RRR_EVENT_EXIT; int r = rrr_message_broker_poll_delete(amount, i->c, RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP, r_cb, i); if (i->unique) ids(i); return r; }
static int periodic(void *a) { (void) a; return stop_all ? RRR_EVENT_EXIT : 0; }
static void reader(Inst *i) { sched_on(i->seed, i->rate); int r = rrr_event_dispatch(i->q, 5000, periodic, i); if (r != 0 && !stop_all) broke(i->name + ": the event loop ended"); sched_off(); }

static void threads(Src &s) {
	int nw = 1 + (int) s.u(1), nf = (int) s.u(2), nr = 1 + (int) s.u(2); bool slow = s.chance(1, 3);
	struct rrr_message_broker *b = NULL; CHECK(rrr_message_broker_new(&b, NULL) == 0, "new"); std::vector<std::unique_ptr<Inst>> all; std::vector<Inst *> W, F, R, U;
	auto add = [&](const char *n, std::vector<Inst *> &to, bool slot, bool dup) { auto i = std::make_unique<Inst>(); i->idx = (int) all.size(); i->name = n + std::to_string(i->idx); i->slot = slot; i->dup = dup; i->seed = s.u64(); i->rate = slow ? 300 : (int) s.pick(std::vector<int>{0, 20, 100}); i->keep = s.chance(1, 4) ? 3 : 0; i->unique = s.chance(1, 2);
		CHECK(rrr_message_broker_costumer_register(&i->c, b, i->name.c_str(), slot, hook, i.get()) == 0 && rrr_event_queue_new(&i->q) == 0, "register"); rrr_message_broker_costumer_event_queue_set(b, i->name.c_str(), i->q); rrr_event_function_set_with_arg(i->q, RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE, on_event, i.get(), "x"); to.push_back(i.get()); all.push_back(std::move(i)); };
	bool wslot = s.flip(), wdup = s.flip(), fslot = s.flip(), fdup = s.flip(); long total = 0; 
	for (int i = 0; i < nw; i++) { add("w", W, wslot, wdup); for (size_t k = 1 + s.len(8); k--;) { Batch x{(int) s.u(3), 1 + (int) s.u(s.chance(1, 8) && !wslot ? 300 : 6)}; W[(size_t) i]->plan.push_back(x); total += x.n; } }
	for (int i = 0; i < nf; i++) { add("f", F, fslot, fdup); F.back()->forward = true; }
	for (int i = 0; i < nr; i++) add("r", R, false, false);
	auto connect = [&](std::vector<Inst *> &from, std::vector<Inst *> &to) { for (auto t : to) for (auto f : from) CHECK(rrr_message_broker_sender_add(t->c, f->c) == 0, "sender"); for (auto f : from) if (f->dup) CHECK(rrr_message_broker_setup_split_output_buffer(f->c, (rrr_length) to.size()) == 0, "setup"); };
	if (nf) { connect(W, F); connect(F, R); } else connect(W, R);
	long at_f = nf ? total * (wdup ? nf : 1) : 0, at_r = nf ? at_f * (fdup ? nr : 1) : total * (wdup ? nr : 1), want = at_f + at_r;
	desc("%d writers%s%s, %d forwarders%s%s, %d readers, %ld messages", nw, wslot ? " slot" : "", wdup ? " dup" : "", nf, fslot ? " slot" : "", fdup ? " dup" : "", nr, total);
	if (wslot || (fslot && nf)) label("slots"); if (wdup || (fdup && nf)) label("duplicated"); if (nf) label("forwarded"); if (nf + nr > 1 && total > 5) nontrivial();
	add("u", U, s.flip(), false); shared = U[0]->c; stop_all = false; arrived = 0; broken = 0;
	std::vector<std::thread> th; for (auto r : R) th.emplace_back(reader, r); for (auto f : F) th.emplace_back(reader, f); for (auto w : W) th.emplace_back(writer, w);
	long seen = -1; int idle = 0; // Ends when all is there, or nothing has come for ten seconds
	while (arrived < want && !broken && idle < 10000) { struct timespec t = {0, 1000000}; nanosleep(&t, NULL); if (arrived != seen) { seen = arrived; idle = 0; } else idle++; }
	{ struct timespec t = {0, 3000000}; nanosleep(&t, NULL); }
	stop_all = true; for (auto &t : th) t.join();
	std::string err = broken ? broken_text : "";
	long got = arrived; std::map<std::pair<int, long>, int> cf, cr;
	auto judge = [&](std::vector<Inst *> &v, std::map<std::pair<int, long>, int> &m, int each, bool per_reader_once, bool ordered, const char *what) {
		for (auto i : v) { std::map<int, long> last; std::set<std::pair<int, long>> mine; for (auto &p : i->log) { m[p]++; if (per_reader_once && !mine.insert(p).second && err.empty()) err = i->name + " got message " + std::to_string(p.second) + " twice"; if (ordered && last.count(p.first) && p.second <= last[p.first] && err.empty()) err = i->name + " got message " + std::to_string(p.second) + " after " + std::to_string(last[p.first]); last[p.first] = p.second; } }
		for (auto &p : m) if (p.second > each && err.empty()) err = std::string(what) + ": message " + std::to_string(p.first.second) + " came " + std::to_string(p.second) + " times, want " + std::to_string(each);
	};
	// Readers which compete for one buffer put back what they do not read while another may read later entries
	auto keeps = [](bool slot, bool dup, int readers) { return slot || dup || readers == 1; };
	if (nf) { judge(F, cf, wdup ? nf : 1, true, keeps(wslot, wdup, nf), "forwarders"); judge(R, cr, (wdup ? nf : 1) * (fdup ? nr : 1), nf == 1, nf == 1 && keeps(fslot, fdup, nr), "readers"); } else judge(R, cr, wdup ? nr : 1, true, keeps(wslot, wdup, nr), "readers");
	std::set<uint64_t> su; for (auto &i : all) { if (i->c == shared) i->shared_ids.insert(i->shared_ids.end(), i->ids.begin(), i->ids.end()); for (auto x : i->shared_ids) if (!su.insert(x).second && err.empty()) err = "an identifier came twice"; }
	for (auto &i : all) { std::set<uint64_t> u; if (i->c != shared) for (auto x : i->ids) if (!u.insert(x).second && err.empty()) err = "an identifier came twice"; for (auto e : i->kept) rrr_msg_holder_decref(e); i->kept.clear(); rrr_message_broker_costumer_unregister(b, i->c); }
	rrr_message_broker_unregister_all(b); rrr_message_broker_destroy(b); for (auto &i : all) rrr_event_queue_destroy(i->q);
	CHECK(err.empty(), "%s", err.c_str()); CHECK(got == want, "%ld messages arrived, want %ld", got, want);
}
VP_TARGET_NOLEAK(threads, 700, "one or two writers, up to two forwarding instances and one to three readers in threads of their own, with buffers or slots, with or without duplication, random pauses at locks; non-trivial: more than one receiving instance and more than five messages");
VP_MAIN(vp_lib_init)
