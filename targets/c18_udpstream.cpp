// ASD sessions which talk over an unreliable network, on a virtual clock with stand-ins for sockets and events
#include "common.hpp"
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <event2/event.h>
extern "C" {
#include "lib/util/crc32.h"
#include "lib/udpstream/udpstream_asd.h"
#include "lib/udpstream/udpstream.h"
#include "lib/socket/rrr_socket_client.h"
#include "lib/read.h"
#include "lib/messages/msg_msg.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_util.h"
}
extern "C" { const char *rrr_default_log_prefix = "vp"; int c18_allocate(RRR_UDPSTREAM_ALLOCATOR_CALLBACK_ARGS); }
using namespace vp;
namespace {
struct Timer { void (*cb)(int, short, void *); void *arg; uint64_t interval, next = 0; bool added = false, active = false, dead = false; struct Node *node; };
struct Node {
	int idx; uint16_t port; int fd = 0; struct rrr_udpstream_asd *asd = NULL; bool broken = false; bool up = true;
	int (*size_cb)(RRR_SOCKET_CLIENT_RAW_GET_TARGET_SIZE_CALLBACK_ARGS) = NULL; void *size_arg = NULL; int (*done_cb)(RRR_SOCKET_CLIENT_RAW_COMPLETE_CALLBACK_ARGS) = NULL; void *done_arg = NULL;
	std::vector<std::unique_ptr<Timer>> timers;
	std::map<std::string, int> got; size_t total = 0;
};
struct Dgram { uint64_t at, seq; int to; sockaddr_in from; std::string data; bool operator<(const Dgram &o) const { return at != o.at ? at > o.at : seq > o.seq; } };
struct World {
	Src *src; uint64_t now = 1700000000000000ull, seq = 0, rnd = 0; std::vector<std::unique_ptr<Node>> nodes; std::priority_queue<Dgram> net; Node *creating = NULL;
	bool faulty = true; int loss = 0, dup = 0, late = 0, corrupt = 0; uint64_t delay = 1000; bool cut = false; size_t sent = 0, lost = 0, duped = 0, corrupted = 0, steps = 0; std::map<uint16_t, bool> ids;
} *W;
}
extern "C" {
uint64_t __wrap_rrr_time_get_64(void) { return W ? W->now : 1; }
uint32_t __wrap_rrr_rand(void) { if (!W) return 4; W->rnd += 0x9e3779b97f4a7c15ull; uint64_t z = W->rnd; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (uint32_t) (z >> 32); }
int __wrap_rrr_ip_network_start_udp(struct rrr_ip_data *d, int) { d->fd = W->creating->fd = 100 + W->creating->idx; return 0; }
void __wrap_rrr_ip_network_cleanup(void *) {}
int __wrap_rrr_socket_client_collection_new(struct rrr_socket_client_collection **t, struct rrr_event_queue *, const char *) { *t = (struct rrr_socket_client_collection *) W->creating; return 0; }
void __wrap_rrr_socket_client_collection_destroy(struct rrr_socket_client_collection *) {}
int __wrap_rrr_socket_client_collection_connected_fd_push(struct rrr_socket_client_collection *, int, enum rrr_socket_client_collection_create_type) { return 0; }
void __wrap_rrr_socket_client_collection_fd_close_notify_setup(struct rrr_socket_client_collection *, void (*)(RRR_SOCKET_CLIENT_FD_CLOSE_CALLBACK_ARGS), void *) {}
void __wrap_rrr_socket_client_collection_event_setup_raw(struct rrr_socket_client_collection *c, int (*)(void **, int, void *), void (*)(void *), void *, rrr_biglength, int, void (*)(RRR_SOCKET_CLIENT_SET_READ_FLAGS_CALLBACK_ARGS), void *, int (*gs)(RRR_SOCKET_CLIENT_RAW_GET_TARGET_SIZE_CALLBACK_ARGS), void *ga, void (*)(RRR_SOCKET_CLIENT_ERROR_CALLBACK_ARGS), void *, int (*cc)(RRR_SOCKET_CLIENT_RAW_COMPLETE_CALLBACK_ARGS), void *ca) { Node *n = (Node *) c; n->size_cb = gs; n->size_arg = ga; n->done_cb = cc; n->done_arg = ca; }
int __wrap_rrr_socket_client_collection_sendto_push_const(rrr_length *, struct rrr_socket_client_collection *c, int fd, const struct sockaddr *addr, socklen_t len, const void *data, rrr_biglength size, void (*)(void **, void *), void *, void (*)(void *)) {
	Node *n = (Node *) c; Src &s = *W->src; CHECK(fd == n->fd && len == sizeof(sockaddr_in) && addr->sa_family == AF_INET, "a frame is sent to a strange address"); const sockaddr_in *to = (const sockaddr_in *) addr; int port = ntohs(to->sin_port), t = -1; for (auto &x : W->nodes) if (x->port == port) t = x->idx; W->sent++; CHECK(size <= 1024 + 64, "a datagram of %llu bytes", (unsigned long long) size);
	Dgram d; d.to = t; memset(&d.from, 0, sizeof(d.from)); d.from.sin_family = AF_INET; d.from.sin_port = htons(n->port); d.from.sin_addr.s_addr = htonl(INADDR_LOOPBACK); d.data.assign((const char *) data, size); if (size >= 8) { uint16_t v; memcpy(&v, &d.data[6], 2); if (ntohs(v)) W->ids.insert({ntohs(v), t == 2}); }
	// Known finding: messages are lost if the reset of a new session is lost, late or meets old messages
	if ((uint8_t) d.data[4] == 5 && d.data.substr(12, 8) == std::string(8, 0)) { d.at = W->now; d.seq = 0; W->net.push(d); return 0; }
	int copies = 1; if (W->faulty) { if (W->cut || s.chance(W->loss, 100)) { W->lost++; return 0; } if (s.chance(W->dup, 100)) { copies = 2; W->duped++; } }
	while (copies--) { Dgram e = d; e.at = W->now + 50 + (W->delay ? s.u(W->delay) : 0); e.seq = ++W->seq; if (W->faulty && s.chance(W->late, 100)) e.at += s.u(6000000); if (W->faulty && s.chance(W->corrupt, 100)) { size_t k = 1 + s.u(2); W->corrupted++; if (s.chance(1, 4)) e.data.resize(s.u(e.data.size() - 1)); else while (k--) e.data[s.u(e.data.size() - 1)] ^= (char) (1 << s.u(7)); if (e.data == d.data) e.data[0] ^= 1; } W->net.push(e); }
	return 0;
}
int __wrap_rrr_event_collection_push_periodic(struct rrr_event_handle *t, struct rrr_event_collection *, void (cb)(evutil_socket_t, short, void *), void *arg, uint64_t us) { auto *m = new Timer{cb, arg, us}; m->node = W->creating; W->creating->timers.emplace_back(m); t->event = m; t->interval.tv_sec = (time_t) (us / 1000000), t->interval.tv_usec = (suseconds_t) (us % 1000000); return 0; }
void __wrap_rrr_event_collection_clear(struct rrr_event_collection *) {}
void __wrap_rrr_event_collection_init(struct rrr_event_collection *, struct rrr_event_queue *) {}
void __wrap_rrr_event_dispatch_break(struct rrr_event_queue *q) { ((Node *) q)->broken = true; }
int __wrap_event_add(struct event *e, const struct timeval *tv) { Timer *t = (Timer *) e; t->added = true; if (tv) t->next = W->now + (uint64_t) tv->tv_sec * 1000000 + (uint64_t) tv->tv_usec; return 0; }
int __wrap_event_del(struct event *e) { ((Timer *) e)->added = ((Timer *) e)->active = false; return 0; }
void __wrap_event_active(struct event *e, int, short) { ((Timer *) e)->active = true; }
int __wrap_event_pending(const struct event *e, short, struct timeval *) { Timer *t = (Timer *) e; return t->added || t->active; }
int __wrap_getaddrinfo(const char *, const char *service, const struct addrinfo *, struct addrinfo **res) { auto *a = (struct addrinfo *) calloc(1, sizeof(struct addrinfo)); auto *s = (sockaddr_in *) calloc(1, sizeof(sockaddr_in)); s->sin_family = AF_INET; s->sin_port = htons((uint16_t) atoi(service)); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->ai_family = AF_INET; a->ai_addr = (sockaddr *) s; a->ai_addrlen = sizeof(*s); *res = a; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *a) { free(a->ai_addr); free(a); }
}
namespace {
int receive(struct rrr_msg_holder *e, void *arg) { Node *n = (Node *) arg; const struct rrr_msg_msg *m = (const struct rrr_msg_msg *) e->message; std::string k = std::string(MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m)) + "|" + std::to_string(m->timestamp) + "|" + std::string(MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)); n->got[k]++; n->total++; rrr_msg_holder_unlock(e); return 0; }
void start(Node *n, int remote, bool accept, uint32_t id, bool reset) { W->creating = n; n->timers.clear(); n->broken = false; CHECK(rrr_udpstream_asd_new(&n->asd, (struct rrr_event_queue *) n, n->port, remote >= 0 ? "host" : NULL, remote >= 0 ? std::to_string(W->nodes[remote]->port).c_str() : NULL, id, accept, W->src->flip(), 1, reset, c18_allocate, n, receive, n) == 0, "new session"); }
struct Guard { ~Guard() { for (auto &n : W->nodes) if (n->asd) { rrr_udpstream_asd_destroy(n->asd); n->asd = NULL; } World *w = W; W = NULL; delete w; } };
void deliver(const Dgram &d) {
	if (d.to < 0 || !W->nodes[d.to]->asd) return; Node *n = W->nodes[d.to].get(); struct rrr_read_session rs; memset(&rs, 0, sizeof(rs)); rs.rx_buf_ptr = (char *) rrr_allocate(d.data.size() + 1); CHECK(rs.rx_buf_ptr != NULL, "memory"); char *exact = (char *) rrr_reallocate(rs.rx_buf_ptr, d.data.size() ? d.data.size() : 1); rs.rx_buf_ptr = exact; memcpy(rs.rx_buf_ptr, d.data.data(), d.data.size()); rs.rx_buf_wpos = d.data.size(); rs.rx_buf_size = d.data.size();
	int r = n->size_cb(&rs, (const sockaddr *) &d.from, sizeof(d.from), NULL, n->size_arg); if (r == 0 && rs.rx_buf_wpos >= rs.target_size) { r = n->done_cb(&rs, (const sockaddr *) &d.from, sizeof(d.from), NULL, n->done_arg); CHECK(!(r & RRR_READ_HARD_ERROR), "hard error %d upon a datagram", r); } if (rs.rx_buf_ptr) rrr_free(rs.rx_buf_ptr);
}
// Runs until the given time
void run(uint64_t until) {
	for (;;) {
		if (++W->steps > 3000000) FAIL("the sessions never rest");
		Timer *best = NULL; bool act = false; for (auto &n : W->nodes) if (n->asd) for (auto &t : n->timers) { if (t->active) { best = t.get(); act = true; goto found; } if (t->added && (!best || t->next < best->next)) best = t.get(); }
		found:
		if (act) { best->active = false; if (best->added) best->next = W->now + best->interval; best->cb(-1, 0, best->arg); CHECK(!best->node->broken, "the event loop is stopped by an error"); continue; }
		uint64_t at = best ? best->next : UINT64_MAX; if (!W->net.empty() && W->net.top().at <= at) at = W->net.top().at;
		if (at > until) { W->now = until; return; } if (at > W->now) W->now = at;
		if (!W->net.empty() && W->net.top().at <= at) { Dgram d = W->net.top(); W->net.pop(); deliver(d); } else { best->next = W->now + best->interval; best->cb(-1, 0, best->arg); CHECK(!best->node->broken, "the event loop is stopped by an error"); }
	}
}
struct Sent { int from, to; std::string key; bool must; };
std::vector<Sent> *S;
bool queue(Node *n, int to, unsigned num, size_t size) {
	std::string topic = "t" + std::to_string(num), data(size, 0); for (size_t i = 0; i < size; i++) data[i] = (char) (num * 31 + i * 7 + (i >> 8)); struct rrr_msg_msg *m = NULL; uint64_t ts = W->now; CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, ts, topic.c_str(), (rrr_u16) topic.size(), data.data(), (rrr_u32) size) == 0, "message"); struct rrr_msg_holder *h = NULL; CHECK(rrr_msg_holder_new(&h, MSG_TOTAL_SIZE(m), NULL, 0, 0, m) == 0, "holder");
	rrr_msg_holder_lock(h); int r = rrr_udpstream_asd_queue_and_incref_message(n->asd, h); rrr_msg_holder_decref_while_locked_and_unlock(h); CHECK(r == 0 || r == RRR_UDPSTREAM_ASD_NOT_READY, "queue gives %d", r); if (r) return false; S->push_back({n->idx, to, topic + "|" + std::to_string(ts) + "|" + data, true}); return true;
}
void verify(bool end, const char *what) {
	std::map<std::pair<int, std::string>, std::pair<int, bool>> want; for (auto &s : *S) want[{s.to, s.key}] = {s.from, s.must};
	for (auto &n : W->nodes) for (auto &g : n->got) { auto i = want.find({n->idx, g.first}); std::string k = show(g.first.substr(0, 60)); CHECK(i != want.end(), "%s: session %d got a message never sent to it: %s", what, n->idx, k.c_str()); CHECK(g.second == 1, "%s: session %d got a message %d times: %s", what, n->idx, g.second, k.c_str()); }
	if (end) { size_t miss = 0, all = 0; std::string first; for (auto &w : want) if (w.second.second) { all++; if (!W->nodes[w.first.first]->got.count(w.first.second)) { if (!miss++) first = w.first.second; } } CHECK(miss == 0, "%s: %zu of %zu messages were never delivered, the first is %s", what, miss, all, show(first.substr(0, 60)).c_str()); }
}
}
static void streams(Src &src) {
	W = new World; W->src = &src; W->rnd = src.u(1000); Guard guard; std::vector<Sent> sent; S = &sent; int clients = (int) src.n(2) ? 1 : 2; bool both = clients == 1 && src.chance(1, 3);
	for (int i = 0; i <= clients; i++) { W->nodes.emplace_back(new Node); W->nodes[i]->idx = i; W->nodes[i]->port = (uint16_t) (2000 + i); }
	desc("%d clients%s\n", clients, both ? ", both ways" : ""); start(W->nodes[0].get(), both ? 1 : -1, true, 77, both); for (int i = 1; i <= clients; i++) start(W->nodes[i].get(), 0, both, src.chance(1, 8) ? 0x80000000u + (uint32_t) i : (uint32_t) (i * 10), src.chance(1, 2));
	unsigned num = 0; int phases = 1 + (int) src.u(4); bool refused = false;
	for (int p = 0; p < phases; p++) {
		W->loss = src.chance(1, 4) ? 0 : (int) src.u(src.chance(1, 5) ? 90 : 35); W->dup = src.chance(1, 2) ? 0 : (int) src.u(30); W->late = src.chance(1, 2) ? 0 : (int) src.u(20); W->corrupt = src.chance(2, 3) ? 0 : (int) src.u(20); W->delay = src.pick(std::vector<uint64_t>{0, 1000, 20000, 400000, 1500000}); W->cut = src.chance(1, 10);
		uint64_t dur = W->cut ? src.pick(std::vector<uint64_t>{3000000, 20000000, 250000000}) : src.pick(std::vector<uint64_t>{100000, 2000000, 12000000}); size_t bursts = src.u(4);
		desc("phase of %llu ms, lost %d%%, twice %d%%, late %d%%, corrupted %d%%, delay %llu us%s\n", (unsigned long long) dur / 1000, W->loss, W->dup, W->late, W->corrupt, (unsigned long long) W->delay, W->cut ? ", cut" : "");
		if (W->cut) label("connection cut for a while");
		for (size_t b = 0; b <= bursts; b++) {
			if (src.chance(1, 14)) { int c = 1 + (int) src.u(clients - 1); if (!both) { Node *n = W->nodes[c].get(); desc("client %d starts again\n", c); label("restart of a client"); uint32_t id = 0; (void) id; rrr_udpstream_asd_destroy(n->asd); n->asd = NULL; bool f = W->faulty; W->faulty = false; run(W->now + 10000000); W->faulty = f; for (auto &s : sent) if (s.from == c) s.must = false; start(n, 0, false, (uint32_t) (c * 10), true); } }
			int from = both && src.flip() ? 0 : 1 + (int) src.u(clients - 1); int to = from ? 0 : 1; size_t k = src.chance(1, 25) ? 300 + src.u(300) : 1 + src.u(src.chance(1, 4) ? 40 : 4); size_t size = src.weighted({4, 2, 2, 1}); desc("%zu messages from %d\n", k, from);
			for (size_t i = 0; i < k; i++) { size_t z = size == 0 ? src.u(30) : size == 1 ? 900 + src.u(300) : size == 2 ? src.u(4000) : 1024 * (1 + src.u(4)) + src.u(2); if (k > 40) z = z % 300; if (!queue(W->nodes[from].get(), to, ++num, z)) refused = true; }
			run(W->now + dur / (bursts + 1)); verify(false, "while faults occur");
		}
	}
	W->faulty = false; W->delay = 0; for (int i = 0; i < 20; i++) { run(W->now + 30000000); bool all = true; for (auto &s : sent) if (s.must && !W->nodes[s.to]->got.count(s.key)) all = false; if (all) break; if (i > 3) label("more than two minutes until complete"); } run(W->now + 30000000); verify(true, "in the end");
	if (refused) label("the queue was full"); if (W->corrupted) label("corrupted datagrams"); if (W->duped) label("repeated datagrams"); std::set<int> fr; for (auto &s : sent) fr.insert(s.from); if (W->lost && fr.size() == (size_t) (both ? 2 : clients)) nontrivial();
}
VP_TARGET(streams, 1500, "datagrams were lost, and messages of all sessions were delivered");
static uint32_t be32(uint32_t v) { return htonl(v); }
static void hostile(Src &src) {
	W = new World; W->src = &src; W->rnd = src.u(1000); Guard guard; std::vector<Sent> sent; S = &sent; for (int i = 0; i < 3; i++) { W->nodes.emplace_back(new Node); W->nodes[i]->idx = i; W->nodes[i]->port = (uint16_t) (2000 + i); } start(W->nodes[0].get(), -1, true, 77, false); start(W->nodes[1].get(), 0, false, 10, true); W->faulty = false; W->delay = 1000; unsigned num = 0; bool forge = src.flip(); if (forge) { label("with ids of others"); desc("ids of others are used\n"); } size_t frames = 0; size_t ops = 5 + src.len(40);
	for (size_t o = 0; o < ops; o++) {
		if (src.chance(1, 5)) { queue(W->nodes[1].get(), 0, ++num, src.u(3000)); run(W->now + src.u(300000)); continue; }
		// From a stranger, with handles and ids of the others as well
		Dgram d; d.to = src.chance(3, 4) ? 0 : 1; memset(&d.from, 0, sizeof(d.from)); d.from.sin_family = AF_INET; d.from.sin_port = htons(2002); d.from.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		std::string h(4 + 1 + 1 + 2 + 4 + 8 + 2 + 4, 0); auto p16 = [&](size_t o, uint16_t v) { v = htons(v); memcpy(&h[o], &v, 2); }; auto p32 = [&](size_t o, uint32_t v) { v = be32(v); memcpy(&h[o], &v, 4); };
		int type = (int) src.pick(std::vector<int>{0, 1, 1, 3, 3, 3, 4, 5, 5, (int) src.u(15)}); int flags = (int) src.pick(std::vector<int>{0, 1, 1, 2, 3, (int) src.u(15)}); std::vector<uint16_t> ids{0, 0}; for (auto &x : W->ids) if (x.second || forge) ids.push_back(x.first), ids.push_back(x.first); uint16_t any = (uint16_t) src.u(65535); if (!forge && W->ids.count(any)) any = 0; uint32_t big = (uint32_t) src.u64(); if (big == 10 || big == 77) big = 0;
		h[4] = (char) (flags << 4 | type); h[5] = (char) (src.chance(1, 10) ? src.u(5) : 3); p16(6, src.chance(1, 8) ? any : src.pick(ids)); p32(8, src.chance(1, 3) ? (type == 1 ? 500 : (uint32_t) (1 + src.u(5))) : src.chance(1, 2) ? (uint32_t) src.u(forge ? 12 : 9) : src.chance(1, 2) && forge ? 10 : big); auto ad = [&]() { return src.chance(2, 3) ? (uint32_t) src.u(5) : (uint32_t) src.u64(); }; p32(12, ad()); p32(16, ad());
		std::string body; if ((type == 3 || src.chance(1, 10)) && src.chance(5, 6)) { if (src.chance(1, 2)) { struct rrr_msg_msg *m = NULL; std::string data(src.u(500), 'x'); CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 5, "e", 1, data.data(), (rrr_u32) data.size()) == 0, "m"); size_t z = MSG_TOTAL_SIZE(m); rrr_msg_msg_prepare_for_network(m); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m); body.assign((char *) m, z); rrr_free(m); if (src.chance(1, 4)) body.resize(src.u(z - 1)); else if (src.chance(1, 5)) body[src.u(z - 1)] ^= (char) src.u(255); if (src.chance(1, 2)) { p32(12, 0); } } else body = src.bytes(src.chance(1, 10) ? 1020 + src.u(10) : src.u(60)); }
		p16(20, (uint16_t) body.size()); if (body.size()) p32(22, rrr_crc32buf(&body[0], body.size())); p32(0, rrr_crc32buf(&h[4], h.size() - 4)); if (src.chance(1, 20)) h[src.u(h.size() - 1)] ^= (char) (1 << src.u(7)); d.data = h + body; if (src.chance(1, 20)) d.data.resize(src.u(d.data.size() - 1)); else frames++; desc("frame type %d flags %d %s to %d\n", type, flags, show(d.data.substr(0, 26)).c_str(), d.to); deliver(d); if (src.chance(1, 3)) run(W->now + src.u(400000));
	}
	if (forge) { run(W->now + 600000000); if (frames >= 5) nontrivial(); return; }
	for (auto &n : W->nodes) for (auto &g : n->got) { bool own = false; for (auto &s : sent) if (s.to == n->idx && s.key == g.first) own = true; if (own) CHECK(g.second == 1, "a message was delivered %d times", g.second); else { label("a message of the stranger was delivered"); CHECK(g.first.substr(0, 4) == "e|5|", "session %d got a message nobody sent: %s", n->idx, show(g.first.substr(0, 60)).c_str()); } }
	// The session of the other client still works
	run(W->now + 600000000); queue(W->nodes[1].get(), 0, ++num, 100); run(W->now + 300000000); for (auto &s : sent) CHECK(W->nodes[0]->got.count(s.key) == 1, "message %s was never delivered", show(s.key.substr(0, 50)).c_str()); if (frames >= 5) nontrivial();
}
VP_TARGET(hostile, 4000, "at least 5 arbitrary frames were taken for valid");
static void init() { vp_lib_init(); if (getenv("VP_DBG")) setvbuf(stdout, NULL, _IONBF, 0), rrr_config_init(4, 0, 0, 0, 0, 0, 0, 0, 0, NULL); }
VP_MAIN(init)
