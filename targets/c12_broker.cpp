// C12: the MQTT broker. A real broker listens on the loopback interface and is driven in this process together with its clients, which are written here from the
// MQTT specifications; the time is made up. A reference model of sessions, subscriptions, retained messages, wills and expiries says what each client must receive.
#include "common.hpp"
#include "model_topic.hpp"
#include <list>
#include <map>
#include <set>
#include <algorithm>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <signal.h>
extern "C" {
#include "lib/event/event.h"
#include "lib/event/event_collection_struct.h"
#include "lib/event/event_collection.h"
#include "c12_glue.h"
#include "lib/util/rrr_time.h"
uint64_t c12_now = 1700000000ull * 1000000;
uint64_t __wrap_rrr_time_get_64(void) { return ++c12_now; }
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

static void p16(S &o, unsigned v) { wr_be(o, v, 2); }
static void pstr(S &o, const S &v) { p16(o, (unsigned) v.size()); o += v; }
static void pvar(S &o, unsigned v) { do { unsigned b = v & 127; v >>= 7; o += (char) (b | (v ? 128 : 0)); } while (v); }
static S pkt(unsigned first, const S &body) { S o(1, (char) first); pvar(o, (unsigned) body.size()); return o + body; }
static S props(const S &p) { S o; pvar(o, (unsigned) p.size()); return o + p; }

struct Msg {
	S topic, payload, ctype, user; int qos = 0; bool retain = false; uint32_t expiry = 0; uint64_t at = 0; // at: second of creation
	S str() const { return topic + "=" + payload + " q" + std::to_string(qos) + (retain ? "r" : "") + (expiry ? " x" + std::to_string(expiry) : "") + (ctype.empty() ? "" : " c" + ctype) + (user.empty() ? "" : " u" + user); }
};
struct Out : Msg { bool optional = false; bool sent = false; };   // a message on its way to a session
struct Cl {
	S id; int fd = -1, ver = 4; bool open = false, hold = false, gone = false, raw = false; S in; int pings = 0, pongs = 0; unsigned pid = 1; uint32_t rmax = 0, pmax = 0;
	std::vector<Msg> got; std::map<unsigned, Msg> pending; std::set<unsigned> rec; // pending: not acknowledged; rec: PUBREC sent
	std::vector<std::pair<unsigned, S>> other; int connack = -1; bool present = false; S assigned; int reason = -1; uint32_t skeep = 0; unsigned dups = 0;
};
struct Sess {
	S id; bool connected = false; int ver = 4; uint32_t expiry = 0; uint64_t expire_at = 0; bool never = false; uint64_t gone_at = 0; std::vector<std::pair<S, int>> subs; std::vector<Out> q;
	bool has_will = false; Msg will; uint32_t will_delay = 0; uint64_t will_at = 0; uint32_t pmax = 0; std::map<unsigned, Msg> in2; // QoS 2 publishes from the client, not yet released
};

static struct rrr_event_queue *g_queue; static struct rrr_event_collection g_events; static rrr_event_handle g_tick; static int g_port = 0; static std::vector<Cl *> g_cl; static uint64_t g_off; static std::list<Cl> g_old;
static void tick(evutil_socket_t, short, void *) {}
static bool match(const S &f, const S &t) { return t_match(f, t); }
static void put(Cl &c, const S &d) { if (!c.open) return; size_t p = 0; while (p < d.size()) { ssize_t n = send(c.fd, d.data() + p, d.size() - p, MSG_NOSIGNAL); if (n > 0) p += (size_t) n; else if (n < 0 && errno == EAGAIN) { rrr_event_dispatch_once(g_queue); } else break; } }
static void fin(Cl &c) { if (c.fd >= 0) close(c.fd); c.fd = -1; c.open = false; c.in.clear(); }
static void ack(Cl &c, unsigned type, unsigned pid) { S b; p16(b, pid); put(c, pkt(type << 4 | (type == 6 ? 2 : 0), b)); }
struct Rd { const S &d; size_t p; bool bad = false; unsigned u(int n) { unsigned v = 0; while (n--) { if (p >= d.size()) { bad = true; return 0; } v = v << 8 | (uint8_t) d[p++]; } return v; } S str() { unsigned n = u(2); if (p + n > d.size()) { bad = true; return ""; } S r = d.substr(p, n); p += n; return r; } unsigned var() { unsigned v = 0; int sh = 0; while (1) { unsigned b = u(1); v |= (b & 127) << sh; sh += 7; if (!(b & 128) || sh > 21) return v; } } };
static void read_props(Rd &r, Cl &c, Msg *m) {
	size_t n = r.var(), e = r.p + n; CHECK(e <= r.d.size(), "length of properties");
	while (r.p < e) {
		unsigned id = r.var();
		switch (id) {
			case 1: case 23: case 25: case 36: case 37: case 40: case 41: case 42: r.u(1); break;
			case 2: { uint32_t v = r.u(4); if (m) m->expiry = v; break; }
			case 17: case 24: case 39: r.u(4); break;
			case 19: c.skeep = r.u(2); break; case 33: case 34: case 35: r.u(2); break;
			case 3: { S v = r.str(); if (m) m->ctype = v; break; }
			case 18: c.assigned = r.str(); break;
			case 8: case 9: case 21: case 22: case 26: case 28: case 31: r.str(); break;
			case 38: { S a = r.str(), b = r.str(); if (m) m->user += a + "=" + b + ";"; break; }
			case 11: r.var(); break;
			default: FAIL("property %u sent by the broker", id);
		}
		CHECK(!r.bad, "truncated property %u", id);
	}
	CHECK(r.p == e, "properties too long");
}
static void one(Cl &c, unsigned first, const S &b) {
	Rd r{b, 0}; unsigned type = first >> 4; size_t total = b.size() + 2 + (b.size() > 127);
	if (c.pmax) CHECK(total <= c.pmax, "%s: packet of %zu bytes, its maximum is %u", c.id.c_str(), total, c.pmax);
	switch (type) {
		case 2: { unsigned f = r.u(1); c.connack = (int) r.u(1); c.present = f & 1; CHECK(f <= 1, "flags of CONNACK"); if (c.ver == 5) read_props(r, c, NULL); break; }
		case 3: {
			Msg m; m.qos = first >> 1 & 3; m.retain = first & 1; bool dup = first & 8; m.topic = r.str(); unsigned pid = 0; CHECK(m.qos < 3, "QoS"); if (m.qos) { pid = r.u(2); CHECK(pid != 0, "packet id 0"); }
			if (c.ver == 5) read_props(r, c, &m); CHECK(!r.bad, "truncated PUBLISH"); m.payload = b.substr(r.p);
			if (m.qos == 0) { CHECK(!dup, "DUP with QoS 0"); c.got.push_back(m); break; }
			if (c.pending.count(pid)) { CHECK(dup, "%s: packet id %u used again for %s while unacknowledged for %s", c.id.c_str(), pid, m.str().c_str(), c.pending[pid].str().c_str()); CHECK(c.pending[pid].payload == m.payload, "resend with another payload"); c.dups++; }
			else { if (dup) c.dups++; c.got.push_back(m); if (m.qos == 2 && c.rec.count(pid)) { CHECK(dup, "packet id reused in a QoS 2 handshake"); c.got.pop_back(); break; } c.pending[pid] = m; }
			if (c.rmax) CHECK(c.pending.size() + c.rec.size() <= c.rmax, "%s: %zu messages in flight, the receive maximum is %u", c.id.c_str(), c.pending.size() + c.rec.size(), c.rmax);
			if (!c.hold) { c.pending.erase(pid); if (m.qos == 1) ack(c, 4, pid); else { c.rec.insert(pid); ack(c, 5, pid); } }
			break;
		}
		case 6: { unsigned pid = r.u(2); CHECK((first & 15) == 2, "flags of PUBREL"); c.rec.erase(pid); ack(c, 7, pid); break; }
		case 4: case 5: case 7: case 9: case 11: { c.other.push_back({type, b}); break; }
		case 13: c.pongs++; CHECK(b.empty(), "PINGRESP with content"); break;
		case 14: c.reason = b.empty() ? 0 : (int) r.u(1); CHECK(!r.bad, "DISCONNECT"); fin(c); c.gone = true; return;
		default: FAIL("%s: packet of type %u from the broker", c.id.c_str(), type);
	}
	CHECK(!r.bad, "truncated packet of type %u", type);
}
static bool drain(Cl &c) {
	bool any = false; if (!c.open) return false;
	char buf[65536]; ssize_t n; while ((n = recv(c.fd, buf, sizeof(buf), MSG_DONTWAIT)) > 0) c.in.append(buf, (size_t) n);
	bool eof = n == 0 || (n < 0 && errno != EAGAIN); if (c.raw) { c.in.clear(); if (eof) fin(c); return false; }
	while (c.in.size() >= 2) { size_t len = 0, i = 1, sh = 0; bool ok = false; for (; i < c.in.size() && i < 5; i++) { len |= (size_t) (c.in[i] & 127) << sh; sh += 7; if (!(c.in[i] & 128)) { ok = true; i++; break; } } if (!ok || c.in.size() < i + len) break; unsigned f = (uint8_t) c.in[0]; S b = c.in.substr(i, len); c.in.erase(0, i + len); if (f >> 4 != 13) any = true; one(c, f, b); if (!c.open) break; }
	if (eof) { CHECK(c.in.empty() || !c.open, "half a packet before the end"); fin(c); c.gone = true; any = true; }
	return any;
}
static uint64_t mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000 + (uint64_t) t.tv_nsec / 1000000; }
template <class F> static void spin(F done, const char *what) { uint64_t t = mono(); while (!done()) { rrr_event_dispatch_once(g_queue); for (auto c : g_cl) drain(*c); CHECK(mono() - t < 10000, "no answer: %s (reason %d)", what, g_old.empty() ? -2 : g_old.back().reason); } }
static uint64_t active() { unsigned long long st[4]; c12_stats(st); return st[0]; }
// Wait until the broker has nothing more to send
static void settle() {
	int quiet = 0; uint64_t t = mono();
	while (quiet < 3) {
		bool any = false; uint64_t open = 0;
		for (auto c : g_cl) if (c->open && c->connack == 0) { c->pings++; put(*c, S("\xc0\0", 2)); }
		while (1) {
			rrr_event_dispatch_once(g_queue); bool wait = false; open = 0;
			for (auto c : g_cl) { if (drain(*c)) any = true; if (c->open) { open++; if (c->connack == 0 && c->pongs < c->pings) wait = true; } }
			if (active() != open) wait = true; if (!wait) break; CHECK(mono() - t < 10000, "the broker does not answer (%d connections, %d here)", (int) active(), (int) open);
		}
		quiet = any ? 0 : quiet + 1;
	}
}
static unsigned g_wait;
static void broker_up(const char *acl, const char *pw, int noanon, int disc, const char *perm = NULL) {
	CHECK(rrr_event_queue_new(&g_queue) == 0, "queue"); memset(&g_tick, 0, sizeof g_tick); rrr_event_collection_init(&g_events, g_queue); CHECK(rrr_event_collection_push_periodic(&g_tick, &g_events, tick, NULL, 1000) == 0, "timer"); EVENT_ADD(g_tick);
	CHECK(c12_new(g_queue, acl, pw, perm, noanon, disc, 100, g_wait) == 0, "broker");
	static unsigned cnt = 0; int ret = 1;
	for (int k = 0; k < 200 && ret; k++) { g_port = 10000 + (int) (((unsigned) getpid() * 131u + cnt++) % 22000); int fd = socket(AF_INET6, SOCK_STREAM, 0), on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); struct sockaddr_in6 a = {}; a.sin6_family = AF_INET6; a.sin6_port = htons((uint16_t) g_port); int b = bind(fd, (struct sockaddr *) &a, sizeof a); close(fd); if (b) continue; ret = c12_listen((unsigned) g_port); CHECK(ret == 0 || k < 5, "listen"); break; }
	CHECK(ret == 0, "no port");
}
static void broker_down() { for (auto c : g_cl) fin(*c); g_cl.clear(); c12_down(); rrr_event_collection_clear(&g_events); rrr_event_queue_destroy(g_queue); }
static void dial(Cl &c) {
	struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t) g_port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); c.fd = socket(AF_INET, SOCK_STREAM, 0); int on = 1; setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
	struct linger lg = {1, 0}; (void) lg; CHECK(connect(c.fd, (struct sockaddr *) &a, sizeof a) == 0, "connect: %s", strerror(errno)); fcntl(c.fd, F_SETFL, O_NONBLOCK); c.open = true; c.gone = false; c.connack = -1; c.present = false; c.pings = c.pongs = 0; c.reason = -1; c.in.clear(); c.other.clear();
}

// ---- messages -----------------------------------------------------------------------------------------------------------------------------------------------
static S enc_msg_props(const Msg &m) { S p; if (m.expiry) { p += '\x02'; wr_be(p, m.expiry, 4); } if (!m.ctype.empty()) { p += '\x03'; pstr(p, m.ctype); } if (!m.user.empty()) { p += '\x26'; size_t e = m.user.find('='); pstr(p, m.user.substr(0, e)); pstr(p, m.user.substr(e + 1, m.user.size() - e - 2)); } return p; }
static S enc_publish(int ver, const Msg &m, unsigned pid, bool dup) { S b; pstr(b, m.topic); if (m.qos) p16(b, pid); if (ver == 5) b += props(enc_msg_props(m)); b += m.payload; return pkt(0x30 | (dup ? 8 : 0) | (unsigned) m.qos << 1 | (m.retain ? 1 : 0), b); }
struct Conn { bool clean = true; uint32_t expiry = 0; bool has_expiry = false; bool will = false; Msg w; uint32_t delay = 0; uint32_t rmax = 0, pmax = 0; S user, pass; bool has_user = false, has_pass = false; unsigned keep = 60000; };
static S enc_connect(const Cl &c, const Conn &k) {
	S b; pstr(b, "MQTT"); b += (char) c.ver; unsigned f = (k.clean ? 2 : 0) | (k.will ? 4 | (unsigned) k.w.qos << 3 | (k.w.retain ? 32 : 0) : 0) | (k.has_pass ? 64 : 0) | (k.has_user ? 128 : 0); b += (char) f; p16(b, k.keep);
	if (c.ver == 5) { S p; if (k.has_expiry) { p += '\x11'; wr_be(p, k.expiry, 4); } if (k.rmax) { p += '\x21'; p16(p, k.rmax); } if (k.pmax) { p += '\x27'; wr_be(p, k.pmax, 4); } b += props(p); }
	pstr(b, c.id); if (k.will) { if (c.ver == 5) { S p; if (k.delay) { p += '\x18'; wr_be(p, k.delay, 4); } b += props(p + enc_msg_props(k.w)); } pstr(b, k.w.topic); pstr(b, k.w.payload); }
	if (k.has_user) pstr(b, k.user); if (k.has_pass) pstr(b, k.pass); return pkt(0x10, b);
}

// ---- the model ----------------------------------------------------------------------------------------------------------------------------------------------
struct World {
	std::map<S, Sess> sess; std::map<S, Msg> retained; std::map<S, Cl> cl; uint64_t now = 0; int serial = 0; Src *s; int delivered = 0, kinds = 0; std::set<S> used;
	Cl &client(const S &id) { bool fresh = !cl.count(id); Cl &c = cl[id]; if (fresh) { c.id = id; g_cl.push_back(&c); } return c; }
	bool expired(const Msg &m) { return m.expiry && m.at + m.expiry < now; }
	void forward(const Msg &m) {
		if (m.retain) { if (m.payload.empty()) retained.erase(m.topic); else { retained[m.topic] = m; } }
		for (auto &x : sess) for (auto &sub : x.second.subs) if (match(sub.first, m.topic)) { Out o; (Msg &) o = m; o.retain = false; o.qos = std::min(m.qos, sub.second); if (x.second.pmax && m.payload.size() > x.second.pmax) { if (x.second.connected) continue; o.optional = true; } if (!x.second.connected && o.qos == 0) o.optional = true; x.second.q.push_back(o); }
	}
	void publish_will(Sess &x) { if (!x.has_will) return; x.has_will = false; Msg m = x.will; m.at = now; forward(m); used.insert("will"); }
	void maintain() { for (auto it = sess.begin(); it != sess.end();) { Sess &x = it->second; if (!x.connected) { if (x.has_will && x.will_at && x.will_at <= now) publish_will(x); if (!x.never && x.expire_at <= now) { publish_will(x); it = sess.erase(it); used.insert("expired"); continue; } if (x.never && x.gone_at + 20 <= now) { publish_will(x); it = sess.erase(it); used.insert("forced timeout"); continue; } } ++it; } }
	void disconnected(const S &id, bool normal) { if (!sess.count(id)) return; Sess &x = sess[id]; x.connected = false; x.gone_at = now; x.never = x.expiry == 0xffffffffu; x.expire_at = now + x.expiry; if (normal) x.has_will = false; if (x.has_will) x.will_at = now + x.will_delay; if (x.expiry == 0) { publish_will_and_erase(id); return; } if (x.has_will && x.will_delay == 0) publish_will(x); }
	void publish_will_and_erase(const S &id) { Sess x = sess[id]; sess.erase(id); if (x.has_will) { Msg m = x.will; m.at = now; forward(m); used.insert("will"); } }
	// Compare what the connected clients received with the model
	void compare(const char *op) {
		settle();
		for (auto &x : sess) {
			Sess &ss = x.second; if (!ss.connected) continue; Cl &c = cl[x.first]; CHECK(c.open, "after %s: %s was disconnected (reason %d)", op, x.first.c_str(), c.reason);
			std::vector<Out> keep; std::vector<S> want; std::multiset<S> opt; std::map<S, std::vector<S>> order, seen;
			size_t room = c.hold ? 0 : (size_t) -1; (void) room;
			for (auto &o : ss.q) { if (expired(o) || (ss.pmax && o.payload.size() > ss.pmax)) continue; Msg m = o; if (m.expiry) m.expiry = (uint32_t) (m.expiry - (now - m.at)); if (ss.ver != 5) { m.expiry = 0; m.ctype = m.user = ""; } if (o.optional) opt.insert(m.str()); else want.push_back(m.str()); order[m.topic + (char) m.qos + (char) m.retain].push_back(m.str()); }
			std::vector<S> got; for (auto &m : c.got) { got.push_back(m.str()); seen[m.topic + (char) m.qos + (char) m.retain].push_back(m.str()); }
			std::vector<S> w = want; std::multiset<S> rest; for (auto &g : got) { auto it = std::find(w.begin(), w.end(), g); if (it != w.end()) w.erase(it); else { auto o = opt.find(g); if (o != opt.end()) opt.erase(o); else FAIL("after %s: %s received %s, not expected%s", op, x.first.c_str(), g.c_str(), want.empty() ? "" : (S(" (expected ") + want[0] + ")").c_str()); } }
			bool limited = c.hold && (c.pending.size() >= (c.rmax ? std::min<size_t>(c.rmax, 20) : 20)); if (!w.empty() && !limited) FAIL("after %s: %s did not receive %s (%zu of %zu)", op, x.first.c_str(), w[0].c_str(), w.size(), want.size());
			for (auto &k : seen) { size_t p = 0; auto &o = order[k.first]; for (auto &g : k.second) { while (p < o.size() && o[p] != g) p++; CHECK(p < o.size(), "after %s: %s received %s out of order", op, x.first.c_str(), g.c_str()); p++; } }
			delivered += (int) got.size(); c.got.clear();
			// What a client which holds back its acknowledgements has not received yet stays
			if (limited) { for (auto &o : ss.q) { if (expired(o)) continue; Msg m = o; if (m.expiry) m.expiry = (uint32_t) (m.expiry - (now - m.at)); if (ss.ver != 5) { m.expiry = 0; m.ctype = m.user = ""; } auto it = std::find(w.begin(), w.end(), m.str()); if (it != w.end()) { w.erase(it); keep.push_back(o); } } }
			ss.q = keep;
		}
		for (auto &c : cl) if (!sess.count(c.first) || !sess[c.first].connected) CHECK(c.second.got.empty(), "after %s: %s received a message without session", op, c.first.c_str());
	}
	void advance(uint64_t sec) { while (sec) { uint64_t d = std::min<uint64_t>(sec, 14); bool any = false; for (auto &x : sess) if (x.second.connected) any = true; if (!any) d = sec; c12_now += d * 1000000; now += d; sec -= d; settle(); maintain(); CHECK(c12_maintain() == 0, "maintain"); compare("waiting"); } }
	S topic() { return s->pick({"a", "a/b", "a/c", "b", "b/c", "a//b", "a/b/c"}); }
	S filter() { return s->pick({"a", "a/b", "#", "+", "a/#", "a/+", "+/c", "b", "b/+", "a/+/b", "+/+", "a/b/c", "+/b/#"}); }
	Msg message(int ver) { Msg m; m.topic = topic(); m.qos = (int) s->u(2); m.retain = s->chance(1, 4); m.payload = "m" + std::to_string(serial++); if (s->chance(1, 12)) m.payload += S(300, 'x'); if (m.retain && s->chance(1, 4)) m.payload = ""; m.at = now; bool held = false; for (auto &q : cl) held |= q.second.hold; if (ver == 5) { if (!held && s->chance(1, 4)) m.expiry = 2 * (uint32_t) s->u(30) + 1; if (s->chance(1, 6)) m.ctype = "text"; if (s->chance(1, 6)) m.user = s->pick({"k=v;", "a=;", "=b;"}); } return m; }
	void op_connect(const S &id) {
		Cl &c = client(id); bool had = sess.count(id) != 0; Conn k; int ver = s->flip() ? 5 : 4; k.clean = s->chance(1, 3);
		if (had && !k.clean && sess[id].ver != ver) ver = sess[id].ver;
		c.ver = ver;
		if (ver == 5) { if ((k.has_expiry = s->chance(3, 4))) k.expiry = (uint32_t) s->pick({0, 1, 11, 35, 301, 9001, -1}); if (s->chance(1, 4)) k.rmax = 1 + (uint32_t) s->u(3); if (s->chance(1, 6)) k.pmax = 200; } else k.expiry = k.clean ? 0 : 0xffffffffu;
		if (s->chance(1, 3)) { k.will = true; k.w = message(4); k.w.topic = s->pick({"a", "a/b", "b"}); if (ver == 5) { k.delay = (uint32_t) s->pick({0, 1, 13, 101, 5001, 4296}); if (k.delay == 4296 && s->chance(3, 4)) { k.has_expiry = true; k.expiry = 9001; } } if (k.w.payload.empty()) k.w.payload = "w"; }
		bool over = had && sess[id].connected; Cl *old = NULL; if (had && sess[id].ver != ver && !k.clean) ver = sess[id].ver;
		if (over && c.hold) letgo(id);
		if (over) { g_old.push_back(c); old = &g_old.back(); old->id += " (old)"; old->ver = sess[id].ver; for (auto &q : g_cl) if (q == &c) q = old; g_cl.push_back(&c); unsigned pid = c.pid; c = Cl(); c.id = id; c.ver = ver; c.pid = pid; used.insert("take-over"); }
		c.hold = false; c.pending.clear(); c.rec.clear(); c.rmax = ver == 5 ? k.rmax : 0; c.pmax = ver == 5 ? k.pmax : 0;
		desc("; connect %s v%d clean %d expiry %u will %d delay %u rmax %u pmax %u", id.c_str(), ver, k.clean, k.expiry, k.will, k.delay, k.rmax, k.pmax);
		dial(c); put(c, enc_connect(c, k)); spin([&] { return c.connack >= 0 || !c.open; }, "CONNECT"); CHECK(c.connack == 0, "CONNECT of %s refused: %d", id.c_str(), c.connack);
		if (old) { Cl &o = *old; spin([&] { return !o.open; }, "take-over"); if (o.ver == 5 && g_wait) CHECK(o.reason == 0x8e, "take-over: reason %d", o.reason); CHECK(o.got.empty(), "message to the old connection"); g_cl.erase(std::find(g_cl.begin(), g_cl.end(), old)); g_old.pop_back(); }
		bool ends = over && sess[id].expiry == 0; // Both are accepted when a session which lasts as long as its connection is taken over
		if (ends && !k.clean) { CHECK(c.connack == 0, "refused"); } else CHECK(c.present == (had && !k.clean), "session present is %d, clean %d, session %s", c.present, k.clean, had ? "exists" : "does not exist");
		if (over) sess[id].connected = false;
		if (had && sess[id].has_will && (k.clean || (over && (ends || sess[id].will_delay == 0)))) publish_will(sess[id]);
		if (!c.present) had = false;
		if (!had || k.clean) { sess.erase(id); }
		Sess &x = sess[id]; x.id = id; x.connected = true; x.ver = ver; x.expiry = k.expiry; x.has_will = k.will; x.will = k.w; x.will_delay = k.delay; x.will_at = 0; x.pmax = k.pmax ? 200 : 0;
		if (had && !k.clean) used.insert("resumed"); compare("connect");
	}
	// Identifiers of the broker itself are not given away
	void op_reserved() {
		Cl c; c.id = "mqtt-client-" + std::to_string(s->u(3)); c.ver = s->flip() ? 5 : 4; desc("; connect %s", c.id.c_str()); g_cl.push_back(&c); dial(c); Conn k; put(c, enc_connect(c, k)); spin([&] { return c.connack >= 0 || !c.open; }, "CONNECT");
		CHECK(c.connack == (c.ver == 5 ? 0x85 : 2) || c.connack == -1, "CONNECT with a reserved identifier: %d", c.connack); fin(c); g_cl.pop_back(); compare("refused CONNECT"); used.insert("reserved");
	}
	void op_leave(const S &id) {
		Cl &c = cl[id]; Sess &x = sess[id]; int how = (int) s->u(2); desc("; leave %s %s", id.c_str(), how == 0 ? "drop" : how == 1 ? "normal" : "with will");
		if (c.hold) for (auto &m : c.pending) if (m.second.expiry) { letgo(id); break; }
		if (how == 0) { fin(c); }
		else { S b; if (c.ver == 5 && how == 2) b += '\x04'; put(c, pkt(0xe0, b)); for (int k = 0; k < 1000 && c.open; k++) { rrr_event_dispatch_once(g_queue); drain(c); } fin(c); }
		// What has not been acknowledged is sent again when the session is resumed
		if (c.hold) { std::vector<Out> again; for (auto &m : c.pending) { Out o; (Msg &) o = m.second; o.at = now; again.push_back(o); } if (!again.empty()) used.insert("resent"); x.q.insert(x.q.begin(), again.begin(), again.end()); c.hold = false; c.pending.clear(); }
		uint64_t t = mono(); while (1) { uint64_t open = 0; for (auto q : g_cl) open += q->open; if (active() == open) break; rrr_event_dispatch_once(g_queue); for (auto q : g_cl) drain(*q); CHECK(mono() - t < 10000, "the connection stays"); }
		disconnected(id, how == 1 || (how == 2 && c.ver != 5)); compare("disconnect");
	}
	void letgo(const S &id) {
		Cl &c = cl[id]; desc("; %s acknowledges %d", id.c_str(), (int) c.pending.size()); c.hold = false; auto p = c.pending; c.pending.clear(); for (auto &m : p) { if (m.second.qos == 1) ack(c, 4, m.first); else { c.rec.insert(m.first); ack(c, 5, m.first); } } compare("acknowledgements");
	}
	void op_subscribe(const S &id) {
		Cl &c = cl[id]; Sess &x = sess[id]; std::vector<std::pair<S, int>> fs; for (unsigned n = 1 + (unsigned) s->u(2); n--;) { S f = filter(); bool dup = false; for (auto &y : fs) dup |= y.first == f; if (!dup) fs.push_back({f, (int) s->u(2)}); }
		unsigned pid = c.pid++; S b; p16(b, pid); if (c.ver == 5) b += props(""); for (auto &f : fs) { pstr(b, f.first); b += (char) f.second; desc("; subscribe %s %s q%d", id.c_str(), f.first.c_str(), f.second); }
		c.other.clear(); put(c, pkt(0x82, b)); spin([&] { return !c.other.empty() || !c.open; }, "SUBSCRIBE"); CHECK(c.open, "SUBSCRIBE disconnected"); CHECK(c.other[0].first == 9, "not SUBACK"); S w; p16(w, pid); if (c.ver == 5) w += '\0'; for (auto &f : fs) w += (char) f.second; CHECK(c.other[0].second == w, "SUBACK %s, expected %s", show(c.other[0].second).c_str(), show(w).c_str());
		std::vector<std::pair<S, int>> fresh; for (auto &f : fs) { bool found = false; for (auto &y : x.subs) if (y.first == f.first) { y.second = f.second; found = true; } if (!found) { x.subs.push_back(f); fresh.push_back(f); } }
		for (auto it = retained.begin(); it != retained.end();) { if (expired(it->second)) it = retained.erase(it); else ++it; }
		for (auto &m : retained) for (auto &f : fresh) if (match(f.first, m.first)) { Out o; (Msg &) o = m.second; o.retain = true; o.qos = std::min(o.qos, f.second); if (x.pmax && o.payload.size() > x.pmax) continue; x.q.push_back(o); used.insert("retained"); }
		compare("subscribe");
	}
	void op_unsubscribe(const S &id) {
		Cl &c = cl[id]; Sess &x = sess[id]; S f = !x.subs.empty() && s->chance(3, 4) ? x.subs[(size_t) s->u(x.subs.size() - 1)].first : filter(); unsigned pid = c.pid++; S b; p16(b, pid); if (c.ver == 5) b += props(""); pstr(b, f); desc("; unsubscribe %s %s", id.c_str(), f.c_str());
		c.other.clear(); put(c, pkt(0xa2, b)); spin([&] { return !c.other.empty() || !c.open; }, "UNSUBSCRIBE"); CHECK(c.open, "UNSUBSCRIBE disconnected"); bool was = false; for (size_t i = 0; i < x.subs.size(); i++) if (x.subs[i].first == f) { x.subs.erase(x.subs.begin() + (long) i); was = true; break; }
		S w; p16(w, pid); if (c.ver == 5) { w += '\0'; w += (char) (was ? 0 : 17); } CHECK(c.other[0].first == 11 && c.other[0].second == w, "UNSUBACK %s, expected %s", show(c.other[0].second).c_str(), show(w).c_str()); compare("unsubscribe");
	}
	// Several messages with the same packet id, each as soon as the previous one is acknowledged
	void op_burst(const S &id) {
		Cl &c = cl[id]; unsigned pid = c.pid++; used.insert("burst"); desc("; burst %s", id.c_str());
		for (unsigned n = 2 + (unsigned) s->u(3); n--;) {
			Msg m = message(c.ver); m.qos = 1 + (int) s->u(1); desc(" %s", m.str().c_str()); c.other.clear(); put(c, enc_publish(c.ver, m, pid, false));
			auto wait = [&](unsigned type) { spin([&] { return count(c, type, pid) || !c.open; }, "acknowledgement"); CHECK(c.open, "disconnected while waiting for packet type %u", type); c.other.clear(); };
			if (m.qos == 1) wait(4); else { wait(5); ack(c, 6, pid); wait(7); } forward(m);
		}
		compare("burst");
	}
	static int count(Cl &c, unsigned type, unsigned pid) { int n = 0; for (auto &o : c.other) { S w; p16(w, pid); if (o.first == type && o.second.substr(0, 2) == w) { n++; CHECK(o.second.size() <= 2 || (uint8_t) o.second[2] < 0x80 || type == 7, "acknowledgement with reason 0x%02x", (uint8_t) o.second[2]); } } return n; }
	void op_publish(const S &id) {
		Cl &c = cl[id]; Sess &x = sess[id]; Msg m = message(c.ver); unsigned pid = c.pid++; desc("; publish %s %s", id.c_str(), m.str().c_str()); c.other.clear(); put(c, enc_publish(c.ver, m, pid, false));
		if (m.qos == 0) { forward(m); compare("publish"); return; }
		if (m.qos == 1) { spin([&] { return !c.other.empty() || !c.open; }, "PUBACK"); CHECK(c.open && count(c, 4, pid) == 1, "no PUBACK"); forward(m); compare("publish QoS 1"); return; }
		spin([&] { return !c.other.empty() || !c.open; }, "PUBREC"); CHECK(c.open && count(c, 5, pid) == 1, "no PUBREC");
		if (s->chance(1, 4)) { used.insert("dup"); put(c, enc_publish(c.ver, m, pid, true)); spin([&] { return c.other.size() >= 2 || !c.open; }, "PUBREC"); CHECK(c.open && count(c, 5, pid) == 2, "no PUBREC for the second PUBLISH"); }
		if (s->chance(1, 4)) { x.in2[pid] = m; compare("publish QoS 2, not released"); return; }
		release(id, pid, m);
	}
	void release(const S &id, unsigned pid, Msg m) {
		Cl &c = cl[id]; c.other.clear(); ack(c, 6, pid); spin([&] { return !c.other.empty() || !c.open; }, "PUBCOMP"); CHECK(c.open && count(c, 7, pid) == 1, "no PUBCOMP"); forward(m); compare("release of QoS 2");
		if (s->chance(1, 4)) { c.other.clear(); ack(c, 6, pid); spin([&] { return !c.other.empty() || !c.open; }, "PUBCOMP"); CHECK(c.open && count(c, 7, pid) == 1, "no PUBCOMP for a second PUBREL"); compare("second release of QoS 2"); }
	}
};

#ifndef VP_C37
static void sessions(Src &s) {
	c12_now = 1700000000ull * 1000000; g_cl.clear(); g_old.clear(); World w; w.s = &s; g_wait = s.chance(1, 16) ? 1 : 0; if (g_wait) label("close wait"); broker_up(NULL, NULL, 0, 0);
	Cl &p = w.client("probe"); p.ver = 5; { Conn k; dial(p); put(p, enc_connect(p, k)); spin([&] { return p.connack >= 0 || !p.open; }, "CONNECT"); CHECK(p.connack == 0, "CONNECT refused"); Sess &x = w.sess["probe"]; x.id = "probe"; x.connected = true; x.ver = 5; }
	unsigned steps = 4 + (unsigned) s.u(26);
	for (unsigned i = 0; i < steps; i++) {
		S id = s.pick({"c1", "c2", "c3"}); bool up = w.sess.count(id) && w.sess[id].connected; bool probe = s.chance(1, 6); if (probe) { id = "probe"; up = true; }
		Sess *x = w.sess.count(id) ? &w.sess[id] : NULL;
		if (!up) { if (s.chance(1, 6)) { uint64_t t = 2 * (1 + s.u(20)); desc("; wait %d", (int) t); w.advance(t); continue; } if (s.chance(1, 30)) { w.op_reserved(); continue; } w.op_connect(id); continue; }
		switch (s.u(10)) {
			case 0: case 1: w.op_subscribe(id); break;
			case 2: w.op_unsubscribe(id); break;
			case 3: if (!probe && x->in2.empty()) { w.op_leave(id); break; } // fall through
			case 4: if (!x->in2.empty()) { unsigned pid = x->in2.begin()->first; Msg m = x->in2.begin()->second; x->in2.erase(pid); desc("; release %s %u", id.c_str(), pid); w.release(id, pid, m); break; } // fall through
			case 5: { uint64_t t = 2 * (1 + s.pick({0u, 1u, 3u, 8u, 20u, 60u})); for (auto &y : w.sess) if (!y.second.connected && y.second.has_will && y.second.will_delay > 1000 && s.flip()) t = 800; desc("; wait %d", (int) t); w.advance(t); break; }
			case 7: if (!probe && s.chance(1, 2)) { Cl &c = w.cl[id]; if (c.hold) w.letgo(id); else { desc("; %s holds", id.c_str()); c.hold = true; } break; } // fall through
			case 6: if (!probe && s.chance(1, 2)) { w.op_connect(id); break; } // fall through
			default: if (s.chance(1, 6)) w.op_burst(id); else w.op_publish(id); break;
		}
	}
	broker_down(); if (w.delivered) nontrivial(); for (auto &u : w.used) label(u.c_str());
}
VP_TARGET(sessions, 1200, "a message was delivered");

// ---- packet ids ---------------------------------------------------------------------------------------------------------------------------------------------
extern "C" {
#include "lib/mqtt/mqtt_id_pool.h"
}
static void ids(Src &s) {
	struct rrr_mqtt_id_pool p; CHECK(rrr_mqtt_id_pool_init(&p) == 0, "init"); std::vector<char> used(65536, 0); std::vector<unsigned> out; bool many = false;
	for (size_t k = 2 + s.len(10); k; k--) switch (s.u(5)) {
		default: { unsigned n = s.pick({1u, 2u, 33u, 70u, 1000u, 17000u, 66000u}); desc("; get %u", n); for (; n; n--) { unsigned id = rrr_mqtt_id_pool_get_id(&p); if (out.size() == 65535) { CHECK(id == 0, "%u was given when all are in use", id); label("all in use"); break; } CHECK(id != 0, "no id was given when %u are in use", (unsigned) out.size()); CHECK(!used[id], "id %u is in use already", id); used[id] = 1; out.push_back(id); } many |= out.size() > 64; break; }
		case 3: { unsigned n = s.pick({1u, 5u, 40u, 9000u, 65535u}); desc("; release %u at random", n); for (; n && !out.empty(); n--) { size_t i = (size_t) ((n * 2654435761u + k) % out.size()); if (n < 4) i = (size_t) s.u(out.size() - 1); std::swap(out[i], out.back()); used[out.back()] = 0; rrr_mqtt_id_pool_release_id(&p, (uint16_t) out.back()); out.pop_back(); } break; }
		case 4: { desc("; release all"); for (auto i : out) { used[i] = 0; rrr_mqtt_id_pool_release_id(&p, (uint16_t) i); } out.clear(); break; }
		case 5: if (s.flip()) { desc("; clear"); rrr_mqtt_id_pool_clear(&p); used.assign(65536, 0); out.clear(); } break;
	}
	rrr_mqtt_id_pool_destroy(&p); if (many) nontrivial();
}
VP_TARGET(ids, 2000, "more than 64 ids are in use at once");

// ---- arbitrary packets, in any order ------------------------------------------------------------------------------------------------------------------------
static S any_packet(Src &s, int ver) {
	unsigned pid = 1 + (unsigned) s.u(s.chance(1, 4) ? 4 : 1); S b; S t = s.pick({"a", "a/b", "b", "$SYS/x", "", "a/#", "+"}); 
	switch (s.chance(7, 8) ? s.u(8) : s.u(13)) {
		case 0: case 1: case 2: { Msg m; m.topic = s.chance(3, 4) ? "a" : t; m.qos = (int) s.u(2); m.retain = s.chance(1, 4); m.payload = s.chars(s.u(4), "xy"); if (ver == 5 && s.chance(1, 4)) m.expiry = 1 + (uint32_t) s.u(5); return enc_publish(ver, m, s.chance(1, 16) ? 0 : pid, s.flip()); }
		case 3: case 4: case 5: { unsigned type = 4 + (unsigned) s.u(3); p16(b, pid); if (ver == 5 && s.flip()) { b += (char) s.pick({0, 0x10, 0x80, 0x87, 0x92, 1}); if (s.flip()) b += props(""); } return pkt(type << 4 | (type == 6 ? 2 : 0), b); }
		case 6: { p16(b, pid); if (ver == 5) b += props(s.chance(1, 4) ? S("\x0b\x05", 2) : S()); for (unsigned n = 1 + (unsigned) s.u(2); n--;) { pstr(b, s.pick({"a", "#", "+/b", "a/#", "by/stander", "$share/g/a", "a#", ""})); b += (char) (s.chance(1, 8) ? s.u(255) : s.u(2)); } return pkt(0x82, b); }
		case 7: { p16(b, pid); if (ver == 5) b += props(""); pstr(b, s.pick({"a", "#", "b"})); return pkt(0xa2, b); }
		case 8: return S("\xc0\0", 2);
		case 9: if (s.chance(1, 3)) { if (ver == 5 && s.flip()) { b += (char) s.pick({0, 4, 0x80, 0x99}); if (s.flip()) b += props(s.flip() ? S("\x11\0\0\0\x05", 5) : S()); } return pkt(0xe0, b); } // fall through
		case 10: { Cl c; c.ver = s.flip() ? 5 : 4; c.id = s.pick({"r0", "r1", "", "mqtt-client-1", "x"}); Conn k; k.clean = s.flip(); k.will = s.chance(1, 3); k.w.topic = t; k.w.payload = "w"; k.w.qos = (int) s.u(2); k.delay = s.chance(1, 4) ? 1 : 0; if (s.chance(1, 4)) { k.has_user = true; k.user = "u"; k.has_pass = s.flip(); k.pass = "p"; } return enc_connect(c, k); }
		case 11: { unsigned type = s.pick({2u, 9u, 11u, 13u, 15u, 0u}); return pkt(type << 4 | (unsigned) s.u(15), s.bytes(s.u(6))); }
		default: return pkt((unsigned) s.u(255), s.bytes(s.u(12)));
	}
}
static void chaos(Src &s) {
	c12_now = 1700000000ull * 1000000; g_cl.clear(); g_old.clear(); World w; w.s = &s; g_wait = 0; broker_up(NULL, NULL, 0, (int) s.u(1));
	Cl by; by.id = "by"; by.ver = 5; Cl r[3]; g_cl.push_back(&by); for (auto &x : r) { x.raw = true; g_cl.push_back(&x); }
	auto service = [&](int n) {
		if (!by.open) { by.ver = 5; Conn k; dial(by); put(by, enc_connect(by, k)); spin([&] { return by.connack >= 0 || !by.open; }, "CONNECT"); CHECK(by.connack == 0, "CONNECT refused"); S b; p16(b, 9); b += props(""); pstr(b, "by/stander"); b += '\x02'; by.other.clear(); put(by, pkt(0x82, b)); spin([&] { return !by.other.empty() || !by.open; }, "SUBSCRIBE"); CHECK(by.open, "bystander disconnected"); by.got.clear(); }
		Msg m; m.topic = "by/stander"; m.payload = "m" + std::to_string(n); m.qos = n % 3; put(by, enc_publish(5, m, (unsigned) n + 1, false)); if (m.qos == 2) { by.other.clear(); spin([&] { return !by.other.empty() || !by.open; }, "PUBREC"); ack(by, 6, (unsigned) n + 1); }
		spin([&] { return !by.got.empty() || !by.open; }, "service"); CHECK(by.open && by.got.size() == 1 && by.got[0].str() == m.str(), "bystander received %s", by.got.empty() ? "nothing" : by.got[0].str().c_str()); by.got.clear(); by.other.clear();
	};
	service(0); unsigned steps = 3 + (unsigned) s.u(37); int sent = 0;
	for (unsigned i = 0; i < steps; i++) {
		Cl &c = r[s.u(s.chance(1, 3) ? 2 : 0)]; unsigned act = (unsigned) s.u(15);
		if (!c.open) { dial(c); c.ver = s.flip() ? 5 : 4; desc("; dial"); if (s.chance(15, 16)) { Conn k; k.clean = s.chance(1, 4); c.id = s.pick({"r0", "r1"}); if (c.ver == 5) { k.has_expiry = s.flip(); k.expiry = s.flip() ? 0xffffffff : 5; k.rmax = (uint32_t) s.u(2); } k.will = s.chance(1, 4); k.w.topic = "a"; k.w.payload = "w"; desc(" v%d %s clean %d", c.ver, c.id.c_str(), k.clean); put(c, enc_connect(c, k)); } }
		else if (act == 0) { desc("; close"); fin(c); }
		else if (act == 1) { uint64_t t = s.pick({1u, 10u, 61u}); desc("; wait %d", (int) t); while (t) { unsigned d = std::min<unsigned>((unsigned) t, 14); t -= d; c12_now += d * 1000000ull; service(200 + (int) i); CHECK(c12_maintain() == 0, "maintain"); } }
		else { S d; for (unsigned n = 1 + (unsigned) s.u(2); n--;) d += any_packet(s, c.ver); if (s.chance(1, 32) && !d.empty()) d[(size_t) s.u(d.size() - 1)] = (char) s.u(255); if (s.chance(1, 48)) d.resize((size_t) s.u(d.size())); desc("; send %s", show(d).c_str()); put(c, d); sent++; }
		for (unsigned n = (unsigned) s.u(3); n--;) { rrr_event_dispatch_once(g_queue); for (auto q : g_cl) drain(*q); }
		if (s.chance(1, 4)) service((int) i + 1);
	}
	for (auto &x : r) fin(x); service(100); broker_down(); if (sent >= 3) nontrivial();
}
VP_TARGET(chaos, 1600, "at least three times, arbitrary packets were sent");

#endif
static void init() { vp_lib_init(); signal(SIGPIPE, SIG_IGN); }
#ifndef VP_C37
VP_MAIN(init)
#endif
