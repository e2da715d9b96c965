// C28: the cacher module, its memory cache and its use of the message database
#include "c28_run.hpp"
static const uint64_t S1 = 1000000;
struct Cmd { int op; std::string topic; uint32_t n; M m; c28_deliver_t f; void *arg; };
static std::map<void *, std::deque<Cmd>> g_pend; static std::vector<Cmd> g_cmds; static int g_down; static std::map<std::string, M> g_db; static std::map<void *, std::string> g_used;
extern "C" int c28_db_open(void) { return g_down; }
static M from(const struct rrr_msg_msg *msg) { struct rrr_msg_holder *h = NULL; size_t n = MSG_TOTAL_SIZE(msg); char *c = (char *) rrr_allocate(n); memcpy(c, msg, n); CHECK(rrr_msg_holder_new(&h, n, NULL, 0, 0, c) == 0, "holder"); M m = read(h); rrr_msg_holder_decref(h); return m; }
extern "C" void c28_db(void *conn, int op, const char *topic, uint32_t n, const struct rrr_msg_msg *msg, c28_deliver_t f, void *arg) { Cmd c{op, topic ? topic : "", n, M(), f, arg}; if (msg) { c.m = from(msg); CHECK(c.m.type == MSG_TYPE_PUT, "a message of type %d is sent to the database", c.m.type); c.topic = c.m.topic; } g_cmds.push_back(c); g_pend[conn].push_back(c); }
extern "C" void c28_db_closed(void *conn) { g_pend[conn].clear(); }
static void answer(Cmd &c, const M *m, int pos, int neg) { struct rrr_msg_msg *msg = NULL; if (m) { struct rrr_msg_holder *h = make(*m); msg = (struct rrr_msg_msg *) h->message; h->message = NULL; rrr_msg_holder_decref(h); } int r = c28_delivery(c.f, c.arg, &msg, pos, neg); if (msg) rrr_free(msg); CHECK(r == 0, "return %d from the delivery", r); }
struct W {
	Src *s; bool fr = false, fd = false, fo = false, consume = false, del = false, noup = false; uint64_t ttl = 0, mttl = 0, rage = 0, rint = 60, tint = 300; std::string tag; std::map<std::string, M> mem; std::vector<Cmd> want; uint64_t next_t = 0, next_r = 0; bool hit = false, db = false;
	void cmd(int op, const std::string &t, uint32_t n = 0, const M *m = NULL) { Cmd c{op, t, n, m ? *m : M(), NULL, NULL}; want.push_back(c); }
	void check(const char *what) {
		compare(what);
		for (size_t i = 0; i < g_cmds.size() || i < want.size(); i++) { CHECK(i < g_cmds.size(), "%s: command %c %s was not sent", what, want[i].op, want[i].topic.c_str()); Cmd &c = g_cmds[i]; CHECK(i < want.size(), "%s: command %c %s was sent", what, c.op, c.topic.c_str()); Cmd &w = want[i]; CHECK(c.op == w.op && c.topic == w.topic && c.n == w.n, "%s: command %c %s %u, expected %c %s %u", what, c.op, c.topic.c_str(), c.n, w.op, w.topic.c_str(), w.n); if (w.op == 'p') { M x = c.m; x.type = w.m.type; CHECK(same(x, w.m, true), "%s: %s was stored, expected %s", what, str(x).c_str(), str(w.m).c_str()); } }
		g_cmds.clear(); want.clear(); CHECK(!c28_paused(), "input is paused");
	}
	bool fresh(const M &m, uint64_t t) const { uint64_t us = t * S1; return us > c28_now || m.ts >= c28_now - us; }
	bool request(const M &m) const { if (tag.empty() || !m.array) return false; for (auto &v : m.v) if (v.tag == tag) return true; return false; }
	M gen() {
		M m; m.ts = c28_now - s->pick({0u, 0u, 1u, 5u, 20u, 100u}) * S1 - s->u(1); m.topic = s->pick({"a", "b", "ab", "a/b", "a", "b", ""}); if (s->chance(1, 40)) m.ts = s->u(5);
		if (s->chance(2, 3)) { for (size_t k = 1 + s->len(2); k; k--) { V v; v.t = 's'; v.tag = s->pick({"x", "r", "rq", ""}); v.data = "d" + s->chars(s->u(2), "xyz"); m.v.push_back(v); } if (!tag.empty() && s->flip()) { V v; v.t = s->flip() ? 'h' : 'v'; v.tag = tag; m.v.push_back(v); } } else { m.array = false; m.data = s->chars(s->u(3), "xyz"); }
		return m;
	}
	void expect(const M &m) {
		auto out = [&](const M &x, const char *r) { g_want.push_back({x, std::string("cacher_") + r + "_receivers"}); };
		if (ttl && !fresh(m, ttl)) { label("expired"); return; }
		if (m.topic.empty()) { if (fo) out(m, "other"); return; }
		if (request(m)) {
			auto i = mem.find(m.topic); if (mttl && i != mem.end() && fresh(i->second, mttl)) { label("found in memory"); hit = true; out(i->second, "data"); if (fr && !consume) out(m, "request"); return; }
			if (!g_down) cmd('g', m.topic); if (fr) out(m, "request"); return;
		}
		if (noup) { if (fo) out(m, "other"); return; }
		bool d = del && !m.array && m.data.empty(); if (g_down) return; if (d) cmd('d', m.topic); else cmd('p', m.topic, 0, &m);
		if (mttl) { if (d) { mem.erase(m.topic); label("deleted"); } else mem[m.topic] = m; } if (fd) out(m, "data");
	}
	void op_feed() { std::vector<M> ms; std::vector<struct rrr_msg_holder *> h; for (size_t k = 1 + s->len(2); k; k--) ms.push_back(gen()); for (auto &m : ms) { desc("; %s", str(m).c_str()); h.push_back(make(m)); expect(m); } CHECK(c28_feed(h.data(), h.size()) == 0, "return"); c28_loop(c28_now); check("message"); }
	// One command at the database
	void op_db() {
		std::vector<void *> cs; for (auto &p : g_pend) if (!p.second.empty()) cs.push_back(p.first); if (cs.empty()) return; auto &q = g_pend[cs[(size_t) s->u(cs.size() - 1)]]; Cmd c = q.front(); q.pop_front(); desc("; database: %c %s", c.op, c.topic.c_str()); db = true;
		int fail = s->chance(1, 12);
		switch (c.op) {
			case 'p': if (!fail) { M m = c.m; m.type = MSG_TYPE_MSG; g_db[c.topic] = m; } answer(c, NULL, !fail, fail); break;
			case 'd': fail |= !g_db.erase(c.topic); answer(c, NULL, !fail, fail); break;
			case 'g': { auto i = g_db.find(c.topic); if (i == g_db.end()) answer(c, NULL, 0, 1); else { M m = i->second; g_want.push_back({m, "cacher_data_receivers"}); answer(c, &m, 0, 0); hit = true; label("found in the database"); } break; }
			case 't': for (auto i = g_db.begin(); i != g_db.end();) if (i->second.ts < c28_now - c.n * S1) i = g_db.erase(i); else ++i; answer(c, NULL, !fail, fail); break;
			default: for (auto &i : g_db) if (i.second.ts <= c28_now - c.n * S1) { g_want.push_back({i.second, "cacher_revive_receivers"}); M m = i.second; answer(c, &m, 0, 0); hit = true; label("revived"); } answer(c, NULL, !fail, fail); break;
		}
		check("answer of the database");
	}
	bool tick(uint64_t t) {
		desc("; %d s", (int) t); uint64_t to = c28_now + t * S1;
		for (;;) {
			uint64_t d = std::min(next_t, next_r); if (d > to) break; bool it = d == next_t; if (it) next_t += tint * S1; else next_r += rint * S1;
			bool sends = !it || ttl; if (sends && !g_down) { if (it) cmd('t', "", (uint32_t) ttl); else cmd('i', "", (uint32_t) rage); } c28_loop(d);
			if (sends && g_down) { CHECK(c28_broken(), "the module goes on after failure"); return false; }
			if (next_t == d || next_r == d) continue; // two events at once
			CHECK(!c28_broken(), "the module stops"); check(it ? "tidy" : "revive");
		}
		c28_loop(to); CHECK(!c28_broken(), "the module stops"); check("time"); return true;
	}
};
static void cacher(Src &s) {
	c28_now = t0 = 1700000000ull * S1; W w; w.s = &s; g_pend.clear(); g_cmds.clear(); g_db.clear(); g_down = 0; std::string conf = "module=cacher\ncacher_msgdb_socket=sock\n";
	auto yn = [&](const char *n, bool &b) { b = s.flip(); if (b || s.flip()) conf += std::string("cacher_") + n + "=" + (b ? "yes" : "no") + "\n"; }; auto num = [&](const char *n, uint64_t &v) { conf += std::string("cacher_") + n + "_seconds=" + std::to_string(v) + "\n"; };
	if (s.chance(9, 10)) { w.tag = s.pick({"r", "rq"}); conf += "cacher_request_tag=" + w.tag + "\n"; }
	yn("forward_requests", w.fr); yn("forward_data", w.fd); yn("forward_other", w.fo); yn("memory_consume_requests", w.consume); yn("empty_is_delete", w.del); if (s.chance(1, 8)) yn("no_update", w.noup);
	if (s.chance(1, 3)) { w.ttl = (uint64_t) s.pick<long>({10, 50, 4000000000}); num("ttl", w.ttl); } if (s.chance(2, 3)) { w.mttl = (uint64_t) s.pick<long>({30, 10, 4294967295}); num("memory_ttl", w.mttl); }
	if (s.chance(1, 3)) { w.rage = s.pick({3u, 30u}); num("revive_age", w.rage); } if (s.flip()) { w.rint = 1 + s.u(40); num("revive_interval", w.rint); } if (s.flip()) { w.tint = 1 + s.u(60); num("tidy_interval", w.tint); }
	if (s.chance(1, 40)) {
		std::string bad = s.pick<const char *>({"ttl_seconds=4294967296", "memory_ttl_seconds=4294967296", "revive_age_seconds=4294967296", "revive_interval_seconds=0", "revive_interval_seconds=4294967296", "tidy_interval_seconds=0", "tidy_interval_seconds=4294967296", "data_receivers=a\nroute=a", "other_receivers=a\nroute=a", "revive_receivers=a\nroute=a", "request_receivers=a\nroute=a", "forward_data=x", "ttl_seconds=-1"});
		size_t i = conf.find("cacher_" + bad.substr(0, bad.find('=') + 1)); if (i != std::string::npos) conf.erase(i, conf.find('\n', i) + 1 - i); conf += "cacher_" + bad + "\n"; desc("%s", conf.c_str()); label("refused configuration");
		CHECK(!run(C28_CACHER, conf, [] {}), "the configuration was accepted"); return;
	}
	desc("%s", conf.c_str());
	CHECK(run(C28_CACHER, conf, [&] {
		w.next_t = c28_now + w.tint * S1; w.next_r = w.rage ? c28_now + w.rint * S1 : UINT64_MAX; if (w.ttl) w.cmd('t', "", (uint32_t) w.ttl); c28_loop(c28_now); w.check("start");
		for (size_t k = 4 + s.len(30); k; k--) switch (s.weighted({6, 5, 2, 1})) { case 0: w.op_feed(); break; case 1: w.op_db(); break; case 2: if (!w.tick(s.pick({0u, 1u, 7u, 31u, 70u}))) return; break; default: g_down = s.chance(1, 4); desc("; database %s", g_down ? "down" : "up"); }
	}), "the module did not start");
	if (w.hit) nontrivial(); g_pend.clear(); g_db.clear();
}
VP_TARGET(cacher, 100000, "a message was given back");
static void init() { vp_lib_init(); }
VP_MAIN(init)
