// C16: the message database
#include "common.hpp"
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
extern "C" {
#include "lib/event/event.h"
#include "lib/event/event_collection.h"
#include "lib/event/event_collection_struct.h"
#include "lib/msgdb/msgdb_server.h"
#include "lib/msgdb/msgdb_client.h"
#include "lib/messages/msg_msg.h"
#include "lib/util/sha256.h"
}
VP_LOG_PREFIX
using namespace vp;
static uint64_t g_now, g_step, g_steps;
extern "C" uint64_t __real_rrr_time_get_64(void);
extern "C" uint64_t __wrap_rrr_time_get_64(void) { if (g_step && g_steps) { g_steps--; g_now += g_step; } return g_now; }
struct M { std::string data; uint64_t ts; int cls; bool damaged = false, maybe_gone = false; bool operator==(const M &o) const { return data == o.data && ts == o.ts && cls == o.cls; } };
struct Ans { int kind; std::string topic; M m; };	// 0 ack, 1 nack, 2 message
struct Cl { struct rrr_msgdb_client_conn c; bool open = false; std::deque<Ans> got; };
static int deliver(struct rrr_msg_msg **msg, short pos, short neg, void *arg) {
	Cl *c = (Cl *) arg; Ans a; CHECK((*msg != NULL) + !!pos + !!neg == 1, "answer"); a.kind = pos ? 0 : neg ? 1 : 2;
	if (*msg) { struct rrr_msg_msg *m = *msg; a.topic.assign(MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m)); a.m.data.assign(MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)); a.m.ts = m->timestamp; a.m.cls = MSG_CLASS(m); CHECK(MSG_TYPE(m) == MSG_TYPE_MSG, "type %d", MSG_TYPE(m)); }
	c->got.push_back(a); return 0;
}
struct DB { std::string dir, sock; struct rrr_event_queue *q; struct rrr_msgdb_server *srv = NULL; std::map<std::string, M> m; unsigned levels; Cl cl[2]; };
static void walk(const std::string &d, std::vector<std::string> &files, std::vector<std::string> &dirs) {
	DIR *x = opendir(d.c_str()); if (!x) return; while (struct dirent *e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string p = d + "/" + n; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { dirs.push_back(p); walk(p, files, dirs); } else files.push_back(p); } closedir(x);
}
static std::string sha(const std::string &t) { uint8_t h[32]; rrr_sha256_calculate(h, t.data(), t.size()); char b[65]; for (int i = 0; i < 32; i++) sprintf(b + 2 * i, "%02x", h[i]); return b; }
static void turn(DB &d) { CHECK(rrr_event_dispatch_once(d.q) == 0, "event loop"); }
static Ans answer(DB &d, Cl &c, const char *what) { uint64_t end = __real_rrr_time_get_64() + 6000000; while (c.got.empty()) { turn(d); CHECK(__real_rrr_time_get_64() < end, "no answer to %s", what); } Ans a = c.got.front(); c.got.pop_front(); return a; }
static void start(DB &d) { CHECK(rrr_msgdb_server_new(&d.srv, d.q, d.dir.c_str(), d.sock.c_str(), d.levels) == 0, "start"); }
static void copen(DB &d, Cl &c) { memset(&c.c, 0, sizeof c.c); CHECK(rrr_msgdb_client_open(&c.c, d.sock.c_str(), d.q, deliver, &c) == 0, "connect"); c.open = true; c.got.clear(); }
static void close(Cl &c) { if (c.open) rrr_msgdb_client_close(&c.c); c.open = false; }
static void send(DB &, Cl &c, int type, const std::string &t, const M &m) { struct rrr_msg_msg *x = NULL; CHECK(rrr_msg_msg_new_with_data(&x, (rrr_u8) type, (rrr_u8) m.cls, m.ts, t.data(), (rrr_u16) t.size(), m.data.data(), (rrr_u32) m.data.size()) == 0, "new"); std::string keep((char *) x, MSG_TOTAL_SIZE(x)); CHECK(rrr_msgdb_client_send(&c.c, x) == 0, "send"); CHECK(keep == std::string((char *) x, MSG_TOTAL_SIZE(x)), "the message is changed by sending"); rrr_free(x); }
static void expect(DB &d, Cl &c, int kind, const char *what, const std::string &t, const M *m = NULL) {
	Ans a = answer(d, c, what); static const char *n[] = {"ACK", "NACK", "a message"}; CHECK(a.kind == kind, "%s %s: answer is %s, expected %s", what, show(t.substr(0, 60)).c_str(), n[a.kind], n[kind]);
	if (kind == 2) { CHECK(a.topic == t, "topic %s for %s", show(a.topic).c_str(), show(t).c_str()); CHECK(a.m == *m, "%s: message of %s differs: %s, expected %s", what, show(t).c_str(), show(a.m.data.substr(0, 60)).c_str(), show(m->data.substr(0, 60)).c_str()); }
}
static void get(DB &d, Cl &c, const std::string &t) { auto i = d.m.find(t); if (i == d.m.end() || i->second.damaged) expect(d, c, 1, "GET", t); else expect(d, c, 2, "GET", t, &i->second); }
static void stop(DB &d) { for (auto &c : d.cl) close(c); if (d.srv) rrr_msgdb_server_destroy(d.srv); d.srv = NULL; }
static void check_files(DB &d, bool start) {
	std::vector<std::string> f, dd; walk(d.dir, f, dd); std::set<std::string> names; for (auto &p : f) { std::string n = p.substr(p.rfind('/') + 1), x = d.dir; for (unsigned i = 0; i < d.levels; i++) x += std::string("/") + n[i]; CHECK(p == x + "/" + n, "misplaced file %s with %u levels", p.c_str(), d.levels); CHECK(names.insert(n).second, "two files"); }
	for (auto &e : d.m) if (!e.second.maybe_gone) CHECK(names.count(sha(e.first)), "file of %s is missing", show(e.first).c_str()); for (auto &n : names) { bool k = false; for (auto &e : d.m) if (sha(e.first) == n) k = true; CHECK(k, "deleted message is still there"); }
	if (start) for (auto &x : dd) { bool used = false; for (auto &p : f) if (p.compare(0, x.size() + 1, x + "/") == 0) used = true; CHECK(used, "empty directory %s remains", x.c_str()); }
}
static void msgdb(Src &s) {
	std::string tmp = tmpdir(); DB d; d.dir = tmp + "/db"; d.sock = tmp + "/s"; g_now = 1700000000000000ull; g_step = g_steps = 0; const uint64_t base = g_now;
	CHECK(rrr_event_queue_new(&d.q) == 0, "queue"); d.levels = (unsigned) s.weighted({4, 3, 2}); if (thorough() && s.chance(1, 40)) d.levels = 3; start(d); desc("%u levels", d.levels);
	std::vector<std::string> topics; size_t nt = 1 + s.n(s.chance(1, 5) ? 40 : 6); for (size_t i = 0; i < nt; i++) topics.push_back(s.chance(1, 20) ? std::string(60000 + s.u(5535), 'a' + (char) i % 26) : s.flip() ? "t/" + std::to_string(i) : "x" + s.chars(s.len(8), "ab .%&-") + "/" + s.chars(s.len(3), "abc") + "\xc3\xa5"); size_t done = 0;
	size_t ops = 2 + s.len(30);
	for (size_t o = 0; o < ops; o++) {
		Cl &c = d.cl[s.chance(1, 4)]; if (!c.open) copen(d, c);
		switch (s.weighted({12, 4, 3, 2, 2, 1})) {
		case 0: {	// several requests, then their answers
			size_t n = 1 + s.len(8); bool big = false; std::vector<std::function<void()>> ex;
			for (size_t i = 0; i < n; i++) {
				std::string t = s.pick(topics); M m; m.ts = base - 1000000ull * (5 + 10 * s.u(100)); m.cls = s.flip() ? MSG_CLASS_DATA : MSG_CLASS_ARRAY; m.data = s.chance(1, 30) ? s.bytes_cheap(60000) : s.bytes(s.len(30)); if (s.chance(1, 15)) m.ts = base + 1000000000ull; if (t.size() + m.data.size() > 2000 || big) { for (auto &e : ex) e(); ex.clear(); } big = t.size() + m.data.size() > 2000;
				switch (s.weighted({10, 6, 3, 1})) {
				case 0: send(d, c, MSG_TYPE_PUT, t, m); ex.push_back([&d, &c, t, m] { expect(d, c, 0, "PUT", t); d.m[t] = m; }); break;
				case 1: if (t.size() < 60000 && s.flip()) CHECK(rrr_msgdb_client_cmd_get(&c.c, t.c_str()) == 0, "get"); else send(d, c, MSG_TYPE_GET, t, M{"", 0, MSG_CLASS_DATA}); ex.push_back([&d, &c, t] { get(d, c, t); }); break;
				case 2: if (t.size() < 60000) CHECK(rrr_msgdb_client_cmd_del(&c.c, t.c_str()) == 0, "del"); else send(d, c, MSG_TYPE_DEL, t, M{"", 0, MSG_CLASS_DATA}); ex.push_back([&d, &c, t] { expect(d, c, 0, "DEL", t); d.m.erase(t); }); break;
				default: { int ty = s.pick({MSG_TYPE_PUT, MSG_TYPE_GET, MSG_TYPE_DEL}); send(d, c, ty, "", m); ex.push_back([&d, &c] { expect(d, c, 1, "request without topic", ""); }); label("no topic"); } }
				if (s.chance(1, 3)) turn(d);
			}
			for (auto &e : ex) e(); done += n; break; }
		case 1: case 2: {	// index and tidy
			bool idx = s.chance(2, 3); uint32_t age = s.chance(1, 6) ? 0 : s.chance(1, 8) ? 4000000000u : s.chance(1, 8) ? 4294967 + (uint32_t) s.u(600) : 10 * (uint32_t) s.u(102); g_now = base; if (s.chance(1, 3)) { g_step = s.pick({1000, 60000, 160000}); g_steps = 4000000 / g_step; label("slow"); }
			if (idx) CHECK(rrr_msgdb_client_cmd_idx(&c.c, age) == 0, "idx"); else CHECK(rrr_msgdb_client_cmd_tidy(&c.c, age) == 0, "tidy"); std::set<std::string> old, seen; bool dmg = false;
			for (auto &e : d.m) { if (age < 4000000000u && e.second.ts < base - 1000000ull * age) { old.insert(e.first); } if (e.second.damaged) { e.second.maybe_gone = dmg = true; } }
			for (;;) { Ans a = answer(d, c, idx ? "IDX" : "TIDY"); if (a.kind == 0) break; CHECK(a.kind == 2 && idx, "answer to %s", idx ? "IDX" : "TIDY"); CHECK(d.m.count(a.topic), "IDX: unknown message %s", show(a.topic).c_str()); auto &m = d.m[a.topic]; CHECK(old.count(a.topic), "IDX %u: message %s, %lld s old", age, show(a.topic).c_str(), (long long) (base - m.ts) / 1000000); CHECK(!m.damaged && a.m == m, "IDX: message differs"); CHECK(seen.insert(a.topic).second, "IDX: %s came twice", show(a.topic).c_str()); }
			g_step = 0; g_now = base; if (idx) { for (auto &t : old) if (!d.m[t].damaged) CHECK(seen.count(t), "IDX %u: %s is missing", age, show(t).c_str()); label_if(seen.size() > 1, "index of several"); } else { for (auto &t : old) if (!d.m[t].damaged) d.m.erase(t); label_if(!old.empty(), "tidied"); } label_if(dmg, "damaged files present"); done += old.size(); break; }
		case 3: { close(c); turn(d); break; }
		case 4: {	// restart
			stop(d); check_files(d, false); bool again = s.flip(); unsigned was = d.levels; if (again) d.levels = (unsigned) s.weighted({4, 3, 2}); std::vector<std::string> f, dd; walk(d.dir, f, dd);
			for (auto &e : d.m) if (s.chance(1, 8)) { std::string n = sha(e.first), p; for (auto &x : f) if (x.size() > 64 && x.substr(x.size() - 64) == n) p = x; if (p.empty()) { CHECK(e.second.maybe_gone, "file is missing"); continue; } struct stat st; CHECK(stat(p.c_str(), &st) == 0, "stat"); size_t z = (size_t) st.st_size; e.second.damaged = true; label("damage");
				FILE *h = fopen(p.c_str(), "r+b"); CHECK(h, "open"); if (z == 0 || s.chance(1, 4)) { fseek(h, 0, SEEK_END); fputs("junk", h); } else if (s.flip()) { CHECK(ftruncate(fileno(h), (off_t) s.u(z - 1)) == 0, "truncate"); } else { size_t at = s.flip() ? s.u(z - 1) : z - 1; fseek(h, (long) at, SEEK_SET); int b = fgetc(h); fseek(h, (long) at, SEEK_SET); fputc(b ^ (1 + (int) s.u(254)), h); } fclose(h); }
			start(d); check_files(d, true); label(again && was != d.levels ? "other levels" : "restart"); break; }
		default: for (auto &t : topics) { if (t.size() >= 60000) continue; CHECK(rrr_msgdb_client_cmd_get(&c.c, t.c_str()) == 0, "get"); get(d, c, t); } done += topics.size(); }
		for (auto &x : d.cl) CHECK(x.got.empty(), "unexpected answer");
	}
	if (done > 4) nontrivial();
	stop(d); check_files(d, false); rrr_event_queue_destroy(d.q); (void) !chdir("/"); clean_tmpdir();
}
VP_TARGET(msgdb, 1500, "more than four messages put, fetched, deleted or listed");
VP_MAIN(vp_lib_init)
